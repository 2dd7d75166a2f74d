// Contracts for memory streams (SystemClasses/TMemoryStream.cpp, TStream.cpp)
#include <System.Classes.hpp>
#include "Exception.hpp"
#include "vf.h"
#include <vector>
#include <cstring>

#ifdef VF_PROOF
static const uint64_t BIG = 1ull << 32;
#else
static const uint64_t BIG = 1ull << 18;	// the search allocates
#endif

// a stream in an arbitrary state: n arbitrary bytes, position p
struct S : TMemoryStream {
	uint64_t n, p;
	unsigned char *init;
	S(uint64_t maxpos) : n(vf_range("n", 0, BIG)), p(vf_range("p", 0, maxpos))
	{
		init = (unsigned char *)vf_buf("init", n);
		SetSize(n);
		memcpy(GetMemory(), init, n);
		SetPosition(p);
	}
};

PROOF(proof_read)
{
	S m(2 * BIG);
	uint64_t c = vf_range("c", 0, BIG);
	unsigned char *b = (unsigned char *)vf_buf("b", c), *was = (unsigned char *)vf_raw("was", c);
	memcpy(was, b, c);
	uint64_t left = m.p < m.n ? m.n - m.p : 0, want = c < left ? c : left;
	int64_t got = m.Read(b, c);
	vf_assert(got == (int64_t)want, "as many bytes as asked for, or what remains");
	vf_assert(m.GetPosition() == (int64_t)(m.p + want), "the position moves by the bytes read");
	vf_assert(m.GetSize() == (int64_t)m.n, "reading does not change the size");
	if (c > 0) {
		uint64_t k = vf_index("k", c);
		if (k < want) { vf_assert(b[k] == vf_peek(m.init, m.p + k), "the bytes of the stream, in order"); vf_cover("byte"); }
		else vf_assert(b[k] == was[k], "nothing else of the buffer is changed");
	}
	if (m.n > 0) {
		uint64_t j = vf_index("j", m.n);
		vf_assert(vf_peek(m.GetMemory(), j) == m.init[j], "reading changes no byte of the stream");
	}
	vf_cover("read");
}
static void write(S &m, unsigned char *b, uint64_t c, bool small)
{
	unsigned char *at = 0;
	uint64_t end = m.p + c, size = end > m.n ? end : m.n;
	if (c == 0) vf_assume(m.p <= m.n);	// a zero-length write beyond the end: the size is left open
	int64_t got = m.Write(b, c);
	vf_assert(got == (int64_t)c, "everything is written");
	vf_assert(m.GetPosition() == (int64_t)end, "the position moves by the bytes written");
	vf_assert(m.GetSize() == (int64_t)size, "writing past the end extends the stream, nothing else changes its size");
	if (size > 0) {
		uint64_t j = vf_index("j", size);
		unsigned char is = vf_peek(m.GetMemory(), j);
		if (j >= m.p && j < end) { vf_assert(is == vf_peek(b, j - m.p), "the written bytes, in order"); vf_cover("written"); }
		else if (j < m.n) { vf_assert(is == vf_peek(m.init, j), "every other byte is unchanged"); vf_cover("kept"); }
		else { vf_assert(is == 0, "a gap is filled with zeros"); vf_cover("gap"); }
	}
}
PROOF(proof_write)
{
	S m(2 * BIG);
	uint64_t c = vf_range("c", 0, BIG);
	write(m, (unsigned char *)vf_buf("b", c), c, false);
}
PROOF(proof_write_small)
{
	for (int c = 0; c <= 5; c++) {
		S m(2 * BIG);
		write(m, (unsigned char *)vf_buf("b", c), c, true);
	}
}
PROOF(proof_seek)
{
	S m(2 * BIG);
	int64_t o = vf_range("o", 0, 6 * BIG) - 3 * (int64_t)BIG;
	int how = vf_range("how", 0, 2);
	int64_t want = how == 0 ? o : how == 1 ? (int64_t)m.p + o : (int64_t)m.n - o;
	bool fits = want >= 0 && want <= (int64_t)m.n, threw = false;
	int64_t r = -1;
	try {
		r = m.Seek(o, how == 0 ? soFromBeginning : how == 1 ? soFromCurrent : soFromEnd);
	} catch (...) {
		threw = true;
	}
	vf_assert(threw == !fits, "a position outside the stream is refused, any other is accepted");
	vf_assert(m.GetPosition() == (fits ? want : (int64_t)m.p), "the position is the one asked for, or unchanged when refused");
	vf_assert(threw || r == want, "the new position is returned");
	vf_assert(m.GetSize() == (int64_t)m.n, "seeking does not change the size");
	if (threw) vf_cover("refused"); else vf_cover("moved");
}
PROOF(proof_size)
{
	S m(2 * BIG);
	uint64_t z = vf_range("z", 0, BIG);
	m.SetSize(z);
	vf_assert(m.GetSize() == (int64_t)z, "the size asked for");
	vf_assert(m.GetPosition() == (int64_t)(m.p < z ? m.p : z), "the position stays, or is the end when the stream became shorter");
	if (z > 0) {
		uint64_t j = vf_index("j", z);
		unsigned char is = vf_peek(m.GetMemory(), j);
		if (j < m.n) { vf_assert(is == vf_peek(m.init, j), "the bytes that remain are unchanged"); vf_cover("kept"); }
		else { vf_assert(is == 0, "new bytes are zero"); vf_cover("new"); }
	}
}

// reading into a vector, writing a vector, copying between streams
static void copy(int how)
{
	S src(BIG);
	bool all = how == 0;
	if (how == 1) vf_assume(src.p < src.n);
	if (how == 2) vf_assume(src.p >= src.n);
	uint64_t c = all ? 0 : vf_range("c", 1, BIG), n2 = vf_range("n2", 0, BIG), p2 = vf_range("p2", 0, BIG);
	unsigned char *init2 = (unsigned char *)vf_buf("init2", n2);
	TMemoryStream dst;
	dst.SetSize(n2);
	memcpy(dst.GetMemory(), init2, n2);
	dst.SetPosition(p2);
	// zero means the whole source
	uint64_t from = c == 0 ? 0 : src.p, left = from < src.n ? src.n - from : 0, want = c == 0 || left < c ? left : c;
	uint64_t size = want > 0 && p2 + want > n2 ? p2 + want : n2;
	int64_t got = dst.CopyFrom(&src, c);
	vf_assert(got == (int64_t)want, "as many bytes as asked for, or what remains of the source");
	vf_assert(dst.GetPosition() == (int64_t)(p2 + want) && src.GetPosition() == (int64_t)(c == 0 && want == 0 ? 0 : c > 0 && want == 0 ? src.p : from + want), "both positions move by the bytes copied");
	vf_assert(dst.GetSize() == (int64_t)size && src.GetSize() == (int64_t)src.n, "the target grows as needed, the source keeps its size");
	if (size > 0) {
		uint64_t j = vf_index("j", size);
		unsigned char is = vf_peek(dst.GetMemory(), j);
		if (j >= p2 && j < p2 + want) { }
		else if (j < n2) { vf_assert(is == vf_peek(init2, j), "every other byte is unchanged"); vf_cover("kept"); }
	}
	if (how < 2 && want > 0) {
		uint64_t t = vf_index("t", want);
		vf_assert(vf_peek(dst.GetMemory(), p2 + t) == vf_peek(src.init, from + t), "the bytes of the source, in order");
		vf_cover("copied");
	}
	if (src.n > 0) {
		uint64_t k = vf_index("k", src.n);
		vf_assert(vf_peek(src.GetMemory(), k) == vf_peek(src.init, k), "the source is unchanged");
	}
	vf_cover("done");
}
PROOF(proof_copy) { copy(1); }
PROOF(proof_copy_all) { copy(0); }
PROOF(proof_copy_none) { copy(2); }
PROOF(proof_string)
{
	uint64_t l = vf_range("l", 0, BIG), p = vf_range("p", 0, BIG), n = vf_range("n", 0, BIG);
	vf_assume(p <= n);
	const char *b = (const char *)vf_buf("b", l);
	std::string s(b, l);
	TMemoryStream m;
	m.SetSize(n);
	m.SetPosition(p);
	m.WriteString(s);
	vf_assert(m.GetPosition() == (int64_t)(p + l), "the position moves by the length of the text");
	vf_assert(m.GetSize() == (int64_t)(p + l > n ? p + l : n), "the size");
	if (l > 0) {
		uint64_t j = vf_index("j", l);
		vf_assert(vf_peek(m.GetMemory(), p + j) == (unsigned char)vf_peek(b, j), "every byte of the text, zero bytes included");
		vf_cover("text");
	}
}
PROOF(proof_vector)
{
	S m(BIG);
	int64_t c = vf_range("c", 0, 2 * BIG) - (int64_t)BIG;
	std::vector<uint8_t> v;
	uint64_t ask = c <= 0 ? m.n : c, left = m.p < m.n ? m.n - m.p : 0, want = ask < left ? ask : left;
	int64_t got = ((TStream &)m).Read(v, c);
	vf_assert(got == (int64_t)want && v.size() >= want, "as many bytes as asked for, or what remains");
	vf_assert(m.GetPosition() == (int64_t)(m.p + want), "the position moves by the bytes read");
	if (want > 0) {
		uint64_t j = vf_index("j", want);
		vf_assert(v[j] == vf_peek(m.init, m.p + j), "the bytes of the stream, in order");
		vf_cover("read");
	}
}
// what was written is read back, after seeking to where it was written
PROOF(proof_roundtrip)
{
	S m(BIG);
	uint64_t c = vf_range("c", 0, BIG);
	unsigned char *b = (unsigned char *)vf_buf("b", c), *r = (unsigned char *)vf_raw("r", c);
	vf_assume(m.p <= m.n);
	m.Write(b, c);
	m.Seek(m.p, soFromBeginning);
	vf_assert(m.Read(r, c) == (int64_t)c, "all of it is there");
	if (c > 0) {
		uint64_t j = vf_index("j", c);
		vf_assert(r[j] == b[j], "the bytes written");
		vf_cover("byte");
	}
	m.Seek(0, soFromEnd);
	unsigned char x;
	vf_assert(m.Read(&x, 1) == 0, "nothing is read at the end");
	vf_cover("end");
}
PROOF(proof_bytes)
{
	uint64_t n = vf_range("n", 0, BIG);
	unsigned char *b = (unsigned char *)vf_buf("b", n);
	std::vector<uint8_t> v;
	v.resize(n);
	memcpy(v.data(), b, n);
	TBytesStream m(v);
	vf_assert(m.GetSize() == (int64_t)n && m.GetPosition() == 0, "size and position of a new byte stream");
	if (n > 0) {
		uint64_t j = vf_index("j", n);
		vf_assert(vf_peek(m.GetBytes().data(), j) == vf_peek(b, j), "its bytes");
		vf_cover("byte");
	}
}
PROOF(proof_copy_small)
{
	for (int a = 0; a <= 3; a++) for (int p = 0; p <= a; p++) for (int c = 0; c <= 4; c++) {
		unsigned char *b = (unsigned char *)vf_buf("b", a);
		TMemoryStream s, d;
		s.Write(b, a);
		s.Seek(p, soFromBeginning);
		d.WriteString("xy");
		d.Seek(1, soFromBeginning);
		int from = c ? p : 0, want = c && c < a - from ? c : a - from;
		vf_assert(d.CopyFrom(&s, c) == want, "as many bytes as asked for, or what remains of the source");
		vf_assert(d.GetPosition() == 1 + want && d.GetSize() == (want < 1 ? 2 : 1 + want), "position and size");
		bool ok = true;
		for (int k = 0; k < want; k++) ok &= vf_peek(d.GetMemory(), 1 + k) == b[from + k];
		vf_assert(ok, "the bytes of the source, in order");
	}
	vf_cover("copied");
}
