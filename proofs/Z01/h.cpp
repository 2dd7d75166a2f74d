// Contracts for packing and unpacking (UZLib.cpp). zlib itself is given by the contract of its documentation: deflate and
// inflate take the next input bytes and give the next output bytes, as many as there is room for; with room left over all
// input given so far was taken, and after the last input (deflate) or the last packed byte (inflate) the stream has ended.
// The streams are given by the contract of TStream (M01).
#include <System.Classes.hpp>
#include <zlib.h>
#include "UZLib.h"
#include "SystemClasses/TMemoryStream.hpp"
#include "vf.h"
#include <cstring>
#include <string>
#include <vector>

#ifdef VF_PROOF
static const unsigned char *IN; static uint64_t IN_N;		// what is handed to zlib
static const unsigned char *OUT; static uint64_t OUT_N;	// what zlib makes of it
static uint64_t taken, made, written;							// bytes zlib took and made, bytes written to the target
static unsigned char ended, finishing, open_, may_fail, failed;
static z_stream *S;
static unsigned char *chunk; static uint64_t chunk_n;		// the bytes of the source that were read last
static uint64_t at_read;											// the position of the source

struct Source : public TStream {
	Source() { m_size = IN_N; m_position = 0; }
	int64_t Read(void *b, int64_t n) override
	{
		vf_assert(n > 0, "something is read");
		uint64_t left = IN_N - at_read, k = (uint64_t)n < left ? n : left;
		if (k > 0) memcpy(b, IN + at_read, k);
		at_read += k;
		chunk = (unsigned char *)b;
		chunk_n = k;
		return k;
	}
	int64_t Write(const void *, int64_t) override { vf_assert(false, "the source is not written"); return 0; }
};
struct Target : public TStream {
	int64_t Read(void *, int64_t) override { vf_assert(false, "the target is not read"); return 0; }
	int64_t Write(const void *b, int64_t n) override
	{
		vf_assert(n >= 0 && (uint64_t)n <= made - written, "only what zlib made is written");
		if (n > 0) {
			uint64_t k = vf_index("kw", n);
			vf_assert(vf_peek(b, k) == vf_peek(OUT, written + k), "what zlib made is written in order");
		}
		written += n;
		return n;
	}
};
static int start(z_streamp s, int bits, const char *v, int size)
{
	vf_assert(!open_, "one compressor at a time");
	vf_assert(s->zalloc == Z_NULL && s->zfree == Z_NULL && s->opaque == Z_NULL, "zlib allocates its own memory");
	vf_assert(bits == -15, "the raw format");
	vf_assert(size == (int)sizeof(z_stream) && v[0] == '1', "the version of zlib");
	open_ = 1;
	S = s;
	return Z_OK;
}
static int stop(z_streamp s)
{
	vf_assert(open_ && s == S, "the compressor that was started is ended");
	open_ = 0;
	return Z_OK;
}
static void step(z_streamp s)
{
	vf_assert(open_ && s == S, "the compressor was started");
	uint64_t in = s->avail_in, room = s->avail_out;
	vf_assert(in <= IN_N - taken, "no more input than there is");
	vf_assert(room > 0, "there is room for output");
	if (in > 0) {
		uint64_t k = vf_index("kd", in);
		vf_assert(vf_peek(s->next_in, k) == vf_peek(IN, taken + k), "the input bytes are handed over in order, none twice and none left out");
	}
	uint64_t c = vf_fresh("c"), o = vf_fresh("o");
	vf_assume(c <= in && o <= room && o <= OUT_N - made);
	if (ended) vf_assume(c == 0 && o == 0);
	if (o < room) vf_assume(c == in || ended);
	s->next_in += c;
	s->avail_in = in - c;
	if (o > 0) memcpy(s->next_out, OUT + made, o);
	s->next_out += o;
	s->avail_out = room - o;
	taken += c;
	made += o;
}
extern "C" {
int deflateInit2_(z_streamp s, int level, int method, int bits, int, int, const char *v, int size)
{
	vf_assert(level >= 1 && level <= 9 && method == Z_DEFLATED, "it is packed");
	return start(s, bits, v, size);
}
int deflate(z_streamp s, int flush)
{
	vf_assert(flush == Z_NO_FLUSH || flush == Z_FINISH, "plain packing");
	vf_assert(flush == Z_FINISH || !finishing, "after the last input no other is announced");
	vf_assert(flush != Z_FINISH || taken + s->avail_in == IN_N, "the end is announced with the last input");
	if (flush == Z_FINISH) finishing = 1;
	step(s);
	if (!ended && finishing && s->avail_in == 0) {
		if (made == OUT_N) { if (s->avail_out != 0 || (vf_fresh("e") & 1)) ended = 1; }
		else vf_assume(s->avail_out == 0);
	}
	return ended ? Z_STREAM_END : Z_OK;
}
int deflateEnd(z_streamp s) { return stop(s); }
int inflateInit2_(z_streamp s, int bits, const char *v, int size) { return start(s, bits, v, size); }
int inflate(z_streamp s, int flush)
{
	vf_assert(flush == Z_NO_FLUSH, "plain unpacking");
	if (may_fail && !ended && (vf_fresh("f") & 1)) {
		failed = 1;
		uint64_t w = vf_fresh("w") & 3;
		return w == 0 ? Z_DATA_ERROR : w == 1 ? Z_MEM_ERROR : w == 2 ? Z_NEED_DICT : Z_STREAM_ERROR;
	}
	step(s);
	if (taken == IN_N) {
		if (made == OUT_N) { if (s->avail_out != 0 || (vf_fresh("e") & 1)) ended = 1; }
		else vf_assume(s->avail_out == 0);
	}
	return ended ? Z_STREAM_END : Z_OK;
}
int inflateEnd(z_streamp s) { return stop(s); }
}
static void given(uint64_t least)
{
	IN_N = vf_range("n", least, 1ull << 40);
	OUT_N = vf_range("m", 0, 1ull << 40);
	IN = (const unsigned char *)vf_buf("in", IN_N);
	OUT = (const unsigned char *)vf_buf("out", OUT_N);
	taken = made = written = at_read = chunk_n = 0;
	ended = finishing = open_ = may_fail = failed = 0;
	chunk = nullptr;
	S = nullptr;
}
PROOF(proof_pack)
{
	given(0);
	Source *s = new (vf_raw("source", sizeof(Source))) Source;
	Target *t = new (vf_raw("target", sizeof(Target))) Target;
	bool r = ZDeflateStream(s, t);
	if (IN_N == 0) vf_cover("empty");
	if (IN_N == 32768) vf_cover("full buffers");
	vf_assert(r, "packing reports success");
	vf_assert(taken == IN_N, "every input byte is packed");
	vf_assert(ended, "the packed stream is ended");
	vf_assert(written == OUT_N, "the whole packed stream is written");
	vf_assert(!open_, "the compressor is released");
}
static void unpack(bool damaged)
{
	given(1);
	may_fail = damaged;
	Source *s = new (vf_raw("source", sizeof(Source))) Source;
	Target *t = new (vf_raw("target", sizeof(Target))) Target;
	bool thrown = false;
	try {
		ZInflateStream(s, t);
	} catch (ZError &) {
		thrown = true;
	}
	if (thrown) vf_cover("reported"); else vf_cover("unpacked");
	vf_assert(thrown == (failed != 0), "an error of zlib is reported, and nothing else");
	if (!thrown) {
		vf_assert(ended, "the packed stream is read to its end");
		vf_assert(written == OUT_N, "all unpacked bytes are written");
	}
	vf_assert(!open_, "the decompressor is released");
}
PROOF(proof_unpack)
{
	given(1);
	Source *s = new (vf_raw("source", sizeof(Source))) Source;
	Target *t = new (vf_raw("target", sizeof(Target))) Target;
	ZInflateStream(s, t);
	vf_cover("unpacked");
	vf_assert(ended, "the packed stream is read to its end");
	vf_assert(written == OUT_N, "all unpacked bytes are written");
	vf_assert(!open_, "the decompressor is released");
}
PROOF(proof_damaged) { unpack(true); }
#else
// with zlib itself: what was packed is unpacked, and is what zlib unpacks
static std::vector<unsigned char> plain()
{
	uint64_t n = vf_range("n", 0, 300);
	uint64_t near = vf_u8("near") % 8;		// sizes close to multiples of the buffer
	if (near) n = near / 2 * 16384 + (n % 5) - (near / 2 ? 2 : 0);
	if (n > 70000) n = 0;
	unsigned char kind = vf_u8("kind") % 3, *b = (unsigned char *)vf_buf("bytes", 64);
	std::vector<unsigned char> v(n);
	uint32_t r = vf_u32("seed");
	for (uint64_t i = 0; i < n; i++) {
		r = r * 1664525 + 1013904223;
		v[i] = kind == 0 ? b[i % 64] : kind == 1 ? r >> 24 : b[r >> 26];
	}
	return v;
}
static std::vector<unsigned char> packed(const std::vector<unsigned char> &v)
{
	z_stream s;
	memset(&s, 0, sizeof s);
	deflateInit2(&s, 9, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
	std::vector<unsigned char> o(v.size() + v.size() / 100 + 1000);
	s.next_in = (unsigned char *)v.data(); s.avail_in = v.size(); s.next_out = o.data(); s.avail_out = o.size();
	deflate(&s, Z_FINISH);
	o.resize(s.total_out);
	deflateEnd(&s);
	return o;
}
static bool unpacks_to(const std::vector<unsigned char> &p, const std::vector<unsigned char> &v)
{
	z_stream s;
	memset(&s, 0, sizeof s);
	inflateInit2(&s, -15);
	std::vector<unsigned char> o(v.size() + 100);
	s.next_in = (unsigned char *)p.data(); s.avail_in = p.size(); s.next_out = o.data(); s.avail_out = o.size();
	int r = inflate(&s, Z_FINISH);
	bool ok = r == Z_STREAM_END && s.avail_in == 0 && s.total_out == v.size() && !memcmp(o.data(), v.data(), v.size());
	inflateEnd(&s);
	return ok;
}
PROOF(proof_pack)
{
	std::vector<unsigned char> v = plain();
	TMemoryStream in, out;
	in.Write(v.data(), v.size());
	in.Seek(0, soBeginning);
	vf_assert(ZDeflateStream(&in, &out), "packing reports success");
	vf_assert(unpacks_to(out.GetBytes(), v), "what was packed is a whole packed stream of the same bytes");
}
PROOF(proof_unpack)
{
	std::vector<unsigned char> v = plain(), p = packed(v);
	TMemoryStream in, out;
	in.Write(p.data(), p.size());
	in.Seek(0, soBeginning);
	ZInflateStream(&in, &out);
	vf_assert(out.GetSize() == (int64_t)v.size() && std::vector<unsigned char>(out.GetBytes().begin(), out.GetBytes().begin() + v.size()) == v, "what was packed is unpacked");
}
PROOF(proof_damaged)
{
	std::vector<unsigned char> v = plain(), p = packed(v);
	p[0] |= 6;		// a block type that does not exist
	TMemoryStream in, out;
	in.Write(p.data(), p.size());
	in.Seek(0, soBeginning);
	bool thrown = false;
	try {
		ZInflateStream(&in, &out);
	} catch (ZError &) {
		thrown = true;
	}
	vf_assert(thrown, "damaged data is reported");
}
#endif
