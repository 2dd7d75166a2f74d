// Contracts for the encodings (System.SysUtils.cpp, utf8 library). A text is any sequence of M code points CP(0..M-1); in
// UTF-8 the i-th character begins at byte AT8(i), in UTF-16 at unit AT16(i). That both directions give the standard form of
// the same code points is what makes converting there and back the identity.
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <stdexcept>
#include <iterator>
#include <cstring>
#include <boost/filesystem.hpp>
#define private public
#define protected public
#define class struct
#include "SystemClasses/System.SysUtils.cpp"
#undef class
#undef private
#undef protected
#include "vf.h"
#include <cstring>

static uint64_t M, I;				// characters, any of them
static uint64_t N8, N16;			// bytes and units of the text
static const uint8_t *T8; static const uint16_t *T16;	// the text (source)
static uint8_t *O8; static uint16_t *O16;					// what was appended
static uint64_t ROOM8;				// bytes expected
static uint64_t n8, n16;			// and how much
static unsigned len8(uint32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
static unsigned len16(uint32_t c) { return c < 0x10000 ? 1 : 2; }
static uint8_t byte8(uint32_t c, unsigned k)
{
	switch (len8(c)) {
		case 1: return c;
		case 2: return k == 0 ? 0xc0 | c >> 6 : 0x80 | (c & 63);
		case 3: return k == 0 ? 0xe0 | c >> 12 : k == 1 ? 0x80 | (c >> 6 & 63) : 0x80 | (c & 63);
	}
	return k == 0 ? 0xf0 | c >> 18 : k == 1 ? 0x80 | (c >> 12 & 63) : k == 2 ? 0x80 | (c >> 6 & 63) : 0x80 | (c & 63);
}
static uint16_t unit16(uint32_t c, unsigned k) { return c < 0x10000 ? c : k == 0 ? 0xd800 + ((c - 0x10000) >> 10) : 0xdc00 + ((c - 0x10000) & 0x3ff); }
static bool scalar(uint32_t c) { return c <= 0x10ffff && (c < 0xd800 || c > 0xdfff); }
#ifdef VF_PROOF
static uint32_t CP(uint64_t i) { return (uint32_t)vf_uf("cp", i, 0); }
static uint64_t AT8(uint64_t i) { return vf_uf("at8", i, 0); }
static uint64_t AT16(uint64_t i) { return vf_uf("at16", i, 0); }
// std::vector by its contract: empty at first, push_back appends its element
static std::vector<uint8_t> *V8; static std::vector<uint16_t> *V16;
extern "C" void make8(std::vector<uint8_t> *v)
{
	vf_assert(n8 == 0 && V8 == nullptr, "one result");
	V8 = v;
	((uint8_t **)v)[0] = ((uint8_t **)v)[1] = O8;
	((uint8_t **)v)[2] = O8 + ROOM8;
}
extern "C" void make16(std::vector<uint16_t> *v)
{
	vf_assert(n16 == 0 && V16 == nullptr, "one result");
	V16 = v;
	((uint16_t **)v)[0] = ((uint16_t **)v)[1] = O16;
	((uint16_t **)v)[2] = O16 + N16;
}
extern "C" void push8(std::vector<uint8_t> *v, const uint8_t *x)
{
	vf_assert(v == V8 && n8 < ROOM8, "no more bytes than the text has");
	O8[n8++] = *x;
	((uint8_t **)v)[1] = O8 + n8;
}
extern "C" void push16(std::vector<uint16_t> *v, const uint16_t *x)
{
	vf_assert(v == V16 && n16 < N16, "no more units than the text has");
	O16[n16++] = *x;
	((uint16_t **)v)[1] = O16 + n16;
}
#else
static std::vector<uint32_t> cps;
static std::vector<uint64_t> a8, a16;
static uint32_t CP(uint64_t i) { return cps[i]; }
static uint64_t AT8(uint64_t i) { return a8[i]; }
static uint64_t AT16(uint64_t i) { return a16[i]; }
#endif
static std::string s8; static std::vector<uint16_t> s16;
static void given(bool from8)
{
	n8 = n16 = 0;
#ifdef VF_PROOF
	V8 = nullptr; V16 = nullptr;
	M = vf_range("chars", 0, 1ull << 28);
	N8 = AT8(M);
	N16 = AT16(M);
	vf_assume(AT8(0) == 0 && AT16(0) == 0 && N8 <= 4 * M && N16 <= 2 * M);
	I = vf_index("I", M ? M : 1);
	if (from8) T8 = (const uint8_t *)vf_buf("text8", N8 + 1); 
#else
	static const uint32_t special[] = {0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x10ffff, 0x410, 0x20ac, 0x1f600, 0xffff + 0x400, 0xfc00, 0x100000};
	M = vf_range("chars", 0, 12);
	const uint8_t *b = (const uint8_t *)vf_buf("code", 4 * 12);
	cps.clear(); a8.assign(1, 0); a16.assign(1, 0); s8.clear(); s16.clear();
	for (uint64_t i = 0; i < M; i++) {
		uint32_t c = b[4 * i + 1] | b[4 * i + 2] << 8 | (b[4 * i + 3] & 31) << 16;
		switch (b[4 * i] % 4) { case 0: c &= 0x7ff; break; case 1: c &= 0xffff; break; case 2: c = special[c % (sizeof special / 4)]; break; default: c = 0x10000 + (c & 0xfffff); }
		if (!scalar(c)) c = 0x20ac;
		cps.push_back(c);
		for (unsigned k = 0; k < len8(c); k++) s8 += (char)byte8(c, k);
		for (unsigned k = 0; k < len16(c); k++) s16.push_back(unit16(c, k));
		a8.push_back(s8.size()); a16.push_back(s16.size());
	}
	N8 = s8.size(); N16 = s16.size();
#endif
}
// UTF-8 -> UTF-16, little end first
PROOF(proof_from)
{
	given(true);
	TUcs2Encoding *e = new (vf_raw("e", sizeof(TUcs2Encoding))) TUcs2Encoding;
	std::string *s = new (vf_raw("s", sizeof(std::string))) std::string;
#ifdef VF_PROOF
	((const uint8_t **)s)[0] = T8;
	((uint64_t *)s)[1] = N8;
	O16 = (uint16_t *)operator new(2 * N16);
	ROOM8 = 2 * N16;
	O8 = (uint8_t *)operator new(ROOM8);
	std::vector<uint8_t> *r = new (vf_raw("r", sizeof(std::vector<uint8_t>))) std::vector<uint8_t>(e->fromUtf8(*s));
	vf_cover("converted");
	if (M == 0) vf_cover("empty");
	vf_assert(r->size() == 2 * N16, "as many units as the characters have");
	if (I < M) for (unsigned k = 0; k < 2; k++) if (k < len16(CP(I))) {
		uint64_t at = AT16(I) + k;
		vf_inst(2 * at);
		vf_inst(2 * at + 1);
		vf_assert((vf_peek(r->data(), 2 * at) | vf_peek(r->data(), 2 * at + 1) << 8) == unit16(CP(I), k), "every character is encoded in its standard form in its place");
	}
#else
	std::vector<uint8_t> r = e->fromUtf8(s8);
	vf_assert(r.size() == 2 * N16, "as many units as the characters have");
	for (uint64_t i = 0; i < N16; i++) vf_assert((r[2 * i] | r[2 * i + 1] << 8) == s16[i], "every character is encoded in its standard form in its place");
#endif
}

static uint64_t OFF;				// the text begins here in the buffer
static void bytes_at(std::vector<uint8_t> *v, uint8_t *b, uint64_t n)
{
	((uint8_t **)v)[0] = b;
	((uint8_t **)v)[1] = ((uint8_t **)v)[2] = b + n;
}
// UTF-16 -> UTF-8
PROOF(proof_to)
{
	given(false);
	TUcs2Encoding *e = new (vf_raw("e", sizeof(TUcs2Encoding))) TUcs2Encoding;
	TEncoding::UTF8 = new (vf_raw("u", sizeof(TUtf8Encoding))) TUtf8Encoding;
#ifdef VF_PROOF
	OFF = vf_range("off", 0, 1 << 20);
	uint8_t *all = (uint8_t *)vf_buf("all", OFF + 2 * N16);
	T16 = (const uint16_t *)(all + OFF);
	std::vector<uint8_t> *v = (std::vector<uint8_t> *)vf_raw("v", sizeof(std::vector<uint8_t>));
	bytes_at(v, all, OFF + 2 * N16);
	ROOM8 = N8;
	O8 = (uint8_t *)operator new(ROOM8);
	std::string r = e->toUtf8(*v, OFF);
	vf_cover("converted");
	if (M == 0) vf_cover("empty");
	vf_assert(r.size() == N8, "as many bytes as the characters have");
	if (I < M) for (unsigned k = 0; k < 4; k++) if (k < len8(CP(I))) {
		uint64_t at = AT8(I) + k;
		vf_inst(at);
		vf_assert(vf_peek(r.c_str(), at) == byte8(CP(I), k), "every character is encoded in its standard form in its place");
	}
#else
	OFF = vf_range("off", 0, 5);
	std::vector<uint8_t> v(OFF, 0xd8);
	for (uint64_t i = 0; i < N16; i++) { v.push_back(s16[i]); v.push_back(s16[i] >> 8); }
	std::string r = e->toUtf8(v, OFF);
	vf_assert(r == s8, "every character is encoded in its standard form in its place");
#endif
}
// UTF-8 as bytes
PROOF(proof_bytes_to)
{
	TUtf8Encoding *e = new (vf_raw("u", sizeof(TUtf8Encoding))) TUtf8Encoding;
	uint64_t n = vf_range("n", 0, 1ull << 30), off = vf_range("off", 0, 1ull << 30);
#ifndef VF_PROOF
	n %= 40; off %= 40;
#endif
	if (off > n) off = n;
	uint8_t *b = (uint8_t *)vf_buf("b", n);
	std::vector<uint8_t> *v = (std::vector<uint8_t> *)vf_raw("v", sizeof(std::vector<uint8_t>));
	bytes_at(v, b, n);
	std::string r = e->toUtf8(*v, off);
	vf_cover("text");
	vf_assert(r.size() == n - off, "all bytes from the offset on");
	uint64_t k = vf_index("k", n - off);
	vf_inst(k);
	if (off < n) vf_assert((uint8_t)vf_peek(r.c_str(), k) == vf_peek(b, off + k), "each byte as it was");
}
PROOF(proof_bytes_from)
{
	TUtf8Encoding *e = new (vf_raw("u", sizeof(TUtf8Encoding))) TUtf8Encoding;
	std::string *s = new (vf_raw("s", sizeof(std::string))) std::string;
	N8 = vf_range("n", 0, 1ull << 30);
#ifndef VF_PROOF
	N8 %= 40;
#endif
	T8 = (const uint8_t *)vf_buf("b", N8 + 1);
#ifdef VF_PROOF
	n8 = 0;
	V8 = nullptr;
	((const uint8_t **)s)[0] = T8;
	((uint64_t *)s)[1] = N8;
	ROOM8 = N8;
	O8 = (uint8_t *)operator new(ROOM8);
#else
	s->assign((const char *)T8, N8);
#endif
	std::vector<uint8_t> *r = new (vf_raw("r", sizeof(std::vector<uint8_t>))) std::vector<uint8_t>(e->fromUtf8(*s));
	vf_cover("bytes");
	vf_assert(r->size() == N8, "all bytes");
	uint64_t k = vf_index("k", N8);
	vf_inst(k);
	if (N8 > 0) vf_assert(vf_peek(r->data(), k) == vf_peek(T8, k), "each byte as it was");
}
// the mark at the beginning of a buffer
PROOF(proof_mark)
{
	TEncoding::UTF8 = new (vf_raw("u", sizeof(TUtf8Encoding))) TUtf8Encoding;
	TEncoding::Unicode = new (vf_raw("e", sizeof(TUcs2Encoding))) TUcs2Encoding;
	uint64_t n = vf_range("n", 0, 1ull << 30);
#ifndef VF_PROOF
	n %= 6;
#endif
	uint8_t *b = (uint8_t *)vf_buf("b", n);
#ifndef VF_PROOF
	static const uint8_t marks[] = {0xef, 0xbb, 0xbf, 0xff, 0xfe, 0};
	for (uint64_t i = 0; i < n; i++) b[i] = vf_u8("near") % 4 == 1 ? marks[i] : vf_u8("near") % 4 == 2 ? marks[(i + 3) % 6] : b[i];
#endif
	std::vector<uint8_t> *v = (std::vector<uint8_t> *)vf_raw("v", sizeof(std::vector<uint8_t>));
	bytes_at(v, b, n);
	TEncoding *before = (TEncoding *)vf_raw("before", 8), *x = before;
	int r = TEncoding::GetBufferEncoding(*v, x);
	bool utf8 = n >= 3 && vf_peek(b, 0) == 0xef && vf_peek(b, 1) == 0xbb && vf_peek(b, 2) == 0xbf;
	bool utf16 = n >= 2 && vf_peek(b, 0) == 0xff && vf_peek(b, 1) == 0xfe;
	if (utf8) vf_cover("UTF-8"); else if (utf16) vf_cover("UTF-16"); else vf_cover("none");
	vf_assert(r == (utf8 ? 3 : utf16 ? 2 : 0), "the length of the mark");
	vf_assert(x == (utf8 ? TEncoding::UTF8 : utf16 ? TEncoding::Unicode : before), "the encoding the mark stands for");
}

// the loops unrolled and the vectors as they are: one or two characters
static uint32_t c_[2];
static unsigned few(uint8_t *b, uint16_t *u, uint64_t *n)
{
	unsigned chars = vf_range("two", 1, 2);
	uint64_t at = 0;
	*n = 0;
	for (unsigned i = 0; i < chars; i++) {
		uint32_t c = vf_range(i ? "c2" : "c1", 0, 0x10ffff);
		vf_assume(scalar(c));
		for (unsigned k = 0; k < len8(c); k++) b[at + k] = byte8(c, k);
		for (unsigned k = 0; k < len16(c); k++) u[*n + k] = unit16(c, k);
		at += len8(c);
		*n += len16(c);
	}
	return at;
}
PROOF(proof_from_few)
{
	TUcs2Encoding *e = new (vf_raw("e", sizeof(TUcs2Encoding))) TUcs2Encoding;
	uint8_t *b = (uint8_t *)vf_raw("b", 9); uint16_t u[4]; uint64_t n;
	uint64_t m = few(b, u, &n);
	b[m] = 0;
	std::string *s = new (vf_raw("s", sizeof(std::string))) std::string((const char *)b, m);
	std::vector<uint8_t> *r = new (vf_raw("r", sizeof(std::vector<uint8_t>))) std::vector<uint8_t>(e->fromUtf8(*s));
	vf_cover("converted");
	vf_assert(r->size() == 2 * n, "as many units as the characters have");
	for (uint64_t k = 0; k < 4; k++) if (k < n) vf_assert((vf_peek(r->data(), 2 * k) | vf_peek(r->data(), 2 * k + 1) << 8) == u[k], "every character is encoded in its standard form in its place");
}
PROOF(proof_to_few)
{
	TUcs2Encoding *e = new (vf_raw("e", sizeof(TUcs2Encoding))) TUcs2Encoding;
	TEncoding::UTF8 = new (vf_raw("u", sizeof(TUtf8Encoding))) TUtf8Encoding;
	uint8_t b[9]; uint16_t *u = (uint16_t *)vf_raw("u16", 8); uint64_t n;
	uint64_t m = few(b, u, &n);
	std::vector<uint8_t> *v = (std::vector<uint8_t> *)vf_raw("v", sizeof(std::vector<uint8_t>));
	bytes_at(v, (uint8_t *)u, 2 * n);
	std::string r = e->toUtf8(*v, 0);
	vf_cover("converted");
	vf_assert(r.size() == m, "as many bytes as the characters have");
	for (uint64_t k = 0; k < 8; k++) if (k < m) vf_assert((uint8_t)vf_peek(r.c_str(), k) == b[k], "every character is encoded in its standard form in its place");
}
