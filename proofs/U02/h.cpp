// Contracts for changing the case of text and comparing without case (String.cpp). Text is valid UTF-8 without zero bytes.
// The Latin and Russian letters and their counterparts take the same number of bytes, so what becomes of a byte follows
// from it and its neighbours: lower() and upper() below are checked against the code points by proof_bytes.
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
#include "SystemClasses/String.hpp"
#include "vf.h"
using namespace System;

static const uint8_t *IN; static uint64_t N;
static uint8_t in(uint64_t k) { return k < N ? vf_peek(IN, k) : 0; }
static bool within(uint32_t c, uint32_t a, uint32_t b) { return c >= a && c <= b; }
static uint8_t lower(uint8_t p, uint8_t c, uint8_t n)
{
	if (within(c, 'A', 'Z')) return c + 32;
	if (c == 0xd0 && (n == 0x81 || within(n, 0xa0, 0xaf))) return 0xd1;
	if (p == 0xd0) return c == 0x81 ? 0x91 : within(c, 0x90, 0x9f) ? c + 0x20 : within(c, 0xa0, 0xaf) ? c - 0x20 : c;
	return c;
}
static uint8_t upper(uint8_t p, uint8_t c, uint8_t n)
{
	if (within(c, 'a', 'z')) return c - 32;
	if (c == 0xd1 && (n == 0x91 || within(n, 0x80, 0x8f))) return 0xd0;
	if (p == 0xd1) return c == 0x91 ? 0x81 : within(c, 0x80, 0x8f) ? c + 0x20 : c;
	if (p == 0xd0) return within(c, 0xb0, 0xbf) ? c - 0x20 : c;
	return c;
}
static void put(std::string &s)
{
#ifdef VF_PROOF
	N = vf_range("n", 0, 1ull << 31);
	IN = (const uint8_t *)vf_buf("in", N + 1);
	vf_assume(vf_peek(IN, N) == 0);
	((const uint8_t **)&s)[0] = IN;
	((uint64_t *)&s)[1] = N;
#else
	static const uint32_t special[] = {0x401, 0x451, 0x410, 0x42f, 0x430, 0x43f, 0x440, 0x44f, 0x400, 0x450, 0x40f, 0x7f, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x391, 0x3b1, 0xc0, 0xe0, 0x141, 0xd7ff, 0xe000, 0x460, '@', '[', '`', '{'};
	unsigned n = vf_range("chars", 0, 12);
	s.clear();
	uint8_t *b = (uint8_t *)vf_buf("chars", 16 * 4);
	for (unsigned i = 0; i < n; i++) {
		uint32_t c = b[4 * i + 1] | b[4 * i + 2] << 8 | (b[4 * i + 3] & 15) << 16;
		switch (b[4 * i] % 6) {
			case 0: c = 1 + c % 127; break;
			case 1: c = 'A' + c % 58; break;
			case 2: c = 0x400 + c % 0x60; break;
			case 3: c = special[c % (sizeof special / 4)]; break;
			case 4: c = 0x80 + c % 0x780; break;
			default: c = 0x100 + c % 0x10fe00; if (c >= 0xd800 && c < 0xe000) c = 0x410;
		}
		if (c < 0x80) s += (char)c;
		else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
		else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	}
	N = s.size();
	IN = (const uint8_t *)s.c_str();
#endif
}
#define CASED(FN, BYTE) \
	std::string *s = new (vf_raw("s", sizeof(std::string))) std::string; \
	put(*s); \
	std::string r = FN(*s); \
	vf_cover("cased"); \
	vf_inst(r.size()); \
	vf_assert(r.size() == N, "the length stays"); \
	EACH(k) { vf_inst(k); vf_assert((uint8_t)vf_peek(r.c_str(), k) == BYTE(k ? in(k - 1) : 0, in(k), in(k + 1)), "letters become their counterparts, everything else stays"); }
#ifdef VF_PROOF
#define EACH(k) uint64_t k = vf_index("k", N); if (N > 0)
#else
#define EACH(k) for (uint64_t k = 0; k < N; k++)
#endif
PROOF(proof_lower) { CASED(LowerCase, lower) }
PROOF(proof_upper) { CASED(UpperCase, upper) }
// the definition by bytes is the definition by code points
static unsigned encode(uint32_t c, uint8_t *b)
{
	if (c < 0x80) { b[0] = c; return 1; }
	if (c < 0x800) { b[0] = 0xc0 | c >> 6; b[1] = 0x80 | (c & 63); return 2; }
	if (c < 0x10000) { b[0] = 0xe0 | c >> 12; b[1] = 0x80 | (c >> 6 & 63); b[2] = 0x80 | (c & 63); return 3; }
	b[0] = 0xf0 | c >> 18; b[1] = 0x80 | (c >> 12 & 63); b[2] = 0x80 | (c >> 6 & 63); b[3] = 0x80 | (c & 63);
	return 4;
}
PROOF(proof_bytes)
{
	uint32_t c = vf_range("c", 1, 0x10ffff);
	vf_assume(c < 0xd800 || c > 0xdfff);
	uint8_t b[6] = {0, 0, 0, 0, 0, 0}, l[4], u[4];
	uint8_t after = vf_u8("after");
	vf_assume(after < 0x80 || after >= 0xc0);
	unsigned n = encode(c, b);
	b[n] = after;
	uint32_t lo = within(c, 'A', 'Z') || within(c, 0x410, 0x42f) ? c + 32 : c == 0x401 ? 0x451 : c;
	uint32_t up = within(c, 'a', 'z') || within(c, 0x430, 0x44f) ? c - 32 : c == 0x451 ? 0x401 : c;
	vf_assert(encode(lo, l) == n && encode(up, u) == n, "counterparts take as many bytes");
	vf_cover("any");
	for (unsigned i = 0; i < n; i++) {
		vf_assert(l[i] == lower(i ? b[i - 1] : vf_u8("before") & 0xbf, b[i], b[i + 1]), "lower by bytes");
		vf_assert(u[i] == upper(i ? b[i - 1] : vf_u8("before") & 0xbf, b[i], b[i + 1]), "upper by bytes");
	}
}
// ---- comparing: by the contract of LowerCase (proof_lower) two texts A and B have these lower case texts
static std::string *TA, *TB;
static const uint8_t *LA, *LB; static uint64_t NA, NB_;
static void make(std::string *r, const uint8_t *b, uint64_t n)
{
	((const uint8_t **)r)[0] = b;
	((uint64_t *)r)[1] = n;
}
extern "C" void lower_given(std::string *r, const std::string *s)
{
	vf_assert(s == TA || s == TB, "the two texts are compared");
	if (s == TA) make(r, LA, NA); else make(r, LB, NB_);
}
static void pair(bool same)
{
	TA = new (vf_raw("a", sizeof(std::string))) std::string;
	TB = new (vf_raw("b", sizeof(std::string))) std::string;
#ifdef VF_PROOF
	NA = vf_range("na", 0, 1ull << 31);
	LA = (const uint8_t *)vf_buf("la", NA + 1);
	NB_ = same ? NA : vf_range("nb", 0, 1ull << 31);
	LB = same ? LA : (const uint8_t *)vf_buf("lb", NB_ + 1);
#else
	put(*TA);
	if (vf_u8("same") & 1) *TB = vf_u8("up") & 1 ? UpperCase(*TA) : LowerCase(*TA); else { put(*TB); if (vf_u8("longer") & 1) *TB = *TA + *TB; }
	static std::string a, b;
	a.clear(); b.clear();
	for (uint64_t k = 0; k < TA->size(); k++) a += (char)lower(k ? (*TA)[k - 1] : 0, (*TA)[k], k + 1 < TA->size() ? (*TA)[k + 1] : 0);
	for (uint64_t k = 0; k < TB->size(); k++) b += (char)lower(k ? (*TB)[k - 1] : 0, (*TB)[k], k + 1 < TB->size() ? (*TB)[k + 1] : 0);
	LA = (const uint8_t *)a.c_str(); LB = (const uint8_t *)b.c_str();
	NA = a.size(); NB_ = b.size();
#endif
}
// texts with the same lower case text are equal
PROOF(proof_equal)
{
	pair(true);
#ifndef VF_PROOF
	*TB = vf_u8("up") & 1 ? UpperCase(*TA) : LowerCase(*TA);
#endif
	vf_cover("same");
	vf_assert(EqualIC(*TA, *TB) && CompareIC(*TA, *TB) == 0, "texts with the same lower case text are equal");
}
// texts that are equal have the same lower case text
PROOF(proof_unequal)
{
	pair(false);
	bool r = EqualIC(*TA, *TB);
	int c = CompareIC(*TA, *TB);
	if (r) vf_cover("equal"); else vf_cover("unequal");
	if (r || c == 0) {
		vf_assert(NA == NB_, "texts that are equal have the same length");
		uint64_t k = vf_index("k", NA);
		vf_inst(k);
		if (NA > 0) vf_assert(vf_peek(LA, k) == vf_peek(LB, k), "texts that are equal have the same lower case text");
	}
}
// the loop unrolled: one or two characters
static void few(bool up)
{
	uint8_t *b = (uint8_t *)vf_raw("in", 9);
	N = 0;
	unsigned chars = vf_range("two", 1, 2);
	for (unsigned i = 0; i < chars; i++) {
		uint32_t c = vf_range(i ? "c2" : "c1", 1, 0x10ffff);
		vf_assume(c < 0xd800 || c > 0xdfff);
		N += encode(c, b + N);
	}
	b[N] = 0;
	IN = b;
	std::string *s = new (vf_raw("s", sizeof(std::string))) std::string;
#ifdef VF_PROOF
	make(s, b, N);
#else
	s->assign((const char *)b, N);
#endif
	std::string r = up ? UpperCase(*s) : LowerCase(*s);
	vf_cover("cased");
	vf_assert(r.size() == N, "the length stays");
	for (uint64_t k = 0; k < 8; k++) if (k < N) {
		uint8_t p = k ? in(k - 1) : 0, c = in(k), n = in(k + 1);
		vf_assert((uint8_t)vf_peek(r.c_str(), k) == (up ? upper(p, c, n) : lower(p, c, n)), "letters become their counterparts, everything else stays");
	}
}
PROOF(proof_lower_few) { few(false); }
PROOF(proof_upper_few) { few(true); }
// ---- endings: the ending of a text is compared without case when a character starts there
static uint64_t compared;
static bool equal_;
extern "C" int compare_given(const std::string *a, const std::string *b)
{
	vf_assert(b == TB, "the ending asked for is compared");
	vf_assert(a->size() == NB_, "an ending of the same length is compared");
	uint64_t k = vf_index("kc", NB_);
	vf_assert(vf_peek(a->c_str(), k) == vf_peek(LA, NA - NB_ + k), "the ending of the text is compared");
	vf_assert((vf_peek(LA, NA - NB_) & 0xc0) != 0x80, "an ending starts where a character starts");
	compared++;
	return equal_ ? 0 : 1;
}
PROOF(proof_ending)
{
	compared = 0;
	equal_ = vf_u8("same") & 1;
	pair(false);
#ifdef VF_PROOF
	make(TA, LA, NA);
	make(TB, LB, NB_);
	bool due = NA >= NB_ && (NB_ == 0 || ((vf_peek(LA, NA - NB_) & 0xc0) != 0x80 && equal_));
#else
	bool due = NA >= NB_ && !memcmp(LA + NA - NB_, LB, NB_);
#endif
	bool r = EndsWithIC(*TA, *TB);
	if (r) vf_cover("ends"); else vf_cover("does not end");
	if (NB_ == 0) vf_cover("empty");
	vf_assert(r == due, "a text ends with another if its ending has the same lower case text");
}
