// Contracts for container block headers (cfapi/APIcfBase.cpp, APIcfBase.h)
#include "APIcfBase.h"
#include "vf.h"
#include <string>
#include <cstring>
using std::string;

static unsigned hexchar(unsigned d) { return d < 10 ? '0' + d : 'a' + d - 10; }
static int hexvalue(unsigned char c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
static bool field(const unsigned char *p, uint32_t v)
{
	bool ok = true;
	for (int k = 0; k < 8; k++) ok &= vf_peek(p, k) == hexchar(v >> (28 - 4 * k) & 15);
	return ok;
}
static bool layout(const unsigned char *p, uint32_t a, uint32_t b, uint32_t c)
{
	bool ok = p[0] == 13;
	ok &= p[1] == 10;
	ok &= field(p + 2, a);
	ok &= p[10] == ' ';
	ok &= field(p + 11, b);
	ok &= p[19] == ' ';
	ok &= field(p + 20, c);
	ok &= p[28] == ' ';
	ok &= p[29] == 13;
	ok &= p[30] == 10;
	return ok;
}

PROOF(proof_header_write)
{
	uint32_t a = vf_u32("a"), b = vf_u32("b"), c = vf_u32("c");
	stBlockHeader h = stBlockHeader::create(a, b, c);
	vf_assert(sizeof h == 31 && stBlockHeader::size() == 31, "a header is 31 bytes");
	unsigned char p[31];
	memcpy(p, &h, 31);
	vf_assert(layout(p, a, b, c), "line break, three numbers of 8 hexadecimal digits each with a space, line break");
	vf_assert(h.is_correct(), "a created header is correct");
	string s = h.toString();
	vf_assert(s.size() == 31 && memcmp(s.data(), p, 31) == 0, "text of the header");
	vf_cover("created");
}
PROOF(proof_header_set)
{
	stBlockHeader h;
	memcpy((void *)&h, vf_buf("h", 31), 31);
	unsigned char was[31], p[31];
	memcpy(was, &h, 31);
	uint32_t v = vf_u32("v");
	for (int f = 0; f < 3; f++) {
		memcpy((void *)&h, was, 31);
		if (f == 0) h.set_data_size(v);
		if (f == 1) h.set_page_size(v);
		if (f == 2) h.set_next_page_addr(v);
		memcpy(p, &h, 31);
		int at = 2 + 9 * f;
		bool ok = true;
		for (int k = 0; k < 31; k++) if (k < at || k >= at + 8) ok &= p[k] == was[k];
		vf_assert(ok, "setting a number changes no other byte");
		vf_assert(field(p + at, v), "the number is written in its place as 8 digits");
	}
	vf_cover("set");
}
PROOF(proof_header_round)
{
	uint32_t a = vf_range("a", 0, 0x7fffffff), b = vf_range("b", 0, 0x7fffffff), c = vf_range("c", 0, 0x7fffffff);
	stBlockHeader *h = (stBlockHeader *)vf_buf("h", 31);
	stBlockHeader made = stBlockHeader::create(a, b, c);
	memcpy((void *)h, &made, 31);
	vf_assert(h->get_data_size() == (int32_t)a, "data length reads back");
	vf_assert(h->get_page_size() == (int32_t)b, "page length reads back");
	vf_assert(h->get_next_page_addr() == (int32_t)c, "next address reads back");
	vf_cover("read");
}
// a header of any well-formed file, digits in either case
static void read_one(int f)
{
	unsigned char *p = (unsigned char *)vf_buf("h", 31);
	int at = 2 + 9 * f;
	vf_assume(p[at + 8] == ' ');
	uint32_t v = 0;
	for (int k = 0; k < 8; k++) {
		int d = hexvalue(p[at + k]);
		vf_assume(d >= 0);
		if (k == 0) vf_assume(d < 8);
		v = v << 4 | d;
	}
	stBlockHeader *h = (stBlockHeader *)p;
	int32_t r = f == 0 ? h->get_data_size() : f == 1 ? h->get_page_size() : h->get_next_page_addr();
	vf_assert(r == (int32_t)v, "the number its eight digits spell, whatever the other bytes are");
	vf_cover("read");
}
PROOF(proof_header_read_data) { read_one(0); }
PROOF(proof_header_read_page) { read_one(1); }
PROOF(proof_header_read_next) { read_one(2); }
PROOF(proof_header_correct)
{
	stBlockHeader *h = (stBlockHeader *)vf_buf("h", 31);
	unsigned char p[31];
	memcpy(p, h, 31);
	bool want = p[0] == 13 && p[1] == 10 && p[10] == ' ' && p[19] == ' ' && p[28] == ' ' && p[29] == 13 && p[30] == 10;
	vf_assert(h->is_correct() == want, "a header is correct exactly when its line breaks and spaces are in place");
	if (want) vf_cover("correct"); else vf_cover("wrong");
}
