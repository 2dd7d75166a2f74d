// Contracts for the hexadecimal utilities (Common.cpp)
#include "Common.h"
#include "vf.h"
#include <System.Classes.hpp>
#include <string>
using std::string;

#ifdef VF_PROOF
static const unsigned BIG = 100000000;
#else
static const unsigned BIG = 1u << 18;
#endif
static unsigned hexchar(unsigned d) { return d < 10 ? '0' + d : 'a' + d - 10; }

static void hex_of(int n)
{
	const char *b = (const char *)vf_buf("b", n);
	string s = hexstring(b, n);
	vf_assert(s.size() == 2 * n, "two digits per byte");
	bool ok = true;
	for (int k = 0; k < n; k++) {
		unsigned c = (unsigned char)b[k];
		ok &= vf_peek(s.c_str(), 2 * k) == hexchar(c >> 4);
		ok &= vf_peek(s.c_str(), 2 * k + 1) == hexchar(c & 15);
	}
	vf_assert(ok, "every byte as its two digits, in order");
}
PROOF(proof_hex_small) { for (int n = 0; n <= 16; n++) { hex_of(n); } vf_cover("shown"); }

PROOF(proof_hex)
{
	unsigned n = vf_range("n", 0, BIG);
	const char *b = (const char *)vf_buf("b", n);
	string s = hexstring(b, n);
	vf_assert(s.size() == 2 * (size_t)n, "two digits per byte");
	if (n > 0) {
		unsigned k = vf_index("k", n);
		unsigned c = (unsigned char)b[k];
		vf_assert(vf_peek(s.c_str(), 2 * (size_t)k) == hexchar(c >> 4), "high digit of every byte in its place");
		vf_assert(vf_peek(s.c_str(), 2 * (size_t)k + 1) == hexchar(c & 15), "low digit of every byte in its place");
		vf_cover("shown");
	}
}

PROOF(proof_hex_stream)
{
	for (int n = 0; n <= 12; n++) {
		unsigned char *b = (unsigned char *)vf_buf("b", n);
		TMemoryStream m;
		m.Write(b, n);
		m.Seek(0, soFromBeginning);
		string s = hexstring(&m);
		vf_assert(s.size() == 2 * n, "two digits per byte of the stream");
		bool ok = true;
		for (int k = 0; k < n; k++) {
			ok &= vf_peek(s.c_str(), 2 * k) == hexchar(b[k] >> 4);
			ok &= vf_peek(s.c_str(), 2 * k + 1) == hexchar(b[k] & 15);
		}
		vf_assert(ok, "every byte as its two digits, in order");
	}
	vf_cover("shown");
}

static int value(unsigned char c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
PROOF(proof_hex_pair)
{
	unsigned char hi = vf_u8("hi"), lo = vf_u8("lo"), r = vf_u8("r");
	bool ok = two_hex_digits_to_byte(hi, lo, r);
	vf_assert(ok == (value(hi) >= 0 && value(lo) >= 0), "accepted exactly when both are hexadecimal digits");
	if (ok) { vf_assert(r == value(hi) * 16 + value(lo), "the byte the digits spell"); vf_cover("accepted"); }
	else vf_cover("refused");
}
PROOF(proof_hex_digit)
{
	unsigned char c = vf_u8("c");
	int v = value(c);
	vf_assert(from_hex_digit(c) == (v < 0 ? 0 : v), "value of a digit");
	vf_cover("digit");
}
PROOF(proof_reverse)
{
	unsigned v = vf_u32("v");
	unsigned r = reverse_byte_order(v);
	vf_assert(r == (v << 24 | (v & 0xff00) << 8 | (v >> 8 & 0xff00) | v >> 24), "bytes in reverse order");
	vf_assert(reverse_byte_order(r) == v, "twice is the identity");
	vf_cover("reversed");
}
