// Contracts for the GUID functions (BinaryGuid.cpp, Common.cpp)
#include "BinaryGuid.h"
#include "Common.h"
#include "vf.h"
#include <cstring>
using std::string;

static char hexd(unsigned x) { return x < 10 ? '0' + x : 'a' + (x - 10); }
// where byte i of the stored form appears in the 36-character texts
static const int POS_1C[16] = {19, 21, 24, 26, 28, 30, 32, 34, 14, 16, 9, 11, 0, 2, 4, 6};
static const int POS_MS[16] = {6, 4, 2, 0, 11, 9, 16, 14, 19, 21, 24, 26, 28, 30, 32, 34};
static unsigned hexv(unsigned char c) { return c <= '9' ? c - '0' : (c <= 'F' ? c - 'A' + 10 : c - 'a' + 10); }
static bool ishex(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

static void is_text_of(const string &s, const unsigned char *d, const int *pos, const char *msg)
{
	vf_assert(s.size() == 36, "text has 36 characters");
	for (int i = 0; i < 16; i++) vf_assert(s[pos[i]] == hexd(d[i] >> 4) && s[pos[i] + 1] == hexd(d[i] & 15), msg);
	vf_assert(s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-', "separators");
}

static void stored(const BinaryGuid &g, unsigned char *out) { memcpy(out, &g, 16); }

// stored -> text -> stored, for all 16 bytes
PROOF(proof_guid_text)
{
	unsigned char d[16], b[16];
	vf_bytes("d", d, 16);
	BinaryGuid g((const char *)d);
	string s = g.as_1C();
	is_text_of(s, d, POS_1C, "byte shown at its place in 1C text");
	BinaryGuid back(s);
	stored(back, b);
	for (int i = 0; i < 16; i++) vf_assert(b[i] == d[i], "text form parses back to the same bytes");
	vf_assert(back == g && !(back != g) && !(back > g) && !(g > back), "text form parses back to an equal GUID");
	vf_cover("end");
}
PROOF(proof_guid_text_helpers)
{
	unsigned char d[16];
	vf_bytes("d", d, 16);
	BinaryGuid g((const char *)d);
	is_text_of(GUID_to_string(g), d, POS_1C, "byte shown at its place in 1C text (GUID_to_string)");
	is_text_of(GUIDas1C(d), d, POS_1C, "byte shown at its place in 1C text (GUIDas1C)");
	is_text_of(g.as_MS(), d, POS_MS, "byte shown at its place in Microsoft text");
	is_text_of(GUIDasMS(d), d, POS_MS, "byte shown at its place in Microsoft text (GUIDasMS)");
	vf_cover("end");
}

// any 36-character text of hexadecimal digits, either case, is read digit by digit
PROOF(proof_guid_parse)
{
	char t[36];
	unsigned char b[16];
	vf_bytes("t", t, 36);
	for (int i = 0; i < 16; i++) vf_assume(ishex(t[POS_1C[i]]) && ishex(t[POS_1C[i] + 1]));
	string s(t, 36);
	BinaryGuid g;
	vf_assert(g.is_empty(), "a new GUID is empty");
	vf_assert(string_to_GUID(s, &g), "36-character text accepted");
	stored(g, b);
	for (int i = 0; i < 16; i++) vf_assert(b[i] == (hexv(t[POS_1C[i]]) << 4 | hexv(t[POS_1C[i] + 1])), "digits of byte i");
	vf_cover("end");
}
// any 32-character text of hexadecimal digits is read in storage order
PROOF(proof_guid_parse_flat)
{
	char t[32];
	unsigned char b[16];
	vf_bytes("t", t, 32);
	for (int i = 0; i < 32; i++) vf_assume(ishex(t[i]));
	string s(t, 32);
	BinaryGuid g;
	vf_assert(string_to_GUID(s, &g), "32-character text accepted");
	stored(g, b);
	for (int i = 0; i < 16; i++) vf_assert(b[i] == (hexv(t[2 * i]) << 4 | hexv(t[2 * i + 1])), "digits of byte i");
	vf_cover("end");
}
// texts of every other length are refused and leave the target unchanged
PROOF(proof_guid_reject)
{
	uint64_t n = vf_range("n", 0, 1u << 20);
	vf_assume(n != 36 && n != 32);
	unsigned char d[16], b[16];
	vf_bytes("d", d, 16);
	BinaryGuid g((const char *)d);
	string s((const char *)vf_buf("t", n), n);
	vf_assert(!string_to_GUID(s, &g), "text of a wrong length refused");
	stored(g, b);
	for (int i = 0; i < 16; i++) vf_assert(b[i] == d[i], "refused text leaves the GUID unchanged");
	bool thrown = false;
	try { BinaryGuid x(s); } catch (...) { thrown = true; }
	vf_assert(thrown, "constructor refuses a text of a wrong length");
	vf_cover("end");
}
// equality, order and emptiness are those of the 16 stored bytes
PROOF(proof_guid_order)
{
	unsigned char x[16], y[16], c[16];
	vf_bytes("x", x, 16); vf_bytes("y", y, 16);
	BinaryGuid a((const char *)x), b((const char *)y), cp(a);
	stored(cp, c);
	for (int i = 0; i < 16; i++) vf_assert(c[i] == x[i], "copy has the same bytes");
	bool eq = true, gt = false, zero = true;
	for (int i = 15; i >= 0; i--) {
		if (x[i] != y[i]) { eq = false; gt = x[i] > y[i]; }
		if (x[i]) zero = false;
	}
	vf_assert((a == b) == eq, "equal exactly when all bytes are equal");
	vf_assert((a != b) == !eq, "unequal exactly when some byte differs");
	vf_assert((a > b) == gt, "order is byte-wise lexicographic");
	vf_assert(a.is_empty() == zero, "empty exactly when all bytes are zero");
	vf_cover("end");
}
