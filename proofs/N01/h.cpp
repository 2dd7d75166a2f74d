// Contracts for number fields (FieldType.cpp, BinaryDecimalNumber.cpp)
#include "FieldType.h"
#include "vf.h"
#include <string>
using std::string;

static FieldType *field(int L, int P)
{
	field_type_declaration d;
	d.type = type_fields::tf_numeric; d.length = L; d.precision = P;
	return FieldType::create_type_manager(d);
}

// stored digit k of a number field: the first byte holds the sign and digit 0, every other byte two digits
static unsigned digit(const unsigned char *b, int k) { return k % 2 ? b[(k + 1) / 2] >> 4 : b[k / 2] & 15; }

static void text_is(const string &s, int neg, const unsigned *d, int L, int I, int c, int last)
{
	const char *t = s.c_str();
	int shift = c == I ? neg + 1 - c : neg - c;	// digit k stands at shift + k (+ 1 after the point)
	vf_assert(s.size() == (last > I ? shift + last + 1 : shift + I), "length of the shown text");
	bool ok = true;
	if (neg) ok &= vf_peek(t, 0) == '-';
	if (c == I) ok &= vf_peek(t, neg) == '0';
	for (int k = c; k < I; k++) ok &= vf_peek(t, shift + k) == '0' + d[k];
	vf_assert(ok, "sign and integer digits in their places");
	if (last > I) {
		ok = vf_peek(t, shift + I) == '.';
		for (int k = I; k < L; k++) if (k < last) ok &= vf_peek(t, shift + k + 1) == '0' + d[k];
		vf_assert(ok, "point and fraction digits in their places");
	}
}

// the text of every stored number with L digits, P of them after the point
static void show(int L, int P)
{
	unsigned char *b = (unsigned char *)vf_buf("b", (L + 2) / 2);
	unsigned d[40];
	for (int k = 0; k < L; k++) { d[k] = digit(b, k); vf_assume(d[k] <= 9); }
	int I = L - P;
	int last = I;	// end of the significant fraction
	for (int k = L - 1; k >= I; k--) if (last == I && d[k] != 0) last = k + 1;
	for (int c = 0; c <= I; c++) {	// c leading zeros in the integer part
		bool here = true;
		for (int k = 0; k < c; k++) here = here && d[k] == 0;
		if (c < I) here = here && d[c] != 0;
		if (!here) continue;
		FieldType *f = field(L, P);
		string s = f->get_presentation((const char *)b, false, 0, false, false);
		if ((b[0] >> 4) == 0) text_is(s, 1, d, L, I, c, last); else text_is(s, 0, d, L, I, c, last);
		vf_cover("shown");
	}
}

// a text of ni integer digits, nf fraction digits and an optional minus is stored digit by digit
static void store(int L, int P, int ni, int nf, bool neg)
{
	if (ni > L - P || nf > P || ni < 0 || nf < 0 || ni + nf == 0) return;
	int I = L - P;
	unsigned char t[40];
	vf_bytes("t", t, 40);
	string s;
	if (neg) s += '-';
	for (int k = 0; k < ni + nf; k++) {
		vf_assume(t[k] >= '0' && t[k] <= '9');
		if (k == ni) s += '.';
		s += t[k];
	}
	FieldType *f = field(L, P);
	vf_assert(f->get_size() == (L + 2) / 2, "stored size");
	unsigned char *b = (unsigned char *)vf_buf("b", (L + 2) / 2);
	vf_assert(f->get_binary_value((char *)b, s), "accepted");
	bool ok = (b[0] >> 4 == 0) == neg;
	vf_assert(ok, "sign stored");
	for (int k = 0; k < L; k++) {
		unsigned want = 0;
		if (k >= I - ni && k < I + nf) want = t[k - (I - ni)] - '0';
		ok &= digit(b, k) == want;
	}
	vf_assert(ok, "digits stored in their places");
	vf_cover("stored");
}
static void stores(int L, int P)
{
	int I = L - P;
	for (int n = 0; n <= I; n++) { store(L, P, n, P, n & 1); if (P) store(L, P, n, 0, !(n & 1)); }
	for (int n = 1; n < P; n++) { store(L, P, I, n, n & 1); if (I) store(L, P, 0, n, !(n & 1)); }
}

// every precision of the lengths lo..hi
static void shows_all(int lo, int hi) { for (int L = lo; L <= hi; L++) for (int P = 0; P <= L; P++) show(L, P); }
static void stores_all(int lo, int hi) { for (int L = lo; L <= hi; L++) for (int P = 0; P <= L; P++) stores(L, P); }
#define R(name, lo, hi) PROOF(proof_num_show_##name) { shows_all(lo, hi); } PROOF(proof_num_store_##name) { stores_all(lo, hi); }
R(1_6, 1, 6) R(7_8, 7, 8) R(9, 9, 9) R(10, 10, 10)
#define R1(n) R(n, n, n)
R1(11) R1(12) R1(13) R1(14) R1(15) R1(16) R1(17) R1(18) R1(19) R1(20) R1(21) R1(22) R1(23) R1(24) R1(25) R1(26) R1(27) R1(28) R1(29) R1(30) R1(31) R1(32)
// common precisions of the longer lengths
#define Q(n) PROOF(proof_num_q_##n) { show(n, 0); stores(n, 0); show(n, 2); store(n, 2, n - 2, 2, true); store(n, 2, 1, 1, false); }
Q(13) Q(15) Q(16) Q(17) Q(20) Q(31) Q(32)
