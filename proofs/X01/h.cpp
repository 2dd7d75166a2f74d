// Contracts for XML escaping (Common.cpp, SystemClasses/System.SysUtils.cpp)
#include "Common.h"
#include "vf.h"
#include <string>
using std::string;

static const char SPECIAL[] = "&<>'\"";
static const char *const ENTITY[] = { "&amp;", "&lt;", "&gt;", "&apos;", "&quot;" };

// kind[i] < 5: the text has special character kind[i] at i; otherwise any other byte
static void escaped(const unsigned char *t, const int *kind, int n)
{
	string in;
	for (int i = 0; i < n; i++)
		if (kind[i] < 5) in += SPECIAL[kind[i]];
		else in += (char)t[i];
	string s = toXML(in);
	bool ok = true;
	size_t p = 0;
	for (int i = 0; i < n; i++) {
		if (kind[i] < 5) {
			for (const char *e = ENTITY[kind[i]]; *e; e++) ok &= vf_peek(s.c_str(), p++) == (unsigned char)*e;
		} else ok &= vf_peek(s.c_str(), p++) == t[i];
	}
	vf_assert(s.size() == p, "length of the escaped text");
	vf_assert(ok, "entities for special characters, everything else unchanged");
}
static unsigned char *plain(int n)
{
	unsigned char *t = (unsigned char *)vf_buf("t", n);
	for (int i = 0; i < n; i++) for (int k = 0; k < 5; k++) vf_assume(t[i] != SPECIAL[k]);
	return t;
}
static void all_texts(int n)
{
	unsigned char *t = plain(n);
	int kind[8] = { 0 };
	for (;;) {
		escaped(t, kind, n);
		int i = 0;
		while (i < n && kind[i] == 5) kind[i++] = 0;
		if (i == n) break;
		kind[i]++;
	}
	vf_cover("escaped");
}
PROOF(proof_xml_2) { for (int n = 0; n <= 2; n++) all_texts(n); }
PROOF(proof_xml_3) { all_texts(3); }
PROOF(proof_xml_4) { all_texts(4); }
// two special characters anywhere in a text of 24 bytes
PROOF(proof_xml_pairs)
{
	unsigned char *t = plain(24);
	int kind[24];
	for (int a = 0; a < 24; a++) for (int b = a; b < 24; b += 1 + (b - a) / 2) {
		for (int i = 0; i < 24; i++) kind[i] = 5;
		kind[a] = a % 5;
		kind[b] = (a + b) % 5;
		escaped(t, kind, 24);
	}
	vf_cover("escaped");
}
PROOF(proof_xml_many)
{
	unsigned char *t = plain(30);
	int kind[30];
	for (int a = 0; a < 5; a++) {
		for (int i = 0; i < 30; i++) kind[i] = i % 2 ? (a + i / 10) % 5 : 5;
		escaped(t, kind, 30);
		for (int i = 0; i < 30; i++) kind[i] = a;
		escaped(t, kind, 30);
	}
	vf_cover("escaped");
}
// texts of any length without special characters
PROOF(proof_xml_plain)
{
	size_t n = vf_range("n", 0, 1000000);
	const char *b = (const char *)vf_buf("b", n);
	string in(b, n);
	for (int k = 0; k < 5; k++) vf_assume(in.find(SPECIAL[k]) == string::npos);
	string s = toXML(in);
	vf_assert(s.size() == n, "same length");
	if (n) {
		size_t k = vf_index("k", n);
		vf_assert(vf_peek(s.c_str(), k) == (unsigned char)b[k], "every byte unchanged");
		vf_cover("copied");
	}
}
