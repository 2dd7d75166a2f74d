// Contracts for the checksum (CRC32.cpp, with the table driven implementation of boost)
#include <System.Classes.hpp>
#include "CRC32.h"
#include "vf.h"
#include <cstring>

#ifdef VF_PROOF
static const uint64_t BIG = 1ull << 31;
#else
static const uint64_t BIG = 1ull << 18;
#endif

// the standard CRC-32, bit by bit
static uint32_t step(uint32_t r, unsigned char b)
{
	r ^= b;
	for (int i = 0; i < 8; i++) r = r & 1 ? r >> 1 ^ 0xEDB88320u : r >> 1;
	return r;
}
static void warm()	// builds the table once
{
	TMemoryStream m;
	m.Write("123456789", 9);
	vf_assert(_crc32(&m) == 0xCBF43926u, "the published check value of CRC-32");
	vf_assert(m.GetPosition() == 9, "everything was read");
}

PROOF(proof_crc)
{
	warm();
	uint64_t n = vf_range("n", 0, BIG), p = vf_range("p", 0, BIG);
	vf_assume(p <= n);
	unsigned char *b = (unsigned char *)vf_buf("b", n);
	TMemoryStream m;
	m.SetSize(n);
	memcpy(m.GetMemory(), b, n);
	m.Seek(p, soFromBeginning);
	// F(k): the remainder after the first k bytes; its recursion F(k+1) = step(F(k), byte k) is used in spec.py
	vf_assume(vf_uf("F", 0, 0) == 0xffffffffu);
	uint32_t r = _crc32(&m), want;
#ifdef VF_PROOF
	want = ~(uint32_t)vf_uf("F", n, 0);
#else
	want = 0xffffffff;
	for (uint64_t k = 0; k < n; k++) want = step(want, b[k]);
	want = ~want;
#endif
	vf_assert(r == want, "the CRC-32 of all bytes of the stream, wherever its position was");
	vf_assert(m.GetSize() == (int64_t)n, "the stream keeps its size");
	vf_cover("checksum");
}
// one step of the definition, as used by the invariant
PROOF(proof_step)
{
	uint32_t r = vf_u32("r"), t = r;
	unsigned char b = vf_u8("b");
	t ^= b;
	for (int i = 0; i < 8; i++) { uint32_t m = -(t & 1); t = t >> 1 ^ (0xEDB88320u & m); }
	vf_assert(step(r, b) == t, "definition");
	vf_cover("step");
}
PROOF(proof_small)
{
	warm();
	for (int n = 0; n <= 1; n++) {
		unsigned char *b = (unsigned char *)vf_buf("b", n);
		TMemoryStream m;
		m.Write(b, n);
		uint32_t want = 0xffffffff;
		for (int k = 0; k < n; k++) want = step(want, b[k]);
		vf_assert(_crc32(&m) == ~want, "the CRC-32 of the bytes");
	}
	vf_cover("checksum");
}
PROOF(proof_long)
{
	static const int N[] = {1023, 1024, 1025, 2048};
	for (int i = 0; i < 4; i++) {
		unsigned char b[2048];
		uint32_t want = 0xffffffff;
		for (int k = 0; k < N[i]; k++) { b[k] = k * 7 + (k >> 8); want = step(want, b[k]); }
		TMemoryStream m;
		m.SetSize(N[i]);
		memcpy(m.GetMemory(), b, N[i]);
		vf_assert(_crc32(&m) == ~want, "the CRC-32 of the bytes");
	}
	vf_cover("checksum");
}
