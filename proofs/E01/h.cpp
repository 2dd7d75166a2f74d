// Contracts for base64 (Base64.cpp). The streams are given by the contract of TStream (M01): reading yields the next
// bytes, writing hands them on in order; what is written is compared with the text that is due at that point.
#include <System.Classes.hpp>
#include "Base64.h"
#include "vf.h"
#include <cstring>
#include <string>

// ---- the alphabet, from its definition
static unsigned letter(unsigned d)
{
	return d < 26 ? 'A' + d : d < 52 ? 'a' + (d - 26) : d < 62 ? '0' + (d - 52) : d == 62 ? '+' : '/';
}
static bool is_digit(unsigned c) { return (c >= 'A' && c <= 'Z') | (c >= 'a' && c <= 'z') | (c >= '0' && c <= '9') | (c == '+') | (c == '/'); }
static unsigned value(unsigned c)
{
	return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : 63;
}

static const unsigned char *IN;		// what is coded
static uint64_t N;						// its bytes

// a stream with the contents IN
struct Source : public TStream {
	int64_t GetSize() const override { return N; }
	int64_t Read(void *b, int64_t n) override
	{
		vf_assert(n >= 0 && n <= 4, "reads of a few bytes");
		int64_t k = 0;
		for (; k < 4; k++) {
			if (k < n && m_position + k < (int64_t)N) ((unsigned char *)b)[k] = vf_peek(IN, m_position + k);
		}
		k = n < (int64_t)N - m_position ? n : (int64_t)N - m_position;
		m_position += k;
		return k;
	}
	int64_t Write(const void *, int64_t) override { vf_assert(false, "the source is not written"); return 0; }
};

// ---- encoding
static uint64_t groups;				// groups of 3 bytes coded so far
static uint64_t column;				// groups on the current line
static uint64_t per_line;
static unsigned char byte_at(uint64_t k) { return k < N ? vf_peek(IN, k) : 0; }
static unsigned due(uint64_t g, int k)
{
	unsigned v = byte_at(3 * g) << 16 | byte_at(3 * g + 1) << 8 | byte_at(3 * g + 2);
	if (k == 2 && 3 * g + 1 >= N) return '=';
	if (k == 3 && 3 * g + 2 >= N) return '=';
	return letter(v >> (18 - 6 * k) & 63);
}
static unsigned char16(const void *b, int k) { return ((const unsigned char *)b)[2 * k] | ((const unsigned char *)b)[2 * k + 1] << 8; }
struct Encoded : public TStream {
	int64_t Read(void *, int64_t) override { return 0; }
	int64_t Write(const void *b, int64_t n) override
	{
		if (n == 4) {
			vf_assert(per_line != 0 && column == per_line, "a line break exactly after a full line");
			vf_assert(char16(b, 0) == 13 && char16(b, 1) == 10, "a line break is CR LF");
			column = 0;
		} else {
			vf_assert(n == 8, "four characters for a group");
			vf_assert(3 * groups < N, "no more groups than there are");
			vf_assert(per_line == 0 || column < per_line, "a full line is broken");
			vf_assert(char16(b, 0) == due(groups, 0), "first character");
			vf_assert(char16(b, 1) == due(groups, 1), "second character");
			vf_assert(char16(b, 2) == due(groups, 2), "third character");
			vf_assert(char16(b, 3) == due(groups, 3), "fourth character");
			groups++;
			column++;
		}
		return n;
	}
};
static void encode(uint64_t most, bool lines)
{
	N = vf_range("n", 0, most);
	IN = (const unsigned char *)vf_buf("in", N);
	int linesize = lines ? (int)vf_range("linesize", 4, 0x7fffffff) : 0;
#ifndef VF_PROOF
	if (lines) linesize = 4 + linesize % 80;
#endif
	per_line = (unsigned)linesize / 4;
	groups = column = 0;
	Source s;
	Encoded e;
	base64_encode(&s, &e, linesize);
	vf_assert(3 * groups >= N, "every byte is coded");
	vf_cover("encoded");
}
#ifdef VF_PROOF
enum : uint64_t { ALL = (1ull << 31) - 1 };
#else
enum : uint64_t { ALL = 500 };
#endif
PROOF(proof_encode) { encode(ALL, true); }
PROOF(proof_encode_line) { encode(ALL, false); }
PROOF(proof_encode_few) { encode(7, true); }

// ---- decoding
// the digits of the text: CNT(k) of them before character k, the n-th with value D(n)
static uint64_t wide;						// bytes of a character
static uint64_t chars;
static unsigned text_char(uint64_t k) { return wide == 2 ? vf_peek(IN, 2 * k) | vf_peek(IN, 2 * k + 1) << 8 : vf_peek(IN, k); }
static uint64_t CNT(uint64_t k)
{
#ifdef VF_PROOF
	return vf_uf("CNT", k, 0);
#else
	uint64_t n = 0;
	for (uint64_t i = 0; i < k; i++) n += is_digit(text_char(i));
	return n;
#endif
}
static unsigned D(uint64_t n)
{
#ifdef VF_PROOF
	return (unsigned char)vf_uf("D", n, 0);
#else
	for (uint64_t i = 0; i < chars; i++) if (is_digit(text_char(i)) && n-- == 0) return value(text_char(i));
	return 0;
#endif
}
static uint64_t done;						// groups of 4 digits decoded so far
static uint64_t taken;						// digits in them
struct Decoded : public TStream {
	int64_t Read(void *, int64_t) override { return 0; }
	int64_t Write(const void *p, int64_t n) override
	{
		const unsigned char *b = (const unsigned char *)p;
		vf_assert(n >= 0 && n <= 3, "up to three bytes for a group");
		vf_assert(taken == 4 * done, "only the last group is short");
		taken += n + 1;
		vf_assert(n == 3 || taken == CNT(chars), "a short group ends the text");
		if (n > 0) vf_assert(b[0] == (unsigned char)(D(4 * done) << 2 | D(4 * done + 1) >> 4), "first byte");
		if (n > 1) vf_assert(b[1] == (unsigned char)(D(4 * done + 1) << 4 | D(4 * done + 2) >> 2), "second byte");
		if (n > 2) vf_assert(b[2] == (unsigned char)(D(4 * done + 2) << 6 | D(4 * done + 3)), "third byte");
		done++;
		return n;
	}
};
static void text(uint64_t most, int w)
{
	wide = w;
	chars = vf_range("n", 0, most);
	N = chars * w;
	IN = (const unsigned char *)vf_buf("in", N);
	done = taken = 0;
	vf_assume(CNT(0) == 0);
}
static void decode_stream(uint64_t most)
{
	text(most, 2);
	Source s;
	Decoded d;
	base64_decode(&s, &d);
	vf_assert(taken == CNT(chars), "every digit is decoded");
	vf_cover("decoded");
}
static void decode_string(uint64_t most)
{
	text(most, 1);
	std::string t((const char *)IN, chars);
	Decoded d;
	base64_decode(t, &d);
	vf_assert(taken == CNT(chars), "every digit is decoded");
	vf_cover("decoded");
}
PROOF(proof_decode_stream) { decode_stream(ALL); }
PROOF(proof_decode_string) { decode_string(ALL); }

// ---- decoding is the inverse of encoding: character by character of one group
PROOF(proof_inverse)
{
	N = vf_range("n", 1, 3);
	IN = (const unsigned char *)vf_buf("in", N);
	unsigned d[4];
	for (int k = 0; k < 4; k++) {
		unsigned c = due(0, k);
		vf_assert(is_digit(c) == (k <= (int)N), "a group of n bytes has n + 1 digits");
		d[k] = value(c);
	}
	vf_assert((unsigned char)(d[0] << 2 | d[1] >> 4) == IN[0], "first byte");
	if (N > 1) vf_assert((unsigned char)(d[1] << 4 | d[2] >> 2) == IN[1], "second byte");
	if (N > 2) vf_assert((unsigned char)(d[2] << 6 | d[3]) == IN[2], "third byte");
	vf_assert(!is_digit(13) && !is_digit(10) && !is_digit('='), "line breaks and padding are no digits");
	vf_cover("group");
}
// the real functions one after the other
static unsigned char TXT[200], OUT[40];
static uint64_t ntxt, nout;
struct Text : public TStream {
	int64_t GetSize() const override { return ntxt; }
	int64_t Read(void *b, int64_t n) override { memcpy(b, TXT + m_position, 2); m_position += 2; return 2; }
	int64_t Write(const void *b, int64_t n) override { memcpy(TXT + ntxt, b, n); ntxt += n; return n; }
};
struct Back : public TStream {
	int64_t Read(void *, int64_t) override { return 0; }
	int64_t Write(const void *b, int64_t n) override { for (int k = 0; k < 3; k++) if (k < n) OUT[nout + k] = ((const unsigned char *)b)[k]; nout += n; return n; }
};
PROOF(proof_round)
{
	for (N = 0; N <= 4; N++) {
		IN = (const unsigned char *)vf_buf("in", N);
		ntxt = nout = 0;
		Source s;
		Text t;
		Back b;
		base64_encode(&s, &t, 4);
		base64_decode(&t, &b);
		vf_assert(nout == N, "as many bytes as were encoded");
		for (uint64_t k = 0; k < N; k++) vf_assert(OUT[k] == IN[k], "the bytes that were encoded");
	}
	vf_cover("round trip");
}
