// Contracts for reading long values (Table::readBlob, V8Object::readBlob): a chain of 256-byte blocks, each with the number of
// the next one, the length of its chunk and the chunk. The object that holds the blocks is given by its contract (V01).
#include <sstream>
#include <map>
#include <set>
#include <deque>
#include <vector>
#include <memory>
#include <string>
#include <iostream>
#include <fstream>
#include <cstring>
#include <algorithm>
#include <boost/filesystem.hpp>
#define private public
#define protected public
#include "Class_1CD.h"
#include "V8Object.h"
#include "Table.h"
#undef private
#undef protected
#include "DetailedException.h"
#include "vf.h"
#ifndef VF_PROOF
#include <sys/mman.h>
#endif

static uint64_t NB;				// blocks of the store
static uint64_t M;				// blocks of the chain
static uint64_t LENGTH;			// bytes of the chain
static uint64_t FIRST;			// its first block
static uint64_t reads, writes;
static uint64_t BASE;				// the position of the target before
static uint8_t wellformed;
static V8Object *STORE;
static uint64_t SIZE;				// of the target
static uint8_t *TO;				// the buffer
static uint64_t K, I;			// any byte of it, any block of the chain

#ifdef VF_PROOF
// the chain: its i-th block, the length of its i-th chunk, the bytes before it
static uint64_t CH(uint64_t i) { return vf_uf("block", i, 0); }
static uint64_t CL(uint64_t i) { return vf_uf("chunk", i, 0); }
static uint64_t PRE(uint64_t i) { return vf_uf("before", i, 0); }
static uint8_t blob(uint64_t b, uint64_t k) { return vf_uf8("blob", b, k); }
// the definition of the chain at its i-th block
static void link(uint64_t i)
{
	uint64_t b = CH(i);
	vf_assume(b != 0 && b < NB);
	vf_assume(CL(i) <= 250 && PRE(i) + CL(i) == PRE(i + 1) && PRE(i + 1) <= LENGTH && PRE(i) <= LENGTH);
	uint64_t n = CH(i + 1);
	vf_assume(blob(b, 0) == (uint8_t)n && blob(b, 1) == (uint8_t)(n >> 8) && blob(b, 2) == (uint8_t)(n >> 16) && blob(b, 3) == (uint8_t)(n >> 24));
	vf_assume(n < NB && (n == 0) == (i + 1 == M) && (i + 1 != M || PRE(i + 1) == LENGTH));
	vf_assume(blob(b, 4) == (uint8_t)CL(i) && blob(b, 5) == (uint8_t)(CL(i) >> 8));
}
#else
static std::vector<uint64_t> blocks, before;
static uint8_t *STORED;
static uint64_t CH(uint64_t i) { return blocks[i]; }
static uint64_t PRE(uint64_t i) { return before[i]; }
static uint64_t CL(uint64_t i) { return before[i + 1] - before[i]; }
static uint8_t blob(uint64_t b, uint64_t k) { return STORED[b * 256 + k]; }
#endif
// the contract of V8Object::get_data
extern "C" char *block_read(V8Object *o, void *b, uint64_t from, uint64_t n)
{
	vf_assert(o == STORE, "the store is read");
	vf_assert(n == 256 && (from & 255) == 0 && from >> 8 < NB, "whole blocks of the store are read");
#ifdef VF_PROOF
	if (wellformed) {
		vf_assert(reads < M, "only the blocks of the chain are read");
		vf_assert(from >> 8 == CH(reads), "the blocks are read in the order of the chain");
		link(reads);
	}
	memcpy(b, vf_page("blob", from >> 8, 256), 256);
#endif
	reads++;
	return (char *)b;
}
struct Target : public TStream {
	int64_t Read(void *, int64_t) override { vf_assert(false, "the target is not read"); return 0; }
	void SetSize(int64_t n) override { vf_assert(n == 0 && reads == 0, "the target is only emptied at first"); SIZE = 0; BASE = 0; }
	int64_t GetSize() const override { return SIZE; }
	int64_t GetPosition() const override { return SIZE; }
	int64_t Write(const void *b, int64_t n) override
	{
		if (wellformed) {
			vf_assert(writes < M && (uint64_t)n == CL(writes), "the chunks are written whole, each with its length");
			vf_assert(SIZE == BASE + PRE(writes), "the chunks are written one after another");
			if (n > 0) {
				uint64_t k = vf_index("kw", n);
#ifdef VF_PROOF
				vf_assert(vf_peek(b, k) == blob(CH(writes), 6 + k), "the chunks are written in the order of the chain");
#else
				for (k = 0; k < (uint64_t)n; k++) vf_assert(((uint8_t *)b)[k] == blob(CH(writes), 6 + k), "the chunks are written in the order of the chain");
#endif
			}
		} else vf_assert(n >= 0 && n <= 250, "a chunk has at most 250 bytes");
		writes++;
		SIZE += n;
		return n;
	}
};
static uint64_t FAR;				// the run reads blocks beyond the fourth gigabyte
static void given(bool good)
{
	reads = writes = 0;
	wellformed = good;
	SIZE = BASE = vf_range("base", 0, 1ull << 40);
	STORE = (V8Object *)vf_raw("store", sizeof(V8Object));
#ifdef VF_PROOF
	NB = vf_range("blocks", 1, 0xffffffff);
	M = vf_range("chain", 0, 0xffffffff);
	LENGTH = vf_range("length", 0, 0xfffffffe);
	FIRST = CH(0);
	vf_assume(FIRST <= 0xffffffff);
	if (good) vf_assume(PRE(0) == 0 && (FIRST == 0) == (M == 0) && (M != 0 || LENGTH == 0) && FIRST < NB);
	STORE->len = NB * 256;
#else
	static const uint64_t room = 0x1800000;		// 6 GB, not taken up before it is used
	FAR = vf_u8("far") % 3 == 0;
	NB = FAR ? room : vf_range("blocks", 2, 40);
	M = vf_range("chain", 0, 12);
	if (M > NB - 1) M = NB - 1;
	STORED = (uint8_t *)mmap(nullptr, NB * 256, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	uint32_t seed = vf_u32("seed");
	auto rnd = [&] { seed = seed * 1664525 + 1013904223; return seed >> 8; };
	std::set<uint64_t> used{0};
	blocks.clear(); before.assign(1, 0);
	while (blocks.size() < M) {
		uint64_t b = rnd() % NB;
		if (FAR && rnd() % 2) b = NB - 1 - rnd() % 30;
		if (used.insert(b).second) blocks.push_back(b);
	}
	blocks.push_back(0);
	for (uint64_t i = 0; i < M; i++) {
		uint8_t *p = STORED + blocks[i] * 256;
		for (int k = 0; k < 256; k++) p[k] = rnd();
		uint64_t l = rnd() % 4 == 0 ? rnd() % 251 : 250 - rnd() % 3 * (rnd() % 2), n = blocks[i + 1];
		if (rnd() % 8 == 0) l = 0;
		if (!good && rnd() % 4 == 0) l = 251 + rnd() % 100;
		if (!good && rnd() % 4 == 0) n = NB + rnd() % 5;
		for (int k = 0; k < 4; k++) p[k] = n >> 8 * k;
		p[4] = l; p[5] = l >> 8;
		before.push_back(before[i] + l);
	}
	LENGTH = good ? before[M] : vf_range("length", 0, 3000);
	FIRST = blocks[0];
	STORE->len = NB * 256;
	STORE->data = (char *)STORED;
#endif
	STORE->type = v8objtype::data80;
	K = vf_index("K", LENGTH ? LENGTH : 1);
	I = vf_index("I", M ? M : 1);
}
static Table *table()
{
	Table *t = (Table *)vf_raw("table", sizeof(Table));
	t->file_blob = STORE;
	new (&t->name) std::string();
	return t;
}
static void read_whole(Target *s, const TStream *r)
{
	vf_assert(r == s, "the target is returned");
	vf_assert(writes == M, "every chunk of the chain is written");
	vf_assert(SIZE == BASE + LENGTH, "the recorded number of bytes is read");
	if (M == 0) vf_cover("empty"); else vf_cover("read");
}
PROOF(proof_table)
{
	given(true);
	bool rewrite = vf_u8("rewrite") & 1;
	Target *s = new (vf_raw("to", sizeof(Target))) Target;
	Table *t = table();
	TStream *r = t->readBlob(s, (uint32_t)FIRST, (uint32_t)LENGTH, rewrite);
	vf_assert(!rewrite || BASE == 0, "the target is emptied first, if it is to be");
	read_whole(s, r);
}
PROOF(proof_object)
{
	given(true);
	bool rewrite = vf_u8("rewrite") & 1, known = vf_u8("known") & 1;
	Target *s = new (vf_raw("to", sizeof(Target))) Target;
	if (M == 0) known = true;
	TStream *r = STORE->readBlob(s, (uint32_t)FIRST, known ? (uint32_t)LENGTH : UINT_MAX, rewrite);
	vf_assert(!rewrite || BASE == 0, "the target is emptied first, if it is to be");
	read_whole(s, r);
}
// into memory: the j-th byte of the value is byte j - PRE(i) of the chunk i with PRE(i) <= j < PRE(i + 1)
PROOF(proof_buffer)
{
	given(true);
	vf_assume(LENGTH <= 0xffffff00);
	Table *t = table();
	TO = (uint8_t *)vf_raw("to", LENGTH);
	uint32_t n = t->readBlob(TO, (uint32_t)FIRST, (uint32_t)LENGTH);
	vf_assert(n == LENGTH, "the recorded number of bytes is read");
	if (M == 0) vf_cover("empty"); else vf_cover("read");
#ifdef VF_PROOF
	if (M > 0 && PRE(I) <= K && K < PRE(I) + CL(I)) vf_assert(vf_peek(TO, K) == blob(CH(I), 6 + (K - PRE(I))), "the chunks are in the order of the chain");
#else
	for (uint64_t i = 0; i < M; i++) for (uint64_t k = 0; k < CL(i); k++) vf_assert(TO[PRE(i) + k] == blob(CH(i), 6 + k), "the chunks are in the order of the chain");
#endif
}
// any store, any first block and length: nothing outside the store is read, nothing beyond the buffer is written
#ifdef VF_PROOF
#define ANY uint32_t first = vf_u32("first")
#else
#define ANY uint32_t first = vf_u8("kind") % 4 ? (uint32_t)FIRST : vf_u32("first")
#endif
PROOF(proof_any_table)
{
	given(false);
	ANY;
	Target *s = new (vf_raw("to", sizeof(Target))) Target;
	Table *t = table();
	try {
		t->readBlob(s, first, (uint32_t)LENGTH, false);
		vf_cover("read");
	} catch (DetailedException &) {
		vf_cover("refused");
	}
	vf_assert(SIZE - BASE <= LENGTH + 250, "a chain is left when it is longer than recorded");
}
PROOF(proof_any_object)
{
	given(false);
	ANY;
	Target *s = new (vf_raw("to", sizeof(Target))) Target;
	try {
		STORE->readBlob(s, first, (uint32_t)LENGTH, false);
		vf_cover("read");
		vf_assert(SIZE - BASE == LENGTH, "another length than recorded is reported");
	} catch (DetailedException &) {
		vf_cover("refused");
	}
	vf_assert(SIZE - BASE <= LENGTH + 250, "a chain is left when it is longer than recorded");
}
PROOF(proof_any_buffer)
{
	given(false);
	ANY;
	vf_assume(LENGTH <= 0xffffff00);
	Table *t = table();
	TO = (uint8_t *)vf_raw("to", LENGTH);
	try {
		t->readBlob(TO, first, (uint32_t)LENGTH);
		vf_cover("read");
	} catch (DetailedException &) {
		vf_cover("refused");
	}
}
