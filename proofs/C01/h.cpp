// Contracts for the page cache (MemBlock.cpp) and the access to pages (T_1CD in Class_1CD.cpp). The file stream is given
// by its contract: a read yields the bytes of the file at the position, a write replaces them.
#include <sstream>
#include <map>
#include <set>
#include <deque>
#include <vector>
#include <memory>
#include <string>
#include <iostream>
#include <fstream>
#include <cstring>
#include <algorithm>
#include <boost/filesystem.hpp>
#define private public
#define protected public
#include "SystemClasses/TFileStream.hpp"
#include "MemBlock.h"
#include "Class_1CD.h"
#undef private
#undef protected
#include "DetailedException.h"
#include "V8Object.h"
#include "vf.h"
using std::string;

static unsigned char *FILE_, *NEW_;		// the file as it was, and as it is
static uint64_t SIZE;
static uint32_t PS, N;
static unsigned writes;
struct File : public TFileStream {
	File() : TFileStream(string(), 0) { m_size = SIZE; m_position = 0; }
};
namespace System { namespace Classes {
unsigned long GetTickCount() { return vf_u32("ticks"); }
TFileStream::TFileStream(const string &, const uint16_t) : TWrapperStream() {}
TFileStream::TFileStream(const boost::filesystem::path &, const uint16_t) : TWrapperStream() {}
TFileStream::~TFileStream() {}
void TFileStream::Close() {}
void TFileStream::Reopen() {}
int16_t TFileStream::GetHandle() const { return 0; }
int64_t TFileStream::Read(void *b, int64_t c)
{
	uint64_t left = (uint64_t)m_position < SIZE ? SIZE - m_position : 0, k = c < 0 ? 0 : (uint64_t)c < left ? c : left;
	if (k > 0) memcpy(b, NEW_ + m_position, k);
	m_position += k;
	return k;
}
int64_t TFileStream::Write(const void *b, int64_t c)
{
	vf_assert(c >= 0 && m_position >= 0 && (uint64_t)(m_position + c) <= SIZE, "a page is written inside the file");
	writes++;
	if (c > 0) memcpy(NEW_ + m_position, b, c);
	m_position += c;
	return c;
}
} }

#ifndef VF_PROOF
#include <sys/mman.h>
// a file of zeros that may be large; only its pages that are used take memory
static unsigned char *sparse(int i)
{
	static unsigned char *m[2];
	const uint64_t size = 1ull << 33;
	if (!m[i]) m[i] = (unsigned char *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	madvise(m[i], size, MADV_DONTNEED);
	return m[i];
}
#endif
// a file of n pages and its cache; page `at` is as the file has it (cached or not) or changed in the cache only
static T_1CD *DB;
static uint32_t at;
static unsigned char *cached;		// the contents of page `at` if it is in the cache
static void database(uint32_t ps, uint32_t spare = 0, bool first = false)
{
#ifdef VF_PROOF
	N = vf_range("n", 1, (1ull << 36) / ps);
#else
	N = (vf_u8("big") & 7) == 0 ? (1ull << 32) / ps + vf_range("n", 1, 40) : vf_range("n", 1, 40);
#endif
	PS = ps;
	SIZE = (uint64_t)N * ps;
#ifdef VF_PROOF
	FILE_ = (unsigned char *)vf_buf("file", SIZE);
	NEW_ = (unsigned char *)vf_raw("new", SIZE);
	memcpy(NEW_, FILE_, SIZE);
#else
	FILE_ = sparse(0);
	NEW_ = sparse(1);
#endif
	writes = 0;
	DB = (T_1CD *)vf_raw("db", sizeof(T_1CD));
	DB->length = N;
	DB->pagesize = ps;
	File *f = new (vf_raw("stream", sizeof(File))) File;
	std::shared_ptr<TFileStream> s(std::shared_ptr<TFileStream>(), f);
	new (&DB->fs) std::shared_ptr<TFileStream>(s);
	new (&DB->memBlockManager) MemBlockManager(s);
	MemBlockManager &m = DB->memBlockManager;
	m.set_page_size(ps);
	m.set_maxcount(10);
	char *v = (char *)vf_raw("cache", 16ull * (N + spare));		// a vector of N pages
#ifndef VF_PROOF
	memset(v, 0, 16ull * (N + spare));
#endif
	char **vv = (char **)&m.memblocks;
	vv[0] = v;
	vv[1] = v + 16ull * N;
	vv[2] = v + 16ull * (N + spare);
	at = first ? 0 : vf_range("at", 0, N - 1);
#ifndef VF_PROOF
	for (int i = 0; i < 2; i++) {		// the page and the first one of a large file have contents
		uint64_t o = i ? 0 : (uint64_t)at * ps;
		memcpy(FILE_ + o, vf_buf(i ? "page0" : "pageat", ps), ps);
		memcpy(NEW_ + o, FILE_ + o, ps);
	}
#endif
	cached = nullptr;
	MemBlock *b = nullptr;
	if (vf_u8("cached") & 1) {
		cached = (unsigned char *)vf_buf("contents", ps);
		b = new (vf_raw("block", sizeof(MemBlock))) MemBlock(0, at);
		b->changed = vf_u8("changed") & 1;
		char **d = (char **)&b->data;
		d[0] = (char *)cached;
		d[1] = d[2] = (char *)cached + ps;
	}
	*(MemBlock **)(v + 16ull * at) = b;
	*(void **)(v + 16ull * at + 8) = nullptr;
}
static unsigned char newest_was(uint64_t k) { return cached ? vf_peek(cached, k) : vf_peek(FILE_, k); }
static unsigned char newest(uint64_t k) { return cached ? cached[k] : vf_peek(FILE_, (uint64_t)at * PS + k); }

// a page the cache already holds is given as it is there, any other as the file has it; a page beyond the end is refused
template<uint32_t ps> static void read_page()
{
	database(ps);
	uint32_t n = vf_u32("page");
	uint64_t k = vf_index("k", ps);
#ifndef VF_PROOF
	n = vf_u8("beyond") & 1 ? N + n % 3 : at;
#else
	vf_assume(n == at || n >= N);		// `at` is any page
#endif
	char *p = nullptr;
	bool refused = false;
	try {
		p = DB->get_block(n);
	} catch (DetailedException &) {
		refused = true;
	}
	if (n >= N) {
		vf_cover("refused");
		vf_assert(refused, "a page number at or beyond the end of the file is refused");
	} else {
		vf_cover("served");
		vf_assert(!refused && p != nullptr, "an existing page is served");
		vf_assert((unsigned char)p[k] == newest(k), "a page has the newest contents, else the bytes of the file at page number times page size");
		vf_assert(DB->get_block(n) == p, "the page stays in its place");
		vf_assert((unsigned char)p[k] == newest(k), "reading again gives the same contents");
	}
	vf_assert(writes == 0, "reading writes nothing");
	vf_assert(DB->length == N, "reading does not change the number of pages");
}
template<uint32_t ps> static void read_copy()
{
	database(ps);
	uint32_t n = vf_u32("page"), len = vf_range("len", 0, ps);
	uint64_t k = vf_index("k", ps);
	bool all = vf_u8("all") & 1;
#ifndef VF_PROOF
	n = vf_u8("beyond") & 1 ? N + n % 3 : at;
#else
	vf_assume(n == at || n >= N);
#endif
	unsigned char *to = (unsigned char *)vf_raw("to", ps);
	to[k] = 77;
	bool refused = false;
	try {
		vf_assert(DB->get_block(to, n, all ? -1 : (int32_t)len), "an existing page is copied");
	} catch (DetailedException &) {
		refused = true;
	}
	if (refused) vf_cover("refused"); else vf_cover("served");
	vf_assert(refused == (n >= N), "exactly the page numbers at or beyond the end of the file are refused");
	vf_assert(to[k] == (!refused && (all || k < len) ? newest(k) : 77), "as many bytes of the page as asked for are copied, and no more");
	vf_assert(writes == 0, "reading writes nothing");
}
// what is written to a page is what is read from it later; no other page and no byte of the file changes before the flush
template<uint32_t ps> static void write_page()
{
	database(ps);
	uint32_t n = vf_u32("page");
	bool read = vf_u8("read") & 1;
	uint64_t j = vf_index("j", ps), k = vf_index("k", ps);
	unsigned char v = vf_u8("v");
#ifndef VF_PROOF
	n = vf_u8("beyond") & 1 ? N + 1 + n % 3 : at;
#else
	vf_assume(n == at || n > N);
#endif
	char *p = nullptr;
	bool refused = false;
	uint64_t other = vf_index("other", N);
	void *kept = DB->memBlockManager.memblocks[other].get();
	try {
		p = DB->get_block_for_write(n, read);
	} catch (DetailedException &) {
		refused = true;
	}
	vf_assert(DB->length == N, "an existing page does not change the number of pages");
	if (n > N) {
		vf_cover("refused");
		vf_assert(refused, "a page number beyond the next new page is refused");
		vf_assert(writes == 0, "a refused page writes nothing");
		return;
	}
	vf_assert(!refused && p != nullptr, "an existing page is served");
	if (other != n)
		vf_assert(DB->memBlockManager.memblocks[other].get() == kept, "the other pages of the cache stay");
	unsigned char was = p[k];
	vf_assert(was == (read || cached ? newest(k) : 0), "a page to be changed has the newest contents, or is empty if they are not asked for");
	p[j] = v;
	char *q = DB->get_block(n);
	vf_assert((unsigned char)q[k] == (j == k ? v : was), "the newest contents are read");
	vf_assert(writes == 0, "nothing is written before the flush");
	DB->memBlockManager.memblocks[n]->write(DB->fs);
	uint64_t f = vf_index("f", SIZE), at0 = (uint64_t)n * ps;
	if (f < at0 || f >= at0 + ps)
		vf_assert(NEW_[f] == vf_peek(FILE_, f), "the other bytes of the file stay");
	vf_assert(NEW_[at0 + k] == (j == k ? v : was), "the newest contents go to the place of the page in the file");
	unsigned w = writes;
	DB->memBlockManager.memblocks[n]->write(DB->fs);
	if (cached) vf_cover("cached"); else vf_cover("not cached");
	vf_assert(writes == w, "a page that was not changed again is not written again");
	q = DB->get_block(n);
	vf_assert((unsigned char)q[k] == (j == k ? v : was), "the contents stay after they were written");
}
// the page after the last one is a new, empty page; the recorded number of pages grows by one
template<uint32_t ps> static void new_page()
{
	database(ps, 1, true);
	uint64_t k = vf_index("k", ps), j = vf_index("j", ps);
	unsigned char v = vf_u8("v");
	char *p = DB->get_block_for_write(N, false);
	if (cached) vf_cover("cached"); else vf_cover("not cached");
	vf_assert(p != nullptr, "a new page is served");
	vf_assert(DB->length == N + 1, "the database has one more page");
	vf_assert(DB->fs->GetSize() == (int64_t)SIZE + ps, "the file has room for the new page");
	vf_assert(p[k] == 0, "a new page is empty");
	unsigned char *h = (unsigned char *)DB->get_block(0);
	vf_assert(h[k] == (k >= 12 && k < 16 ? (unsigned char)((N + 1) >> (k - 12) * 8) : newest_was(k)), "the header of the file records the number of pages, and nothing else in it changes");
	vf_assert(DB->memBlockManager.memblocks[0]->is_changed(), "the header is to be written");
	p[j] = v;
	char *q = DB->get_block(N);
	vf_assert((unsigned char)q[k] == (j == k ? v : 0), "the new page is read as it was written");
	vf_assert(writes == 0, "nothing is written before the flush");
}
#define PAGES(name, f) \
	PROOF(proof_##name##_4) { f<4096>(); } \
	PROOF(proof_##name##_8) { f<8192>(); } \
	PROOF(proof_##name##_16) { f<16384>(); } \
	PROOF(proof_##name##_32) { f<32768>(); } \
	PROOF(proof_##name##_64) { f<65536>(); }
PAGES(read, read_page)
PAGES(copy, read_copy)
PAGES(write, write_page)
PAGES(new, new_page)

// a cache of three pages, each of them absent, as the file has it, or changed
static unsigned char *held[3];
static void three(uint32_t ps)
{
	N = 3;
	PS = ps;
	SIZE = 3ull * ps;
	FILE_ = (unsigned char *)vf_buf("file", SIZE);
	NEW_ = (unsigned char *)vf_raw("new", SIZE);
	memcpy(NEW_, FILE_, SIZE);
	writes = 0;
	DB = (T_1CD *)vf_raw("db", sizeof(T_1CD));
	DB->length = N;
	DB->pagesize = ps;
	File *f = new (vf_raw("stream", sizeof(File))) File;
	std::shared_ptr<TFileStream> s(std::shared_ptr<TFileStream>(), f);
	new (&DB->fs) std::shared_ptr<TFileStream>(s);
	new (&DB->memBlockManager) MemBlockManager(s);
	MemBlockManager &m = DB->memBlockManager;
	m.set_page_size(ps);
	m.set_maxcount(10);
	char *v = (char *)vf_raw("cache", 48);
	char **vv = (char **)&m.memblocks;
	vv[0] = v;
	vv[1] = vv[2] = v + 48;
	static const char *const names[3][4] = {{"c0", "d0", "g0", "t0"}, {"c1", "d1", "g1", "t1"}, {"c2", "d2", "g2", "t2"}};
	for (int i = 0; i < 3; i++) {
		MemBlock *b = nullptr;
		held[i] = nullptr;
		if (vf_u8(names[i][0]) & 1) {
			held[i] = (unsigned char *)vf_buf(names[i][1], ps);
			b = new (vf_raw("block", sizeof(MemBlock))) MemBlock(0, i);
			b->changed = vf_u8(names[i][2]) & 1;
			b->last_data_get = vf_u32(names[i][3]);
			char **d = (char **)&b->data;
			d[0] = (char *)held[i];
			d[1] = d[2] = (char *)held[i] + ps;
		}
		*(MemBlock **)(v + 16 * i) = b;
		*(void **)(v + 16 * i + 8) = nullptr;
	}
}
// at a flush the changed pages, and only those, go to their places in the file
static void flush(uint32_t ps)
{
	three(ps);
	bool changed[3];
	for (int i = 0; i < 3; i++)
		changed[i] = held[i] && DB->memBlockManager.memblocks[i]->is_changed();
	DB->memBlockManager.flush();
	if (changed[0] && changed[2]) vf_cover("two pages");
	uint64_t f = vf_index("f", SIZE);
	unsigned i = f / ps;
	uint64_t k = f % ps;
	vf_assert(NEW_[f] == (changed[i] ? vf_peek(held[i], k) : vf_peek(FILE_, f)), "after a flush the file has the newest contents of every page");
	for (int i = 0; i < 3; i++) {
		vf_assert(DB->memBlockManager.memblocks[i].get() == nullptr || !DB->memBlockManager.memblocks[i]->is_changed(), "after a flush no page waits to be written");
		vf_assert((DB->memBlockManager.memblocks[i].get() != nullptr) == (held[i] != nullptr), "a flush keeps the cache");
	}
	unsigned w = writes;
	DB->memBlockManager.flush();
	vf_assert(writes == w, "a second flush writes nothing");
}
// tidying the cache loses no change
static void garbage(uint32_t ps)
{
	three(ps);
	uint64_t k = vf_index("k", ps);
	unsigned i = vf_range("i", 0, 2);
	bool changed = held[i] && DB->memBlockManager.memblocks[i]->is_changed();
	unsigned char was = held[i] ? held[i][k] : vf_peek(FILE_, (uint64_t)i * ps + k);
#ifdef VF_PROOF
	if (held[i] && !changed) vf_assume(was == vf_peek(FILE_, (uint64_t)i * ps + k));		// invariant of the cache
#else
	if (held[i] && !changed) {
		memcpy(held[i], FILE_ + (uint64_t)i * ps, ps);
		was = held[i][k];
	}
#endif
	bool hard = vf_u8("hard") & 1;
	DB->memBlockManager.garbage(hard);
	vf_assert(writes == 0, "tidying the cache writes nothing");
	MemBlock *b = DB->memBlockManager.memblocks[i].get();
	if (held[i] && b == nullptr) vf_cover("dropped");
	if (changed) vf_assert(b != nullptr && b->is_changed(), "a changed page stays in the cache until it is written");
	if (hard && !changed) vf_assert(b == nullptr, "a full tidying drops every page that was not changed");
	vf_assert((unsigned char)DB->get_block(i)[k] == was, "a page has the same contents after the cache was tidied");
}
PROOF(proof_flush) { flush(4096); }
PROOF(proof_garbage) { garbage(4096); }
// the cache of a database that was just opened has a place for every page and holds none
static void empty(uint64_t n)
{
	File *f = new (vf_raw("stream", sizeof(File))) File;
	std::shared_ptr<TFileStream> s(std::shared_ptr<TFileStream>(), f);
	MemBlockManager *m = new (vf_raw("cache", sizeof(MemBlockManager))) MemBlockManager(s);
	m->create_memblocks(n);
	if (n == 6) vf_cover("six");
	vf_assert(m->get_numblocks() == n, "there is a place for every page");
	for (uint64_t i = 0; i < n; i++)
		vf_assert(m->memblocks[i].get() == nullptr, "no page is held yet");
}
PROOF(proof_empty) { empty(0); empty(1); empty(3); empty(6); }
