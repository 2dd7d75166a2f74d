// Contracts for reading stored objects (V8Object.cpp). The page layer (T_1CD::get_block, contract C01) is given here by
// its contract: page n of the file, or an exception when n is not a page of the file.
#include "V8Object.h"
#include "DetailedException.h"
#include "vf.h"
#include <cstring>
#include <memory>
#include <vector>
#include <algorithm>

static unsigned char *FILE_;
static uint32_t LEN, PS = 4096;
static db_ver VER;
static bool refused;
Registrator msreg_g;

static char *page(uint32_t n)
{
	if (n >= LEN) {
		refused = true;
		throw DetailedException("page outside the file");
	}
	return (char *)FILE_ + (uint64_t)n * PS;
}
char *T_1CD::get_block(uint32_t n) const { return page(n); }
bool T_1CD::get_block(void *buf, uint32_t n, int32_t len) { memcpy(buf, page(n), len < 0 ? PS : len); return true; }
char *T_1CD::get_block_for_write(uint32_t n, bool) { vf_assert(false, "reading does not ask for a page to write"); return page(n); }
db_ver T_1CD::get_version() { return VER; }
uint32_t T_1CD::get_pagesize() const { return PS; }
bool T_1CD::get_readonly() { return true; }
void T_1CD::set_block_as_free(uint32_t) { vf_assert(false, "reading frees no page"); }
uint32_t T_1CD::get_free_block() { vf_assert(false, "reading takes no page"); return 0; }
const MemBlockManager &T_1CD::getMemBlockManager() const { static MemBlockManager *m; return *m; }

static uint32_t u32at(uint64_t off)
{
	return vf_peek(FILE_, off) | (uint32_t)vf_peek(FILE_, off + 1) << 8 | (uint32_t)vf_peek(FILE_, off + 2) << 16 | (uint32_t)vf_peek(FILE_, off + 3) << 24;
}
// the file holds these bytes there (a precondition for the verifier, a write when run)
static void put(uint64_t off, uint64_t v, int n)
{
	for (int i = 0; i < n; i++) {
#ifdef VF_PROOF
		vf_assume(vf_peek(FILE_, off + i) == (unsigned char)(v >> 8 * i));
#else
		FILE_[off + i] = v >> 8 * i;
#endif
	}
}

#ifndef VF_PROOF
#include "../common/native_obj.h"
#endif
static T_1CD *base(uint32_t pages, uint32_t ps, bool new_format)
{
	PS = ps;
	LEN = pages;
	VER = new_format ? db_ver::ver8_3_8_0 : db_ver::ver8_2_14_0;
	FILE_ = (unsigned char *)vf_buf("file", (uint64_t)LEN * ps);
	return (T_1CD *)vf_raw("base", 8);
}
// the header page of an object of the old format
static void header80(uint32_t block, uint32_t len)
{
	put((uint64_t)block * 4096, 0x3856424f42444331ull, 8);
	put((uint64_t)block * 4096 + 8, len, 4);
}
static void header838(uint32_t block, uint64_t len, int fat)
{
	uint64_t at = (uint64_t)block * PS;
	put(at, 0xfd1c, 2);
	put(at + 2, fat, 2);
	put(at + 16, len, 8);
}

// ------------ all lengths: the copying loops are cut by invariants (spec.py)
// O(q), R(q): quotient and remainder of page index q by 1023, the number of pages per table. In the proofs about
// loops they are names, about which spec.py uses lemmas; elsewhere they are the machine division.
static bool named;
static uint64_t Q(uint64_t q)
{
#ifdef VF_PROOF
	if (named) return vf_uf("O", q, 0);
#endif
	return (uint32_t)q / 1023;
}
static uint64_t Rm(uint64_t q)
{
#ifdef VF_PROOF
	if (named) return vf_uf("R", q, 0);
#endif
	return (uint32_t)q - (uint32_t)q / 1023 * 1023;
}
// which page holds byte pos of the object (as the placement tables of the file say)
enum Kind { DATA80, FREE80, FLAT, FAT };
static uint64_t page_of(Kind kind, uint32_t block, uint64_t pos)
{
	uint64_t q = pos / PS, head = (uint64_t)block * PS + 24;
	if (kind == FREE80 || kind == FLAT) return u32at(head + 4 * q);
	uint64_t per = kind == DATA80 ? 1023 : PS / 4, tab, r;
	if (kind == DATA80) {
		tab = u32at(head + 4 * Q(q));
		r = Rm(q);
		return u32at(tab * PS + 4 + 4 * r);
	}
	tab = u32at(head + 4 * (q / per));
	return u32at(tab * PS + 4 * (q % per));
}
struct Obj { T_1CD *b; uint32_t block; uint64_t len; };
// an object of at most cap bytes in a file of at most `pages` pages
static Obj object(Kind kind, uint32_t ps, uint32_t pages, uint64_t lo, uint64_t hi)
{
	Obj o;
	uint64_t cap = kind == DATA80 ? 0xffffffffull : kind == FREE80 ? 1018 * 1024 : kind == FLAT ? (uint64_t)(ps / 4 - 6) * ps : std::min<uint64_t>(1ull << 34, (uint64_t)(ps / 4 - 6) * (ps / 4) * ps);
	if (kind == DATA80) cap = std::min<uint64_t>(cap, 1018ull * 0x3ff000);
	o.len = vf_range("len", lo, std::min(cap, hi));
#ifdef VF_PROOF
	o.b = base(vf_range("pages", 3, pages), ps, kind >= FLAT);
	o.block = kind == FREE80 ? 1 : vf_range("block", 2, pages - 1);
#else
	PS = ps;
	uint64_t n = data_pages(kind == FREE80, o.len), per = kind == DATA80 ? 1023 : ps / 4;
	LEN = file_pages(n, per, kind == DATA80 || kind == FAT) + vf_range("more", 0, 9);
	VER = kind >= FLAT ? db_ver::ver8_3_8_0 : db_ver::ver8_2_14_0;
	o.b = (T_1CD *)vf_raw("base", 8);
	FILE_ = (unsigned char *)vf_raw("file", (uint64_t)LEN * ps);
	SEED = vf_u64("seed");
	fill_file();
	o.block = kind == FREE80 ? 1 : vf_range("block", 2, LEN - 1);
#endif
	vf_assume(o.block < LEN);
	if (kind < FLAT) header80(o.block, o.len);
	else header838(o.block, o.len, kind == FAT);
	if (kind == FREE80) o.len *= 4;
#ifndef VF_PROOF
	place(kind == DATA80 || kind == FAT, kind == DATA80, per, o.block, n, vf_range("bad", 0, 9) == 0);
#endif
	return o;
}
static Obj object(Kind kind, uint32_t ps) { return object(kind, ps, (1ull << 34) / ps, 1, ~0ull); }
static void check_range(Kind kind, uint32_t ps, Obj o, uint64_t start, uint64_t length)
{
	V8Object *v_;
	try {
		v_ = new V8Object(o.b, o.block);
	} catch (...) {
		vf_assert(kind == FREE80, "the object is accepted");		// a list of free pages that is cut short by a zero
		return;
	}
	V8Object &v = *v_;
	vf_assert(v.get_len() == o.len, "length of the object");
	unsigned char *buf = (unsigned char *)vf_raw("buf", length);
	bool threw = false;
	refused = false;
	vf_cover("start");
	try {
		vf_assert(v.get_data(buf, start, length) == (char *)buf, "the buffer is returned");
	} catch (...) {
		threw = true;
	}
	vf_assert(threw == (refused || start + length > o.len), "refused exactly when the range leaves the object or a page is outside the file");
	if (!threw && length) {
#ifdef VF_PROOF
		uint64_t k = vf_index("k", length), pos = start + k;
#else
		for (uint64_t k = 0, pos = start; k < length; k++, pos++)
#endif
		vf_assert(buf[k] == vf_peek(FILE_, page_of(kind, o.block, pos) * ps + (pos & (ps - 1))), "every byte comes from its page, at its place");
		vf_cover("read");
	} else vf_cover("refused");
}
static void near(Kind kind, uint32_t ps, uint32_t at);
static void range(Kind kind, uint32_t ps)
{
#ifdef VF_PROOF
	named = true;
	Obj o = object(kind, ps);
	uint64_t start = vf_range("start", 0, 1ull << 34), length = vf_range("length", 0, 1ull << 34);
	check_range(kind, ps, o, start, length);
#else
	near(kind, ps, vf_u8("where") & 1 ? 0 : kind == DATA80 ? 1021 : kind == FLAT ? ps / 4 - 9 : ps / 4 - 2);
#endif
}
// bounded: ranges of at most two pages, around page `at` of the object
static void near(Kind kind, uint32_t ps, uint32_t at)
{
	Obj o = object(kind, ps, 2000, (at ? at - 1 : 0) * (uint64_t)ps + 1, (at + 3) * (uint64_t)ps);
	uint64_t start = (uint64_t)at * ps + vf_range("start", 0, ps), length = vf_range("length", 0, 2 * ps);
	check_range(kind, ps, o, start, length);
}
PROOF(proof_near80) { near(DATA80, 4096, 0); }
PROOF(proof_neartable80) { near(DATA80, 4096, 1021); }
PROOF(proof_nearflat) { near(FLAT, 8192, 0); }
PROOF(proof_nearflatend) { near(FLAT, 4096, 1015); }
PROOF(proof_nearfat) { near(FAT, 8192, 0); }
PROOF(proof_neartablefat) { near(FAT, 4096, 1022); }
PROOF(proof_free80) { near(FREE80, 4096, 0); }
PROOF(proof_range80) { range(DATA80, 4096); }
PROOF(proof_rangefree80) { range(FREE80, 4096); }
PROOF(proof_flat4) { range(FLAT, 4096); }
PROOF(proof_flat8) { range(FLAT, 8192); }
PROOF(proof_flat16) { range(FLAT, 16384); }
PROOF(proof_flat32) { range(FLAT, 32768); }
PROOF(proof_flat64) { range(FLAT, 65536); }
PROOF(proof_fat4) { range(FAT, 4096); }
PROOF(proof_fat8) { range(FAT, 8192); }
PROOF(proof_fat16) { range(FAT, 16384); }
PROOF(proof_fat32) { range(FAT, 32768); }
PROOF(proof_fat64) { range(FAT, 65536); }

// the whole object at once, and ranges of an object that is held in memory
static void check_whole(Kind kind, uint32_t ps, Obj o)
{
	V8Object v(o.b, o.block);
	char *d = nullptr;
	refused = false;
	vf_cover("start");
	try {
		d = v.get_data();
	} catch (...) {
		vf_assert(refused, "refused only when a page is outside the file");
		vf_cover("refused");
		return;
	}
	vf_assert(!refused, "refused when a page is outside the file");
#ifdef VF_PROOF
	uint64_t k = vf_index("k", o.len);
#else
	for (uint64_t k = 0; k < o.len; k += k % ps < 4 || k % ps + 5 > ps ? 1 : ps / 64)
#endif
	vf_assert((unsigned char)d[k] == vf_peek(FILE_, page_of(kind, o.block, k) * ps + (k & (ps - 1))), "every byte comes from its page, at its place");
	vf_cover("read");
	uint64_t start = vf_range("start", 0, ~0ull), length = vf_range("length", 0, 1ull << 34);
	vf_assume(start <= 1ull << 34);
	unsigned char *buf = (unsigned char *)vf_raw("buf", length);
	bool threw = false;
	try {
		v.get_data(buf, start, length);
	} catch (...) {
		threw = true;
	}
	vf_assert(threw == (start + length > o.len), "a range of a cached object is refused exactly when it leaves the object");
	if (!threw && length) {
		uint64_t j = vf_index("j", length);
		vf_assert(buf[j] == (unsigned char)d[start + j], "a range of a cached object");
		vf_cover("cached range");
	}
}
static void whole(Kind kind, uint32_t ps)
{
#ifdef VF_PROOF
	named = true;
	check_whole(kind, ps, object(kind, ps));
#else
	uint64_t t = vf_u8("where") & 1 ? 0 : (kind == DATA80 ? 1022ull : kind == FLAT ? ps / 4 - 9 : ps / 4 - 1) * ps;
	check_whole(kind, ps, object(kind, ps, 2000, t + 1, t + 3 * ps));
#endif
}
// bounded: objects of at most three pages
static void small(Kind kind, uint32_t ps)
{
	Obj o = object(kind, ps, 64, 1, 3 * ps);
	if (kind == DATA80) {		// the table counts its pages
		uint64_t tab = u32at((uint64_t)o.block * PS + 24);
		vf_assume(tab >= LEN || (vf_peek(FILE_, tab * PS) == (o.len + 4095) / 4096 && !vf_peek(FILE_, tab * PS + 1) && !vf_peek(FILE_, tab * PS + 2) && !vf_peek(FILE_, tab * PS + 3)));
	}
	check_whole(kind, ps, o);
}
PROOF(proof_small80) { small(DATA80, 4096); }
PROOF(proof_smallflat) { small(FLAT, 16384); }
PROOF(proof_smallfat) { small(FAT, 16384); }
PROOF(proof_whole80) { whole(DATA80, 4096); }
PROOF(proof_wholeflat4) { whole(FLAT, 4096); }
PROOF(proof_wholefat4) { whole(FAT, 4096); }

// where a byte of the object lies in the file
static void offset(Kind kind, uint32_t ps)
{
#ifdef VF_PROOF
	Obj o = object(kind, ps);
#else
	Obj o = object(kind, ps, 2000, 1, 1100 * ps);
#endif
	V8Object v(o.b, o.block);
	uint64_t pos = vf_range("pos", 0, 1ull << 34), r;
	vf_assume(pos < o.len);
	refused = false;
	vf_cover("start");
	try {
		r = v.get_fileoffset(pos);
	} catch (...) {
		vf_assert(refused, "refused only when a page is outside the file");
		return;
	}
	vf_assert(r == page_of(kind, o.block, pos) * ps + (pos & (ps - 1)), "the place of the byte in the file");
	vf_cover("end");
}
PROOF(proof_offset80) { offset(DATA80, 4096); }
PROOF(proof_offsetflat) { offset(FLAT, 4096); }
PROOF(proof_offsetfat) { offset(FAT, 4096); }
PROOF(proof_offsetfat64) { offset(FAT, 65536); }

// any header page at all: the object is refused, and then it is as if it had never been, or it has the length the page says
static void header(bool new_format, uint32_t ps, uint32_t block)
{
	T_1CD *b = base(8, ps, new_format);
	V8Object *before = V8Object::get_last();
	bool threw = false;
	V8Object *v = nullptr;
	refused = false;
	vf_cover("start");
	try {
		v = new V8Object(b, block);
	} catch (...) {
		threw = true;
	}
	if (threw) {
		vf_assert(V8Object::get_last() == before, "a refused object is not in the list of objects");
		vf_assert(V8Object::get_first() == nullptr, "a refused object is not in the list of objects");
		vf_cover("refused");
		return;
	}
	uint64_t at = (uint64_t)block * ps;
	vf_cover("accepted");
	vf_assert(V8Object::get_last() == v, "an object is in the list of objects");
	if (new_format) {
		vf_assert(vf_peek(FILE_, at) == 0x1c && vf_peek(FILE_, at + 1) == (block == 1 ? 0xff : 0xfd), "the page is a header page");
		if (block == 1) return;
		uint64_t len = u32at(at + 16) | (uint64_t)u32at(at + 20) << 32, per = ps / 4 - 6;
		vf_assert(v->get_len() == len, "the length of the header");
		vf_assert(len <= ((vf_peek(FILE_, at + 2) | vf_peek(FILE_, at + 3)) ? per * (ps / 4) * ps : per * ps), "the page can list the pages of the object");
	} else {
		vf_assert(u32at(at) == 0x42444331 && u32at(at + 4) == 0x3856424f, "the page is a header page");
		uint64_t len = u32at(at + 8);
		if (block == 1) vf_assert(v->get_len() == (uint32_t)(len * 4), "the length of the header");
		else vf_assert(v->get_len() == len, "the length of the header");
		vf_assert(len <= (block == 1 ? 1018ull * 1024 : 1018ull * 1023 * 4096), "the page can list the pages of the object");
	}
	vf_assert(v->get_block_number() == block, "the number of the header page");
}
PROOF(proof_header80) { header(false, 4096, 3); }
PROOF(proof_header838) { header(true, 4096, 3); }
PROOF(proof_header838big) { header(true, 65536, 3); }
PROOF(proof_headerfree80) { header(false, 4096, 1); }
PROOF(proof_headerfree838) { header(true, 8192, 1); }
