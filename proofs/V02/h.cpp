// Contracts for writing into stored objects (V8Object.cpp). The page layer is given by its contract: a page read is a page
// of the file as it was (FILE_); a page asked for writing is that page of the file as it will be (NEW_).
// Precondition throughout: the data pages of an object are distinct, and none of them is its header or a table.
#include "V8Object.h"
#include "DetailedException.h"
#include "vf.h"
#include <cstring>
#include <memory>
#include <vector>
#include <algorithm>
#include <new>

static unsigned char *FILE_, *NEW_;
static uint32_t LEN, PS = 4096;
static db_ver VER;
static bool refused;
Registrator msreg_g;

static void check(uint32_t n)
{
	if (n >= LEN) {
		refused = true;
		throw DetailedException("page outside the file");
	}
}
char *T_1CD::get_block(uint32_t n) const { check(n); return (char *)FILE_ + (uint64_t)n * PS; }
bool T_1CD::get_block(void *buf, uint32_t n, int32_t len) { check(n); memcpy(buf, FILE_ + (uint64_t)n * PS, len < 0 ? PS : len); return true; }
char *T_1CD::get_block_for_write(uint32_t n, bool read)
{
	check(n);
	unsigned char *p = NEW_ + (uint64_t)n * PS;
	if (!read) memset(p, 0, PS);
	return (char *)p;
}
db_ver T_1CD::get_version() { return VER; }
uint32_t T_1CD::get_pagesize() const { return PS; }
static bool READONLY;
bool T_1CD::get_readonly() { return READONLY; }
void T_1CD::set_block_as_free(uint32_t) { vf_assert(false, "writing inside an object frees no page"); }
uint32_t T_1CD::get_free_block() { vf_assert(false, "writing inside an object takes no page"); return 0; }
const MemBlockManager &T_1CD::getMemBlockManager() const { static MemBlockManager *m; return *m; }

static uint32_t u32at(uint64_t off)
{
	return vf_peek(FILE_, off) | (uint32_t)vf_peek(FILE_, off + 1) << 8 | (uint32_t)vf_peek(FILE_, off + 2) << 16 | (uint32_t)vf_peek(FILE_, off + 3) << 24;
}
// the file holds these bytes there (a precondition for the verifier, a write when run)
static void put(uint64_t off, uint64_t v, int n)
{
	for (int i = 0; i < n; i++) {
#ifdef VF_PROOF
		vf_assume(vf_peek(FILE_, off + i) == (unsigned char)(v >> 8 * i));
#else
		FILE_[off + i] = v >> 8 * i;
#endif
	}
}

#ifndef VF_PROOF
#include "../common/native_obj.h"
#endif
static T_1CD *base(uint32_t pages, uint32_t ps, bool new_format)
{
	PS = ps;
	LEN = pages;
	VER = new_format ? db_ver::ver8_3_8_0 : db_ver::ver8_2_14_0;
#ifdef VF_PROOF
	FILE_ = (unsigned char *)vf_buf("file", (uint64_t)LEN * ps);
#else
	FILE_ = (unsigned char *)vf_raw("file", (uint64_t)LEN * ps);
	fill_file();
#endif
	NEW_ = (unsigned char *)vf_raw("new", (uint64_t)LEN * ps);
	return (T_1CD *)vf_raw("base", 8);
}
// the header page of an object of the old format
static void header80(uint32_t block, uint32_t len)
{
	put((uint64_t)block * 4096, 0x3856424f42444331ull, 8);
	put((uint64_t)block * 4096 + 8, len, 4);
}
static void header838(uint32_t block, uint64_t len, int fat)
{
	uint64_t at = (uint64_t)block * PS;
	put(at, 0xfd1c, 2);
	put(at + 2, fat, 2);
	put(at + 16, len, 8);
}

// ------------ all lengths: the copying loops are cut by invariants (spec.py)
// O(q), R(q): quotient and remainder of page index q by 1023, the number of pages per table. In the proofs about
// loops they are names, about which spec.py uses lemmas; elsewhere they are the machine division.
static bool named;
static uint64_t Q(uint64_t q)
{
#ifdef VF_PROOF
	if (named) return vf_uf("O", q, 0);
#endif
	return (uint32_t)q / 1023;
}
static uint64_t Rm(uint64_t q)
{
#ifdef VF_PROOF
	if (named) return vf_uf("R", q, 0);
#endif
	return (uint32_t)q - (uint32_t)q / 1023 * 1023;
}
// which page holds byte pos of the object (as the placement tables of the file say)
enum Kind { DATA80, FREE80, FLAT, FAT };
static uint64_t page_of(Kind kind, uint32_t block, uint64_t pos)
{
	uint64_t q = pos / PS, head = (uint64_t)block * PS + 24;
	if (kind == FREE80 || kind == FLAT) return u32at(head + 4 * q);
	uint64_t per = kind == DATA80 ? 1023 : PS / 4, tab, r;
	if (kind == DATA80) {
		tab = u32at(head + 4 * Q(q));
		r = Rm(q);
		return u32at(tab * PS + 4 + 4 * r);
	}
	tab = u32at(head + 4 * (q / per));
	return u32at(tab * PS + 4 * (q % per));
}
struct Obj { T_1CD *b; uint32_t block; uint64_t len; };
// an object of at most cap bytes in a file of at most `pages` pages
static Obj object(Kind kind, uint32_t ps, uint32_t pages, uint64_t lo, uint64_t hi)
{
	Obj o;
	uint64_t cap = kind == DATA80 ? 0xffffffffull : kind == FREE80 ? 1018 * 1024 : kind == FLAT ? (uint64_t)(ps / 4 - 6) * ps : std::min<uint64_t>(1ull << 34, (uint64_t)(ps / 4 - 6) * (ps / 4) * ps);
	if (kind == DATA80) cap = std::min<uint64_t>(cap, 1018ull * 0x3ff000);
	o.len = vf_range("len", lo, std::min(cap, hi));
#ifdef VF_PROOF
	uint64_t npages = vf_range("pages", 3, pages);
#else
	PS = ps;
	uint64_t n = data_pages(kind == FREE80, o.len), per = kind == DATA80 ? 1023 : ps / 4;
	uint64_t npages = file_pages(n, per, kind == DATA80 || kind == FAT) + vf_range("more", 0, 9);
	SEED = vf_u64("seed");
#endif
	o.b = base(npages, ps, kind >= FLAT);
	o.block = kind == FREE80 ? 1 : vf_range("block", 2, LEN - 1);
	vf_assume(o.block < LEN);
	if (kind < FLAT) header80(o.block, o.len);
	else header838(o.block, o.len, kind == FAT);
	if (kind == FREE80) o.len *= 4;
#ifndef VF_PROOF
	place(kind == DATA80 || kind == FAT, kind == DATA80, per, o.block, n, vf_range("bad", 0, 9) == 0);
#endif
	return o;
}
static Obj object(Kind kind, uint32_t ps) { return object(kind, ps, (1ull << 34) / ps, 1, ~0ull); }

#ifdef VF_PROOF
// the inverse of page_of: which page of the object (if any) page n of the file is
static uint64_t INV(Kind kind, Obj o, uint64_t n)
{
	return vf_uf("INV", n, 0);
}
static bool holds(Kind kind, Obj o, uint64_t n, uint64_t q)
{
	return q < (o.len + PS - 1) / PS && page_of(kind, o.block, q * PS) == n;
}
#endif
class Source : public TStream {
public:
	const unsigned char *p;
	Source(const unsigned char *p_, int64_t n) : p(p_) { m_size = n; m_position = 0; }
	int64_t Read(void *Buffer, int64_t Count) override
	{
		vf_assert(Count >= 0 && Count <= m_size - m_position, "no more is read from the stream than it holds");
		memcpy(Buffer, p + m_position, Count);
		m_position += Count;
		return Count;
	}
	int64_t Write(const void *, int64_t) override { vf_assert(false, "the source stream is not written to"); return 0; }
};
enum How { BUF, STREAM, ALLBUF, ALLSTREAM };
static void check_write(Kind kind, uint32_t ps, Obj o, How how, uint64_t start, uint64_t length)
{
	memcpy(NEW_, FILE_, (uint64_t)LEN * ps);
	V8Object v(o.b, o.block);
	unsigned char *buf = (unsigned char *)vf_buf("buf", length);
	Source *src = (Source *)vf_raw("stream", sizeof(Source));
	new (src) Source(buf, length);
	bool threw = false;
	refused = false;
	vf_cover("start");
	try {
		bool ok = how == BUF ? v.set_data(buf, start, length) : how == STREAM ? v.set_data(src, start, length) : how == ALLBUF ? v.set_data(buf, length) : v.set_data(src);
		vf_assert(ok, "success is reported");
	} catch (...) {
		threw = true;
	}
	vf_assert(threw == (refused || READONLY), "refused exactly when the file is open read-only or a page is outside it");
	uint64_t ver = (uint64_t)o.block * ps + (kind == DATA80 ? 12 : 4);
#ifdef VF_PROOF
	uint64_t x = vf_index("x", (uint64_t)LEN * ps), n = x / ps, q = INV(kind, o, n);
	uint64_t pos = q * ps + (x & (ps - 1));
	unsigned char is = vf_peek(NEW_, x), was = vf_peek(FILE_, x);
	if (READONLY) {
		vf_assert(is == was, "a file open read-only is not changed");
		vf_cover("read-only");
	} else if (!threw) {
		if (x >= ver && x < ver + 8) vf_cover("version");		// the recorded version of the object
		else if (holds(kind, o, n, q)) {
			if (pos >= start && pos - start < length) {
				vf_assert(is == vf_peek(buf, pos - start), "the written range holds the bytes written");
				vf_cover("written");
			} else if (how == BUF || how == STREAM) {
				vf_assert(is == was, "every other byte of the object is unchanged");
				vf_cover("kept");
			}
		} else {
			vf_assert(is == was, "no other page is changed");
			vf_cover("other");
		}
	}
#else
	// every byte of the file: what it should be is built over a copy of the file as it was
	unsigned char *want = FILE_;
	if (READONLY) {
		vf_assert(!memcmp(NEW_, want, (uint64_t)LEN * ps), "a file open read-only is not changed");
		return;
	}
	if (threw) return;
	for (uint64_t at = start, end; at < start + length; at = end) {
		end = std::min(start + length, at - at % ps + ps);
		unsigned char *p = want + page_of(kind, o.block, at) * ps;
		if (memcmp(NEW_ + (p - want) + at % ps, buf + (at - start), end - at)) {
			printf("bytes %llu to %llu of the object\n", (unsigned long long)at, (unsigned long long)end);
			vf_assert(false, "the written range holds the bytes written");
		}
		memcpy(p + at % ps, buf + (at - start), end - at);
		if ((how == ALLBUF || how == ALLSTREAM) && end % ps) memcpy(p + end % ps, NEW_ + (p - want) + end % ps, ps - end % ps);
	}
	memcpy(want + ver, NEW_ + ver, 8);
	vf_assert(!memcmp(NEW_, want, (uint64_t)LEN * ps), "every other byte of the file is unchanged");
#endif
}
static void put_some(Kind kind, uint32_t ps, How how, bool near_table)
{
	READONLY = vf_range("readonly", 0, 1);
#ifdef VF_PROOF
	named = true;
	Obj o = object(kind, ps);
	uint64_t start = how >= ALLBUF ? 0 : vf_range("start", 0, 1ull << 34), length = how >= ALLBUF ? o.len : vf_range("length", 0, 1ull << 34);
	vf_assume(start + length <= o.len);
#else
	uint64_t at = near_table ? kind == DATA80 ? 1021 : kind == FLAT ? ps / 4 - 9 : ps / 4 - 2 : 0;
	Obj o = object(kind, ps, 1200, (at ? at - 1 : 0) * (uint64_t)ps + 1, (at + 3) * (uint64_t)ps);
	uint64_t start = how >= ALLBUF ? 0 : at * ps + vf_range("start", 0, ps), length = how >= ALLBUF ? o.len : vf_range("length", 0, std::min<uint64_t>(2 * ps, o.len - std::min(o.len, start)));
	vf_assume(start + length <= o.len);
#endif
	check_write(kind, ps, o, how, start, length);
}
// bounded: up to 8 bytes across the end of page `at` of the object
static void few(Kind kind, uint32_t ps, How how, uint32_t at)
{
	READONLY = vf_range("readonly", 0, 1);
	Obj o = object(kind, ps, 2000, (at ? at - 1 : 0) * (uint64_t)ps + 1, (at + (how >= ALLBUF ? 2 : 3)) * (uint64_t)ps);
	uint64_t start = how >= ALLBUF ? 0 : (uint64_t)at * ps + vf_range("start", ps - 4, ps), length = how >= ALLBUF ? o.len : vf_range("length", 0, 8);
	vf_assume(start + length <= o.len);
#ifdef VF_PROOF
	// the pages of the object are distinct, and none is its header or its table
	uint64_t n = (o.len + ps - 1) / ps, tab = kind == FLAT ? o.block : u32at((uint64_t)o.block * ps + 24);
	uint64_t tab2 = kind == FLAT || !at ? tab : u32at((uint64_t)o.block * ps + 28);
	for (uint64_t q = at ? at : 0; q < at + 4; q++)
		if (q < n) {
			uint64_t p = page_of(kind, o.block, q * ps);
			vf_assume(INV(kind, o, p) == q && p != o.block && p != tab && p != tab2);
		}
	if (kind == DATA80 && how >= ALLBUF) vf_assume(tab >= LEN || u32at(tab * ps) == n);		// the table counts its pages
#endif
	check_write(kind, ps, o, how, start, length);
}
PROOF(proof_buf80) { put_some(DATA80, 4096, BUF, vf_u8("where") & 1); }
PROOF(proof_bufflat4) { put_some(FLAT, 4096, BUF, vf_u8("where") & 1); }
PROOF(proof_bufflat64) { put_some(FLAT, 65536, BUF, vf_u8("where") & 1); }
PROOF(proof_buffat4) { put_some(FAT, 4096, BUF, vf_u8("where") & 1); }
PROOF(proof_buffat8) { put_some(FAT, 8192, BUF, vf_u8("where") & 1); }
PROOF(proof_buffat16) { put_some(FAT, 16384, BUF, vf_u8("where") & 1); }
PROOF(proof_buffat32) { put_some(FAT, 32768, BUF, vf_u8("where") & 1); }
PROOF(proof_buffat64) { put_some(FAT, 65536, BUF, vf_u8("where") & 1); }
PROOF(proof_stream80) { put_some(DATA80, 4096, STREAM, vf_u8("where") & 1); }
PROOF(proof_streamflat) { put_some(FLAT, 4096, STREAM, vf_u8("where") & 1); }
PROOF(proof_streamfat) { put_some(FAT, 4096, STREAM, vf_u8("where") & 1); }
PROOF(proof_allbufflat) { put_some(FLAT, 4096, ALLBUF, vf_u8("where") & 1); }
PROOF(proof_allbuffat) { put_some(FAT, 4096, ALLBUF, vf_u8("where") & 1); }
PROOF(proof_allstreamflat) { put_some(FLAT, 4096, ALLSTREAM, vf_u8("where") & 1); }
PROOF(proof_allstreamfat) { put_some(FAT, 4096, ALLSTREAM, vf_u8("where") & 1); }
PROOF(proof_allbuf80) { put_some(DATA80, 4096, ALLBUF, vf_u8("where") & 1); }
PROOF(proof_allstream80) { put_some(DATA80, 4096, ALLSTREAM, vf_u8("where") & 1); }
PROOF(proof_few80) { few(DATA80, 4096, BUF, 0); }
PROOF(proof_fewtable80) { few(DATA80, 4096, BUF, 1021); }
PROOF(proof_fewflat) { few(FLAT, 4096, BUF, 0); }
PROOF(proof_fewfat) { few(FAT, 4096, BUF, 0); }
PROOF(proof_fewtablefat) { few(FAT, 4096, BUF, 1022); }
PROOF(proof_fewstream80) { few(DATA80, 4096, STREAM, 0); }
PROOF(proof_fewstreamflat) { few(FLAT, 4096, STREAM, 0); }
PROOF(proof_fewstreamfat) { few(FAT, 4096, STREAM, 0); }
PROOF(proof_fewall80) { few(DATA80, 4096, ALLBUF, 0); }
PROOF(proof_fewallflat) { few(FLAT, 4096, ALLBUF, 0); }
PROOF(proof_fewallfat) { few(FAT, 4096, ALLBUF, 0); }
PROOF(proof_fewallstream80) { few(DATA80, 4096, ALLSTREAM, 0); }
PROOF(proof_fewallstreamflat) { few(FLAT, 4096, ALLSTREAM, 0); }
PROOF(proof_fewallstreamfat) { few(FAT, 4096, ALLSTREAM, 0); }
