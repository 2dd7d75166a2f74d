// Contracts for opening a database (Class_1CD.cpp, T_1CD::open): what of a file is accepted before anything in it is
// interpreted. The file stream is given by its contract: a read yields the bytes of the file at the position, as many
// as there are. The first object of the database that is looked at (V8Object's constructor) ends the run here.
#include <sstream>
#include <map>
#include <set>
#include <deque>
#include <vector>
#include <memory>
#include <string>
#include <iostream>
#include <fstream>
#include <cstring>
#include <algorithm>
#include <boost/filesystem.hpp>
#define private public
#define protected public
#include "SystemClasses/TFileStream.hpp"
#include "Class_1CD.h"
#undef private
#undef protected
#include "DetailedException.h"
#include "V8Object.h"
#include "vf.h"
using std::string;

static const unsigned char *FILE_;		// the first bytes of the file
static uint64_t SIZE;						// its size
static unsigned reads;
namespace System { namespace Classes {
TFileStream::TFileStream(const string &, const uint16_t) : TWrapperStream() { m_size = SIZE; m_position = 0; }
TFileStream::TFileStream(const boost::filesystem::path &, const uint16_t) : TWrapperStream() { m_size = SIZE; m_position = 0; }
TFileStream::~TFileStream() {}
void TFileStream::Close() {}
void TFileStream::Reopen() {}
int16_t TFileStream::GetHandle() const { return 0; }
int64_t TFileStream::Read(void *b, int64_t c)
{
	vf_assert(m_position >= 0 && c >= 0 && m_position + c <= 64, "only the header page is read before the file is accepted");
	uint64_t left = (uint64_t)m_position < SIZE ? SIZE - m_position : 0, k = (uint64_t)c < left ? c : left;
	if (k) memcpy(b, FILE_ + m_position, k);
	m_position += k;
	return k;
}
int64_t TFileStream::Write(const void *, int64_t) { vf_assert(false, "opening writes nothing before the file is accepted"); return 0; }
} }
struct Accepted { };
static T_1CD *DB;
static bool accepted;
V8Object::V8Object(T_1CD *b, int32_t n)
{
	vf_assert(b == DB, "an object of this file");
	accepted = true;
	throw Accepted();
}
static uint32_t u32of(const unsigned char *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static uint32_t u32at(int o) { return u32of(FILE_ + o); }
static const signed char VERSIONS[6][4] = { { 8, 0, 3, 0 }, { 8, 0, 5, 0 }, { 8, 1, 0, 0 }, { 8, 2, 0, 0 }, { 8, 2, 14, 0 }, { 8, 3, 8, 0 } };

// kind: of the new format with pages of this size; 0: of the new format with pages of another size; 1: another format
static void opened(bool small, uint32_t kind)
{
	DB = new T_1CD;
	unsigned char *f = (unsigned char *)vf_buf("file", 64);
#ifndef VF_PROOF
	SIZE = vf_range("size", 0, 200);
	unsigned which = vf_u8("version") % 8, psize = 4096 << vf_u8("pagesize") % 6, odd = vf_u8("odd") % 8;
	if (kind > 1) which = 5, psize = kind;
	memcpy(f, "1CDBMSV8", 8);
	if (which < 6) memcpy(f + 8, VERSIONS[which], 4);
	if (odd == 1) f[vf_u8("where") % 12] ^= 1 << vf_u8("bit") % 8;
	if (odd == 2) psize = vf_u32("psize");
	uint32_t len = SIZE;
	SIZE *= which == 5 ? psize : 4096;
	if (odd == 3) SIZE += vf_u8("more");
	if (odd == 4) len ^= vf_u8("flip");
	if (odd == 5 || small) SIZE = vf_range("tiny", 0, 30);
	if (odd == 6) psize = 0;
	memcpy(f + 12, &len, 4);
	memcpy(f + 20, &psize, 4);
#else
	bool is_new = (f[8] == 8) & (f[9] == 3) & (f[10] == 8) & (f[11] == 0);
	uint32_t says = u32of(f + 20);
	if (kind == 1) vf_assume(!is_new);
	else if (kind) vf_assume(is_new && says == kind);
	else vf_assume(is_new && says != 4096 && says != 8192 && says != 16384 && says != 32768 && says != 65536);
	SIZE = small ? vf_range("size", 0, 63) : vf_range("size", 64, 1ull << 44);
#endif
	FILE_ = f;
	bool mono = vf_u8("monopoly") & 1, refused = false;
	accepted = false;
	vf_cover("start");
	try {
		DB->open(boost::filesystem::path(), mono);
	} catch (const Accepted &) {
	} catch (const DetailedException &) {
		refused = true;
	}
	vf_assert(accepted != refused, "the file is accepted or refused");
	int v = -1;
	for (int i = 0; i < 6; i++) if (((signed char)f[8] == VERSIONS[i][0]) & ((signed char)f[9] == VERSIONS[i][1]) & ((signed char)f[10] == VERSIONS[i][2]) & ((signed char)f[11] == VERSIONS[i][3])) v = i;
	uint64_t ps = v == 5 ? u32at(20) : 4096;
	bool sig = (u32at(0) == 0x42444331) & (u32at(4) == 0x3856534d);
	bool page = (ps == 4096) | (ps == 8192) | (ps == 16384) | (ps == 32768) | (ps == 65536);
#ifdef VF_PROOF
	if (kind > 1) ps = kind;
#endif
	bool right = (SIZE >= 24) & sig & (v >= 0) & page & (SIZE == u32at(12) * ps);
	if (accepted) {
		vf_assert(SIZE >= 24, "the file has a header");
		vf_assert(sig, "an accepted file has the signature");
		vf_assert(v >= 0, "an accepted file has a version that is known");
		vf_assert(page, "the page size of an accepted file is one of 4, 8, 16, 32, 64 KB");
		vf_assert(SIZE == u32at(12) * ps, "the file has the length its header says");
		vf_assert(DB->pagesize == ps && DB->length == u32at(12), "its pages are counted");
		static const db_ver KNOWN[6] = { db_ver::ver8_0_3_0, db_ver::ver8_0_5_0, db_ver::ver8_1_0_0, db_ver::ver8_2_0_0, db_ver::ver8_2_14_0, db_ver::ver8_3_8_0 };
		bool same = false;
		for (int i = 0; i < 6; i++) same |= (v == i) & (DB->version == KNOWN[i]);
		vf_assert(same, "the format is the one of its version");
		vf_assert(DB->readonly == (v < 2 || !mono), "written only when it is ours alone, never in the oldest formats");
		vf_cover("accepted");
	} else {
		vf_assert(!right, "a consistent file is not refused");
		vf_cover("refused");
	}
}
PROOF(proof_open) { opened(false, 1); }
PROOF(proof_open_odd) { opened(false, 0); }
PROOF(proof_open_4) { opened(false, 4096); }
PROOF(proof_open_8) { opened(false, 8192); }
PROOF(proof_open_16) { opened(false, 16384); }
PROOF(proof_open_32) { opened(false, 32768); }
PROOF(proof_open_64) { opened(false, 65536); }
PROOF(proof_short) { opened(true, 1); }
PROOF(proof_short_new) { opened(true, 4096); }
// contract of the page cache (C01): as many pages as the file
#ifdef VF_PROOF
extern "C" void pages_made(MemBlockManager *, uint64_t n) { vf_assert(n == DB->length, "the page cache has the pages of the file"); }
extern "C" void no_path(boost::filesystem::path *p) { new (p) boost::filesystem::path; }
extern "C" boost::filesystem::path &keep_path(boost::filesystem::path *p) { return *p; }
#endif
