// Contracts for looking up depot objects (Packdata.cpp, PackDirectory.cpp). File streams are given by their contract:
// a read yields the bytes of the file at the position, a write appends to the new file.
#include <sstream>
#include <map>
#include <vector>
#include <memory>
#include <string>
#include <iostream>
#include <fstream>
#include <regex>
#include <cstring>
#include <boost/filesystem.hpp>
#define private public
#define protected public
#include "SystemClasses/TFileStream.hpp"
#include "Packdata.h"
#include "PackDirectory.h"
#undef private
#undef protected
#include "MessageRegistration.h"
#include "DetailedException.h"
#include "vf.h"
using std::string;

Registrator msreg_g;
void binary_datahash(const string &datahash, void *buf);
#ifdef VF_PROOF
static const uint64_t MOST = 1u << 27, PACKED = 1ull << 40;
#else
static const uint64_t MOST = 20, PACKED = 500;
#endif

// ---- what the files hold
static const unsigned char *PCK; static uint64_t PCK_N;		// the pack file
static const unsigned char *IND; static uint64_t IND_N;		// its index
static unsigned created;												// new files
static uint64_t due_from, due_n;										// what a new file is to hold
static uint64_t written;
static TStream *newest;
static bool wrote_before;

static int64_t give(TFileStream *f, const unsigned char *d, uint64_t n, void *b, int64_t c)
{
	uint64_t left = (uint64_t)f->m_position < n ? n - f->m_position : 0;
	uint64_t k = c < 0 ? 0 : (uint64_t)c < left ? c : left;
	if (k > 0) memcpy(b, d + f->m_position, k);
	f->m_position += k;
	return k;
}
struct Pack : public TFileStream {
	Pack() : TFileStream(string(), 0) { m_size = PCK_N; m_position = 0; }
	int64_t Read(void *b, int64_t c) override { return give(this, PCK, PCK_N, b, c); }
	int64_t Write(const void *, int64_t) override { vf_assert(false, "a pack file is not written"); return 0; }
};
namespace System { namespace Classes {
TFileStream::TFileStream(const string &, const uint16_t) : TWrapperStream() {}
TFileStream::TFileStream(const boost::filesystem::path &, const uint16_t) : TWrapperStream() { m_size = IND_N; m_position = 0; }
TFileStream::~TFileStream() {}
void TFileStream::Close() {}
void TFileStream::Reopen() {}
int16_t TFileStream::GetHandle() const { return 0; }
int64_t TFileStream::Read(void *b, int64_t c) { return give(this, IND, IND_N, b, c); }
int64_t TFileStream::Write(const void *b, int64_t n)
{
	vf_assert(this == newest, "the object is written to its own file");
	vf_assert(n >= 0 && (uint64_t)n <= due_n - written, "no more than the bytes of the object");
	if (n > 0) {
		uint64_t k = vf_index("kw", n);
		vf_assert(vf_peek(b, k) == vf_peek(PCK, due_from + written + k), "the bytes of the object in order");
	}
	written += n;
	return n;
}
} }
TTempStream::TTempStream() : TFileStream(string(), 0)
{
	created++;
	newest = this;
	written = 0;
}
TTempStream::~TTempStream() {}

static unsigned char *KEY;
static unsigned char *entries;	// 28 bytes each: key, place
static uint64_t N;
static uint64_t J;					// the entry with the key, or N
static bool same_key(uint64_t k)
{
	bool r = true;
	for (int i = 0; i < 20; i++) r &= vf_peek(entries, 28 * k + i) == KEY[i];
	return r;
}
static uint64_t u64at(const unsigned char *p, uint64_t o)
{
	uint64_t v = 0;
	for (int i = 0; i < 8; i++) v |= (uint64_t)vf_peek(p, o + i) << 8 * i;
	return v;
}
#ifndef VF_PROOF
#include <sys/mman.h>
// a large file of zeros; only its pages that are used take memory
static unsigned char *sparse()
{
	static unsigned char *m;
	const uint64_t size = (1ull << 33) + 4096;
	if (!m) m = (unsigned char *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	madvise(m, size, MADV_DONTNEED);
	return m;
}
#endif
// an index with at most one entry under the key, whose object lies in the pack
static Packdata *packed(uint64_t most, bool stored, bool few)
{
	N = vf_range("n", stored ? 1 : 0, most);
#ifndef VF_PROOF
	few = true;
#endif
	entries = (unsigned char *)vf_buf("entries", 28 * N);
	KEY = (unsigned char *)vf_buf("key", 20);
	PCK_N = vf_range("packed", 0, few ? 24 : PACKED);
#ifdef VF_PROOF
	PCK = (const unsigned char *)vf_buf("pack", PCK_N);
#else
	uint64_t far = (vf_u8("far") & 3) == 0 ? vf_range("away", 1ull << 31, 1ull << 33) : 0;
	if (far) {
		const char *b = (const char *)vf_buf("pack", PCK_N);
		PCK = sparse();
		memcpy((void *)(PCK + far), b, PCK_N);
	} else PCK = (const unsigned char *)vf_buf("pack", PCK_N);
#endif
	J = stored ? vf_index("J", N) : N;
	written = 0; created = 0; newest = nullptr;
#ifndef VF_PROOF
	if (stored) memcpy(entries + 28 * J, KEY, 20);
#endif
	if (stored) {
		vf_assume(same_key(J));
		due_from = u64at(entries, 28 * J + 20);
#ifndef VF_PROOF
		if (PCK_N >= 8) {
			due_from = far + due_from % (PCK_N - 7);
			PCK_N += far;
			memcpy(entries + 28 * J + 20, &due_from, 8);
			((uint64_t *)(PCK + due_from))[0] %= PCK_N - 7 - due_from;
		}
#endif
		vf_assume(PCK_N >= 8 && due_from <= PCK_N - 8);
		due_n = u64at(PCK, due_from);
		due_from += 8;
		vf_assume(due_n <= PCK_N - due_from);
	}
	if (few) for (uint64_t k = 0; k < (most < N ? most : N); k++) if (k != J) vf_assume(!same_key(k));
	Packdata *p = (Packdata *)vf_raw("pd", sizeof(Packdata));
	new (&p->pack) std::unique_ptr<TFileStream>(new (vf_raw("Pack", sizeof(Pack))) Pack);
	unsigned char **v = (unsigned char **)&p->datahashes;	// a vector of these entries
	v[0] = entries;
	v[1] = v[2] = entries + 28 * N;
	return p;
}
// operator new for the new stream: an object of its own
static void *stream;
extern "C" void *new_stream(unsigned long n)
{
	vf_assert(n == sizeof(TTempStream) && created == 0, "one new file is made");
	return stream;
}
static void look(uint64_t most, bool stored, bool few)
{
	stream = vf_raw("stream", sizeof(TTempStream));
	Packdata *p = packed(most, stored, few);
	bool found = vf_u8("found") & 1;
	TStream *s = p->get_data((const char *)KEY, found);
	if (stored) {
		vf_assert(found, "an object stored under the key is found");
		vf_assert(s == newest && created == 1, "its contents are given");
		vf_assert(written == due_n, "the whole object is given");
	} else {
		vf_assert(!found && s == nullptr && created == 0, "nothing is found under a key that is not stored");
	}
	vf_cover("looked up");
}
PROOF(proof_stored) { look(MOST, true, false); }
PROOF(proof_missing) { look(MOST, false, false); }
PROOF(proof_stored_few) { look(3, true, true); }
PROOF(proof_missing_few) { look(3, false, true); }

static unsigned value(unsigned c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c - 'A' + 10; }
static bool hex(unsigned c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F'); }
PROOF(proof_key)
{
	unsigned char *t = (unsigned char *)vf_buf("text", 40), b[20];
	for (int i = 0; i < 40; i++) vf_assume(hex(t[i]));
	binary_datahash(string((const char *)t, 40), b);
	bool ok = true;
	for (int i = 0; i < 20; i++) ok &= b[i] == value(t[2 * i]) * 16 + value(t[2 * i + 1]);
	vf_assert(ok, "every byte of the key from its two digits");
	vf_cover("read");
}

// reading an index: exactly its entries
PROOF(proof_open)
{
	uint64_t n = vf_range("n", 0, MOST);
	IND_N = 12 + 28 * n;
	IND = (const unsigned char *)vf_buf("ind", IND_N);
#ifndef VF_PROOF
	*(uint32_t *)(IND + 8) = n;
#endif
	vf_assume((vf_peek(IND, 8) | vf_peek(IND, 9) << 8 | vf_peek(IND, 10) << 16 | (uint64_t)vf_peek(IND, 11) << 24) == n);
	boost::filesystem::path f;
	Packdata p(f);
	vf_assert(p.datahashes.size() == n, "as many entries as the index counts");
	if (n > 0) {
		uint64_t k = vf_index("k", 28 * n);
		vf_assert(vf_peek(p.datahashes.data(), k) == vf_peek(IND, 12 + k), "every entry as stored");
	}
	vf_cover("opened");
}
// std::fill_n of a range: the elements are written, what with does not matter here
extern "C" record_data_hash *filled(record_data_hash *first, unsigned long n, const record_data_hash &)
{
	if (n > 0) ((char *)first)[0] = 0, ((char *)(first + n))[-1] = 0;
	return first + n;
}
extern "C" void name_only(boost::filesystem::path *, const boost::filesystem::path &) {}

// several packs: the first one that has the key answers
static Packdata *pack_of(unsigned char *e)
{
	Packdata *p = (Packdata *)vf_raw("pd", sizeof(Packdata));
	new (&p->pack) std::unique_ptr<TFileStream>(new (vf_raw("Pack", sizeof(Pack))) Pack);
	std::vector<record_data_hash> v(1);
	memcpy(v.data(), e, 28);
	new (&p->datahashes) std::vector<record_data_hash>(std::move(v));
	return p;
}
PROOF(proof_packs)
{
	unsigned char *t = (unsigned char *)vf_buf("text", 40);
	for (int i = 0; i < 40; i++) vf_assume(hex(t[i]));
	KEY = (unsigned char *)vf_raw("KEY", 20);
	for (int i = 0; i < 20; i++) KEY[i] = value(t[2 * i]) * 16 + value(t[2 * i + 1]);
	entries = (unsigned char *)vf_buf("entries", 3 * 28);
	J = vf_range("J", 0, 2);
#ifndef VF_PROOF
	memcpy(entries + 28 * J, KEY, 20);
	for (int k = 0; k < 3; k++) entries[28 * k + 20] &= 7, memset(entries + 28 * k + 21, 0, 7);
#endif
	for (unsigned k = 0; k < 3; k++) vf_assume(same_key(k) == (k == J));
	PCK_N = 24;
	PCK = (const unsigned char *)vf_buf("pack", PCK_N);
	due_from = u64at(entries, 28 * J + 20);
	vf_assume(due_from <= PCK_N - 8);
#ifndef VF_PROOF
	((uint64_t *)(PCK + due_from))[0] %= PCK_N - 7 - due_from;
#endif
	due_n = u64at(PCK, due_from);
	due_from += 8;
	vf_assume(due_n <= PCK_N - due_from);
	written = 0; created = 0; newest = nullptr;
	PackDirectory d;
	for (int k = 0; k < 3; k++) d.packdates.push_back(std::shared_ptr<Packdata>(std::shared_ptr<Packdata>(), pack_of(entries + 28 * k)));
	bool found = vf_u8("found") & 1;
	TStream *s = d.get_data(string((const char *)t, 40), found);
	vf_assert(found && s == newest && created == 1 && written == due_n, "the object is given by the pack that has it");
	vf_cover("looked up");
}
