// Contracts for going through the records of a table (TableIterator.cpp, Table.cpp, TableRecord.cpp). The object that holds
// the records is given by its contract (V01): reading a range of it gives the stored bytes.
#include <sstream>
#include <map>
#include <set>
#include <deque>
#include <vector>
#include <memory>
#include <string>
#include <iostream>
#include <fstream>
#include <cstring>
#include <algorithm>
#include <boost/filesystem.hpp>
#define private public
#define protected public
#include "Class_1CD.h"
#include "V8Object.h"
#include "Table.h"
#include "TableRecord.h"
#include "TableIterator.h"
#include "Index.h"
#undef private
#undef protected
#include "DetailedException.h"
#include "vf.h"

static uint32_t N;						// records of the table
static uint64_t LEN;						// bytes of a record
static uint64_t J;						// any record
static uint64_t FROM;					// the record the search starts from
static uint64_t RANK;					// records before J that are not removed (of the table, see proof_list)
static uint32_t asked;					// the record that is to be read
static bool direct;
#ifdef VF_PROOF
static uint8_t rec(uint64_t r, uint64_t k) { return vf_uf8("rec", r, k); }
#else
static const uint8_t *REMOVED;
static uint8_t rec(uint64_t r, uint64_t k) { return k == 0 && r < 40 ? REMOVED[r] & 1 : (uint8_t)(r * 31 + k * 7); }
#endif
static bool removed(uint64_t r) { return rec(r, 0) != 0; }

char *V8Object::get_data(void *b, uint64_t from, uint64_t n)
{
#ifdef VF_PROOF
	uint64_t r = asked;
	if (direct) vf_assert(from == asked * LEN, "a record is read from its place");
#else
	vf_assert(LEN == 0 || from % LEN == 0, "a record is read from its place");
	uint64_t r = from / LEN;
#endif
	vf_assert(n == LEN, "a record is read whole");
	vf_assert(r < N, "only records of the table are read");
#ifdef VF_PROOF
	memcpy(b, vf_page("rec", r, n), n);
#else
	for (uint64_t k = 0; k < n; k++) ((uint8_t *)b)[k] = rec(r, k);
#endif
	return (char *)b;
}
// the contract of Table::get_record, proved by proof_record and proof_record_new
extern "C" void record_given(Table *, uint32_t r, char *b)
{
	vf_assert(r < N, "only records of the table are read");
	memcpy(b, vf_page("rec", r, LEN), LEN);
}
extern "C" TableRecord *record_made(const Table *t, uint32_t r)
{
	vf_assert(r < N, "only records of the table are read");
	char *b = (char *)vf_page("rec", r, LEN);
	return new TableRecord(t, b, LEN);
}
static Table *table(bool large = false)
{
#ifdef VF_PROOF
	N = vf_range("n", 0, 0xfffffffe);
	LEN = vf_range("len", 1, 0x7fffffff);
#else
	N = large ? 0xfffffffe : vf_range("n", 0, 30);
	LEN = large ? vf_range("len", 1, 2000) : vf_range("len", 1, 9);
	REMOVED = (const uint8_t *)vf_buf("removed", 40);
#endif
	J = vf_range("J", 0, 0xffffffff);
	FROM = 0;
	direct = false;
	Table *t = (Table *)vf_raw("table", sizeof(Table));
	t->recordlen = LEN;
	LEN = (int64_t)t->recordlen;
	t->phys_numrecords = N;
	t->file_data = (V8Object *)vf_raw("data", sizeof(V8Object));
	return t;
}
// the bytes of a record are read from record number times record length
PROOF(proof_record)
{
	Table *t = table(true);
	direct = true;
	asked = vf_index("r", N);
	char *b = (char *)vf_raw("to", LEN);
	t->get_record((uint32_t)asked, b);
	vf_cover("read");
	uint64_t k = vf_index("k", LEN);
	vf_assert((uint8_t)b[k] == rec(asked, k), "the record has its stored bytes");
}
PROOF(proof_record_new)
{
	Table *t = table(true);
	direct = true;
	asked = vf_index("r", N);
	const TableRecord *r = t->get_record((uint32_t)asked);
	vf_cover("read");
	uint64_t k = vf_index("k", LEN);
	vf_assert((uint8_t)r->data[k] == rec(asked, k), "the record has its stored bytes");
	vf_assert(r->data_size == (int)LEN && r->get_table() == t, "the record belongs to the table");
	vf_assert(r->is_removed() == removed(asked), "a record is removed exactly if its first byte is not zero");
}
static uint32_t *CUR;
static bool *END;
static TableIterator *place()
{
	TableIterator *it = (TableIterator *)vf_raw("it", sizeof(TableIterator));
	CUR = &it->phys_record_num;
	END = &it->_eof;
	return it;
}
// the first record that is not removed
static void check(TableIterator *it, const char *what)
{
	uint64_t cur = it->phys_record_num, k = vf_index("k", LEN);
	if (J >= FROM && J < N && J < cur) vf_assert(removed(J), "no record that is not removed is left out");
	if (it->eof()) {
		vf_cover("end");
		if (J >= FROM && J < N) vf_assert(removed(J), "the end is reached only after every record that is not removed");
	} else {
		vf_cover("record");
		vf_assert(cur >= FROM && cur < N, "the record is one of those that follow");
		vf_assert(!removed(cur), "no removed record is given");
		const TableRecord &r = static_cast<const TableIterator *>(it)->current();
		vf_assert((uint8_t)r.data[k] == rec(cur, k), "the record has its stored bytes");
	}
}
PROOF(proof_first)
{
	Table *t = table();
	TableIterator *it = place();
	new (it) TableIterator(t);
	check(it, "first");
}
// from any record on: the next one that is not removed
static TableIterator *somewhere(Table *t)
{
	uint32_t cur = vf_u32("cur");
#ifndef VF_PROOF
	cur %= N ? N : 1;
#endif
	vf_assume(cur < N);
	TableIterator *it = place();
	it->table = t;
	it->buf = (char *)vf_raw("buf", LEN);
	new (&it->_current_record) TableRecord(t, it->buf);
	it->phys_record_num = cur;
	it->_eof = false;
	FROM = (uint64_t)cur + 1;
	return it;
}
PROOF(proof_next)
{
	Table *t = table();
	TableIterator *it = somewhere(t);
	bool more = it->next();
	check(it, "next");
	vf_assert(more == !it->eof(), "the end is reported");
}
// after the end there is nothing more
PROOF(proof_end)
{
	Table *t = table();
	TableIterator *it = place();
	it->table = t;
	it->buf = (char *)vf_raw("buf", LEN);
	new (&it->_current_record) TableRecord(t, it->buf);
	it->phys_record_num = N;
	it->_eof = true;
	FROM = N;
	vf_cover("end");
	vf_assert(!it->next(), "after the end there is no record");
	vf_assert(it->eof(), "after the end it stays the end");
}
// the copy of a record has the same bytes
PROOF(proof_copy)
{
	Table *t = table();
	char *b = (char *)vf_buf("bytes", LEN);
	TableRecord *r = new (vf_raw("rec", sizeof(TableRecord))) TableRecord(t, b);
	TableRecord *c = new (vf_raw("cop", sizeof(TableRecord))) TableRecord(*r);
	uint64_t k = vf_index("k", LEN);
	vf_cover("copied");
	vf_assert(c->data != r->data && (uint8_t)c->data[k] == vf_peek(b, k), "the copy of a record has its bytes");
	vf_assert((uint8_t)r->data[k] == vf_peek(b, k), "copying keeps the record");
}
// the list of the records that are not removed: the record with r of them before it stands at place r
#ifdef VF_PROOF
static uint64_t rank(uint64_t r) { return vf_uf("rank", r, 0); }
#else
static uint64_t rank(uint64_t r) { uint64_t n = 0; for (uint64_t i = 0; i < r && i < N; i++) n += !removed(i); return n; }
#endif
static std::vector<uint32_t> *LIST;
extern "C" void no_room(std::vector<uint32_t> *, uint32_t *, const uint32_t *)
{
	vf_assert(false, "no more records are listed than the table has");
	vf_assume(false);
}
PROOF(proof_list)
{
	Table *t = table();
	new (&t->recordsindex) std::vector<uint32_t>();
	uint32_t *v = (uint32_t *)vf_raw("list", 4ull * N);
	uint32_t **vv = (uint32_t **)&t->recordsindex;
	LIST = &t->recordsindex;
#ifdef VF_PROOF
	vv[0] = vv[1] = v;
	vv[2] = v + N;
#endif
	t->recordsindex_complete = false;
	t->fill_records_index();
	vf_cover("listed");
	vf_assert(t->recordsindex.size() == rank(N), "the list has as many records as are not removed");
	vf_assert(t->log_numrecords == rank(N), "the number of records that are not removed is recorded");
	if (J < N && !removed(J)) vf_assert(t->recordsindex[rank(J)] == J, "the list has every record that is not removed, in storage order");
	vf_assert(t->recordsindex_complete, "the list is complete");
	uint64_t n = t->recordsindex.size();
	t->fill_records_index();
	vf_assert(t->recordsindex.size() == n, "a complete list is not built again");
}
