// Contracts for the bytes a field takes in a record (FieldType.cpp, Field.cpp, TableRecord.cpp).
// Every value stands in a buffer of exactly its declared size: a byte read or written outside it is an obligation.
#include "../common/fields.h"

static const type_fields KIND[12] = {
	type_fields::tf_binary, type_fields::tf_bool, type_fields::tf_numeric, type_fields::tf_char, type_fields::tf_varchar, type_fields::tf_version,
	type_fields::tf_string, type_fields::tf_text, type_fields::tf_image, type_fields::tf_datetime, type_fields::tf_version8, type_fields::tf_varbinary };
static uint64_t declared(unsigned kind, uint64_t n)
{
	switch (kind) {
		case 0: return n;
		case 1: return 1;
		case 2: return (n + 2) / 2;
		case 3: return 2 * n;
		case 4: return 2 * n + 2;
		case 5: return 16;
		case 6: case 7: case 8: return 8;
		case 9: return 7;
		case 10: return 8;
		default: return n + 2;
	}
}
PROOF(proof_size)
{
	for (unsigned kind = 0; kind < 12; kind++) {
		int n = vf_range("length", 0, LONGEST);
		Field f(nullptr);
		f.null_exists = vf_u8("nullable") & 1;
		f.type_manager = make(KIND[kind], n, vf_range("precision", 0, 32), vf_u8("guid") & 1);
		vf_assert(f.get_size() == (int)declared(kind, n) + (f.null_exists ? 1 : 0), "the size follows from type, length and nullability");
		vf_assert(f.get_size() == (int)declared(kind, n) + (f.null_exists ? 1 : 0), "and stays the same");
		vf_assert(f.get_type() == KIND[kind] && f.get_length() == n, "the declared type and length");
	}
	FieldType *v = FieldType::Version8();
	vf_assert(v->get_size() == 8, "the hidden version takes 8 bytes");
	vf_cover("sized");
}

// ---- writing
static unsigned char *room(uint64_t n) { return (unsigned char *)vf_buf("room", n); }
static unsigned ch(const unsigned char *p, uint64_t k) { return vf_peek(p, 2 * k) | vf_peek(p, 2 * k + 1) << 8; }
static void text_written(type_fields t, uint64_t most, uint64_t longest)
{
	int n = vf_range("length", 0, most);
	bool var = t == type_fields::tf_varchar;
	unsigned char *b = room(2 * (uint64_t)n + (var ? 2 : 0));
	Encoding e;
	TEncoding::Unicode = &e;
	e.text_size = 2 * vf_range("text_length", 0, longest);
	e.text = (const unsigned char *)vf_buf("text", e.text_size);
	FieldType *f = make(t, n);
	if (vf_u8("asked") & 1) f->get_size();
	bool done = f->get_binary_value((char *)b, string("text"));
	vf_assert(done, "stored");
	uint64_t put = e.text_size / 2 < (uint64_t)n ? e.text_size / 2 : n;
	if (var) {
		vf_assert(ch(b, 0) == (put & 0xffff), "the number of characters");
		b += 2;
	}
	if (n > 0) {
		uint64_t k = vf_index("k", n);
		vf_inst(k);
		if (k < put) vf_assert(ch(b, k) == ch(e.text, k), "every character in its place");
		else vf_assert(ch(b, k) == ' ', "the rest is filled with spaces");
	}
	vf_cover("written");
}
PROOF(proof_put_char) { text_written(type_fields::tf_char, LONGEST, LONGEST); }
PROOF(proof_put_varchar) { text_written(type_fields::tf_varchar, LONGEST, LONGEST); }
PROOF(proof_put_char_few) { text_written(type_fields::tf_char, 4, 5); }
PROOF(proof_put_varchar_few) { text_written(type_fields::tf_varchar, 4, 5); }

static int digit(unsigned c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0; }	// any other character counts as zero
static void binary_written(uint64_t most)
{
	int n = vf_range("length", 0, most);
	uint64_t m = vf_range("text_length", 0, 2 * most + 3);
	const char *t = (const char *)vf_buf("text", m);
	unsigned char *b = room(n);
	FieldType::showGUID = FieldType::showGUIDasMS = false;
	FieldType *f = make(type_fields::tf_binary, n);
	if (vf_u8("asked") & 1) f->get_size();
	bool done = f->get_binary_value((char *)b, string(t, m));
	vf_assert(done, "stored");
	if (n > 0) {
		uint64_t k = vf_index("k", n);
		vf_inst(k);
		if (m < 2 * (uint64_t)n) vf_assert(vf_peek(b, k) == 0, "a text too short leaves the value empty");
		else {
			int h = digit(vf_peek(t, 2 * k)), l = digit(vf_peek(t, 2 * k + 1));
			vf_assert(vf_peek(b, k) == h * 16 + l, "every byte from its two digits");
		}
	}
	vf_cover("written");
}
PROOF(proof_put_binary) { binary_written(LONGEST); }
PROOF(proof_put_binary_few) { binary_written(5); }

PROOF(proof_put_guid)
{
	static const int PLACE[16] = { 19, 21, 24, 26, 28, 30, 32, 34, 14, 16, 9, 11, 0, 2, 4, 6 };
	unsigned char *b = room(16);
	const char *t = (const char *)vf_buf("text", 36);
	FieldType::showGUID = true;
	FieldType::showGUIDasMS = false;
	make(type_fields::tf_binary, 16, 0, vf_u8("guid") & 1)->get_binary_value((char *)b, string(t, 36));
	bool ok = true;
	for (int i = 0; i < 16; i++) ok &= b[i] == digit((unsigned char)t[PLACE[i]]) * 16 + digit((unsigned char)t[PLACE[i] + 1]);
	vf_assert(ok, "every byte from its two digits");
	vf_cover("written");
}
PROOF(proof_put_bool)
{
	unsigned char *b = room(1);
	FieldType *f = make(type_fields::tf_bool, vf_range("length", 0, 50));
	char t[4];
	vf_bytes("text", t, 4);
	f->get_binary_value((char *)b, string(t, 4));
	vf_assert(b[0] == (t[0] == 't' && t[1] == 'r' && t[2] == 'u' && t[3] == 'e'), "true is one, anything else is zero");
	f->get_binary_value((char *)b, string(t, 3));
	vf_assert(b[0] == 0, "anything else is zero");
	vf_cover("written");
}
PROOF(proof_put_date)
{
	unsigned char *b = room(7);
	char t[19];
	vf_bytes("text", t, 19);
	for (int i = 0; i < 19; i++) vf_assume(t[i] >= '0' && t[i] <= '9' || i == 2 || i == 5 || i == 10 || i == 13 || i == 16);
	FieldType *f = make(type_fields::tf_datetime, 0);
	f->get_binary_value((char *)b, string(t, 19));
	vf_assert(b[6] == (t[17] - '0') * 16 + t[18] - '0', "the last byte is the seconds");
	f->get_binary_value((char *)b, string(t, vf_range("short", 0, 18)));
	vf_assert(b[0] == 0 && b[1] == 1 && b[2] == 1 && b[3] == 1 && b[4] == 0 && b[5] == 0 && b[6] == 0, "a text too short is the empty date");
	vf_cover("written");
}
// types that cannot be stored from text do not touch other bytes
PROOF(proof_put_others)
{
	static const unsigned other[] = { 5, 6, 7, 8, 10, 11 };
	for (unsigned i = 0; i < 6; i++) {
		uint64_t n = vf_range("length", 0, LONGEST);
		unsigned char *b = (unsigned char *)vf_buf("room", declared(other[i], n));
		vf_assert(!make(KIND[other[i]], n)->get_binary_value((char *)b, string("1")), "not stored from text");
	}
	vf_cover("written");
}

// ---- reading values of fixed size
PROOF(proof_get_fixed)
{
	static const unsigned fixed[] = { 1, 6, 7, 8 };
	for (unsigned i = 0; i < 4; i++) {
		unsigned char *b = (unsigned char *)vf_buf("room", declared(fixed[i], 0));
		string s = make(KIND[fixed[i]], 0)->get_presentation((const char *)b, false, 0, false, vf_u8("detailed") & 1);
		vf_assert(s.size() > 0, "shown");
	}
	vf_cover("shown");
}
PROOF(proof_get_version)
{
	string s = make(type_fields::tf_version, 0)->get_presentation((const char *)vf_buf("v", 16), false, 0, false, false);
	vf_assert(s.size() >= 7, "four numbers");
	vf_cover("shown");
}
PROOF(proof_get_version8)
{
	string s = make(type_fields::tf_version8, 0)->get_presentation((const char *)vf_buf("v", 8), false, 0, false, false);
	vf_assert(s.size() >= 3, "two numbers");
	vf_cover("shown");
}

// ---- Field: nullable values
struct Type : public FieldType {
	int size;
	mutable const char *given = nullptr;
	mutable unsigned called = 0;
	char *writes = nullptr;
	type_fields get_type() const override { return type_fields::tf_binary; }
	int32_t get_length() const override { return size; }
	int32_t get_size() const override { return size; }
	int32_t get_precision() const override { return 0; }
	bool get_case_sensitive() const override { return false; }
	string get_presentation_type() const override { return string(); }
	string get_presentation(const char *rec, bool, wchar_t, bool, bool) const override { given = rec; called++; return string(); }
	bool get_binary_value(char *b, const string &) const override
	{
		given = b;
		called++;
		if (size > 0) {
			uint64_t k = vf_index("k", size);
			vf_assert(vf_peek(b, k) == 0, "built from zero bytes");
		}
		return true;
	}
	string get_XML_presentation(const char *rec, const Table *, bool) const override { given = rec; called++; return string(); }
	uint32_t get_sort_key(const char *, unsigned char *, int32_t) const override { return 0; }
};
PROOF(proof_field_put)
{
	Type t;
	t.size = vf_range("size", 0, LONGEST);
	Field f(nullptr);
	f.null_exists = vf_u8("nullable") & 1;
	f.type_manager = &t;
	bool null = vf_u8("null") & 1;
	uint64_t n = (uint64_t)t.size + (f.null_exists ? 1 : 0);
	unsigned char *b = room(n);
	bool ok = f.get_binary_value((char *)b, null, string("x"));
	vf_assert(ok, "stored");
	if (f.null_exists && null) {
		vf_assert(t.called == 0, "a missing value is not built");
		uint64_t k = vf_index("kn", n);
		vf_assert(vf_peek(b, k) == 0, "a missing value is all zero");
	} else {
		vf_assert(t.called == 1 && t.given == (char *)b + (f.null_exists ? 1 : 0), "the value is built after the flag");
		if (f.null_exists) vf_assert(b[0] == 1, "the value is marked present");
	}
	vf_cover("written");
}
PROOF(proof_field_get)
{
	Type t;
	t.size = vf_range("size", 0, LONGEST);
	Field f(nullptr);
	f.null_exists = vf_u8("nullable") & 1;
	f.type_manager = &t;
	int off = vf_range("offset", 0, LONGEST);
	f.set_offset(off);
	unsigned char *b = room((uint64_t)off + t.size + (f.null_exists ? 1 : 0));
	f.get_presentation((char *)b, vf_u8("empty") & 1);
	bool missing = f.null_exists && vf_peek(b, off) == 0;
	vf_assert(t.called == (missing ? 0 : 1), "only a present value is shown");
	if (!missing) vf_assert(t.given == (char *)b + off + (f.null_exists ? 1 : 0), "from its place in the record");
	f.get_XML_presentation((char *)b, false);
	vf_assert(t.called == (missing ? 0 : 2), "only a present value is shown in XML");
	if (!missing) vf_assert(t.given == (char *)b + off + (f.null_exists ? 1 : 0), "from its place in the record");
	vf_cover("shown");
}

// ---- records
PROOF(proof_record)
{
	Type t;
	t.size = vf_range("size", 0, LONGEST);
	Field f(nullptr);
	f.null_exists = vf_u8("nullable") & 1;
	f.type_manager = &t;
	int off = vf_range("offset", 0, LONGEST), flag = f.null_exists ? 1 : 0, after = vf_range("after", 0, LONGEST);
	f.set_offset(off);
	uint64_t n = (uint64_t)off + flag + t.size + after;
	vf_assume(n > 0);
	unsigned char *b = room(n);
	const unsigned char *d = (const unsigned char *)vf_buf("value", t.size);
	uint64_t k = vf_index("k", n);
	unsigned before = vf_peek(b, k);
	TableRecord r(nullptr, (char *)b, n);
	vf_assert(r.get_raw(&f) == (char *)b + off, "the field begins at its offset");
	vf_assert(r.get_data(&f) == (char *)b + off + flag, "its value follows the flag");
	if (f.null_exists) vf_assert(r.is_null_value(&f) == (vf_peek(b, off) == 0), "missing exactly when the flag is zero");
	else vf_assert(!r.is_null_value(&f), "always present");
	r.set_data(&f, d);
	if (k >= off + (uint64_t)flag && k < (uint64_t)off + flag + t.size) vf_assert(vf_peek(b, k) == vf_peek(d, k - off - flag), "the new value is in place");
	else if (flag && k == off) vf_assert(vf_peek(b, k) == 1, "it is marked present");
	else vf_assert(vf_peek(b, k) == before, "no other byte changes");
	vf_assert(!r.is_null_value(&f), "present now");
	unsigned now = vf_peek(b, k);
	if (f.null_exists) {
		r.set_null(&f);
		vf_assert(r.is_null_value(&f), "missing now");
		vf_assert(k == off || vf_peek(b, k) == now, "only the flag changes");
	}
	vf_cover("changed");
}
