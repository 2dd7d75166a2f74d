// Contracts for decoding text, binary and logical field values (FieldType.cpp, Field.cpp)
#include "../common/fields.h"
#include "BinaryGuid.h"

static void text_shown(type_fields t, const char *what)
{
	int n = vf_range("length", 0, LONGEST);
	bool var = t == type_fields::tf_varchar;
	unsigned char *b = (unsigned char *)vf_buf("b", 2 * (uint64_t)n + (var ? 2 : 0));
	Encoding e;
	vf_bytes("answer", e.answer, 3);
	TEncoding::Unicode = &e;
	e.due = var ? b + 2 : b;
	e.due_size = 2 * (uint64_t)n;
	if (var) {
		uint64_t stored = vf_peek(b, 0) | vf_peek(b, 1) << 8;	// characters present
		vf_assume(stored < 0x8000);
		if (stored < (uint64_t)n) e.due_size = 2 * stored;
	}
	FieldType *f = make(t, n);
	string s = f->get_presentation((const char *)b, false, 0, false, false);
	vf_assert(e.called == 1 && is_answer(e, s), "the decoded text is what is shown");
	vf_cover("shown");
}
PROOF(proof_char) { text_shown(type_fields::tf_char, "char"); }
PROOF(proof_varchar) { text_shown(type_fields::tf_varchar, "varchar"); }

static unsigned hexchar(unsigned d) { return d < 10 ? '0' + d : 'a' + d - 10; }
static void digits_of(const string &s, const unsigned char *b, uint64_t n)
{
	vf_assert(s.size() == 2 * n, "two digits for every stored byte, and nothing else");
	if (n > 0) {
		uint64_t k = vf_index("k", n);
		vf_inst(k);
		vf_assert(vf_peek(s.c_str(), 2 * k) == hexchar(vf_peek(b, k) >> 4), "high digit of every byte in its place");
		vf_assert(vf_peek(s.c_str(), 2 * k + 1) == hexchar(vf_peek(b, k) & 15), "low digit of every byte in its place");
	}
}
static void binary_shown(uint64_t most, bool xml)
{
	int n = vf_range("length", 0, most);
	bool guid = n == 16 && vf_u8("guid_field") & 1;
	FieldType::showGUIDasMS = false;
	FieldType::showGUID = false;
	unsigned char *b = (unsigned char *)vf_buf("b", n);
	FieldType *f = make(type_fields::tf_binary, n, 0, false);
	string s = xml ? f->get_XML_presentation((const char *)b, nullptr, false) : f->get_presentation((const char *)b, false, 0, false, false);
	digits_of(s, b, n);
	vf_cover("shown");
}
PROOF(proof_binary) { binary_shown(LONGEST, false); }
PROOF(proof_binary_xml) { binary_shown(LONGEST, true); }
PROOF(proof_binary_few) { binary_shown(6, false); }
PROOF(proof_binary_xml_few) { binary_shown(6, true); }

static void varbinary_shown(uint64_t most, bool xml)
{
	int n = vf_range("length", 0, most);
	unsigned char *b = (unsigned char *)vf_buf("b", 2 + (uint64_t)n);
	uint64_t stored = vf_peek(b, 0) | vf_peek(b, 1) << 8;
	vf_assume(stored < 0x8000);
	FieldType *f = make(type_fields::tf_varbinary, n);
	string s = xml ? f->get_XML_presentation((const char *)b, nullptr, false) : f->get_presentation((const char *)b, false, 0, false, false);
	digits_of(s, b + 2, stored < (uint64_t)n ? stored : n);
	vf_cover("shown");
}
PROOF(proof_varbinary) { varbinary_shown(LONGEST, false); }
PROOF(proof_varbinary_xml) { varbinary_shown(LONGEST, true); }
PROOF(proof_varbinary_few) { varbinary_shown(6, false); }
PROOF(proof_varbinary_xml_few) { varbinary_shown(6, true); }

static bool is(const string &s, const char *t)
{
	size_t n = strlen(t);
	if (s.size() != n) return false;
	bool ok = true;
	for (size_t i = 0; i < n; i++) ok &= vf_peek(s.c_str(), i) == (unsigned char)t[i];
	return ok;
}
PROOF(proof_bool)
{
	unsigned char *b = (unsigned char *)vf_buf("b", 1);
	FieldType *f = make(type_fields::tf_bool, vf_range("length", 0, 100));
	string s = f->get_presentation((const char *)b, false, 0, vf_u8("g") & 1, vf_u8("d") & 1);
	bool t = is(s, "true"), f0 = is(s, "false");
	vf_assert(b[0] ? t : f0, "true exactly when the byte is not zero");
	string x = f->get_XML_presentation((const char *)b, nullptr, vf_u8("g") & 1);
	bool xt = is(x, "true"), xf = is(x, "false");
	vf_assert(b[0] ? xt : xf, "true in XML exactly when the byte is not zero");
	vf_cover("shown");
}
// 16 bytes shown as a GUID: the digits of every byte where the text form has them
static const int PLACE_1C[16] = { 19, 21, 24, 26, 28, 30, 32, 34, 14, 16, 9, 11, 0, 2, 4, 6 };
static const int PLACE_MS[16] = { 6, 4, 2, 0, 11, 9, 16, 14, 19, 21, 24, 26, 28, 30, 32, 34 };
static void guid_is(const string &s, const unsigned char *b, bool ms)
{
	vf_assert(s.size() == 36, "36 characters");
	bool ok = true;
	for (int k = 0; k < 16; k++) {
		int at = ms ? PLACE_MS[k] : PLACE_1C[k];
		ok &= vf_peek(s.c_str(), at) == hexchar(b[k] >> 4);
		ok &= vf_peek(s.c_str(), at + 1) == hexchar(b[k] & 15);
	}
	vf_assert(ok, "the digits of the stored bytes");
}
PROOF(proof_guid)
{
	unsigned char *b = (unsigned char *)vf_buf("b", 16);
	FieldType::showGUIDasMS = false;
	FieldType::showGUID = vf_u8("show") & 1;
	FieldType *f = make(type_fields::tf_binary, 16, 0, true);
	guid_is(f->get_presentation((const char *)b, false, 0, vf_u8("g") & 1, false), b, false);
	guid_is(f->get_XML_presentation((const char *)b, nullptr, vf_u8("g") & 1), b, false);
	vf_cover("shown");
}
PROOF(proof_guid_setting)
{
	unsigned char *b = (unsigned char *)vf_buf("b", 16);
	bool ms = vf_u8("ms") & 1;
	FieldType::showGUIDasMS = ms;
	bool forced = vf_u8("g") & 1;
	FieldType::showGUID = !forced;
	FieldType *f = make(type_fields::tf_binary, 16);
	guid_is(f->get_presentation((const char *)b, false, 0, forced, false), b, ms);
	vf_cover("shown");
}
// a value of a nullable field follows its flag byte
PROOF(proof_null)
{
	unsigned char *b = (unsigned char *)vf_buf("b", 40);
	int off = vf_range("offset", 0, 38);
	Field f(nullptr);
	f.null_exists = vf_u8("nullable") & 1;
	f.set_offset(off);
	f.type_manager = make(type_fields::tf_bool, 1);
	bool empty = vf_u8("empty") & 1;
	string s = f.get_presentation((const char *)b, empty, 0, false, false);
	bool missing = f.null_exists && vf_peek(b, off) == 0;
	bool value = vf_peek(b, off + (f.null_exists ? 1 : 0));
	bool empties = is(s, ""), nulls = is(s, "{NULL}"), trues = is(s, "true"), falses = is(s, "false");
	vf_assert(!missing | (empty ? empties : nulls), "a missing value is shown as missing");
	vf_assert(missing | (value ? trues : falses), "a present value is shown");
	string x = f.get_XML_presentation((const char *)b, false);
	bool xempty = is(x, ""), xtrue = is(x, "true"), xfalse = is(x, "false");
	vf_assert(!missing | xempty, "a missing value is empty in XML");
	vf_assert(missing | (value ? xtrue : xfalse), "a present value is in XML");
	vf_cover("shown");
}
