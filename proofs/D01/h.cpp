// Contracts for dates (BinaryDecimalNumber.cpp, Common.cpp, FieldType.cpp)
#include "FieldType.h"
#include "BinaryDecimalNumber.h"
#include "Common.h"
#include "vf.h"
#include <string>
#include <cstring>
using std::string;

static const int SHOWN[14] = { 6, 7, 3, 4, 0, 1, 2, 3, 0, 0, 0, 0, 0, 0 };

// 7 stored bytes of 14 decimal digits: year month day hour minute second
static unsigned char *stored(unsigned *d)
{
	unsigned char *b = (unsigned char *)vf_buf("b", 7);
	for (int k = 0; k < 14; k++) {
		d[k] = k % 2 ? b[k / 2] & 15 : b[k / 2] >> 4;
		vf_assume(d[k] <= 9);
	}
	return b;
}
static void dotted(const string &s, const unsigned *d)
{
	vf_assert(s.size() == 19, "dd.mm.yyyy hh:mm:ss has 19 characters");
	static const char shape[] = "67.45.0123 89:ab:cd";
	bool ok = true;
	for (int i = 0; i < 19; i++) {
		char c = shape[i];
		int k = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'd' ? c - 'a' + 10 : -1;
		ok &= vf_peek(s.c_str(), i) == (k < 0 ? (unsigned)c : '0' + d[k]);
	}
	vf_assert(ok, "every digit of dd.mm.yyyy hh:mm:ss in its place");
}

PROOF(proof_date_show)
{
	unsigned d[14];
	unsigned char *b = stored(d);
	dotted(date_to_string(b), d);
	string s = date_to_string1C(b);
	vf_assert(s.size() == 14, "yyyymmddhhmmss has 14 characters");
	bool ok = true;
	for (int k = 0; k < 14; k++) ok &= vf_peek(s.c_str(), k) == '0' + d[k];
	vf_assert(ok, "every digit of yyyymmddhhmmss in its place");
	field_type_declaration t; t.type = type_fields::tf_datetime;
	FieldType *f = FieldType::create_type_manager(t);
	vf_assert(f->get_size() == 7, "a date takes 7 bytes");
	dotted(f->get_presentation((const char *)b, false, 0, false, false), d);
	vf_cover("shown");
}

PROOF(proof_date_parts)
{
	unsigned d[14];
	BinaryDecimalDate v(stored(d));
	vf_assert(v.get_year() == d[0] * 1000 + d[1] * 100 + d[2] * 10 + d[3], "year");
	vf_assert(v.get_month() == d[4] * 10 + d[5], "month");
	vf_assert(v.get_day() == d[6] * 10 + d[7], "day");
	vf_assert(v.get_hour() == d[8] * 10 + d[9], "hour");
	vf_assert(v.get_minute() == d[10] * 10 + d[11], "minute");
	vf_assert(v.get_second() == d[12] * 10 + d[13], "second");
	vf_cover("parts");
}

PROOF(proof_date_rewrite)
{
	unsigned d[14];
	unsigned char *b = stored(d);
	BinaryDecimalDate v(b);
	unsigned char *o = (unsigned char *)vf_buf("o", 7);
	v.write_to(o);
	vf_assert(memcmp(o, b, 7) == 0, "writing a read date gives the same 7 bytes and touches no others");
	vf_cover("rewritten");
}

static void digits_text(string &s, unsigned *d, const char *shape)
{
	for (int i = 0; shape[i]; i++) {
		char c = shape[i];
		int k = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'd' ? c - 'a' + 10 : -1;
		if (k < 0) s += c; else s += (char)('0' + d[k]);
	}
}
static bool bytes_are(const unsigned char *o, const unsigned *d)
{
	bool ok = true;
	for (int k = 0; k < 7; k++) ok &= vf_peek(o, k) == d[2 * k] * 16 + d[2 * k + 1];
	return ok;
}
static void any_digits(unsigned *d)
{
	unsigned char t[14];
	vf_bytes("d", t, 14);
	for (int k = 0; k < 14; k++) { vf_assume(t[k] <= 9); d[k] = t[k]; }
}

PROOF(proof_date_read)
{
	unsigned d[14];
	any_digits(d);
	string s;
	digits_text(s, d, "67.45.0123 89:ab:cd");
	unsigned char *o = (unsigned char *)vf_buf("o", 7);
	vf_assert(string_to_date(s, o), "accepted");
	vf_assert(bytes_are(o, d), "dd.mm.yyyy hh:mm:ss is stored digit by digit");
	vf_cover("read");
}
PROOF(proof_date_read_field)
{
	unsigned d[14];
	any_digits(d);
	string s;
	digits_text(s, d, "67.45.0123 89:ab:cd");
	field_type_declaration t; t.type = type_fields::tf_datetime;
	FieldType *f = FieldType::create_type_manager(t);
	unsigned char *o = (unsigned char *)vf_buf("o", f->get_size());
	vf_assert(f->get_binary_value((char *)o, s), "accepted");
	vf_assert(bytes_are(o, d), "the field stores the date digit by digit");
	vf_cover("read");
}
PROOF(proof_date_read_1c)
{
	unsigned d[14];
	any_digits(d);
	string s;
	digits_text(s, d, "0123456789abcd");
	unsigned char *o = (unsigned char *)vf_buf("o", 7);
	vf_assert(string1C_to_date(s, o), "accepted");
	vf_assert(bytes_are(o, d), "yyyymmddhhmmss is stored digit by digit");
	vf_cover("read");
}
static void xml(const unsigned char *b, const unsigned *d)
{
	field_type_declaration t; t.type = type_fields::tf_datetime;
	FieldType *f = FieldType::create_type_manager(t);
	string s = f->get_XML_presentation((const char *)b, 0, false);
	vf_assert(s.size() == 19, "yyyy-mm-ddThh:mm:ss has 19 characters");
	static const char shape[] = "0123-45-67T89:ab:cd";
	bool ok = true;
	for (int i = 0; i < 19; i++) {
		char c = shape[i];
		int k = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'd' ? c - 'a' + 10 : -1;
		ok &= vf_peek(s.c_str(), i) == (k < 0 ? (unsigned)c : '0' + d[k]);
	}
	vf_assert(ok, "every digit of yyyy-mm-ddThh:mm:ss in its place");
}
PROOF(proof_date_xml)
{
	unsigned d[14];
	unsigned char *b = stored(d);
	vf_assume(d[0] != 0);		// years below 1000 lose their leading zeros
	xml(b, d);
	vf_cover("shown");
}
PROOF(proof_date_xml_parts)	// one part arbitrary, the others fixed
{
	unsigned d[14], v[14];
	stored(d);
	static const unsigned char base[14] = { 2, 0, 1, 9, 1, 2, 0, 6, 2, 3, 0, 5, 5, 8 };
	for (int part = 0; part < 6; part++) {
		int from = part ? 2 + 2 * part : 0, to = part ? from + 2 : 4;
		if (part == 0 && d[0] == 0) continue;
		for (int k = 0; k < 14; k++) v[k] = k >= from && k < to ? d[k] : base[k];
		unsigned char b[7];
		for (int k = 0; k < 7; k++) b[k] = v[2 * k] * 16 + v[2 * k + 1];
		xml(b, v);
		vf_cover("shown");
	}
}
