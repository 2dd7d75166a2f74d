// Shared by the contracts for fields: declared fields of every kind, and the text encodings by contract (U01).
#include <sstream>
#include <map>
#include <set>
#include <deque>
#include <list>
#include <vector>
#include <mutex>
#include <memory>
#include <string>
#include <fstream>
#include <iostream>
#include <cstring>
#include <boost/filesystem.hpp>
#define private public
#include "Field.h"
#include "TableRecord.h"
#undef private
#include "FieldType.h"
#include "vf.h"
using std::string;
using std::vector;

#ifdef VF_PROOF
static const int LONGEST = 1 << 24;
TEncoding *TEncoding::Unicode;
TEncoding *TEncoding::UTF8;
Registrator msreg_g;
#else
static const int LONGEST = 300;
#endif

static FieldType *make(type_fields t, int length, int precision = 0, bool guid = false)
{
	field_type_declaration d;
	d.type = t; d.length = length; d.precision = precision;
	return FieldType::create_type_manager(d, guid);
}

// the two-byte encoding: accepts exactly the bytes due, gives any text; or gives any two-byte text
struct Encoding : public TEncoding {
	const unsigned char *due = nullptr;
	uint64_t due_size = 0;
	unsigned called = 0;
	char answer[3];
	const unsigned char *text = nullptr;		// given by fromUtf8
	uint64_t text_size = 0;
	vector<uint8_t> GetPreamble() override { return vector<uint8_t>(); }
	string toUtf8(const vector<uint8_t> &b, int offset = 0) const override
	{
		Encoding *e = const_cast<Encoding *>(this);
		e->called++;
		vf_assert(offset == 0, "decoded from the first character");
		vf_assert(b.size() == due_size, "exactly the stored characters are decoded");
		if (due_size > 0) {
			uint64_t k = vf_index("k", due_size);
			vf_assert(vf_peek(b.data(), k) == vf_peek(due, k), "every stored byte in its place");
		}
		return string(answer, 3);
	}
	vector<uint8_t> fromUtf8(const string &) override
	{
		called++;
		return vector<uint8_t>(text, text + text_size);
	}
};
static bool is_answer(const Encoding &e, const string &s)
{
	return s.size() == 3 && s[0] == e.answer[0] && s[1] == e.answer[1] && s[2] == e.answer[2];
}
