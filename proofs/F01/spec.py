import z3
from vcg import LoopSpec
TUS = ['FieldType.cpp', 'Field.cpp', 'TableRecord.cpp', 'BinaryGuid.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp', 'DetailedException.cpp']


def fill_inv(at_byte):
    """CommonFieldType::get_binary_value: spaces from the end of the text to character i; the rest as it was"""
    def inv(L):
        i, i0 = L.var('i', 32), L.phi0('i')
        fr = L.reg('binary_value')
        n = L.u(L.reg('this'), 4, LENGTH)

        def at(k):
            c, a = z3.LShR(k - at_byte, 1), z3.ZeroExt(32, i)
            filled = z3.And(z3.UGE(k, at_byte), z3.UGE(c, z3.ZeroExt(32, i0)), z3.ULT(c, a))
            return z3.And(z3.Implies(filled, L.byte(fr, k) == z3.If((k & 1) == 0, z3.BitVecVal(32, 8), z3.BitVecVal(0, 8))),
                          z3.Implies(z3.Not(filled), L.byte(fr, k) == L.old(fr, k)))
        return [('index', z3.And(i >= i0, i <= n, i0 >= 0)), ('forall', 'characters', at)]
    return inv


def digits_inv(L):
    """BinaryFieldType::get_binary_value: ind bytes built from 2 * ind digits"""
    i = L.var('ind', 32)
    fr, d = L.reg('binary_value'), L.u(L.reg('value'), 8)
    n = L.u(L.reg('this'), 4, LENGTH)

    def val(c):
        def rng(a, b):
            return z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
        return z3.If(rng('0', '9'), c - 48, z3.If(rng('a', 'f'), c - 87, z3.If(rng('A', 'F'), c - 55, z3.BitVecVal(0, 8))))

    def at(k):
        return z3.Implies(z3.ULT(k, z3.ZeroExt(32, i)), L.byte(fr, k) == (val(L.byte(d, 2 * k)) << 4) + val(L.byte(d, 2 * k + 1)))
    return [('index', z3.And(i >= 0, i <= n)), ('digits', L.var('j', 32) == 2 * i), ('forall', 'bytes', at)]


LENGTH = 12
C = (r'^CommonFieldType::get_binary_value', None, LoopSpec(fill_inv(0)))
V = (r'^CommonFieldType::get_binary_value', None, LoopSpec(fill_inv(2)))
B = (r'^BinaryFieldType::get_binary_value', None, LoopSpec(digits_inv))
ENTRIES = {
    'proof_size': dict(what='sizes of all twelve types, every length up to 2^24, nullable or not'),
    'proof_put_char': dict(what='storing fixed length text: any text, any declared length up to 2^24', loops=[C], fallback='proof_put_char_few'),
    'proof_put_varchar': dict(what='storing variable length text', loops=[V], fallback='proof_put_varchar_few'),
    'proof_put_char_few': dict(what='storing fixed length text, loop unrolled', level='bounded', bound='declared lengths 0..4, texts of 0..5 characters'),
    'proof_put_varchar_few': dict(what='storing variable length text, loop unrolled', level='bounded', bound='declared lengths 0..4, texts of 0..5 characters'),
    'proof_put_binary': dict(what='storing binary from digits: any declared length up to 2^24', loops=[B], fallback='proof_put_binary_few'),
    'proof_put_binary_few': dict(what='storing binary, loop unrolled', level='bounded', bound='declared lengths 0..5'),
    'proof_put_guid': dict(what='storing a GUID from its text'),
    'proof_put_bool': dict(what='storing a logical value'),
    'proof_put_date': dict(what='storing a date, every text of digits, and short texts'),
    'proof_put_others': dict(what='types not stored from text leave their bytes'),
    'proof_get_fixed': dict(what='reading logical values and references to long values'),
    'proof_get_version': dict(what='reading a version'),
    'proof_get_version8': dict(what='reading a hidden version'),
    'proof_field_put': dict(what='Field::get_binary_value: flag and value of nullable fields, any size'),
    'proof_field_get': dict(what='Field::get_presentation and get_XML_presentation: the value starts at the offset, after the flag'),
    'proof_record': dict(what='TableRecord: set_data, set_null, is_null_value, get_raw, get_data, any offset and size'),
}
ASSUMPTIONS = ['TEncoding::Unicode::fromUtf8 is given by its contract (U01): any sequence of two-byte characters',
               'number fields: the bytes read and written are covered by N01, dates by D01']
