import z3
from vcg import LoopSpec
TUS = ['FieldType.cpp', 'Field.cpp', 'BinaryGuid.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp']


def digit(x):
    return z3.If(z3.ULT(x, 10), x + 48, x + 87)


def digits_inv(var):
    """Convert::from_binary, from_varbinary: the digits of i bytes are in place"""
    def inv(L):
        i = L.var('i', 32)
        i64 = z3.SignExt(32, i)
        n = L.var('m', 32) if var else L.val('length', 32)
        s, fr = L.reg('agg.result'), L.reg('fr')
        d = L.u(s, 8)

        def at(k):
            b = L.byte(fr, k + (2 if var else 0))
            return z3.Implies(z3.ULT(k, i64), z3.And(L.byte(d, 2 * k) == digit(z3.LShR(b, 4)), L.byte(d, 2 * k + 1) == digit(b & 15)))
        return [('index', z3.And(i >= 0, i <= n)), ('size', L.u(s, 8, 8) == 2 * z3.SignExt(32, n)), ('forall', 'digits', at)]
    return inv


B = (r'^Convert::from_binary', None, LoopSpec(digits_inv(False)))
V = (r'^Convert::from_varbinary', None, LoopSpec(digits_inv(True)))
FEW = 'declared lengths 0..6'
ENTRIES = {
    'proof_char': dict(what='fixed length text: every declared length up to 2^24, every stored byte'),
    'proof_varchar': dict(what='variable length text: every declared length up to 2^24, every stored length'),
    'proof_binary': dict(what='binary: every declared length up to 2^24', loops=[B], fallback='proof_binary_few'),
    'proof_binary_xml': dict(what='binary in XML', loops=[B], fallback='proof_binary_xml_few'),
    'proof_binary_few': dict(what='binary, loop unrolled', level='bounded', bound=FEW),
    'proof_binary_xml_few': dict(what='binary in XML, loop unrolled', level='bounded', bound=FEW),
    'proof_varbinary': dict(what='binary of variable length: every declared and stored length', loops=[V], fallback='proof_varbinary_few'),
    'proof_varbinary_xml': dict(what='binary of variable length in XML', loops=[V], fallback='proof_varbinary_xml_few'),
    'proof_varbinary_few': dict(what='binary of variable length, loop unrolled', level='bounded', bound=FEW),
    'proof_varbinary_xml_few': dict(what='binary of variable length in XML, loop unrolled', level='bounded', bound=FEW),
    'proof_bool': dict(what='logical values, as text and in XML'),
    'proof_guid': dict(what='16 bytes of a reference field as a GUID, as text and in XML'),
    'proof_guid_setting': dict(what='16 bytes shown as a GUID on request, in both digit orders'),
    'proof_null': dict(what='Field: offset and missing values'),
}
ASSUMPTIONS = ['TEncoding::Unicode is given by its contract (U01): the harness checks that it gets exactly the stored bytes and that its answer is shown']
