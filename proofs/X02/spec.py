import z3
from vcg import LoopSpec
TUS = ['Common.cpp', 'BinaryDecimalNumber.cpp', 'SystemClasses/TMemoryStream.cpp', 'SystemClasses/TStream.cpp']


def hex_inv(L):
    nn, i = L.val('n', 32), L.phi('i', 32)
    buf, s = L.reg('buf'), L.reg('agg.result')
    i64 = z3.SignExt(32, i)
    d = L.u(s, 8)

    def dig(x):
        return z3.If(z3.ULT(x, 10), x + 48, x + 87)

    def at(k):
        b = L.byte(buf, k)
        return z3.Implies(z3.ULT(k, i64), z3.And(L.byte(d, 2 * k) == dig(z3.LShR(b, 4)), L.byte(d, 2 * k + 1) == dig(b & 15)))
    return [('index in range', z3.And(i >= 0, i <= nn)), ('size', L.u(s, 8, 8) == 2 * i64), ('forall', 'digits', at)]


ENTRIES = {
    'proof_hex': dict(what='bytes -> hexadecimal text, buffers of any size up to 10^8', loops=[(r'^hexstring.*\(char const\*, int\)', None, LoopSpec(hex_inv))], fallback='proof_hex_small'),
    'proof_hex_small': dict(what='bytes -> hexadecimal text, loops unrolled', level='bounded', bound='0..16 bytes'),
    'proof_hex_stream': dict(what='stream -> hexadecimal text', level='bounded', bound='streams of 0..12 bytes'),
    'proof_hex_pair': dict(what='two characters -> byte, all 65536 pairs'),
    'proof_hex_digit': dict(what='one digit, all characters'),
    'proof_reverse': dict(what='reverse_byte_order, all values'),
}
