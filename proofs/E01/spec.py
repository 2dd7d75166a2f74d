import z3
from vcg import LoopSpec
from bv import lift
TUS = ['Base64.cpp', 'SystemClasses/TStream.cpp']
BV = z3.BitVecSort(64)
CNT_, D_ = z3.Function('uf_CNT', BV, BV, BV), z3.Function('uf_D', BV, BV, BV)
Z = z3.BitVecVal(0, 64)


def u64(x):
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def encode_inv(L):
    i, groups, column, line = L.var('i', 64), L.glob('_ZL6groups', 8), L.glob('_ZL6column', 8), L.glob('_ZL8per_line', 8)
    n = L.glob('_ZL1N', 8)
    return [('group', z3.And(i == groups, z3.ULE(3 * i, n), z3.ULE(i, n))), ('column', L.var('blocksout', 32) == z3.Extract(31, 0, column)),
            ('column range', z3.And(z3.ULE(column, i), z3.Or(line == 0, z3.ULE(column, line)))),
            ('position', L.u(L.reg('infile'), 8, 8) == 3 * i)]


def is_digit(c):
    r = [z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b))) for a, b in ('AZ', 'az', '09')]
    return z3.Or(*r, c == ord('+'), c == ord('/'))


def value(c):
    def rng(a, b):
        return z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
    return z3.If(rng('A', 'Z'), c - 65, z3.If(rng('a', 'z'), c - 97 + 26, z3.If(rng('0', '9'), c - 48 + 52, z3.If(c == ord('+'), z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))


def D(n):
    return z3.Extract(7, 0, D_(n, Z))


def where(L, wide):
    return z3.LShR(L.u(L.reg('infile'), 8, 8), 1) if wide else u64(L.var('is', 32))


def outer(wide):
    def inv(L):
        pos = where(L, wide)
        chars, done, taken = L.glob('_ZL5chars', 8), L.glob('_ZL4done', 8), L.glob('_ZL5taken', 8)
        out = [('position', z3.ULE(pos, chars)), ('digits', CNT_(pos, Z) == taken), ('bound', z3.And(z3.ULE(taken, pos), z3.ULE(done, pos))),
               ('groups', z3.Or(taken == 4 * done, pos == chars))]
        if wide:
            out += [('even', L.u(L.reg('infile'), 8, 8) & 1 == 0)]
        return out
    return inv


def inner(wide):
    def inv(L):
        pos = where(L, wide)
        chars, done, taken = L.glob('_ZL5chars', 8), L.glob('_ZL4done', 8), L.glob('_ZL5taken', 8)
        ln = u64(L.var('len', 32))
        v = L.var('v', 8)
        ins = L.reg('in')
        src = L.glob('_ZL2IN', 8)
        if L is not L.pre and not hasattr(L, 'head'):
            # the definition of CNT and D at this character
            if wide:
                c16 = L.u(src, 2, 2 * pos)
                c, ok = z3.Extract(7, 0, c16), z3.Extract(15, 8, c16) == 0
            else:
                c, ok = L.byte(src, pos), z3.BoolVal(True)
            dig = z3.And(ok, is_digit(c))
            L.e.assume(z3.Implies(z3.ULT(pos, chars), z3.And(CNT_(pos + 1, Z) == z3.If(dig, CNT_(pos, Z) + 1, CNT_(pos, Z)), z3.Implies(dig, D(CNT_(pos, Z)) == value(c)))), L.g)
        out = [('position', z3.ULE(pos, chars)), ('len', z3.ULE(ln, 3)), ('group', taken == 4 * done),
               ('digits', CNT_(pos, Z) == taken + ln + z3.If(v == 0, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))),
               ('bound', z3.ULE(CNT_(pos, Z), pos)),
               ('value', z3.Implies(v != 0, v - 1 == D(taken + ln)))]
        if wide:
            out += [('even', L.u(L.reg('infile'), 8, 8) & 1 == 0)]
        return out
    return inv


def dec(wide):
    f = r'^base64_decode\(System::Classes::TStream\*' if wide else r'^base64_decode\(std::__cxx11'
    def depth(fr, l):
        n = 0
        while l['parent'] != -1:
            l = fr.f['loops'][l['parent']]
            n += 1
        return n
    return [(f, lambda e, fr, l: depth(fr, l) == 0, LoopSpec(outer(wide))), (f, lambda e, fr, l: depth(fr, l) == 2, LoopSpec(inner(wide)))]


ENTRIES = {
    'proof_encode': dict(what='encoding with line breaks: every data of less than 2^31 bytes, every line length', loops=[(r'^base64_encode', None, LoopSpec(encode_inv))], fallback='proof_encode_few'),
    'proof_encode_line': dict(what='encoding without line breaks', loops=[(r'^base64_encode', None, LoopSpec(encode_inv))], fallback='proof_encode_few'),
    'proof_decode_stream': dict(what='decoding a stream: every text of less than 2^31 characters', loops=dec(True), fallback='proof_round'),
    'proof_decode_string': dict(what='decoding a string', loops=dec(False), fallback='proof_round'),
    'proof_inverse': dict(what='decoding a group undoes encoding it'),
    'proof_encode_few': dict(what='encoding, loop unrolled', level='bounded', bound='up to 7 bytes'),
    'proof_round': dict(what='encoding and decoding, loops unrolled', level='bounded', bound='up to 4 bytes, one group per line', unroll=24),
}
ASSUMPTIONS = ['streams by their contract (M01): reading yields the next bytes, writing takes all of them',
               'CNT(k), the digits before character k, and D(n), the value of the n-th digit, are defined by recursion over the text; the instances needed by the loop contracts are assumed',
               'data and text of less than 2^31 bytes; a text for the stream decoder has an even number of bytes (16-bit characters)']
