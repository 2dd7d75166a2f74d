import z3
from vcg import LoopSpec, Ptr
from bv import lift
TUS = ['SystemClasses/String.cpp']


BV = z3.BitVecSort(64)
START = z3.Function('uf_start', BV, BV, BV)		# nonzero where a character starts
Z = z3.BitVecVal(0, 64)


def b8(x):
    return z3.BitVecVal(x, 8)


def within(c, a, b):
    return z3.And(z3.UGE(c, a), z3.ULE(c, b))


def lower(p, c, n):
    return z3.If(within(c, 65, 90), c + 32, z3.If(z3.And(c == 0xd0, z3.Or(n == 0x81, within(n, 0xa0, 0xaf))), b8(0xd1),
           z3.If(p == 0xd0, z3.If(c == 0x81, b8(0x91), z3.If(within(c, 0x90, 0x9f), c + 0x20, z3.If(within(c, 0xa0, 0xaf), c - 0x20, c))), c)))


def upper(p, c, n):
    return z3.If(within(c, 97, 122), c - 32, z3.If(z3.And(c == 0xd1, z3.Or(n == 0x91, within(n, 0x80, 0x8f))), b8(0xd0),
           z3.If(p == 0xd1, z3.If(c == 0x91, b8(0x81), z3.If(within(c, 0x80, 0x8f), c + 0x20, c)),
           z3.If(z3.And(p == 0xd0, within(c, 0xb0, 0xbf)), c - 0x20, c))))


def character(at, o, n):
    """a character of valid UTF-8 starts at o < n; the next one starts behind it"""
    c = [at(o + i) for i in range(4)]
    cont = [within(x, 0x80, 0xbf) for x in c]
    one = z3.And(c[0] != 0, z3.ULT(c[0], 0x80))
    two = z3.And(within(c[0], 0xc2, 0xdf), cont[1])
    three = z3.And(within(c[0], 0xe0, 0xef), cont[1], cont[2], z3.Implies(c[0] == 0xe0, z3.UGE(c[1], 0xa0)), z3.Implies(c[0] == 0xed, z3.ULE(c[1], 0x9f)))
    four = z3.And(within(c[0], 0xf0, 0xf4), cont[1], cont[2], cont[3], z3.Implies(c[0] == 0xf0, z3.UGE(c[1], 0x90)), z3.Implies(c[0] == 0xf4, z3.ULE(c[1], 0x8f)))

    def ends(l):
        return z3.And(z3.ULE(l, n - o), START(o + l, Z) != 0)
    return z3.Or(z3.And(one, ends(1)), z3.And(two, ends(2)), z3.And(three, ends(3)), z3.And(four, ends(4)))


def inv(case):
    def f(L):
        out = [p for p in L.phis if p['ty'] == 'p']
        out = L.cur[out[0]['id']] if len(out) == 1 else L.var('rit', 64)
        text, n = L.glob('_ZL2IN', 8), L.glob('_ZL1N', 8)
        it = L.reg('it')
        pos = L.u(it, 8, 0)
        off = L.poff(pos)

        def at(k):
            return L.byte(text, k)
        if L is L.pre:
            L.e.assume(z3.And(START(Z, Z) != 0), L.g)
        elif not hasattr(L, 'head'):
            L.e.assume(z3.Implies(z3.And(START(off, Z) != 0, z3.ULT(off, n)), character(at, off, n)), L.g)
            # a character starts neither at a byte 10xxxxxx nor right after the first byte of a longer one
            L.e.assume(z3.Implies(START(off, Z) != 0, z3.And(z3.Not(within(at(off), 0x80, 0xbf)), z3.Implies(off != 0, z3.ULT(at(off - 1), 0xc0)))), L.g)
        res = Ptr([(1, L.pobj(out), 0)])

        def done(k):
            prev = z3.If(k == 0, b8(0), at(k - 1))
            return z3.Implies(z3.ULT(k, off), z3.And(L.byte(res, k) == case(prev, at(k), at(k + 1)), at(k) != 0))
        return [('place', z3.And(z3.ULE(off, n), L.poff(out) == off)), ('character', START(off, Z) != 0), ('range', z3.And(L.poff(L.u(it, 8, 8)) == 0, L.poff(L.u(it, 8, 16)) == n)),
                ('forall', 'bytes', done)]
    return f


ENTRIES = {
    'proof_lower': dict(what='any text of up to 2^31 bytes', loops=[(r'^System::LowerCase', None, LoopSpec(inv(lower)))]),
    'proof_upper': dict(what='any text of up to 2^31 bytes', loops=[(r'^System::UpperCase', None, LoopSpec(inv(upper)))]),
    'proof_equal': dict(what='comparing texts with the same lower case text', replace=[(r'^System::LowerCase', 'lower_given')]),
    'proof_unequal': dict(what='comparing any two texts', replace=[(r'^System::LowerCase', 'lower_given')]),
    'proof_ending': dict(what='the endings of any two texts', replace=[(r'^System::CompareIC', 'compare_given')]),
    'proof_bytes': dict(what='the definition by bytes, every code point'),
    'proof_lower_few': dict(what='texts of one or two characters', level='bounded', bound='two characters', thorough_only=True),
    'proof_upper_few': dict(what='texts of one or two characters', level='bounded', bound='two characters', thorough_only=True),
}
ENTRIES['proof_lower']['fallback'] = 'proof_lower_few'
ENTRIES['proof_upper']['fallback'] = 'proof_upper_few'
ASSUMPTIONS = ['texts are valid UTF-8 without zero bytes']
