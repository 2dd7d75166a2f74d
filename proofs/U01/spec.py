import z3
from vcg import LoopSpec, Ptr, SpecMismatch
from bv import lift
TUS = ['SystemClasses/String.cpp']
BV, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
CPF, AT8, AT16, IX8, IX16 = [z3.Function('uf_' + n, BV, BV, BV) for n in ('cp', 'at8', 'at16', 'ix8', 'ix16')]
Z = z3.BitVecVal(0, 64)


def CP(i):
    return z3.Extract(31, 0, CPF(i, Z))


def one(n):
    return z3.BitVecVal(n, 64)


def len8(c):
    return z3.If(z3.ULT(c, 0x80), one(1), z3.If(z3.ULT(c, 0x800), one(2), z3.If(z3.ULT(c, 0x10000), one(3), one(4))))


def len16(c):
    return z3.If(z3.ULT(c, 0x10000), one(1), one(2))


def b8(x):
    return z3.Extract(7, 0, x)


def byte8(c, k):
    def cont(sh):
        return b8(0x80 | (z3.LShR(c, sh) & 63))
    lead = [b8(c), b8(0xc0 | z3.LShR(c, 6)), b8(0xe0 | z3.LShR(c, 12)), b8(0xf0 | z3.LShR(c, 18))]
    if k == 0:
        return z3.If(z3.ULT(c, 0x80), lead[0], z3.If(z3.ULT(c, 0x800), lead[1], z3.If(z3.ULT(c, 0x10000), lead[2], lead[3])))
    return [None, z3.If(z3.ULT(c, 0x800), cont(0), z3.If(z3.ULT(c, 0x10000), cont(6), cont(12))), z3.If(z3.ULT(c, 0x10000), cont(0), cont(6)), cont(0)][k]


def unit16(c, k):
    d = c - 0x10000
    hi, lo = 0xd800 + z3.LShR(d, 10), 0xdc00 + (d & 0x3ff)
    return z3.Extract(15, 0, z3.If(z3.ULT(c, 0x10000), c, hi) if k == 0 else lo)


def char(i, m, n8, n16, text8=None, text16=None):
    """character i < m of the text: a Unicode scalar value, its places and those of the next one, its code in the text"""
    c = CP(i)
    out = [z3.ULE(c, 0x10ffff), z3.Not(z3.And(z3.UGE(c, 0xd800), z3.ULE(c, 0xdfff))),
           AT8(i + 1, Z) == AT8(i, Z) + len8(c), AT16(i + 1, Z) == AT16(i, Z) + len16(c), IX8(AT8(i + 1, Z), Z) == i + 1, IX16(AT16(i + 1, Z), Z) == i + 1,
           z3.ULE(AT8(i + 1, Z), n8), z3.ULE(AT16(i + 1, Z), n16), (AT8(i + 1, Z) == n8) == (i + 1 == m), (AT16(i + 1, Z) == n16) == (i + 1 == m)]
    for k in range(4):
        if text8:
            out.append(z3.Implies(z3.UGT(len8(c), k), text8(AT8(i, Z) + k) == byte8(c, k)))
    for k in range(2):
        if text16:
            out.append(z3.Implies(z3.UGT(len16(c), k), text16(AT16(i, Z) + k) == unit16(c, k)))
    return z3.And(*out)


def globs(L, *n):
    return [L.glob(f'_ZL{len(x)}{x}', 8) for x in n]


def arbitrary(L):
    return L is not L.pre and not hasattr(L, 'head')


def to16(L):
    """utf8::utf8to16: the characters before the current byte are appended, each at its place"""
    m, I, n8, n16, done, text, out, v = globs(L, 'M', 'I', 'N8', 'N16', 'n16', 'T8', 'O16', 'V16')
    off = L.poff(L.var('start', 64))
    i = IX8(off, Z)
    if L is L.pre:
        L.e.assume(z3.And(IX8(Z, Z) == 0, (n8 == 0) == (m == 0), (n16 == 0) == (m == 0)), L.g)
    elif arbitrary(L):
        L.e.assume(z3.Implies(z3.ULT(i, m), char(i, m, n8, n16, lambda k: L.byte(text, k))), L.g)
    ci = CP(I)
    at = AT16(I, Z)
    mine = [z3.Implies(z3.UGT(len16(ci), k), L.u(out, 2, 2 * (at + k)) == unit16(ci, k)) for k in (0, 1)]
    first, last = L.u(v, 8, 0), L.u(v, 8, 8)
    return [('place', z3.And(z3.ULE(i, m), off == AT8(i, Z), z3.ULE(off, n8), (off == n8) == (i == m))), ('units', z3.And(done == AT16(i, Z), z3.ULE(done, n16), (done == n16) == (i == m))),
            ('result', z3.And(L.poff(first) == 0, L.poff(last) == 2 * done)),
            ('before', z3.Implies(z3.ULT(I, i), z3.And(z3.ULE(at, done), z3.ULE(at + len16(ci), done)))), ('characters', z3.Implies(z3.ULT(I, i), z3.And(*mine)))]


def begins(L):
    """the iterator of the loop over the units, in memory"""
    return [L.fr.regs[i['id']] for blk in L.fr.f['blocks'] for i in blk['ins'] if i['op'] == 'alloca' and i.get('n', '').startswith('__begin') and i['id'] in L.fr.regs]


def bytes_of(L):
    """fromUtf8: the units so far are appended, low byte first"""
    n16, done, units, out, v = globs(L, 'N16', 'n8', 'O16', 'O8', 'V8')
    first, last = L.u(v, 8, 0), L.u(v, 8, 8)
    cur = [L.cur[p['id']] for p in L.phis if p['ty'] == 'p']
    if len(cur) != 1:
        cur = [L.u(a, 8, 0) for a in begins(L)]

    def at(k):
        u = L.u(units, 2, k & ~z3.BitVecVal(1, 64))
        return z3.Implies(z3.ULT(k, done), L.byte(out, k) == z3.If((k & 1) == 0, z3.Extract(7, 0, u), z3.Extract(15, 8, u)))
    return [('pairs', z3.And((done & 1) == 0, z3.ULE(done, 2 * n16))), ('unit', L.poff(cur[0]) == done), ('result', z3.And(L.poff(first) == 0, L.poff(last) == done)), ('forall', 'bytes', at)]


def to8(L):
    """utf8::utf16to8: the characters before the current unit are appended, each at its place"""
    m, I, n8, n16, done, text, out, v, base = globs(L, 'M', 'I', 'N8', 'N16', 'n8', 'T16', 'O8', 'V8', 'OFF')
    cur = [L.cur[p['id']] for p in L.phis if p['ty'] == 'p']
    off = L.poff(cur[0] if len(cur) == 1 else L.var('start', 64)) - base
    u = z3.LShR(off, 1)
    i = IX16(u, Z)
    if L is L.pre:
        L.e.assume(z3.And(IX16(Z, Z) == 0, (n8 == 0) == (m == 0), (n16 == 0) == (m == 0)), L.g)
    elif arbitrary(L):
        L.e.assume(z3.Implies(z3.ULT(i, m), char(i, m, n8, n16, None, lambda k: L.u(text, 2, 2 * k))), L.g)
    ci = CP(I)
    at = AT8(I, Z)
    mine = [z3.Implies(z3.UGT(len8(ci), k), L.byte(out, at + k) == byte8(ci, k)) for k in range(4)]
    first, last = L.u(v, 8, 0), L.u(v, 8, 8)
    return [('place', z3.And((off & 1) == 0, z3.ULE(i, m), u == AT16(i, Z), z3.ULE(u, n16), (u == n16) == (i == m))), ('bytes', z3.And(done == AT8(i, Z), z3.ULE(done, n8), (done == n8) == (i == m))),
            ('result', z3.And(L.poff(first) == 0, L.poff(last) == done)),
            ('before', z3.Implies(z3.ULT(I, i), z3.And(z3.ULE(at, done), z3.ULE(at + len8(ci), done)))), ('characters', z3.Implies(z3.ULT(I, i), z3.And(*mine)))]


def copied(L):
    """TUtf8Encoding::fromUtf8: the bytes so far are appended"""
    done, text, out, v, n = globs(L, 'n8', 'T8', 'O8', 'V8', 'N8')
    first, last = L.u(v, 8, 0), L.u(v, 8, 8)
    cur = [L.cur[p['id']] for p in L.phis if p['ty'] == 'p'] or [L.u(a, 8, 0) for a in begins(L)]
    return [('byte', z3.And(L.poff(cur[0]) == done, z3.ULE(done, n))), ('result', z3.And(L.poff(first) == 0, L.poff(last) == done)),
            ('forall', 'bytes', lambda k: z3.Implies(z3.ULT(k, done), L.byte(out, k) == L.byte(text, k)))]


VEC = [(r'^std::vector<unsigned short.*::push_back', 'push16'), (r'^std::vector<unsigned char.*::push_back', 'push8'),
       (r'^std::vector<unsigned short[^(]*::vector\(\)', 'make16'), (r'^std::vector<unsigned char[^(]*::vector\(\)', 'make8')]
ENTRIES = {
    'proof_from': dict(what='UTF-8 to UTF-16: any text of up to 2^28 characters', replace=VEC, loops=[(r'utf8to16', None, LoopSpec(to16)), (r'TUcs2Encoding::fromUtf8', None, LoopSpec(bytes_of))]),
    'proof_to': dict(what='UTF-16 to UTF-8: any text of up to 2^28 characters, at any place of the buffer', replace=VEC, loops=[(r'utf16to8', None, LoopSpec(to8, stable=True))]),
    'proof_bytes_to': dict(what='UTF-8 from bytes, any length and offset'),
    'proof_bytes_from': dict(what='UTF-8 to bytes, any length', replace=VEC, loops=[(r'TUtf8Encoding::fromUtf8', None, LoopSpec(copied))]),
    'proof_mark': dict(what='the byte order mark of any buffer'),
    'proof_from_few': dict(what='one or two characters, the loops unrolled', level='bounded', bound='two characters', thorough_only=True),
    'proof_to_few': dict(what='one or two characters, the loops unrolled', level='bounded', bound='two characters', thorough_only=True),
}
ENTRIES['proof_from']['fallback'] = 'proof_from_few'
ENTRIES['proof_to']['fallback'] = 'proof_to_few'
ASSUMPTIONS = ['std::vector::push_back appends its element']
