import z3
from vcg import LoopSpec, SpecMismatch
from bv import lift
TUS = ['Table.cpp', 'V8Object.cpp', 'DetailedException.cpp', 'MessageRegistration.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp', 'SystemClasses/TStream.cpp', 'SystemClasses/System.SysUtils.cpp', 'SystemClasses/String.cpp']
BV = z3.BitVecSort(64)
CH, PRE, CL = [z3.Function('uf_' + n, BV, BV, BV) for n in ('block', 'before', 'chunk')]
BLOB = z3.Function('uf8_blob', BV, BV, z3.BitVecSort(8))
Z = z3.BitVecVal(0, 64)


def u64(x):
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def variable(L, name, w, starts):
    """a local variable, found by what it starts with when it goes by another name"""
    try:
        return L.var(name, w)
    except SpecMismatch:
        pass
    for p in L.phis:
        if p['ty'] == ('p' if isinstance(starts, str) else f'i{w}'):
            if isinstance(starts, str):
                o = [a[1].name for a in L.e.asptr(L.entry[p['id']]).alts]
                if any('raw_to' in n for n in o):
                    return L.cur[p['id']]
            else:
                v = z3.simplify(lift(L.e.bv(L.entry[p['id']], w), w))
                if v.eq(z3.simplify(starts)):
                    return lift(L.e.bv(L.cur[p['id']], w), w)
    raise SpecMismatch('no variable like ' + name)


def block(L):
    return variable(L, '_curblock', 32, L.val('_startblock', 32))


def stream(good):
    def f(L):
        r, w, m, n = [L.glob(f'_ZL{len(x)}{x}', 8) for x in ('reads', 'writes', 'M', 'LENGTH')]
        size, base = L.glob('_ZL4SIZE', 8), L.glob('_ZL4BASE', 8)
        if not good:
            return [('length', z3.And(z3.ULE(size - base, n), z3.UGE(size, base), r == w))]
        return [('chain', u64(block(L)) == CH(r, Z)), ('every block', r == w), ('in order', z3.And(z3.ULE(r, m), z3.ULE(PRE(r, Z), n))), ('size', size == base + PRE(r, Z)),
                ('end', z3.And((CH(r, Z) == 0) == (r == m), z3.Implies(r == m, PRE(r, Z) == n), z3.ULT(CH(r, Z), L.glob('_ZL2NB', 8))))]
    return f


def buffer(good):
    def f(L):
        r, m, n = [L.glob(f'_ZL{len(x)}{x}', 8) for x in ('reads', 'M', 'LENGTH')]
        to = L.glob('_ZL2TO', 8)
        p, done = variable(L, '_buf', 64, 'to'), u64(variable(L, 'readed', 32, z3.BitVecVal(0, 32)))
        if not good:
            return [('place', z3.And(L.poff(p) == done, z3.ULE(done, n)))]
        k, i = L.glob('_ZL1K', 8), L.glob('_ZL1I', 8)
        end = PRE(i, Z) + CL(i, Z)
        here = z3.And(z3.ULT(i, r), z3.ULE(PRE(i, Z), k), z3.ULT(k, end))
        return [('chain', u64(block(L)) == CH(r, Z)), ('in order', z3.And(z3.ULE(r, m), z3.ULE(PRE(r, Z), n))), ('place', z3.And(L.poff(p) == done, done == PRE(r, Z))), ('before', z3.Implies(z3.ULT(i, r), z3.And(z3.ULE(end, PRE(r, Z)), z3.ULE(end, n), z3.ULE(CL(i, Z), 250)))),
                ('bytes', z3.Implies(here, L.byte(to, k) == BLOB(CH(i, Z), 6 + (k - PRE(i, Z))))),
                ('end', z3.And((CH(r, Z) == 0) == (r == m), z3.Implies(r == m, PRE(r, Z) == n), z3.ULT(CH(r, Z), L.glob('_ZL2NB', 8))))]
    return f


RT, RO, RB = r'^Table::readBlob\(System::Classes::TStream', r'^V8Object::readBlob', r'^Table::readBlob\(void'
G = [(r'^V8Object::get_data\(void', 'block_read')]
ENTRIES = {
    'proof_table': dict(what='any chain of up to 2^32 - 1 blocks and 2^32 - 2 bytes', loops=[(RT, None, LoopSpec(stream(True)))], replace=G),
    'proof_object': dict(what='the same in the root object', loops=[(RO, None, LoopSpec(stream(True)))], replace=G),
    'proof_any_table': dict(what='any store: nothing outside is read', loops=[(RT, None, LoopSpec(stream(False)))], replace=G),
    'proof_any_object': dict(what='the same in the root object', loops=[(RO, None, LoopSpec(stream(False)))], replace=G),
    'proof_buffer': dict(what='any chain, into memory', loops=[(RB, None, LoopSpec(buffer(True)))], replace=G),
    'proof_any_buffer': dict(what='any store, into memory: nothing is written beyond the given length', loops=[(RB, None, LoopSpec(buffer(False)))], replace=G),
}
ASSUMPTIONS = ['reading the object that holds the blocks is given by its contract (V01); the target stream writes in full at its end (M01)']
