import z3
from bv import lift
from vcg import LoopSpec, Ptr, SpecMismatch
TUS = ['Packdata.cpp', 'PackDirectory.cpp', 'Common.cpp', 'DetailedException.cpp', 'MessageRegistration.cpp', 'BinaryDecimalNumber.cpp', 'SystemClasses/TStream.cpp', 'SystemClasses/String.cpp']
NATIVE_TUS = TUS + ['SystemClasses/System.IOUtils.cpp', 'SystemClasses/System.SysUtils.cpp', 'SystemClasses/System.Classes.cpp', 'SystemClasses/System.cpp', 'SystemClasses/TMemoryStream.cpp']
BV = z3.BitVecSort(64)
D, Z = z3.Function('uf_D', BV, BV, BV), z3.BitVecVal(0, 64)


def inv(L):
    """Packdata::get_data: of the entries before number i, entry J has been given if it is one of them, nothing else has"""
    entries = L.glob('_ZL7entries', 8)
    here = entries.alts[0][1]
    cur = []
    for p in L.phis:
        if p['ty'] == 'p' and any(o is here for _, o, _ in L.e.asptr(L.cur[p['id']]).alts):
            cur.append(L.cur[p['id']])
    for n in ('__begin1', '__begin2', '__begin0', 'it', 'iter'):
        try:
            p = L.u(L.reg(n), 8)
        except SpecMismatch:
            continue
        if isinstance(p, Ptr) and any(o is here for _, o, _ in p.alts):
            cur.append(p)
    if cur:
        off = L.poff(cur[0])
        i = D(off, Z)        # D(x) is x / 28
        whole = z3.And(off == i * 28, z3.ULT(off, 1 << 34), z3.ULT(i, 1 << 30))
        if L is L.pre:
            L.e.assume(D(Z, Z) == 0, L.g)
        elif not hasattr(L, 'head'):
            a = z3.BitVec('lem_a', 64)
            if not L.e.dry:
                L.lemma('division by 28', z3.Implies(z3.ULT(a, 1 << 30), z3.And(z3.UDiv(28 * a, z3.BitVecVal(28, 64)) == a, z3.UDiv(28 * a + 28, z3.BitVecVal(28, 64)) == a + 1)))
            L.e.assume(z3.Implies(z3.And(off == 28 * i, z3.ULT(i, 1 << 30)), D(off + 28, Z) == i + 1), L.g)
    else:
        i = L.var('i', 64)
        whole = z3.BoolVal(True)
    N, J = L.glob('_ZL1N', 8), L.glob('_ZL1J', 8)
    key = L.glob('_ZL3KEY', 8)
    found = L.u(L.reg('found'), 1)
    out = [('entries', z3.And(whole, z3.ULE(i, N))), ('found', (found != 0) == z3.And(z3.ULT(J, i), z3.ULT(J, N))), ('flag', z3.ULE(found, 1)),
           ('given once', L.glob('_ZL7created', 4) == z3.ZeroExt(31, z3.Extract(0, 0, found))),
           ('given whole', z3.Implies(found != 0, L.glob('_ZL7written', 8) == L.glob('_ZL5due_n', 8)))]
    # the result so far: nothing, or the new stream
    made = [o for o in L.e.allobjs if o.name == 'raw_stream'][-1]
    got = []
    for p in L.phis:
        if p['ty'] == 'p':
            got.append(L.cur[p['id']])
    for n in ('buffer', 'result', 'stream'):
        try:
            got.append(L.u(L.reg(n), 8))
        except SpecMismatch:
            pass
    for p in got:
        p = L.e.asptr(p)
        if all(o is made or o is L.e.NULL for _, o, _ in p.alts):
            is_ = [z3.And(L.e.zb(ga), lift(off, 64) == 0) for ga, o, off in p.alts if o is made]
            out.append(('result', (z3.Or(is_) if is_ else z3.BoolVal(False)) == (found != 0)))
    newest = L.e.asptr(L.glob('_ZL6newest', 8))
    is_ = [z3.And(L.e.zb(ga), lift(off, 64) == 0) for ga, o, off in newest.alts if o is made]
    out.append(('newest', z3.Implies(found != 0, z3.Or(is_) if is_ else z3.BoolVal(False))))
    if L is not L.pre and not hasattr(L, 'head'):    # precondition, for entry i: no other entry has this key
        same = z3.And(*[L.byte(entries, 28 * i + k) == L.byte(key, k) for k in range(20)])
        L.e.assume(z3.Implies(z3.ULT(i, N), same == (i == J)), L.g)
    return out


G = (r'^Packdata::get_data', None, LoopSpec(inv, objs=['raw_stream']))
ENTRIES = {
    'proof_stored': dict(what='Packdata: a stored key, any index of up to 2^27 entries, any place', loops=[G], fallback='proof_stored_few', replace=[(r'^operator new\(unsigned long\)', 'new_stream')]),
    'proof_missing': dict(what='Packdata: a key that is not stored', loops=[G], fallback='proof_missing_few'),
    'proof_stored_few': dict(what='a stored key, loop unrolled', level='bounded', bound='indexes of 1..3 entries'),
    'proof_missing_few': dict(what='a key that is not stored, loop unrolled', level='bounded', bound='indexes of 0..3 entries'),
    'proof_key': dict(what='40 digits -> 20 bytes'),
    'proof_open': dict(what='reading an index, any number of entries up to 2^27', replace=[(r'path_algorithms::replace_extension', 'name_only'), (r'^record_data_hash\* std::fill_n<', 'filled')]),
    'proof_packs': dict(what='PackDirectory: the pack that has the key answers', level='bounded', bound='three packs of one entry'),
}
ASSUMPTIONS = ['file streams are given by their contract (a read yields the bytes of the file at the position)',
               'an index has at most one entry under a key; the object of an entry lies inside the pack file',
               'the standard library fills a range of n elements and returns its end (std::fill_n in vector::resize); the name of the pack file is not checked',
               'the objects kept as separate files are found by the file system (not under contract)']
