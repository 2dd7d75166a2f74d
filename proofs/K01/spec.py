import z3
from vcg import LoopSpec
from bv import lift
TUS = ['TableIterator.cpp', 'TableRecord.cpp', 'Table.cpp', 'DetailedException.cpp', 'MessageRegistration.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp', 'SystemClasses/System.SysUtils.cpp', 'SystemClasses/String.cpp']
BV = z3.BitVecSort(64)
REC, RANK = z3.Function('uf8_rec', BV, BV, z3.BitVecSort(8)), z3.Function('uf_rank', BV, BV, BV)
Z = z3.BitVecVal(0, 64)


def u64(x):
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def search(L):
    """TableIterator::find_first_not_removed: no record from the start of the search to the current one is left"""
    end = L.glob('_ZL3END', 8)
    cur, eof = u64(L.u(L.glob('_ZL3CUR', 8), 4)), L.u(end, 1)
    n, j, frm = u64(L.glob('_ZL1N', 4)), L.glob('_ZL1J', 8), L.glob('_ZL4FROM', 8)
    return [('within', z3.And(z3.UGE(cur, frm), z3.Or(z3.ULE(cur, n), cur == frm))), ('not the end', (eof != 0) == (L.oldu(end, 1) != 0)),
            ('none left out', z3.Implies(z3.And(z3.UGE(j, frm), z3.ULT(j, cur), z3.ULT(j, n)), REC(j, Z) != 0))]


def copy(L):
    i = L.var('i', 32)
    this, other = L.reg('this'), L.reg('another')
    to, frm = L.u(this, 8, 0), L.u(other, 8, 0)
    ln = z3.Extract(31, 0, L.glob('_ZL3LEN', 8))
    return [('range', z3.And(i >= 0, i <= ln)), ('forall', 'copied', lambda k: z3.Implies(z3.And(z3.UGE(k, u64(i)), z3.ULT(k, u64(ln))), L.byte(to, k) == L.byte(frm, k)))]


def listing(L):
    """Table::fill_records_index: of the records before number i, those that are not removed are listed, each at its rank"""
    i = u64(L.var('i', 32))
    n, j = u64(L.glob('_ZL1N', 4)), L.glob('_ZL1J', 8)
    v = L.glob('_ZL4LIST', 8)                # the vector
    first, last = L.u(v, 8, 0), L.u(v, 8, 8)
    size = L.poff(last)
    if L is not L.pre and not hasattr(L, 'head'):    # the definition of rank at record i
        L.e.assume(RANK(i + 1, Z) == RANK(i, Z) + z3.If(REC(i, Z) == 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), L.g)
    elif L is L.pre:
        L.e.assume(RANK(Z, Z) == 0, L.g)
    mine = z3.And(z3.ULT(j, i), REC(j, Z) == 0)
    return [('records', z3.ULE(i, n)), ('number', z3.And(size == 4 * RANK(i, Z), z3.ULE(RANK(i, Z), i), L.poff(first) == 0)),
            ('place', z3.Implies(mine, z3.And(z3.ULT(RANK(j, Z), RANK(i, Z)), u64(L.u(first, 4, 4 * RANK(j, Z))) == j)))]


SEARCH = [(r'^TableIterator::find_first_not_removed', None, LoopSpec(search))]
COPY = [(r'^TableRecord::TableRecord\(TableRecord const&', None, LoopSpec(copy))]
LIST = [(r'^Table::fill_records_index', None, LoopSpec(listing))]
G = [(r'^Table::get_record\(unsigned int, char\*\)', 'record_given')]
ENTRIES = {
    'proof_record': dict(what='any record of any table of up to 2^32 - 2 records of up to 2^31 - 1 bytes'),
    'proof_record_new': dict(what='the same, as a new record'),
    'proof_first': dict(what='the first record of any table, any pattern of removed records', loops=SEARCH, replace=G),
    'proof_next': dict(what='the record after any record of any table, any pattern of removed records', loops=SEARCH, replace=G),
    'proof_end': dict(what='after the end', replace=G),
    'proof_list': dict(what='the list of the records that are not removed, for any table', loops=LIST, replace=[(r'^Table::get_record\(unsigned int\) const', 'record_made'), (r'std::vector<unsigned int.*_M_(realloc_insert|realloc_append|emplace_back_aux)', 'no_room')]),
    'proof_copy': dict(what='the copy of a record of any length', loops=COPY),
}
ASSUMPTIONS = ['reading the object that holds the records is given by its contract (V01)']
