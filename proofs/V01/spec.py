import z3
from vcg import LoopSpec, Ptr
from bv import lift
TUS = ['V8Object.cpp', 'DetailedException.cpp', 'MessageRegistration.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp', 'SystemClasses/TStream.cpp', 'SystemClasses/TMemoryStream.cpp', 'SystemClasses/String.cpp']
BV = z3.BitVecSort(64)
O_, R_ = z3.Function('uf_O', BV, BV, BV), z3.Function('uf_R', BV, BV, BV)
Z = z3.BitVecVal(0, 64)


def u64(x):
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def named(e, n):
    return [o for o in e.allobjs if o.name == n][-1]


def blk(L):
    return L.input('block') if 'block' in L.e.inputs else z3.BitVecVal(1, 32)


class Db:
    """the file as the harness built it"""

    def __init__(self, L, ps):
        self.L, self.ps = L, ps
        self.file = Ptr([(1, named(L.e, 'buf_file'), 0)])

    def byte(self, off):
        return self.L.byte(self.file, off)

    def u32(self, off):
        return z3.Concat(*[self.byte(off + i) for i in (3, 2, 1, 0)])


def ule(a, b):
    return z3.ULE(a, b)


class Div:
    """O(q), R(q): quotient and remainder of page index q by the number of pages per table; the arithmetic facts
    used are lemmas with proofs of their own, instantiated where needed"""

    def __init__(self, L, per, sh):
        self.L, self.per, self.sh = L, per, sh
        self.pow2 = per & (per - 1) == 0
        if self.pow2 or L.e.dry:
            return
        a, b, x, y, q, p = z3.BitVecs('lem_a lem_b lem_x lem_y lem_q lem_p', 64)
        ok = z3.And(z3.ULT(b, per), z3.ULT(a, 1 << 22), a * per + b == q)
        L.lemma(f'division by {per}: quotient and remainder', z3.Implies(z3.And(ok, z3.ULT(q, 1 << 22)), z3.And(z3.UDiv(q, z3.BitVecVal(per, 64)) == a, q - per * a == b)))
        L.lemma(f'division by {per}: next', z3.Implies(z3.And(ok, z3.ULT(y, per), z3.ULT(x, 1 << 22), x * per + y == q + 1), z3.If(b == per - 1, z3.And(x == a + 1, y == 0), z3.And(x == a, y == b + 1))))
        L.lemma(f'division by {per}: bound', z3.Implies(z3.And(ok, z3.ULT(p, 1 << 32), ule(q, z3.LShR(p, sh))), ule(a, z3.UDiv(p, z3.BitVecVal(per << sh, 64)))))

    def O(self, q):
        return z3.LShR(q, self.per.bit_length() - 1) if self.pow2 else O_(q, Z)

    def R(self, q):
        return q & (self.per - 1) if self.pow2 else R_(q, Z)

    def bounds(self, q):
        if not self.pow2:
            self.L.e.assume(z3.And(z3.ULT(R_(q, Z), self.per), z3.ULT(O_(q, Z), 1 << 22)), self.L.g)

    def first(self, q):
        if not self.pow2:
            self.bounds(q)
            self.L.e.assume(z3.Implies(z3.ULT(q, 1 << 22), z3.And(z3.UDiv(q, z3.BitVecVal(self.per, 64)) == O_(q, Z), q - self.per * O_(q, Z) == R_(q, Z))), self.L.g)

    def next(self, q):
        if not self.pow2:
            self.bounds(q)
            self.bounds(q + 1)
            self.L.e.assume(z3.If(R_(q, Z) == self.per - 1, z3.And(O_(q + 1, Z) == O_(q, Z) + 1, R_(q + 1, Z) == 0), z3.And(O_(q + 1, Z) == O_(q, Z), R_(q + 1, Z) == R_(q, Z) + 1)), self.L.g)

    def below(self, q, last):
        """q lies in the object whose last byte is at last"""
        if not self.pow2:
            self.L.e.assume(z3.Implies(ule(q, z3.LShR(last, self.sh)), ule(O_(q, Z), z3.UDiv(last, z3.BitVecVal(self.per << self.sh, 64)))), self.L.g)


def range_inv(kind, ps, per, data_at, head_at):
    sh = ps.bit_length() - 1

    def inv(L):
        d = Db(L, ps)
        v = Div(L, per, sh)
        buf = L.reg('buf')
        start, length, last = L.val('_start', 64), L.val('_length', 64), u64(L.input('len')) - 1
        block = u64(blk(L))
        pb, pb0 = L.phi(['_buf', '_buf.0']), L.reg('buf')
        done = L.poff(pb) - L.poff(pb0)
        left = L.var('_length', 64)
        off, cur = u64(L.var('curoffblock', 32)), u64(L.var('curlen', 32))
        pos = start + done
        q = z3.LShR(pos, sh)
        more = left != 0
        out = [('not refused', L.glob('_ZL7refused', 1) == 0), ('done', z3.ULE(done, length)), ('left', left == length - done),
               ('offset', z3.Implies(more, off == (pos & (ps - 1)))),
               ('chunk', z3.Implies(more, cur == z3.If(z3.ULT(left, ps - off), left, ps - off)))]
        if kind == 'two':
            i, r = u64(L.var('curobjblock', 32)) - 1, u64(L.var('curoffobjblock', 32))
            b = L.phi(['b', 'bb'])
            if L is L.pre:
                v.first(q)
                v.below(q, last)
            elif not hasattr(L, 'head'):
                v.next(q)
                v.below(q, last)
                v.below(q + 1, last)
            out += [('table', z3.Implies(more, z3.And(i == v.O(q), r == v.R(q), z3.ULT(r, per)))),
                    ('tablepage', z3.Implies(more, z3.And(L.poff(b) == u64(d.u32(block * ps + head_at + 4 * i)) * ps, z3.ULT(L.poff(b), L.e.vf_filesize))))]
        else:
            out += [('page', z3.Implies(more, u64(L.var('curblock', 32)) == q))]

        def at(k):
            p = start + k
            qk = z3.LShR(p, sh)
            if kind == 'two':
                tab = u64(d.u32(block * ps + head_at + 4 * v.O(qk)))
                pg = u64(d.u32(tab * ps + data_at + 4 * v.R(qk)))
            else:
                pg = u64(d.u32(block * ps + head_at + 4 * qk))
            return z3.Implies(z3.ULT(k, done), L.byte(buf, k) == d.byte(pg * ps + (p & (ps - 1))))
        return out + [('forall', 'bytes', at)]
    return inv


def whole_inv(level, ps, per, data_at, head_at):
    """the loops of get_data(): 'one' table, or the 'outer' and 'inner' loop over two levels"""
    sh = ps.bit_length() - 1

    def inv(L):
        d = Db(L, ps)
        v = Div(L, per, sh) if level != 'one' else None
        ln, block = u64(L.input('len')), u64(blk(L))
        tt = L.phi('tt')
        done = L.poff(tt)
        data = Ptr([(1, L.pobj(tt), 0)])
        left = u64(L.var('l', 32)) if data_at == 4 else L.var('ll', 64)
        i = u64(L.var('i', 32))
        q = z3.LShR(done, sh)
        out = [('not refused', L.glob('_ZL7refused', 1) == 0), ('pages', done & (ps - 1) == 0), ('left', z3.And(z3.ULT(done, ln), left == ln - done))]
        if level == 'one':
            out += [('page', i == q)]
        elif level == 'outer':
            if L is L.pre:
                v.first(q)
                v.below(q, ln - 1)
            elif not hasattr(L, 'head'):
                v.bounds(q)
                v.below(q, ln - 1)
            out += [('table', z3.And(i == v.O(q), v.R(q) == 0))]
        else:
            j = u64(L.var('j', 32))
            if L is not L.pre and not hasattr(L, 'head'):
                v.next(q)
            if data_at == 4 and L is L.pre:
                # precondition: a full table counts its 1023 pages, the last one the rest
                pages = z3.LShR(ln - 1, sh) + 1 - q
                L.e.assume(d.u32(u64(d.u32(block * ps + head_at + 4 * i)) * ps) == z3.Extract(31, 0, z3.If(z3.UGE(pages, per), z3.BitVecVal(per, 64), pages)), L.g)
            out += [('pos', q == z3.LShR(L.poff(L.pre.phi('tt')), sh) + j)]
            out += [('table', z3.If(j == per, z3.And(i + 1 == v.O(q), v.R(q) == 0), z3.And(i == v.O(q), j == v.R(q), z3.ULT(j, per))))]

        def at(k):
            qk = z3.LShR(k, sh)
            if level != 'one':
                tab = u64(d.u32(block * ps + head_at + 4 * v.O(qk)))
                pg = u64(d.u32(tab * ps + data_at + 4 * v.R(qk)))
            else:
                pg = u64(d.u32(block * ps + head_at + 4 * qk))
            return z3.Implies(z3.ULT(k, done), L.byte(data, k) == d.byte(pg * ps + (k & (ps - 1))))
        return out + [('forall', 'bytes', at)]
    return inv


def sel(e, fr, l):
    if l['parent'] != -1:
        return False
    e.vf_filesize = lift(named(e, 'buf_file').size, 64)
    return True


def inner(e, fr, l):
    return l['parent'] != -1


def whole(two, ps, per, data_at):
    f = r'^V8Object::get_data\(\)'
    if not two:
        return [(f, sel, LoopSpec(whole_inv('one', ps, per, data_at, 24)))]
    return [(f, sel, LoopSpec(whole_inv('outer', ps, per, data_at, 24))), (f, inner, LoopSpec(whole_inv('inner', ps, per, data_at, 24)))]


ENTRIES = {
    'proof_range80': dict(what='range of an object of the old format, two levels of placement tables', loops=[(r'^V8Object::get_data\(void\*', sel, LoopSpec(range_inv('two', 4096, 1023, 4, 24)))]),
    **{f'proof_offset{k}': dict(what='place of a byte in the file') for k in ('80', 'flat', 'fat', 'fat64')},
}
for n in (4, 8, 16, 32, 64):
    ENTRIES[f'proof_flat{n}'] = dict(what=f'range of an object of the new format, one table, pages of {n} KB', loops=[(r'^V8Object::get_data\(void\*', sel, LoopSpec(range_inv('one', n * 1024, 0, 0, 24)))])
    ENTRIES[f'proof_fat{n}'] = dict(what=f'range of an object of the new format, two levels, pages of {n} KB', loops=[(r'^V8Object::get_data\(void\*', sel, LoopSpec(range_inv('two', n * 1024, n * 256, 0, 24)))])
def free_inv(L):
    return [('count', ule(u64(L.u(L.reg('this'), 4, 56)), 1018)), ('not refused', True)]


FREE_LOOP = [(r'^V8Object::init\(T_1CD', lambda e, fr, l: l['parent'] == -1, LoopSpec(free_inv))]
ENTRIES['proof_whole80'] = dict(what='a whole object of the old format, and ranges of it once held in memory', loops=whole(True, 4096, 1023, 4))
ENTRIES['proof_wholeflat4'] = dict(what='a whole object of the new format, one table, and ranges of it once held in memory', loops=whole(False, 4096, 0, 0))
ENTRIES['proof_wholefat4'] = dict(what='a whole object of the new format, two levels, and ranges of it once held in memory', loops=whole(True, 4096, 1024, 0))
for n, f in (('near80', 'range80'), ('neartable80', 'range80'), ('nearflat', 'flat8'), ('nearflatend', 'flat4'), ('nearfat', 'fat8'), ('neartablefat', 'fat4'), ('free80', None)):
    ENTRIES['proof_' + n] = dict(what='ranges of at most two pages at the start of an object, at its last table entry, or across the end of a placement table', level='bounded', bound='ranges of at most two pages; file of at most 2000 pages', unroll=9)
for n in ('small80', 'smallflat', 'smallfat'):
    ENTRIES['proof_' + n] = dict(what='whole objects of at most three pages', level='bounded', bound='three pages', unroll=9)
ENTRIES['proof_free80']['loops'] = FREE_LOOP
ENTRIES['proof_rangefree80'] = dict(what='range of the list of free pages of the old format', loops=FREE_LOOP + [(r'^V8Object::get_data\(void\*', sel, LoopSpec(range_inv('one', 4096, 0, 0, 24)))])
for n, f in dict(range80='near80', flat4='nearflatend', fat4='neartablefat', whole80='small80', wholeflat4='smallflat', wholefat4='smallfat', rangefree80='free80', flat8='nearflat', fat8='nearfat').items():
    ENTRIES['proof_' + n]['fallback'] = 'proof_' + f
for n in (16, 32, 64):
    ENTRIES[f'proof_flat{n}']['fallback'] = 'proof_nearflat'
    ENTRIES[f'proof_fat{n}']['fallback'] = 'proof_nearfat'
def free838_inv(L):
    return [('count', ule(u64(L.u(L.reg('this'), 4, 56)), 2046))]


for n in ('header80', 'header838', 'header838big', 'headerfree80', 'headerfree838'):
    ENTRIES['proof_' + n] = dict(what='any header page: refused, or an object of the length it says')
ENTRIES['proof_headerfree80']['loops'] = FREE_LOOP
ENTRIES['proof_headerfree838']['loops'] = [(r'^V8Object::init\(T_1CD', lambda e, fr, l: l['parent'] == -1, LoopSpec(free838_inv))]
