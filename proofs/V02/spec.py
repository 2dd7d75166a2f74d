import z3
from vcg import LoopSpec, Ptr
from bv import lift
TUS = ['V8Object.cpp', 'DetailedException.cpp', 'MessageRegistration.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp', 'SystemClasses/TStream.cpp', 'SystemClasses/TMemoryStream.cpp', 'SystemClasses/String.cpp']
BV = z3.BitVecSort(64)
O_, R_ = z3.Function('uf_O', BV, BV, BV), z3.Function('uf_R', BV, BV, BV)
Z = z3.BitVecVal(0, 64)


def u64(x):
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def named(e, n):
    return [o for o in e.allobjs if o.name == n][-1]


def blk(L):
    return L.input('block') if 'block' in L.e.inputs else z3.BitVecVal(1, 32)


class Db:
    """the file as the harness built it"""

    def __init__(self, L, ps):
        self.L, self.ps = L, ps
        self.file = Ptr([(1, named(L.e, 'buf_file'), 0)])

    def byte(self, off):
        return self.L.byte(self.file, off)

    def u32(self, off):
        return z3.Concat(*[self.byte(off + i) for i in (3, 2, 1, 0)])


def ule(a, b):
    return z3.ULE(a, b)


class Div:
    """O(q), R(q): quotient and remainder of page index q by the number of pages per table; the arithmetic facts
    used are lemmas with proofs of their own, instantiated where needed"""

    def __init__(self, L, per, sh):
        self.L, self.per, self.sh = L, per, sh
        self.pow2 = per & (per - 1) == 0
        if self.pow2 or L.e.dry:
            return
        a, b, x, y, q, p = z3.BitVecs('lem_a lem_b lem_x lem_y lem_q lem_p', 64)
        ok = z3.And(z3.ULT(b, per), z3.ULT(a, 1 << 22), a * per + b == q)
        L.lemma(f'division by {per}: quotient and remainder', z3.Implies(z3.And(ok, z3.ULT(q, 1 << 22)), z3.And(z3.UDiv(q, z3.BitVecVal(per, 64)) == a, q - per * a == b)))
        L.lemma(f'division by {per}: next', z3.Implies(z3.And(ok, z3.ULT(y, per), z3.ULT(x, 1 << 22), x * per + y == q + 1), z3.If(b == per - 1, z3.And(x == a + 1, y == 0), z3.And(x == a, y == b + 1))))
        L.lemma(f'division by {per}: bound', z3.Implies(z3.And(ok, z3.ULT(p, 1 << 32), ule(q, z3.LShR(p, sh))), ule(a, z3.UDiv(p, z3.BitVecVal(per << sh, 64)))))

    def O(self, q):
        return z3.LShR(q, self.per.bit_length() - 1) if self.pow2 else O_(q, Z)

    def R(self, q):
        return q & (self.per - 1) if self.pow2 else R_(q, Z)

    def bounds(self, q):
        if not self.pow2:
            self.L.e.assume(z3.And(z3.ULT(R_(q, Z), self.per), z3.ULT(O_(q, Z), 1 << 22)), self.L.g)

    def first(self, q):
        if not self.pow2:
            self.bounds(q)
            self.L.e.assume(z3.Implies(z3.ULT(q, 1 << 22), z3.And(z3.UDiv(q, z3.BitVecVal(self.per, 64)) == O_(q, Z), q - self.per * O_(q, Z) == R_(q, Z))), self.L.g)

    def next(self, q):
        if not self.pow2:
            self.bounds(q)
            self.bounds(q + 1)
            self.L.e.assume(z3.If(R_(q, Z) == self.per - 1, z3.And(O_(q + 1, Z) == O_(q, Z) + 1, R_(q + 1, Z) == 0), z3.And(O_(q + 1, Z) == O_(q, Z), R_(q + 1, Z) == R_(q, Z) + 1)), self.L.g)

    def below(self, q, last):
        """q lies in the object whose last byte is at last"""
        if not self.pow2:
            self.L.e.assume(z3.Implies(ule(q, z3.LShR(last, self.sh)), ule(O_(q, Z), z3.UDiv(last, z3.BitVecVal(self.per << self.sh, 64)))), self.L.g)


INV_ = z3.Function('uf_INV', BV, BV, BV)


def write_inv(kind, how, ps, per, data_at, head_at):
    sh = ps.bit_length() - 1

    def inv(L):
        d = Db(L, ps)
        v = Div(L, per, sh) if kind == 'two' else None
        new = Ptr([(1, named(L.e, 'raw_new'), 0)])
        src = Ptr([(1, named(L.e, 'buf_buf'), 0)])
        last = u64(L.input('len')) - 1
        block = u64(L.input('block'))
        length = lift(named(L.e, 'buf_buf').size, 64)
        start = L.val('_start', 64) if how in ('buf', 'stream') else z3.BitVecVal(0, 64)
        left = L.var('_length', 64)
        done = length - left
        pos = start + done
        q = z3.LShR(pos, sh)
        more = left != 0
        off = u64(L.var('curoffblock', 32)) if how in ('buf', 'stream') else z3.BitVecVal(0, 64)
        cur = u64(L.var('curlen', 32))
        out = [('not refused', L.glob('_ZL7refused', 1) == 0), ('left', ule(left, length)),
               ('offset', z3.Implies(more, off == (pos & (ps - 1)))),
               ('chunk', z3.Implies(more, cur == z3.If(z3.ULT(left, ps - off), left, ps - off)))]
        if how in ('stream', 'allstream'):
            st = Ptr([(1, named(L.e, 'raw_stream'), 0)])
            out += [('position of the stream', L.u(st, 8, 8) == done)]
        else:
            out += [('position in the buffer', L.poff(L.phi(['_buf', '_buf.0', 'buf'])) == done)]

        def tab(q):
            return u64(d.u32(block * ps + head_at + 4 * v.O(q)))

        def pg(q):
            if kind == 'two':
                return u64(d.u32(tab(q) * ps + data_at + 4 * v.R(q)))
            return u64(d.u32(block * ps + head_at + 4 * q))
        if L is L.pre:
            if kind == 'two':
                v.first(q)
                v.below(q, last)
        elif not hasattr(L, 'head'):
            if kind == 'two':
                v.next(q)
                v.below(q, last)
                v.below(q + 1, last)
            # precondition: the pages of the object are distinct
            L.e.assume(z3.Implies(ule(q, z3.LShR(last, sh)), INV_(pg(q), Z) == q), L.g)
        if kind == 'two':
            i, r = u64(L.var('curobjblock', 32)) - 1, u64(L.var('curoffobjblock', 32))
            b = L.phi(['b', 'bb'])
            out += [('table', z3.Implies(more, z3.And(i == v.O(q), r == v.R(q), z3.ULT(r, per)))),
                    ('tablepage', z3.Implies(more, z3.And(L.poff(b) == tab(q) * ps, z3.ULT(L.poff(b), L.e.vf_filesize))))]
        else:
            out += [('page', z3.Implies(more, u64(L.var('curblock', 32)) == q))]

        def at(x):
            qx = INV_(z3.LShR(x, sh), Z)
            p = qx * ps + (x & (ps - 1))
            mine = z3.And(ule(qx, z3.LShR(last, sh)), pg(qx) == z3.LShR(x, sh), ule(start, p), z3.ULT(p - start, done))
            if how[:3] == 'all':		# a page that is replaced altogether may be cleared beyond the end of the object
                old = z3.And(ule(qx, z3.LShR(last, sh)), pg(qx) == z3.LShR(x, sh))
                return z3.Implies(z3.ULT(x, L.e.vf_filesize), z3.And(z3.Implies(mine, L.byte(new, x) == L.byte(src, p - start)), z3.Implies(z3.Not(old), L.byte(new, x) == d.byte(x))))
            return z3.Implies(z3.ULT(x, L.e.vf_filesize), L.byte(new, x) == z3.If(mine, L.byte(src, p - start), d.byte(x)))
        return out + [('forall', 'bytes', at)]
    return inv


def sel(e, fr, l):
    if l['parent'] != -1:
        return False
    e.vf_filesize = lift(named(e, 'buf_file').size, 64)
    return True


def entry(kind, how, ps, per, data_at):
    f = {'buf': r'^V8Object::set_data\(void const\*, unsigned long, unsigned long\)', 'stream': r'^V8Object::set_data\(System::Classes::TStream\*, unsigned long, unsigned long\)',
         'allbuf': r'^V8Object::set_data\(void const\*, unsigned long\)', 'allstream': r'^V8Object::set_data\(System::Classes::TStream\*\)'}[how]
    return [(f, sel, LoopSpec(write_inv(kind, how, ps, per, data_at, 24)))]


ENTRIES = {
    'proof_buf80': dict(what='writing a range of an object of the old format', loops=entry('two', 'buf', 4096, 1023, 4)),
    'proof_stream80': dict(what='writing a range of an object of the old format from a stream', loops=entry('two', 'stream', 4096, 1023, 4)),
    'proof_streamflat': dict(what='writing a range of an object of the new format from a stream, one table', loops=entry('one', 'stream', 4096, 0, 0)),
    'proof_streamfat': dict(what='writing a range of an object of the new format from a stream, two levels', loops=entry('two', 'stream', 4096, 1024, 0)),
    'proof_allbufflat': dict(what='replacing a whole object of the new format, one table', loops=entry('one', 'allbuf', 4096, 0, 0)),
    'proof_allbuffat': dict(what='replacing a whole object of the new format, two levels', loops=entry('two', 'allbuf', 4096, 1024, 0)),
    'proof_allstreamflat': dict(what='replacing a whole object of the new format from a stream, one table', loops=entry('one', 'allstream', 4096, 0, 0)),
    'proof_allstreamfat': dict(what='replacing a whole object of the new format from a stream, two levels', loops=entry('two', 'allstream', 4096, 1024, 0)),
}
for n in (4, 64):
    ENTRIES[f'proof_bufflat{n}'] = dict(what=f'writing a range of an object of the new format, one table, pages of {n} KB', loops=entry('one', 'buf', n * 1024, 0, 0))
for n in (4, 8, 16, 32, 64):
    ENTRIES[f'proof_buffat{n}'] = dict(what=f'writing a range of an object of the new format, two levels, pages of {n} KB', loops=entry('two', 'buf', n * 1024, n * 256, 0))


def whole80(how):
    """writing a whole object of the old format: loops over tables and over the pages of a table"""
    ps, per, sh, head_at, data_at = 4096, 1023, 12, 24, 4

    def inv(level):
        def f(L):
            d = Db(L, ps)
            v = Div(L, per, sh)
            new = Ptr([(1, named(L.e, 'raw_new'), 0)])
            src = Ptr([(1, named(L.e, 'buf_buf'), 0)])
            ln, block = u64(L.input('len')), u64(L.input('block'))
            left = L.var('_length', 64)
            done = ln - left
            i = u64(L.var('i', 32))
            q = z3.LShR(done, sh)

            def tab(q):
                return u64(d.u32(block * ps + head_at + 4 * v.O(q)))

            def pg(q):
                return u64(d.u32(tab(q) * ps + data_at + 4 * v.R(q)))
            out = [('not refused', L.glob('_ZL7refused', 1) == 0), ('pages', done & (ps - 1) == 0), ('left', z3.And(left != 0, ule(left, ln)))]
            if how == 'allstream':
                out += [('position of the stream', L.u(Ptr([(1, named(L.e, 'raw_stream'), 0)]), 8, 8) == done)]
            else:
                out += [('position in the buffer', L.poff(L.phi(['buf'])) == done)]
            if level == 'outer':
                if L is L.pre:
                    v.first(q)
                    v.below(q, ln - 1)
                elif not hasattr(L, 'head'):
                    v.bounds(q)
                    v.below(q, ln - 1)
                out += [('table', z3.And(i == v.O(q), v.R(q) == 0))]
            else:
                j = u64(L.var('j', 32))
                if L is not L.pre and not hasattr(L, 'head'):
                    v.next(q)
                    # precondition: the pages of the object are distinct
                    L.e.assume(z3.Implies(ule(q, z3.LShR(ln - 1, sh)), INV_(pg(q), Z) == q), L.g)
                if L is L.pre:
                    # precondition: a full table counts its 1023 pages, the last one the rest
                    pages = z3.LShR(ln - 1, sh) + 1 - q
                    L.e.assume(d.u32(u64(d.u32(block * ps + head_at + 4 * i)) * ps) == z3.Extract(31, 0, z3.If(z3.UGE(pages, per), z3.BitVecVal(per, 64), pages)), L.g)
                out += [('pos', q == z3.LShR(ln - L.pre.var('_length', 64), sh) + j),
                        ('table', z3.If(j == per, z3.And(i + 1 == v.O(q), v.R(q) == 0), z3.And(i == v.O(q), j == v.R(q), z3.ULT(j, per))))]

            def at(x):
                qx = INV_(z3.LShR(x, sh), Z)
                p = qx * ps + (x & (ps - 1))
                old = z3.And(ule(qx, z3.LShR(ln - 1, sh)), pg(qx) == z3.LShR(x, sh))
                return z3.Implies(z3.ULT(x, L.e.vf_filesize), z3.And(z3.Implies(z3.And(old, z3.ULT(p, done)), L.byte(new, x) == L.byte(src, p)), z3.Implies(z3.Not(old), L.byte(new, x) == d.byte(x))))
            return out + [('forall', 'bytes', at)]
        return f
    n = {'allbuf': r'^V8Object::set_data\(void const\*, unsigned long\)', 'allstream': r'^V8Object::set_data\(System::Classes::TStream\*\)'}[how]
    return [(n, sel, LoopSpec(inv('outer'))), (n, lambda e, fr, l: l['parent'] != -1, LoopSpec(inv('inner')))]


ENTRIES['proof_allbuf80'] = dict(what='replacing a whole object of the old format', loops=whole80('allbuf'))
ENTRIES['proof_allstream80'] = dict(what='replacing a whole object of the old format from a stream', loops=whole80('allstream'))
B = dict(level='bounded', unroll=9)
for n in ('80', 'table80', 'flat', 'fat', 'tablefat', 'stream80', 'streamflat', 'streamfat', 'all80', 'allflat', 'allfat', 'allstream80', 'allstreamflat', 'allstreamfat'):
    ENTRIES['proof_few' + n] = dict(what='writing up to 8 bytes across a page end (replacing an object of at most two pages)', bound='8 bytes (two pages); file of at most 2000 pages', **B)
for n in ENTRIES:
    # the bounded entries are run when a loop contract fails as well (fallback)
    if 'few' in n or n in ('proof_buffat8', 'proof_buffat16', 'proof_buffat32', 'proof_buffat64', 'proof_bufflat64'):
        ENTRIES[n]['thorough_only'] = True
for n in ENTRIES:
    if 'few' not in n:
        k = '80' if '80' in n else 'fat' if 'fat' in n else 'flat'
        w = 'stream' if 'stream' in n else ''
        if 'all' in n:
            ENTRIES[n]['fallback'] = 'proof_fewall' + w + k
        else:
            ENTRIES[n]['fallback'] = ['proof_few' + w + k] + (['proof_fewtable' + k] if k != 'flat' else [])
