"""Bit-vector term construction with constant folding, and guards as BDDs over z3 atoms."""
import z3

z3.set_param('smt.random_seed', 7)
z3.set_param('rewriter.bv_le2extract', False)	# comparisons stay arithmetic, which the integer back end needs
import os
if not os.environ.get('VF_Z3CHECK'):
    # z3's per-call error query costs more than the calls; terms built here are well sorted by construction
    import z3.z3core
    z3.z3core.Elementaries.Check = lambda self, ctx: None


M64 = (1 << 64) - 1


def isc(x):
    return isinstance(x, int)


_bvv = {}


def lift(x, w):
    if isinstance(x, int):
        k = (x & ((1 << w) - 1), w)
        r = _bvv.get(k)
        if r is None:
            r = _bvv[k] = z3.BitVecVal(k[0], w)
        return r
    return x


def simp(e):
    """z3.simplify, back to a Python int when constant"""
    if isinstance(e, int):
        return e
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        return s.as_long()
    return s


def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


def _kind(e):
    return e.decl().kind()


K_ADD = z3.Z3_OP_BADD
K_CONCAT = z3.Z3_OP_CONCAT
K_EXTRACT = z3.Z3_OP_EXTRACT
K_ZEXT = z3.Z3_OP_ZERO_EXT
K_SEXT = z3.Z3_OP_SIGN_EXT
K_ITE = z3.Z3_OP_ITE


def add(a, b, w):
    if isc(a) and isc(b):
        return (a + b) & ((1 << w) - 1)
    if isc(a):
        a, b = b, a
    if isc(b):
        b &= (1 << w) - 1
        if b == 0:
            return a
        if z3.is_app(a) and _kind(a) == K_ADD and a.num_args() == 2:
            x, y = a.arg(0), a.arg(1)
            if z3.is_bv_value(y):
                return add(x, (y.as_long() + b) & ((1 << w) - 1), w)
            if z3.is_bv_value(x):
                return add(y, (x.as_long() + b) & ((1 << w) - 1), w)
        return a + lift(b, w)
    return a + b


def sub(a, b, w):
    if isc(b):
        return add(a, (-b) & ((1 << w) - 1), w)
    if isc(a):
        return lift(a, w) - b
    if a.eq(b):
        return 0
    r = a - b
    s = z3.simplify(r)
    if z3.is_bv_value(s):
        return s.as_long()
    return s


def mul(a, b, w):
    m = (1 << w) - 1
    if isc(a) and isc(b):
        return (a * b) & m
    if isc(a):
        a, b = b, a
    if isc(b):
        b &= m
        if b == 0:
            return 0
        if b == 1:
            return a
        return a * lift(b, w)
    return a * b


def ext(hi, lo, e):
    """bits hi..lo"""
    w = hi - lo + 1
    if isc(e):
        return (e >> lo) & ((1 << w) - 1)
    ew = e.size()
    if lo == 0 and w == ew:
        return e
    k = _kind(e) if z3.is_app(e) else None
    if k == K_EXTRACT:
        _, l2 = e.params()
        return ext(hi + l2, lo + l2, e.arg(0))
    if k == K_CONCAT:
        pos = ew
        for i in range(e.num_args()):
            a = e.arg(i)
            s = a.size()
            pos -= s
            if lo >= pos and hi < pos + s:
                if z3.is_bv_value(a):
                    a = a.as_long()
                return ext(hi - pos, lo - pos, a)
        # spans several parts: rebuild
        parts = []
        pos = ew
        for i in range(e.num_args()):
            a = e.arg(i)
            s = a.size()
            pos -= s
            h, l = min(hi, pos + s - 1), max(lo, pos)
            if h >= l:
                if z3.is_bv_value(a):
                    a = a.as_long()
                parts.append((ext(h - pos, l - pos, a), h - l + 1))
        return cat(parts)
    if k == K_ZEXT:
        a = e.arg(0)
        s = a.size()
        if lo >= s:
            return 0
        if hi < s:
            return ext(hi, lo, a)
        return zext(ext(s - 1, lo, a), s - lo, w)
    if k == K_ITE and z3.is_bv_value(e.arg(1)) and z3.is_bv_value(e.arg(2)):
        t, f = ext(hi, lo, e.arg(1).as_long()), ext(hi, lo, e.arg(2).as_long())
        if t == f:
            return t
        return z3.If(e.arg(0), lift(t, w), lift(f, w))
    return z3.Extract(hi, lo, e)


def lowzeros(e):
    """number of low bits known to be zero"""
    if z3.is_app(e) and _kind(e) == K_CONCAT:
        a = e.arg(e.num_args() - 1)
        if z3.is_bv_value(a) and a.as_long() == 0:
            return a.size()
    return 0


def highzeros(e):
    """number of high bits known to be zero"""
    if not z3.is_app(e):
        return 0
    if _kind(e) == K_ZEXT:
        return e.size() - e.arg(0).size()
    if _kind(e) == K_CONCAT:
        a = e.arg(0)
        if z3.is_bv_value(a) and a.as_long() == 0:
            return a.size()
    return 0


def cat(parts):
    """parts: [(value,width)] most significant first; merges constants and adjacent extracts"""
    out = []
    for v, w in parts:
        if out:
            pv, pw = out[-1]
            if isc(pv) and isc(v):
                out[-1] = ((pv << w) | v, pw + w)
                continue
            if not isc(pv) and not isc(v) and z3.is_app(pv) and z3.is_app(v) and _kind(pv) == K_EXTRACT and _kind(v) == K_EXTRACT:
                h1, l1 = pv.params()
                h2, l2 = v.params()
                if l1 == h2 + 1 and pv.arg(0).eq(v.arg(0)):
                    out[-1] = (ext(h1, l2, pv.arg(0)), pw + w)
                    continue
            if not isc(pv) and not isc(v) and z3.is_app(pv) and _kind(pv) == K_EXTRACT and w >= 16:
                # the low part of a sum or product, which the simplifier computes in the smaller width
                h1, l1 = pv.params()
                t = pv.arg(0)
                if l1 >= w and _kind(t) in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL) and (v.eq(z3.simplify(z3.Extract(l1 - 1, l1 - w, t))) or z3.simplify(v).eq(z3.simplify(z3.Extract(l1 - 1, l1 - w, t)))):
                    out[-1] = (ext(h1, l1 - w, t), pw + w)
                    continue
        out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    if len(out) == 2 and isc(out[0][0]) and out[0][0] == 0:
        return z3.ZeroExt(out[0][1], out[1][0])
    return z3.Concat(*[lift(v, w) for v, w in out])


def zext(e, w, W):
    if isc(e):
        return e
    if w == W:
        return e
    if z3.is_app(e) and _kind(e) == K_ZEXT:
        return z3.ZeroExt(W - e.arg(0).size(), e.arg(0))
    return z3.ZeroExt(W - w, e)


def sext(e, w, W):
    if isc(e):
        return sgn(e, w) & ((1 << W) - 1)
    if w == W:
        return e
    if z3.is_app(e) and _kind(e) == K_ZEXT:
        return z3.ZeroExt(W - e.arg(0).size(), e.arg(0))
    return z3.SignExt(W - w, e)


def ite(c, a, b, w):
    """c: z3 Bool"""
    if isc(a) and isc(b) and a == b:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    return z3.If(c, lift(a, w), lift(b, w))


class Bdd:
    """hash-consed BDD; node 0 = false, 1 = true"""

    def __init__(self):
        self.var = [1 << 60, 1 << 60]
        self.hi = [0, 1]
        self.lo = [0, 1]
        self.uniq = {}
        self.memo = {}
        self.atoms = []      # var -> z3 Bool
        self.atomix = {}
        self.facts = {}     # ast id -> var
        self.zc = {0: z3.BoolVal(False), 1: z3.BoolVal(True)}
        self.keep = []

    def mk(self, v, h, l):
        if h == l:
            return h
        k = (v, h, l)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            self.var.append(v)
            self.hi.append(h)
            self.lo.append(l)
            self.uniq[k] = n
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.var[f], self.var[g], self.var[h])

        def co(x):
            if self.var[x] == v:
                return self.hi[x], self.lo[x]
            return x, x
        f1, f0 = co(f)
        g1, g0 = co(g)
        h1, h0 = co(h)
        r = self.mk(v, self.ite(f1, g1, h1), self.ite(f0, g0, h0))
        self.memo[k] = r
        return r

    def AND(self, a, b):
        if a == b:
            return a
        return self.ite(a, b, 0)

    def OR(self, a, b):
        if a == b:
            return a
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def learn(self, n):
        """n is assumed from here on: later occurrences of atoms it fixes are constants"""
        while n > 1:
            v, h, l = self.var[n], self.hi[n], self.lo[n]
            if l == 0:
                self.facts[v] = 1
                n = h
            elif h == 0:
                self.facts[v] = 0
                n = l
            else:
                return

    def implies(self, a, b):
        return self.AND(a, self.NOT(b)) == 0

    def atom(self, e):
        i = self.atomix.get(e.get_id())
        if i in self.facts:
            return self.facts[i]
        if i is None:
            i = len(self.atoms)
            self.atoms.append(e)
            self.atomix[e.get_id()] = i
        return self.mk(i, 1, 0)

    def of(self, e):
        """z3 Bool -> node"""
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.NOT(self.of(e.arg(0)))
        if k == z3.Z3_OP_AND and e.num_args() <= 8:
            r = 1
            for i in range(e.num_args()):
                r = self.AND(r, self.of(e.arg(i)))
            return r
        if k == z3.Z3_OP_OR and e.num_args() <= 8:
            r = 0
            for i in range(e.num_args()):
                r = self.OR(r, self.of(e.arg(i)))
            return r
        self.keep.append(e)
        return self.atom(e)

    def z(self, n):
        r = self.zc.get(n)
        if r is not None:
            return r
        v = self.atoms[self.var[n]]
        h, l = self.hi[n], self.lo[n]
        if h == 1 and l == 0:
            r = v
        elif h == 0 and l == 1:
            r = z3.Not(v)
        elif h == 1:
            r = z3.Or(v, self.z(l))
        elif l == 0:
            r = z3.And(v, self.z(h))
        elif h == 0:
            r = z3.And(z3.Not(v), self.z(l))
        elif l == 1:
            r = z3.Or(z3.Not(v), self.z(h))
        else:
            r = z3.If(v, self.z(h), self.z(l))
        self.zc[n] = r
        return r
