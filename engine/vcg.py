"""Verification-condition generator over LLVM IR.

Symbolic execution with state merging (one memory, guarded updates), complete unrolling of loops whose
exit the solver can establish, loop contracts (invariants) for the others, function contracts at call
boundaries, and an obligation for every harness assertion, every memory access whose bounds are not
syntactically evident, every loop bound, and every invariant.
"""
import json, re, subprocess, sys, time, os
import z3
from bv import *

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class B:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr(' + ', '.join(f'{o.name}+{off}' for g, o, off in self.alts) + ')'


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Fl:
    """concrete or opaque floating point value"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Obj:
    _n = 0

    def __init__(self, name, size, kind):
        Obj._n += 1
        self.id = Obj._n
        self.name = name
        self.size = size
        self.kind = kind
        self.base = None
        self.ptrs = None
        self.upd = []
        self.freed = 0
        self.exc = None
        self.dyn = None
        self.addr = None
        self.fn = None
        self.cache = {}


class U:
    __slots__ = ('k', 'g', 'off', 'n', 'v', 'src', 'snap', 'soff')

    def __init__(self, k, g, off, n, v=None, src=None, snap=None, soff=None):
        self.k, self.g, self.off, self.n, self.v, self.src, self.snap, self.soff = k, g, off, n, v, src, snap, soff


class Ob:
    __slots__ = ('kind', 'msg', 'loc', 'guard', 'cond', 'np', 'status', 'model', 'time', 'backend', 'fn')

    def __init__(self, kind, msg, loc, guard, cond, np, fn):
        self.kind, self.msg, self.loc, self.guard, self.cond, self.np, self.fn = kind, msg, loc, guard, cond, np, fn
        self.status = None
        self.model = None
        self.time = 0.0
        self.backend = None


class LoopSpec:
    """inv(L) -> list of items: z3 Bool, or ('forall', name, lambda k: Bool); havoc: extra callable"""

    def __init__(self, inv, havoc=None, name='', objs=(), stable=False):
        self.inv = inv
        self.objs = objs    # names of objects that a pointer which is null before the loop may point to later
        self.havoc = havoc
        self.stable = stable     # pointers in memory that every iteration writes back unchanged are found (and checked)
        self.name = name


class IR:
    def __init__(self, irdump, bc):
        self.p = subprocess.Popen([irdump, bc], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.f = {}
        self.g = {}
        self.list_ = None

    def _ask(self, q):
        self.p.stdin.write(q + '\n')
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def func(self, name):
        if name not in self.f:
            f = self._ask('F ' + name)
            if f:
                d = f['dem']
                while '> >' in d:
                    d = d.replace('> >', '>>')
                f['dem'] = d
            if f and not f['decl']:
                self._prep(f)
            self.f[name] = f
        return self.f[name]

    def glob(self, name):
        if name not in self.g:
            self.g[name] = self._ask('G ' + name)
        return self.g[name]

    def names(self):
        if self.list_ is None:
            self.list_ = self._ask('L *')
        return self.list_

    def find(self, dem):
        """functions whose demangled name (with parameters) equals or starts with dem"""
        return [n for n, d, decl in self.names() if d == dem or d.startswith(dem)]

    @staticmethod
    def _succ(ins):
        t = ins[-1]
        op = t['op']
        if op == 'br':
            return [t['t'], t['f']] if 'c' in t else [t['t']]
        if op == 'switch':
            return [t['def']] + [c[1] for c in t['cases']]
        if op == 'invoke':
            return [t['normal'], t['unwind']]
        return []

    def _prep(self, f):
        bl = f['blocks']
        n = len(bl)
        succ = [self._succ(b['ins']) for b in bl]
        # reverse post order
        seen = [False] * n
        order = []
        st = [(0, iter(succ[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        loops = f['loops']
        for i, l in enumerate(loops):
            l['ix'] = i
            l['set'] = set(l['blocks'])
        inner = {}
        for l in loops:   # parents precede children
            for b in l['blocks']:
                inner[b] = l['ix']
        items = {-1: []}
        for l in loops:
            items[l['ix']] = []
        hdr = {l['header']: l for l in loops}
        for b in order:
            li = inner.get(b, -1)
            if b in hdr:
                l = hdr[b]
                items[l['parent']].append(('L', l['ix']))
            items[li].append(('B', b))
        f['items'] = items
        f['hdr'] = {l['header']: l['ix'] for l in loops}


LIBEXC = {
    'std::__throw_out_of_range': '_ZTISt12out_of_range',
    'std::__throw_out_of_range_fmt': '_ZTISt12out_of_range',
    'std::__throw_length_error': '_ZTISt12length_error',
    'std::__throw_bad_alloc': '_ZTISt9bad_alloc',
    'std::__throw_bad_array_new_length': '_ZTISt20bad_array_new_length',
    'std::__throw_logic_error': '_ZTISt11logic_error',
    'std::__throw_invalid_argument': '_ZTISt16invalid_argument',
    'std::__throw_bad_function_call': '_ZTISt17bad_function_call',
    'std::__throw_bad_cast': '_ZTISt8bad_cast',
}
# base classes of the library exceptions (their typeinfo objects are external)
LIBEXC_BASE = {
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception',
    '_ZTISt8bad_cast': '_ZTISt9exception',
}


class Engine:
    def __init__(self, ir, unroll=600, prune=True, checks=True):
        self.ir = ir
        self.bdd = Bdd()
        self.NULL = Obj('null', 0, 'null')
        self.BAD = Obj('invalid-pointer', 0, 'bad')
        self.globals = {}
        self.fnobjs = {}
        self.asm = []            # assumptions, in order
        self.qasm = set()        # indices of quantified assumptions
        self.obs = []
        self.covers = []
        self.inputs = {}         # name -> ('int', width, term) | ('bytes', array, n)
        self.hooks = {}
        self.rehooks = []
        self.real = []
        self.replace = []
        self.insts = []
        self.lemmas = set()
        self.loopspecs = []
        self.hookcache = {}
        self.fresh_n = 0
        self.max_unroll = unroll
        self.prune = prune
        self.checks = checks
        self.loc = ''
        self.stack = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.solver_np = 0
        self.feas_cache = {}
        self.stat = dict(instrs=0, calls=0, feas=0, feas_t=0.0, unrolled=0)
        self.functions = {}      # functions executed (under the enclosing contract)
        self.trusted = {}        # hooks used
        self.contracts_used = {}
        self.maxinstr = 5_000_000
        self.deadline = None
        self.ghost = {}
        self.dry = 0
        self.caught = []

    # ---------- small helpers
    def fresh(self, name, w):
        self.fresh_n += 1
        if w == 1:
            return B(self.bdd.of(z3.Bool(f'{name}!{self.fresh_n}')))
        return z3.BitVec(f'{name}!{self.fresh_n}', w)

    def fresh_array(self, name):
        self.fresh_n += 1
        return z3.Array(f'{name}!{self.fresh_n}', z3.BitVecSort(64), z3.BitVecSort(8))

    def zb(self, n):
        return self.bdd.z(n)

    def tobool(self, v):
        """i1 value -> BDD node"""
        if isinstance(v, B):
            return v.n
        if isinstance(v, int):
            return 1 if v & 1 else 0
        raise Unsupported(f'bool from {v!r}')

    def objaddr(self, o):
        if o is self.NULL:
            return 0
        if o.addr is None:
            a = z3.BitVec(f'addr_{o.name}_{o.id}', 64)
            o.addr = a
            self.assume(z3.And(z3.UGE(a, 4096), z3.ULE(a, 1 << 46), z3.Extract(3, 0, a) == 0))
        return o.addr

    def bv(self, v, w):
        """integer view of a value"""
        if isinstance(v, (int, z3.BitVecRef)):
            return v
        if isinstance(v, B):
            z = v.n
            if z == 0:
                return 0
            if z == 1:
                return 1
            return z3.If(self.zb(z), lift(1, w), lift(0, w))
        if isinstance(v, Ptr):
            r = None
            for g, o, off in reversed(v.alts):
                a = add(self.objaddr(o), off, 64)
                r = a if r is None else ite(self.zb(g), a, r, 64)
            return r
        if isinstance(v, Fl):
            raise Unsupported('float used as an integer')
        raise Unsupported(f'int from {type(v)}')

    def boolexpr(self, e):
        """z3 Bool or Python bool -> B"""
        if isinstance(e, bool):
            return B(1 if e else 0)
        return B(self.bdd.of(z3.simplify(e)))

    def null(self):
        return Ptr([(1, self.NULL, 0)])

    def bad(self):
        return Ptr([(1, self.BAD, 0)])

    def asptr(self, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            if v == 0:
                return self.null()
            return Ptr([(1, self.BAD, v)])
        if isinstance(v, z3.BitVecRef):
            s = simp(v)
            if isinstance(s, int):
                return self.asptr(s)
            # base + off where base is a known object address
            return self.int2ptr(s)
        raise Unsupported(f'pointer from {type(v)}')

    def int2ptr(self, e):
        for o in self.addrobjs():
            d = simp(e - o.addr)
            ok = isinstance(d, int)
            if not ok:
                ok = not self._mentions(d, o.addr)
            if ok:
                return Ptr([(1, o, d)])
        return Ptr([(1, self.BAD, e)])

    def addrobjs(self):
        return [o for o in list(self.allobjs) if o.addr is not None] if hasattr(self, 'allobjs') else []

    @staticmethod
    def _mentions(e, x):
        seen = set()
        st = [e]
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.eq(x):
                return True
            st.extend(t.children())
        return False

    def norm(self, alts):
        out = []
        ix = {}
        for g, o, off in alts:
            if g == 0:
                continue
            k = (o.id, off if isc(off) else ('z', off.get_id()))
            if k in ix:
                i = ix[k]
                out[i] = (self.bdd.OR(out[i][0], g), o, off)
            else:
                ix[k] = len(out)
                out.append((g, o, off))
        # same object, different offsets: fold into one alternative with an ite offset
        if len(out) > 3:
            by = {}
            for g, o, off in out:
                if o.id in by:
                    g0, o0, off0 = by[o.id]
                    by[o.id] = (self.bdd.OR(g0, g), o, ite(self.zb(g), off, off0, 64))
                else:
                    by[o.id] = (g, o, off)
            out = list(by.values())
        return out

    def merge(self, pairs, ty=None):
        """[(guard, value)] exclusive guards -> value"""
        pairs = [(g, v) for g, v in pairs if g != 0]
        if not pairs:
            return None
        if len(pairs) == 1:
            return pairs[0][1]
        vs = [v for _, v in pairs]
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if any(v is None for v in vs):
            pairs = [(g, v) for g, v in pairs if v is not None]
            return self.merge(pairs, ty)
        if any(isinstance(v, Agg) for v in vs):
            n = len(v0.v)
            return Agg([self.merge([(g, v.v[i]) for g, v in pairs]) for i in range(n)])
        if any(isinstance(v, Ptr) for v in vs):
            alts = []
            for g, v in pairs:
                for ga, o, off in self.asptr(v).alts:
                    alts.append((self.bdd.AND(g, ga), o, off))
            return Ptr(self.norm(alts))
        if any(isinstance(v, B) for v in vs) :
            r = 0
            for g, v in pairs:
                r = self.bdd.OR(r, self.bdd.AND(g, self.tobool(v)))
            return B(r)
        if any(isinstance(v, Fl) for v in vs):
            return Fl(None)
        w = None
        for v in vs:
            if not isc(v):
                w = v.size()
        if w is None:
            if all(v == v0 for v in vs):
                return v0
            if ty is None:
                raise Unsupported('merge without width')
            w = int(ty[1:])
        # group equal values
        groups = []
        for g, v in pairs:
            for i, (g2, v2) in enumerate(groups):
                if (isc(v) and isc(v2) and v == v2) or (not isc(v) and not isc(v2) and v.eq(v2)):
                    groups[i] = (self.bdd.OR(g2, g), v2)
                    break
            else:
                groups.append((g, v))
        r = groups[-1][1]
        for g, v in reversed(groups[:-1]):
            r = ite(self.zb(g), v, r, w)
        return r

    # ---------- assumptions / obligations
    def assume(self, e, g=1, quant=False):
        if g == 0:
            return
        if g != 1:
            e = z3.Implies(self.zb(g), e)
        if quant:
            self.qasm.add(len(self.asm))
        self.asm.append(e)

    def oblige(self, kind, msg, g, cond):
        """cond: z3 Bool or BDD-wrapped B or bool"""
        if g == 0 or self.dry:
            return
        if isinstance(cond, B):
            if self.bdd.implies(g, cond.n):
                self.stat['trivial'] = self.stat.get('trivial', 0) + 1
                return
            cond = self.zb(cond.n)
        elif isinstance(cond, bool):
            if cond:
                return
            cond = z3.BoolVal(False)
        self.obs.append(Ob(kind, msg, self.loc, self.zb(g), cond, len(self.asm), self.stack[-1] if self.stack else ''))

    def feasible(self, g):
        if g == 0:
            return False
        if g == 1:
            return True
        key = (g, len(self.asm))
        r = self.feas_cache.get(key)
        if r is not None:
            return r
        t = time.time()
        while self.solver_np < len(self.asm):
            if self.solver_np not in self.qasm:
                self.solver.add(self.asm[self.solver_np])
            self.solver_np += 1
        r = self.solver.check(self.zb(g)) != z3.unsat
        self.stat['feas'] += 1
        self.stat['feas_t'] += time.time() - t
        self.feas_cache[key] = r
        return r

    # ---------- memory
    def newobj(self, name, size, kind):
        o = Obj(name, size, kind)
        if not hasattr(self, 'allobjs'):
            self.allobjs = []
        self.allobjs.append(o)
        return o

    def diff(self, a, b):
        if isc(a) and isc(b):
            return (a - b) & M64
        return sub(a, b, 64)

    def base_read(self, o, off, n):
        if o.ptrs is not None and n == 8 and isc(off) and off in o.ptrs:
            return o.ptrs[off]
        if o.base is None:
            arr = self.fresh_array(f'uninit_{o.name}')
            o.base = lambda k, arr=arr: z3.Select(arr, lift(k, 64))
        if n == 1:
            return o.base(off)
        return cat([(o.base(add(off, k, 64)), 8) for k in range(n - 1, -1, -1)])

    def byteof(self, val, n, k):
        """k-th byte (LE) of an n-byte stored value"""
        v = self.bv(val, 8 * n)
        return ext(8 * k + 7, 8 * k, v)

    def rd(self, o, off, n, g, upto=None, depth=0):
        if upto is None:
            upto = len(o.upd)
        ck = (off if isc(off) else ('z', off.get_id()), n, g, upto)
        c = o.cache.get(ck)
        if c is not None:
            return c[0]
        r = self._rd(o, off, n, g, upto)
        o.cache[ck] = (r, off)
        return r

    def _bytewise(self, o, off, n, g, upto):
        return cat([(self.bv(self.rd(o, add(off, k, 64), 1, g, upto), 8), 8) for k in range(n - 1, -1, -1)])

    def aligned_apart(self, d, n):
        if n & (n - 1):
            return False
        bits = n.bit_length() - 1
        if isinstance(d, int):
            return d % n == 0
        s = z3.simplify(z3.Extract(bits - 1, 0, d), mul2concat=True)
        return z3.is_bv_value(s) and s.as_long() == 0

    def _rd(self, o, off, n, g, upto):
        acc = []
        base = None
        i = upto - 1
        bdd = self.bdd
        while i >= 0:
            e = o.upd[i]
            gg = bdd.AND(e.g, g)
            if gg == 0:
                i -= 1
                continue
            impl = gg == g
            d = self.diff(off, e.off)
            v = None
            cond = None
            if e.k == 'st':
                if isc(d):
                    ds = sgn(d, 64)
                    if ds >= e.n or ds <= -n:
                        i -= 1
                        continue
                    if ds == 0 and e.n == n:
                        v = e.v
                    elif ds >= 0 and ds + n <= e.n:
                        v = ext(8 * (ds + n) - 1, 8 * ds, self.bv(e.v, 8 * e.n))
                    else:
                        base = self._bytewise(o, off, n, g, i + 1)
                        break
                elif n == 1:
                    if e.n == 1:
                        cond = lift(off, 64) == lift(e.off, 64)
                        v = e.v
                    else:
                        ev = lift(self.bv(e.v, 8 * e.n), 8 * e.n)
                        cond = z3.ULT(d, e.n)
                        sh = ext(8 * e.n - 1, 0, d) if 8 * e.n < 64 else zext(d, 64, 8 * e.n)
                        v = ext(7, 0, z3.LShR(ev, sh * 8))
                elif e.n == n and self.aligned_apart(d, n):
                    cond = lift(off, 64) == lift(e.off, 64)
                    v = e.v
                else:
                    base = self._bytewise(o, off, n, g, i + 1)
                    break
            else:
                ln = e.n
                if isc(d) and isc(ln):
                    ds = sgn(d, 64)
                    if ds >= ln or ds <= -n:
                        i -= 1
                        continue
                    if not (ds >= 0 and ds + n <= ln):
                        base = self._bytewise(o, off, n, g, i + 1)
                        break
                elif n == 1:
                    cond = z3.simplify(z3.ULT(lift(d, 64), lift(ln, 64)))
                    if z3.is_false(cond):
                        i -= 1
                        continue
                    if z3.is_true(cond):
                        cond = None
                else:
                    # whole read inside / outside the range?
                    inside = z3.simplify(z3.And(z3.ULE(lift(n, 64), lift(ln, 64)), z3.ULE(lift(d, 64), lift(ln, 64) - n)))
                    if z3.is_true(inside):
                        pass
                    elif isc(d) and sgn(d, 64) <= -n:
                        i -= 1
                        continue
                    elif self.prove(inside, gg):
                        pass
                    elif self.prove(z3.And(z3.UGE(lift(d, 64), lift(ln, 64)), z3.ULT(lift(d, 64), lift((-n) & M64, 64))), gg):
                        i -= 1
                        continue
                    else:
                        base = self._bytewise(o, off, n, g, i + 1)
                        break
                if e.k == 'cpy':
                    v = self.rd(e.src, add(e.soff, d, 64), n, gg if cond is None else gg, e.snap)
                else:
                    if n == 1:
                        v = e.v(d)
                    else:
                        v = cat([(e.v(add(d, k, 64)), 8) for k in range(n - 1, -1, -1)])
            if cond is not None:
                cond = z3.simplify(cond)
                if z3.is_false(cond):
                    i -= 1
                    continue
                if z3.is_true(cond):
                    cond = None
            if impl and cond is None:
                base = v
                break
            c = cond if cond is not None else z3.BoolVal(True)
            if not impl:
                c = self.zb(e.g) if cond is None else z3.And(self.zb(e.g), cond)
            acc.append((c, v))
            i -= 1
        if base is None:
            base = self.base_read(o, off, n)
        for c, v in reversed(acc):
            if isinstance(v, Ptr) or isinstance(base, Ptr):
                cn = self.bdd.of(z3.simplify(c))
                pv, pb = self.asptr(v), self.asptr(base)
                alts = [(self.bdd.AND(cn, ga), oo, of) for ga, oo, of in pv.alts]
                nn = self.bdd.NOT(cn)
                alts += [(self.bdd.AND(nn, ga), oo, of) for ga, oo, of in pb.alts]
                base = Ptr(self.norm(alts))
            elif isinstance(v, Fl) or isinstance(base, Fl):
                base = Fl(None)
            else:
                base = ite(c, self.bv(v, 8 * n), self.bv(base, 8 * n), 8 * n)
        return base

    def prove(self, cond, g):
        """quick check used only to choose a cheaper encoding"""
        return not self.feasible(self.bdd.AND(g, self.bdd.NOT(self.bdd.of(z3.simplify(cond)))))

    def access(self, p, n, g, what, chk=True):
        """bounds obligations for an access of n bytes (int or term) through p; yields usable (g, obj, off)"""
        res = []
        for ga, o, off in self.asptr(p).alts:
            gg = self.bdd.AND(g, ga)
            if gg == 0:
                continue
            if o is self.NULL or o is self.BAD or o.kind == 'fn':
                if isc(n) and n == 0:
                    continue
                cond = False
                if not isc(n):
                    cond = z3.BoolVal(False) if False else (lift(n, 64) == 0)
                if isc(n) and self.prune and not self.feasible(gg):
                    continue
                self.oblige('mem', f'{what}: {"null" if o is self.NULL else "invalid"} pointer dereferenced', gg, cond)
                continue
            if chk and self.checks:
                if o.freed:
                    gf = self.bdd.AND(gg, o.freed)
                    if gf and self.feasible(gf):
                        self.oblige('mem', f'{what}: use of freed object {o.name}', gf, False)
                size = o.size
                if o.dyn is not None:
                    size = o.dyn(gg)
                if size is not None:
                    if isc(size) and isc(off) and isc(n):
                        so = sgn(off, 64)
                        if not (so >= 0 and so + n <= size):
                            self.oblige('mem', f'{what}: {n} bytes at offset {so} of {o.name} (size {size})', gg, False)
                    else:
                        so, sn, ss = lift(off, 64), lift(n, 64), lift(size, 64)
                        c = z3.simplify(z3.Or(sn == 0, z3.And(z3.ULE(sn, ss), z3.ULE(so, ss - sn))))
                        if not z3.is_true(c):
                            self.oblige('mem', f'{what}: out of bounds of {o.name}', gg, c)
            res.append((gg, o, off))
        return res

    def load(self, p, n, g, ty='i'):
        al = self.access(p, n, g, 'load')
        if not al:
            return self.undef(ty if ty != 'i' else f'i{8*n}')
        vals = [(gg, self.rd(o, off, n, gg)) for gg, o, off in al]
        v = self.merge(vals, f'i{8*n}')
        if ty == 'p':
            return self.asptr(v)
        if ty in ('d', 'f', 'x'):
            return v if isinstance(v, Fl) else Fl(('bits', v))
        if isinstance(v, Fl):
            if isinstance(v.v, tuple):
                return v.v[1]
            raise Unsupported('float reinterpretation')
        return v

    def store(self, p, v, n, g):
        if isinstance(v, B):
            v = self.bv(v, 8 * n)
        for gg, o, off in self.access(p, n, g, 'store'):
            if o.kind == 'const' and not self.dry:
                self.oblige('mem', f'store to constant {o.name}', gg, False)
            self.note_write(o, off, n)
            o.upd.append(U('st', gg, off, n, v))

    def note_write(self, o, off, n):
        if self.dry:
            self.writes.setdefault(o.id, (o, []))[1].append((off, n))

    def memcpy(self, d, s, n, g):
        if isc(n) and n == 0:
            return
        n = simp(n) if not isc(n) else n
        sal = self.access(s, n, g, 'memcpy source')
        dal = self.access(d, n, g, 'memcpy destination')
        snaps = [(gs, so, soff, len(so.upd)) for gs, so, soff in sal]
        for gd, do, doff in dal:
            for gs, so, soff, snap in snaps:
                gg = self.bdd.AND(gd, gs)
                if gg:
                    self.note_write(do, doff, n)
                    if isc(n) and n <= 8 and n in (1, 2, 4, 8):
                        do.upd.append(U('st', gg, doff, n, self.rd(so, soff, n, gg, snap)))
                    else:
                        do.upd.append(U('cpy', gg, doff, n, src=so, snap=snap, soff=soff))

    def memset(self, d, c, n, g):
        if isc(n) and n == 0:
            return
        c = ext(7, 0, c) if not isc(c) else c & 255
        for gd, do, doff in self.access(d, n, g, 'memset'):
            self.note_write(do, doff, n)
            do.upd.append(U('fn', gd, doff, n, lambda k, c=c: c))

    def byte(self, p, k, g, upto=None):
        """byte at p+k, unchecked (specifications)"""
        r = []
        for ga, o, off in self.asptr(p).alts:
            gg = self.bdd.AND(g, ga)
            if gg == 0 or o is self.NULL or o is self.BAD:
                continue
            r.append((gg, self.bv(self.rd(o, add(off, k, 64), 1, gg), 8)))
        return self.merge(r, 'i8') if r else 0

    # ---------- constants & globals
    def fnobj(self, name):
        o = self.fnobjs.get(name)
        if o is None:
            o = self.newobj('fn:' + name, 0, 'fn')
            o.fn = name
            self.fnobjs[name] = o
        return o

    def gobj(self, name):
        o = self.globals.get(name)
        if o is not None:
            return o
        gd = self.ir.glob(name)
        if gd is None:
            f = self.ir.func(name)
            if f is not None:
                o = self.fnobj(name)
                self.globals[name] = o
                return o
            raise Unsupported('unknown global ' + name)
        if 'alias' in gd:
            p = self.cval(gd['alias'])
            o = p.alts[0][1]
            self.globals[name] = o
            return o
        o = self.newobj(name, gd['size'], 'const' if gd['const'] else 'global')
        self.globals[name] = o
        if 'init' in gd:
            data = bytearray(gd['size'])
            ptrs = {}
            self.flat(gd['init'], 0, data, ptrs, gd['ty'])
            o.ptrs = ptrs
            o.base = self.const_base(bytes(data), o)
            o.data = bytes(data)
        elif name in ('__libc_single_threaded',):
            o.base = lambda k: 1
        else:
            o.size = None   # external, layout unknown
            o.kind = 'extern'
        return o

    def const_base(self, data, o):
        n = len(data)
        arr = [None]

        def base(k):
            if isc(k):
                return data[k] if k < n else 0
            if n <= 1024:
                # table lookup: a balanced ite over the index would be large; use a z3 constant array
                if arr[0] is None:
                    a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
                    for i, x in enumerate(data):
                        if x:
                            a = z3.Store(a, z3.BitVecVal(i, 64), z3.BitVecVal(x, 8))
                    arr[0] = a
                r = z3.BitVecVal(data[n - 1] if n else 0, 8)
                if n <= 300:
                    for i in range(n - 2, -1, -1):
                        r = z3.If(k == i, z3.BitVecVal(data[i], 8), r)
                    return r
                return z3.Select(arr[0], k)
            raise Unsupported('symbolic index into a large constant')
        return base

    def flat(self, c, off, data, ptrs, ty):
        k = c[0]
        if k == 'i':
            w = (c[1] + 7) // 8
            data[off:off + w] = int(c[2]).to_bytes(w, 'little')
        elif k in ('zero', 'undef', 'null'):
            pass
        elif k == 'fp':
            w = {'d': 8, 'f': 4, 'x': 10}[c[1]]
            data[off:off + w] = int(c[2]).to_bytes(w, 'little')
        elif k == 'agg':
            t = c[1]
            if t[0] == 's':
                for (eo, et), v in zip(t[2:], c[2]):
                    self.flat(v, off + eo, data, ptrs, et)
            elif t[0] == 'a':
                for i, v in enumerate(c[2]):
                    self.flat(v, off + i * t[2], data, ptrs, t[3])
            else:
                raise Unsupported('vector constant')
        elif k in ('g', 'goff', 'ce'):
            ptrs[off] = LazyPtr(self, c)

    def cval(self, c):
        k = c[0]
        if k == 'i':
            w = c[1]
            v = int(c[2])
            return B(v & 1) if w == 1 else v
        if k == 'null':
            return self.null()
        if k == 'g':
            gd = self.ir.glob(c[1])
            if gd is None:
                return Ptr([(1, self.fnobj(c[1]), 0)])
            return Ptr([(1, self.gobj(c[1]), 0)])
        if k == 'goff':
            p = self.asptr(self.cval(c[1]))
            return Ptr([(g, o, add(off, c[2] & M64, 64)) for g, o, off in p.alts])
        if k == 'undef':
            return self.undef(c[1])
        if k == 'zero':
            return self.zero(c[1])
        if k == 'agg':
            return Agg([self.cval(x) for x in c[2]])
        if k == 'fp':
            return Fl(('bits', int(c[2])))
        if k == 'ce':
            op = c[1]
            if op == 'ptrtoint':
                return self.cval(c[3][0])
            if op == 'inttoptr':
                return self.asptr(self.cval(c[3][0]))
            if op == 'sub':
                a, b = [self.cval(x) for x in c[3]]
                return self.intsub(a, b, int(c[2][1:]))
            if op == 'add':
                a, b = [self.bv(self.cval(x), 64) for x in c[3]]
                return add(a, b, int(c[2][1:]))
            if op == 'trunc':
                return ext(int(c[2][1:]) - 1, 0, self.bv(self.cval(c[3][0]), 64))
        raise Unsupported('constant ' + str(c)[:80])

    def undef(self, ty):
        if isinstance(ty, str):
            if ty == 'p':
                return self.bad()
            if ty in ('d', 'f', 'x'):
                return Fl(None)
            if ty[0] == 'i':
                return self.fresh('undef', int(ty[1:]))
            if ty == 'v':
                return None
        elif ty[0] == 's':
            return Agg([self.undef(t) for _, t in ty[2:]])
        elif ty[0] == 'a':
            return Agg([self.undef(ty[3]) for _ in range(ty[1])])
        raise Unsupported('undef ' + str(ty))

    def zero(self, ty):
        if isinstance(ty, str):
            if ty == 'p':
                return self.null()
            if ty in ('d', 'f', 'x'):
                return Fl(('bits', 0))
            if ty == 'i1':
                return B(0)
            return 0
        if ty[0] == 's':
            return Agg([self.zero(t) for _, t in ty[2:]])
        if ty[0] == 'a':
            return Agg([self.zero(ty[3]) for _ in range(ty[1])])
        raise Unsupported('zero')

    # ---------- function execution
    def resolve(self, name):
        """what to do for a call to `name`: ('hook', fn) | ('contract', fname) | ('exec', f)"""
        r = self.hookcache.get(name)
        if r is not None:
            return r
        f = self.ir.func(name)
        dem = f['dem'] if f else name
        r = None
        for rx, target in self.replace:
            if rx.search(dem) and name != target and not name.startswith('contract_'):
                r = ('contract', target)
                break
        own = any(rx.search(dem) for rx in self.real) and f is not None and not f['decl']	# use the body, not the model
        if r is None and name in self.hooks and not own:
            r = ('hook', self.hooks[name])
        if r is None and not own:
            for rx, h in self.rehooks:
                if rx.search(dem):
                    r = ('hook', h)
                    break
        if r is None:
            if f is None or f['decl']:
                r = ('none', dem)
            else:
                r = ('exec', f)
        self.hookcache[name] = r
        return r

    def throw_lib(self, tname, g):
        o = self.newobj('exc_' + tname, 16, 'heap')
        o.exc = tname
        return (g, Ptr([(1, o, 0)]))

    def call(self, name, args, g, ret):
        """-> (value, normal guard, throws [(g, Ptr)])"""
        self.stat['calls'] += 1
        kind, what = self.resolve(name)
        if kind == 'contract':
            f = self.ir.func(name)
            self.contracts_used[f['dem'] if f else name] = what
            self.in_contract = name
            return self.exec_fn(self.ir.func(what), args, g)
        if kind == 'hook':
            f = self.ir.func(name)
            dem = f['dem'] if f else name
            r = what(self, args, g, dict(name=name, dem=dem, ret=ret))
            if r is NOHOOK:
                if f is None or f['decl']:
                    raise Unsupported('no model for ' + dem)
                return self.exec_fn(f, args, g)
            if not dem.startswith('vf_') and not name.startswith('llvm.'):
                self.trusted[dem] = self.trusted.get(dem, 0) + 1
            if isinstance(r, tuple):
                return r
            return r, g, []
        if kind == 'exec':
            return self.exec_fn(what, args, g)
        for k, t in LIBEXC.items():
            if what.startswith(k + '('):
                return None, 0, [self.throw_lib(t, g)]
        # external function without a model: unreachable code is fine, otherwise give up
        if not self.feasible(g):
            return self.undef_ret(ret), 0, []
        raise Unsupported('call to external function without a contract: ' + what)

    def undef_ret(self, ret):
        try:
            return self.undef(ret)
        except Unsupported:
            return None

    def exec_fn(self, f, args, g):
        if f is None:
            raise Unsupported('call to unknown function')
        if f['decl']:
            raise Unsupported('no body: ' + f['dem'])
        if len(self.stack) > 120:
            raise Unsupported('recursion too deep in ' + f['dem'])
        if self.stack.count(f['name']) > 8:
            raise Unsupported('recursion: ' + f['dem'])
        self.stack.append(f['name'])
        fi = self.functions.setdefault(f['name'], dict(dem=f['dem'], file=f.get('file', ''), line=f.get('line', 0), n=0))
        fi['n'] += 1
        fr = Frame(f)
        for a, v in zip(f['args'], args):
            if 'byval' in a:
                o = self.newobj('byval_' + a['name'], a['byval'], 'stack')
                np = Ptr([(1, o, 0)])
                self.memcpy(np, v, a['byval'], g)
                v = np
            fr.regs[a['id']] = v
        fr.incoming[0] = [(g, {}, None)]
        saveloc = self.loc
        self.run_items(fr, f['items'][-1], None)
        self.loc = saveloc
        self.stack.pop()
        rg = 0
        for gg, v in fr.rets:
            rg = self.bdd.OR(rg, gg)
        val = None
        if fr.rets and f['ret'] != 'v':
            val = self.merge(fr.rets, f['ret'] if isinstance(f['ret'], str) else None)
        for o in fr.allocas:
            pass
        return val, rg, fr.throws

    def run_items(self, fr, items, loop):
        for kind, ix in items:
            if kind == 'B':
                es = fr.incoming.pop(ix, None)
                if es:
                    self.run_block(fr, ix, es, loop)
            else:
                l = fr.f['loops'][ix]
                if l['header'] in fr.incoming:
                    self.run_loop(fr, l)

    def find_spec(self, fr, l):
        for rx, sel, spec in self.loopspecs:
            if rx.search(fr.f['dem']):
                if sel is None or sel == l['ix'] or (callable(sel) and sel(self, fr, l)):
                    return spec
        return None

    def run_loop(self, fr, l):
        spec = self.find_spec(fr, l)
        if spec is not None:
            return self.cut_loop(fr, l, spec)
        it = 0
        h = l['header']
        while True:
            es = [e for e in fr.incoming.get(h, []) if e[0] != 0]
            if not es:
                fr.incoming.pop(h, None)
                break
            g = 0
            for e in es:
                g = self.bdd.OR(g, e[0])
            if it > 0 and g != 1 and not self.feasible(g):
                fr.incoming.pop(h, None)
                break
            if it > self.max_unroll:
                self.oblige('unwind', f'loop at line {l.get("ln")} of {fr.f["dem"]} exceeds {self.max_unroll} iterations', g, False)
                self.unwind_failed = True
                fr.incoming.pop(h, None)
                break
            fr.incoming[h] = es
            self.stat['unrolled'] += 1
            self.run_items(fr, fr.f['items'][l['ix']], l)
            it += 1

    # ---------- loop contracts
    def cut_loop(self, fr, l, spec):
        h = l['header']
        es = [e for e in fr.incoming.pop(h) if e[0] != 0]
        g = 0
        for e in es:
            g = self.bdd.OR(g, e[0])
        if not es or not self.feasible(g):
            return
        phis = [i for i in fr.f['blocks'][h]['ins'] if i['op'] == 'phi']
        entry = {}
        for p in phis:
            entry[p['id']] = self.merge([(e[0], e[1].get(p['id'])) for e in es], p['ty'] if isinstance(p['ty'], str) else None)
        where = f'{fr.f["dem"].split("(")[0]} loop at line {l.get("ln")}'
        # 1. which objects does the loop write?  (dry run on havocked phis, fixpoint over written ranges)
        written, fixed = {}, {}
        if spec.stable:
            fixed.update({('phi', p['id']): self.asptr(entry[p['id']]) for p in phis if p['ty'] == 'p'})
        outer_writes = getattr(self, 'writes', None)
        for rnd in range(4):
            snap = self.snapshot()
            self.dry += 1
            self.writes = {}
            hv = self.havoc_state(fr, phis, entry, written, g, 'dry', LoopSpec(None, objs=spec.objs), fixed=fixed)
            fr2 = fr.clone()
            fr2.incoming[h] = [(g, hv, None)]
            fr2.dry_loop = True
            edges = self.run_once(fr2, l, h)
            self.dry -= 1
            again = False
            for p in phis:
                if ('phi', p['id']) in fixed and not all(self.same_ptr(fixed['phi', p['id']], e[1].get(p['id']), e[0]) for e in edges if e[0]):
                    del fixed['phi', p['id']]
                    again = True
            if spec.stable and rnd == 0:
                for oid, (o, rs) in self.writes.items():
                    if o.id <= snap['nobj']:
                        for off, n in rs:
                            p = self.rd(o, off, 8, g, snap['upd'][oid][1] if oid in snap['upd'] else None) if isc(off) and n == 8 else None
                            if isinstance(p, Ptr) and len(p.alts) == 1 and isc(p.alts[0][2]) and self.unmoved(o, off, p, edges):
                                fixed[oid, off] = p
            w = self.writes
            self.restore(snap)
            new = False
            for oid, (o, rs) in w.items():
                if o.id > snap['nobj'] and o.kind not in ('global', 'const', 'extern'):
                    continue
                cur = written.setdefault(oid, (o, set()))[1]
                for off, n in rs:
                    r = ('all',)
                    if isc(off) and isc(n):
                        r = (off, n)
                    if r not in cur and ('all',) not in cur:
                        cur.add(r)
                        new = True
            if not new and not again and not (rnd == 0 and spec.stable):
                break
        self.writes = outer_writes
        if __import__("os").environ.get("VF_DEBUG"): print("written", [(o.name, sorted(map(str, rs))) for o, rs in written.values()], [(p.get("n"), entry[p["id"]]) for p in phis])
        # 2. invariant holds on entry
        L = LoopCtx(self, fr, phis, entry, entry, g, written, l)
        inv = spec.inv(L)
        for nm, cond in self.inv_goals(inv, g):
            self.oblige('inv-init', f'{where}: invariant "{nm}" holds on entry', g, cond)
        # 3. arbitrary iteration
        hv = self.havoc_state(fr, phis, entry, written, g, spec.name or 'h', spec, L, fixed)
        L2 = LoopCtx(self, fr, phis, entry, hv, g, written, l)
        L2.pre = L
        for item in spec.inv(L2):
            self.assume_inv(item, g)
        fr.incoming[h] = [(g, hv, None)]
        back = self.run_once(fr, l, h)
        # 4. preserved
        for gb, vals in back:
            if gb == 0:
                continue
            for p in phis:
                if p['ty'] == 'p':
                    self.check_ptr_obj(hv[p['id']], vals[p['id']], gb, where)
            for (oid, off), p in fixed.items():
                if oid == 'phi':
                    if not self.same_ptr(p, vals[off], gb):
                        self.oblige('inv-step', f'{where}: a pointer is unchanged', gb, False)
                elif not self.unmoved(written[oid][0], off, p, [(gb, vals)]):
                    self.oblige('inv-step', f'{where}: pointer in {written[oid][0].name} is unchanged', gb, False)
            L3 = LoopCtx(self, fr, phis, entry, vals, gb, written, l)
            L3.pre = L
            L3.head = L2
            for nm, cond in self.inv_goals(spec.inv(L3), gb):
                self.oblige('inv-step', f'{where}: invariant "{nm}" preserved', gb, cond)
        self.covers.append((f'{where}: invariant is satisfiable with another iteration', z3.Or([self.zb(gb) for gb, _ in back]) if back else z3.BoolVal(False), len(self.asm), 'loop'))

    def check_ptr_obj(self, a, b, g, where):
        a, b = self.asptr(a), self.asptr(b)
        ids = {o.id for _, o, _ in a.alts}
        for gb, o, off in b.alts:
            gg = self.bdd.AND(gb, g)
            if gg and o.id not in ids:
                self.oblige('inv-step', f'{where}: pointer stays within its object', gg, False)

    def inv_goals(self, inv, g):
        for i, item in enumerate(inv):
            if isinstance(item, tuple) and item[0] == 'forall':
                _, nm, fn = item[:3]
                k = z3.BitVec(f'sk_{nm}!{self.nextid()}', 64)
                goal = fn(k)
                self.inst(k, False)
                yield nm, goal
            elif isinstance(item, tuple):
                yield item[0], item[1]
            else:
                yield f'#{i}', item

    def nextid(self):
        self.fresh_n += 1
        return self.fresh_n

    def inst(self, t, keep=True):
        """instantiate the quantified invariants at t"""
        t = lift(t, 64)
        if keep:
            self.insts.append(t)
        for _, g, fn in list(getattr(self, 'quants', [])):
            self.assume(fn(t), g)

    def assume_inv(self, item, g):
        if isinstance(item, tuple) and item[0] == 'forall':
            _, nm, fn = item[:3]
            k = z3.BitVec(f'q_{nm}!{self.nextid()}', 64)
            body = fn(k)
            insts = item[3] if len(item) > 3 else None
            if insts is not None:
                for t in insts:
                    self.assume(fn(lift(t, 64)), g)
            self.assume(z3.ForAll([k], body), g, quant=True)
            self.quants = getattr(self, 'quants', [])
            self.quants.append((len(self.asm) - 1, g, fn))
            for t in self.insts:
                self.assume(fn(t), g)
        elif isinstance(item, tuple):
            e = item[1]
            if not (isinstance(e, bool) and e):
                self.assume(z3.BoolVal(e) if isinstance(e, bool) else e, g)
        else:
            if not (isinstance(item, bool) and item):
                self.assume(item, g)

    def maybe(self, alts, spec, nm):
        """a pointer that is null before the loop: null or one of the objects named in the loop contract"""
        if spec is None or not spec.objs or any(o is not self.NULL for _, o, _ in alts):
            return alts
        for n in spec.objs:
            o = [x for x in self.allobjs if x.name == n][-1]
            self.fresh_n += 1
            b = self.bdd.of(z3.Bool(f'{nm}_is_{n}!{self.fresh_n}'))
            alts = [(self.bdd.AND(ga, self.bdd.NOT(b)), oo, of) for ga, oo, of in alts] + [(b, o, 0)]
        return alts

    def same_ptr(self, p, q, g):
        if len(p.alts) != 1 or not isc(p.alts[0][2]) or not isinstance(q, Ptr):
            return False
        _, oo, of = p.alts[0]
        return all(x[1] is oo and isc(x[2]) and x[2] == of for x in q.alts if self.bdd.AND(x[0], g))

    def unmoved(self, o, off, p, edges):
        return all(self.same_ptr(p, self.rd(o, off, 8, e[0]), e[0]) for e in edges if e[0])

    def havoc_state(self, fr, phis, entry, written, g, tag, spec=None, L=None, fixed={}):
        hv = {}
        for p in phis:
            ty = p['ty']
            nm = f'{tag}_{p.get("n", p["id"])}'
            if ('phi', p['id']) in fixed:
                hv[p['id']] = entry[p['id']]
            elif ty == 'p':
                ps = self.asptr(entry[p['id']])
                alts = []
                for ga, o, off in ps.alts:
                    alts.append((ga, o, off if (o is self.NULL) else self.fresh(nm, 64)))
                hv[p['id']] = Ptr(self.maybe(alts, spec, nm))
            elif isinstance(ty, str) and ty[0] == 'i':
                hv[p['id']] = self.fresh(nm, int(ty[1:]))
            elif ty in ('d', 'f'):
                hv[p['id']] = Fl(None)
            else:
                raise Unsupported('havoc of type ' + str(ty))
        for oid, (o, rs) in written.items():
            if ('all',) in rs:
                if spec is not None and spec.havoc is not None:
                    r = spec.havoc(self, L, o, g)
                    if r is True:
                        continue
                arr = self.fresh_array(f'{tag}_{o.name}')
                o.upd.append(U('fn', g, 0, M64, lambda k, arr=arr: z3.Select(arr, lift(k, 64))))
            else:
                for off, n in sorted(rs):
                    if n == 8 and (oid, off) in fixed:
                        continue
                    old = self.rd(o, off, n, g) if n == 8 else None
                    if isinstance(old, Ptr):
                        alts = [(ga, oo, of if oo is self.NULL or oo.kind == 'fn' else self.fresh(f'{tag}_{o.name}_{off}', 64)) for ga, oo, of in old.alts]
                        o.upd.append(U('st', g, off, n, Ptr(self.maybe(alts, spec, f'{tag}_{o.name}_{off}'))))
                    elif n in (1, 2, 4, 8):
                        o.upd.append(U('st', g, off, n, self.fresh(f'{tag}_{o.name}_{off}', 8 * n)))
                    else:
                        arr = self.fresh_array(f'{tag}_{o.name}')
                        o.upd.append(U('fn', g, off, n, lambda k, arr=arr: z3.Select(arr, lift(k, 64))))
        return hv

    def run_once(self, fr, l, h):
        self.run_items(fr, fr.f['items'][l['ix']], l)
        back = fr.incoming.pop(h, [])
        return [(e[0], e[1]) for e in back]

    def snapshot(self):
        return dict(nobj=Obj._n, upd={o.id: (o, len(o.upd), o.freed) for o in self.allobjs}, nall=len(self.allobjs),
                    asm=len(self.asm), obs=len(self.obs), cov=len(self.covers), q=set(self.qasm),
                    quants=list(getattr(self, 'quants', [])), insts=list(self.insts), fn={k: dict(v) for k, v in self.functions.items()}, ghost=dict(self.ghost))

    def restore(self, s):
        for oid, (o, n, fr_) in s['upd'].items():
            del o.upd[n:]
            o.freed = fr_
            o.cache = {k: v for k, v in o.cache.items() if k[3] <= n}
        gone = self.allobjs[s['nall']:]
        del self.allobjs[s['nall']:]
        for o in gone:   # globals first touched in the dry run stay, unwritten
            if o.kind in ('global', 'const', 'extern', 'fn'):
                del o.upd[:]
                o.freed = 0
                o.cache = {}
                self.allobjs.append(o)
        del self.asm[s['asm']:]
        del self.obs[s['obs']:]
        del self.covers[s['cov']:]
        self.qasm = s['q']
        self.quants = s['quants']
        self.insts = s['insts']
        self.functions = s['fn']
        self.ghost = s['ghost']
        if self.solver_np > s['asm']:
            self.solver = z3.Solver()
            self.solver.set('timeout', 1500)
            self.solver_np = 0
        self.feas_cache = {}

    # ---------- blocks
    def run_block(self, fr, b, es, loop):
        g = 0
        for e in es:
            g = self.bdd.OR(g, e[0])
        if g == 0:
            return
        blk = fr.f['blocks'][b]
        regs = fr.regs
        nphi = 0
        newv = {}
        for ins in blk['ins']:
            if ins['op'] != 'phi':
                break
            nphi += 1
            newv[ins['id']] = self.merge([(e[0], e[1].get(ins['id'])) for e in es], ins['ty'] if isinstance(ins['ty'], str) else None)
        regs.update(newv)
        exc = None
        if any(e[2] is not None for e in es):
            exc = [(e[0], e[2]) for e in es if e[2] is not None]
        for ins in blk['ins'][nphi:]:
            self.stat['instrs'] += 1
            if self.stat['instrs'] > self.maxinstr or (self.deadline and (self.stat['instrs'] & 255) == 0 and time.time() > self.deadline):
                raise Unsupported('instruction or time budget exceeded')
            if 'ln' in ins:
                self.loc = (ins.get('fl', ''), ins['ln'])
            g = self.step(fr, b, ins, g, exc)
            if g == 0:
                return

    def edge(self, fr, src, dst, g, exc=None):
        if g == 0:
            return
        vals = {}
        for ins in fr.f['blocks'][dst]['ins']:
            if ins['op'] != 'phi':
                break
            for o, pb in ins['in']:
                if pb == src:
                    vals[ins['id']] = self.val(fr, o)
                    break
        fr.incoming.setdefault(dst, []).append((g, vals, exc))

    def val(self, fr, o):
        if o[0] == 'v':
            try:
                return fr.regs[o[1]]
            except KeyError:
                return None
        return self.cval(o)

    def intsub(self, a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            alts = []
            for ga, oa, fa in a.alts:
                for gb, ob, fb in b.alts:
                    gg = self.bdd.AND(ga, gb)
                    if gg == 0:
                        continue
                    if oa is ob:
                        alts.append((gg, self.diff(fa, fb)))
                    else:
                        alts.append((gg, sub(add(self.objaddr(oa), fa, 64), add(self.objaddr(ob), fb, 64), 64)))
            return self.merge(alts, 'i64')
        return sub(self.bv(a, w), self.bv(b, w), w)

    def icmp(self, pred, a, b, ot):
        if isinstance(a, B) or isinstance(b, B):
            x, y = self.tobool(a), self.tobool(b)
            if pred == 'eq':
                return B(self.bdd.ite(x, y, self.bdd.NOT(y)))
            if pred == 'ne':
                return B(self.bdd.ite(x, self.bdd.NOT(y), y))
            w = 1
            a, b = self.bv(B(x), 8), self.bv(B(y), 8)
            if pred[0] == 's':
                raise Unsupported('signed i1 compare')
            ot = 'i8'
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, (Ptr, int)) and isinstance(b, (Ptr, int))) and ot != 'p':
                a, b = self.bv(a, 64), self.bv(b, 64)
            else:
                a, b = self.asptr(a), self.asptr(b)
                res = 0
                for ga, oa, fa in a.alts:
                    for gb, ob, fb in b.alts:
                        gg = self.bdd.AND(ga, gb)
                        if gg == 0:
                            continue
                        if oa is ob:
                            c = self.icmp(pred, fa, fb, 'i64').n
                        elif pred == 'eq':
                            c = 0
                        elif pred == 'ne':
                            c = 1
                        elif oa is self.NULL:
                            c = 1 if pred in ('ult', 'ule') else 0
                        elif ob is self.NULL:
                            c = 1 if pred in ('ugt', 'uge') else 0
                        else:
                            c = self.icmp(pred, add(self.objaddr(oa), fa, 64), add(self.objaddr(ob), fb, 64), 'i64').n
                        res = self.bdd.OR(res, self.bdd.AND(gg, c))
                return B(res)
        w = 64 if ot == 'p' else int(ot[1:])
        if isc(a) and isc(b):
            m = (1 << w) - 1
            a &= m
            b &= m
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            r = {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]
            return B(1 if r else 0)
        a, b = lift(a, w), lift(b, w)
        if pred == 'eq':
            e = a == b
        elif pred == 'ne':
            e = a != b
        elif pred == 'ult':
            e = z3.ULT(a, b)
        elif pred == 'ule':
            e = z3.ULE(a, b)
        elif pred == 'ugt':
            e = z3.UGT(a, b)
        elif pred == 'uge':
            e = z3.UGE(a, b)
        elif pred == 'slt':
            e = a < b
        elif pred == 'sle':
            e = a <= b
        elif pred == 'sgt':
            e = a > b
        else:
            e = a >= b
        return B(self.bdd.of(z3.simplify(e)))

    def binop(self, op, a, b, w, ins):
        if isinstance(a, Fl) or isinstance(b, Fl):
            return Fl(None)
        if w == 1:
            x, y = self.tobool(a), self.tobool(b)
            if op == 'and':
                return B(self.bdd.AND(x, y))
            if op == 'or':
                return B(self.bdd.OR(x, y))
            if op in ('xor', 'add', 'sub'):
                return B(self.bdd.ite(x, self.bdd.NOT(y), y))
            raise Unsupported('i1 ' + op)
        if op == 'sub':
            return self.intsub(a, b, w)
        if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
            return Ptr([(g, o, add(off, b, 64)) for g, o, off in a.alts])
        if op == 'and' and isinstance(a, Ptr) and isc(b) and b == 1 and all(o.kind == 'fn' for _, o, _ in a.alts):
            return 0
        a, b = self.bv(a, w), self.bv(b, w)
        m = (1 << w) - 1
        if op == 'add':
            return add(a, b, w)
        if op == 'mul':
            return mul(a, b, w)
        if isc(a) and isc(b):
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & m
            if b == 0 and op in ('udiv', 'urem', 'sdiv', 'srem'):
                return 0 if op[1:] == 'rem' else m
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            return (q if op == 'sdiv' else sa - q * sb) & m
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isc(x):
                    if x == 0:
                        return 0
                    if x == m:
                        return y
                    if x & (x + 1) == 0:    # low mask
                        k = x.bit_length()
                        return zext(ext(k - 1, 0, y), k, w)
            return lift(a, w) & lift(b, w)
        if op == 'or':
            if isc(a) and a == 0:
                return b
            if isc(b) and b == 0:
                return a
            for x, y in ((a, b), (b, a)):	# disjoint parts: a concatenation
                if not isc(x) and not isc(y):
                    k = lowzeros(x)
                    if k and w - highzeros(y) <= k:
                        return cat([(ext(w - 1, k, x), w - k), (ext(k - 1, 0, y), k)])
            return lift(a, w) | lift(b, w)
        if op == 'xor':
            return lift(a, w) ^ lift(b, w)
        if op == 'shl':
            if isc(b):
                if b >= w:
                    return 0
                if b == 0:
                    return a
                return cat([(ext(w - 1 - b, 0, a), w - b), (0, b)])
            return lift(a, w) << lift(b, w)
        if op == 'lshr':
            if isc(b):
                if b >= w:
                    return 0
                return zext(ext(w - 1, b, a), w - b, w)
            return z3.LShR(lift(a, w), lift(b, w))
        if op == 'ashr':
            return lift(a, w) >> lift(b, w)
        if op in ('udiv', 'urem') and isc(b) and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            if k == 0:
                return a if op == 'udiv' else 0
            return zext(ext(w - 1, k, a), w - k, w) if op == 'udiv' else zext(ext(k - 1, 0, a), k, w)
        if op == 'udiv':
            return z3.UDiv(lift(a, w), lift(b, w))
        if op == 'urem':
            return z3.URem(lift(a, w), lift(b, w))
        if op == 'sdiv':
            return lift(a, w) / lift(b, w)
        if op == 'srem':
            return z3.SRem(lift(a, w), lift(b, w))
        raise Unsupported('binop ' + op)

    BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}

    def step(self, fr, b, ins, g, exc):
        op = ins['op']
        regs = fr.regs
        V = lambda o: self.val(fr, o)
        if op in self.BIN:
            a, c = V(ins['a'][0]), V(ins['a'][1])
            w = int(ins['ty'][1:]) if isinstance(ins['ty'], str) and ins['ty'][0] == 'i' else 0
            if op in ('udiv', 'urem', 'sdiv', 'srem') and not (isc(c) and c != 0):
                self.oblige('div', 'division by zero', g, c != 0 if not isc(c) else False)
            if op in ('shl', 'lshr', 'ashr') and w > 1:
                cb = self.bv(c, w)
                if isc(cb):
                    if cb >= w:
                        self.oblige('shift', 'shift amount out of range', g, False)
                elif self.checks:
                    self.oblige('shift', 'shift amount out of range', g, z3.ULT(cb, w))
            regs[ins['id']] = self.binop(op, a, c, w, ins)
            return g
        if op == 'load':
            p = V(ins['a'][0])
            ty = ins['ty']
            if isinstance(ty, str):
                if ty == 'i1':
                    v = self.load(p, 1, g)
                    v = ext(0, 0, self.bv(v, 8))
                    regs[ins['id']] = B(v) if isc(v) else self.boolexpr(v == 1)
                else:
                    n = ins['size']
                    v = self.load(p, n, g, ty if ty in ('p', 'd', 'f', 'x') else 'i')
                    if ty[0] == 'i' and int(ty[1:]) != 8 * n:
                        v = ext(int(ty[1:]) - 1, 0, self.bv(v, 8 * n))
                    regs[ins['id']] = v
            elif ty[0] == 's':
                regs[ins['id']] = self.load_agg(p, ty, g)
            else:
                raise Unsupported('load of ' + str(ty))
            return g
        if op == 'store':
            v, p = V(ins['a'][0]), V(ins['a'][1])
            vt = ins['vt']
            if isinstance(vt, str):
                if vt[0] == 'i' and int(vt[1:]) not in (8, 16, 32, 64, 128):
                    v = zext(self.bv(v, int(vt[1:])), int(vt[1:]), 8 * ins['size']) if vt != 'i1' else self.bv(v, 8)
                if v is None:
                    v = self.undef(vt)
                self.store(p, v, ins['size'], g)
            elif vt[0] == 's':
                for (eo, et), x in zip(vt[2:], v.v):
                    n = 8 if et == 'p' else (int(et[1:]) + 7) // 8
                    self.store(self.padd(p, eo), x, n, g)
            else:
                raise Unsupported('store of ' + str(vt))
            return g
        if op == 'getelementptr':
            p = self.asptr(V(ins['base']))
            off = ins['off'] & M64
            for o, sc, w in ins['idx']:
                i = V(o)
                i = self.bv(i, w)
                i = sext(i, w, 64) if w < 64 else i
                off = add(off, mul(i, sc & M64, 64), 64)
            if isc(off) and off == 0:
                regs[ins['id']] = p
            else:
                regs[ins['id']] = Ptr([(ga, o, self.offadd(of, off)) for ga, o, of in p.alts])
            return g
        if op == 'icmp':
            regs[ins['id']] = self.icmp(ins['pred'], V(ins['a'][0]), V(ins['a'][1]), ins['ot'] if isinstance(ins['ot'], str) else 'p')
            return g
        if op in ('zext', 'sext', 'trunc'):
            fw, tw = int(ins['from'][1:]), int(ins['ty'][1:])
            v = V(ins['a'][0])
            if op == 'trunc':
                v = ext(tw - 1, 0, self.bv(v, fw))
                if tw == 1:
                    v = B(v) if isc(v) else self.boolexpr(v == 1)
                regs[ins['id']] = v
            elif fw == 1:
                n = self.tobool(v)
                hiv = 1 if op == 'zext' else (1 << tw) - 1
                regs[ins['id']] = 0 if n == 0 else hiv if n == 1 else z3.If(self.zb(n), lift(hiv, tw), lift(0, tw))
            else:
                v = self.bv(v, fw)
                regs[ins['id']] = zext(v, fw, tw) if op == 'zext' else sext(v, fw, tw)
            return g
        if op == 'br':
            if 'c' not in ins:
                self.edge(fr, b, ins['t'], g)
                return 0
            c = self.tobool(V(ins['c']))
            gt, gf = self.bdd.AND(g, c), self.bdd.AND(g, self.bdd.NOT(c))
            if self.prune and gt and gf:
                if not self.feasible(gt):
                    gt, gf = 0, g
                elif not self.feasible(gf):
                    gt, gf = g, 0
            self.edge(fr, b, ins['t'], gt)
            if ins['t'] != ins['f']:
                self.edge(fr, b, ins['f'], gf)
            return 0
        if op in ('call', 'invoke'):
            return self.step_call(fr, b, ins, g, op)
        if op == 'ret':
            v = V(ins['a'][0]) if ins['a'] else None
            fr.rets.append((g, v))
            return 0
        if op == 'phi':
            return g
        if op == 'select':
            c = self.tobool(V(ins['a'][0]))
            x, y = V(ins['a'][1]), V(ins['a'][2])
            regs[ins['id']] = self.merge([(c, x), (self.bdd.NOT(c), y)], ins['ty'] if isinstance(ins['ty'], str) else None)
            return g
        if op == 'alloca':
            n = V(ins['cnt'])
            size = mul(self.bv(n, 64), ins['size'], 64)
            o = self.newobj(ins.get('n', 'tmp'), size, 'stack')
            fr.allocas.append(o)
            regs[ins['id']] = Ptr([(1, o, 0)])
            return g
        if op == 'switch':
            v = V(ins['v'])
            v = self.bv(v, 64)
            rest = g
            per = {}
            for cv, dst in ins['cases']:
                cvn = int(cv)
                c = (1 if v == cvn else 0) if isc(v) else self.bdd.of(z3.simplify(v == lift(cvn, v.size())))
                gg = self.bdd.AND(rest, c)
                rest = self.bdd.AND(rest, self.bdd.NOT(c))
                if gg and self.prune and not isc(v) and not self.feasible(gg):
                    gg = 0
                per[dst] = self.bdd.OR(per.get(dst, 0), gg)
            if rest and self.prune and not isc(v) and not self.feasible(rest):
                rest = 0
            per[ins['def']] = self.bdd.OR(per.get(ins['def'], 0), rest)
            for dst, gg in per.items():
                self.edge(fr, b, dst, gg)
            return 0
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            v = V(ins['a'][0])
            if op == 'ptrtoint' and ins['ty'] != 'i64':
                v = ext(int(ins['ty'][1:]) - 1, 0, self.bv(v, 64))
            if op == 'inttoptr':
                v = self.asptr(v)
            if op == 'bitcast':
                if ins['ty'] in ('d', 'f') and not isinstance(v, Fl):
                    v = Fl(('bits', v))
                elif isinstance(v, Fl):
                    v = v.v[1] if isinstance(v.v, tuple) else self.fresh('fl', int(ins['ty'][1:]))
            regs[ins['id']] = v
            return g
        if op == 'extractvalue':
            v = V(ins['a'][0])
            for i in ins['ix']:
                v = v.v[i]
            regs[ins['id']] = v
            return g
        if op == 'insertvalue':
            v = V(ins['a'][0])
            x = V(ins['a'][1])

            def upd(a, ix):
                nv = list(a.v)
                nv[ix[0]] = x if len(ix) == 1 else upd(nv[ix[0]], ix[1:])
                return Agg(nv)
            regs[ins['id']] = upd(v, ins['ix'])
            return g
        if op == 'unreachable':
            self.oblige('unreachable', 'control reaches an unreachable point (missing return / undefined behaviour)', g, False)
            return 0
        if op == 'landingpad':
            alts, sel = [], []
            for ge, plist in (exc or []):
                p, s = plist
                for ga, o, off in p.alts:
                    alts.append((self.bdd.AND(ge, ga), o, off))
                sel.append((ge, s))
            regs[ins['id']] = Agg([Ptr(self.norm(alts)), self.merge(sel, 'i32')])
            return g
        if op == 'resume':
            v = V(ins['a'][0]).v[0]
            fr.throws.append((g, v))
            return 0
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fpext', 'fptrunc', 'sitofp', 'uitofp'):
            regs[ins['id']] = Fl(None)
            return g
        if op in ('fptosi', 'fptoui'):
            regs[ins['id']] = self.fresh('fp', int(ins['ty'][1:]))
            return g
        if op == 'fcmp':
            regs[ins['id']] = self.fresh('fcmp', 1)
            return g
        if op == 'atomicrmw':
            p, x = V(ins['a'][0]), V(ins['a'][1])
            n = int(ins['ty'][1:]) // 8
            old = self.bv(self.load(p, n, g), 8 * n)
            r = {'add': add(old, x, 8 * n), 'sub': sub(old, x, 8 * n)}.get(ins['rmw'])
            if ins['rmw'] == 'xchg':
                r = x
            if r is None:
                raise Unsupported('atomicrmw ' + ins['rmw'])
            self.store(p, r, n, g)
            regs[ins['id']] = old
            return g
        if op == 'fence':
            return g
        raise Unsupported('instruction ' + op)

    def offadd(self, a, b):
        r = add(a, b, 64)
        return r if isc(r) else simp(r)

    def padd(self, p, k):
        return Ptr([(g, o, self.offadd(off, k)) for g, o, off in self.asptr(p).alts])

    def load_agg(self, p, ty, g):
        out = []
        for eo, et in ty[2:]:
            if not isinstance(et, str):
                out.append(self.load_agg(self.padd(p, eo), et, g))
                continue
            n = 8 if et in ('p', 'd') else 4 if et == 'f' else (int(et[1:]) + 7) // 8
            out.append(self.load(self.padd(p, eo), n, g, et if et in ('p', 'd', 'f') else 'i'))
        return Agg(out)

    # ---------- exceptions
    def is_base(self, t, c):
        """exception type t caught by clause type c?"""
        seen = 0
        work = [t]
        while work and seen < 50:
            x = work.pop()
            seen += 1
            if x == c:
                return True
            if x in LIBEXC_BASE:
                work.append(LIBEXC_BASE[x])
                continue
            gd = self.ir.glob(x)
            if gd and 'init' in gd:
                ini = gd['init']
                if ini[0] == 'agg':
                    vt = str(ini[2][0])
                    if '__si_class_type_info' in vt:
                        work.append(ini[2][2][1])
                    elif '__vmi_class_type_info' in vt:
                        for e in ini[2][3:]:
                            if e[0] == 'g':
                                work.append(e[1])
        return False

    def typeid(self, name):
        self.tids = getattr(self, 'tids', {})
        return self.tids.setdefault(name, len(self.tids) + 1)

    def unwind_to(self, fr, b, dst, throws):
        ins = None
        for i in fr.f['blocks'][dst]['ins']:
            if i['op'] == 'landingpad':
                ins = i
                break
        for g, p in throws:
            for ga, o, off in p.alts:
                gg = self.bdd.AND(g, ga)
                if gg == 0:
                    continue
                t = o.exc
                sel = None
                for k, c in ins['clauses']:
                    if k == 'catch':
                        if c[0] == 'null':
                            sel = self.typeid('*')
                            break
                        if t is not None and self.is_base(t, c[1]):
                            sel = self.typeid(c[1])
                            break
                    elif k == 'filter':
                        sel = (1 << 32) - 1
                        break
                if sel is None:
                    if not ins['cleanup']:
                        fr.throws.append((gg, Ptr([(1, o, off)])))
                        continue
                    sel = 0
                self.edge(fr, b, dst, gg, (Ptr([(1, o, off)]), sel))

    def step_call(self, fr, b, ins, g, op):
        args = [self.val(fr, a) for a in ins['args']]
        if 'byval' in ins:
            args = list(args)
        ret = ins.get('ty', 'v')
        if 'fn' in ins:
            val, rg, throws = self.call(ins['fn'], args, g, ret)
        else:
            fp = self.asptr(self.val(fr, ins['fp']))
            outs, rg, throws = [], 0, []
            for ga, o, off in fp.alts:
                gg = self.bdd.AND(g, ga)
                if gg == 0 or (len(fp.alts) > 1 and not self.feasible(gg)):
                    continue
                if o.kind != 'fn':
                    if not self.feasible(gg):
                        continue
                    if o is self.NULL or o is self.BAD:
                        self.oblige('mem', 'call through an invalid function pointer', gg, False)
                        continue
                    raise Unsupported(f'indirect call to {o.name}')
                v, r, t = self.call(o.fn, args, gg, ret)
                outs.append((r, v))
                rg = self.bdd.OR(rg, r)
                throws += t
            val = self.merge(outs, ret if isinstance(ret, str) else None) if ret != 'v' else None
        if 'id' in ins:
            fr.regs[ins['id']] = val
        throws = [t for t in throws if t[0] != 0]
        if op == 'invoke':
            if throws:
                self.unwind_to(fr, b, ins['unwind'], throws)
            self.edge(fr, b, ins['normal'], rg)
            return 0
        fr.throws += throws
        return rg


class Frame:
    def __init__(self, f):
        self.f = f
        self.regs = {}
        self.incoming = {}
        self.rets = []
        self.throws = []
        self.allocas = []

    def clone(self):
        n = Frame(self.f)
        n.regs = dict(self.regs)
        n.incoming = {}
        return n


class LazyPtr(Ptr):
    __slots__ = ('eng', 'c', '_a')

    def __init__(self, eng, c):
        self.eng, self.c, self._a = eng, c, None

    @property
    def alts(self):
        if self._a is None:
            v = self.eng.cval(self.c)
            self._a = self.eng.asptr(v).alts
        return self._a


class LoopCtx:
    """what an invariant may talk about: header phis (current and entry values) and memory"""

    def __init__(self, eng, fr, phis, entry, cur, g, written, loop=None):
        self.loop = loop
        self.e, self.fr, self.phis, self.entry, self.cur, self.g, self.written = eng, fr, phis, entry, cur, g, written
        self.pre = self
        self.lens = {o.id: len(o.upd) for o in eng.allobjs}

    def old(self, p, k=0):
        """byte p[k] as it was when the loop was entered"""
        r = []
        for ga, o, off in self.e.asptr(p).alts:
            if o is self.e.NULL or o is self.e.BAD:
                continue
            r.append((self.e.bdd.AND(self.g, ga), self.e.bv(self.e.rd(o, add(off, k, 64), 1, self.e.bdd.AND(self.g, ga), self.pre.lens.get(o.id)), 8)))
        return lift(self.e.merge(r, 'i8'), 8)

    def oldu(self, p, n, k=0):
        v = self.e.merge([(ga, self.e.rd(o, add(off, k, 64), n, self.e.bdd.AND(self.g, ga), self.pre.lens.get(o.id))) for ga, o, off in self.e.asptr(p).alts if o is not self.e.NULL and o is not self.e.BAD], f'i{8*n}')
        return v if isinstance(v, Ptr) else lift(self.e.bv(v, 8 * n), 8 * n)

    def affine(self, done):
        """every loop variable has moved by `done` since entry (counters that start at a constant go up, others down)"""
        out = []
        for p in self.phis:
            n = p.get('n', str(p['id']))
            a, b = self.entry[p['id']], self.cur[p['id']]
            if p['ty'] == 'p':
                a, b = self.e.asptr(a), self.e.asptr(b)
                if len(a.alts) == 1 and len(b.alts) == 1:
                    out.append((n, lift(b.alts[0][2], 64) == lift(a.alts[0][2], 64) + done))
            elif isinstance(p['ty'], str) and p['ty'][0] == 'i':
                w = int(p['ty'][1:])
                if w not in (32, 64):
                    continue
                a, b = self.e.bv(a, w), self.e.bv(b, w)
                d = z3.Extract(w - 1, 0, done) if w < 64 else done
                out.append((n, lift(b, w) == (lift(a, w) + d if isc(a) else lift(a, w) - d)))
        return out

    def _find(self, name):
        names = [name] if isinstance(name, str) else list(name)
        for nm in names:
            for p in self.phis:
                n = p.get('n', '')
                if n == nm or n.split('.')[0] == nm:
                    return p
        m = [p for p in self.phis for nm in names if re.fullmatch(re.escape(nm) + r'\d+', p.get('n', '').split('.')[0])]	# the second variable of that name in the function
        return m[0] if len(m) == 1 else None

    def has(self, name):
        return self._find(name) is not None

    def lemma(self, name, cond):
        """a fact about all values of its free variables: an obligation of its own, without any assumption"""
        if not self.e.dry and name not in self.e.lemmas:
            self.e.lemmas.add(name)
            self.e.obs.append(Ob('lemma', name, self.e.loc, z3.BoolVal(True), cond, 0, 'lemma'))

    def phi(self, name, w=64):
        p = self._find(name)
        if p is None:
            raise SpecMismatch(f'no loop variable {name} (have {[q.get("n") for q in self.phis]})')
        v = self.cur[p['id']]
        if isinstance(v, Ptr):
            return v
        return lift(self.e.bv(v, int(p['ty'][1:])), int(p['ty'][1:]))

    def var(self, name, w):
        """current value of a source variable: a loop variable, or memory when its address is taken"""
        for n in (name, name + '.addr'):
            if self.has(n):
                return self.phi(n)
        ix = self.loop['parent'] if self.loop else -1
        while ix != -1:		# a variable of an enclosing loop
            l = self.fr.f['loops'][ix]
            for i in self.fr.f['blocks'][l['header']]['ins']:
                if i['op'] == 'phi' and i.get('n', '').split('.')[0] == name and i['id'] in self.fr.regs:
                    v = self.fr.regs[i['id']]
                    return v if isinstance(v, Ptr) else lift(self.e.bv(v, int(i['ty'][1:])), int(i['ty'][1:]))
            ix = l['parent']
        for n in (name + '.addr', name):
            try:
                p = self.reg(n)
            except SpecMismatch:
                continue
            if isinstance(p, Ptr):
                return self.u(p, w // 8)
            return lift(self.e.bv(p, w), w)
        raise SpecMismatch('no variable ' + name)

    def phi0(self, name):
        p = self._find(name)
        v = self.entry[p['id']]
        if isinstance(v, Ptr):
            return v
        return lift(self.e.bv(v, int(p['ty'][1:])), int(p['ty'][1:]))

    def ints(self, w=None):
        return [p for p in self.phis if isinstance(p['ty'], str) and p['ty'][0] == 'i' and (w is None or p['ty'] == f'i{w}')]

    def reg(self, name):
        for blk in self.fr.f['blocks']:
            for i in blk['ins']:
                if i.get('n') == name and i['id'] in self.fr.regs:
                    return self.fr.regs[i['id']]
        for a in self.fr.f['args']:
            if a['name'] == name:
                return self.fr.regs[a['id']]
        raise SpecMismatch('no register ' + name)

    def val(self, name, w):
        """an argument or register as a bit-vector of w bits"""
        return lift(self.e.bv(self.reg(name), w), w)

    def poff(self, p):
        """offset of a single-object pointer"""
        p = self.e.asptr(p)
        alts = [a for a in p.alts if a[1] is not self.e.NULL and a[1] is not self.e.BAD and self.e.bdd.AND(self.g, a[0])]
        if not alts or len({a[1].id for a in alts}) != 1:
            raise SpecMismatch('pointer with several targets ' + repr(p)[:200])
        if len(alts) == 1:
            return lift(alts[0][2], 64)
        return lift(self.e.bv(self.e.merge([(a[0], a[2]) for a in alts], 'i64'), 64), 64)

    def pobj(self, p):
        p = self.e.asptr(p)
        if len(p.alts) != 1:
            raise SpecMismatch('pointer with several targets')
        return p.alts[0][1]

    def byte(self, p, k=0):
        r = [(self.e.bdd.AND(self.g, ga), self.e.bv(self.e.rd(o, add(off, k, 64), 1, self.e.bdd.AND(self.g, ga), self.lens.get(o.id)), 8))
             for ga, o, off in self.e.asptr(p).alts if o is not self.e.NULL and o is not self.e.BAD and self.e.bdd.AND(self.g, ga)]
        return lift(self.e.merge(r, 'i8') if r else 0, 8)

    def u(self, p, n, k=0):
        v = self.e.merge([(ga, self.e.rd(o, add(off, k, 64), n, self.e.bdd.AND(self.g, ga), self.lens.get(o.id))) for ga, o, off in self.e.asptr(p).alts if o is not self.e.NULL and o is not self.e.BAD], f'i{8*n}')
        if isinstance(v, Ptr):
            return v
        return lift(self.e.bv(v, 8 * n), 8 * n)

    def glob(self, name, n=8):
        return self.u(Ptr([(1, self.e.gobj(name), 0)]), n)

    def input(self, name):
        return self.e.inputs[name][2]


class SpecMismatch(Exception):
    pass


NOHOOK = object()
