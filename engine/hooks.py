"""Contracts of everything outside /repo that the proofs rely on (compiler intrinsics, libc, libstdc++),
plus the vf_* specification intrinsics used by the harnesses."""
import re
import z3
from bv import *
from vcg import *

HOOKS = {}
RE = []


def hook(*names):
    def d(f):
        for n in names:
            HOOKS[n] = f
        return f
    return d


def rehook(rx):
    def d(f):
        RE.append((re.compile(rx), f))
        return f
    return d


def install(e):
    e.hooks.update(HOOKS)
    e.rehooks += RE


def cstr(e, p):
    p = e.asptr(p)
    _, o, off = p.alts[0]
    e_ = e.base_read
    out = bytearray()
    while True:
        b = o.base(off)
        if b == 0:
            return out.decode('utf8', 'replace')
        out.append(b)
        off += 1


# ---------------- specification intrinsics
def _int_input(w):
    def h(e, a, g, c):
        nm = cstr(e, a[0])
        if nm in e.inputs:
            return e.inputs[nm][2]
        v = z3.BitVec('in_' + nm, w)
        e.inputs[nm] = ('int', w, v)
        return v
    return h


for w in (8, 16, 32, 64):
    HOOKS[f'vf_u{w}'] = _int_input(w)


@hook('vf_range')
def _(e, a, g, c):
    nm = cstr(e, a[0])
    if nm not in e.inputs:
        v = z3.BitVec('in_' + nm, 64)
        e.inputs[nm] = ('int', 64, v)
        if not (isc(a[1]) and a[1] == 0):
            e.assume(z3.UGE(v, lift(a[1], 64)))
        e.assume(z3.ULE(v, lift(a[2], 64)))
    return e.inputs[nm][2]


@hook('vf_fresh')
def _(e, a, g, c):
    return e.fresh(cstr(e, a[0]), 64)


@hook('vf_bytes')
def _(e, a, g, c):
    nm = cstr(e, a[0])
    arr = z3.Array('in_' + nm, z3.BitVecSort(64), z3.BitVecSort(8))
    e.inputs[nm] = ('bytes', arr, a[2])
    for gg, o, off in e.access(a[1], a[2], g, 'vf_bytes'):
        e.note_write(o, off, a[2])
        o.upd.append(U('fn', gg, off, a[2], lambda k, arr=arr: z3.Select(arr, lift(k, 64))))
    return None


@hook('vf_buf')
def _(e, a, g, c):
    """fresh buffer of exactly n bytes with arbitrary contents"""
    nm = cstr(e, a[0])
    n = a[1]
    o = e.newobj('buf_' + nm, n, 'heap')
    arr = z3.Array('in_' + nm, z3.BitVecSort(64), z3.BitVecSort(8))
    e.inputs[nm] = ('bytes', arr, n)
    o.base = lambda k, arr=arr: z3.Select(arr, lift(k, 64))
    if not isc(n):
        e.assume(z3.ULE(n, 1 << 40))
    return Ptr([(1, o, 0)])


@hook('vf_raw')
def _(e, a, g, c):
    """fresh uninitialised buffer of exactly n bytes"""
    o = e.newobj('raw_' + cstr(e, a[0]), a[1], 'heap')
    return Ptr([(1, o, 0)])


@hook('vf_uf')
def _(e, a, g, c):
    """uninterpreted function name(a,b) -> 64 bit"""
    nm = cstr(e, a[0])
    f = z3.Function('uf_' + nm, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    return f(lift(a[1], 64), lift(a[2], 64))


def uf8(nm):
    return z3.Function('uf8_' + nm, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))


@hook('vf_uf8')
def _(e, a, g, c):
    return uf8(cstr(e, a[0]))(lift(a[1], 64), lift(a[2], 64))


@hook('vf_page')
def _(e, a, g, c):
    """object of n bytes whose byte k is uf8 name(id, k)"""
    nm = cstr(e, a[0])
    f = uf8(nm)
    pid = a[1]
    o = e.newobj('page_' + nm, a[2], 'heap')
    o.base = lambda k, f=f, pid=pid: f(lift(pid, 64), lift(k, 64))
    return Ptr([(1, o, 0)])


@hook('vf_assume')
def _(e, a, g, c):
    n = e.tobool(a[0])
    if n == 0:
        return None, 0, []
    if n != 1:
        e.assume(e.zb(n), g)
        if g == 1 and not e.dry:
            e.bdd.learn(n)
    return None


@hook('vf_assert')
def _(e, a, g, c):
    n = e.tobool(a[0])
    msg = cstr(e, a[1])
    if not e.dry:
        e.asserts = getattr(e, 'asserts', 0) + 1
        ob = Ob('assert', msg, e.loc, e.zb(g), e.zb(n), len(e.asm), e.stack[-1] if e.stack else '')
        e.obs.append(ob)
    return None


@hook('vf_cover')
def _(e, a, g, c):
    e.covers.append((cstr(e, a[0]), e.zb(g), len(e.asm), 'cover'))
    return None


@hook('vf_unreachable_if_executed')
def _(e, a, g, c):
    return None, 0, []


@hook('vf_same_bytes')
def _(e, a, g, c):
    """forall k<n: p[k]==q[k], as a proof goal (skolemised): use only under vf_assert"""
    p, q, n = a
    if isc(n) and n <= 64:
        r = 1
        for k in range(n):
            x, y = e.byte(p, k, g), e.byte(q, k, g)
            r = e.bdd.AND(r, e.icmp('eq', x, y, 'i8').n)
        return B(r)
    k = z3.BitVec(f'sk!{e.nextid()}', 64)
    x, y = lift(e.byte(p, k, g), 8), lift(e.byte(q, k, g), 8)
    return e.boolexpr(z3.Implies(z3.ULT(k, lift(n, 64)), x == y))


@hook('vf_inst')
def _(e, a, g, c):
    e.inst(a[0])
    return None


@hook('vf_peek')
def _(e, a, g, c):
    return e.byte(a[0], a[1], g)


@hook('vf_index')
def _(e, a, g, c):
    """arbitrary index < n (0 when n==0): a universally quantified goal variable"""
    nm = cstr(e, a[0])
    v = z3.BitVec('in_' + nm, 64)
    e.inputs[nm] = ('int', 64, v)
    e.assume(z3.ULT(v, lift(a[1], 64)), g)
    e.inst(v)
    return v


@hook('vf_freeze_obj')
def _(e, a, g, c):
    return None


# ---------------- compiler intrinsics
@rehook(r'^llvm\.(dbg|lifetime|invariant|experimental\.noalias|donothing|stack|var\.annotation|prefetch)')
def _(e, a, g, c):
    if c['name'].startswith('llvm.stacksave'):
        return e.null()
    return None


@rehook(r'^llvm\.assume')
def _(e, a, g, c):
    return None


@rehook(r'^llvm\.expect')
def _(e, a, g, c):
    return a[0]


@rehook(r'^llvm\.trap|^abort$|^llvm\.ubsantrap')
def _(e, a, g, c):
    e.oblige('abort', 'abort reached', g, False)
    return None, 0, []


@rehook(r'^llvm\.mem(cpy|move)')
def _(e, a, g, c):
    e.memcpy(a[0], a[1], a[2], g)
    return None


@rehook(r'^llvm\.memset')
def _(e, a, g, c):
    e.memset(a[0], a[1], a[2], g)
    return None


@rehook(r'^llvm\.(umax|umin|smax|smin)\.i(\d+)')
def _(e, a, g, c):
    m = re.match(r'llvm\.(u|s)(max|min)\.i(\d+)', c['name'])
    w = int(m.group(3))
    x, y = e.bv(a[0], w), e.bv(a[1], w)
    p = e.icmp(('u' if m.group(1) == 'u' else 's') + ('gt' if m.group(2) == 'max' else 'lt'), x, y, f'i{w}')
    return e.merge([(p.n, x), (e.bdd.NOT(p.n), y)], f'i{w}')


@rehook(r'^llvm\.eh\.typeid\.for')
def _(e, a, g, c):
    p = e.asptr(a[0])
    return e.typeid(p.alts[0][1].name)


@rehook(r'^llvm\.bswap\.i(\d+)')
def _(e, a, g, c):
    w = int(c['name'].rsplit('i', 1)[1])
    v = e.bv(a[0], w)
    return cat([(ext(8 * k + 7, 8 * k, v), 8) for k in range(w // 8)])


@rehook(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)')
def _(e, a, g, c):
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', c['name'])
    s, op, w = m.group(1), m.group(2), int(m.group(3))
    x, y = e.bv(a[0], w), e.bv(a[1], w)
    f = zext if s == 'u' else sext
    W = 2 * w
    X, Y = f(x, w, W), f(y, w, W)
    r = {'add': add, 'sub': sub, 'mul': mul}[op](X, Y, W)
    lo = ext(w - 1, 0, r)
    ov = e.icmp('ne', f(lo, w, W), r, f'i{W}')
    return Agg([lo, ov])


@rehook(r'^llvm\.is\.constant|^llvm\.objectsize')
def _(e, a, g, c):
    return B(0) if c['ret'] == 'i1' else M64


@rehook(r'^llvm\.abs\.i(\d+)')
def _(e, a, g, c):
    w = int(c['name'].rsplit('i', 1)[1])
    v = e.bv(a[0], w)
    n = e.icmp('slt', v, 0, f'i{w}').n
    return e.merge([(n, sub(0, v, w)), (e.bdd.NOT(n), v)], f'i{w}')


@rehook(r'^llvm\.fmuladd|^llvm\.(floor|ceil|fabs|round|sqrt)')
def _(e, a, g, c):
    return Fl(None)


# ---------------- libc / allocation
@hook('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t')
def _(e, a, g, c):
    n = a[0]
    if not isc(n):
        # a request the allocator refuses throws (new) or returns null (malloc); both end the path here
        e.assume(z3.ULE(n, 1 << 40), g)
    o = e.newobj('heap', n, 'heap')
    return Ptr([(1, o, 0)])


@hook('calloc')
def _(e, a, g, c):
    o = e.newobj('heap', mul(a[0], a[1], 64), 'heap')
    o.base = lambda k: 0
    return Ptr([(1, o, 0)])


@hook('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t')
def _(e, a, g, c):
    for ga, o, off in e.asptr(a[0]).alts:
        gg = e.bdd.AND(g, ga)
        if gg == 0 or o is e.NULL:
            continue
        if o is e.BAD or o.kind != 'heap':
            if e.feasible(gg):
                e.oblige('mem', f'free of {o.name}', gg, False)
            continue
        if o.freed:
            gf = e.bdd.AND(gg, o.freed)
            if gf and e.feasible(gf):
                e.oblige('mem', f'double free of {o.name}', gf, False)
        if not e.dry or True:
            o.freed = e.bdd.OR(o.freed, gg)
    return None


@hook('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def _(e, a, g, c):
    e.memcpy(a[0], a[1], a[2], g)
    return a[0]


@hook('memset')
def _(e, a, g, c):
    e.memset(a[0], a[1], a[2], g)
    return a[0]


def eqn(e, p, q, n, g):
    """-> B: first n bytes equal"""
    n = simp(n) if not isc(n) else n
    if isc(n) and n <= 512:
        r = 1
        for k in range(n):
            r = e.bdd.AND(r, e.icmp('eq', e.byte(p, k, g), e.byte(q, k, g), 'i8').n)
            if r == 0:
                break
        return B(r)
    b = e.fresh('eqn', 1)
    zb = e.zb(b.n)
    k = z3.BitVec(f'q_eq!{e.nextid()}', 64)
    e.assume(z3.Implies(zb, z3.ForAll([k], z3.Implies(z3.ULT(k, lift(n, 64)), lift(e.byte(p, k, g), 8) == lift(e.byte(q, k, g), 8)))), g, quant=True)
    i = e.fresh('neq_at', 64)
    e.assume(z3.Implies(z3.Not(zb), z3.And(z3.ULT(i, lift(n, 64)), lift(e.byte(p, i, g), 8) != lift(e.byte(q, i, g), 8))), g)
    return b


def cmpn(e, p, q, n, g, w=32):
    """memcmp result"""
    n = simp(n) if not isc(n) else n
    if isc(n) and n <= 512:
        r = 0
        for k in range(n - 1, -1, -1):
            x, y = e.byte(p, k, g), e.byte(q, k, g)
            eq = e.icmp('eq', x, y, 'i8').n
            lt = e.icmp('ult', x, y, 'i8').n
            d = e.merge([(lt, (1 << w) - 1), (e.bdd.NOT(lt), 1)], f'i{w}')
            r = e.merge([(eq, r), (e.bdd.NOT(eq), d)], f'i{w}')
        return r
    r = e.fresh('cmp', w)
    k = z3.BitVec(f'q_cmp!{e.nextid()}', 64)
    i = e.fresh('cmp_at', 64)
    nn = lift(n, 64)
    lim = z3.If(r == 0, nn, i)
    e.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, lim), lift(e.byte(p, k, g), 8) == lift(e.byte(q, k, g), 8))), g, quant=True)
    x, y = lift(e.byte(p, i, g), 8), lift(e.byte(q, i, g), 8)
    e.assume(z3.Implies(r != 0, z3.And(z3.ULT(i, nn), x != y, z3.ULT(x, y) == (r < 0))), g)
    return r


@hook('memcmp', 'bcmp', '__builtin_memcmp')
def _(e, a, g, c):
    e.access(a[0], a[2], g, 'memcmp')
    e.access(a[1], a[2], g, 'memcmp')
    return cmpn(e, a[0], a[1], a[2], g)


def find0(e, p, g, maxn=4096):
    """strlen"""
    p = e.asptr(p)
    if len(p.alts) == 1:
        _, o, off = p.alts[0]
        n = 0
        conds = []
        while n <= maxn:
            b = e.byte(p, n, g)
            if isc(b):
                if b == 0:
                    break
            else:
                z = e.icmp('eq', b, 0, 'i8').n
                conds.append((z, n))
            n += 1
            if o.size is not None and isc(o.size) and isc(off) and off + n >= o.size:
                break
            if len(conds) > 300:
                conds = None
                break
            if o.size is None and o.dyn is None and conds:
                conds = None
                break
        if conds is not None and n <= maxn:
            if o.size is not None and isc(o.size) and isc(off) and off + n >= o.size:
                allnz = 1
                for z, _ in conds:
                    allnz = e.bdd.AND(allnz, e.bdd.NOT(z))
                e.oblige('mem', f'string in {o.name} is terminated', e.bdd.AND(g, allnz), False)
            r = n
            for z, k in reversed(conds):
                r = e.merge([(z, k), (e.bdd.NOT(z), r)], 'i64')
            return r
    r = e.fresh('strlen', 64)
    k = z3.BitVec(f'q_sl!{e.nextid()}', 64)
    e.assume(lift(e.byte(p, r, g), 8) == 0, g)
    e.assume(z3.ULE(r, 1 << 40), g)
    e.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, r), lift(e.byte(p, k, g), 8) != 0)), g, quant=True)
    return r


@hook('strlen')
def _(e, a, g, c):
    return find0(e, a[0], g)


@rehook(r'^std::char_traits<char>::length\(')
def _(e, a, g, c):
    return find0(e, a[0], g)


@rehook(r'^std::char_traits<char>::compare\(')
def _(e, a, g, c):
    return cmpn(e, a[0], a[1], a[2], g)


@hook('memchr')
def _(e, a, g, c):
    n = a[2]
    p = e.asptr(a[0])
    if isc(n) and n <= 256:
        r = e.null()
        for k in range(n - 1, -1, -1):
            z = e.icmp('eq', e.byte(p, k, g), ext(7, 0, a[1]), 'i8').n
            r = e.merge([(z, e.padd(p, k)), (e.bdd.NOT(z), r)])
        return r
    i = e.fresh('memchr', 64)
    f = e.fresh('found', 1)
    k = z3.BitVec(f'q_mc!{e.nextid()}', 64)
    zf = e.zb(f.n)
    ch = lift(ext(7, 0, a[1]), 8)
    e.assume(z3.Implies(zf, z3.And(z3.ULT(i, lift(n, 64)), lift(e.byte(p, i, g), 8) == ch)), g)
    e.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, z3.If(zf, i, lift(n, 64))), lift(e.byte(p, k, g), 8) != ch)), g, quant=True)
    return e.merge([(f.n, e.padd(p, i)), (e.bdd.NOT(f.n), e.null())])


# ---------------- exceptions
@hook('__cxa_allocate_exception')
def _(e, a, g, c):
    o = e.newobj('exception', a[0], 'heap')
    return Ptr([(1, o, 0)])


@hook('__cxa_throw')
def _(e, a, g, c):
    t = e.asptr(a[1]).alts[0][1].name
    if t.startswith('fn:'):
        t = t[3:]
    for _, o, _ in e.asptr(a[0]).alts:
        o.exc = t
    return None, 0, [(g, e.asptr(a[0]))]


@hook('__cxa_free_exception')
def _(e, a, g, c):
    return None


@hook('__cxa_begin_catch')
def _(e, a, g, c):
    e.caught.append((g, e.asptr(a[0])))
    return a[0]


@hook('__cxa_get_exception_ptr')
def _(e, a, g, c):
    return a[0]


@hook('__cxa_end_catch')
def _(e, a, g, c):
    return None


@hook('__cxa_rethrow')
def _(e, a, g, c):
    for gc, p in reversed(e.caught):
        if e.bdd.implies(g, gc):
            return None, 0, [(g, p)]
    raise Unsupported('rethrow')


@hook('__clang_call_terminate', '_ZSt9terminatev')
def _(e, a, g, c):
    e.oblige('abort', 'std::terminate reached', g, False)
    return None, 0, []


@hook('__cxa_guard_acquire')
def _(e, a, g, c):
    v = e.load(a[0], 1, g)
    z = e.icmp('eq', v, 0, 'i8').n
    return e.merge([(z, 1), (e.bdd.NOT(z), 0)], 'i32')


@hook('__cxa_guard_release')
def _(e, a, g, c):
    e.store(a[0], 1, 1, g)
    return None


@hook('__cxa_guard_abort', '__cxa_atexit')
def _(e, a, g, c):
    return 0 if c['ret'] != 'v' else None


@rehook(r'^__gnu_cxx::__is_single_threaded|^__gthread_active_p|^__gnu_cxx::__is_active')
def _(e, a, g, c):
    return B(1) if c['ret'] == 'i1' else 1


@hook('tolower')
def _(e, a, g, c):
    v = a[0]
    if isc(v):
        return v + 32 if 65 <= v <= 90 else v
    return z3.If(z3.And(z3.UGE(v, 65), z3.ULE(v, 90)), v + 32, v)


@hook('toupper')
def _(e, a, g, c):
    v = a[0]
    if isc(v):
        return v - 32 if 97 <= v <= 122 else v
    return z3.If(z3.And(z3.UGE(v, 97), z3.ULE(v, 122)), v - 32, v)


# ---------------- errors and messages: reporting does not affect data
@rehook(r'^(DetailedException::(DetailedException|~DetailedException|add_detail|what|get_details|show)|std::(runtime_error|logic_error|exception|out_of_range|invalid_argument|length_error)::|Registrator::|MessageRegistrator?::|Msreg|Messager?::)')
def _(e, a, g, c):
    dem = c['dem']
    if 'add_detail' in dem or c['ret'] == 'p':
        return e.asptr(a[0]) if a else e.null()
    if c['ret'] == 'v':
        return None
    return e.undef_ret(c['ret'])


# ---------------- std::string
STR = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'


def s_len(e, p, g):
    return e.load(e.padd(p, 8), 8, g)


def s_data(e, p, g):
    return e.load(p, 8, g, 'p')


def s_setlen(e, p, n, g):
    e.store(e.padd(p, 8), n, 8, g)
    d = s_data(e, p, g)
    for ga, o, off in d.alts:
        gg = e.bdd.AND(g, ga)
        if gg and hasattr(o, 'aux'):
            e.note_write(o.aux, 0, 8)
            o.aux.upd.append(U('st', gg, 0, 8, n))
    e.raw_store(e.padd(d, n), 0, 1, g)


def raw_store(self, p, v, n, g):
    for ga, o, off in self.asptr(p).alts:
        gg = self.bdd.AND(g, ga)
        if gg == 0 or o is self.NULL or o is self.BAD:
            continue
        self.note_write(o, off, n)
        o.upd.append(U('st', gg, off, n, v))


def raw_copy(self, d, s, n, g):
    """copy with the source checked and the destination within the (growing) string buffer"""
    if isc(n) and n == 0:
        return
    sal = [(a, b, c_, len(b.upd)) for a, b, c_ in self.access(s, n, g, 'string source')]
    for ga, do, doff in self.asptr(d).alts:
        gd = self.bdd.AND(g, ga)
        if gd == 0 or do is self.NULL or do is self.BAD:
            continue
        for gs, so, soff, snap in sal:
            gg = self.bdd.AND(gd, gs)
            if gg:
                self.note_write(do, doff, n)
                do.upd.append(U('cpy', gg, doff, n, src=so, snap=snap, soff=soff))


Engine.raw_store = raw_store
Engine.raw_copy = raw_copy


def s_new(e, p, g):
    o = e.newobj('str', None, 'strbuf')
    aux = e.newobj('strlen', 8, 'aux')
    aux.base = lambda k: 0
    o.aux = aux
    o.base = lambda k: 0
    o.dyn = lambda gg, e=e, aux=aux: add(e.bv(e.rd(aux, 0, 8, gg), 64), 1, 64)
    e.store(p, Ptr([(1, o, 0)]), 8, g)
    e.store(e.padd(p, 8), 0, 8, g)
    return Ptr([(1, o, 0)])


def s_init(e, p, src, n, g):
    d = s_new(e, p, g)
    e.raw_copy(d, src, n, g)
    s_setlen(e, p, n, g)


def s_assign(e, p, src, n, g):
    d = s_data(e, p, g)
    e.raw_copy(d, src, n, g)
    s_setlen(e, p, n, g)


def s_append(e, p, src, n, g):
    d = s_data(e, p, g)
    l = e.bv(s_len(e, p, g), 64)
    e.raw_copy(e.padd(d, l), src, n, g)
    s_setlen(e, p, add(l, n, 64), g)


def s_fillat(e, p, pos, n, ch, g):
    ch = ext(7, 0, ch)
    for ga, o, off in e.asptr(s_data(e, p, g)).alts:
        gg = e.bdd.AND(g, ga)
        if gg and o is not e.NULL and o is not e.BAD:
            e.note_write(o, add(off, pos, 64), n)
            if isc(n) and n == 1:
                o.upd.append(U('st', gg, e.offadd(off, pos), 1, ch))
            else:
                o.upd.append(U('fn', gg, e.offadd(off, pos), n, lambda k, c=ch: c))


def umin(e, a, b):
    if isc(a) and isc(b):
        return min(a, b)
    c = e.icmp('ult', a, b, 'i64').n
    return e.merge([(c, a), (e.bdd.NOT(c), b)], 'i64')


def s_substr_into(e, dst, p, pos, n, g):
    """dst := p.substr(pos, n); -> (guard, throws)"""
    l = e.bv(s_len(e, p, g), 64)
    bad = e.icmp('ugt', pos, l, 'i64').n
    gb = e.bdd.AND(g, bad)
    throws = []
    if gb and e.feasible(gb):
        throws.append(e.throw_lib('_ZTISt12out_of_range', gb))
    g2 = e.bdd.AND(g, e.bdd.NOT(bad)) if throws else g
    if g2 and not (isc(e.zb(g2))):
        m = umin(e, n, sub(l, pos, 64))
        if not isc(m):
            m = simp(m)
        s_init(e, dst, e.padd(s_data(e, p, g2), pos), m, g2)
    return g2, throws


def s_eq(e, ld, ll, rd_, rl, g):
    le = e.icmp('eq', ll, rl, 'i64').n
    if le == 0 or not e.feasible(e.bdd.AND(g, le)):
        return B(0)
    n = ll if isc(ll) else rl
    r = eqn(e, ld, rd_, n, e.bdd.AND(g, le))
    return B(e.bdd.AND(le, r.n))


def s_find(e, hd, hl, nd, nl, pos, g):
    """index of the first occurrence of needle (nd,nl) in (hd,hl) at or after pos, else npos"""
    if isc(hl) and isc(nl) and isc(pos) and hl <= 256:
        r = M64
        for i in range(hl - nl, pos - 1, -1):
            eq = 1
            for k in range(nl):
                eq = e.bdd.AND(eq, e.icmp('eq', e.byte(hd, i + k, g), e.byte(nd, k, g), 'i8').n)
                if eq == 0:
                    break
            r = e.merge([(eq, i), (e.bdd.NOT(eq), r)], 'i64')
        return r
    if not isc(nl):
        raise Unsupported('find of a needle of symbolic length')
    i = e.fresh('find', 64)
    f = e.zb(e.fresh('found', 1).n)
    HL, P = lift(hl, 64), lift(pos, 64)

    def at(j):
        return z3.And([lift(e.byte(hd, add(j, k, 64), g), 8) == lift(e.byte(nd, k, g), 8) for k in range(nl)]) if nl else z3.BoolVal(True)
    e.assume(z3.Implies(f, z3.And(z3.UGE(i, P), z3.ULE(i, HL), z3.UGE(HL - i, nl), at(i))), g)
    e.assume(z3.Implies(z3.Not(f), i == lift(M64, 64)), g)
    k = z3.BitVec(f'q_find!{e.nextid()}', 64)

    def none_before(k):
        return z3.Implies(z3.And(z3.UGE(k, P), z3.ULT(k, z3.If(f, i, HL)), z3.ULE(k, HL), z3.UGE(HL - k, nl)), z3.Not(at(k)))
    e.assume(z3.ForAll([k], none_before(k)), g, quant=True)
    # earlier searches say what cannot stand at the place found now, and the other way round
    e.finds = [x for x in getattr(e, 'finds', []) if x[3] <= len(e.asm)]
    for i2, g2, nb2, _ in e.finds[-8:]:
        e.assume(nb2(i), e.bdd.AND(g, g2))
        e.assume(none_before(i2), e.bdd.AND(g, g2))
    if not e.dry:
        e.finds.append((i, g, none_before, len(e.asm)))
    return i


@rehook(STR + r'(basic_string|~basic_string|append|assign|operator=|operator\+=|push_back|pop_back|at|substr|compare|find|rfind|find_first_of|find_last_of|find_first_not_of|find_last_not_of|clear|resize|reserve|erase|insert|replace|swap|_M_.*|operator\[\]|back|front|shrink_to_fit)(\[abi:cxx11\])?(<[^(]*>)?\(')
def _(e, a, g, c):
    dem = c['dem']
    m = re.match(STR + r'([^(<\[]+?)(\[\])?(?:\[abi:cxx11\])?(<.*>)?\((.*)\)( const)?( &)?$', dem)
    if not m:
        raise Unsupported('string method ' + dem)
    name = m.group(1) + (m.group(2) or '')
    T = m.group(4)
    S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
    T = T.replace(S, 'S').replace('std::allocator<char>', 'A')
    for suf in (', A const&', ', A'):
        if name == 'basic_string' and T.endswith(suf):
            T = T[:-len(suf)]
    p = e.asptr(a[0])
    if name == 'basic_string':
        if T in ('', 'A const&'):
            s_new(e, p, g)
            return None
        if T == 'char const*':
            s_init(e, p, a[1], find0(e, a[1], g), g)
            return None
        if T == 'char const*, unsigned long':
            s_init(e, p, a[1], a[2], g)
            return None
        if T == 'S const&':
            s_init(e, p, s_data(e, a[1], g), s_len(e, a[1], g), g)
            return None
        if T == 'S&&':
            s_init(e, p, s_data(e, a[1], g), s_len(e, a[1], g), g)
            s_setlen(e, a[1], 0, g)
            return None
        if T == 'unsigned long, char':
            s_new(e, p, g)
            s_fillat(e, p, 0, a[1], a[2], g)
            s_setlen(e, p, a[1], g)
            return None
        if T in ('S const&, unsigned long', 'S const&, unsigned long, unsigned long'):
            g2, th = s_substr_into(e, p, a[1], a[2], a[3] if len(a) > 3 else M64, g)
            return None, g2, th
        if T in ('char*, char*', 'char const*, char const*') or 'iterator' in T:
            # iterator pair (possibly __normal_iterator passed by value as pointers)
            n = e.intsub(e.asptr(a[2]), e.asptr(a[1]), 64)
            s_init(e, p, a[1], n, g)
            return None
        if T == 'std::initializer_list<char>':
            s_init(e, p, a[1], a[2], g)
            return None
        raise Unsupported('string constructor ' + T)
    if name == '~basic_string':
        return None
    if name in ('_M_dispose', '_M_destroy', 'shrink_to_fit', 'reserve'):
        return None
    if name == '_M_data' and len(a) == 1:
        return s_data(e, p, g)
    if name in ('_M_is_local', '_M_length', '_M_set_length', '_M_check', '_M_limit'):
        if name == '_M_set_length':
            s_setlen(e, p, a[1], g)
            return None
        if name == '_M_is_local':
            return B(0)
        raise Unsupported('string method ' + dem)
    if name == 'operator[]':
        l = e.bv(s_len(e, p, g), 64)
        e.oblige('mem', 'string index within [0, size]', g, e.icmp('ule', a[1], l, 'i64'))
        return e.padd(s_data(e, p, g), a[1])
    if name == 'at':
        l = e.bv(s_len(e, p, g), 64)
        ok = e.icmp('ult', a[1], l, 'i64').n
        gb = e.bdd.AND(g, e.bdd.NOT(ok))
        th = []
        if gb and e.feasible(gb):
            th.append(e.throw_lib('_ZTISt12out_of_range', gb))
        return e.padd(s_data(e, p, g), a[1]), e.bdd.AND(g, ok) if th else g, th
    if name in ('front', 'back'):
        l = e.bv(s_len(e, p, g), 64)
        if name == 'front':
            return s_data(e, p, g)       # s[0] is the terminator when empty (assertions are off)
        e.oblige('mem', f'string::{name} on a non-empty string', g, e.icmp('ne', l, 0, 'i64'))
        return e.padd(s_data(e, p, g), sub(l, 1, 64))
    if name in ('append', 'operator+='):
        if T == 'char const*':
            s_append(e, p, a[1], find0(e, a[1], g), g)
        elif T == 'char const*, unsigned long':
            s_append(e, p, a[1], a[2], g)
        elif T == 'S const&':
            s_append(e, p, s_data(e, a[1], g), s_len(e, a[1], g), g)
        elif T == 'char':
            l = e.bv(s_len(e, p, g), 64)
            s_fillat(e, p, l, 1, a[1], g)
            s_setlen(e, p, add(l, 1, 64), g)
        elif T == 'unsigned long, char':
            l = e.bv(s_len(e, p, g), 64)
            s_fillat(e, p, l, a[1], a[2], g)
            s_setlen(e, p, add(l, a[1], 64), g)
        elif T == 'S const&, unsigned long, unsigned long':
            tmp = Ptr([(1, e.newobj('tmpstr', 32, 'stack'), 0)])
            g2, th = s_substr_into(e, tmp, a[1], a[2], a[3], g)
            s_append(e, p, s_data(e, tmp, g2), s_len(e, tmp, g2), g2)
            return p, g2, th
        else:
            raise Unsupported('string append ' + T)
        return p
    if name == 'push_back':
        l = e.bv(s_len(e, p, g), 64)
        s_fillat(e, p, l, 1, a[1], g)
        s_setlen(e, p, add(l, 1, 64), g)
        return None
    if name == 'pop_back':
        l = e.bv(s_len(e, p, g), 64)
        e.oblige('mem', 'pop_back on a non-empty string', g, e.icmp('ne', l, 0, 'i64'))
        s_setlen(e, p, sub(l, 1, 64), g)
        return None
    if name in ('assign', 'operator='):
        if T == 'char const*':
            s_assign(e, p, a[1], find0(e, a[1], g), g)
        elif T == 'char const*, unsigned long':
            s_assign(e, p, a[1], a[2], g)
        elif T == 'S const&':
            s_assign(e, p, s_data(e, a[1], g), s_len(e, a[1], g), g)
        elif T == 'S&&':
            s_assign(e, p, s_data(e, a[1], g), s_len(e, a[1], g), g)
            q = e.asptr(a[1])
            if not any(o is o2 for _, o, _ in q.alts for _, o2, _ in p.alts):
                s_setlen(e, a[1], 0, g)
        elif T == 'char':
            s_fillat(e, p, 0, 1, a[1], g)
            s_setlen(e, p, 1, g)
        elif T == 'unsigned long, char':
            s_fillat(e, p, 0, a[1], a[2], g)
            s_setlen(e, p, a[1], g)
        else:
            raise Unsupported('string assign ' + T)
        return p
    if name == 'clear':
        s_setlen(e, p, 0, g)
        return None
    if name == 'resize':
        l = e.bv(s_len(e, p, g), 64)
        n = a[1]
        ch = a[2] if len(a) > 2 else 0
        more = e.icmp('ugt', n, l, 'i64').n
        gm = e.bdd.AND(g, more)
        if gm:
            s_fillat(e, p, l, sub(n, l, 64), ch, gm)
        s_setlen(e, p, n, g)
        return None
    if name == 'substr':
        g2, th = s_substr_into(e, a[0], a[1], a[2], a[3], g)
        return None, g2, th
    if name == 'compare':
        if T == 'char const*':
            rd_, rl = a[1], find0(e, a[1], g)
        elif T == 'S const&':
            rd_, rl = s_data(e, a[1], g), s_len(e, a[1], g)
        else:
            raise Unsupported('string compare ' + T)
        ll = e.bv(s_len(e, p, g), 64)
        n = umin(e, ll, rl)
        r = cmpn(e, s_data(e, p, g), rd_, n, g)
        z = e.icmp('eq', r, 0, 'i32').n
        lt = e.icmp('ult', ll, rl, 'i64').n
        eq = e.icmp('eq', ll, rl, 'i64').n
        tail = e.merge([(lt, 0xffffffff), (eq, 0), (e.bdd.NOT(e.bdd.OR(lt, eq)), 1)], 'i32')
        return e.merge([(z, tail), (e.bdd.NOT(z), r)], 'i32')
    if name == 'find':
        hl = e.bv(s_len(e, p, g), 64)
        hd = s_data(e, p, g)
        if T == 'S const&, unsigned long':
            return s_find(e, hd, hl, s_data(e, a[1], g), e.bv(s_len(e, a[1], g), 64), a[2], g)
        if T == 'char const*, unsigned long':
            return s_find(e, hd, hl, a[1], find0(e, a[1], g), a[2], g)
        if T == 'char, unsigned long':
            t = e.newobj('ch', 1, 'stack')
            t.upd.append(U('st', 1, 0, 1, a[1]))
            return s_find(e, hd, hl, Ptr([(1, t, 0)]), 1, a[2], g)
        raise Unsupported('string find ' + T)
    if name == 'erase' and T == 'unsigned long, unsigned long':
        l = e.bv(s_len(e, p, g), 64)
        pos, n = a[1], a[2]
        bad = e.icmp('ugt', pos, l, 'i64').n
        gb = e.bdd.AND(g, bad)
        th = []
        if gb and e.feasible(gb):
            th.append(e.throw_lib('_ZTISt12out_of_range', gb))
        g2 = e.bdd.AND(g, e.bdd.NOT(bad)) if th else g
        m_ = umin(e, n, sub(l, pos, 64))
        d = s_data(e, p, g2)
        rest = sub(sub(l, pos, 64), m_, 64)
        e.raw_copy(e.padd(d, pos), e.padd(d, add(pos, m_, 64)), rest, g2)
        s_setlen(e, p, sub(l, m_, 64), g2)
        return p, g2, th
    if name == 'erase':
        raise Unsupported('string erase ' + T)
    if name in ('replace', 'insert'):
        l = e.bv(s_len(e, p, g), 64)
        pos = a[1]
        if name == 'replace' and T == 'unsigned long, unsigned long, S const&':
            n, rd_, rl = a[2], s_data(e, a[3], g), e.bv(s_len(e, a[3], g), 64)
        elif name == 'replace' and T == 'unsigned long, unsigned long, char const*':
            n, rd_, rl = a[2], a[3], find0(e, a[3], g)
        elif name == 'insert' and T == 'unsigned long, S const&':
            n, rd_, rl = 0, s_data(e, a[2], g), e.bv(s_len(e, a[2], g), 64)
        elif name == 'insert' and T == 'unsigned long, char const*':
            n, rd_, rl = 0, a[2], find0(e, a[2], g)
        elif name == 'insert' and T == 'unsigned long, unsigned long, char':
            t = e.newobj('fill', a[2], 'stack')
            ch = ext(7, 0, a[3])
            t.base = lambda k, ch=ch: ch
            n, rd_, rl = 0, Ptr([(1, t, 0)]), a[2]
        else:
            raise Unsupported(f'string {name} {T}')
        bad = e.icmp('ugt', pos, l, 'i64').n
        gb = e.bdd.AND(g, bad)
        th = []
        if gb and e.feasible(gb):
            th.append(e.throw_lib('_ZTISt12out_of_range', gb))
        g2 = e.bdd.AND(g, e.bdd.NOT(bad)) if th else g
        m_ = umin(e, n, sub(l, pos, 64))
        d = s_data(e, p, g2)
        rest = sub(sub(l, pos, 64), m_, 64)
        # replacement bytes are read from a snapshot taken before the tail moves
        tmp = e.newobj('repl', None, 'stack')
        e.raw_copy(Ptr([(1, tmp, 0)]), rd_, rl, g2)
        e.raw_copy(e.padd(d, add(pos, rl, 64)), e.padd(d, add(pos, m_, 64)), rest, g2)
        e.raw_copy(e.padd(d, pos), Ptr([(1, tmp, 0)]), rl, g2)
        s_setlen(e, p, add(sub(l, m_, 64), rl, 64), g2)
        return p, g2, th
    if name == 'swap':
        q = e.asptr(a[1])
        pd, pl, qd, ql = s_data(e, p, g), s_len(e, p, g), s_data(e, q, g), s_len(e, q, g)
        e.store(p, qd, 8, g)
        e.store(e.padd(p, 8), ql, 8, g)
        e.store(q, pd, 8, g)
        e.store(e.padd(q, 8), pl, 8, g)
        return None
    raise Unsupported('string method ' + dem)


@rehook(r'^(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>|.*basic_string<char, std::char_traits<char>, std::allocator<char>>) std::operator\+')
def _(e, a, g, c):
    S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
    T = c['dem'].split('std::operator+', 1)[1]
    T = T[T.index('('):].strip()[1:-1].replace(S, 'S') if not T.startswith('<') else T[T.rindex('>(') + 1:][1:-1].replace(S, 'S')
    parts = [x.strip() for x in T.split(',')]
    p = e.asptr(a[0])
    s_new(e, p, g)
    for t, x in zip(parts, a[1:]):
        if t.startswith('S'):
            s_append(e, p, s_data(e, x, g), s_len(e, x, g), g)
        elif t == 'char const*':
            s_append(e, p, x, find0(e, x, g), g)
        elif t == 'char':
            l = e.bv(s_len(e, p, g), 64)
            s_fillat(e, p, l, 1, x, g)
            s_setlen(e, p, add(l, 1, 64), g)
        else:
            raise Unsupported('operator+ ' + t)
    return None


@rehook(r'^bool std::operator(==|!=|<|>)<char(, std::char_traits<char>, std::allocator<char>)? ?>\(')
def _(e, a, g, c):
    S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
    m = re.match(r'^bool std::operator(==|!=|<|>)<[^(]*>\((.*)\)', c['dem'])
    T = [x.strip() for x in m.group(2).replace(S, 'S').split(',')]
    if not all(t in ('S const&', 'char const*') for t in T):
        return NOHOOK

    def dl(t, x):
        if t == 'char const*':
            return x, find0(e, x, g)
        return s_data(e, x, g), e.bv(s_len(e, x, g), 64)
    ld, ll = dl(T[0], a[0])
    rd_, rl = dl(T[1], a[1])
    op = m.group(1)
    if op in ('==', '!='):
        r = s_eq(e, ld, ll, rd_, rl, g)
        return r if op == '==' else B(e.bdd.NOT(r.n))
    raise Unsupported('string order')


@rehook(r'^std::__cxx11::to_string\(|^std::to_string\(')
def _(e, a, g, c):
    p = e.asptr(a[0])
    v = a[1]
    t = re.search(r'to_string\(([^)]*)\)', c['dem']).group(1)
    w = 32 if t in ('int', 'unsigned int') else 64
    if isc(v):
        s = str(sgn(v, w) if 'unsigned' not in t else v & ((1 << w) - 1)).encode()
        o = e.newobj('dec', len(s), 'const')
        o.base = lambda k, s=s: s[k] if isc(k) and k < len(s) else 0
        s_init(e, p, Ptr([(1, o, 0)]), len(s), g)
        return None
    v = zext(v, w, 64) if 'unsigned' in t else sext(v, w, 64)
    ln = z3.Function('dec_len_' + t.replace(' ', '_'), z3.BitVecSort(64), z3.BitVecSort(64))(v)
    f = uf8('dec_' + t.replace(' ', '_'))
    o = e.newobj('dec', None, 'const')
    o.base = lambda k, f=f, v=v: f(v, lift(k, 64))
    e.assume(z3.And(z3.UGE(ln, 1), z3.ULE(ln, 20)), g)
    s_init(e, p, Ptr([(1, o, 0)]), ln, g)
    return None


# ---------------- std::stringstream used as a formatter: text at offset 64 of the object, then base, width and fill
SS = r'std::(__cxx11::)?basic_[io]*stringstream<char, std::char_traits<char>, std::allocator<char>>'


def ss_at(e, p, off):
    return Ptr([(ga, o, off) for ga, o, _ in e.asptr(p).alts])


@rehook(r'^' + SS + r'::basic_[io]*stringstream\(\)$')
def _(e, a, g, c):
    p = e.asptr(a[0])
    s_init(e, ss_at(e, p, 64), ss_at(e, p, 64), 0, g)
    e.store(ss_at(e, p, 96), 10, 4, g)
    e.store(ss_at(e, p, 100), 0, 4, g)
    e.store(ss_at(e, p, 104), 32, 1, g)
    return None


@rehook(r'^' + SS + r'::~basic_[io]*stringstream\(\)$')
def _(e, a, g, c):
    return None


@rehook(r'^' + SS + r'::str(\[abi:cxx11\])?\(\) const')
def _(e, a, g, c):
    q = ss_at(e, a[1], 64)
    s_init(e, e.asptr(a[0]), s_data(e, q, g), e.bv(s_len(e, q, g), 64), g)
    return None


def ss_put(e, p, parts, n, g):
    """append n characters (n concrete), padded to the width"""
    w = e.bv(e.load(ss_at(e, p, 100), 4, g), 32)
    fill = e.bv(e.load(ss_at(e, p, 104), 1, g), 8)
    if not isc(w):
        raise Unsupported('stream width')
    q = ss_at(e, p, 64)
    for _ in range(max(0, w - n)):
        l = e.bv(s_len(e, q, g), 64)
        s_fillat(e, q, l, 1, fill, g)
        s_setlen(e, q, add(l, 1, 64), g)
    for ch in parts:
        l = e.bv(s_len(e, q, g), 64)
        s_fillat(e, q, l, 1, ch, g)
        s_setlen(e, q, add(l, 1, 64), g)
    e.store(ss_at(e, p, 100), 0, 4, g)
    return p


@rehook(r'(^| )std::operator<<.*\(std::(basic_ostream<char, std::char_traits<char>>|ostream)&, (.*)\)$')
def _(e, a, g, c):
    t = re.search(r'&, (.*)\)$', c['dem']).group(1)
    p = e.asptr(a[0])
    if t == 'std::_Setw':
        e.store(ss_at(e, p, 100), a[1], 4, g)
        return p
    if t.startswith('std::_Setfill'):
        e.store(ss_at(e, p, 104), a[1], 1, g)
        return p
    if t == 'char const*':
        n = find0(e, a[1], g)
        if not isc(n):
            raise Unsupported('<< of a text of symbolic length')
        return ss_put(e, p, [e.byte(a[1], k, g) for k in range(n)], n, g)
    if t == 'char':
        return ss_put(e, p, [ext(7, 0, e.bv(a[1], 8))], 1, g)
    return NOHOOK


@rehook(r'^std::(basic_ostream<char, std::char_traits<char>>|ostream)::operator<<\((.*)\)$')
def _(e, a, g, c):
    t = re.search(r'operator<<\((.*)\)$', c['dem']).group(1)
    p = e.asptr(a[0])
    if t == 'std::ios_base& (*)(std::ios_base&)':
        f = e.asptr(a[1]).alts[0][1].name
        for nm, b in (('3hex', 16), ('3dec', 10), ('3oct', 8)):
            if nm in f:
                e.store(ss_at(e, p, 96), b, 4, g)
                return p
        raise Unsupported('stream manipulator ' + f)
    w = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'short': 16, 'unsigned short': 16}.get(t)
    base = e.bv(e.load(ss_at(e, p, 96), 4, g), 32)
    if w is None or base != 16:
        raise Unsupported('stream output of ' + t)
    v = e.bv(a[1], w)
    n = w // 4
    width = e.bv(e.load(ss_at(e, p, 100), 4, g), 32)
    fill = e.bv(e.load(ss_at(e, p, 104), 1, g), 8)

    def dig(k):
        x = ext(4 * k + 3, 4 * k, v)
        if isc(x):
            return ord('0123456789abcdef'[x])
        x8 = zext(x, 4, 8)
        return z3.If(z3.ULT(lift(x8, 8), 10), lift(x8, 8) + 48, lift(x8, 8) + 87)
    if isc(v):
        s = '%x' % (v & ((1 << w) - 1))
        return ss_put(e, p, [ord(x) for x in s], len(s), g)
    if width == n and fill == 48:
        e.store(ss_at(e, p, 100), 0, 4, g)
        return ss_put(e, p, [dig(k) for k in range(n - 1, -1, -1)], n, g)
    raise Unsupported('hexadecimal output without full zero padding')


# ---------------- std::vector<scalar>::resize with a size that is not a constant: the buffer grows in place (as strings do)
ESIZE = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8}


@rehook(r'^std::vector<((unsigned |signed )?(char|short|int|long)), std::allocator<\1>>::resize\(unsigned long\)')
def _(e, a, g, c):
    p, n, throws = a[0], a[1], []
    es = ESIZE[c['dem'].split('<')[1].split(',')[0]]
    n = simp(n) if not isc(n) else n
    beg = e.load(p, 8, g, 'p')
    if isc(n) and not any(hasattr(o, 'vecaux') for _, o, _ in e.asptr(beg).alts):
        sz = e.intsub(e.load(e.padd(p, 8), 8, g, 'p'), beg, 64)
        if isc(sz):
            return NOHOOK
    if not isc(n):
        bad = e.icmp('ugt', n, ((1 << 63) - 1) // es, 'i64').n
        gb = e.bdd.AND(g, bad)
        if gb and e.feasible(gb):
            throws.append(e.throw_lib('_ZTISt12length_error', gb))
            g = e.bdd.AND(g, e.bdd.NOT(bad))
        e.assume(z3.ULE(n, 1 << 40), g)
    n = mul(n, es, 64)
    n = simp(n) if not isc(n) else n
    old = e.intsub(e.load(e.padd(p, 8), 8, g, 'p'), beg, 64)
    out = []
    fresh = 0
    for ga, o, off in e.asptr(beg).alts:
        gg = e.bdd.AND(g, ga)
        if gg == 0:
            continue
        if hasattr(o, 'vecaux'):
            out.append((gg, o, off))
        else:
            fresh = e.bdd.OR(fresh, gg)
    if fresh:
        o = e.newobj('vec', None, 'heap')
        aux = e.newobj('veclen', 8, 'aux')
        aux.base = lambda k: 0
        o.vecaux = aux
        o.base = lambda k: 0
        o.dyn = lambda gg, e=e, aux=aux: e.bv(e.rd(aux, 0, 8, gg), 64)
        np = Ptr([(1, o, 0)])
        e.raw_copy(np, beg, umin(e, old, n), fresh)
        out.append((fresh, o, 0))
    grow = e.icmp('ugt', n, old, 'i64').n
    for gg, o, off in out:
        e.note_write(o.vecaux, 0, 8)
        o.vecaux.upd.append(U('st', gg, 0, 8, n))
        gz = e.bdd.AND(gg, grow)
        if gz:
            e.note_write(o, old, sub(n, old, 64))
            o.upd.append(U('fn', gz, old, sub(n, old, 64), lambda k: 0))
    np = e.merge([(gg, Ptr([(1, o, 0)])) for gg, o, off in out], 'p')
    e.store(p, np, 8, g)
    e.store(e.padd(p, 8), e.padd(np, n), 8, g)
    e.store(e.padd(p, 16), e.padd(np, n), 8, g)
    return (None, g, throws) if throws else None


# ---------------- diagnostics: messages and details of exceptions have no effect on the results
@rehook(r'^(MessageDetails::~MessageDetails\(|MessageDetails& MessageDetails::with<|MessageDetails::with\(|MessageRegistrator::Add(Debug)?Message\(|MessageRegistrator::AddError\(|Registrator::Status\(|Registrator::Add|DetailedException::add_detail\(|DetailedException& DetailedException::add_detail<|DetailedException::show\()')
def _(e, a, g, c):
    return a[0] if a and ('with' in c['dem'] or 'add_detail' in c['dem']) else None


@rehook(r'^(System::Classes::)?GetTickCount\(\)')
def _(e, a, g, c):
    return e.fresh('tick', 32)
