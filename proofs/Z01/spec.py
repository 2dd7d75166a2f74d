import z3
from bv import lift
from vcg import LoopSpec, SpecMismatch
TUS = ['UZLib.cpp', 'SystemClasses/TStream.cpp', 'SystemClasses/TMemoryStream.cpp', 'SystemClasses/String.cpp']


def u64(x):
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def common(L):
    g = {n: L.glob(f'_ZL{len(n)}{n}', 8) for n in ('IN_N', 'OUT_N', 'taken', 'made', 'written', 'at_read', 'chunk_n')}
    out = [('all written', g['made'] == g['written']), ('inside', z3.And(z3.ULE(g['at_read'], g['IN_N']), z3.ULE(g['made'], g['OUT_N']))),
           ('no failure', L.glob('_ZL6failed', 1) == 0)]
    return g, out


def outer(L):
    g, out = common(L)
    return out + [('all taken', g['taken'] == g['at_read']), ('not ended', L.glob('_ZL5ended', 1) == 0), ('not finishing', L.glob('_ZL9finishing', 1) == 0), ('open', L.glob('_ZL5open_', 1) == 1)]


def outer_inflate(L):
    g, out = common(L)
    return out + [('all taken', g['taken'] == g['at_read']), ('more to come', z3.ULT(g['taken'], g['IN_N'])), ('not ended', L.glob('_ZL5ended', 1) == 0), ('open', L.glob('_ZL5open_', 1) == 1)]


def asked(L):
    """what the loop asks deflate for, if it is the same in every iteration"""
    for b in L.fr.f['blocks']:
        for i in b['ins']:
            if i['op'] in ('call', 'invoke') and i.get('fn') == 'deflate':
                a = i['args'][1]
                v = L.e.val(L.fr, a)
                return None if v is None else lift(L.e.bv(v, 32), 32)
    return None


def inner(inflate):
    def inv(L):
        g, out = common(L)
        s = L.glob('_ZL1S', 8)
        left = u64(L.u(s, 4, 8))
        nxt, chunk = L.u(s, 8, 0), L.glob('_ZL5chunk', 8)
        ended, fin = L.glob('_ZL5ended', 1), L.glob('_ZL9finishing', 1)
        out += [('input left', z3.And(z3.ULE(left, g['chunk_n']), g['taken'] + left == g['at_read'])),
                ('next input', L.poff(nxt) + left == L.poff(chunk) + g['chunk_n']), ('open', L.glob('_ZL5open_', 1) == 1)]
        if inflate:
            return out + [('ended', z3.Implies(ended != 0, z3.And(g['taken'] == g['IN_N'], g['made'] == g['OUT_N'])))]
        flush = asked(L)
        if flush is not None:
            out += [('finishing', z3.Implies(fin != 0, flush == 4)), ('flush', z3.Or(flush == 4, flush == 0)), ('last', z3.Implies(flush == 4, g['at_read'] == g['IN_N']))]
        out.append(('ended', z3.Implies(ended != 0, z3.And(fin != 0, g['taken'] == g['IN_N'], g['made'] == g['OUT_N']))))
        return out
    return inv


def top(e, fr, l):
    return l['parent'] == -1


def nested(e, fr, l):
    return l['parent'] != -1


PACK = [(r'^ZDeflateStream\(', top, LoopSpec(outer)), (r'^ZDeflateStream\(', nested, LoopSpec(inner(False)))]
UNPACK = [(r'^ZInflateStream\(', top, LoopSpec(outer_inflate, objs=[])), (r'^ZInflateStream\(', nested, LoopSpec(inner(True)))]
ENTRIES = {
    'proof_pack': dict(what='packing: every size up to 2^40, every behaviour of deflate its documentation allows', loops=PACK),
    'proof_unpack': dict(what='unpacking a packed stream of any size up to 2^40', loops=UNPACK),
    'proof_damaged': dict(what='unpacking when inflate reports an error at any point', loops=UNPACK),
}
ASSUMPTIONS = ['deflate and inflate of zlib are given by their documentation (next input taken in order, next output given in order, all input taken when room is left, end after the last byte)',
               'the source stream reads in full except at its end, the target stream writes in full (M01)',
               'zlib finds its own packed streams well formed: unpacking what was packed gives the same bytes']
