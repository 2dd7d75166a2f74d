import z3
from vcg import LoopSpec
TUS = ['CRC32.cpp', 'SystemClasses/TMemoryStream.cpp', 'SystemClasses/TStream.cpp']
F_ = z3.Function('uf_F', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


def F(k):
    return z3.Extract(31, 0, F_(k, z3.BitVecVal(0, 64)))


def step(r, b):
    r = r ^ z3.ZeroExt(24, b)
    for _ in range(8):
        r = z3.If(z3.Extract(0, 0, r) == 1, z3.LShR(r, 1) ^ 0xEDB88320, z3.LShR(r, 1))
    return r


def outer(L):
    """before every chunk: the remainder is that of the bytes read so far"""
    s = L.reg('str')
    pos = L.u(s, 8, 8)
    size = L.poff(L.u(s, 8, 32)) - L.poff(L.u(s, 8, 24))
    return [('position', z3.ULE(pos, size)), ('remainder', L.u(L.reg('result'), 4) == F(pos))]


def inner(L):
    """inside a chunk: done of its bytes are accounted for"""
    s = L.e.crc_str
    p = L.phi(['new_dividend_bytes.addr', 'p', 'new_dividend_bytes'])
    p0 = L.phi0(['new_dividend_bytes.addr', 'p', 'new_dividend_bytes'])
    done = L.poff(p) - L.poff(p0)
    cnt = L.val('new_dividend_byte_count', 64)
    k = L.u(s, 8, 8) - cnt + done
    if L is not L.pre and not hasattr(L, 'head'):
        L.e.assume(F(k + 1) == step(F(k), L.byte(L.u(s, 8, 24), k)), L.g)
    rem = L.phi(['remainder.addr', 'remainder'])
    return [('progress', z3.And(done >= 0, done <= cnt)), ('count', L.phi(['new_dividend_byte_count.addr', 'new_dividend_byte_count']) == cnt - done),
            ('remainder', rem == F(k))]


def sel(e, fr, l):
    if 'n' not in e.inputs:
        return False    # the warm-up call is executed as it is
    for a in fr.f['args']:
        if a['name'] == 'str':
            e.crc_str = fr.regs[a['id']]
    return True


ENTRIES = {
    'proof_crc': dict(what='streams of any size up to 2^31 at any position', fallback='proof_small',
                      loops=[(r'^_crc32\(', sel, LoopSpec(outer)), (r'reflected_byte_table_driven_crcs<.*crc_update', sel, LoopSpec(inner, name='i'))]),
    'proof_step': dict(what='the step of the definition'),
    'proof_small': dict(what='loops unrolled', level='bounded', bound='0..1 bytes, all values'),
    'proof_long': dict(what='chunk boundaries', level='bounded', bound='one byte pattern of 1023, 1024, 1025 and 2048 bytes', unroll=3000),
}
ASSUMPTIONS = ['F(k), the remainder after k bytes, is defined by F(0)=ffffffff, F(k+1)=step(F(k), byte k); the instance of the second equation needed by the loop invariant is assumed']
