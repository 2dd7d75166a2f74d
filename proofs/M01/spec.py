import z3
from vcg import LoopSpec
TUS = ['SystemClasses/TMemoryStream.cpp', 'SystemClasses/TStream.cpp']


def write_inv(L):
    """TMemoryStream::Write(void const*, long): done bytes are in place, the others are as before"""
    this, src = L.reg('this'), L.reg('Buffer')
    pos, pos0 = L.u(this, 8, 8), L.oldu(this, 8, 8)
    cnt = L.val('Count', 64)
    done = pos - pos0
    d = L.u(this, 8, 24)

    def at(k):
        written = z3.And(z3.UGE(k, pos0), z3.ULT(k, pos))
        return z3.And(z3.Implies(written, L.byte(d, k) == L.byte(src, k - pos0)), z3.Implies(z3.Not(written), L.byte(d, k) == L.old(d, k)))
    return [('progress', z3.And(done >= 0, done <= cnt)), *L.affine(done), ('forall', 'bytes', at)]


WRITE = (r'TMemoryStream::Write\(void const\*, long\)', None, LoopSpec(write_inv))
ENTRIES = {
    'proof_read': dict(what='Read: streams up to 2^32 bytes, any position and count'),
    'proof_write': dict(what='Write: streams up to 2^32 bytes, any position and count', loops=[WRITE], fallback='proof_write_small'),
    'proof_write_small': dict(what='Write, loop unrolled', level='bounded', bound='writes of 0..5 bytes into any stream at any position'),
    'proof_copy': dict(what='CopyFrom: any two streams, positions and count', loops=[WRITE], fallback='proof_copy_small'),
    'proof_copy_all': dict(what='CopyFrom with count zero: the whole source', loops=[WRITE], fallback='proof_copy_small'),
    'proof_copy_none': dict(what='CopyFrom when nothing is left in the source', loops=[WRITE], fallback='proof_copy_small'),
    'proof_copy_small': dict(what='CopyFrom, loops unrolled', level='bounded', bound='sources of 0..3 bytes, counts 0..4'),
    'proof_string': dict(what='WriteString: any text', loops=[WRITE], fallback='proof_write_small'),
    'proof_vector': dict(what='Read into a vector'),
    'proof_roundtrip': dict(what='Write, Seek, Read', loops=[WRITE], fallback='proof_write_small'),
    'proof_bytes': dict(what='TBytesStream', loops=[WRITE], fallback='proof_write_small'),
    'proof_seek': dict(what='Seek: every offset and origin'),
    'proof_size': dict(what='SetSize: every old and new size'),
}
