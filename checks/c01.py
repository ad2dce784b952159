"""C01: decoding of IBM System/360 single-precision floats is exact for every bit pattern."""
import math
from segpy.ibm_float import IBMFloat, ibm2ieee
from segpy.ibm_float_packer import unpack_ibm_floats

BOUNDS = {'quick': 'all 2^32 four-byte patterns; buffers of 1..3 values for the bulk decoder'}
OUTSIDE = 'the optional C++ packer extension (not installed here); buffers of more than 3 values'


def spec(b):
    """(-1)^s * 0.fraction * 16^(e-64), from the published format, as sign and integer scaled by 2**280"""
    m = b[1] * 65536 + b[2] * 256 + b[3]
    e = b[0] & 0x7f
    return b[0] >= 128, m, e


def exact_is(h, x, b, what):
    """x (a float) is exactly m * 2**(4e-280) with the sign of b"""
    neg, m, e = spec(b)
    bits = h.f64bits(x)
    mag = bits & ((1 << 63) - 1)
    frac = (mag & ((1 << 52) - 1)) | (1 << 52)
    ex = mag >> 52                                  # biased; value = frac * 2**(ex-1075)
    # frac * 2**(ex-1075) == m * 2**(4e-280)   <=>   frac == m << (4e + 795 - ex)   with 29 <= shift <= 52
    sh = 4 * e + 795 - ex
    if m == 0:
        h.check(mag == 0, what + ': a zero fraction decodes to zero')
    else:
        h.check(h.both(sh >= 29, sh <= 52), what + ': scale')
        sh = h.realise(sh) if not h.symbolic else sh
        h.check((m << (sh & 63)) == frac, what + ': exact magnitude')
        h.check((bits >= (1 << 63)) == neg, what + ': sign')


def decode(h):
    b = h.bytes('b', 4)
    x = ibm2ieee(b)
    h.observe('x', x)
    exact_is(h, x, b, 'ibm2ieee')


def decode_object(h):
    b = h.bytes('b', 4)
    x = float(IBMFloat.from_bytes(b))
    h.observe('x', x)
    exact_is(h, x, b, 'float(IBMFloat)')
    h.check(bytes(IBMFloat(b)) == b, 'bytes are preserved')


def bulk(h, n):
    b = h.bytes('b', 4 * n)
    k = h.int('k', 0, n - 1)
    k = h.realise(k)
    xs = unpack_ibm_floats(b, n)
    h.check(len(xs) == n, 'one value per four bytes')
    x = float(xs[k])
    h.observe('x', x)
    exact_is(h, x, b[4 * k:4 * k + 4], 'bulk decode')


def extra(h):
    """bytes after the first four of a value are not looked at"""
    b = h.bytes('b', 6)
    x = ibm2ieee(b)
    h.observe('x', x)
    exact_is(h, x, b[:4], 'ibm2ieee of a longer buffer')


def jobs(tier):
    J = [dict(name='ibm2ieee', fn='decode', params={}), dict(name='IBMFloat', fn='decode_object', params={}),
         dict(name='longer', fn='extra', params={})]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 6):
        J.append(dict(name='bulk%d' % n, fn='bulk', params={'n': n}))
    return J
