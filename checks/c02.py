"""C02: encoding a number as an IBM float keeps sign and value to within one unit in the last place, or refuses loudly."""
import math
from segpy.ibm_float import IBMFloat, ieee2ibm
from segpy.ibm_float_packer import pack_ibm_floats
from checks.ibmspec import fields, bits_fields

BOUNDS = {'quick': 'all 2^64 double bit patterns; all integers of magnitude up to 2^62; all float32 patterns; sequences of up to 2 values',
          'thorough': 'all 2^64 double bit patterns; all integers of magnitude up to 2^62; all float32 patterns; sequences of up to 3 values'}
OUTSIDE = 'the optional C++ packer extension (not installed here); longer sequences of values; integers beyond 62 bits'

MAXV = 0x4FAFFFFFE0000000      # bits of (1 - 2**-24) * 2**252
TINY = (1023 - 280) << 52      # bits of 2**-280, the least magnitude an IBM float can hold


def close(h, f, b, what):
    """b encodes f to within one unit in the last place of the IBM format (f: a double of magnitude 2**-280 .. max)"""
    neg, M, e = fields(b)
    sf, ex, fr, mag = bits_fields(h, f)
    m53 = fr | (1 << 52)
    best = (ex - 1022 + 3 + 4096) // 4 - 1024 + 64      # least e16 with |f| < 16**e16, biased by 64
    best = h.ite(best < 0, 0, best)
    sh = 4 * e + 795 - ex
    ush = 4 * best + 795 - ex
    h.check(h.both(sh >= 0, sh <= 63), what + ': scale')
    v = M << (sh & 63)
    ulp = 1 << (ush & 63)
    err = v - m53
    h.check(h.both(err < ulp, err > -ulp), what + ': within one unit in the last place')
    h.check(h.implies((m53 & (ulp - 1)) == 0, err == 0), what + ': representable values are encoded exactly')
    h.check(sf == neg, what + ': sign')


def outcome(f, fn):
    try:
        return 'ok', fn(f)
    except FloatingPointError:
        return 'underflow', None
    except OverflowError:
        return 'overflow', None
    except ValueError:
        return 'value', None


def judge(h, f, kind, b, what):
    sf, ex, fr, mag = bits_fields(h, f)
    if kind == 'ok':
        h.check(h.either(mag == 0, h.both(mag >= TINY, mag <= MAXV)), what + ': only representable numbers are encoded')
        if mag == 0:
            h.check(fields(b)[1] == 0, what + ': zero')
        else:
            close(h, f, b, what)
    elif kind == 'value':
        h.check(ex == 2047, what + ': ValueError only for NaN and infinities')
    elif kind == 'overflow':
        h.check(h.both(mag > MAXV, ex < 2047), what + ': OverflowError only beyond the largest magnitude')
    else:
        h.check(h.both(mag > 0, mag < TINY), what + ': FloatingPointError only below the least magnitude')


def encode(h):
    f = h.float('f')
    kind, b = outcome(f, ieee2ibm)
    h.observe('kind', kind)
    h.observe('b', b)
    if kind == 'ok':
        h.check(len(b) == 4, 'four bytes')
    judge(h, f, kind, b, 'ieee2ibm')


def encode_object(h):
    f = h.float('f')
    kind, b = outcome(f, lambda f: bytes(IBMFloat.from_float(f)))
    h.observe('kind', kind)
    h.observe('b', b)
    judge(h, f, kind, b, 'IBMFloat.from_float')


def encode_float32(h):
    f = h.float32('f')
    kind, b = outcome(f, ieee2ibm)
    h.observe('kind', kind)
    h.observe('b', b)
    judge(h, f, kind, b, 'ieee2ibm of a float32')


def without_underflow(h):
    f = h.float('f')
    kind, b = outcome(f, lambda f: bytes(IBMFloat.from_float_without_underflow(f)))
    h.observe('kind', kind)
    h.observe('b', b)
    sf, ex, fr, mag = bits_fields(h, f)
    h.check(kind != 'underflow', 'never reports underflow')
    if kind == 'ok':
        if h.both(mag > 0, mag < TINY):
            h.check(fields(b)[1] == 0, 'underflow gives zero')
            return
    judge(h, f, kind, b, 'from_float_without_underflow')


def integers(h, bits):
    n = h.int('n', -(1 << bits), 1 << bits)
    b = ieee2ibm(n)
    h.observe('b', b)
    neg, M, e = fields(b)
    if n == 0:
        h.check(M == 0, 'integer zero')
        return
    a = h.ite(n < 0, -n, n)
    h.check(neg == (n < 0), 'integer sign')
    # value of b is M * 2**(4e-280): compare against a, both scaled by 2**24
    h.check(h.both(e >= 65, e <= 64 + bits // 4 + 2), 'integer exponent')
    k = 4 * (e - 64)
    v = M << (k & 127)
    h.check(h.both(v >= 0, M < (1 << 24)), 'integer fraction')
    A = a << 24
    ulp = 1 << (k & 127)
    h.check(h.both(v - A < ulp, A - v < ulp), 'integer within one unit in the last place of the chosen exponent')
    h.check(h.either(M >= (1 << 20), v == A), 'integer precision is not wasted')


def bulk(h, n):
    fs = [h.float('f%d' % i) for i in range(n)]
    kind, b = outcome(fs, lambda fs: pack_ibm_floats(fs))
    h.observe('kind', kind)
    h.observe('b', b)
    if kind != 'ok':
        bad = []
        for f in fs:
            sf, ex, fr, mag = bits_fields(h, f)
            bad.append(h.either(ex == 2047, mag > MAXV, h.both(mag > 0, mag < TINY)))
        h.check(h.either(*bad), 'a sequence is refused only if a value in it is not representable')
        return
    h.check(len(b) == 4 * n, 'four bytes per value')
    for i, f in enumerate(fs):
        judge(h, f, 'ok', b[4 * i:4 * i + 4], 'value %d' % i)


def jobs(tier):
    J = [dict(name='ieee2ibm', fn='encode', params={}), dict(name='from_float', fn='encode_object', params={}),
         dict(name='float32', fn='encode_float32', params={}), dict(name='no-underflow', fn='without_underflow', params={})]
    J.append(dict(name='int', fn='integers', params={'bits': 62}))
    for n in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
        J.append(dict(name='bulk%d' % n, fn='bulk', params={'n': n}))
    return J
