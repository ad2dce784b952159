"""The published IBM System/360 single-precision format, as integer arithmetic over the bytes (used by C01..C05)."""


def fields(b):
    return b[0] >= 128, b[1] * 65536 + b[2] * 256 + b[3], b[0] & 0x7f      # sign, fraction * 2**24, biased base-16 exponent


def bits_fields(h, f):
    """sign, biased exponent, significand (with the hidden bit for normal numbers) of a double"""
    bits = h.f64bits(f)
    mag = bits & ((1 << 63) - 1)
    return bits >= (1 << 63), mag >> 52, mag & ((1 << 52) - 1), mag


def is_nan(h, f):
    _, ex, fr, _ = bits_fields(h, f)
    return h.both(ex == 2047, fr != 0)


def is_inf(h, f):
    _, ex, fr, _ = bits_fields(h, f)
    return h.both(ex == 2047, fr == 0)


def float_is(h, x, b, what):
    """x (a double) is exactly the value of the four bytes b"""
    neg, m, e = fields(b)
    sx, ex, fr, mag = bits_fields(h, x)
    if m == 0:
        h.check(mag == 0, what + ': zero')
    else:
        sh = 4 * e + 795 - ex
        h.check(h.both(sh >= 29, sh <= 52, (m << (sh & 63)) == (fr | (1 << 52)), sx == neg), what + ': exact value')


def same_value(h, a, b):
    """four-byte patterns a and b denote the same number (no branching)"""
    na, ma, ea = fields(a)
    nb, mb, eb = fields(b)
    ma, ea = norm(h, ma, ea)
    mb, eb = norm(h, mb, eb)
    return h.either(h.both(ma == 0, mb == 0), h.both(ma == mb, ea == eb, na == nb))


def norm(h, m, e):
    """shift the fraction left by whole hex digits until its first digit is not zero (m != 0), lowering e, which may go below 0"""
    for k in (4, 2, 1):
        small = m < (1 << (24 - 4 * k))
        m = h.ite(small, m << (4 * k), m)
        e = h.ite(small, e - k, e)
    return m, e


def less(h, a, b):
    """the number denoted by a is less than that denoted by b"""
    na, ma, ea = fields(a)
    nb, mb, eb = fields(b)
    ma, ea = norm(h, ma, ea)
    mb, eb = norm(h, mb, eb)
    ka = h.ite(ma == 0, 0, (ea + 8) * (1 << 24) + ma)
    kb = h.ite(mb == 0, 0, (eb + 8) * (1 << 24) + mb)
    ka = h.ite(na, -ka, ka)
    kb = h.ite(nb, -kb, kb)
    return ka < kb
