"""C05: numeric operations on IBM floats agree with exact arithmetic on the value they hold."""
import math
from segpy.ibm_float import IBMFloat, ibm2ieee, ieee2ibm, IBM_FLOAT_ZERO
from checks.ibmspec import fields, bits_fields, same_value

BOUNDS = {'quick': 'every four-byte pattern; every pattern with every double for mixed operators; for operators on two IBM floats '
                   'biased exponents 62..65 and 63..65 and pairs of exponents at the edges of the format, with every fraction (multiplier fractions of 8 bits, divisors powers of two); division, remainder and power as uninterpreted functions of the doubles',
          'thorough': 'every four-byte pattern; every pattern with every double for mixed operators; every pair of patterns'}
OUTSIDE = 'text representations; what division, remainder, power and decimal rounding of doubles themselves yield (they are uninterpreted); rounding to a whole number beyond 53 bits'


def signs(h):
    b = h.bytes('b', 4)
    x = IBMFloat(b)
    v = ibm2ieee(b)
    n, a, p = -x, abs(x), +x
    h.observe('n', bytes(n))
    h.observe('a', bytes(a))
    h.check(float(n) == -v, '-x')
    h.check(float(a) == abs(v), 'abs(x)')
    h.check(float(p) == v, '+x')
    h.check(bytes(-n) == b if v != 0 else not -n, 'negation is its own inverse')
    h.check(bool(x) == (v != 0), 'truth value')
    h.check(x.is_zero() == (v == 0), 'is_zero')
    h.check(h.implies(v != 0, x.signbit == (v < 0)), 'signbit')
    h.check(float(x.from_bytes(bytes(x))) == v, 'bytes round trip')


def integral(h, part):
    b = h.bytes('b', 4)
    x = IBMFloat(b)
    v = ibm2ieee(b)
    neg, m, e = fields(b)
    # exact integer part and whether a fraction remains: |v| = m * 16**(e-70)
    if e >= 70:
        q = m << (4 * (e - 70))
        whole = True
    else:
        k = h.ite(e < 64, 24, 4 * (70 - e))
        q = m >> k
        whole = (q << k) == m
    s = h.ite(neg, -q, q)
    if part == 'trunc':
        r = math.trunc(x)
        h.observe('r', r)
        h.check(r == s, 'trunc')
        h.check(int(x) == s, 'int()')
    elif part == 'floor':
        r = math.floor(x)
        h.observe('r', r)
        lo = s - h.ite(h.both(neg, h.implies(whole, False)), 1, 0)
        if whole:
            h.check(h.either(r == s, h.both(neg, r == s - 1)), 'floor of a whole number is at most one off')
            h.check(r == s, 'floor of a whole number is that number')
        else:
            h.check(r == lo, 'floor of a number with a fraction')
    else:
        r = math.ceil(x)
        h.observe('r', r)
        hi = s + h.ite(h.both(h.implies(neg, False), h.implies(whole, False)), 1, 0)
        if whole:
            h.check(h.either(r == s, h.both(h.implies(neg, False), r == s + 1)), 'ceil of a whole number is at most one off')
            h.check(r == s, 'ceil of a whole number is that number')
        else:
            h.check(r == hi, 'ceil of a number with a fraction')


def zero_int(h):
    b = h.bytes('b', 4)
    h.assume(h.both(b[1] == 0, b[2] == 0, b[3] == 0))
    x = IBMFloat(b)
    h.check(h.both(int(x) == 0, math.trunc(x) == 0), 'integer parts of zero')
    h.check(bytes(x.normalize()) == b'\0\0\0\0', 'zero normalises to the canonical zero')
    h.check(x.as_integer_ratio() == (0, 1), 'ratio of zero')
    h.check(bytes(-x) == b'\0\0\0\0', 'minus zero is zero')
    h.check(bytes(abs(x)) == b'\0\0\0\0', 'abs of zero is zero')


def normalise(h):
    b = h.bytes('b', 4)
    x = IBMFloat(b)
    neg, m, e = fields(b)
    try:
        y = x.normalize()
        ok = True
    except FloatingPointError:
        ok = False
    h.observe('ok', ok)
    t = x.try_normalize()
    if ok:
        c = bytes(y)
        h.observe('c', c)
        h.check(same_value(h, b, c), 'normalising keeps the value')
        h.check(h.either(m == 0, c[1] >= 16), 'the first hex digit of a normalised fraction is not zero')
        h.check(bytes(t) == c, 'try_normalize agrees')
        if m == 0:
            h.check(c == b'\0\0\0\0', 'zero')
    else:
        # shifting out all leading zero digits would need an exponent below the least one
        z = h.ite(m < 16, 5, h.ite(m < 256, 4, h.ite(m < 4096, 3, h.ite(m < 65536, 2, h.ite(m < (1 << 20), 1, 0)))))
        h.check(h.both(m != 0, e < z), 'normalisation is refused only when the exponent would underflow')
        h.check(bytes(t) == b, 'try_normalize leaves it alone')


def subnormal(h):
    b = h.bytes('b', 4)
    x = IBMFloat(b)
    neg, m, e = fields(b)
    z = x.zero_subnormal()
    h.observe('z', bytes(z))
    s = x.is_subnormal()
    h.check(h.implies(m == 0, s == (b != b'\0\0\0\0')), 'every zero but the canonical one is subnormal')
    h.check(h.implies(m != 0, s == (m < (1 << 20))), 'a non-zero number is subnormal when its first hex digit is zero')
    if s:
        h.check(bytes(z) == b'\0\0\0\0', 'subnormals are zeroed')
    else:
        h.check(bytes(z) == b, 'normal numbers are kept')


def ratio(h, lo, hi):
    b = h.bytes('b', 4)
    x = IBMFloat(b)
    neg, m, e = fields(b)
    h.assume(h.both(m != 0, e >= lo, e <= hi))
    n, d = x.as_integer_ratio()
    h.observe('n', n)
    s = h.ite(neg, -m, m)
    h.check(d >= 1, 'positive denominator')
    if e >= 70:
        h.check(h.both(n == s << (4 * (e - 70)), d == 1), 'whole number')
    else:
        k = 4 * (70 - e)
        h.check(n << k == s * d, 'n/d is the value')
        h.check(h.either(d == 1, (n & 1) == 1), 'lowest terms')


def split(h):
    b = h.bytes('b', 4)
    x = IBMFloat(b)
    f, e = x.frexp()
    h.observe('f', f)
    h.observe('e', e)
    h.check(h.both(f > -1.0, f < 1.0), 'fraction range')
    h.check(h.both(e >= -256, e <= 255), 'exponent range')
    fn, ff, ffr, fm = bits_fields(h, f)
    neg, m, eb = fields(b)
    h.check(e == 4 * (eb - 64), 'exponent')
    h.check(f * 16777216.0 == h.ite(neg, -m, m), 'fraction')


def join(h):
    """ldexp is the inverse of frexp"""
    b = h.bytes('b', 4)
    x = IBMFloat(b)
    y = IBMFloat.ldexp(*x.frexp())
    h.observe('y', bytes(y))
    h.check(same_value(h, b, bytes(y)), 'ldexp(frexp(x)) == x')


def ldexp_range(h):
    e = h.int('e', -1000, 1000)
    m = h.int('m', -3, 3)
    f = m / 2
    try:
        y = IBMFloat.ldexp(f, e)
        ok = True
    except ValueError:
        ok = False
    except OverflowError:
        h.check(h.both(e >= 252, m != 0), 'overflow only beyond the range')
        return
    h.observe('ok', ok)
    h.check(ok == h.both(m >= -2, m <= 2, e >= -256, e <= 255), 'arguments out of range are refused')
    if ok:
        v = float(y)
        h.check((v < 0) == (m < 0), 'sign')
        h.check((v == 0) == (m == 0), 'zero')
        h.check(h.either(m == 0, v == m * 2.0 ** (e - 1)), 'fraction * 2**exponent')


OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b}


def encoded(v):
    try:
        return bytes(ieee2ibm(v))
    except FloatingPointError:
        return b'\0\0\0\0'


def run(f, *a):
    try:
        return None, f(*a)
    except OverflowError:
        return 'overflow', None
    except ZeroDivisionError:
        return 'zero', None
    except ValueError:
        return 'value', None


def binary(h, op, full):
    """IBM op IBM: double arithmetic on the exact values, encoded (encoding is C02's subject)"""
    if full:
        a, b = h.bytes('a', 4), h.bytes('b', 4)
    else:
        a = bytes_of(h, 'a', 62 + h.choose('ea', 4), 3)
        if op == 'div':
            b = bytes((h.choose('sign', 2) * 128 + 64 + h.choose('eb', 2), 1 << h.choose('k', 8), 0, 0))
        else:
            b = bytes_of(h, 'b', 63 + h.choose('eb', 3), 3 if op in ('add', 'sub') else 1)
    agree(h, op, a, b)


def agree(h, op, a, b):
    f = OPS[op]
    k1, r = run(lambda: f(IBMFloat(a), IBMFloat(b)))
    k2, v = run(lambda: encoded(f(ibm2ieee(a), ibm2ieee(b))))
    h.observe('k1', k1)
    h.check(k1 == k2, 'same outcome as double arithmetic')
    if k1 is None:
        h.check(isinstance(r, IBMFloat), 'result type')
        h.check(bytes(r) == v, 'same value as double arithmetic')


EDGES = {'add': [(127, 127), (127, 126), (0, 0), (1, 0), (0, 2)], 'sub': [(127, 127), (126, 127), (0, 0), (0, 1)],
         'mul': [(127, 65), (127, 64), (96, 96), (100, 93), (0, 64), (0, 63), (32, 31), (30, 28), (10, 20), (127, 127)],
         'div': [(127, 64), (127, 63), (127, 62), (126, 0), (0, 65), (0, 66), (0, 70), (10, 80)]}


def edge(h, op, ea, eb):
    """results near and beyond the largest and the least IBM floats"""
    a = bytes_of(h, 'a', ea, 3)
    if op == 'div':
        b = bytes((h.choose('sign', 2) * 128 + eb, 1 << h.choose('k', 8), 0, 0))
    else:
        b = bytes_of(h, 'b', eb, 3 if op in ('add', 'sub') else 1)
    agree(h, op, a, b)


MORE = {'div': lambda a, b: a / b, 'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b, 'pow': lambda a, b: a ** b}
DOUBLE = {'div': lambda a, b: a / b, 'floordiv': lambda a, b: math.floor(a / b), 'mod': lambda a, b: a % b, 'pow': lambda a, b: pow(a, b)}
IN_FORMAT = {'left': ('div',), 'right': (), 'both': ('div', 'mod', 'pow')}


def opaque(h, op, side, band):
    """operators that are the double operator on the values whatever that operator does"""
    h.opaque()
    a = h.bytes('a', 4)
    if side == 'both':
        b = h.bytes('b', 4)
        if op == 'pow':
            a, b = b'\x41' + a[1:], (b'\x41' if band and band[0] == 1022 else b'\xc1') + b[1:]
        if band is None:
            z = h.choose('zero', 4 if op == 'pow' else 3)
            a, b = (b'\x41' + a[1:] if z == 0 else bytes(4), b'\xc1' + b[1:] if z == 1 else bytes(4))
            if z == 3:
                a, b = b'\xc1' + h.bytes('c', 3), b'\x40\x80\0\0'         # the root of a negative number
        x, y, v, w = IBMFloat(a), IBMFloat(b), ibm2ieee(a), ibm2ieee(b)
    elif side == 'right':
        y = w = h.float('y')
        x, v = IBMFloat(a), ibm2ieee(a)
    else:
        x = v = h.float('y')
        y, w = IBMFloat(a), ibm2ieee(a)
    if op in IN_FORMAT[side] and band:
        h.assume(h.both(a[1] != a[2], a[0] < 128, side == 'left' or h.both(b[1] != b[2], op == 'pow' or (b[0] < 128) == (band[0] != 1022))))
    k2, e = run(lambda: DOUBLE[op](v, w))
    encode = op in IN_FORMAT[side] and k2 is None and not isinstance(e, complex)
    if encode and band:
        stored = (h.f64bits(e) >> 52) & 2047
        h.assume(h.both(stored >= band[0], stored <= band[1]))
    k1, r = run(lambda: MORE[op](x, y))
    if k2 is None and isinstance(e, complex):
        h.check(k1 is None and isinstance(r, complex), 'complex like the double result')
        h.check(r == e, 'the complex double result')
        return
    if encode:
        k2, e = run(lambda: encoded(e))
        h.check(k1 == k2, 'same outcome as double arithmetic')
        if k1 is None:
            h.check(isinstance(r, IBMFloat), 'result type')
            h.check(bytes(r) == e, 'same value as double arithmetic')
        return
    h.check(k1 == k2, 'same outcome as double arithmetic')
    if k1 is None:
        r = float(r) if op != 'floordiv' else r
        h.check(h.either(r == e, h.both(r != r, e != e)), 'same value as double arithmetic')


def whole(h, side):
    """floor division by powers of two: the quotients are exact doubles, no function is uninterpreted"""
    a = bytes((h.choose('sign', 2) * 128 + 65,)) + h.bytes('a', 2) + b'\0'
    b = bytes((h.choose('sign2', 2) * 128 + 65, 1 << h.choose('k', 8), 0, 0))
    v, w = ibm2ieee(a), ibm2ieee(b)
    x, y = v if side == 'left' else IBMFloat(a), w if side == 'right' else IBMFloat(b)
    r = MORE['floordiv'](x, y)
    n, d = fields(a), fields(b)
    num, den = h.ite(n[0] != d[0], -n[1], n[1]), d[1]
    h.check(h.both(r * den <= num, num < (r + 1) * den), 'the floor of the quotient')


def remainders(h, side):
    """remainders of whole numbers"""
    h.opaque()
    s, t = h.choose('sign', 2), h.choose('sign2', 2)
    a, b = bytes((s * 128 + 70, 0, 0)) + h.bytes('a', 1), bytes((t * 128 + 70, 0, 0)) + h.bytes('b', 1)
    h.assume(b[3] != 0)
    v, w = ibm2ieee(a), ibm2ieee(b)
    x, y = v if side == 'left' else IBMFloat(a), w if side == 'right' else IBMFloat(b)
    r = float(MORE['mod'](x, y))
    h.check(r == (-a[3] if s else a[3]) % (-b[3] if t else b[3]), 'the remainder has the sign of the divisor')


def digits(h, n):
    """rounding to a number of decimal digits, or to a whole number"""
    h.opaque()
    b = h.bytes('b', 4)
    k1, r = run(lambda: round(IBMFloat(b)) if n is None else round(IBMFloat(b), n))
    k2, e = run(lambda: encoded(round(ibm2ieee(b)) if n is None else round(ibm2ieee(b), n)))
    h.check(k1 == k2, 'same outcome as double arithmetic')
    if k1 is None:
        h.check(bytes(r) == e, 'same value as double arithmetic')


def bytes_of(h, name, e, n):
    s = h.choose(name + '.sign', 2)
    return bytes((s * 128 + e,)) + h.bytes(name, n) + b'\0' * (3 - n)


def mixed(h, op, side):
    """IBM op float and float op IBM"""
    a = h.bytes('a', 4)
    y = h.float('y')
    f = OPS[op]
    if side == 'right':
        k1, r = run(lambda: float(f(IBMFloat(a), y)))
        k2, v = run(lambda: f(ibm2ieee(a), y))
    else:
        k1, r = run(lambda: float(f(y, IBMFloat(a))))
        k2, v = run(lambda: f(y, ibm2ieee(a)))
    h.observe('k1', k1)
    if k1 is not None or k2 is not None:
        h.check(k1 == k2, 'same outcome as double arithmetic')
        return
    h.check(h.either(r == v, h.both(r != r, v != v)), 'same value as double arithmetic')


def jobs(tier):
    J = [dict(name=n, fn=n, params={}) for n in ('signs', 'zero_int', 'normalise', 'subnormal', 'split', 'join', 'ldexp_range')]
    J += [dict(name='ratio%d' % lo, fn='ratio', params={'lo': lo, 'hi': hi}) for lo, hi in ((0, 31), (32, 63), (64, 69), (70, 127))]
    J += [dict(name=p, fn='integral', params={'part': p}) for p in ('trunc', 'floor', 'ceil')]
    J += [dict(name=p, fn='binary', params={'op': p, 'full': False}) for p in OPS]
    J += [dict(name=p + '-' + s, fn='mixed', params={'op': p, 'side': s}) for p in OPS for s in ('left', 'right') if (p, s) != ('div', 'left')]
    J += [dict(name='edge-%s-%d-%d' % (p, ea, eb), fn='edge', params={'op': p, 'ea': ea, 'eb': eb}) for p in OPS for ea, eb in EDGES[p]]
    for p in MORE:
        for side in ('both', 'left', 'right'):
            # binary exponents (as stored) of results to be encoded: the least IBM numbers, ordinary ones, the largest, infinities
            for band in ((738, 740), (1022, 1024), None) if (p, side) == ('pow', 'both') else ((0, 0), (738, 740), (1022, 1024), (1274, 1275), (2047, 2047), None) if p in IN_FORMAT[side] else (None,):
                J.append(dict(name='opaque-%s-%s%s' % (p, side, '' if band is None else '-%d' % band[0]), fn='opaque', params={'op': p, 'side': side, 'band': band}))
    J += [dict(name='whole-floordiv-' + side, fn='whole', params={'side': side}) for side in ('both', 'left', 'right')]
    J += [dict(name='remainder-' + side, fn='remainders', params={'side': side}) for side in ('both', 'left', 'right')]
    J += [dict(name='digits-%s' % n, fn='digits', params={'n': n}) for n in (None, 0, 1, 2, -1)]
    if tier != 'quick':
        J += [dict(name='full-' + p, fn='binary', params={'op': p, 'full': True}) for p in OPS]
    return J
