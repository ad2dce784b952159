"""C03: IBM float encode and decode are mutually inverse on values."""
from segpy.ibm_float import IBMFloat, ibm2ieee, ieee2ibm
from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats
from checks.ibmspec import fields, bits_fields, same_value

BOUNDS = {'quick': 'all 2^32 four-byte patterns; all double patterns for idempotence; buffers of up to 3 values'}
OUTSIDE = 'the optional C++ packer extension (not installed here); longer buffers'


def bytes_value_bytes(h):
    b = h.bytes('b', 4)
    c = ieee2ibm(ibm2ieee(b))
    h.observe('c', c)
    neg, m, e = fields(b)
    h.check(same_value(h, b, c), 're-encoding a decoded value keeps the value')
    if m == 0:
        h.check(c == b'\0\0\0\0', 'zeros re-encode to the canonical zero')
    elif h.either(m >= (1 << 20), e == 0):
        h.check(c == b, 'a normalised pattern survives decode and encode unchanged')


def value_bytes_value(h):
    """Encoding loses precision at most once: a second trip changes nothing."""
    f = h.float('f')
    try:
        b = ieee2ibm(f)
    except (ValueError, ArithmeticError):
        return
    g = ibm2ieee(b)
    h.observe('g', g)
    c = ieee2ibm(g)
    h.check(c == b, 'encode(decode(encode(x))) == encode(x)')


def exact_values(h):
    """A double with at most 21 significant bits in range survives unchanged."""
    m = h.int('m', -(1 << 21) + 1, (1 << 21) - 1)
    k = h.int('k', -270, 230)
    f = m * 2.0 ** k
    b = ieee2ibm(f)
    h.observe('b', b)
    h.check(ibm2ieee(b) == f, 'decode(encode(x)) == x for x of up to 21 significant bits')


def ints(h):
    n = h.int('n', -(1 << 24), 1 << 24)
    x = IBMFloat.from_real(n)
    h.observe('x', bytes(x))
    # up to 24 significant bits when the leading hex digit is full; up to 21 always
    if h.both(n > -(1 << 21), n < (1 << 21)):
        h.check(int(x) == n, 'int(IBMFloat(n)) == n')
    else:
        d = int(x) - n
        h.check(h.both(d > -8, d < 8), 'within one unit in the last place')


def bulk(h, n):
    b = h.bytes('b', 4 * n)
    xs = unpack_ibm_floats(b, n)
    c = pack_ibm_floats(xs)
    h.check(c == b, 'repacking unpacked IBM samples reproduces the bytes')
    d = pack_ibm_floats([float(x) for x in xs])
    h.observe('d', d)
    for i in range(n):
        h.check(same_value(h, b[4 * i:4 * i + 4], d[4 * i:4 * i + 4]), 'repacking the float values keeps every value')


def jobs(tier):
    J = [dict(name='b-v-b', fn='bytes_value_bytes', params={}), dict(name='v-b-v', fn='value_bytes_value', params={}),
         dict(name='exact', fn='exact_values', params={}), dict(name='ints', fn='ints', params={})]
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        J.append(dict(name='bulk%d' % n, fn='bulk', params={'n': n}))
    return J
