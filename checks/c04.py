"""C04: IBM float comparisons agree with the exact values compared."""
from segpy.ibm_float import IBMFloat, ibm2ieee

BOUNDS = {'quick': 'all pairs of four-byte patterns; every pattern against every double; every pattern against integers up to 2^53'}
OUTSIDE = 'comparison with integers beyond 2^53, Fraction, Decimal and complex'


def iff(h, a, b):
    return h.both(h.implies(a, b), h.implies(b, a))


def compare(h, part, x, y, v, f, what):
    """x op y and y op x against the exact values v and f"""
    if part == 'eq':
        g = x == y
        h.observe('eq', g)
        want = v == f
        h.check(h.both(iff(h, g, want), iff(h, y == x, want), iff(h, x != y, h.implies(want, False)),
                       iff(h, y != x, h.implies(want, False))), what + ': equality is that of the values')
        return
    lt, gt = x < y, x > y
    h.observe('lt', lt)
    h.observe('gt', gt)
    h.check(h.both(iff(h, lt, v < f), iff(h, gt, v > f), iff(h, x <= y, v <= f), iff(h, x >= y, v >= f),
                   iff(h, y > x, v < f), iff(h, y < x, v > f), iff(h, y >= x, v <= f), iff(h, y <= x, v >= f)),
            what + ': order is that of the values')


def pair(h, part):
    a = h.bytes('a', 4)
    b = h.bytes('b', 4)
    compare(h, part, IBMFloat(a), IBMFloat(b), ibm2ieee(a), ibm2ieee(b), 'IBM floats')


def with_float(h, part):
    a = h.bytes('a', 4)
    f = h.float('f')
    compare(h, part, IBMFloat(a), f, ibm2ieee(a), f, 'IBM float and float')      # ibm2ieee is exact by C01


def with_int(h, part):
    a = h.bytes('a', 4)
    n = h.int('n', -(1 << 53), 1 << 53)
    compare(h, part, IBMFloat(a), n, ibm2ieee(a), float(n), 'IBM float and int')


def jobs(tier):
    J = [dict(name='pair-' + p, fn='pair', params={'part': p}) for p in ('eq', 'order')]
    for p in ('eq', 'order'):
        J += [dict(name='float-' + p, fn='with_float', params={'part': p}), dict(name='int-' + p, fn='with_int', params={'part': p})]
    return J
