"""C10: one-dimensional catalogs behave as the mapping they were built from."""
from segpy.catalog import (CatalogBuilder, RegularConstantCatalog, ConstantCatalog, RegularCatalog, LinearRegularCatalog, DictionaryCatalog)

BOUNDS = {'quick': 'sets of 0..4 pairs: any keys of up to 32 bits at unequal distances with any values, in several orders; keys k0, k0+d, ... for '
                   'd in {1, 2, 10}, any 17-bit k0, with values constant, in steps of 240, -1 or 7, or any; any two or three pairs for the detection '
                   'of repeated keys; any integer looked up; the compressed classes built directly from any small description',
          'thorough': 'as quick with up to 8 keys of up to 32 bits, strides and steps of any 17-bit size for up to 4 keys'}
OUTSIDE = 'catalogs of more items; keys that are not integers'


def agrees(h, c, ks, vs, kb, what=''):
    """c is the mapping ks -> vs (ks distinct, in any order)"""
    n = len(ks)
    h.check(len(c) == n, what + 'number of items')
    for k, v in zip(ks, vs):
        h.check(k in c, what + 'every key is contained')
        h.check(c[k] == v, what + 'every key has its value')
    it = list(c)
    h.check(len(it) == n, what + 'iteration gives every key once')
    for a, b in zip(it, it[1:]):
        h.check(a < b, what + 'iteration ascends')
    for a in it:
        h.check(h.either(*[a == k for k in ks]), what + 'iteration gives keys only')
    q = h.int('q', -(2 << kb), 2 << kb)
    present = h.either(False, *[q == k for k in ks])
    inside = q in c
    h.observe('inside', inside)
    h.check(h.both(h.implies(inside, present), h.implies(present, inside)), what + 'membership of any integer')
    try:
        r = c[q]
        found = True
    except KeyError:
        found = False
    h.check(h.both(h.implies(found, present), h.implies(present, found)), what + 'any other integer is a key error')
    if found:
        h.check(h.either(*[h.both(q == k, r == v) for k, v in zip(ks, vs)]), what + 'value found is that of the key')
    h.check(c.get(q, 'none') == 'none' if not found else True, what + 'get of a missing key gives the default')


def build(ks, vs, how):
    if how == 'add':
        b = CatalogBuilder()
        for k, v in zip(ks, vs):
            b.add(k, v)
    else:
        b = CatalogBuilder(list(zip(ks, vs)))
    return b.create()


def distinct(h, n, kb, how):
    """any pairs at all: a catalog exactly when no key is repeated"""
    ks = [h.int('k%d' % i, -(1 << kb), (1 << kb)) for i in range(n)]
    vs = [h.int('v%d' % i, -(1 << kb), (1 << kb)) for i in range(n)]
    c = build(ks, vs, how)
    dup = h.either(False, *[ks[i] == ks[j] for i in range(n) for j in range(i)])
    h.check(h.both(h.implies(c is None, dup), h.implies(dup, c is None)), 'no catalog exactly when a key is repeated')


def permuted(h, n):
    order, left = [], list(range(n))
    for i in range(n):
        order.append(left.pop(h.choose('at%d' % i, n - i)))
    return order


def pairs(h, n, kb, how):
    """distinct keys not equally spaced and any values, added in any order (two or fewer keys: any)"""
    ks, vs, ds = [], [], []
    for i in range(n):
        if i == 0:
            ks.append(h.int('k0', -(1 << kb), 1 << kb))
        else:
            ds.append(h.int('d%d' % i, 1, 1 << kb))
            ks.append(ks[-1] + ds[-1])
        vs.append(h.int('v%d' % i, -(1 << kb), 1 << kb))
    if n > 2:
        h.assume(h.either(*[d != ds[0] for d in ds[1:]]))
    order = permuted(h, n) if n < 4 else [[1, 3, 0, 2, 4], [3, 2, 1, 0, 4]][h.choose('order', 2)][:n]
    c = build([ks[i] for i in order], [vs[i] for i in order], how)
    h.check(c is not None, 'distinct keys give a catalog')
    h.observe('type', type(c).__name__)
    agrees(h, c, ks, vs, kb + 3)
    got = [(k, v) for k, v in c.items()]
    h.check(len(got) == n, 'items')
    for (k, v), a, b in zip(got, ks, vs):
        h.check(h.both(k == a, v == b), 'items are the pairs added, in ascending order')


STRIDES = [(1, 240), (2, -1), (10, 7)]


def regular(h, n, kb, values, strides=True):
    """keys at a constant distance: the compressed representations"""
    k0 = h.int('k0', -(1 << kb), (1 << kb))
    d, e = STRIDES[h.choose('stride', len(STRIDES))] if strides else (h.int('d', 1, 1 << kb), h.int('e', -(1 << kb), 1 << kb))
    ks = [k0 + i * d for i in range(n)]
    if values == 'constant':
        v = h.int('v', -(1 << kb), (1 << kb))
        vs = [v] * n
    elif values == 'linear':
        v = h.int('v', -(1 << kb), (1 << kb))
        vs = [v + i * e for i in range(n)]
    else:
        vs = [h.int('v%d' % i, -(1 << kb), (1 << kb)) for i in range(n)]
        if n > 2:
            h.assume(h.either(*[b - a != vs[1] - vs[0] for a, b in zip(vs[1:], vs[2:])]))
        else:
            h.assume(vs[0] == vs[1])
    order = [list(range(n)), list(reversed(range(n))), list(range(1, n)) + [0]][h.choose('order', min(n, 3))]
    c = build([ks[i] for i in order], [vs[i] for i in order], 'add')
    h.check(c is not None, 'distinct keys give a catalog')
    h.observe('type', type(c).__name__)
    agrees(h, c, ks, vs, kb + 4)


def constant(h, n, kb):
    """irregular keys with one value"""
    ks = [h.int('k%d' % i, -(1 << kb), (1 << kb)) for i in range(n)]
    for a, b in zip(ks, ks[1:]):
        h.assume(a < b)
    v = h.int('v', -(1 << kb), (1 << kb))
    b = CatalogBuilder({k: v for k in ks} if not h.symbolic else [(k, v) for k in ks])
    c = b.create()
    h.observe('type', type(c).__name__)
    agrees(h, c, ks, [v] * n, kb)


def direct(h, which, kb):
    """a regular catalog constructed directly is consistent, or refused"""
    lo = h.int('lo', -(1 << kb), 1 << kb)
    span = h.int('span', -4, 40)
    d = h.int('d', 1, 12)
    hi = lo + span
    h.assume(h.either(span < 0, span <= 3 * d))
    fine = True
    try:
        if which == 'constant':
            v = h.int('v', -(1 << kb), 1 << kb)
            vs = [v] * 4
            c = RegularConstantCatalog(lo, hi, d, v)
        elif which == 'values':
            n = h.choose('n', 5)
            vs = [h.int('v%d' % i, -(1 << kb), 1 << kb) for i in range(n)]
            fine = span == (n - 1) * d
            c = RegularCatalog(lo, hi, d, vs)
        else:
            v = h.int('v', -(1 << kb), 1 << kb)
            e = h.int('e', -6, 6)
            m = h.int('m', -20, 20)
            fine = h.both(span > 0, e != 0, m * d == e * span)
            vs = [v + i * e for i in range(4)]
            c = LinearRegularCatalog(lo, hi, d, v, v + m, e)
        ok = True
    except ValueError:
        ok = False
    fine = h.both(fine, span >= 0, span % d == 0)
    h.check(h.both(h.implies(ok, fine), h.implies(fine, ok)), 'accepted exactly when the description is consistent')
    if not ok:
        return
    n = 1 + h.realise(span // d)
    agrees(h, c, [lo + i * d for i in range(n)], vs[:n], kb + 3)


def from_items(h):
    """anything but a series of pairs is refused"""
    n = h.choose('n', 4)
    v = h.int('v', -10, 10)
    try:
        CatalogBuilder([tuple([v] * n)])
        ok = True
    except ValueError:
        ok = False
    h.check(ok == (n == 2), 'items must be pairs')
    try:
        CatalogBuilder(7)
        ok = True
    except TypeError:
        ok = False
    h.check(not ok, 'neither a mapping nor a series')
    c = CatalogBuilder({5: v, 3: v + 1}).create()
    agrees(h, c, [3, 5], [v + 1, v], 5)


def jobs(tier):
    quick = tier == 'quick'
    J = [dict(name='items', fn='from_items', params={})]
    for n in (0, 1, 2, 3):
        J.append(dict(name='distinct%d' % n, fn='distinct', params={'n': n, 'kb': 5 if n == 3 else 31, 'how': 'list'}))
    for n in (0, 1, 3, 4) if quick else (0, 1, 3, 4, 5):
        for how in ('add', 'list'):
            if n < 4 or how == 'add':
                J.append(dict(name='pairs%d-%s' % (n, how), fn='pairs', params={'n': n, 'kb': 31, 'how': how}))
    for n in (2, 3, 4) if quick else (2, 3, 4, 5, 6, 8):
        for values in ('constant', 'linear', 'any'):
            J.append(dict(name='regular%d-%s' % (n, values), fn='regular', params={'n': n, 'kb': 16 if quick else 31, 'values': values}))
    if not quick:
        for n in (2, 3, 4):
            for values in ('constant', 'linear', 'any'):
                J.append(dict(name='anystride%d-%s' % (n, values), fn='regular', params={'n': n, 'kb': 16, 'values': values, 'strides': False}))
    for n in (2, 3, 4) if quick else (2, 3, 4, 5, 6):
        J.append(dict(name='constant%d' % n, fn='constant', params={'n': n, 'kb': 31}))
    for which in ('constant', 'values', 'linear'):
        J.append(dict(name='direct-' + which, fn='direct', params={'which': which, 'kb': 16 if not quick else 5}))
    return J
