"""C11: two-dimensional catalogs behave as the mapping they were built from."""
from segpy.catalog import (CatalogBuilder, LastIndexVariesQuickestCatalog2D, FirstIndexVariesQuickestCatalog2D, DictionaryCatalog2D)

BOUNDS = {'quick': 'every subset of a 2 x 3 or 3 x 2 grid of equally spaced lines or of a 2 x 2 grid of any lines, full grids up to 3 x 3, line numbers any 17-bit integers, values any or in '
                   'steps of 1, -3 or 240 in either grid order, pairs added in several orders; any pair looked up, any value looked up in reverse; '
                   'any two or three pairs for the detection of repeated keys',
          'thorough': 'as quick with every subset of a 3 x 3 grid of any lines, grids up to 4 x 4, and any constant step for 2 x 2 grids'}
OUTSIDE = 'larger grids; keys that are not integer pairs'


def agrees2d(h, c, keys, vs, kb):
    """c is the mapping keys -> vs; keys distinct pairs"""
    n = len(keys)
    h.check(len(c) == n, 'number of items')
    for k, v in zip(keys, vs):
        h.check(k in c, 'every key is contained')
        h.check(c[k] == v, 'every key has its value')
    it = list(c)
    h.check(len(it) == n, 'iteration gives every key once')
    for k in keys:
        h.check(h.either(*[h.both(k[0] == a, k[1] == b) for a, b in it]), 'iteration gives every key')
    q = (h.int('qi', -(2 << kb), 2 << kb), h.int('qj', -(2 << kb), 2 << kb))
    present = h.either(False, *[h.both(q[0] == i, q[1] == j) for i, j in keys])
    inside = q in c
    h.check(h.both(h.implies(inside, present), h.implies(present, inside)), 'membership of any pair')
    try:
        r = c[q]
        found = True
    except KeyError:
        found = False
    h.check(h.both(h.implies(found, present), h.implies(present, found)), 'any other pair is a key error')
    if found:
        h.check(h.either(*[h.both(q[0] == i, q[1] == j, r == v) for (i, j), v in zip(keys, vs)]), 'value found is that of the pair')


def lines(h, c, iline, jline, keys, vs):
    """iline, jline: the distinct numbers in ascending order"""
    for rng, want, what in ((c.i_range, iline, 'i'), (c.j_range, jline, 'j')):
        h.check(len(rng) == len(want), what + ' range has the numbers present')
        for a, b in zip(rng, want):
            h.check(a == b, what + ' range ascends through the numbers present')
    h.check(h.both(c.i_min == iline[0], c.i_max == iline[-1], c.j_min == jline[0], c.j_max == jline[-1]), 'extreme line numbers')
    lo, hi = c.key_min(), c.key_max()
    h.check(h.both(lo[0] == iline[0], lo[1] == jline[0], hi[0] == iline[-1], hi[1] == jline[-1]), 'extreme keys')
    for f, key in ((c.value_first, (iline[0], jline[0])), (c.value_last, (iline[-1], jline[-1]))):
        held = [v for k, v in zip(keys, vs) if k[0] is key[0] and k[1] is key[1]]
        try:
            r = f()
            h.check(len(held) == 1 and r == held[0], 'value at an extreme key')
        except KeyError:
            h.check(not held, 'an extreme key that is absent is a key error')


def reverse(h, c, keys, vs, kb):
    if not hasattr(c, 'key'):
        return
    for k, v in zip(keys, vs):
        r = c.key(v)
        h.check(h.both(r[0] == k[0], r[1] == k[1]), 'reverse lookup inverts the mapping')
    q = h.int('qv', -(2 << kb), 2 << kb)
    try:
        r = c.key(q)
        ok = True
    except ValueError:
        ok = False
    present = h.either(*[q == v for v in vs])
    h.check(h.both(h.implies(ok, present), h.implies(present, ok)), 'reverse lookup of any other value is refused')


def ascending(h, name, n, kb, stride):
    out = [h.int(name + '0', -(1 << kb), 1 << kb)]
    for k in range(1, n):
        out.append(out[-1] + (stride if stride else h.int('%s%d' % (name, k), 1, 1 << kb)))
    return out


def build(h, keys, vs, order):
    b = CatalogBuilder()
    n = len(keys)
    for p in order:
        b.add(keys[p], vs[p])
    return b.create()


def orders(n):
    o = [list(range(n)), list(reversed(range(n))), list(range(0, n, 2)) + list(range(1, n, 2))]
    return [x for k, x in enumerate(o) if x not in o[:k]]


def subset(h, ni, nj, kb, regular):
    """any non-empty subset of a grid with any values"""
    iline = ascending(h, 'i', ni, kb, 0 if not regular else regular[0])
    jline = ascending(h, 'j', nj, kb, 0 if not regular else regular[1])
    mask = 1 + h.choose('subset', (1 << (ni * nj)) - 1)
    cells = [(a, b) for a in range(ni) for b in range(nj) if mask >> (a * nj + b) & 1]
    keys = [(iline[a], jline[b]) for a, b in cells]
    vs = [h.int('v%d' % k, -(1 << kb), 1 << kb) for k in range(len(cells))]
    if len(cells) == 2:
        vs[1] = vs[0] + [-3, 0, 1][h.choose('step', 3)]
    elif len(cells) > 2:
        # values in constant steps are for the other function
        for o in (range(len(cells)), sorted(range(len(cells)), key=lambda k: cells[k][::-1])):
            ds = [vs[b] - vs[a] for a, b in zip(o, o[1:])]
            h.assume(h.either(*[d != ds[0] for d in ds[1:]]))
    o = orders(len(cells))
    c = build(h, keys, vs, o[mask % len(o)])
    h.check(c is not None, 'distinct keys give a catalog')
    h.observe('type', type(c).__name__)
    agrees2d(h, c, keys, vs, kb + 3)
    lines(h, c, [iline[a] for a in range(ni) if any(x == a for x, _ in cells)], [jline[b] for b in range(nj) if any(y == b for _, y in cells)], keys, vs)


def grid(h, ni, nj, kb, si, sj, sv, fast):
    """a full grid whose values run in constant steps, last or first index varying quickest: the compressed representations"""
    iline = ascending(h, 'i', ni, kb, si)
    jline = ascending(h, 'j', nj, kb, sj)
    v0 = h.int('v0', -(1 << kb), 1 << kb)
    dv = sv if sv else h.int('dv', -64, 64)
    if fast == 'last':
        cells = [(a, b) for a in range(ni) for b in range(nj)]
    else:
        cells = [(a, b) for b in range(nj) for a in range(ni)]
    keys = [(iline[a], jline[b]) for a, b in cells]
    vs = [v0 + k * dv for k in range(len(cells))]
    o = orders(len(cells))
    c = build(h, keys, vs, o[h.choose('order', len(o))])
    h.check(c is not None, 'distinct keys give a catalog')
    h.observe('type', type(c).__name__)
    agrees2d(h, c, keys, vs, kb + 3)
    lines(h, c, iline, jline, keys, vs)
    if sv:
        reverse(h, c, keys, vs, kb + 3)


def distinct(h, n, kb):
    ks = [(h.int('i%d' % k, -(1 << kb), 1 << kb), h.int('j%d' % k, -(1 << kb), 1 << kb)) for k in range(n)]
    vs = [h.int('v%d' % k, -(1 << kb), 1 << kb) for k in range(n)]
    c = build(h, ks, vs, range(n))
    dup = h.either(False, *[h.both(ks[a][0] == ks[b][0], ks[a][1] == ks[b][1]) for a in range(n) for b in range(a)])
    h.check(h.both(h.implies(c is None, dup), h.implies(dup, c is None)), 'no catalog exactly when a pair is repeated')


def empty(h):
    c = CatalogBuilder([]).create()
    h.check(len(c) == 0 and list(c) == [], 'an empty catalog')
    q = (h.int('i', -9, 9), h.int('j', -9, 9))
    h.check(q not in c, 'an empty catalog contains nothing')


def direct(h, which, kb):
    """a catalog constructed directly from ranges is refused when the sizes disagree or a range does not ascend"""
    cls = LastIndexVariesQuickestCatalog2D if which == 'last' else FirstIndexVariesQuickestCatalog2D
    ni, nj, nv = h.choose('ni', 4), h.choose('nj', 4), h.choose('nv', 10)
    i0, j0, v0 = h.int('i0', -(1 << kb), 1 << kb), h.int('j0', -(1 << kb), 1 << kb), h.int('v0', -(1 << kb), 1 << kb)
    si = [3, -2][h.choose('si', 2)]
    i = [i0 + k * si for k in range(ni)]
    j = [j0 + 5 * k for k in range(nj)]
    v = [v0 - 2 * k for k in range(nv)]
    try:
        c = cls(i, j, v)
        ok = True
    except ValueError:
        ok = False
    h.check(ok == (ni * nj == nv and (si > 0 or ni < 2)), 'accepted exactly when consistent')
    if ok and ni * nj:
        cells = [(a, b) for a in range(ni) for b in range(nj)] if which == 'last' else [(a, b) for b in range(nj) for a in range(ni)]
        agrees2d(h, c, [(i[a], j[b]) for a, b in cells], v, kb + 3)


def dictionary(h, kb):
    """a dictionary catalog refuses keys outside its ranges"""
    i0, j0 = h.int('i0', -(1 << kb), 1 << kb), h.int('j0', -(1 << kb), 1 << kb)
    i, j, v = h.int('i', -(1 << kb), 1 << kb), h.int('j', -(1 << kb), 1 << kb), h.int('v', -(1 << kb), 1 << kb)
    il, jl = [i0, i0 + 2], [j0, j0 + 3]
    try:
        c = DictionaryCatalog2D(il, jl, [((i, j), v)])
        ok = True
    except ValueError:
        ok = False
    fine = h.both(h.either(i == i0, i == i0 + 2), h.either(j == j0, j == j0 + 3))
    h.check(h.both(h.implies(ok, fine), h.implies(fine, ok)), 'accepted exactly when the key lies in the ranges')
    if ok:
        agrees2d(h, c, [(i, j)], [v], kb)


def jobs(tier):
    quick = tier == 'quick'
    kb = 16
    J = [dict(name='empty', fn='empty', params={}), dict(name='dictionary', fn='dictionary', params={'kb': kb})]
    for n in (1, 2, 3):
        J.append(dict(name='distinct%d' % n, fn='distinct', params={'n': n, 'kb': 16 if n < 3 else 2}))
    for which in ('last', 'first'):
        J.append(dict(name='direct-' + which, fn='direct', params={'which': which, 'kb': kb}))
    for ni, nj in ((2, 3), (3, 2)) if quick else ((2, 3), (3, 2), (3, 3)):
        for regular in (None, (1, 2)):
            if quick and not regular:
                continue
            J.append(dict(name='subset%dx%d-%s' % (ni, nj, 'regular' if regular else 'any'), fn='subset', params={'ni': ni, 'nj': nj, 'kb': kb, 'regular': regular}))
    if quick:
        J.append(dict(name='subset2x2-any', fn='subset', params={'ni': 2, 'nj': 2, 'kb': kb, 'regular': None}))
    shapes = ((1, 1), (1, 3), (3, 1), (2, 3), (3, 3)) if quick else ((1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 4))
    for ni, nj in shapes:
        for fast in ('last', 'first'):
            for k, (si, sj, sv) in enumerate(((1, 1, 1), (2, 5, -3), (10, 3, 240), (0, 2, 1), (3, 0, 0))[:4 if quick or ni * nj > 4 else 5]):
                if quick and k == 3 and ni * nj != 9:
                    continue
                J.append(dict(name='grid%dx%d-%s-%d' % (ni, nj, fast, k), fn='grid', params={'ni': ni, 'nj': nj, 'kb': kb, 'si': si, 'sj': sj, 'sv': sv, 'fast': fast}))
    return J
