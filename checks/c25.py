"""C25: sorted containers and interval utilities keep their contracts."""
from segpy.util import (pairwise, batched, pad, complementary_intervals, intervals_are_contiguous, intervals_partially_overlap, roundrobin, contains_duplicates,
                        measure_stride, minmax, round_up, is_sorted, single_item_range, SortSense, make_sorted_distinct_sequence, reversed_range,
                        compress_sorted_sequence_to_range, first, last, all_equal, cmp, sgn)
from segpy.sorted_frozen_set import SortedFrozenSet
from segpy.reversed_sequence_view import ReversedSequenceView

BOUNDS = {'quick': 'sequences of up to four (sets: three and two) arbitrary integers up to 2^20 in magnitude; sequences with any start and a concrete stride of up to six items; '
                   'ranges of up to six items with any start and steps -7..7; up to three intervals anywhere',
          'thorough': 'sequences of up to five (sets: four and three) integers, ranges of up to ten items with steps -16..16, four intervals'}
OUTSIDE = 'longer sequences; items that are not integers'
TOP = 1 << 20


def ints(h, name, n, top=TOP):
    return [h.int('%s%d' % (name, i), -top, top) for i in range(n)]


def one_of(h, x, xs):
    return h.either(*[x == y for y in xs]) if xs else False


def same(h, a, b):
    """equality of truth values"""
    return h.both(h.implies(a, b), h.implies(b, a))


def same_set(h, got, members, candidates, what):
    """got is the ascending sequence of the candidates that are members"""
    got = list(got)
    for a, b in zip(got, got[1:]):
        h.check(a < b, what + ': ascending and distinct')
    for x, m in zip(candidates, members):
        h.check(same(h, one_of(h, x, got), m), what + ': exactly the items it should hold')
    for x in got:
        h.check(one_of(h, x, candidates), what + ': nothing else')


# ---------------------------------------------------------------- the set
def frozen(h, n):
    xs = ints(h, 'x', n)
    probe = h.int('probe', -TOP, TOP)
    s = SortedFrozenSet(xs)
    items = list(s)
    same_set(h, items, [True] * n, xs, 'set')
    h.check(len(s) == len(items), 'length')
    inside = one_of(h, probe, xs)
    h.check(same(h, probe in s, inside), 'membership')
    h.check(s.count(probe) == h.ite(inside, 1, 0), 'count')
    try:
        i = s.index(probe)
    except ValueError:
        i = None
    h.check(same(h, i is not None, inside), 'index is refused exactly for items that are not members')
    if i is not None:
        h.check(0 <= i < len(items), 'index within the set')
        h.check(items[i] == probe, 'index of an item')
    for k in range(-len(items) - 1, len(items) + 1):
        try:
            v = s[k]
        except IndexError:
            v = None
        h.check((v is not None) == (-len(items) <= k < len(items)), 'positions within the set')
        if v is not None:
            h.check(v == items[k], 'item at a position')
    h.check(list(reversed(s)) == items[::-1], 'reversed')
    h.check(SortedFrozenSet(s) is s, 'a set of a set is that set')
    h.check(s == SortedFrozenSet(reversed(xs)), 'order of construction does not matter')
    h.check(list(s * 2) == items and list(0 * s) == [] and list(2 * s) == items, 'repetition')
    h.check(list(SortedFrozenSet()) == [], 'empty set')


def slices(h, n):
    xs = ints(h, 'x', n)
    s = SortedFrozenSet(xs)
    items = list(s)
    a, b = h.choose('a', n + 2), h.choose('b', n + 2)
    h.check(list(s[a:b]) == items[a:b], 'slices')
    h.check(list(s[a:]) == items[a:] and list(s[:-b]) == items[:-b], 'open slices')
    h.check(type(s[a:b]) is SortedFrozenSet, 'a slice of a sorted set is a sorted set')


def algebra(h, n, m):
    xs, ys = ints(h, 'x', n), ints(h, 'y', m)
    form = h.choose('form', 2)
    a, b = SortedFrozenSet(xs), SortedFrozenSet(ys)
    op = h.choose('op', 6)
    both = xs + ys
    in_x = [one_of(h, v, xs) for v in both]
    in_y = [one_of(h, v, ys) for v in both]
    if op == 0:
        got, want = (a | b if form else a.union(ys)), [h.either(p, q) for p, q in zip(in_x, in_y)]
    elif op == 1:
        got, want = (a & b if form else a.intersection(ys)), [h.both(p, q) for p, q in zip(in_x, in_y)]
    elif op == 2:
        got, want = (a - b if form else a.difference(ys)), [h.both(p, h.implies(q, False)) for p, q in zip(in_x, in_y)]
    elif op == 3:
        got, want = (a ^ b if form else a.symmetric_difference(ys)), [h.either(h.both(p, h.implies(q, False)), h.both(q, h.implies(p, False))) for p, q in zip(in_x, in_y)]
    elif op == 4:
        got, want = a + b, [True] * (n + m)
    else:
        sub = h.both(*in_y[:n]) if n else True
        sup = h.both(*in_x[n:]) if m else True
        h.check(same(h, a <= b if form else a.issubset(ys), sub), 'subset')
        h.check(same(h, a >= b if form else a.issuperset(ys), sup), 'superset')
        h.check(same(h, a == b, h.both(sub, sup)), 'equality')
        h.check(same(h, a.isdisjoint(b), h.implies(h.either(*in_y[:n]) if n else False, False)), 'disjoint')
        h.check(same(h, a < b, h.both(sub, h.implies(sup, False))), 'proper subset')
        return
    same_set(h, got, want, both, ('union', 'intersection', 'difference', 'symmetric difference', 'sum')[op])
    h.check(type(got) is SortedFrozenSet, 'the result is a sorted set')


def view(h, n):
    xs = ints(h, 'x', n, 5)
    v = ReversedSequenceView(xs if h.choose('tuple', 2) else tuple(xs))
    want = xs[::-1]
    h.check(len(v) == n and list(v) == want, 'reversed view')
    h.check(list(reversed(v)) == xs, 'reversed twice')
    for k in range(-n - 1, n + 1):
        try:
            g = v[k]
        except IndexError:
            g = None
        h.check((g is not None) == (-n <= k < n), 'positions within the view')
        if g is not None:
            h.check(g == want[k], 'item at a position')
    probe = h.int('probe', -6, 6)
    inside = one_of(h, probe, xs)
    h.check(same(h, probe in v, inside), 'membership')
    try:
        i = v.index(probe)
    except ValueError:
        i = None
    h.check(same(h, i is not None, inside), 'index is refused exactly for items that are not there')
    if i is not None:
        h.check(want[i] == probe, 'index of an item')
        h.check(h.both(*[w != probe for w in want[:i]]), 'the first of equal items')


# ---------------------------------------------------------------- ranges
def ranges(h, step, most):
    start = h.int('start', -TOP, TOP)
    span = h.int('span', -3, (abs(step) * most))
    r = range(start, start + (span if step > 0 else -span), step)
    items = list(r)
    back = reversed_range(r)
    h.check(isinstance(back, range), 'a reversed range is a range')
    h.check(list(back) == items[::-1], 'the reversed range has the same numbers in reversed order')
    asc, desc = (items, items[::-1]) if step > 0 else (items[::-1], items)
    for sense, want in ((SortSense.ascending, asc), (SortSense.descending, desc), (None, items)):
        got = make_sorted_distinct_sequence(r, sense)
        h.check(list(got) == want, 'a range sorted either way has the same numbers')
    h.check(list(make_sorted_distinct_sequence(r)) == asc, 'ascending by default')
    for reverse in (False, True):
        for distinct in (False, True):
            h.check(is_sorted(r, reverse=reverse, distinct=distinct) == (len(items) < 2 or (step < 0) == reverse), 'ranges are sorted as their steps say')
            h.check(is_sorted(r, key=lambda x: -x, reverse=reverse, distinct=distinct) == (len(items) < 2 or (step > 0) == reverse), 'sorted by a key')
    if len(items) > 1:
        h.check(measure_stride(r) == step and measure_stride(iter(items)) == step, 'stride of a range')
    if items:
        h.check(first(r) == items[0] and last(r) == items[-1] and last(iter(items)) == items[-1], 'first and last')
        h.check(list(compress_sorted_sequence_to_range(items)) == items, 'compressed to the same numbers')
    h.check(list(single_item_range(start)) == [start], 'range of one number')


def sequences(h, n, form):
    """any numbers, made into a sorted sequence"""
    xs = ints(h, 'x', n)
    sense = [SortSense.ascending, SortSense.descending, None][h.choose('sense', 3)]
    given = {'list': xs, 'iterator': iter(xs), 'tuple': tuple(xs), 'generator': (x for x in xs)}[form]
    got = make_sorted_distinct_sequence(given, sense)
    items = list(got)
    h.check(len(got) == len(items), 'length')
    falling = h.both(*[a > b for a, b in zip(xs, xs[1:])]) if n > 1 else False
    down = falling if sense is None else sense is SortSense.descending
    for a, b in zip(items, items[1:]):
        h.check(h.ite(down, 1, 0) == h.ite(a > b, 1, 0), 'sorted in the sense asked for')
        h.check(a != b, 'distinct')
    for x in xs:
        h.check(one_of(h, x, items), 'no number is dropped')
        h.check(x in got, 'every number is a member')
    for x in items:
        h.check(one_of(h, x, xs), 'no number is added')
    for k in range(len(items)):
        h.check(got[k] == items[k], 'numbers by position')


def compress(h, n, sense):
    xs = ints(h, 'x', n)
    for a, b in zip(xs, xs[1:]):
        h.assume(a < b if sense > 0 else a > b)
    src = xs if h.choose('tuple', 2) else tuple(xs)
    got = compress_sorted_sequence_to_range(src)
    h.check(len(got) == n, 'as many numbers')
    for k in range(n):
        h.check(got[k] == xs[k], 'the same numbers in the same order')
    regular = h.both(*[xs[k + 1] - xs[k] == xs[1] - xs[0] for k in range(n - 1)]) if n > 1 else n == 1
    h.check(same(h, isinstance(got, range), regular), 'a range exactly when the numbers are regular')
    m = measure_stride(xs)
    h.check(same(h, m is not None, h.both(regular, n > 1)), 'a stride exactly when the numbers are regular')
    if m is not None:
        h.check(m == xs[1] - xs[0], 'the stride')


def sortedness(h, n):
    xs = ints(h, 'x', n)
    form = h.choose('iterator', 2)
    for reverse in (False, True):
        for distinct in (False, True):
            want = h.both(*[((a > b if distinct else a >= b) if reverse else (a < b if distinct else a <= b)) for a, b in zip(xs, xs[1:])]) if n > 1 else True
            h.check(same(h, is_sorted(iter(xs) if form else xs, reverse=reverse, distinct=distinct), want), 'sortedness of a sequence')
            h.check(same(h, is_sorted(iter(xs) if form else xs, key=lambda x: -x, reverse=not reverse, distinct=distinct), want), 'sortedness by a key')
    equal = h.both(*[x == xs[0] for x in xs]) if n else True
    h.check(same(h, all_equal(iter(xs) if form else xs), equal), 'all equal')
    adjacent = h.either(*[a == b for a, b in zip(xs, xs[1:])]) if n > 1 else False
    h.check(same(h, contains_duplicates(iter(xs) if form else xs), adjacent), 'equal neighbours')
    try:
        lo, hi = minmax(iter(xs) if form else xs)
    except ValueError:
        lo = None
    h.check((lo is None) == (n == 0), 'no extremes of nothing')
    if lo is not None:
        h.check(h.both(one_of(h, lo, xs), one_of(h, hi, xs), *[h.both(lo <= x, x <= hi) for x in xs]), 'extremes')
    pairs = list(pairwise(iter(xs) if form else xs))
    h.check(len(pairs) == max(0, n - 1), 'as many pairs')
    for k, (a, b) in enumerate(pairs):
        h.check(h.both(a == xs[k], b == xs[k + 1]), 'neighbours')
    for act, want in ((first, xs[:1]), (last, xs[-1:])):
        try:
            v = [act(iter(xs) if form else xs)]
        except ValueError:
            v = []
        h.check(v == want, 'first and last items')


def strides(h, n):
    xs = ints(h, 'x', n)
    form = h.choose('iterator', 2)
    stride = measure_stride(iter(xs) if form else xs)
    steps = [b - a for a, b in zip(xs, xs[1:])]
    if stride is None:
        h.check(h.implies(h.both(*[d == steps[0] for d in steps]), False) if steps else True, 'a constant difference is measured')
    else:
        h.check(h.both(*[d == stride for d in steps]) if steps else False, 'the stride is the difference of all neighbours')
    if n > 1:
        d = h.choose('step', 7) - 3
        if d:
            h.check(measure_stride(range(5, 5 + n * d, d)) == d, 'the stride of a range is its step')


def set_sortedness(h, n):
    xs = ints(h, 'x', n)
    s = SortedFrozenSet(xs)
    for reverse in (False, True):
        for distinct in (False, True):
            h.check(is_sorted(s, reverse=reverse, distinct=distinct) == (not reverse or len(s) < 2), 'a sorted set ascends')
            h.check(is_sorted(s, key=lambda x: -x, reverse=reverse, distinct=distinct) == (reverse or len(s) < 2), 'a sorted set by a key')


# ---------------------------------------------------------------- batching
def batches(h, n, most):
    xs = ints(h, 'x', n)
    size = h.int('size', -2, most)
    padded = h.choose('padded', 2)
    value = h.int('padding', -TOP, TOP)
    try:
        got = list(batched(iter(xs), size, value)) if padded else list(batched(xs, size))
    except ValueError:
        h.check(size < 1, 'refused only without a batch size')
        return
    h.check(size >= 1, 'batch sizes below one are refused')
    size = h.realise(size)
    flat = [x for b in got for x in b]
    h.check(len(got) == -(-n // size), 'as many batches as needed')
    for i, b in enumerate(got):
        h.check(len(b) == size or not padded and i == len(got) - 1 and 0 < len(b) < size, 'batches are full')
    for k in range(len(flat)):
        h.check(flat[k] == (xs[k] if k < n else value), 'items in order, then padding')
    h.check(len(flat) >= n, 'no item is lost')


def padding(h, n, most):
    xs = ints(h, 'x', n)
    value = h.int('padding', -TOP, TOP)
    size = h.choose('size', most + 1)
    got = list(pad(xs, value, size))
    h.check(got == (xs + [value] * size)[:size], 'padded to the size')
    it = pad(iter(xs), value)
    h.check([next(it) for _ in range(n + 3)] == xs + [value] * 3, 'padded without end')


def robin(h, a, b, c):
    xs, ys, zs = ints(h, 'x', a), ints(h, 'y', b), ints(h, 'z', c)
    want = []
    for k in range(max(a, b, c)):
        for s in (xs, ys, zs):
            if k < len(s):
                want.append(s[k])
    h.check(list(roundrobin(xs, iter(ys), tuple(zs))) == want, 'items in turn')
    h.check(list(roundrobin()) == [], 'nothing in turn')


def numbers(h):
    x, y = h.int('x', -TOP, TOP), h.int('y', -TOP, TOP)
    c = cmp(x, y)
    h.check(h.both(same(h, c < 0, x < y), same(h, c > 0, x > y), same(h, c == 0, x == y)), 'comparison')
    h.check(sgn(x) == h.ite(x > 0, 1, h.ite(x < 0, -1, 0)), 'sign')


def rounding(h, multiple):
    x = h.int('x', -TOP, TOP)
    try:
        r = round_up(x, multiple)
    except ValueError:
        h.check(multiple <= 0, 'only multiples that are not positive are refused')
        return
    h.check(multiple > 0, 'multiples that are not positive are refused')
    h.check(r % multiple == 0, 'a multiple')
    h.check(h.both(r >= x, r < x + multiple), 'the least that is not below')


# ---------------------------------------------------------------- intervals
def overlap(h, kind):
    mk = range if kind == 'range' else slice
    a0, b0 = h.int('a', -TOP, TOP), h.int('b', -TOP, TOP)
    an, bn = h.int('na', 1, TOP), h.int('nb', 1, TOP)
    a, b = mk(a0, a0 + an), mk(b0, b0 + bn)
    got = intervals_partially_overlap(a, b)
    want = h.both(h.either(a0 != b0, an != bn), a0 < b0 + bn, b0 < a0 + an)
    h.check(same(h, got, want), 'overlap without coincidence')
    h.check(same(h, intervals_are_contiguous([a, b]), a0 + an == b0), 'contiguous')
    h.check(intervals_are_contiguous([a]) and intervals_are_contiguous([]), 'fewer than two intervals are contiguous')


def complement(h, n, kind, ends):
    mk = range if kind == 'range' else slice
    pos = h.int('start', -TOP, TOP)
    start = pos
    spans = []
    gaps = []
    for k in range(n):
        g = h.int('gap%d' % k, 0, 1000)
        m = h.int('length%d' % k, 0, 1000)
        gaps.append((pos, pos + g))
        spans.append(mk(pos + g, pos + g + m))
        pos = pos + g + m
    tail = h.int('tail', 0, 1000)
    if ends:
        got = list(complementary_intervals(spans, start, pos + tail)) if n else None
        gaps.append((pos, pos + tail))
    else:
        got = list(complementary_intervals(spans)) if n else None
        gaps.append((pos, pos))
        gaps[0] = (gaps[0][1], gaps[0][1])
    if n == 0:
        try:
            complementary_intervals(spans, start, pos)
            ok = True
        except ValueError:
            ok = False
        h.check(not ok, 'no intervals are refused')
        return
    h.check(len(got) == n + 1, 'one more than the intervals')
    for g, (a, b) in zip(got, gaps):
        h.check(type(g) is mk, 'intervals of the same kind')
        h.check(g.start == a and g.stop == b, 'the gaps between the intervals')


def jobs(tier):
    quick = tier == 'quick'
    J = [dict(name='numbers', fn='numbers', params={})]
    for n in range(4 if quick else 5):
        J.append(dict(name='set-%d' % n, fn='frozen', params={'n': n}))
        J.append(dict(name='set-slices-%d' % n, fn='slices', params={'n': n}))
        J.append(dict(name='set-sorted-%d' % n, fn='set_sortedness', params={'n': n}))
        J.append(dict(name='view-%d' % n, fn='view', params={'n': n}))
        for form in ('list', 'iterator', 'tuple', 'generator')[:4 if n < 3 or not quick else 2]:
            J.append(dict(name='sequence-%d-%s' % (n, form), fn='sequences', params={'n': n, 'form': form}))
    for n, m in ((0, 0), (0, 2), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1)) if quick else ((0, 0), (0, 3), (2, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)):
        J.append(dict(name='algebra-%d-%d' % (n, m), fn='algebra', params={'n': n, 'm': m}))
    for step in (-7, -3, -2, -1, 1, 2, 3, 7) if quick else [s for s in range(-16, 17) if s]:
        J.append(dict(name='range%+d' % step, fn='ranges', params={'step': step, 'most': 5 if quick else 9}))
    for n in range(5 if quick else 7):
        J.append(dict(name='sorted-%d' % n, fn='sortedness', params={'n': n}))
        J.append(dict(name='stride-%d' % n, fn='strides', params={'n': n}))
        for sense in (1, -1):
            J.append(dict(name='compress-%d%+d' % (n, sense), fn='compress', params={'n': n, 'sense': sense}))
    for n in range(6 if quick else 9):
        J.append(dict(name='batch-%d' % n, fn='batches', params={'n': n, 'most': 7 if quick else 10}))
        J.append(dict(name='pad-%d' % n, fn='padding', params={'n': n, 'most': 6}))
    for a, b, c in ((0, 0, 0), (1, 0, 2), (3, 1, 2), (2, 2, 2), (0, 3, 1), (1, 2, 3), (4, 0, 0)):
        J.append(dict(name='robin-%d%d%d' % (a, b, c), fn='robin', params={'a': a, 'b': b, 'c': c}))
    for m in (-3, 0, 1, 2, 3, 4, 7, 8, 80, 240, 3200) if quick else list(range(-3, 40)) + [80, 240, 512, 3200, 99991]:
        J.append(dict(name='round%+d' % m, fn='rounding', params={'multiple': m}))
    for kind in ('range', 'slice'):
        J.append(dict(name='overlap-' + kind, fn='overlap', params={'kind': kind}))
        for n in range(4 if quick else 5):
            for ends in (True, False):
                J.append(dict(name='complement-%s-%d%s' % (kind, n, '-ends' if ends else ''), fn='complement', params={'n': n, 'kind': kind, 'ends': ends}))
    return J
