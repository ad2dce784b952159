"""C19: spatial indexes agree with the trace headers and dimensionality is right."""
import struct
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

BOUNDS = {'quick': 'files of up to three traces (two different lengths), inline, crossline and ensemble numbers of magnitude up to 2^10 (three traces: lines up to 30, the first at 3, -4; ensembles up to 100); '
                   'looking up any numbers; both byte orders and revisions of trace headers, dimensionality chosen by the reader or forced to 1, 2 or 3',
          'thorough': 'numbers up to 2^20, with three traces thirty times larger'}
OUTSIDE = 'more traces; larger numbers (what catalogs do with numbers in general is C10)'


def number(h, name, top, endian):
    v = h.int(name, -top, top)
    return v, struct.pack(endian + 'i', v)


def spatial(h, n, endian, top, rev, forced, lines, cdps, order=None, look=True):
    """lines and cdps: 'any', 'equal' or 'different' numbers"""
    reel = ('C%-79d' % 1).encode() * 40 + bytes(24) + struct.pack(endian + 'h', 3) + bytes(374)
    data = reel
    keys, ens = [], []
    for k in range(n):
        ns = (3, 0, 2)[k]
        i, x, c = 5, (6 if lines == 'equal' else 6 + 2 * k), (7 if cdps == 'equal' else 7 - 3 * k)
        ib, xb, cb = (struct.pack(endian + 'i', v) for v in (i, x, c))
        if lines == 'any':
            i, ib = number(h, 'inline%d' % k, top, endian)
            x, xb = number(h, 'xline%d' % k, top, endian)
            if order is not None and k == 0:
                h.assume(h.both(i == 3, x == -4))
            if order is not None and k == 1:
                h.assume(h.both((i < 3, i == 3, i > 3)[order[0]], (x < -4, x == -4, x > -4)[order[1]]))
        if cdps == 'any':
            c, cb = number(h, 'cdp%d' % k, top, endian)
        head = bytes([1] * 20) + cb + bytes(90) + struct.pack(endian + 'h', ns) + bytes([2] * 72) + ib + xb + bytes(44)
        assert len(head) == 240
        data = data + head + bytes([200] * (2 * ns))
        keys.append((i, x))
        ens.append(c)
    r = create_reader(h.file(data), encoding='ascii', endian=endian, cache_directory=None, dimensionality=forced,
                      trace_header_format=TraceHeaderRev1 if rev else TraceHeaderRev0)
    h.check(r.num_traces() == n, 'number of traces')
    uline = rev == 1 and h.both(True, *[h.either(a[0] != b[0], a[1] != b[1]) for j, a in enumerate(keys) for b in keys[:j]])
    ucdp = h.both(True, *[a != b for j, a in enumerate(ens) for b in ens[:j]])
    is2, is3 = hasattr(r, 'cdp_numbers'), hasattr(r, 'inline_numbers')
    if n == 0:
        h.check(forced is None or (is3 == (forced == 3) and is2 == (forced == 2)), 'access as forced')
        if is3:
            h.check(len(r.inline_numbers()) == 0 and len(r.xline_numbers()) == 0 and r.num_inlines() == 0 and r.num_xlines() == 0, 'no lines without traces')
            h.check(list(r.inline_xline_numbers()) == [] and not r.has_trace_index((1, 2)), 'no lines without traces')
        if is2:
            h.check(len(r.cdp_numbers()) == 0 and r.num_cdps() == 0 and not r.has_trace_index(1), 'no ensembles without traces')
        return
    if forced is None:
        h.check(h.both(h.implies(is3, uline), h.implies(uline, is3)), 'line access exactly when the pairs are unique')
        h.check(h.implies(is2, ucdp), 'ensemble access only when numbers are unique')
        h.check(is2 or is3 or h.implies(ucdp, False), 'ensemble access when numbers are unique')
    else:
        h.check(is3 == (forced == 3) and is2 == (forced == 2), 'access as forced')
    h.check(r.dimensionality == (3 if is3 else 2 if is2 else 1 if n == 1 else 0), 'dimensionality')
    if is3:
        if forced is None or uline:
            listed(h, r.inline_numbers(), [k[0] for k in keys], 'inline')
            listed(h, r.xline_numbers(), [k[1] for k in keys], 'crossline')
            h.check(r.num_inlines() == len(r.inline_numbers()) and r.num_xlines() == len(r.xline_numbers()), 'number of lines')
            pairs = list(r.inline_xline_numbers())
            h.check(len(pairs) == n, 'as many pairs as traces')
            h.check(h.both(*[h.either(*[h.both(p[0] == k[0], p[1] == k[1]) for k in keys]) for p in pairs]), 'pairs are in the trace headers')
            for k, key in enumerate(keys):
                h.check(r.has_trace_index(key), 'each pair is known')
                h.check(r.trace_index(key) == k, 'looking up a pair gives the trace')
        if not look:
            return
        q = (h.int('i', -top, top), 6 if lines != 'any' else h.int('x', -top, top))
        there = [h.both(q[0] == k[0], q[1] == k[1]) for k in keys]
        lookup(h, r, q, there, forced is not None)
    if is2:
        if forced is None or ucdp:
            listed(h, r.cdp_numbers(), ens, 'ensemble')
            h.check(r.num_cdps() == n, 'number of ensembles')
            for k, key in enumerate(ens):
                h.check(r.has_trace_index(key), 'each ensemble is known')
                h.check(r.trace_index(key) == k, 'looking up an ensemble gives the trace')
        if not look:
            return
        q = h.int('c', -top, top)
        lookup(h, r, q, [q == k for k in ens], forced is not None)


def lookup(h, r, q, there, partly):
    """partly: the index may be missing"""
    try:
        t = r.trace_index(q)
    except KeyError:
        h.check(not r.has_trace_index(q), 'known numbers can be looked up')
        h.check(partly or h.implies(h.either(*there), False), 'numbers of traces can be looked up')
        return
    h.check(r.has_trace_index(q), 'what can be looked up is known')
    h.check(h.both(0 <= t, t < len(there)), 'looking up gives a trace')
    for k, c in enumerate(there):
        h.check(h.implies(t == k, c), 'looking up gives a trace that carries the numbers')


def listed(h, seq, numbers, what):
    seq = list(seq)
    h.check(h.both(True, *[a < b for a, b in zip(seq, seq[1:])],
                   *[h.either(*[v == a for a in numbers]) for v in seq],
                   *[h.either(*[v == a for v in seq]) for a in numbers]), what + ' numbers are those of the trace headers, ascending')


def jobs(tier):
    quick = tier == 'quick'
    J = []

    def add(name, **k):
        J.append(dict(name=name, fn='spatial', params=k))
    big = 1 << 10 if quick else 1 << 20
    for forced in (None, 1, 2, 3):
        add('none-%s' % forced, n=0, endian='>', top=5, rev=1, forced=forced, lines='equal', cdps='equal')
        add('one-%s' % forced, n=1, endian='<', top=big, rev=1, forced=forced, lines='any', cdps='any')
        for lines in ('any', 'equal'):
            add('two-%s-%s' % (forced, lines), n=2, endian='>' if lines == 'any' else '<', top=big, rev=1, forced=forced, lines=lines, cdps='equal' if lines == 'any' else 'any')
        add('rev0-two-%s' % forced, n=2, endian='>', top=big, rev=0, forced=forced, lines='different', cdps='any')
    add('rev0-one', n=1, endian='>', top=big, rev=0, forced=None, lines='any', cdps='any')
    add('two-both', n=2, endian='>', top=100, rev=1, forced=None, lines='any', cdps='any')
    for cdps in ('equal', 'different'):
        add('two-%s-cdps' % cdps, n=2, endian='<', top=big, rev=1, forced=None, lines='any', cdps=cdps)
    for order in range(3):
        for sub in range(3):
            add('three-lines-%d%d' % (order, sub), n=3, endian='><>'[order], top=30 if quick else 900, rev=1, forced=None, lines='any', cdps='different', order=(order, sub), look=not quick)
    for lines in ('equal', 'different'):
        add('three-cdps-%s' % lines, n=3, endian='>', top=100 if quick else 3000, rev=1 if lines == 'equal' else 0, forced=None, lines=lines, cdps='any', look=lines == 'equal')
    add('three-cdps-forced', n=3, endian='<', top=100 if quick else 3000, rev=1, forced=2, lines='different', cdps='any', look=not quick)
    return J
