"""C17: scanning a file finds every trace where it is, whatever its length."""
import struct
from segpy.toolkit import catalog_traces, bytes_per_sample
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.binary_reel_header import BinaryReelHeader
from checks.segyspec import field_int

BOUNDS = {'quick': 'files of any length with up to three traces of 0..32767 samples each (or a negative number in one), the first anywhere up to position 4000, any other header bytes, every sample size, both byte orders, both trace header revisions; '
                   'indexes: up to three traces with any inline, crossline and ensemble numbers of magnitude up to 2^20 (three traces: lines up to 60, of which the first is at 3, -4; ensembles up to 1000)',
          'thorough': 'files with up to five traces; numbers thirty times larger'}
OUTSIDE = 'more traces; larger numbers (what catalogs do with numbers in general is C10)'
FORMATS = {1: 4, 2: 4, 3: 2, 5: 4, 8: 1}


REVS = {0: TraceHeaderRev0, 1: TraceHeaderRev1}


def signed(h, b, endian):
    return field_int(h, b, 0, len(b), endian)


def scan(h, fmt, endian, most, rev):
    """any file content: the traces are where the headers say"""
    size = FORMATS[fmt]
    start = h.int('start', 0, 4000)
    bad = h.choose('bad', most + 1)                  # the trace with a negative number of samples
    parts, pos, places = [], start, []
    for k in range(most):
        ns = h.int('samples%d' % k, -32768, -1) if k == bad else h.int('samples%d' % k, 0, 32767)
        head = h.bytes('a%d' % k, 114) + struct.pack(endian + 'h', ns) + h.bytes('b%d' % k, 124)
        parts.append((pos, head))
        places.append((pos, ns))
        if k == bad:
            break
        # equal numbers: no indexes
        h.assume(h.both(*[head[i] == 7 for i in list(range(20, 24)) + list(range(188, 196))]))
        pos = pos + 240 + ns * size
    length = h.int('length', 0, 4000 + most * (240 + 32767 * size) + 239)
    # no more traces than that
    h.assume(length < pos + 240)
    f = h.array_file('content', length, parts=parts)
    f.seek(start)
    bps = bytes_per_sample(BinaryReelHeader(data_sample_format=fmt))
    h.check(bps == size, 'sample size')
    try:
        got = catalog_traces(f, bps, REVS[rev], endian)
    except ValueError:
        h.check(bad < most, 'refused only for a negative sample count')
        h.check(places[bad][0] + 240 <= length, 'refused only for a negative sample count in the file')
        return
    if bad < most:
        h.check(places[bad][0] + 240 > length, 'negative sample counts are refused')
    offsets, lengths, cdps, inxs = got
    n = len(offsets)
    h.observe('n', n)
    h.check(n <= most, 'no more traces than there are')
    h.check(h.both(*[places[k][0] + 240 <= length for k in range(n)]), 'every trace has a header within the file')
    if n < len(places):
        h.check(places[n][0] + 240 > length, 'no trace is missed')
    h.check(len(lengths) == n, 'as many lengths as traces')
    h.check(list(offsets) == list(range(n)) and list(lengths) == list(range(n)), 'traces are numbered in order')
    for k in range(n):
        p, ns = places[k]
        h.check(offsets[k] == p, 'where the trace starts')
        h.check(lengths[k] == ns, 'length of the trace')
    h.check(h.either(n < 2, h.both(cdps is None, inxs is None)), 'no index of equal numbers')
    if n < 2:
        h.check(len(cdps) == n, 'index of a single trace')
        h.check(inxs is None if rev == 0 else len(inxs) == n, 'line index of a single trace')


def number(h, name, top, endian):
    v = h.int(name, -top, top)
    return v, struct.pack(endian + 'i', v)


def index(h, n, what, endian, top, samples, order=None):
    """any coordinates: indexes lead to the trace carrying them"""
    data = b'#' * 10
    keys = []
    five, seven = (bytes([0, 0, 0, v]) if endian == '>' else bytes([v, 0, 0, 0]) for v in (5, 7))
    for k in range(n):
        ns = samples[k % len(samples)]
        ib = xb = five
        cb = seven
        i = x = 5
        if what == 'line':
            i, ib = number(h, 'inline%d' % k, top, endian)
            x, xb = number(h, 'xline%d' % k, top, endian)
            if order is not None and k == 0:
                h.assume(h.both(i == 3, x == -4))
            if order is not None and k == 1:
                h.assume((i < 3, i == 3, i > 3)[order])
        else:
            c, cb = number(h, 'cdp%d' % k, top, endian)
        head = bytes([1] * 20) + cb + bytes(range(90)) + (bytes([0, ns]) if endian == '>' else bytes([ns, 0])) + bytes([2] * 72) + ib + xb + bytes(44)
        assert len(head) == 240
        data = data + head + bytes([200] * (2 * ns))
        keys.append((i, x) if what == 'line' else c)
    f = h.file(data)
    f.seek(10)
    offsets, lengths, cdps, inxs = catalog_traces(f, 2, TraceHeaderRev1 if what == 'line' or n != 2 else TraceHeaderRev0, endian)
    pos = 10
    for k in range(n):
        h.check(offsets[k] == pos, 'where the trace starts')
        h.check(lengths[k] == samples[k % len(samples)], 'length of the trace')
        pos += 240 + 2 * lengths[k]
    h.check(len(offsets) == n, 'as many traces as there are')
    same = [h.both(a[0] == b[0], a[1] == b[1]) if what == 'line' else a == b for j, a in enumerate(keys) for b in keys[:j]]
    unique = h.implies(h.either(*same) if same else False, False)
    cat, other = (inxs, cdps) if what == 'line' else (cdps, inxs)
    h.check(h.both(h.implies(cat is not None, unique), h.implies(unique, cat is not None)), 'an index exactly when the numbers are unique')
    h.check((other is None) == (n > 1), 'no index for equal numbers')
    if cat is None:
        return
    h.check(len(cat) == n, 'one entry for each trace')
    for k, key in enumerate(keys):
        h.check(key in cat, 'the numbers of each trace are in the index')
        h.check(cat[key] == k, 'the index gives the trace with the numbers')
    for key in cat:
        h.check(h.either(*[h.both(key[0] == a[0], key[1] == a[1]) if what == 'line' else key == a for a in keys]), 'no other entries')


def refused(h):
    f = h.file(bytes(500))
    try:
        catalog_traces(f, 4, progress=3)
        ok = True
    except TypeError:
        ok = False
    h.check(not ok, 'progress must be callable')


def jobs(tier):
    quick = tier == 'quick'
    J = [dict(name='refused', fn='refused', params={})]
    for fmt in FORMATS:
        for endian in '><':
            J.append(dict(name='scan-%d%s' % (fmt, endian), fn='scan', params={'fmt': fmt, 'endian': endian, 'most': 3 if quick else 5, 'rev': 0 if fmt == 2 else 1}))
    for n in range(4):
        for what in ('line', 'cdp'):
            for endian in '><':
                top = 60 if n == 3 and what == 'line' else 1000 if n == 3 else 1 << 20
                for order in ((0, 1, 2) if n == 3 and what == 'line' and quick else (None,)):
                    if order is not None and (endian == '>') != (order == 1):
                        continue
                    J.append(dict(name='index-%s-%d%s%s' % (what, n, endian, '' if order is None else order), fn='index',
                                  params={'n': n, 'what': what, 'endian': endian, 'top': top if quick else 30 * top, 'samples': [3, 0, 2] if endian == '>' else [2], 'order': order}))
    return J
