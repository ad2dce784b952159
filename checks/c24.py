"""C24: array extraction puts every sample and header value in its cell."""
import struct
from segpy.binary_reel_header import BinaryReelHeader
from segpy.catalog import CatalogBuilder
from segpy.reader import SegYReader3D
from segpy.trace_header import TraceHeaderRev1
from segpy_numpy.extract import (extract_trace_headers, extract_trace_header_field_3d, extract_trace, extract_inline_3d,
                                 extract_xline_3d, extract_timeslice_3d)
from segpy_numpy.util import ensure_superset
from checks.segyspec import TRACE1

BOUNDS = {'quick': 'surveys of 1..6 traces of 0..4 samples with lines missing, uneven or descending and traces short; any bytes as samples (IEEE, IBM, 8, 16, 32 bit integers), any values in the header fields extracted; '
                   'selections: none, any slice, any sequence of up to 3 numbers in and around the survey, in any order, repeated or not; with and without a null value',
          'thorough': 'larger surveys and more numbers selected'}
OUTSIDE = ('the numpy library itself (modelled: cells may be symbolic, shapes, positions and broadcasting are numpy\'s own); NaN samples; descending slices of line numbers; other extents; '
           'ArrayDataset3d, which is unfinished')
SIZES = {1: 4, 2: 4, 3: 2, 5: 4, 8: 1}
DTYPES = {1: 'float32', 2: 'int32', 3: 'int16', 5: 'float32', 8: 'int8'}
LAYOUT = {name: (off, size, lo, hi, enum) for name, off, (size, lo, hi, enum) in TRACE1}
# (inline, crossline, samples)
SURVEYS = {
    'grid': [(1, 10, 2), (1, 12, 2), (2, 10, 2), (2, 12, 2)],
    'gaps': [(1, 10, 2), (1, 14, 1), (3, 12, 3), (4, 10, 0)],
    'short': [(5, 1, 3), (5, 2, 1), (7, 1, 2), (7, 2, 3)],
    'down': [(9, 3, 1), (9, 2, 2), (8, 3, 2), (8, 2, 1), (7, 2, 1)],
    'row': [(2, 4, 3), (2, 6, 3), (2, 8, 1)],
    'column': [(4, 2, 2), (6, 2, 2), (8, 2, 2)],
    'lone': [(3, 3, 4)],
    'bare': [(1, 1, 0), (1, 2, 0)],
    'wide': [(1, 1, 4), (1, 2, 4), (1, 5, 2), (2, 2, 4), (2, 5, 3), (4, 1, 1)],
}


def make(h, traces, fmt, fields=(), endian='>'):
    h.arrays()
    data = b''
    offsets, lengths, lines = CatalogBuilder(), CatalogBuilder(), CatalogBuilder()
    values = {}
    for k, (i, x, n) in enumerate(traces):
        head = bytes(240)
        offsets.add(k, len(data))
        lengths.add(k, n)
        lines.add((i, x), k)
        fixed = dict(num_samples=n, inline_number=i, crossline_number=x)
        for name in set(fixed) | set(fields):
            off, size, lo, hi, enum = LAYOUT[name]
            v = fixed[name] if name in fixed else enum[(k * 5 + 1) % len(enum)] if enum else h.int('%s.%d' % (name, k), lo, hi)
            values[k, name] = v
            head = head[:off - 1] + struct.pack(endian + {2: 'h', 4: 'i'}[size], v) + head[off - 1 + size:]
        for name in ('data_use', 'correlated'):
            if name not in fields:
                head = head[:LAYOUT[name][0] - 1] + struct.pack(endian + 'h', 1) + head[LAYOUT[name][0] + 1:]
        body = h.bytes('body%d' % k, n * SIZES[fmt])
        if fmt == 5:
            for j in range(n):
                hi, lo = (body[4 * j], body[4 * j + 1]) if endian == '>' else (body[4 * j + 3], body[4 * j + 2])
                h.assume(h.either(hi & 127 != 127, lo < 128))
        data = data + head + body
    binary = BinaryReelHeader(data_sample_format=fmt, format_revision_num=256)
    r = SegYReader3D(h.file(data), [' ' * 80] * 40, binary, [], offsets.create(), lengths.create(), lines.create(), TraceHeaderRev1, 'ascii', endian)
    return r, values


def selection(h, tag, kind, numbers, steps=(1, 2)):
    """(argument, the numbers it selects in order or None: refused)"""
    L = list(numbers)
    if kind == 'none':
        return None, L
    if kind == 'slice':
        n = len(L)
        ends = [None] + list(range(-n - 1, n + 2))
        a = ends[h.choose(tag + 'start', len(ends))]
        b = ends[h.choose(tag + 'stop', len(ends))]
        step = steps[h.choose(tag + 'step', len(steps))]
        s = slice(a, b, step)
        return s, L[s]
    if kind == 'down':
        n = len(L)
        ends = [None] + list(range(-n, n))
        s = slice(ends[h.choose(tag + 'start', len(ends))], ends[h.choose(tag + 'stop', len(ends))], -steps[h.choose(tag + 'step', len(steps))])
        return s, L[s]
    if kind == 'range':
        lo, hi = (L[0] - 2, L[-1] + 2) if L else (-1, 1)
        a = h.choose(tag + 'start', hi - lo + 1) + lo
        b = h.choose(tag + 'stop', hi - lo + 2) + lo
        step = steps[h.choose(tag + 'step', len(steps))] * (1, -1)[h.choose(tag + 'sign', 2)]
        want = range(a, b, step)
    else:
        lo, hi = (L[0] - 1, L[-1] + 1) if L else (-1, 1)
        want = [h.int('%s%d' % (tag, k), lo, hi) for k in range(kind)]
        want = [w if type(w) is int else w for w in want]
    for w in want:
        if not any(w == v for v in L):
            return want, None
    return want, [v for v in L if any(w == v for w in want)]


def stored(h, r, fmt, k, j):
    v = r.trace_samples(k)[j]
    return h.single(v) if fmt in (1, 5) else v


def same(h, fmt, a, b):
    if a is None or b is None or isinstance(a, str):
        return a is b
    return h.f64bits(a) == h.f64bits(b) if fmt in (1, 5) else a == b


def refused(h, f, *a, **k):
    try:
        f(*a, **k)
    except ValueError:
        return
    h.fail('a request for what is not there is answered')


def compare(h, fmt, array, dtype, null, want):
    """want: rows of cells, None for an empty one"""
    shape, dt, masked, cells = h.cells(array)
    h.check(dt == dtype, 'type of the array')
    h.check(masked == (null is None), 'masked array')
    h.check(shape == want[0], 'shape of the array')
    for got, exp in zip(cells, want[1]):
        for g, e in zip(got, exp):
            h.check(same(h, fmt, g, null if e is None else e), 'cell')


def section(h, survey, fmt, which, line, others, samples, null, endian='>'):
    """an inline or a crossline"""
    traces = SURVEYS[survey]
    r, _ = make(h, traces, fmt, (), endian)
    axis = 0 if which == 'inline' else 1
    cross = sorted({t[1 - axis] for t in traces})
    depth = max(t[2] for t in traces)
    arg1, sel1 = selection(h, 'line', others, cross)
    arg2, sel2 = selection(h, 'sample', samples, range(depth))
    if fmt in (1, 5) and null is not None:
        null = h.single(null)
    f = extract_inline_3d if which == 'inline' else extract_xline_3d
    if sel1 is None or sel2 is None or not any(t[axis] == line for t in traces):
        refused(h, f, r, line, arg1, arg2, null)
        return
    place = {t[:2]: k for k, t in enumerate(traces)}
    rows = []
    for c in sel1:
        k = place.get((line, c) if axis == 0 else (c, line))
        rows.append([stored(h, r, fmt, k, j) if k is not None and j < traces[k][2] else None for j in sel2])
    compare(h, fmt, f(r, line, arg1, arg2, null), DTYPES[fmt], null, ((len(sel1), len(sel2)), rows))


def timeslice(h, survey, fmt, inlines, xlines, null, endian='>', at=None):
    traces = SURVEYS[survey]
    r, _ = make(h, traces, fmt, (), endian)
    depth = max(t[2] for t in traces)
    j = h.choose('sample', depth + 4) - 2 if at is None else at
    arg1, sel1 = selection(h, 'inline', inlines, sorted({t[0] for t in traces}))
    arg2, sel2 = selection(h, 'xline', xlines, sorted({t[1] for t in traces}))
    if sel1 is None or sel2 is None or not 0 <= j < depth:
        refused(h, extract_timeslice_3d, r, j, arg1, arg2, null)
        return
    place = {t[:2]: k for k, t in enumerate(traces)}
    rows = []
    for i in sel1:
        ks = [place.get((i, x)) for x in sel2]
        rows.append([stored(h, r, fmt, k, j) if k is not None and j < traces[k][2] else None for k in ks])
    compare(h, fmt, extract_timeslice_3d(r, j, arg1, arg2, null), DTYPES[fmt], null, ((len(sel1), len(sel2)), rows))


def trace(h, survey, fmt, samples, endian='>', k=None):
    traces = SURVEYS[survey]
    r, _ = make(h, traces, fmt, (), endian)
    k = h.choose('trace', len(traces) + 2) - 1 if k is None else k
    if not 0 <= k < len(traces):
        refused(h, extract_trace, r, k, None)
        return
    arg, sel = selection(h, 'sample', samples, range(traces[k][2]))
    if sel is None:
        refused(h, extract_trace, r, k, arg)
        return
    shape, dt, masked, cells = h.cells(extract_trace(r, k, arg))
    h.check(dt == DTYPES[fmt], 'type of the array')
    h.check(shape == (len(sel),), 'shape of the array')
    for g, j in zip(cells, sel):
        h.check(same(h, fmt, g, stored(h, r, fmt, k, j)), 'cell')


def field_3d(h, survey, fields, inlines, xlines, null, named, endian='>'):
    traces = SURVEYS[survey]
    r, values = make(h, traces, 8, fields, endian)
    arg1, sel1 = selection(h, 'inline', inlines, sorted({t[0] for t in traces}))
    arg2, sel2 = selection(h, 'xline', xlines, sorted({t[1] for t in traces}))
    asked = [getattr(TraceHeaderRev1, f) if named else f for f in fields]
    if sel1 is None or sel2 is None:
        refused(h, extract_trace_header_field_3d, r, asked, arg1, arg2, null)
        return
    out = extract_trace_header_field_3d(r, iter(asked), arg1, arg2, null)
    h.check(list(out._fields) == list(fields), 'fields')
    place = {t[:2]: k for k, t in enumerate(traces)}
    for f, a in zip(fields, out):
        h.check(a is getattr(out, f), 'fields')
        rows = [[values.get((place.get((i, x)), f)) for x in sel2] for i in sel1]
        compare(h, 0, a, 'int%d' % (8 * LAYOUT[f][1]), null, ((len(sel1), len(sel2)), rows))


def headers(h, survey, fields, count, named, endian='>'):
    traces = SURVEYS[survey]
    r, values = make(h, traces, 8, fields, endian)
    asked = [getattr(TraceHeaderRev1, f) if named else f for f in fields]
    if count is None:
        which = None
        ks = list(range(len(traces)))
    else:
        ks = [h.choose('trace%d' % k, len(traces) + 2) - 1 for k in range(count)]
        which = iter(ks)
        if any(not 0 <= k < len(traces) for k in ks):
            refused(h, extract_trace_headers, r, asked, which)
            return
    out = extract_trace_headers(r, asked, which)
    h.check(list(out._fields) == list(fields), 'fields')
    for f, a in zip(fields, out):
        shape, dt, masked, cells = h.cells(a)
        h.check(dt == 'int%d' % (8 * LAYOUT[f][1]), 'type of the array')
        h.check(shape == (len(ks),), 'shape of the array')
        for k, g in zip(ks, cells):
            h.check(g == values[k, f], 'cell')


def jobs(tier):
    quick = tier == 'quick'
    J = []

    def add(name, fn, **k):
        J.append(dict(name=name, fn=fn, params=k))
    i = 0
    for survey, traces in SURVEYS.items():
        if quick and survey == 'wide':
            continue
        kinds = ['none', 0, 1, 2, 3]
        if not quick or survey in ('gaps', 'short', 'down', 'lone'):
            kinds += ['slice', 'range']
        ins, xs = sorted({t[0] for t in traces}), sorted({t[1] for t in traces})
        for which, lines in (('inline', ins), ('xline', xs)):
            for kind in kinds:
                i += 1
                line = lines[i % len(lines)]
                fmt = (8, 3, 5, 2)[i % 4]
                add('%s-%s-line-%s' % (which, survey, kind), 'section', survey=survey, fmt=fmt, which=which, line=line, others=kind, samples='none', null=(None, -7, 0)[i % 3], endian='><'[i % 2])
            for kind in kinds + ['down']:
                i += 1
                line = lines[i % len(lines)]
                fmt = (8, 3, 5, 2)[i % 4]
                add('%s-%s-sample-%s' % (which, survey, kind), 'section', survey=survey, fmt=fmt, which=which, line=line, others='none', samples=kind, null=(None, -7, 0)[i % 3], endian='><'[i % 2])
            add('%s-%s-absent' % (which, survey), 'section', survey=survey, fmt=8, which=which, line=(lines[0] - 1, lines[-1] + 1, 0)[i % 3], others='none', samples='none', null=None)
            add('%s-%s-both' % (which, survey), 'section', survey=survey, fmt=8, which=which, line=lines[-1], others=1, samples=2, null=None)
        for kind in kinds:
            i += 1
            at = None if kind in ('none', 0, 1) else traces[i % len(traces)][2] - 1
            add('timeslice-%s-%s' % (survey, kind), 'timeslice', survey=survey, fmt=(8, 3, 5, 2)[i % 4], inlines=kind, xlines='none', null=(None, -7, 0)[i % 3], endian='><'[i % 2], at=at)
            add('timeslice-%s-x%s' % (survey, kind), 'timeslice', survey=survey, fmt=(8, 3, 5, 2)[i // 4 % 4], inlines='none', xlines=kind, null=(None, -7, 0)[i % 3], endian='><'[i % 2], at=at)
        for kind in kinds + ['down']:
            i += 1
            add('trace-%s-%s' % (survey, kind), 'trace', survey=survey, fmt=(8, 3, 5, 2)[i % 4], samples=kind, endian='><'[i % 2], k=None if kind in ('none', 0, 1, 2) else i % len(traces))
        sets = [('trace_num',), ('cdp_x', 'line_sequence_num'), ('data_use', 'source_depth_below_surface', 'num_samples'), ('crossline_number', 'inline_number', 'ensemble_num', 'day_of_year')]
        for k, fields in enumerate(sets):
            i += 1
            add('field3d-%s-%d' % (survey, k), 'field_3d', survey=survey, fields=list(fields), inlines=kinds[i % len(kinds)], xlines=kinds[(i // 7 + k) % len(kinds)] if not i % 5 else 'none', null=(None, -7, 1)[i % 3] if k != 2 else None, named=bool(i % 2), endian='><'[i // 2 % 2])
            add('headers-%s-%d' % (survey, k), 'headers', survey=survey, fields=list(fields), count=(None, 0, 1, 2)[i % 4], named=not i % 2, endian='><'[i // 2 % 2])
    for which, line in (('inline', 5), ('xline', 2)):
        add('%s-ibm' % which, 'section', survey='short', fmt=1, which=which, line=line, others='none', samples='none', null=None)
    add('timeslice-ibm', 'timeslice', survey='lone', fmt=1, inlines='none', xlines='none', null=0)
    add('trace-ibm', 'trace', survey='lone', fmt=1, samples='none')
    return J
