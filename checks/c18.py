"""C18: random access returns exactly the requested samples and headers."""
import struct
from segpy.reader import create_reader
from segpy.header import SubFormatMeta
from segpy.packer import make_header_packer
from segpy.trace_header import TraceHeaderRev1
from checks.c12 import check_values
from checks.segyspec import field_int

BOUNDS = {'quick': 'files of two or three traces, each with any number of samples 0..3 (floats: 0..2; full-length traces: 0..32767), any sample bytes, any values in the four-byte header fields; every sample format and byte order (IBM floats: big-endian); '
                   'any window of the samples, also out of range; any two valid accesses in a row (traces of up to 2 samples), the file left at any position in between',
          'thorough': 'as quick with up to 5 samples, three traces and three accesses'}
OUTSIDE = 'longer windows; IBM floats in little-endian files (ambiguous); header fields with a restricted set of values (C06, C07)'
KINDS = {1: 'IBM', 2: 'INT32', 3: 'INT16', 5: 'FLOAT32', 8: 'INT8'}
SIZES = {1: 4, 2: 4, 3: 2, 5: 4, 8: 1}
# four-byte fields of a trace header that may hold anything: (name, offset)
FREE = [('line_sequence_num', 0), ('field_record_num', 8), ('trace_num', 12), ('cdp_x', 180), ('cdp_y', 184), ('shotpoint_number', 196)]


def make(h, n, fmt, endian, most):
    """a file of n traces, and where they are"""
    reel = ('C%-79d' % 1).encode() * 40 + bytes(12) + bytes(12) + (struct.pack(endian + 'h', fmt)) + bytes(374)
    assert len(reel) == 3600
    parts, places, pos = [(0, reel)], [], 3600
    for k in range(n):
        ns = h.int('samples%d' % k, 0, most)
        free = [h.bytes('%s%d' % (name, k), 4) for name, off in FREE]
        head = bytes(240)
        head = head[:34] + struct.pack(endian + 'h', 1) + head[36:114] + struct.pack(endian + 'h', ns) + head[116:124] + struct.pack(endian + 'h', 1) + head[126:]
        for (name, off), b in zip(FREE, free):
            head = head[:off] + b + head[off + 4:]
        parts.append((pos, head))
        places.append((pos, ns, dict(zip([name for name, off in FREE], free))))
        pos = pos + 240 + ns * SIZES[fmt]
    f = h.array_file('content', pos, parts=parts)
    return f, places


def check_samples(h, vals, data, fmt, endian, m):
    if fmt == 1:                            # what they are worth is C02, C03
        h.check(len(vals) == m, 'number of samples')
        for i in range(m):
            h.check(bytes(vals[i]) == bytes(data[4 * i:4 * i + 4]), 'samples')
    else:
        check_values(h, vals, data, KINDS[fmt], endian, m, 'samples')


def access(h, f, reader, places, fmt, endian, tag, most, kind, few):
    n = len(places)
    size = SIZES[fmt]
    k = h.choose('trace' + tag, n) if few else h.choose('trace' + tag, n + 2) - 1
    if kind == 'header':
        sub = fmt % 2 if few else h.choose('part' + tag, 2)
        packer = None
        if sub:
            class Part(metaclass=SubFormatMeta, parent_format=TraceHeaderRev1, parent_field_names=['trace_num', 'cdp_y', 'num_samples']):
                pass
            packer = make_header_packer(Part, endian)
        try:
            head = reader.trace_header(k, packer) if sub else reader.trace_header(k)
        except ValueError:
            h.check(not 0 <= k < n, 'headers of traces are not refused')
            return
        h.check(0 <= k < n, 'headers of absent traces are refused')
        pos, ns, free = places[k]
        h.check(head.num_samples == ns, 'header field')
        for name, b in free.items():
            if not sub or name in ('trace_num', 'cdp_y'):
                h.check(getattr(head, name) == field_int(h, b, 0, 4, endian), 'header field')
        return
    start = h.int('start' + tag, -1, most + 1) if few or h.choose('from' + tag, 2) else None
    stop = h.int('stop' + tag, -1, most + 1) if few or h.choose('to' + tag, 2) else None
    if not 0 <= k < n:
        try:
            reader.trace_samples(k, start, stop)
            ok = True
        except ValueError:
            ok = False
        h.check(not ok, 'samples of absent traces are refused')
        return
    pos, ns, free = places[k]
    a = 0 if start is None else start
    b = ns if stop is None else stop
    fits = h.both(0 <= a, a <= b, b <= ns)
    try:
        vals = reader.trace_samples(k, start, stop)
        ok = True
    except ValueError:
        ok = False
    h.check(h.both(h.implies(ok, fits), h.implies(fits, ok)), 'refused exactly when the window is not within the trace')
    if not ok:
        return
    m = h.realise(b - a)
    p = pos + 240 + a * size
    data = [h.array_byte(f, p + i) for i in range(m * size)]
    check_samples(h, vals, data, fmt, endian, m)


def random_access(h, n, fmt, endian, most, steps):
    f, places = make(h, n, fmt, endian, most)
    reader = create_reader(f, encoding='ascii', endian=endian, cache_directory=None, dimensionality=1)
    h.check(reader.num_traces() == n and list(reader.trace_indexes()) == list(range(n)), 'traces')
    for i, kind in enumerate(steps):
        if i:
            f.seek(h.int('pos%d' % i, 0, 5000))
        access(h, f, reader, places, fmt, endian, str(i), most, kind, len(steps) > 1)
    for k in range(n):
        h.check(reader.num_trace_samples(k) == places[k][1], 'number of samples')
    top = reader.max_num_trace_samples()
    h.check(h.both(h.either(*[top == p[1] for p in places]), *[top >= p[1] for p in places]), 'most samples of any trace')


def long_traces(h, n, fmt, endian):
    """windows deep inside long traces"""
    f, places = make(h, n, fmt, endian, 32767)
    reader = create_reader(f, encoding='ascii', endian=endian, cache_directory=None, dimensionality=1)
    k = h.choose('trace', n)
    pos, ns, free = places[k]
    a = h.int('start', 0, 32767)
    m = h.choose('window', 3)
    h.assume(a + m <= ns)
    vals = reader.trace_samples(k, a, a + m)
    p = pos + 240 + a * SIZES[fmt]
    data = [h.array_byte(f, p + i) for i in range(m * SIZES[fmt])]
    check_samples(h, vals, data, fmt, endian, m)
    head = reader.trace_header(k)
    h.check(head.num_samples == ns, 'header field')


def jobs(tier):
    quick = tier == 'quick'
    J = []
    for fmt in KINDS:
        for endian in '><' if fmt != 1 else '>':
            for steps in (('samples',), ('header', 'samples'), ('samples', 'header')):
                if quick and len(steps) == 2 and (endian == '<') != (fmt in (2, 8)):
                    continue
                J.append(dict(name='access-%d%s-%s' % (fmt, endian, '-'.join(steps)), fn='random_access',
                              params={'n': 2 if quick else 3, 'fmt': fmt, 'endian': endian, 'most': (3 if len(steps) == 1 and fmt != 5 else 2) if quick else 5, 'steps': steps}))
            J.append(dict(name='long-%d%s' % (fmt, endian), fn='long_traces', params={'n': 2, 'fmt': fmt, 'endian': endian}))
    J.append(dict(name='access-3-samples-samples', fn='random_access', params={'n': 2, 'fmt': 3, 'endian': '>', 'most': 2, 'steps': ('samples', 'samples')}))
    J.append(dict(name='access-2-three', fn='random_access', params={'n': 3, 'fmt': 8, 'endian': '>', 'most': 2 if quick else 5, 'steps': ('header',)}))
    return J
