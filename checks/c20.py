"""C20: a truncated file never yields wrong data."""
import struct
from segpy.reader import create_reader
from segpy.toolkit import (read_textual_reel_header, read_binary_reel_header, read_extended_textual_headers, read_trace_header, read_binary_values, bytes_per_sample)
from segpy.datatypes import SegYType
from segpy.header import SubFormatMeta
from segpy.packer import make_header_packer
from segpy.binary_reel_header import BinaryReelHeader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from checks.c12 import check_values
from checks.segyspec import field_int

BOUNDS = {'quick': 'files of 0..3 traces of different lengths (0..4 samples), without extended headers, with one, and with two of undeclared number, cut at every byte; any sample bytes and four-byte trace header fields; every sample format, both byte orders; '
                   'all sample windows; encoding given or guessed, every dimensionality and both revisions',
          'thorough': 'as quick, with traces up to 9 samples'}
OUTSIDE = 'longer files; files altered otherwise than by cutting them'
KINDS = {1: 'IBM', 2: 'INT32', 3: 'INT16', 5: 'FLOAT32', 8: 'INT8'}
SIZES = {1: 4, 2: 4, 3: 2, 5: 4, 8: 1}
FREE = [('line_sequence_num', 0), ('field_record_num', 8), ('trace_num', 12), ('shotpoint_number', 196)]
ERRORS = (EOFError, ValueError)


def pages(ext):
    """extended headers: none, one, or two of which the last says so"""
    page = lambda text: (text.ljust(3200, ' ')).encode('ascii')
    if ext == 1:
        return page('((OGP: one))' + ' some text')
    if ext == -1:
        return page('((OGP: one))') + page('((SEG: EndText))')
    return b''


def make(h, n, fmt, endian, ext, samples, keys, free=True):
    card = b''.join(('C%2d' % (k + 1)).ljust(80).encode('ascii') for k in range(40))
    reel = card + struct.pack(endian + 'iiihhHHHHh', 11, 22, 33, 4, 5, 2000, 0, 4, 0, fmt) + bytes(274) + struct.pack(endian + 'Hhh', 256, 0, ext) + bytes(94)
    assert len(reel) == 3600
    data = reel + pages(ext)
    traces = []
    for k in range(n):
        ns = samples[k]
        head = bytes(34) + struct.pack(endian + 'h', 1) + bytes(78) + struct.pack(endian + 'h', ns) + bytes(8) + struct.pack(endian + 'h', 1) + bytes(114)
        i, x, c = keys[k]
        head = head[:20] + struct.pack(endian + 'i', c) + head[24:188] + struct.pack(endian + 'ii', i, x) + head[196:]
        assert len(head) == 240
        if free:
            for name, off in FREE:
                head = head[:off] + h.bytes('%s%d' % (name, k), 4) + head[off + 4:]
        body = h.bytes('body%d' % k, ns * SIZES[fmt])
        traces.append((len(data), ns, head, body))
        data = data + head + body
    return data, traces


def check_samples(h, vals, body, fmt, endian, m):
    if fmt == 1:
        h.check(len(vals) == m, 'number of samples')
        h.check(h.both(True, *[bytes(vals[i]) == bytes(body[4 * i:4 * i + 4]) for i in range(m)]), 'samples are those of the whole file')
    else:
        check_values(h, vals, body, KINDS[fmt], endian, m, 'samples are those of the whole file')


def check_header(h, got, head, ns, key, endian, rev):
    want = [got.num_samples == ns, got.ensemble_num == key[2]]
    if rev:
        want += [got.inline_number == key[0], got.crossline_number == key[1], got.shotpoint_number == field_int(h, head, 196, 4, endian)]
    want += [getattr(got, name) == field_int(h, head, off, 4, endian) for name, off in FREE[:3]]
    h.check(h.both(*want), 'header fields are those of the whole file')


def cut_file(h, n, fmt, endian, ext, samples, keys, rev=1, encoding='ascii', forced=None, lo=None, window=True):
    data, traces = make(h, n, fmt, endian, ext, samples, keys)
    whole = len(data)
    start = 3600 + len(pages(ext))
    cut = h.int('cut', 0 if lo is None else lo, whole)
    f = h.file(data, length=cut)
    try:
        r = create_reader(f, encoding=encoding, endian=endian, cache_directory=None, dimensionality=forced,
                          trace_header_format=TraceHeaderRev1 if rev else TraceHeaderRev0)
    except ERRORS:
        h.check(cut < start, 'files with all of their headers can be read')
        return
    h.check(cut >= start, 'files cut within their headers are refused')
    m = r.num_traces()
    h.check(m <= n, 'no traces but those of the whole file')
    h.check(h.both(*[t[0] + 240 <= cut for t in traces[:m]]), 'traces without a whole header are not offered')
    if m < n:
        h.check(traces[m][0] + 240 > cut, 'traces with a whole header are offered')
    h.check(list(r.trace_indexes()) == list(range(m)), 'trace indexes')
    h.check(r.encoding == 'ascii', 'encoding')
    h.check([s.rstrip() for s in r.textual_reel_header] == ['C%2d' % (k + 1) for k in range(40)], 'textual header')
    b = r.binary_reel_header
    h.check((b.job_id_num, b.line_num, b.reel_num, b.data_traces_per_ensemble, b.data_sample_format, b.num_extended_textual_headers) == (11, 22, 33, 4, fmt, ext), 'binary header')
    h.check(len(r.extended_textual_header) == {0: 0, 1: 1, -1: 2}[ext], 'extended headers')
    h.check(r.max_num_trace_samples() <= max([0] + samples[:n]), 'most samples')
    for k in range(m):
        pos, ns, head, body = traces[k]
        check_header(h, r.trace_header(k), head, ns, keys[k], endian, rev)
        h.check(r.num_trace_samples(k) == ns, 'number of samples')
        whole_window(h, r, k, traces[k], fmt, endian, cut, None, None)
        if window and k == m - 1:
            a = h.choose('start', ns + 1)
            whole_window(h, r, k, traces[k], fmt, endian, cut, a, a + h.choose('size', ns - a + 1))
        for key in ((keys[k][0], keys[k][1]), ):
            if hasattr(r, 'inline_numbers') and r.has_trace_index(key):
                h.check(r.trace_index(key) == k, 'indexes lead to the right trace')
        if hasattr(r, 'cdp_numbers') and r.has_trace_index(keys[k][2]):
            h.check(r.trace_index(keys[k][2]) == k, 'indexes lead to the right trace')


def whole_window(h, r, k, trace, fmt, endian, cut, start, stop):
    pos, ns, head, body = trace
    a = 0 if start is None else start
    b = ns if stop is None else stop
    size = SIZES[fmt]
    need = pos + 240 + b * size
    try:
        vals = r.trace_samples(k, start, stop)
    except EOFError:
        h.check(need > cut, 'samples that are there can be read')
        return
    h.check(a == b or need <= cut, 'cut samples are refused')
    check_samples(h, vals, body[a * size:b * size], fmt, endian, b - a)


def headers(h, endian, ext):
    """the functions that read headers, on their own, on cut files"""
    data, traces = make(h, 0, 3, endian, ext, [], [])
    cut = h.int('cut', 0, len(data))
    f = h.file(data, length=cut)
    what = h.choose('what', 3)
    f.seek((0, 3200, 3600)[what])
    end = (3200, 3600, len(data))[what]
    form = BinaryReelHeader(data_sample_format=3, num_extended_textual_headers=ext)
    try:
        got = (read_textual_reel_header(f, 'ascii') if what == 0 else
               read_binary_reel_header(f, endian=endian) if what == 1 else
               read_extended_textual_headers(f, form, 'ascii'))
    except ERRORS:
        h.check(cut < end, 'whole headers can be read')
        return
    h.check(cut >= end or what == 2 and ext == 0, 'cut headers are refused')
    if what == 0:
        h.check(len(got) == 40 and [s.rstrip() for s in got] == ['C%2d' % (k + 1) for k in range(40)], 'textual header')
    elif what == 1:
        h.check(got.data_sample_format == 3 and got.num_extended_textual_headers == ext, 'binary header')
    else:
        h.check(len(got) == {0: 0, 1: 1, -1: 2}[ext], 'extended headers')


def pieces(h, fmt, endian, rev, part):
    """headers and samples at any place of a cut file"""
    size = SIZES[fmt]
    pos = h.int('pos', 0, 1000)
    cut = h.int('cut', 0, 1600)
    body = h.bytes('content', 240 + 3 * size)
    f = h.array_file('rest', cut, parts=[(pos, body)])
    m = h.choose('samples', 4)
    try:
        vals = read_binary_values(f, pos + 240, {1: SegYType.IBM, 2: SegYType.INT32, 3: SegYType.INT16, 5: SegYType.FLOAT32, 8: SegYType.INT8}[fmt], m, endian)
    except EOFError:
        h.check(pos + 240 + m * size > cut, 'samples that are there can be read')
        vals = None
    if vals is not None:
        h.check(m == 0 or pos + 240 + m * size <= cut, 'cut samples are refused')
        check_samples(h, vals, body[240:240 + m * size], fmt, endian, m)
    form = TraceHeaderRev1 if rev else TraceHeaderRev0
    if part:
        class Part(metaclass=SubFormatMeta, parent_format=form, parent_field_names=['line_sequence_num', 'trace_num']):
            pass
        form = Part
    else:
        body = bytes(34) + struct.pack(endian + 'h', 1) + bytes(88) + struct.pack(endian + 'h', 1) + bytes(114)
        for name, off in FREE[:3]:
            body = body[:off] + h.bytes(name, 4) + body[off + 4:]
        f = h.array_file('rest2', cut, parts=[(pos, body)])
    try:
        t = read_trace_header(f, make_header_packer(form, endian), pos)
    except ERRORS:
        h.check(pos + 240 > cut, 'a whole header can be read')
        return
    h.check(pos + 240 <= cut, 'a cut header is refused')
    h.check(t.line_sequence_num == field_int(h, body, 0, 4, endian), 'header fields are those of the whole file')
    h.check(t.trace_num == field_int(h, body, 12, 4, endian), 'header fields are those of the whole file')


LINES = [(1, 1, 4), (1, 2, 3), (2, 1, 9)]
SAME = [(1, 1, 4), (1, 1, 3), (1, 1, 9)]
NONE = [(1, 1, 4), (1, 1, 4), (1, 1, 4)]


def jobs(tier):
    quick = tier == 'quick'
    J = []

    def add(name, fn='cut_file', **k):
        J.append(dict(name=name, fn=fn, params=k))
    for ext in (0, 1, -1):
        for endian in '><':
            add('headers%s-%d' % (endian, ext), 'headers', endian=endian, ext=ext)
    for fmt in KINDS:
        for endian in '><' if fmt != 1 else '>':
            ext = {1: 0, 2: 1, 3: -1, 5: 0, 8: 1}[fmt]
            samples = ([1, 0, 2] if fmt == 5 else [2, 0, 4]) if quick else ([2, 0, 3] if fmt == 5 else [5, 0, 9])
            keys = {1: LINES, 2: SAME, 3: LINES, 5: NONE, 8: NONE}[fmt]
            add('traces-%d%s' % (fmt, endian), n=3, fmt=fmt, endian=endian, ext=ext, samples=samples if endian == '>' else samples[::-1], keys=keys, rev=0 if fmt == 2 else 1)
            add('pieces-%d%s' % (fmt, endian), 'pieces', fmt=fmt, endian=endian, rev=1 if fmt in (3, 8) else 0, part=fmt in (1, 2, 3))
    samples = [2, 0, 4]
    for n in range(3):
        add('guess-%d' % n, n=n, fmt=3, endian='>', ext=0, samples=samples, keys=LINES, encoding=None, window=False)
    for forced in (1, 2, 3):
        for keys in (LINES, SAME, NONE):
            add('forced-%d-%s' % (forced, ['lines', 'same', 'none'][[LINES, SAME, NONE].index(keys)]), n=3, fmt=3, endian='>', ext=0, samples=samples, keys=keys, forced=forced, lo=3600, window=False)
    return J
