"""C21: writing a dataset and reading it back preserves everything."""
import struct
from segpy.dataset import Dataset, DelegatingDataset
from segpy.reader import create_reader
from segpy.writer import write_segy
from segpy.ibm_float import IBMFloat
from segpy.binary_reel_header import BinaryReelHeader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from checks.segyspec import BINARY, TRACE0, TRACE1
from checks.c12 import check_values

BOUNDS = {'quick': 'datasets of 0..3 traces of 0..3 samples each (independent lengths), any value in every integer field of the headers (the numbers that locate a trace among several: four arrangements; fields with a list of values: some of them), any samples (IBM: any pattern), '
                   'some characters of each textual header any printable ones, 0..2 extended headers counted or ended; every sample format, byte order, both encodings, both revisions; '
                   'files of the same extents with any bytes in these places, read, written directly and through a delegating dataset, and read again',
          'thorough': 'up to four traces, up to 8 samples, and every combination of shape, format, order, encoding and revision'}
OUTSIDE = 'more traces; NaN samples (C12); datasets whose headers contradict their samples or their number of extended headers; characters that are not printable ASCII (C13)'
KINDS = {1: 'IBM', 2: 'INT32', 3: 'INT16', 5: 'FLOAT32', 8: 'INT8'}
SIZES = {1: 4, 2: 4, 3: 2, 5: 4, 8: 1}
TRACES = {0: (TraceHeaderRev0, TRACE0), 1: (TraceHeaderRev1, TRACE1)}


class Made(Dataset):
    def __init__(self, text, binary, ext, headers, samples, encoding):
        self.text, self.binary, self.ext, self.headers, self.samples, self.encoding = text, binary, ext, headers, samples, encoding

    @property
    def textual_reel_header(self):
        return self.text

    @property
    def binary_reel_header(self):
        return self.binary

    @property
    def extended_textual_header(self):
        return self.ext

    def num_traces(self):
        return len(self.headers)

    def trace_header(self, k):
        return self.headers[k]

    def trace_samples(self, k, start=None, stop=None):
        return self.samples[k][start:stop]


class Same(DelegatingDataset):
    pass


def fields(h, tag, table, fixed):
    """a value for each field"""
    out = {}
    for k, (name, off, (size, lo, hi, enum)) in enumerate(table):
        if name in fixed:
            out[name] = fixed[name]
        elif enum is not None:
            out[name] = enum[-1 - k % 2]
        else:
            out[name] = h.int(tag + name, lo, hi)
    return out


def lines(h, tag, marks):
    """forty lines with some characters at will"""
    rows = ['C%-79d' % (k + 1) for k in range(40)]
    for row, col in marks:
        c = h.text('%s%d_%d' % (tag, row, col), 1, 'ascii', 32, 126)
        rows[row] = rows[row][:col] + c + rows[row][col + 1:]
    return rows


def sample_values(h, tag, fmt, n):
    out = []
    for k in range(n):
        name = '%s%d' % (tag, k)
        if fmt == 1:
            out.append(IBMFloat.from_bytes(h.bytes(name, 4)))
        elif fmt == 5:
            v = h.float32(name)
            h.assume(v == v)
            out.append(v)
        else:
            size = SIZES[fmt]
            out.append(h.int(name, -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1))
    return out


def pages(h, tag, ext):
    if ext == 0:
        return []
    page = ['((OGP: text))'.ljust(80)] + lines(h, tag, [(3, 40)])[1:]
    end = ['((SEG: EndText))'.ljust(80)] + [' ' * 80] * 39
    return {1: [page], 2: [page, page], -1: [page, end]}[ext]


def places(h, lengths, rev, anywhere):
    """the numbers that locate each trace (any such numbers: C17 and C18)"""
    if len(lengths) < 2 and anywhere:
        return [{}] * len(lengths)
    sign = (1, -1)[h.choose('order', 2)]
    out = []
    for k in range(len(lengths)):
        d = dict(ensemble_num=5 + 2 * k * sign)
        if rev:
            d.update(inline_number=sign * (k % 2), crossline_number=sign * (k // 2))
        out.append(d)
    if len(lengths) > 1 and anywhere and h.choose('repeated', 2):
        out[-1] = dict(out[0])
    return out


def dataset(h, fmt, lengths, ext, rev, encoding):
    cls, table = TRACES[rev]
    text = lines(h, 'text', [(0, 10), (20, 5), (39, 79)])
    binary = BinaryReelHeader(**fields(h, 'b.', BINARY, dict(data_sample_format=fmt, num_extended_textual_headers=ext, format_revision_num=256 if rev else 0)))
    keys = places(h, lengths, rev, True)
    headers = [cls(**fields(h, 't%d.' % k, table, dict(keys[k], num_samples=n))) for k, n in enumerate(lengths)]
    return Made(text, binary, pages(h, 'ext', ext), headers, [sample_values(h, 's%d.' % k, fmt, n) for k, n in enumerate(lengths)], encoding)


def equal_samples(h, a, b, fmt):
    h.check(len(a) == len(b), 'as many samples')
    if fmt == 1:
        h.check(h.both(True, *[bytes(x) == bytes(y) for x, y in zip(a, b)]), 'equal samples')
    elif fmt == 5:
        h.check(h.both(True, *[h.f64bits(x) == h.f64bits(y) for x, y in zip(a, b)]), 'equal samples')
    else:
        h.check(h.both(True, *[x == y for x, y in zip(a, b)]), 'equal samples')


def roundtrip(h, fmt, lengths, ext, rev, encoding, endian, given):
    """a dataset, written and read"""
    ds = dataset(h, fmt, lengths, ext, rev, encoding if given == 'dataset' else None)
    f = h.file(b'')
    write_segy(f, ds, encoding=encoding if given == 'argument' else None, trace_header_format=TRACES[rev][0], endian=endian)
    data = f.getvalue()
    h.check(len(data) == 3600 + 3200 * abs(ext if ext >= 0 else 2) + sum(240 + n * SIZES[fmt] for n in lengths), 'size of the file')
    used = encoding if given != 'nowhere' else 'ascii'
    r = create_reader(h.file(data), encoding=used, trace_header_format=TRACES[rev][0], endian=endian, cache_directory=None, dimensionality=1)
    agree(h, ds, r, fmt, rev, lengths)


def agree(h, ds, r, fmt, rev, lengths):
    h.check(len(r.textual_reel_header) == 40, 'lines of the textual header')
    h.check(h.both(*[a == b for a, b in zip(r.textual_reel_header, ds.textual_reel_header)]), 'textual header')
    h.check(h.both(*[getattr(r.binary_reel_header, name) == getattr(ds.binary_reel_header, name) for name, _, _ in BINARY]), 'binary header')
    h.check(len(r.extended_textual_header) == len(ds.extended_textual_header), 'number of extended headers')
    for p, q in zip(r.extended_textual_header, ds.extended_textual_header):
        h.check(len(p) == len(q), 'lines of extended headers')
        h.check(h.both(*[a == b for a, b in zip(p, q)]), 'extended header')
    h.check(r.num_traces() == len(lengths), 'number of traces')
    for k, n in enumerate(lengths):
        a, b = r.trace_header(k), ds.trace_header(k)
        h.check(h.both(*[getattr(a, name) == getattr(b, name) for name, _, _ in TRACES[rev][1]]), 'trace header')
        h.check(r.num_trace_samples(k) == n, 'number of samples')
        equal_samples(h, r.trace_samples(k), ds.trace_samples(k), fmt)


def header_bytes(h, tag, table, first, size, fixed, endian):
    """any values in the integer fields, zeros in between"""
    out = bytes(size)
    for k, (name, off, (n, lo, hi, enum)) in enumerate(table):
        p = off - first
        code = endian + {2: 'h', 4: 'i'}[n]
        if name in fixed:
            b = struct.pack(code, fixed[name])
        elif enum is not None:
            b = struct.pack(code, enum[-1 - k % 2])
        else:
            b = struct.pack(code, h.int(tag + name, lo, hi))
        out = out[:p] + b + out[p + n:]
    return out


def rewrite(h, fmt, lengths, ext, rev, encoding, endian, dim):
    """a file, read, and written again"""
    text = ''.join(lines(h, 'text', [(1, 10), (20, 5), (39, 79)])).encode(encoding)
    data = text + header_bytes(h, 'b.', BINARY, 3201, 400, dict(data_sample_format=fmt, num_extended_textual_headers=ext, format_revision_num=256 if rev else 0), endian)
    for p in pages(h, 'ext', ext):
        data = data + ''.join(p).encode(encoding)
    keys = places(h, lengths, rev, dim == 1)
    for k, n in enumerate(lengths):
        fixed = dict(keys[k], num_samples=n)
        data = data + header_bytes(h, 't%d.' % k, TRACES[rev][1], 1, 240, fixed, endian)
        body = h.bytes('body%d' % k, n * SIZES[fmt])
        if fmt == 5:
            for j in range(n):
                hi, lo = (body[4 * j], body[4 * j + 1]) if endian == '>' else (body[4 * j + 3], body[4 * j + 2])
                h.assume(h.either(hi & 127 != 127, lo < 128))
        data = data + body
    opts = dict(encoding=encoding, trace_header_format=TRACES[rev][0], endian=endian, cache_directory=None, dimensionality=dim)
    r = create_reader(h.file(data), **opts)
    for source in (r, Same(r), Same(Same(r))):
        f = h.file(b'')
        write_segy(f, source, trace_header_format=TRACES[rev][0], endian=endian)
        again = f.getvalue()
        h.check(len(again) == len(data), 'size of the file written')
        h.check(again == data, 'the file written is the file read')
    d = Same(r)
    h.check(d.num_traces() == r.num_traces() and list(d.trace_indexes()) == list(r.trace_indexes()) and d.source is r, 'delegated traces')
    h.check(d.dimensionality == r.dimensionality and d.encoding == r.encoding and d.endian == r.endian, 'delegated properties')
    h.check(d.data_sample_format == r.data_sample_format and d.data_sample_format_description == r.data_sample_format_description, 'delegated sample format')
    for k, n in enumerate(lengths):
        a = h.choose('start%d' % k, n + 1)
        equal_samples(h, d.trace_samples(k, a), r.trace_samples(k, a), fmt)
        equal_samples(h, d.trace_samples(k, None, a), r.trace_samples(k, None, a), fmt)
        x, y = d.trace_header(k), r.trace_header(k)
        h.check(h.both(*[getattr(x, name) == getattr(y, name) for name, _, _ in TRACES[rev][1]]), 'delegated trace header')


def jobs(tier):
    quick = tier == 'quick'
    J = []

    def add(name, fn, **k):
        J.append(dict(name=name, fn=fn, params=k))
    shapes = [(0, [], 0), (1, [2], 1), (2, [3, 0], -1), (3, [1, 2, 0], 2)]
    if not quick:
        shapes += [(1, [8], -1), (3, [0, 0, 1], 0), (4, [1, 3, 2, 1], 1)]
    i = 0
    for fmt in KINDS:
        for endian in '><':
            for codec in ('ascii', 'cp037'):
                i += 1
                for rev in (0, 1):
                    for s, (n, lengths, ext) in enumerate(shapes):
                        if quick and (i + s + 2 * rev) % 4 > 1:
                            continue
                        tag = '%d%s-%s-rev%d-%d-%s' % (fmt, endian, codec, rev, n, 'x'.join(map(str, lengths)))
                        kind = i + i // 4 + s + rev
                        if not quick or kind % 2:
                            add('roundtrip-' + tag, 'roundtrip', fmt=fmt, lengths=lengths, ext=ext, rev=rev, encoding=codec, endian=endian, given=('argument', 'dataset')[i // 2 % 2])
                        if not quick or not kind % 2:
                            add('rewrite-' + tag, 'rewrite', fmt=fmt, lengths=lengths, ext=ext, rev=rev, encoding=codec, endian=endian, dim=(1, 2, 3 if rev else 2, None)[(i // 2 + s) % 4] if n else None)
    add('roundtrip-nowhere', 'roundtrip', fmt=3, lengths=[1], ext=0, rev=1, encoding='ascii', endian='>', given='nowhere')
    return J
