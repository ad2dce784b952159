"""C23: cached readers are used only for the same file and the same options."""
import io
import os
import pickle
import struct
import segpy.reader
from segpy.reader import create_reader
from segpy.binary_reel_header import BinaryReelHeader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

BOUNDS = {'quick': 'files of 0..4 traces with any bytes in job number, trace header fields and samples; a second file (the same path rewritten, or another path with the same folder or cache folder) whose bytes are any others, '
                   'or which is longer by a trace; every pair of two options differing in encoding, byte order, header formats or dimensionality; saved state of plain, 2D and 3D readers with regular and irregular numbers, all sample formats and byte orders; '
                   'cache entries absent, cut, overwritten, from another version, not readable, not writable, not removable, on a full disk, in a folder that cannot be made',
          'thorough': 'the same with more traces'}
OUTSIDE = 'digests are taken to differ for different messages; a well-formed pickle of something else in the cache (documented to raise TypeError); header format classes of equal module and name but different layout; files whose names change while in use'


class OtherReel(BinaryReelHeader):
    pass


class OtherTrace(TraceHeaderRev1):
    pass


SIZES = {1: 4, 2: 4, 3: 2, 5: 4, 8: 1}
REGULAR3 = [(1, 1, 5), (1, 2, 5), (2, 1, 5), (2, 2, 5)]
ODD3 = [(1, 1, 5), (4, 7, 5), (9, 7, 5), (9, 8, 5)]
LINE2 = [(1, 1, 10), (1, 1, 12), (1, 1, 14), (1, 1, 16)]
ODD2 = [(1, 1, 9), (1, 1, 3), (1, 1, 7), (1, 1, 8)]
PLAIN = [(1, 1, 9), (1, 1, 9), (1, 1, 9), (1, 1, 9)]
BOTH = [(1, 1, 4), (1, 2, 3), (2, 1, 9), (2, 5, 11)]


def content(h, tag, keys, fmt=3, endian='>', samples=(2, 0, 1, 2), ext=0, free=True):
    card = b''.join(('C%2d' % (k + 1)).ljust(80).encode('ascii') for k in range(40))
    job = h.bytes('job' + tag, 4) if free else bytes(4)
    data = card + job + struct.pack(endian + 'iihhHHHHh', 22, 33, 4, 5, 2000, 0, 4, 0, fmt) + bytes(274) + struct.pack(endian + 'Hhh', 256, 0, ext) + bytes(94)
    if ext:
        data = data + b'((OGP: one))'.ljust(3200)
    for k, (i, x, c) in enumerate(keys):
        ns = samples[k]
        num = h.bytes('num%s%d' % (tag, k), 4) if free else bytes([0, 0, 0, k])
        body = h.bytes('body%s%d' % (tag, k), ns * SIZES[fmt]) if free else bytes(range(ns * SIZES[fmt]))
        head = (bytes(12) + num + bytes(4) + struct.pack(endian + 'i', c) + bytes(10) + struct.pack(endian + 'h', 1) + bytes(78) + struct.pack(endian + 'h', ns)
                + bytes(8) + struct.pack(endian + 'h', 1) + bytes(62) + struct.pack(endian + 'ii', i, x) + bytes(44))
        assert len(head) == 240
        data = data + head + body
    return data


def same(h, r, ref, what, names=True):
    """both readers behave alike"""
    h.check(type(r) is type(ref), what + ': kind of reader')
    h.check(r.dimensionality == ref.dimensionality, what + ': dimensionality')
    h.check(list(r.textual_reel_header) == list(ref.textual_reel_header), what + ': textual header')
    h.check([list(p) for p in r.extended_textual_header] == [list(p) for p in ref.extended_textual_header], what + ': extended headers')
    a, b = r.binary_reel_header, ref.binary_reel_header
    h.check(type(a) is type(b), what + ': kind of binary header')
    h.check(h.both(*[getattr(a, f) == getattr(b, f) for f in ('job_id_num', 'line_num', 'data_sample_format', 'sample_interval', 'num_extended_textual_headers')]), what + ': binary header')
    h.check((r.encoding, r.endian, r.revision, r.bytes_per_sample, r.data_sample_format) == (ref.encoding, ref.endian, ref.revision, ref.bytes_per_sample, ref.data_sample_format), what + ': properties')
    h.check(not names or r.filename == ref.filename, what + ': file name')
    h.check(r.trace_header_format_class is ref.trace_header_format_class, what + ': header format')
    n = ref.num_traces()
    h.check(r.num_traces() == n and list(r.trace_indexes()) == list(ref.trace_indexes()), what + ': traces')
    h.check(r.max_num_trace_samples() == ref.max_num_trace_samples(), what + ': most samples')
    for k in range(n):
        h.check(r.num_trace_samples(k) == ref.num_trace_samples(k), what + ': number of samples')
        a, b = r.trace_header(k), ref.trace_header(k)
        h.check(type(a) is type(b), what + ': kind of trace header')
        h.check(h.both(*[getattr(a, f) == getattr(b, f) for f in ('trace_num', 'ensemble_num', 'num_samples')]), what + ': trace header')
        a, b = r.trace_samples(k), ref.trace_samples(k)
        h.check(len(a) == len(b), what + ': samples')
        h.check(h.both(True, *[alike(h, x, y, ref.data_sample_format) for x, y in zip(a, b)]), what + ': samples')
    if hasattr(ref, 'inline_numbers'):
        h.check(list(r.inline_numbers()) == list(ref.inline_numbers()) and list(r.xline_numbers()) == list(ref.xline_numbers()), what + ': lines')
        h.check(r.num_inlines() == ref.num_inlines() and r.num_xlines() == ref.num_xlines(), what + ': lines')
        pairs = list(ref.inline_xline_numbers())
        h.check(list(r.inline_xline_numbers()) == pairs, what + ': lines')
        h.check(all(r.has_trace_index(p) and r.trace_index(p) == ref.trace_index(p) for p in pairs) and not r.has_trace_index((77, 78)), what + ': looking up')
    if hasattr(ref, 'cdp_numbers'):
        h.check(list(r.cdp_numbers()) == list(ref.cdp_numbers()) and r.num_cdps() == ref.num_cdps(), what + ': ensembles')
        h.check(all(r.has_trace_index(c) and r.trace_index(c) == ref.trace_index(c) for c in ref.cdp_numbers()) and not r.has_trace_index(77), what + ': looking up')


def alike(h, x, y, fmt):
    if fmt == 'ibm':
        return bytes(x) == bytes(y)
    if fmt == 'float32':
        return h.f64bits(x) == h.f64bits(y)
    return x == y


def outcome(path, cache, options):
    f = open(path, 'rb')
    try:
        return create_reader(f, cache_directory=cache, **options)
    except (ValueError, EOFError, TypeError) as e:
        return type(e)


def compare(h, path, cache, options, what):
    """a reader made with the cache, against one made without"""
    ref = outcome(path, None, options)
    r = outcome(path, cache, options)
    if isinstance(ref, type) or isinstance(r, type):
        h.check(r is ref, what + ': refused alike')
        return None
    same(h, r, ref, what)
    return r


CACHES = ('.segpy', 'absolute')


def cache_at(folder, kind):
    return '.cache' if kind == 'relative' else os.path.join(folder, 'elsewhere')


OPTIONS = [
    {}, {'encoding': 'ascii'}, {'encoding': 'cp037'}, {'endian': '<'}, {'binary_reel_header_format': OtherReel}, {'trace_header_format': TraceHeaderRev0},
    {'trace_header_format': OtherTrace}]


def options(h, kind, first):
    """two openings of one file with different options"""
    d = h.folder()
    path = os.path.join(d, 'a.segy')
    h.put(path, content(h, 'a', BOTH[:2]))
    cache = cache_at(d, kind)
    compare(h, path, cache, OPTIONS[first], 'first')
    second = h.choose('second', len(OPTIONS))
    compare(h, path, cache, OPTIONS[second], 'second')
    compare(h, path, cache, OPTIONS[first], 'third')


def dimensions(h, kind, first):
    """the dimensionality asked for, whatever was asked for before"""
    d = h.folder()
    path = os.path.join(d, 'a.segy')
    h.put(path, content(h, 'a', BOTH[:2]))
    cache = cache_at(d, kind)
    compare(h, path, cache, {'dimensionality': first}, 'first')
    for dim in (None, 1, 2, 3):
        ref = outcome(path, None, {'dimensionality': dim})
        r = outcome(path, cache, {'dimensionality': dim})
        if dim != first:
            h.check(type(r) is type(ref), 'readers of another dimensionality are not reused')
        else:
            same(h, r, ref, 'again')


def moved(h, how):
    """relative names, and another working directory"""
    d = h.folder()
    cache = os.path.join(d, 'cache')
    one, two = os.path.join(d, 'one'), os.path.join(d, 'two')
    os.mkdir(one)
    os.mkdir(two)
    a, b = content(h, 'a', BOTH[:2]), content(h, 'b', BOTH[:2])
    h.put(os.path.join(one, 'x.segy'), a)
    h.put(os.path.join(two, 'x.segy'), b)
    was = os.getcwd()
    try:
        os.chdir(one)
        r = outcome('x.segy', cache, {})
        saved = pickle.dumps(r)
        os.chdir(two)
        r = outcome('../one/x.segy' if how == 'relative' else os.path.join(one, 'x.segy'), cache, {})
        ref = outcome('../one/x.segy', None, {})
        same(h, r, ref, 'from another working directory', names=False)
        same(h, pickle.loads(saved), ref, 'saved state from another working directory', names=False)
        same(h, outcome('x.segy', cache, {}), outcome('x.segy', None, {}), 'a file of the same relative name', names=False)
    finally:
        os.chdir(was)


def nameless(h, how):
    """files without a name"""
    d = h.folder()
    path = os.path.join(d, 'a.segy')
    data = content(h, 'a', BOTH[:2], free=how == 'memory')
    h.put(path, data)
    ref = create_reader(open(path, 'rb'), cache_directory=None)
    cache = (None, '.cache', os.path.join(d, 'cache'))[h.choose('cache', 3)]
    for again in range(2):
        f = h.file(data) if how == 'memory' else os.fdopen(os.open(path, os.O_RDONLY), 'rb') if how == 'descriptor' else open(os.fsencode(path), 'rb')
        r = create_reader(f, cache_directory=cache)
        same(h, r, ref, how, names=False)
        h.check(type(r.filename) is str, how + ': file names are text')


def contents(h, kind, how):
    """two files: the second of other content, at the same or another path"""
    d = h.folder()
    one = os.path.join(d, 'a.segy')
    two = one if how == 'rewritten' else os.path.join(d, 'b.segy')
    cache = cache_at(d, kind)
    a = content(h, 'a', BOTH[:2])
    longer = h.choose('longer', 3)
    if longer == 2:
        b = a + content(h, 'b', BOTH[:1])[3600:]
    else:
        b = content(h, 'b', BOTH[:2] if longer == 0 else BOTH[:1])
    h.put(one, a)
    compare(h, one, cache, {}, 'first')
    h.put(two, b)
    compare(h, two, cache, {}, 'second')
    h.put(two, a)
    compare(h, two, cache, {}, 'third')
    if how == 'changed':
        # what the reader of the other file has been is no longer there
        h.put(one, b)
        compare(h, two, cache, {}, 'the other file changed')
        compare(h, one, cache, {}, 'the changed file')
    if how == 'removed':
        os.remove(one)
        compare(h, two, cache, {}, 'the other file removed')


def state(h, keys, n, fmt, endian, ext, forced, rev):
    """readers restored from their saved state"""
    d = h.folder()
    path = os.path.join(d, 'a.segy')
    h.put(path, content(h, 'a', keys[:n], fmt, endian, ext=ext))
    opts = dict(endian=endian, dimensionality=forced, encoding='ascii', trace_header_format=TraceHeaderRev1 if rev else TraceHeaderRev0)
    ref = create_reader(open(path, 'rb'), cache_directory=None, **opts)
    f = open(path, 'rb')
    r = create_reader(f, cache_directory=None, **opts)
    if h.choose('used', 2) and n:
        r.trace_samples(n - 1)
        r.max_num_trace_samples()
    f.seek(h.choose('pos', 2) * 3600)
    copy = pickle.loads(pickle.dumps(r))
    same(h, copy, ref, 'saved state')
    same(h, r, ref, 'after saving')
    seen = []
    r = create_reader(open(path, 'rb'), cache_directory='.cache', **opts)
    same(h, r, ref, 'first')
    r = create_reader(open(path, 'rb'), cache_directory='.cache', progress=seen.append, **opts)
    same(h, r, ref, 'second')
    h.check(seen[-1] == 1, 'progress ends at one')


class Full(io.FileIO):
    """a file on a disk that is full"""
    left = 30

    def write(self, b):
        if len(b) > self.left:
            raise OSError(28, 'No space left on device')
        self.left -= len(b)
        return super().write(b)


FAULTS = ['none', 'empty', 'half', 'last byte', 'garbage', 'a folder', 'version', 'no cache', 'cache is a file', 'no reading', 'no writing', 'no removing', 'no folder', 'full', 'garbage that stays']


def fault(h, kind, first, second):
    """faults at each step of using the cache; then all is well again"""
    d = h.folder()
    path = os.path.join(d, 'a.segy')
    h.put(path, content(h, 'a', BOTH[:2]))
    cache = cache_at(d, kind)
    place = os.path.join(d, '.cache') if kind == 'relative' else cache
    for k, name in enumerate((first, FAULTS[h.choose('second', len(FAULTS))] if second is None else second)):
        if name != 'no cache' and not os.path.exists(place) and k == 0 and name not in ('no folder', 'full', 'cache is a file'):
            outcome(path, cache, {})
        with_fault(h, name, path, place, cache)
        restore(place)
    compare(h, path, cache, {}, 'afterwards')
    compare(h, path, cache, {}, 'and once more')


def entries(place):
    return [os.path.join(place, n) for n in os.listdir(place)] if os.path.isdir(place) else []


def restore(place):
    if os.path.isfile(place):
        os.remove(place)
    for e in entries(place):
        if os.path.isdir(e):
            os.rmdir(e)


def with_fault(h, name, path, place, cache):
    what = 'fault: ' + name
    es = entries(place)
    for e in es:
        old = open(e, 'rb').read()
        if name in ('empty', 'half', 'last byte'):
            with open(e, 'wb') as f:
                f.write({'empty': b'', 'half': old[:len(old) // 2], 'last byte': old[:-1]}[name])
        elif name.startswith('garbage'):
            with open(e, 'wb') as f:
                f.write(b'\x80\x04no pickle at all')
        elif name == 'a folder':
            os.remove(e)
            os.mkdir(e)
    if name in ('no cache', 'cache is a file', 'no folder'):
        for e in es:
            os.remove(e)
        if os.path.isdir(place):
            os.rmdir(place)
        if name == 'cache is a file':
            with open(place, 'wb') as f:
                f.write(b'x')
    saved = io.open, os.mkdir, os.unlink, os.remove, segpy.reader.__version__
    inside = lambda p: os.path.realpath(os.fspath(p)).startswith(os.path.realpath(place))

    def guarded(file, mode='r', *a, **k):
        if isinstance(file, (str, os.PathLike)) and inside(file):
            if name == 'no reading' and 'r' in mode:
                raise PermissionError(13, 'Permission denied')
            if name == 'no writing' and 'w' in mode:
                raise PermissionError(13, 'Permission denied')
            if name == 'full' and 'w' in mode:
                return Full(os.fspath(file), 'wb')
        return saved[0](file, mode, *a, **k)

    def denied(p, *a, **k):
        raise PermissionError(13, 'Permission denied')
    ref = outcome(path, None, {})
    import builtins
    was = builtins.open
    try:
        if name in ('no reading', 'no writing', 'full'):
            io.open = guarded
            builtins.open = guarded
        if name in ('no removing', 'garbage that stays'):
            os.unlink = os.remove = denied
        if name == 'no folder':
            os.mkdir = denied
        if name == 'version':
            segpy.reader.__version__ = 'another'
        r = outcome(path, cache, {})
    finally:
        io.open, os.mkdir, os.unlink, os.remove, segpy.reader.__version__ = saved
        builtins.open = was
    h.check(not isinstance(r, type), what + ': no error')
    same(h, r, ref, what)


def jobs(tier):
    J = []

    def add(name, fn, **k):
        J.append(dict(name=name, fn=fn, params=k))
    for how in ('relative', 'absolute'):
        add('moved-%s' % how, 'moved', how=how)
    for how in ('memory', 'descriptor', 'bytes'):
        add('nameless-%s' % how, 'nameless', how=how)
    for kind in ('relative', 'absolute'):
        for dim in (None, 1, 2, 3):
            add('dimensions-%s-%s' % (kind, dim), 'dimensions', kind=kind, first=dim)
        for i in range(len(OPTIONS)):
            add('options-%s-%d' % (kind, i), 'options', kind=kind, first=i)
        for how in ('rewritten', 'beside', 'changed', 'removed'):
            add('contents-%s-%s' % (kind, how), 'contents', kind=kind, how=how)
        for i, name in enumerate(FAULTS):
            add('fault-%s-%d' % (kind, i), 'fault', kind=kind, first=name, second=None)
    cases = [('regular3', REGULAR3, 4, None), ('odd3', ODD3, 4, None), ('line2', LINE2, 4, None), ('odd2', ODD2, 4, None), ('plain', PLAIN, 4, None), ('both', BOTH, 3, None),
             ('one', BOTH, 1, None), ('none', BOTH, 0, None), ('forced1', BOTH, 3, 1), ('forced2', BOTH, 3, 2), ('forced3', PLAIN, 3, 3)]
    for j, (name, keys, n, forced) in enumerate(cases):
        for e, endian in enumerate('><'):
            fmt = (3, 2, 8, 5, 1)[(j + 2 * e) % 5]
            add('state-%s%s' % (name, endian), 'state', keys=keys, n=n, fmt=3 if fmt == 1 and endian == '<' else fmt, endian=endian, ext=j % 2, forced=forced, rev=0 if name in ('odd2', 'plain') and endian == '<' else 1)
    return J
