"""C22: progress reports are fractions that never decrease and end at one."""
import struct
from segpy.toolkit import catalog_traces
from segpy.reader import create_reader
from segpy.writer import write_segy
from segpy.dataset import Dataset
from segpy.binary_reel_header import BinaryReelHeader
from segpy.trace_header import TraceHeaderRev1

BOUNDS = {'quick': 'scans of files of 0, 100, 239, 240, 1000 and 10007 bytes with up to three traces of 0..40 samples each (10007 bytes: 0..4000), or one of 3000..32767 samples, from any position up to 1200; '
                   'readers of files with 0..2 traces with any number of samples, the last cut anywhere; datasets of 0..6 traces',
          'thorough': 'more file lengths and traces; datasets of 0..40 traces'}
OUTSIDE = 'other file lengths and numbers of traces; datasets whose trace indexes are not 0, 1, 2...'


def fractions(h, seen, what):
    h.check(len(seen) > 0, what + ': progress is reported')
    for v in seen:
        h.check(h.both(v >= 0, v <= 1), what + ': between zero and one')
    for a, b in zip(seen, seen[1:]):
        h.check(a <= b, what + ': never decreasing')
    h.check(seen[-1] == 1, what + ': the last report is one')


def refuses(h, act, what):
    for bad in (3, 'x', [], 0.5):
        try:
            act(bad)
            ok = True
        except TypeError:
            ok = False
        h.check(not ok, what + ': a callback that is not callable is refused')


def traces(h, n, lo, hi, pos, size):
    parts = []
    for k in range(n):
        ns = h.int('samples%d' % k, lo, hi)
        parts.append((pos, bytes([1] * 114) + struct.pack('>h', ns) + bytes(124)))
        pos = pos + 240 + size * ns
    return parts, pos


def scan(h, n, length, lo, hi):
    start = h.int('start', 0, 1200)
    parts, end = traces(h, n, lo, hi, start, 2)
    h.assume(end + 240 > length)
    f = h.array_file('content', length, parts=parts)
    f.seek(start)
    seen = []
    catalog_traces(f, 2, progress=seen.append)
    fractions(h, seen, 'scan')
    refuses(h, lambda bad: catalog_traces(f, 2, progress=bad), 'scan')


class Made(Dataset):
    def __init__(self, n, fmt, samples):
        self.n, self.fmt, self.samples = n, fmt, samples

    textual_reel_header = ['C%-79d' % k for k in range(40)]
    extended_textual_header = []
    encoding = 'ascii'

    @property
    def binary_reel_header(self):
        return BinaryReelHeader(data_sample_format=self.fmt, num_samples=3)

    def num_traces(self):
        return self.n

    def trace_header(self, k):
        return TraceHeaderRev1(num_samples=len(self.samples), trace_num=k, inline_number=k)

    def trace_samples(self, k, start=None, stop=None):
        return self.samples[start:stop]


def write(h, n):
    f = h.file(b'')
    seen = []
    write_segy(f, Made(n, 8, [1, 2]), progress=seen.append)
    fractions(h, seen, 'writing')
    refuses(h, lambda bad: write_segy(h.file(b''), Made(n, 8, [1]), progress=bad), 'writing')


def reader(h, n):
    f = h.file(b'')
    write_segy(f, Made(n, 8, [1, 2, 3, 4, 5]))
    data = f.getvalue()
    whole = len(data)
    cut = h.int('cut', 3600 + max(0, n - 1) * 245, whole)
    dim = (None, 1, 2, 3)[h.choose('dim', 4)]
    seen = []
    create_reader(h.file(data, length=cut), encoding='ascii', progress=seen.append, cache_directory=None, dimensionality=dim)
    fractions(h, seen, 'reading')
    refuses(h, lambda bad: create_reader(h.file(data), progress=bad, cache_directory=None), 'reading')


def jobs(tier):
    quick = tier == 'quick'
    J = []
    for length in (0, 100, 239, 240, 1000, 10007) if quick else (0, 1, 100, 239, 240, 241, 481, 1000, 3600, 10007, 65536):
        for lo, hi in ((0, 40 if length < 2000 else 4000 if length < 20000 else 32767), (3000, 32767)):
            J.append(dict(name='scan-%d-%d' % (length, hi), fn='scan', params={'n': 3 if lo == 0 else 1, 'length': length, 'lo': lo, 'hi': hi}))
    for n in range(7) if quick else range(41):
        J.append(dict(name='write-%d' % n, fn='write', params={'n': n}))
    for n in range(3):
        J.append(dict(name='reader-%d' % n, fn='reader', params={'n': n}))
    return J
