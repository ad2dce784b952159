"""C07: binary headers are laid out byte for byte as the SEG-Y standard prescribes, in both byte orders."""
import copy
import pickle
from segpy.binary_reel_header import BinaryReelHeader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.packer import make_header_packer
from checks.segyspec import BINARY, TRACE0, TRACE1, FORMATS, admissible, field_int

BOUNDS = {'quick': 'all three standard header formats, both byte orders, every field and gap byte symbolic; buffers of 0..2 bytes more or fewer'}
OUTSIDE = 'buffers whose length is wrong by more than a few bytes'
CLASSES = {'binary': BinaryReelHeader, 'trace0': TraceHeaderRev0, 'trace1': TraceHeaderRev1}


def decode(h, fmt, endian):
    """every admissible byte pattern decodes to the standard's values and packs back to the same bytes (gaps become zero)"""
    table, start, length = FORMATS[fmt]
    b = h.bytes('b', length)
    want = []
    for name, off, spec in table:
        v = field_int(h, b, off - start, spec[0], endian)
        h.assume(admissible(h, spec, v))
        want.append(v)
    p = make_header_packer(CLASSES[fmt], endian)
    x = p.unpack(b)
    h.check(type(x) is CLASSES[fmt], 'type of the decoded header')
    for (name, off, spec), v in zip(table, want):
        h.check(getattr(x, name) == v, '%s.%s is the number at byte %d' % (fmt, name, off))
    c = p.pack(x)
    h.observe('c', c)
    h.check(len(c) == length, 'packed length')
    covered = set()
    for name, off, spec in table:
        covered.update(range(off - start, off - start + spec[0]))
        h.check(c[off - start:off - start + spec[0]] == b[off - start:off - start + spec[0]], '%s.%s packs to byte %d' % (fmt, name, off))
    h.check_all([c[i] == 0 for i in range(length) if i not in covered], 'unassigned bytes are written as zero')
    h.check(b'' + p.pack(p.unpack(c)) == c, 'packing is stable')


def encode(h, fmt, endian):
    """every admissible header packs to the standard's bytes and unpacks to an equal header"""
    table, start, length = FORMATS[fmt]
    kw, want = {}, []
    for i, (name, off, spec) in enumerate(table):
        v = h.int('v%d' % i, spec[1], spec[2])
        h.assume(admissible(h, spec, v))
        kw[name] = v
        want.append(v)
    p = make_header_packer(CLASSES[fmt], endian)
    c = p.pack(CLASSES[fmt](**kw))
    h.observe('c', c)
    h.check(len(c) == length, 'packed length')
    for (name, off, spec), v in zip(table, want):
        h.check(field_int(h, c, off - start, spec[0], endian) == v, '%s.%s is written at byte %d' % (fmt, name, off))
    x = p.unpack(c)
    for (name, off, spec), v in zip(table, want):
        h.check(getattr(x, name) == v, '%s.%s survives' % (fmt, name))


def reject(h, fmt, endian, lo, hi):
    """a buffer holding one inadmissible value is refused with ValueError, never decoded to something else"""
    table, start, length = FORMATS[fmt]
    i = lo + h.choose('field', hi - lo)
    name, off, spec = table[i]
    p = make_header_packer(CLASSES[fmt], endian)
    base = p.pack(CLASSES[fmt]())
    b = h.bytes('b', spec[0])
    buf = base[:off - start] + b + base[off - start + spec[0]:]
    v = field_int(h, b, 0, spec[0], endian)
    good = admissible(h, spec, v)
    try:
        x = p.unpack(buf)
        ok = True
    except ValueError:
        ok = False
    h.observe('ok', ok)
    h.check(h.both(h.implies(ok, good), h.implies(good, ok)), '%s.%s: exactly the admissible values are decoded' % (fmt, name))
    if ok:
        h.check(getattr(x, name) == v, '%s.%s: decoded value' % (fmt, name))


def lengths(h, fmt, endian):
    table, start, length = FORMATS[fmt]
    p = make_header_packer(CLASSES[fmt], endian)
    d = h.choose('d', 6)
    n = (length - 2, length - 1, length + 1, length + 2, 0, length)[d]
    b = h.bytes('b', min(n, 4)) + p.pack(CLASSES[fmt]())[4:n] if n > 4 else h.bytes('b', n)
    b = b + b'\0' * (n - len(b))
    try:
        p.unpack(b)
        ok = True
    except ValueError:
        ok = False
    h.observe('ok', ok)
    h.check(ok == (n == length), 'a buffer of the wrong length is refused, one of the right length is not')
    for other, cls in CLASSES.items():
        if other != fmt and not issubclass(cls, CLASSES[fmt]):
            try:
                p.pack(cls())
                ok = True
            except TypeError:
                ok = False
            h.check(not ok, 'a header of another format is refused')


def jobs(tier):
    J = []
    for fmt in CLASSES:
        n = len(FORMATS[fmt][0])
        for endian in '><':
            s = fmt + {'>': '-big', '<': '-little'}[endian]
            J.append(dict(name=s + '-decode', fn='decode', params={'fmt': fmt, 'endian': endian}))
            J.append(dict(name=s + '-encode', fn='encode', params={'fmt': fmt, 'endian': endian}))
            J.append(dict(name=s + '-length', fn='lengths', params={'fmt': fmt, 'endian': endian}))
            for lo in range(0, n, 30):
                J.append(dict(name='%s-reject%d' % (s, lo), fn='reject', params={'fmt': fmt, 'endian': endian, 'lo': lo, 'hi': min(n, lo + 30)}))
    return J
