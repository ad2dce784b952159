"""C08: user-defined header formats are packed at the offsets declared, and impossible layouts are refused."""
from segpy.field_types import Int16, Int32, NNInt16, NNInt32
from segpy.header import Header, field, SubFormatMeta, are_equal
from segpy.packer import make_header_packer
from segpy.binary_reel_header import BinaryReelHeader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from checks.segyspec import FORMATS, admissible, field_int, I16, I32, U16, U32

BOUNDS = {'quick': 'formats of 2 fields at any offsets 1..9 and of 3 fields at any offsets 1..7 (every combination of declared order, types '
                   'of 2 and 4 bytes), any declared length 0..14 or none, both byte orders, all field values; '
                   'subset formats of two fields of the standard headers',
          'thorough': 'formats of 2 fields at any offsets 1..12 and of 3 fields at any offsets 1..9, any declared length or none'}
OUTSIDE = 'formats of more than 3 user-declared fields; fields placed before the declared start of the header'
TYPES = {'h': (Int16, I16), 'H': (NNInt16, U16), 'i': (Int32, I32), 'I': (NNInt32, U32)}
CLASSES = {'binary': BinaryReelHeader, 'trace0': TraceHeaderRev0, 'trace1': TraceHeaderRev1}


def build(types, offs, length):
    ts = [TYPES[t][0] for t in types]
    if len(types) == 2:
        class F(Header):
            START_OFFSET_IN_BYTES = 1
            LENGTH_IN_BYTES = length
            f0 = field(ts[0], offset=offs[0], default=0, documentation='first')
            f1 = field(ts[1], offset=offs[1], default=0, documentation='second')
    else:
        class F(Header):
            START_OFFSET_IN_BYTES = 1
            LENGTH_IN_BYTES = length
            f0 = field(ts[0], offset=offs[0], default=0, documentation='first')
            f1 = field(ts[1], offset=offs[1], default=0, documentation='second')
            f2 = field(ts[2], offset=offs[2], default=0, documentation='third')
    return F


def layout(h, types, top, endian, lengths):
    n = len(types)
    sizes = [TYPES[t][1][0] for t in types]
    offs = [h.realise(h.int('o%d' % i, 1, top)) for i in range(n)]
    length = None if lengths is None else h.choose('length', lengths + 1)
    F = build(types, offs, length)
    bad = False
    for i in range(n):
        for j in range(i):
            a, b = offs[i], offs[j]
            if a == b:
                if types[i] != types[j]:
                    bad = True
            elif a < b + sizes[j] and b < a + sizes[i]:
                bad = True
    need = max(o + s for o, s in zip(offs, sizes)) - 1
    if length is not None and (length < need or length < 1):
        bad = True
    try:
        p = make_header_packer(F, endian)
        ok = True
    except (ValueError, TypeError):
        ok = False
    h.observe('ok', ok)
    h.check(ok == (not bad), 'a layout is refused exactly when fields overlap, coincide with different types, or exceed the length')
    if not ok:
        return
    total = need if length is None else length
    vs = []
    for i in range(n):
        vs.append(h.int('v%d' % i, TYPES[types[i]][1][1], TYPES[types[i]][1][2]))
    clash = [vs[i] == vs[j] for i in range(n) for j in range(i) if offs[i] == offs[j]]
    same = h.both(True, *clash)
    x = F(*vs)
    try:
        c = p.pack(x)
        packed = True
    except ValueError:
        packed = False
    h.check(packed == same, 'coincident fields must agree to be packed')
    if not packed:
        return
    h.observe('c', c)
    h.check(len(c) == total, 'packed length')
    used = set()
    for i in range(n):
        h.check(field_int(h, c, offs[i] - 1, sizes[i], endian) == vs[i], 'every field is written at its declared offset')
        used.update(range(offs[i] - 1, offs[i] - 1 + sizes[i]))
    h.check_all([c[k] == 0 for k in range(total) if k not in used], 'bytes of no field are zero')
    b = h.bytes('b', total)
    good = []
    for i in range(n):
        good.append(admissible(h, TYPES[types[i]][1], field_int(h, b, offs[i] - 1, sizes[i], endian)))
    h.assume(h.both(*good))
    y = p.unpack(b)
    for i in range(n):
        h.check(getattr(y, 'f%d' % i) == field_int(h, b, offs[i] - 1, sizes[i], endian), 'every field is read from its declared offset')


def no_fields(h):
    class F(Header):
        START_OFFSET_IN_BYTES = 1
        LENGTH_IN_BYTES = 4
    n = h.int('n', 0, 3)
    try:
        make_header_packer(F)
        ok = True
    except (ValueError, TypeError):
        ok = False
    h.check(not ok, 'a format without fields is refused')


def subset(h, fmt, endian, lo, hi):
    """a subset format reads and writes its fields where the full format does"""
    table, start, length = FORMATS[fmt]
    i = lo + h.choose('i', hi - lo)
    j = (i + 7) % len(table)
    (n1, o1, s1), (n2, o2, s2) = table[i], table[j]
    cls = CLASSES[fmt]

    class Sub(metaclass=SubFormatMeta, parent_format=cls, parent_field_names=[n1, n2]):
        pass
    b1, b2 = h.bytes('b1', s1[0]), h.bytes('b2', s2[0])
    v1, v2 = field_int(h, b1, 0, s1[0], endian), field_int(h, b2, 0, s2[0], endian)
    h.assume(h.both(admissible(h, s1, v1), admissible(h, s2, v2)))
    parts = sorted([(o1 - start, b1), (o2 - start, b2)], key=lambda p: p[0])
    fill = b'\xff'                    # bytes of other fields may hold anything
    buf = fill * parts[0][0] + parts[0][1]
    buf = buf + fill * (parts[1][0] - len(buf)) + parts[1][1]
    buf = buf + fill * (length - len(buf))
    p = make_header_packer(Sub, endian)
    x = p.unpack(buf)
    h.check(getattr(x, n1) == v1, 'first field of a subset format')
    h.check(getattr(x, n2) == v2, 'second field of a subset format')
    h.check(list(Sub.ordered_field_names()) == [n1, n2], 'the subset has the fields asked for')
    c = p.pack(x)
    h.check(len(c) == length, 'a subset header has the length of the full one')
    h.check(c[o1 - start:o1 - start + s1[0]] == b1, 'first field written in place')
    h.check(c[o2 - start:o2 - start + s2[0]] == b2, 'second field written in place')
    full = make_header_packer(cls, endian)
    z = full.pack(cls(**{n1: v1, n2: v2}))
    y = p.unpack(z)
    h.check(h.both(getattr(y, n1) == v1, getattr(y, n2) == v2), 'a subset format reads what the full format wrote')
    y2 = full.unpack(z)
    h.check(h.both(getattr(y2, n1) == v1, getattr(y2, n2) == v2), 'the full format reads it too')


def jobs(tier):
    quick = tier == 'quick'
    J = [dict(name='none', fn='no_fields', params={})]
    for types in ('hh', 'hi', 'ih', 'ii', 'hH', 'II'):
        J.append(dict(name='two-%s' % types, fn='layout',
                      params={'types': types, 'top': 9 if quick else 12, 'endian': '>' if types != 'hi' else '<', 'lengths': None}))
    for types in ('hi', 'ih'):
        J.append(dict(name='two-%s-length' % types, fn='layout', params={'types': types, 'top': 5 if quick else 8, 'endian': '<', 'lengths': 10 if quick else 14}))
    for types in ('hhh', 'hih', 'iii', 'ihh') if quick else ('hhh', 'hih', 'iii', 'ihh', 'hhi', 'iih', 'hiH'):
        J.append(dict(name='three-%s' % types, fn='layout', params={'types': types, 'top': 7 if quick else 9, 'endian': '>', 'lengths': None}))
    for fmt in ('binary', 'trace1') if quick else CLASSES:
        n = len(FORMATS[fmt][0])
        for lo in range(0, n, 30):
            for endian in '>' if quick and fmt == 'trace1' else '><':
                J.append(dict(name='subset-%s%d%s' % (fmt, lo, endian), fn='subset', params={'fmt': fmt, 'endian': endian, 'lo': lo, 'hi': min(n, lo + 30)}))
    return J
