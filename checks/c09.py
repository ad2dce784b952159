"""C09: header objects copy, compare, default and pickle faithfully."""
import copy
from segpy.binary_reel_header import BinaryReelHeader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.header import are_equal, Header, field, SubFormatMeta
from segpy.field_types import Int16, Int32
from segpy.packer import make_header_packer
from checks.segyspec import BINARY, TRACE0, TRACE1, I16, I32, FORMATS, admissible

BOUNDS = {'quick': 'all three standard header formats with every field symbolic at once, a format extending another in two steps, and a '
                   'subset format; pairs of headers differing in any set of fields'}
OUTSIDE = 'the pickle byte stream itself (C implementation): the reduce/state protocol is followed symbolically and real pickling is exercised on path witnesses'


class Ext(TraceHeaderRev1):
    extra_a = field(Int16, offset=233, default=-7, documentation='user field')
    extra_b = field(Int32, offset=235, default=70000, documentation='user field')


class Ext2(Ext):
    extra_c = field(Int16, offset=239, default=3, documentation='user field')


class Sub(metaclass=SubFormatMeta, parent_format=TraceHeaderRev1, parent_field_names=['num_samples', 'inline_number', 'file_sequence_num']):
    pass


def rows(names):
    d = {n: (n, o, s) for n, o, s in TRACE1}
    return [d[n] for n in names]


EXT = TRACE1 + [('extra_a', 233, I16), ('extra_b', 235, I32)]
CLASSES = {'binary': (BinaryReelHeader, BINARY), 'trace0': (TraceHeaderRev0, TRACE0), 'trace1': (TraceHeaderRev1, TRACE1),
           'ext': (Ext, EXT), 'ext2': (Ext2, EXT + [('extra_c', 239, I16)]),
           'sub': (Sub, rows(['num_samples', 'inline_number', 'file_sequence_num']))}


def values(h, table, tag=''):
    vs = []
    for name, off, spec in table:
        v = h.int(name + tag, spec[1], spec[2])
        h.assume(admissible(h, spec, v))
        vs.append(v)
    return vs


def other_value(h, spec, v):
    """some admissible value different from v"""
    w = h.int('w', spec[1], spec[2])
    h.assume(h.both(admissible(h, spec, w), w != v))
    return w


def full(h, fmt):
    """a header with every field set: copies and unpickled headers have every field"""
    cls, table = CLASSES[fmt]
    vs = values(h, table)
    x = cls(*vs)
    for (name, _, _), v in zip(table, vs):
        h.check(getattr(x, name) == v, name + ': constructed by position')
    for what, y in (('copy', x.copy()), ('copy.copy', copy.copy(x)), ('pickling', h.pickled(x))):
        h.check(y is not x, what + ' makes a new header')
        h.check(type(y) is cls, what + ' keeps the type')
        for (name, _, _), v in zip(table, vs):
            h.check(getattr(y, name) == v, what + ' keeps ' + name)
        h.check(type(getattr(y, table[-1][0])) is type(getattr(x, table[-1][0])), what + ' keeps the type of values')


def partial(h, fmt):
    """a header with one field set: every other field keeps its default through copying and pickling"""
    cls, table = CLASSES[fmt]
    i = h.choose('i', len(table))
    name, off, spec = table[i]
    x = cls()
    v = h.int('v', spec[1], spec[2])
    h.assume(admissible(h, spec, v))
    setattr(x, name, v)
    y, z, d = x.copy(), h.pickled(x), cls()
    for n, _, _ in table:
        want = v if n == name else getattr(d, n)
        h.check(getattr(y, n) == want, 'copy: ' + n)
        h.check(getattr(z, n) == want, 'pickling: ' + n)


def independent(h, fmt):
    """changing a copy, or copying with an update, changes one field of one header"""
    cls, table = CLASSES[fmt]
    i = h.choose('i', len(table))
    name, off, spec = table[i]
    v = h.int('v', spec[1], spec[2])
    h.assume(admissible(h, spec, v))
    w = other_value(h, spec, v)
    x = cls(**{name: v})
    y = x.copy()
    z = x.copy(**{name: w})
    u = h.pickled(x)
    setattr(y, name, w)
    h.check(getattr(x, name) == v, name + ': the original is not affected')
    h.check(getattr(y, name) == w, name + ': the copy is changed')
    h.check(getattr(z, name) == w, name + ': the update is applied')
    h.check(getattr(u, name) == v, name + ': the unpickled header is not affected')
    setattr(x, name, w)
    h.check(getattr(u, name) == v, name + ': the unpickled header is independent')
    d = cls()
    for n, _, _ in table:
        if n != name:
            h.check(getattr(z, n) == getattr(d, n), 'copy with an update keeps ' + n)
    h.check(are_equal(x, y), 'equal headers are equal')
    h.check(not are_equal(u, x), 'headers differing in one field are not equal')


def equality(h, fmt):
    """are_equal holds exactly when all fields agree"""
    cls, table = CLASSES[fmt]
    xs, ys = values(h, table, '_x'), values(h, table, '_y')
    x, y = cls(*xs), cls(*ys)
    e = are_equal(x, y)
    same = h.both(*[a == b for a, b in zip(xs, ys)])
    h.observe('e', e)
    h.check(h.both(h.implies(e, same), h.implies(same, e)), 'headers are equal exactly when all their fields are')
    h.check(are_equal(x, x), 'a header equals itself')
    h.check(are_equal(x, cls(*xs)), 'a header equals one with the same fields')


def types(h):
    """headers of different formats are never equal"""
    v = h.int('v', 0, 1000)
    a, b = TraceHeaderRev0(num_samples=v), TraceHeaderRev1(num_samples=v)
    c, d = Ext(num_samples=v), Sub(num_samples=v)
    hs = [a, b, c, d, BinaryReelHeader(num_samples=v)]
    for i, p in enumerate(hs):
        for j, q in enumerate(hs):
            h.check(bool(are_equal(p, q)) == (i == j), 'headers of different formats are not equal')


def layout(h, fmt):
    """copies and unpickled headers pack to the same bytes"""
    cls, table = CLASSES[fmt]
    vs = values(h, table)
    x = cls(*vs)
    p = make_header_packer(cls)
    b = p.pack(x)
    h.check(p.pack(x.copy()) == b, 'a copy packs to the same bytes')
    h.check(p.pack(h.pickled(x)) == b, 'an unpickled header packs to the same bytes')


def jobs(tier):
    J = [dict(name='types', fn='types', params={})]
    for fmt in CLASSES:
        for fn in ('full', 'partial', 'independent', 'equality', 'layout'):
            J.append(dict(name='%s-%s' % (fn, fmt), fn=fn, params={'fmt': fmt}))
    return J
