"""C06: every header field accepts exactly the values it can hold, keeps them unchanged, and refuses the rest."""
from segpy.binary_reel_header import BinaryReelHeader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.field_types import Int16, Int32, NNInt16, NNInt32
from checks.segyspec import BINARY, TRACE0, TRACE1, I16, I32, U16, U32, admissible

BOUNDS = {'quick': 'every field of the binary reel header and of both trace header formats, assigned any integer in -2^40..2^40, by '
                   'attribute, keyword, position and copy-with-update'}
OUTSIDE = 'values that are not integers'
CLASSES = {'binary': (BinaryReelHeader, BINARY), 'trace0': (TraceHeaderRev0, TRACE0), 'trace1': (TraceHeaderRev1, TRACE1)}
BIG = 1 << 40


def attempt(f):
    try:
        return True, f()
    except ValueError:
        return False, None


def accepted(h, ok, good, what):
    h.check(h.both(h.implies(ok, good), h.implies(good, ok)), what + ': exactly the admissible values are accepted')


def base_type(h, which):
    t, spec = {'Int16': (Int16, I16), 'Int32': (Int32, I32), 'NNInt16': (NNInt16, U16), 'NNInt32': (NNInt32, U32)}[which]
    v = h.int('v', -BIG, BIG)
    ok, x = attempt(lambda: t(v))
    h.observe('ok', ok)
    accepted(h, ok, admissible(h, spec, v), which)
    if ok:
        h.check(x == v, which + ': value kept')
        h.check(isinstance(x, int), which + ': an integer')


def construct(h, fmt, lo, hi):
    """the value type of a field, called directly"""
    cls, table = CLASSES[fmt]
    name, off, spec = table[lo + h.choose('field', hi - lo)]
    v = h.int('v', -BIG, BIG)
    t = getattr(cls, name).value_type
    ok, x = attempt(lambda: t(v))
    h.observe('ok', ok)
    accepted(h, ok, admissible(h, spec, v), name)
    if ok:
        h.check(x == v, name + ': value kept')


def assign(h, fmt, lo, hi):
    cls, table = CLASSES[fmt]
    i = lo + h.choose('field', hi - lo)
    name, off, spec = table[i]
    v = h.int('v', -BIG, BIG)
    x, y = cls(), cls()
    d = getattr(y, name)

    def put():
        setattr(x, name, v)
    ok, _ = attempt(put)
    h.observe('ok', ok)
    accepted(h, ok, admissible(h, spec, v), name)
    h.check(getattr(x, name) == (v if ok else d), name + ': holds the accepted value, or what it held before')
    h.check(getattr(y, name) == d, name + ': other header objects are not affected')
    other = table[(i + 1) % len(table)][0]
    h.check(getattr(x, other) == getattr(y, other), name + ': the neighbouring field is not affected')


def make(h, fmt, way, lo, hi):
    """construction by keyword, by position, and copy with an update"""
    cls, table = CLASSES[fmt]
    i = lo + h.choose('field', hi - lo)
    name, off, spec = table[i]
    v = h.int('v', -BIG, BIG)
    if way == 'keyword':
        ok, x = attempt(lambda: cls(**{name: v}))
    elif way == 'position':
        args = [getattr(cls(), n) for n, _, _ in table[:i]] + [v]
        ok, x = attempt(lambda: cls(*args))
    else:
        ok, x = attempt(lambda: cls().copy(**{name: v}))
    h.observe('ok', ok)
    accepted(h, ok, admissible(h, spec, v), way + ' ' + name)
    if ok:
        h.check(getattr(x, name) == v, way + ' ' + name + ': value kept')
        other = table[(i + 1) % len(table)][0]
        h.check(getattr(x, other) == getattr(cls(), other), way + ' ' + name + ': the neighbouring field has its default')


def unknown_names(h, fmt):
    cls, table = CLASSES[fmt]
    v = h.int('v', -100, 100)
    for f in (lambda: cls(no_such_field=v), lambda: cls().copy(no_such_field=v)):
        try:
            f()
            ok = True
        except TypeError:
            ok = False
        h.check(not ok, 'an unknown field name is refused')
    h.check([n for n in cls.ordered_field_names()] == [n for n, _, _ in table], 'the fields are those of the standard, in its order')
    x = cls()
    for n, _, spec in table:
        h.check(admissible(h, spec, getattr(x, n)), 'the default of every field is admissible')


def jobs(tier):
    J = [dict(name=t, fn='base_type', params={'which': t}) for t in ('Int16', 'Int32', 'NNInt16', 'NNInt32')]
    for fmt, (cls, table) in CLASSES.items():
        J.append(dict(name=fmt + '-names', fn='unknown_names', params={'fmt': fmt}))
        n = len(table)
        first = 0 if fmt != 'trace1' else len(TRACE0) - 2        # the revision 1 format extends the revision 0 one
        step = 30
        for lo in range(first, n, step):
            hi = min(n, lo + step)
            J.append(dict(name='%s-construct%d' % (fmt, lo), fn='construct', params={'fmt': fmt, 'lo': lo, 'hi': hi}))
            J.append(dict(name='%s-assign%d' % (fmt, lo), fn='assign', params={'fmt': fmt, 'lo': lo, 'hi': hi}))
            for way in ('keyword', 'position', 'copy'):
                J.append(dict(name='%s-%s%d' % (fmt, way, lo), fn='make', params={'fmt': fmt, 'way': way, 'lo': lo, 'hi': hi}))
    return J
