"""Interception points (`__sx_*__`) used by transformed code, and models of builtins / stdlib functions."""
import abc
import array as _array
import bisect as _bisect
import builtins
import collections
import decimal
import enum
import fractions
import functools
import io
import itertools
import math
import operator
import os
import struct as _struct
import types
import z3
from . import core, floats, seqs
from .core import (SymInt, SymBool, mkint, mkbool, bv, ext, lohi, sand, sor, snot, bt, Inconclusive, ite_int, as_operand)
from .floats import SymFloat
from .seqs import SymBytes, SymStr, SymArray, SymRange, SymFile, SymChar

SYMS = (SymInt, SymBool, SymFloat, SymBytes, SymStr, SymArray, SymRange)
SYMSET = frozenset(SYMS)
FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType


def is_sym(x):
    return type(x) in SYMSET


def has_sym(x, depth=3):
    t = type(x)
    if t in SYMSET:
        return True
    if depth and (t is tuple or t is list):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    return False


def truth(x):
    """bool(x) as a real bool, forking if symbolic."""
    t = type(x)
    if t is bool:
        return x
    if t in SYMSET:
        return bool(x)
    r = truth_value(x)
    return r if type(r) is bool else bool(r)


def truth_value(x):
    """bool(x) as bool or SymBool, without forking if possible."""
    t = type(x)
    if t is bool or t is SymBool:
        return x
    if t is SymInt:
        return x != 0
    if t in SYMSET:
        if t is SymBytes and x.n is not None:
            return x.n > 0
        return bool(x)
    f = getattr(t, '__bool__', None)
    if f is not None:
        if type(f) is FunctionType:
            return truth_value(f(x))
        return bool(x)
    f = getattr(t, '__len__', None)
    if type(f) is FunctionType:
        return sx_len(x) != 0
    return bool(x)


def sx_not(x):
    return snot(truth_value(x))


def sx_and(a, thunk, pure):
    if type(a) is SymBool and pure:
        try:
            b = thunk()
            if type(b) in (bool, SymBool):
                return sand(a, b)
        except Exception:
            pass
    if not truth(a):
        return a if type(a) is not SymBool else False
    return thunk()


def sx_or(a, thunk, pure):
    if type(a) is SymBool and pure:
        try:
            b = thunk()
            if type(b) in (bool, SymBool):
                return sor(a, b)
        except Exception:
            pass
    if truth(a):
        return a if type(a) is not SymBool else True
    return thunk()


def sx_eq(a, b):
    ta, tb = type(a), type(b)
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        if len(a) != len(b):
            return False
        if has_sym(a) or has_sym(b):
            return sand(*[truth_value(sx_eq(x, y)) for x, y in zip(a, b)])
    elif ta is dict or tb is dict or ta is collections.OrderedDict or tb is collections.OrderedDict:
        if isinstance(a, dict) and isinstance(b, dict) and (dict_sym(a) or dict_sym(b)):
            if len(a) != len(b):
                return False
            for k in a:
                if not sx_in(k, b):
                    return False
                if not truth(sx_eq(sx_getitem(a, k), sx_getitem(b, k))):
                    return False
            return True
    elif (ta is set or ta is frozenset) and (tb is set or tb is frozenset):
        if dict_sym(a) or dict_sym(b):
            if len(a) != len(b):
                return False
            return all(truth(sx_in(k, b)) for k in a)
    return a == b


def sx_ne(a, b):
    r = sx_eq(a, b)
    if type(r) in (bool, SymBool) and (type(a) in SYMSET or type(b) in SYMSET or type(a) in (tuple, list, dict)):
        return snot(r)
    return a != b


def sx_is(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymBool and (tb is bool or tb is SymBool):
        return a == b
    if tb is SymBool and ta is bool:
        return b == a
    if ta is SymInt or tb is SymInt:
        ca = a.cls if ta is SymInt else ta
        cb = b.cls if tb is SymInt else tb
        if ca is cb and isinstance(ca, enum.EnumMeta):
            return a == b
        if ca is int and cb is int:
            return False
    return False


def sx_cmpchain(pairs):
    """chained comparison: pairs is a list of thunk results evaluated lazily"""
    acc = True
    for th in pairs:
        r = th()
        tr = type(r)
        if tr is SymBool:
            acc = sand(acc, r)
        elif tr is bool:
            if not r:
                return False
        else:
            if type(acc) is SymBool:
                if not acc:
                    return False
                acc = True
            if not truth(r):
                return r
    return acc


# ---------------------------------------------------------------- dict / set with symbolic keys
def dict_sym(d):
    e = core.E
    return e is not None and id(d) in e.symdicts


def mark(d):
    core.E.symdicts[id(d)] = d


def key_sym(k):
    t = type(k)
    if t in SYMSET:
        return True
    if t is tuple or t is frozenset:
        for x in k:
            if key_sym(x):
                return True
    return False


def find_key(d, k):
    """-> existing equal key object or UNSET.  Forks on equality."""
    if not key_sym(k) and not dict_sym(d):
        return k if k in d else UNSET
    if type(k) is SymInt and not dict_sym(d):
        lo, hi = k.lo, k.hi
        for x in d:
            if isinstance(x, (int, float)) and lo <= x <= hi and truth(x == k):
                return x
        return UNSET
    for x in d:
        if x is k:
            return x
        r = sx_eq(x, k)
        if r is True or (type(r) is SymBool and bool(r)):
            return x
    return UNSET


UNSET = object()
DICTS = (dict, collections.OrderedDict, collections.defaultdict, collections.Counter)


def is_dict(o):
    t = type(o)
    return t in DICTS or (isinstance(o, dict) and t.__getitem__ is dict.__getitem__)


def dict_get(d, k, default=None):
    x = find_key(d, k)
    return dict.__getitem__(d, x) if x is not UNSET else default


def dict_set(d, k, v):
    x = find_key(d, k)
    if x is UNSET:
        if key_sym(k):
            mark(d)
        x = k
    if isinstance(d, collections.OrderedDict):
        collections.OrderedDict.__setitem__(d, x, v)
    else:
        dict.__setitem__(d, x, v)


def dict_getitem(d, k):
    x = find_key(d, k)
    if x is UNSET:
        m = getattr(type(d), '__missing__', None)
        if m is not None:
            if isinstance(d, collections.defaultdict):
                if d.default_factory is None:
                    raise KeyError(k)
                v = sx_call(d.default_factory)
                dict_set(d, k, v)
                return v
            return m(d, k)
        raise KeyError(k)
    return dict.__getitem__(d, x)


def dict_pop(d, k, *default):
    x = find_key(d, k)
    if x is UNSET:
        if default:
            return default[0]
        raise KeyError(k)
    return d.pop(x)


def dict_setdefault(d, k, default=None):
    x = find_key(d, k)
    if x is UNSET:
        dict_set(d, k, default)
        return default
    return dict.__getitem__(d, x)


def dict_update(d, *args, **kw):
    for a in args:
        if hasattr(a, 'keys'):
            for k in a.keys():
                dict_set(d, k, sx_getitem(a, k))
        else:
            for k, v in a:
                dict_set(d, k, v)
    for k, v in kw.items():
        dict_set(d, k, v)


def make_dict(cls, *args, **kw):
    d = cls()
    dict_update(d, *args, **kw)
    return d


def dict_copy(d):
    r = type(d)() if not isinstance(d, collections.defaultdict) else collections.defaultdict(d.default_factory)
    dict_update(r, d)
    return r


def dict_fromkeys(cls, it, value=None):
    d = cls()
    for k in it:
        dict_set(d, k, value)
    return d


def sx_dict(pairs):
    d = {}
    for k, v in pairs:
        if k is UNPACK:
            dict_update(d, v)
        else:
            dict_set(d, k, v)
    return d


UNPACK = object()


def set_add(s, k):
    if find_key(s, k) is UNSET:
        if key_sym(k):
            mark(s)
        set.add(s, k)


def make_set(it=()):
    s = set()
    for k in it:
        set_add(s, k)
    return s


def make_frozenset(it=()):
    s = make_set(it)
    r = frozenset(s)
    if dict_sym(s):
        mark(r)
    return r


def set_binop(name):
    def f(s, *others):
        others = [make_set(o) if not isinstance(o, (set, frozenset)) else o for o in others]
        if not dict_sym(s) and not any(dict_sym(o) for o in others):
            return getattr(type(s), name)(s, *others)
        if name == 'union':
            r = make_set(s)
            for o in others:
                for k in o:
                    set_add(r, k)
        elif name == 'intersection':
            r = make_set(k for k in s if all(truth(sx_in(k, o)) for o in others))
        elif name == 'difference':
            r = make_set(k for k in s if not any(truth(sx_in(k, o)) for o in others))
        elif name == 'issubset':
            return all(truth(sx_in(k, others[0])) for k in s)
        elif name == 'issuperset':
            return all(truth(sx_in(k, s)) for k in others[0])
        elif name == 'isdisjoint':
            return not any(truth(sx_in(k, others[0])) for k in s)
        else:
            raise Inconclusive('set.%s with symbolic members' % name)
        return r
    return f


def set_update(s, *others):
    for o in others:
        for k in o:
            set_add(s, k)


# ---------------------------------------------------------------- item access
def sx_getitem(o, k):
    to = type(o)
    if to in SYMSET:
        if type(k) is SymBool:
            k = k.as_int()
        return o[k]
    tk = type(k)
    if tk is SymInt or tk is SymBool:
        if tk is SymBool:
            k = k.as_int()
        if to is list or to is tuple:
            return seqs.select(o, k, 'list index out of range')
        if to is bytes or to is bytearray:
            return seqs.select(list(o), k, 'index out of range')
        if to is str:
            return o[k.__index__()]
        if to is range:
            return SymRange(o.start, o.stop, o.step)[k]
        if isinstance(o, tuple):
            return seqs.select(list(o), k, 'tuple index out of range')
        if isinstance(o, enum.EnumMeta):
            return o[k]
    elif tk is slice and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)):
        if to in (list, tuple, str, bytes, range, bytearray):
            if to is range:
                return SymRange(o.start, o.stop, o.step)[k]
            return o[seqs.conc_slice(k)]
    if isinstance(o, dict) and is_dict(o):
        if dict_sym(o) or key_sym(k):
            return dict_getitem(o, k)
    if to is types.MappingProxyType and key_sym(k):
        return dict_getitem(dict(o), k)
    return o[k]


def sx_setitem(o, k, v):
    if isinstance(o, dict) and is_dict(o):
        if dict_sym(o) or key_sym(k):
            return dict_set(o, k, v)
        o[k] = v
        return
    if type(k) is SymInt and type(o) is list:
        n = len(o)
        if not sand(k >= -n, k < n):
            raise IndexError('list assignment index out of range')
        k = k.__index__()
    elif isinstance(k, slice):
        k = seqs.conc_slice(k)
    if type(o) is bytearray and (is_sym(v)):
        raise Inconclusive('bytearray item assignment')
    if type(o) is _array.array and is_sym(v):
        raise Inconclusive('array.array item assignment')
    o[k] = v


def sx_delitem(o, k):
    if isinstance(o, dict) and is_dict(o) and (dict_sym(o) or key_sym(k)):
        dict_pop(o, k)
        return
    if type(k) is SymInt:
        k = k.__index__()
    del o[k]


def sx_augsub(o, k, opname, v):
    cur = sx_getitem(o, k)
    sx_setitem(o, k, getattr(operator, opname)(cur, v))


def sx_in(x, c):
    tc = type(c)
    if tc in (SymRange, SymBytes, SymStr):
        return c.sx_contains(x)
    if tc is SymArray:
        return sor(*[truth_value(x == y) for y in c])
    if isinstance(c, dict) and is_dict(c) or tc is set or tc is frozenset:
        if key_sym(x) or dict_sym(c):
            if tc in (set, frozenset) and type(x) is SymInt and not dict_sym(c):
                vals = [y for y in c if isinstance(y, (int, float)) and x.lo <= y <= x.hi]
                return in_consts(x, vals)
            return find_key(c, x) is not UNSET
        return x in c
    if tc is types.MappingProxyType and key_sym(x):
        return find_key(dict(c), x) is not UNSET
    if tc is collections.abc.KeysView or tc in (type({}.keys()), type(collections.OrderedDict().keys())):
        m = getattr(c, '_mapping', None)
        if m is None:
            m = getattr(c, 'mapping', None)
        if m is not None:
            return sx_in(x, m)
    if is_sym(x) or has_sym(x):
        if type(x) is SymInt and tc in (list, tuple, bytes, bytearray) and all(type(y) is int for y in c):
            if tc in (list, tuple) or x.lo >= 0 and x.hi <= 255:
                return in_consts(x, sorted({y for y in c if x.lo <= y <= x.hi}))
        if tc is range:
            return SymRange(c.start, c.stop, c.step).sx_contains(x)
        if tc is list or tc is tuple:
            return sor(*[truth_value(sx_eq(y, x)) if y is not x else True for y in c])
        if tc is bytes or tc is bytearray:
            return SymBytes(list(c)).sx_contains(x)
        if tc is str:
            return SymStr([ord(q) for q in c]).sx_contains(x)
        if isinstance(c, enum.EnumMeta):
            if isinstance(x, c):
                return True
            return sor(*[m.value == x for m in c])
    elif (tc is list or tc is tuple) and has_sym(c):
        return sor(*[truth_value(sx_eq(y, x)) if y is not x else True for y in c])
    f = getattr(tc, '__contains__', None)
    if type(f) is FunctionType:
        return truth_value(f(c, x))
    return x in c


def in_consts(x, vals):
    """membership of a SymInt in a set of constants, as compact interval tests"""
    if not vals:
        return False
    ints = sorted(set(int(v) for v in vals if v == int(v)))
    parts = []
    i = 0
    while i < len(ints):
        j = i
        while j + 1 < len(ints) and ints[j + 1] == ints[j] + 1:
            j += 1
        parts.append(x == ints[i] if i == j else sand(x >= ints[i], x <= ints[j]))
        i = j + 1
    return sor(*parts)


# ---------------------------------------------------------------- builtin models
def sx_len(x):
    f = getattr(type(x), '__sx_len__', None)
    if f is not None:
        return f(x)
    f = getattr(type(x), '__len__', None)
    if type(f) is FunctionType:
        r = f(x)
        if type(r) is SymInt:
            if not (r >= 0):
                raise ValueError('__len__() should return >= 0')
            return r
        if type(r) is SymBool:
            return r.as_int()
        return len_check(r)
    return len(x)


def len_check(r):
    r = operator.index(r)
    if r < 0:
        raise ValueError('__len__() should return >= 0')
    return r


def m_int(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        t = type(x)
        if t is SymInt:
            return x.plain()
        if t is SymBool:
            return x.as_int()
        if t is SymFloat:
            return floats.to_int(x, 'trunc')
        if t is SymStr:
            return parse_int(x)
        if t is SymBytes:
            return int(x.concrete())
        for name in ('__int__', '__index__', '__trunc__'):
            f = getattr(t, name, None)
            if type(f) is FunctionType:
                r = f(x)
                return r.plain() if type(r) is SymInt else int(r) if type(r) is not SymBool else r.as_int()
        return int(x)
    if args and is_sym(args[0]) and type(args[0]) is SymStr:
        return int(args[0].concrete(), *args[1:], **kw)
    return int(*args, **kw)


def parse_int(s):
    return int(s.concrete())


def m_float(*args):
    if args:
        x = args[0]
        t = type(x)
        if t in (SymInt, SymBool, SymFloat):
            return floats.to_sym(x)
        f = getattr(t, '__float__', None)
        if type(f) is FunctionType:
            return f(x)
        if t is SymStr:
            return float(x.concrete())
    return float(*args)


def m_bool(*args):
    if args:
        return truth_value(args[0])
    return False


def m_bytes(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        t = type(x)
        if t is SymBytes:
            return x
        if t is SymArray:
            return x.tobytes()
        if t is SymInt:
            return bytes(x.__index__())
        f = getattr(t, '__bytes__', None)
        if type(f) is FunctionType:
            return f(x)
        if t is bytearray or t is bytes or t is int or isinstance(x, (str, memoryview, _array.array)):
            return bytes(x)
        items = list(x)
        if any(is_sym(i) or not isinstance(i, int) for i in items):
            out = []
            for i in items:
                v = as_operand(i)
                if v is None:
                    v = operator.index(i)
                if not sand(v >= 0, v <= 255):
                    raise ValueError('bytes must be in range(0, 256)')
                if type(v) is SymInt:
                    v = seqs.byte_of(seqs.bv8(core.tighten(v, 0, 255))) if v.lo < 0 or v.hi > 255 else v
                out.append(v)
            return seqs.mk_bytes(out)
        return bytes(items)
    if args and type(args[0]) is SymStr:
        return args[0].encode(*args[1:], **kw)
    return bytes(*args, **kw)


def m_str(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if type(x) is SymStr:
            return x
        f = getattr(type(x), '__str__', None)
        if type(f) is FunctionType and type(x) not in SYMSET:
            return f(x)
    elif args and type(args[0]) is SymBytes:
        return args[0].decode(*args[1:], **kw)
    return str(*args, **kw)


def m_type(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if type(x) in SYMSET:
            return x.__class__
        return type(x)
    return type(*args, **kw)


def m_all(it):
    acc = True
    g = iter(it)
    while True:
        try:
            x = next(g)
        except StopIteration:
            return acc
        except Exception:
            if type(acc) is SymBool and not acc:
                return False
            raise
        v = truth_value(x)
        if type(v) is SymBool:
            acc = sand(acc, v)
        elif not v:
            return False


def m_any(it):
    acc = False
    g = iter(it)
    while True:
        try:
            x = next(g)
        except StopIteration:
            return acc
        except Exception:
            if type(acc) is SymBool and acc:
                return True
            raise
        v = truth_value(x)
        if type(v) is SymBool:
            acc = sor(acc, v)
        elif v:
            return True


def m_min(*args, **kw):
    return minmax_model(args, kw, False)


def m_max(*args, **kw):
    return minmax_model(args, kw, True)


def minmax_model(args, kw, mx):
    items = list(args[0]) if len(args) == 1 else list(args)
    if not kw and items and all(type(x) in (int, SymInt) for x in items) and any(type(x) is SymInt for x in items):
        r = items[0]
        for x in items[1:]:
            c = (x > r) if mx else (x < r)
            if type(c) is SymBool:
                r2 = ite_int(c.t, x, r)
                lr, hr = lohi(r)
                lx, hx = lohi(x)
                b = (max(lr, lx), max(hr, hx)) if mx else (min(lr, lx), min(hr, hx))
                r = core.tighten(r2, *b) if type(r2) is SymInt else r2
            elif c:
                r = x
        return r
    key = kw.get('key')
    if not items:
        return (max if mx else min)(items, **kw)
    r, rk = items[0], key(items[0]) if key else items[0]
    for x in items[1:]:
        k = key(x) if key else x
        if truth((k > rk) if mx else (k < rk)):
            r, rk = x, k
    return r


def shape(x):
    t = type(x)
    if t is int or t is SymInt:
        return 'i'
    if t is tuple:
        s = [shape(y) for y in x]
        return None if None in s else tuple(s)
    return None


def merge(c, a, b):
    if type(a) is tuple:
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if a is b:
        return a
    return ite_int(c, a, b)


def lt_shape(a, b):
    """a < b for same-shaped values as bool/SymBool"""
    if type(a) is not tuple:
        return a < b
    r = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        r = sor(lt_shape(x, y), sand(truth_value(sx_eq(x, y)), r))
    return r


def m_sorted(it, *, key=None, reverse=False):
    xs = list(it)
    if not any(has_sym(x) for x in xs):
        ks = None
        if key is None:
            return sorted(xs, reverse=truth(reverse))
    ks = [key(x) for x in xs] if key is not None else xs
    if not any(has_sym(k) for k in ks):
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=truth(reverse))
        return [xs[i] for i in order]
    rev = truth(reverse)
    sh = {shape(x) for x in xs} | ({('k', shape(k)) for k in ks} if key is not None else set())
    ok = len({shape(x) for x in xs}) == 1 and len({shape(k) for k in ks}) == 1 and shape(xs[0]) is not None and shape(ks[0]) is not None
    if ok:
        prs = list(zip(ks, xs))
        n = len(prs)
        for i in range(n):
            for j in range(n - 1 - i):
                (ka, a), (kb, b) = prs[j], prs[j + 1]
                c = lt_shape(ka, kb) if rev else lt_shape(kb, ka)
                if type(c) is SymBool and n <= 6:
                    f = core.E.forced(c.t)
                    if f is not None:
                        c = f
                if c is False:
                    continue
                if c is True:
                    prs[j], prs[j + 1] = prs[j + 1], prs[j]
                    continue
                prs[j] = (merge(c.t, kb, ka), merge(c.t, b, a))
                prs[j + 1] = (merge(c.t, ka, kb), merge(c.t, a, b))
        return [x for _, x in prs]
    # stable insertion sort with forking comparisons
    out = []
    for k, x in zip(ks, xs):
        i = len(out)
        while i > 0 and truth(lt_any(k, out[i - 1][0]) if not rev else lt_any(out[i - 1][0], k)):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def lt_any(a, b):
    if shape(a) is not None and shape(a) == shape(b):
        return lt_shape(a, b)
    return a < b


def list_sort(l, *, key=None, reverse=False):
    l[:] = m_sorted(list(l), key=key, reverse=reverse)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_map(f, *its):
    if len(its) == 1:
        for x in its[0]:
            yield sx_call(f, x)
    else:
        for xs in zip(*its):
            yield sx_call(f, *xs)


def m_filter(f, it):
    for x in it:
        if truth(x if f is None else sx_call(f, x)):
            yield x


def m_range(*args):
    if any(type(a) in (SymInt, SymBool) for a in args):
        return SymRange.make(*args)
    return range(*args)


def m_abs(x):
    return abs(x)


def m_divmod(a, b):
    return divmod(a, b)


def m_round(x, *a):
    if type(x) in (SymInt, SymFloat):
        return x.__round__(*a)
    return round(x, *a)


def m_isinstance(x, cls):
    if type(x) in SYMSET:
        return any_isinstance(x.__class__, cls)
    return isinstance(x, cls)


def any_isinstance(c, cls):
    if isinstance(cls, tuple):
        return any(any_isinstance(c, k) for k in cls)
    if isinstance(cls, types.UnionType):
        return any(any_isinstance(c, k) for k in cls.__args__)
    return issubclass(c, cls)


def m_hash(x):
    if key_sym(x):
        return core.SYM_HASH
    return hash(x)


def m_ord(c):
    if type(c) is SymStr:
        if len(c.chars) != 1:
            raise TypeError('ord() expected a character')
        return seqs.cp_of(c.chars[0])
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        return seqs.mk_str([i])
    return chr(i)


def m_reversed(x):
    if type(x) is SymRange:
        return x.__reversed__()
    if type(x) in (SymBytes, SymStr, SymArray):
        return iter(x[::-1])
    return reversed(x)


def m_iter(*a):
    if len(a) == 2:
        return iter_sentinel(*a)
    return iter(*a)


def iter_sentinel(f, s):
    while True:
        v = sx_call(f)
        if truth(sx_eq(v, s)):
            return
        yield v


def int_new(cls, *args, **kw):
    x = m_int(*args, **kw)
    if type(x) is SymInt:
        return x.with_cls(cls) if cls is not int else x
    return int.__new__(cls, x)


def float_new(cls, *args):
    return m_float(*args)


def enum_call(cls, args, kw):
    x = args[0]
    if type(x) is SymBool:
        x = x.as_int()
    if x.cls is cls:
        return x
    members = list(cls)
    vals = [m.value for m in members]
    if all(isinstance(v, int) for v in vals) and '_missing_' not in custom_missing(cls):
        if not truth(in_consts(x, [v for v in vals])):
            raise ValueError('%s is not a valid %s' % ('<sym>', cls.__name__))
        if issubclass(cls, int):
            lo, hi = min(vals), max(vals)
            r = core.tighten(x, lo, hi)
            if type(r) is not SymInt:
                return cls(r)
            return r.with_cls(cls)
        for m in members:
            if truth(x == m.value):
                return m
    return cls(x.__index__())


def custom_missing(cls):
    for k in cls.__mro__:
        if k.__module__ == 'enum' or k in (int, object):
            continue
        if '_missing_' in k.__dict__:
            return ('_missing_',)
    return ()


# ---------------------------------------------------------------- struct
def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order, std = 'native', False
    i = 0
    e = seqs.NATIVE
    if fmt and fmt[0] in '@=<>!':
        c = fmt[0]
        i = 1
        std = c != '@'
        e = {'@': seqs.NATIVE, '=': seqs.NATIVE, '<': 'little', '>': 'big', '!': 'big'}[c]
    out = []
    num = ''
    for c in fmt[i:]:
        if c.isspace():
            continue
        if c.isdigit():
            num += c
            continue
        n = int(num) if num else None
        num = ''
        if c == 's' or c == 'p':
            out.append((c, n if n is not None else 1))
        elif c == 'x':
            out.append(('x', n if n is not None else 1))
        else:
            out.extend([(c, 1)] * (n if n is not None else 1))
    if not std and any(c in 'hHiIlLqQfdnNP' for c, _ in out):
        # native alignment: only accept when it makes no difference
        if _struct.calcsize(fmt) != _struct.calcsize('=' + ''.join('%d%s' % (n, c) if c in 'sx' else c for c, n in out)):
            raise Inconclusive('native struct alignment')
    return e, out


SIZES = {'b': 1, 'B': 1, 'c': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 'e': 2}


@functools.lru_cache(None)
def fmt_cached(fmt):
    e, out = parse_fmt(fmt)
    size = sum(n if c in 'sxp' else SIZES[c] for c, n in out)
    return e, tuple(out), size


def st_unpack(fmt, buf):
    its = None
    if type(buf) is SymBytes and buf.n is not None:
        e, out, size = fmt_cached(fmt)
        if not (buf.n == size):
            raise _struct.error('unpack requires a buffer of %d bytes' % size)
        buf.items = buf.items[:size]
        buf.n = None
    its = seqs.bytes_items(buf) if type(buf) is not SymBytes else buf.items
    if its is None:
        raise TypeError("a bytes-like object is required, not '%s'" % type(buf).__name__)
    e, out, size = fmt_cached(fmt)
    if len(its) != size:
        raise _struct.error('unpack requires a buffer of %d bytes' % size)
    return tuple(unpack_items(e, out, its, 0))


def unpack_items(e, out, its, p):
    vals = []
    for c, n in out:
        if c == 'x':
            p += n
        elif c == 's':
            vals.append(seqs.mk_bytes(list(its[p:p + n])))
            p += n
        elif c == 'c':
            vals.append(seqs.mk_bytes([its[p]]))
            p += 1
        elif c == '?':
            vals.append(truth_value(its[p] != 0))
            p += 1
        elif c in 'fd':
            n = SIZES[c]
            vals.append(seqs.decode_item(c, list(its[p:p + n]), e))
            p += n
        else:
            n = SIZES[c]
            vals.append(seqs.items_to_int(its[p:p + n], e, c.islower()))
            p += n
    return vals


def st_unpack_from(fmt, buf, offset=0):
    e, out, size = fmt_cached(fmt)
    its = seqs.bytes_items(buf)
    if type(offset) is SymInt:
        offset = offset.__index__()
    if offset < 0:
        offset += len(its)
    if len(its) - offset < size:
        raise _struct.error('unpack_from requires a buffer of at least %d bytes' % size)
    return tuple(unpack_items(e, out, its[offset:offset + size], 0))


def st_iter_unpack(fmt, buf):
    e, out, size = fmt_cached(fmt)
    its = seqs.bytes_items(buf)
    if size == 0 or len(its) % size:
        raise _struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % size)
    for i in range(0, len(its), size):
        yield tuple(unpack_items(e, out, its[i:i + size], 0))


def st_pack(fmt, *vals):
    e, out, size = fmt_cached(fmt)
    need = sum(1 for c, n in out if c != 'x')
    if need != len(vals):
        raise _struct.error('pack expected %d items for packing (got %d)' % (need, len(vals)))
    r = []
    vi = iter(vals)
    for c, n in out:
        if c == 'x':
            r.extend([0] * n)
            continue
        v = next(vi)
        if c == 's':
            b = seqs.bytes_items(v)
            if b is None:
                raise _struct.error("argument for 's' must be a bytes object")
            b = list(b[:n])
            r.extend(b + [0] * (n - len(b)))
        elif c == 'c':
            r.extend(seqs.bytes_items(v))
        elif c == '?':
            v = truth_value(v)
            r.append(v.as_int() if type(v) is SymBool else int(v))
        elif c in 'fd':
            if not isinstance(v, (int, float)) and getattr(type(v), '__float__', None) is None:
                raise _struct.error('required argument is not a float')
            r.extend(seqs.encode_float(c, v, e, _struct.error))
        else:
            x = as_operand(v)
            if x is None:
                if type(v) is SymFloat or not hasattr(type(v), '__index__'):
                    raise _struct.error('required argument is not an integer')
                x = operator.index(v)
            k = SIZES[c]
            lo, hi = (-(1 << (8 * k - 1)), (1 << (8 * k - 1)) - 1) if c.islower() else (0, (1 << (8 * k)) - 1)
            if not sand(x >= lo, x <= hi):
                raise _struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
            r.extend(seqs.int_to_items(x, k, e))
    return seqs.mk_bytes(r)


# ---------------------------------------------------------------- misc stdlib
def m_isnan(x):
    if type(x) is SymFloat:
        return mkbool(z3.simplify(x.isnan_t()))
    if type(x) in (SymInt, SymBool):
        return False
    if hasattr(type(x), '__float__') and type(getattr(type(x), '__float__')) is FunctionType:
        return m_isnan(m_float(x))
    return math.isnan(x)


def m_isinf(x):
    if type(x) is SymFloat:
        return mkbool(z3.simplify(x.isinf_t()))
    if type(x) in (SymInt, SymBool):
        return False
    if hasattr(type(x), '__float__') and type(getattr(type(x), '__float__')) is FunctionType:
        return m_isinf(m_float(x))
    return math.isinf(x)


def m_isfinite(x):
    return sand(snot(m_isnan(x)), snot(m_isinf(x)))


def m_frexp(x):
    return floats.frexp(m_float(x))


def m_ldexp(x, e):
    return floats.ldexp(m_float(x), e)


def m_copysign(x, y):
    fx, fy = floats.to_sym(m_float(x)), floats.to_sym(m_float(y))
    neg = fy.neg_t() if type(fy) is SymFloat else z3.BoolVal(math.copysign(1.0, fy) < 0)
    bx = floats.bits_of(fx)
    return floats.from_bits(z3.Concat(z3.If(neg, bv(1, 1), bv(0, 1)), z3.Extract(62, 0, bx)))


def m_fabs(x):
    return abs(floats.to_sym(m_float(x)))


def m_trunc(x):
    return x.__trunc__()


def m_floor(x):
    f = getattr(type(x), '__floor__', None)
    if f is not None:
        return f(x)
    return m_floor(m_float(x))


def m_ceil(x):
    f = getattr(type(x), '__ceil__', None)
    if f is not None:
        return f(x)
    return m_ceil(m_float(x))


def m_pow(*a):
    return pow(*a)


def m_gcd(*args):
    if not args:
        return 0
    r = args[0]
    for b in args[1:]:
        r = gcd2(r, b)
    return abs(r)


def gcd2(a, b):
    a, b = abs(as_operand(a)), abs(as_operand(b))
    if type(a) is int and type(b) is int:
        return math.gcd(a, b)
    for x, y in ((a, b), (b, a)):
        if type(x) is int and x == 0:
            return y
        xl = x.bit_length() - 1 if type(x) is int and x & (x - 1) == 0 else (x.log2 if type(x) is SymInt else None)
        if xl is not None:
            if truth(y == 0):
                return x
            c = floats.ctz(y)
            m = m_min(c, xl)
            return core.shl(1, m)
    if truth(a == 0):
        return b
    if truth(b == 0):
        return a
    # Bezout characterisation: g | a, g | b and x*(a/g) + y*(b/g) = 1
    e = core.E
    la, ha = lohi(a)
    lb, hb = lohi(b)
    w = core.bits_for(0, max(ha, hb))
    hi = min(ha, hb)
    g = mkint(z3.ZeroExt(1, e.fresh('gcd', w)), w + 1, 0, (1 << w) - 1)
    a1 = mkint(z3.ZeroExt(1, e.fresh('gcda', w)), w + 1, 0, (1 << w) - 1)
    b1 = mkint(z3.ZeroExt(1, e.fresh('gcdb', w)), w + 1, 0, (1 << w) - 1)
    x = mkint(e.fresh('gcdx', w + 1), w + 1, -(1 << w), (1 << w) - 1)
    y = mkint(e.fresh('gcdy', w + 1), w + 1, -(1 << w), (1 << w) - 1)
    for c in (g >= 1, g <= hi, g * a1 == a, g * b1 == b, x * a1 + y * b1 == 1, abs(x) <= b1, abs(y) <= a1, g <= a, g <= b):
        if c is True:
            continue
        e.add(bt(c))
    e.model = None
    return core.tighten(g, 1, hi)


def m_lcm(*args):
    r = 1
    for b in args:
        if truth(r == 0) or truth(b == 0):
            return 0
        r = abs(r * b) // m_gcd(r, b)
    return r


def m_bisect(side):
    def f(a, x, lo=0, hi=None, *, key=None):
        if hi is None:
            hi = sx_len(a)
            if type(hi) is SymInt:
                hi = hi.__index__()
        while lo < hi:
            mid = (lo + hi) // 2
            v = sx_getitem(a, mid)
            if key is not None:
                v = key(v)
            if side == 'left':
                if truth(v < x):
                    lo = mid + 1
                else:
                    hi = mid
            else:
                if truth(x < v):
                    hi = mid
                else:
                    lo = mid + 1
        return lo
    return f


def m_islice(it, *args):
    args = [a.__index__() if type(a) is SymInt else a for a in args]
    return itertools.islice(it, *args)


def m_repeat(x, *n):
    n = [a.__index__() if type(a) is SymInt else a for a in n]
    return itertools.repeat(x, *n)


def m_accumulate(it, func=operator.add, *, initial=None):
    total = initial
    g = iter(it)
    if initial is None:
        try:
            total = next(g)
        except StopIteration:
            return
    yield total
    for x in g:
        total = sx_call(func, total, x)
        yield total


def m_groupby(it, key=None):
    return iter(_groupby(it, key))


def _groupby(it, key):
    out = []
    for x in it:
        k = key(x) if key else x
        if out and truth(sx_eq(out[-1][0], k)):
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    for k, g in out:
        yield k, iter(g)


def m_takewhile(p, it):
    for x in it:
        if not truth(sx_call(p, x)):
            return
        yield x


def m_dropwhile(p, it):
    g = iter(it)
    for x in g:
        if not truth(sx_call(p, x)):
            yield x
            break
    yield from g


def m_starmap(f, it):
    for a in it:
        yield sx_call(f, *a)


def m_reduce(f, it, *init):
    g = iter(it)
    r = init[0] if init else next(g)
    for x in g:
        r = sx_call(f, r, x)
    return r


def int_from_bytes(b, byteorder='big', *, signed=False):
    its = seqs.bytes_items(b)
    if its is None:
        its = list(b)
    return seqs.items_to_int(its, byteorder, signed)


def m_array(typecode, *init):
    if typecode in ('u', 'w'):
        return _array.array(typecode, *init)
    return SymArray.make(typecode, *(init or ((),)))


def m_bytesio(init=b'', *a):
    if type(init) is SymBytes:
        return SymFile(init.fixed())
    return SymFile(list(init))


def m_counter(*args, **kw):
    d = collections.Counter()
    if args and args[0] is not None:
        a = args[0]
        if hasattr(a, 'keys'):
            dict_update(d, a)
        else:
            for k in a:
                dict_set(d, k, dict_get(d, k, 0) + 1)
    return d


def m_memoryview(x):
    if type(x) is SymBytes:
        return x
    return memoryview(x)


def m_bytearray(*a):
    if a and type(a[0]) is SymBytes:
        raise Inconclusive('bytearray of symbolic bytes')
    return bytearray(*a)


def m_tuple(*a):
    return tuple(*a)


def m_fraction(n=0, d=None):
    from . import fracs
    return fracs.make(n, d)


def m_hex(x):
    """only error messages use it, and their text is not compared"""
    return '0x<sym>' if type(x) is SymInt else hex(x)


def m_decimal(*args):
    from . import fracs
    return fracs.make_decimal(*args)


def m_getattr(o, name, *d):
    return getattr(o, name, *d)


MODELS = {
    len: sx_len, all: m_all, any: m_any, min: m_min, max: m_max, sorted: m_sorted, sum: m_sum, map: m_map,
    filter: m_filter, range: m_range, isinstance: m_isinstance, hash: m_hash, ord: m_ord, chr: m_chr,
    reversed: m_reversed, iter: m_iter, int: m_int, float: m_float, bool: m_bool, bytes: m_bytes, str: m_str, type: m_type,
    round: m_round, set: make_set, frozenset: make_frozenset,
    math.isnan: m_isnan, math.isinf: m_isinf, math.isfinite: m_isfinite, math.frexp: m_frexp, math.ldexp: m_ldexp,
    math.copysign: m_copysign, math.fabs: m_fabs, math.trunc: m_trunc, math.floor: m_floor, math.ceil: m_ceil,
    math.gcd: m_gcd, math.lcm: m_lcm,
    _bisect.bisect_left: m_bisect('left'), _bisect.bisect_right: m_bisect('right'), _bisect.bisect: m_bisect('right'),
    itertools.islice: m_islice, itertools.repeat: m_repeat, itertools.accumulate: m_accumulate,
    itertools.groupby: m_groupby, itertools.takewhile: m_takewhile, itertools.dropwhile: m_dropwhile,
    itertools.starmap: m_starmap, functools.reduce: m_reduce,
    int.from_bytes: int_from_bytes,
    _struct.unpack: st_unpack, _struct.pack: st_pack, _struct.unpack_from: st_unpack_from, _struct.iter_unpack: st_iter_unpack,
    _array.array: m_array, io.BytesIO: m_bytesio, memoryview: m_memoryview, bytearray: m_bytearray,
    dict: functools.partial(make_dict, dict), collections.OrderedDict: functools.partial(make_dict, collections.OrderedDict),
    collections.Counter: m_counter, fractions.Fraction: m_fraction, decimal.Decimal: m_decimal, hex: m_hex,
    operator.eq: sx_eq, operator.ne: sx_ne, operator.not_: sx_not, operator.contains: lambda c, x: sx_in(x, c),
    operator.getitem: sx_getitem, operator.setitem: sx_setitem, operator.truth: m_bool,
}
try:
    MODELS[math.dist]
except KeyError:
    pass

# models that must run even when no argument looks symbolic (their iterables may produce symbolic items, or they
# build containers / values whose later contents may be symbolic)
ALWAYS = {len, all, any, min, max, sorted, sum, map, filter, isinstance, iter, int, float, bool, bytes, str, round, set,
          frozenset, reversed, type, dict, collections.OrderedDict, collections.Counter, _array.array, io.BytesIO, fractions.Fraction,
          math.isnan, math.isinf, math.isfinite, math.frexp, math.ldexp, math.trunc, math.floor, math.ceil, math.gcd, _struct.pack,
          _bisect.bisect_left, _bisect.bisect_right, itertools.accumulate, itertools.groupby, itertools.takewhile,
          itertools.dropwhile, itertools.starmap, functools.reduce, operator.eq, operator.ne, operator.not_, operator.contains,
          operator.getitem, operator.setitem, operator.truth, hash, int.from_bytes}

METHODS = {
    (bytes, 'join'): seqs.join_bytes, (str, 'join'): seqs.join_str,
    (list, 'sort'): list_sort,
    (set, 'add'): set_add, (set, 'update'): set_update,
    (_struct.Struct, 'unpack'): lambda s, b: st_unpack(s.format, b),
    (_struct.Struct, 'unpack_from'): lambda s, b, offset=0: st_unpack_from(s.format, b, offset),
    (_struct.Struct, 'iter_unpack'): lambda s, b: st_iter_unpack(s.format, b),
    (_struct.Struct, 'pack'): lambda s, *v: st_pack(s.format, *v),
}
for _n in 'union intersection difference issubset issuperset isdisjoint symmetric_difference'.split():
    METHODS[(set, _n)] = set_binop(_n)
    METHODS[(frozenset, _n)] = set_binop(_n)
for _t in DICTS:
    METHODS[(_t, 'get')] = dict_get
    METHODS[(_t, 'pop')] = dict_pop
    METHODS[(_t, 'setdefault')] = dict_setdefault
    METHODS[(_t, 'update')] = dict_update
    METHODS[(_t, 'copy')] = dict_copy


def list_index(l, x, *a):
    for i, y in enumerate(l):
        if truth(sx_eq(y, x)):
            return i
    raise ValueError('value is not in list')


def list_count(l, x):
    return m_sum(truth_int(sx_eq(y, x)) for y in l)


def truth_int(b):
    return b.as_int() if type(b) is SymBool else int(b)


def range_index(r, x):
    return SymRange(r.start, r.stop, r.step).index(x)


def bytes_m(name):
    def f(self, *a, **k):
        return getattr(SymBytes(list(self)), name)(*a, **k)
    return f


def str_m(name):
    def f(self, *a, **k):
        return getattr(SymStr([ord(c) for c in self]), name)(*a, **k)
    return f


SYM_METHODS = {      # only when an argument is symbolic
    (list, 'index'): list_index, (tuple, 'index'): list_index, (list, 'count'): list_count, (tuple, 'count'): list_count,
    (range, 'index'): range_index, (range, 'count'): lambda r, x: SymRange(r.start, r.stop, r.step).count(x),
}
for _n in 'find index count startswith endswith'.split():
    SYM_METHODS[(bytes, _n)] = bytes_m(_n)
    SYM_METHODS[(str, _n)] = str_m(_n)
for _n in 'partition split replace'.split():
    SYM_METHODS[(str, _n)] = str_m(_n)

SAFE_C = {'append', 'extend', 'insert', 'add', 'appendleft', 'send', 'throw', 'format', 'reverse', '__getattribute__'}
PYFUNC_MODELS = {}       # python functions replaced by models (stubs installed by harnesses / setup)


def sx_call(f, /, *args, **kw):
    t = type(f)
    if t is FunctionType:
        if PYFUNC_MODELS:
            m = PYFUNC_MODELS.get(f)
            if m is not None:
                return m(*args, **kw)
        return f(*args, **kw)
    if t is MethodType:
        if PYFUNC_MODELS:
            m = PYFUNC_MODELS.get(f.__func__)
            if m is not None:
                return m(f.__self__, *args, **kw)
        return f(*args, **kw)
    if t is BuiltinType:
        s = f.__self__
        if s is not None and type(s) is not types.ModuleType:
            name = f.__name__
            if isinstance(s, type):
                if name == '__new__' and args:
                    cls = args[0]
                    if s is int and len(args) > 1 and (type(args[1]) in SYMSET or type(getattr(type(args[1]), '__int__', None)) is FunctionType):
                        return int_new(*args, **kw)
                    return f(*args, **kw)
                if name == 'from_bytes' and s is int:
                    return int_from_bytes(*args, **kw)
                if name == 'fromkeys':
                    return dict_fromkeys(s, *args)
                return f(*args, **kw)
            m = METHODS.get((type(s), name))
            if m is not None:
                return m(s, *args, **kw)
            m = SYM_METHODS.get((type(s), name))
            if m is not None and any(has_sym(a) for a in args):
                return m(s, *args, **kw)
            if type(s) in (list, tuple) and name in ('index', 'count') and has_sym(s):
                return SYM_METHODS[(list, name)](s, *args)
            return f(*args, **kw)
        m = MODELS.get(f)
        if m is not None and (f in ALWAYS or any(has_sym(a) for a in args)):
            return m(*args, **kw)
        return f(*args, **kw)
    if isinstance(f, type):
        m = MODELS.get(f)
        if m is not None:
            if f in ALWAYS or any(has_sym(a) for a in args):
                return m(*args, **kw)
            return f(*args, **kw)
        if args and isinstance(f, enum.EnumMeta) and type(args[0]) in (SymInt, SymBool) and len(args) == 1:
            return enum_call(f, args, kw)
        if f.__module__ == 'builtins' and f is not object and any(has_sym(a) for a in args):
            if f is enumerate or f is zip or f is list or f is tuple or f is slice or f is property:
                return f(*args, **kw)
        return f(*args, **kw)
    try:
        m = MODELS.get(f)
    except TypeError:
        return f(*args, **kw)
    if m is not None and (f in ALWAYS or any(has_sym(a) for a in args)):
        return m(*args, **kw)
    if t is types.MethodDescriptorType and args:
        m = METHODS.get((f.__objclass__, f.__name__))
        if m is not None:
            return m(*args, **kw)
        if type(args[0]) in SYMSET:
            return getattr(args[0], f.__name__)(*args[1:], **kw)
    if t is operator.itemgetter or t is operator.attrgetter or t is operator.methodcaller:
        if t is operator.itemgetter:
            keys = f.__reduce__()[1]
            r = tuple(sx_getitem(args[0], k) for k in keys)
            return r[0] if len(keys) == 1 else r
    if t is functools.partial:
        return sx_call(f.func, *f.args, *args, **{**f.keywords, **kw})
    return f(*args, **kw)


EXPORTS = {
    '__sx_call__': sx_call, '__sx_getitem__': sx_getitem, '__sx_setitem__': sx_setitem, '__sx_delitem__': sx_delitem,
    '__sx_augsub__': sx_augsub, '__sx_in__': sx_in, '__sx_not__': sx_not, '__sx_and__': sx_and, '__sx_or__': sx_or,
    '__sx_eq__': sx_eq, '__sx_ne__': sx_ne, '__sx_is__': sx_is, '__sx_truth__': truth, '__sx_chain__': sx_cmpchain,
    '__sx_dict__': sx_dict, '__sx_unpack__': UNPACK, '__sx_set__': make_set,
}
