"""Symbolic bytes, strings, arrays, ranges and files."""
import array as _array
import codecs
import io
import os
import sys
import z3
from . import core, floats
from .core import (SymInt, SymBool, mkint, mkbool, bv, ext, lohi, sand, sor, snot, bt, Inconclusive, ite_int, bits_for,
                   as_operand)

NATIVE = sys.byteorder


# ---------------------------------------------------------------------------- byte <-> integer
def byte_of(t):
    """8-bit vector -> item"""
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return mkint(z3.ZeroExt(1, t), 9, 0, 255)


def bv8(x):
    if type(x) is SymInt:
        return z3.Extract(7, 0, ext(x, 9))
    return bv(int(x), 8)


def items_to_bv(items, order):
    """items -> bit-vector of 8*len bits"""
    items = list(items)
    if order == 'little':
        items = items[::-1]
    if all(type(i) is int for i in items):
        return bv(int.from_bytes(bytes(items), 'big'), 8 * len(items))
    ts = [bv8(i) for i in items]
    return z3.simplify(z3.Concat(ts)) if len(ts) > 1 else ts[0]


def items_to_int(items, order, signed):
    items = list(items)
    n = 8 * len(items)
    if n == 0:
        return 0
    if all(type(i) is int for i in items):
        return int.from_bytes(bytes(items), order, signed=signed)
    back = whole(items if order == 'little' else items[::-1])
    if back is not None:
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if lo <= back.lo and back.hi <= hi:
            return back
    t = items_to_bv(items, order)
    if signed:
        return mkint(t, n, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mkint(z3.ZeroExt(1, t), n + 1, 0, (1 << n) - 1)


def bv_to_items(t, n, order):
    out = [byte_of(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(n)]      # little endian
    return out if order == 'little' else out[::-1]


def int_to_items(x, n, order):
    if type(x) is not SymInt:
        return list((int(x) & ((1 << (8 * n)) - 1)).to_bytes(n, order))
    if n == 0:
        return []
    items = bv_to_items(ext(x, 8 * n), n, 'little')
    src = (x.plain(), items)
    for i in items:
        if type(i) is SymInt:
            i.src = src
    return items if order == 'little' else items[::-1]


def whole(items):
    """the integer whose bytes (least significant first) these are, if they were made from one"""
    for i in items:
        if type(i) is SymInt:
            if i.src is None:
                return None
            x, parts = i.src
            if len(parts) == len(items) and all(a is b or (type(a) is int and type(b) is int and a == b) for a, b in zip(items, parts)):
                return x
            return None
    return None


def has_sym(items):
    for i in items:
        t = type(i)
        if t is not int and t is not str:
            return True
    return False


def mk_bytes(items):
    if type(items) is not list:
        items = list(items)
    return SymBytes(items) if has_sym(items) else bytes(items)


def bytes_items(b):
    """any bytes-like -> list of items, or None"""
    if type(b) is SymBytes:
        return b.fixed()
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    if isinstance(b, memoryview):
        return list(b.cast('B'))
    if type(b) is SymArray:
        return b.raw()
    if isinstance(b, _array.array):
        return list(b.tobytes())
    return None


class SymBytes:
    """bytes of concrete length (or, after a short read, a prefix of symbolic length `n`)."""
    __slots__ = ('items', 'n', '__weakref__')

    def __init__(self, items, n=None):
        self.items = items
        self.n = n

    @property
    def __class__(self):
        return bytes

    def fixed(self):
        if self.n is not None:
            k = self.n.__index__() if type(self.n) is SymInt else self.n
            self.items = self.items[:k]
            self.n = None
        return self.items

    def __sx_len__(self):
        return len(self.items) if self.n is None else self.n

    def __len__(self):
        return len(self.fixed())

    def __iter__(self):
        return iter(self.fixed())

    def __getitem__(self, i):
        items = self.fixed()
        if isinstance(i, slice):
            return mk_bytes(items[conc_slice(i)])
        if type(i) is SymInt:
            return select(items, i, 'index out of range')
        return items[i]

    def __hash__(self):
        return core.SYM_HASH

    def __eq__(self, o):
        b = bytes_items(o)
        if b is None or not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        if self.n is not None:
            if len(b) > len(self.items):
                return False
            return sand(self.n == len(b), *[x == y for x, y in zip(self.items, b)])
        if len(b) != len(self.items):
            return False
        return sand(*[x == y for x, y in zip(self.items, b)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        return self.concrete() < (o.concrete() if type(o) is SymBytes else o)

    def __add__(self, o):
        b = bytes_items(o)
        return NotImplemented if b is None else mk_bytes(self.fixed() + b)

    def __radd__(self, o):
        b = bytes_items(o)
        return NotImplemented if b is None else mk_bytes(b + self.fixed())

    def __mul__(self, k):
        return mk_bytes(self.fixed() * int(k))

    __rmul__ = __mul__

    def __bool__(self):
        if self.n is not None:
            return bool(self.n > 0)
        return len(self.items) > 0

    def __contains__(self, o):
        r = contains_items(self.fixed(), [o] if as_operand(o) is not None else bytes_items(o))
        return bool(r)

    def sx_contains(self, o):
        return contains_items(self.fixed(), [o] if as_operand(o) is not None else bytes_items(o))

    def __bytes__(self):
        return self.concrete()

    def concrete(self):
        return bytes(i if type(i) is int else i.__index__() for i in self.fixed())

    def __repr__(self):
        return '<symbytes>'

    __str__ = __repr__

    def __format__(self, s):
        return '<symbytes>'

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self.fixed(), encoding, errors)

    def ljust(self, w, fill=b' '):
        it = self.fixed()
        return mk_bytes(it + bytes_items(fill) * max(0, w - len(it)))

    def rjust(self, w, fill=b' '):
        it = self.fixed()
        return mk_bytes(bytes_items(fill) * max(0, w - len(it)) + it)

    def startswith(self, p):
        if isinstance(p, tuple):
            return sor(*[self.startswith(q) for q in p])
        p = bytes_items(p)
        it = self.fixed()
        return len(p) <= len(it) and sand(*[a == b for a, b in zip(it, p)])

    def endswith(self, p):
        p = bytes_items(p)
        it = self.fixed()
        return len(p) <= len(it) and sand(*[a == b for a, b in zip(it[len(it) - len(p):], p)])

    def join(self, xs):
        return join_bytes(self, xs)

    def count(self, sub):
        it = self.fixed()
        p = [sub] if as_operand(sub) is not None else bytes_items(sub)
        if len(p) != 1:
            return self.concrete().count(bytes(p))
        r = 0
        for a in it:
            e = a == p[0]
            r = r + (e.as_int() if type(e) is SymBool else int(e))
        return r

    def find(self, sub, start=0, end=None):
        it = self.fixed()
        p = [sub] if as_operand(sub) is not None else bytes_items(sub)
        end = len(it) if end is None else min(end, len(it))
        for i in range(start, end - len(p) + 1):
            if sand(*[a == b for a, b in zip(it[i:i + len(p)], p)]):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        cs = set(chars) if chars is not None else set(b' \t\n\r\x0b\x0c')
        it = self.fixed()
        i = 0
        while i < len(it) and in_set(it[i], cs):
            i += 1
        return mk_bytes(it[i:])

    def rstrip(self, chars=None):
        cs = set(chars) if chars is not None else set(b' \t\n\r\x0b\x0c')
        it = self.fixed()
        i = len(it)
        while i > 0 and in_set(it[i - 1], cs):
            i -= 1
        return mk_bytes(it[:i])

    def replace(self, a, b, count=-1):
        pa, pb = bytes_items(a), bytes_items(b)
        if len(pa) == 1 and len(pb) == 1 and count == -1:
            return mk_bytes([ite_int(bt(x == pa[0]), pb[0], x) for x in self.fixed()])
        raise Inconclusive('bytes.replace')

    def translate(self, table, delete=b''):
        if delete:
            raise Inconclusive('bytes.translate with deletions')
        if table is None:
            return self
        return mk_bytes([select(list(table), x, '') if type(x) is SymInt else table[x] for x in self.fixed()])

    def tobytes(self):
        return self

    def __reduce_ex__(self, p):
        return (bytes, (self.concrete(),))


def in_set(x, cs):
    if type(x) is int:
        return x in cs
    if type(x) is SymChar:
        return x.in_set(cs)
    cs = [c for c in cs if x.lo <= c <= x.hi]
    return sor(*[x == c for c in cs])


def contains_items(items, pat):
    if pat is None:
        raise TypeError("a bytes-like object is required")
    n, m = len(items), len(pat)
    if m == 0:
        return True
    return sor(*[sand(*[ceq(items[i + j], pat[j]) for j in range(m)]) for i in range(n - m + 1)])


def conc_slice(s):
    def c(x):
        return x.__index__() if type(x) in (SymInt, SymBool) else x
    return slice(c(s.start), c(s.stop), c(s.step))


def select(items, i, msg):
    """items[i] for a symbolic index over a list (forks on range; merges numeric items)."""
    n = len(items)
    if not sand(i >= -n, i < n):
        raise IndexError(msg or 'list index out of range')
    if i.lo < 0:
        if i < 0:
            i = i + n
    if all(type(x) is int or type(x) is SymInt for x in items) and n <= 600:
        r = None
        lo, hi = max(0, i.lo), min(n - 1, i.hi)
        r = items[hi]
        for k in range(hi - 1, lo - 1, -1):
            r = ite_int(i.t == bv(k, i.w), items[k], r)
        return r
    return items[i.__index__()]


def join_bytes(sep, parts):
    parts = list(parts)
    s = bytes_items(sep)
    out = []
    for k, p in enumerate(parts):
        b = bytes_items(p)
        if b is None or isinstance(p, str):
            raise TypeError('sequence item %d: expected a bytes-like object, %s found' % (k, type(p).__name__))
        if k and s:
            out.extend(s)
        out.extend(b)
    return mk_bytes(out)


# ---------------------------------------------------------------------------- text
def _table(codec):
    enc, dec = {}, {}
    for b in range(256):
        try:
            c = bytes([b]).decode(codec)
        except UnicodeDecodeError:
            continue
        dec[b] = ord(c)
        enc[ord(c)] = b
    return dec, enc


TABLES = {}


def canon_codec(name):
    return codecs.lookup(name).name


def table(codec):
    if codec not in TABLES:
        TABLES[codec] = _table(codec)
    return TABLES[codec]


class SymChar:
    """A character known as `byte` decoded by a table codec (bijective on its domain)."""
    __slots__ = ('codec', 'byte', '_cp')

    def __init__(self, codec, byte):
        self.codec = codec
        self.byte = byte
        self._cp = None

    def cp(self):
        if self._cp is None:
            dec, _ = table(self.codec)
            self._cp = map_table(self.byte, dec)
        return self._cp

    def eq_const(self, c):
        b = table(self.codec)[1].get(c)
        return False if b is None else self.byte == b

    def in_set(self, cs):
        enc = table(self.codec)[1]
        return sor(*[self.byte == enc[c] for c in cs if c in enc])


def map_table(x, tab):
    """Balanced multiplexer for a table on an 8-bit item; indices missing from `tab` are assumed impossible."""
    t = bv8(x)
    hi = max(tab.values())
    lo = min(tab.values())
    w = bits_for(lo, hi)
    dflt = bv(lo, w)

    def build(bit, base):
        if bit < 0:
            return bv(tab[base], w) if base in tab else dflt
        a = build(bit - 1, base)
        b = build(bit - 1, base | (1 << bit))
        if a.eq(b):
            return a
        return z3.If(z3.Extract(bit, bit, t) == 1, b, a)
    return mkint(build(7, 0), w, lo, hi)


def cp_of(c):
    return c.cp() if type(c) is SymChar else c


def ceq(a, b):
    """equality of two characters/items"""
    ta, tb = type(a), type(b)
    if ta is SymChar:
        if tb is SymChar:
            if a.codec == b.codec:
                return a.byte == b.byte
            return a.cp() == b.cp()
        if tb is int:
            return a.eq_const(b)
        return a.cp() == b
    if tb is SymChar:
        return ceq(b, a)
    return a == b


def mk_str(chars):
    if type(chars) is not list:
        chars = list(chars)
    return SymStr(chars) if has_sym(chars) else ''.join(map(chr, chars))


def str_chars(s):
    if type(s) is SymStr:
        return s.chars
    if isinstance(s, str):
        return [ord(c) for c in s]
    return None


SPACES = set(c for c in range(0x3001) if chr(c).isspace())
BREAKS = {10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029}


class SymStr:
    __slots__ = ('chars', '__weakref__')

    def __init__(self, chars):
        self.chars = chars

    @property
    def __class__(self):
        return str

    def __sx_len__(self):
        return len(self.chars)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        for c in self.chars:
            yield mk_str([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_str(self.chars[conc_slice(i)])
        return mk_str([self.chars[i if type(i) is int else i.__index__()]])

    def __hash__(self):
        return core.SYM_HASH

    def __eq__(self, o):
        c = str_chars(o)
        if c is None:
            return NotImplemented
        if len(c) != len(self.chars):
            return False
        return sand(*[ceq(a, b) for a, b in zip(self.chars, c)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _cmp(self, o, lt, eqres):
        a, b = self.chars, str_chars(o)
        if b is None:
            return NotImplemented
        for x, y in zip(a, b):
            if not ceq(x, y):
                return (cp_of(x) < cp_of(y)) if lt else (cp_of(x) > cp_of(y))
        if len(a) == len(b):
            return eqres
        return (len(a) < len(b)) if lt else (len(a) > len(b))

    def __lt__(self, o):
        return self._cmp(o, True, False)

    def __le__(self, o):
        return self._cmp(o, True, True)

    def __gt__(self, o):
        return self._cmp(o, False, False)

    def __ge__(self, o):
        return self._cmp(o, False, True)

    def __add__(self, o):
        c = str_chars(o)
        return NotImplemented if c is None else mk_str(self.chars + c)

    def __radd__(self, o):
        c = str_chars(o)
        return NotImplemented if c is None else mk_str(c + self.chars)

    def __mul__(self, k):
        return mk_str(self.chars * int(k))

    __rmul__ = __mul__

    def __contains__(self, o):
        return bool(self.sx_contains(o))

    def sx_contains(self, o):
        return contains_items(self.chars, str_chars(o))

    def __repr__(self):
        return '<symstr>'

    __str__ = __repr__

    def __format__(self, s):
        return '<symstr>'

    def concrete(self):
        out = []
        for c in self.chars:
            c = cp_of(c)
            out.append(chr(c if type(c) is int else c.__index__()))
        return ''.join(out)

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self.chars, encoding, errors)

    def ljust(self, w, fill=' '):
        return mk_str(self.chars + str_chars(fill) * max(0, w - len(self.chars)))

    def rjust(self, w, fill=' '):
        return mk_str(str_chars(fill) * max(0, w - len(self.chars)) + self.chars)

    def center(self, w, fill=' '):
        pad = max(0, w - len(self.chars))
        left = pad // 2 + (pad & w & 1)
        f = str_chars(fill)
        return mk_str(f * left + self.chars + f * (pad - left))

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def lstrip(self, chars=None):
        cs = SPACES if chars is None else set(map(ord, chars))
        i = 0
        while i < len(self.chars) and in_set(self.chars[i], cs):
            i += 1
        return mk_str(self.chars[i:])

    def rstrip(self, chars=None):
        cs = SPACES if chars is None else set(map(ord, chars))
        i = len(self.chars)
        while i > 0 and in_set(self.chars[i - 1], cs):
            i -= 1
        return mk_str(self.chars[:i])

    def isspace(self):
        return len(self.chars) > 0 and sand(*[in_set(c, SPACES) for c in self.chars])

    def isascii(self):
        return sand(*[cp_of(c) < 128 for c in self.chars])

    def splitlines(self, keepends=False):
        out, cur = [], []
        i, n = 0, len(self.chars)
        while i < n:
            c = self.chars[i]
            if in_set(c, BREAKS):
                end = [c]
                if ceq(c, 13):
                    if i + 1 < n and ceq(self.chars[i + 1], 10):
                        end.append(self.chars[i + 1])
                        i += 1
                out.append(mk_str(cur + (end if keepends else [])))
                cur = []
                i += 1
                if i == n:
                    return out
                continue
            cur.append(c)
            i += 1
        if cur or (n and not out and cur):
            out.append(mk_str(cur))
        elif n == 0:
            return []
        return out

    def split(self, sep=None, maxsplit=-1):
        out, cur = [], []
        if sep is None:
            for c in self.chars:
                if in_set(c, SPACES):
                    if cur:
                        out.append(mk_str(cur))
                    cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(mk_str(cur))
            return out
        p = str_chars(sep)
        i = 0
        while i < len(self.chars):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(p) <= len(self.chars) and \
                    sand(*[ceq(a, b) for a, b in zip(self.chars[i:i + len(p)], p)]):
                out.append(mk_str(cur))
                cur = []
                i += len(p)
            else:
                cur.append(self.chars[i])
                i += 1
        out.append(mk_str(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def find(self, sub, start=0, end=None):
        p = str_chars(sub)
        for i in range(start, (len(self.chars) if end is None else end) - len(p) + 1):
            if sand(*[ceq(a, b) for a, b in zip(self.chars[i:i + len(p)], p)]):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return sor(*[self.startswith(q, start) for q in p])
        c = str_chars(p)
        me = self.chars[start:]
        return len(c) <= len(me) and sand(*[ceq(a, b) for a, b in zip(me, c)])

    def endswith(self, p):
        if isinstance(p, tuple):
            return sor(*[self.endswith(q) for q in p])
        c = str_chars(p)
        return len(c) <= len(self.chars) and sand(*[ceq(a, b) for a, b in zip(self.chars[len(self.chars) - len(c):], c)])

    def count(self, sub):
        n, i = 0, 0
        p = str_chars(sub)
        while i + len(p) <= len(self.chars):
            if sand(*[ceq(a, b) for a, b in zip(self.chars[i:i + len(p)], p)]):
                n += 1
                i += max(1, len(p))
            else:
                i += 1
        return n

    def join(self, xs):
        return join_str(self, xs)

    def replace(self, a, b, count=-1):
        if count != -1:
            raise Inconclusive('str.replace with count')
        parts = self.split(a)
        return join_str(b, parts)

    def expandtabs(self, n=8):
        raise Inconclusive('str.expandtabs')

    def upper(self):
        return mk_str([_case(c, 97, 122, -32) for c in self.chars])

    def lower(self):
        return mk_str([_case(c, 65, 90, 32) for c in self.chars])


def _case(c, lo, hi, d):
    if type(c) is int:
        r = (chr(c).upper() if d < 0 else chr(c).lower())
        if len(r) != 1:
            raise Inconclusive('case mapping')
        return ord(r)
    c = cp_of(c)
    if lohi(c)[1] > 127:
        if not (c < 128):
            raise Inconclusive('non-ASCII case mapping')
    return ite_int(bt(sand(c >= lo, c <= hi)), c + d, c)


def join_str(sep, parts):
    s = str_chars(sep)
    out = []
    for k, p in enumerate(parts):
        c = str_chars(p)
        if c is None:
            raise TypeError('sequence item %d: expected str instance' % k)
        if k and s:
            out.extend(s)
        out.extend(c)
    return mk_str(out)


def decode(items, encoding, errors='strict'):
    codec = canon_codec(encoding)
    if errors != 'strict':
        raise Inconclusive('decode with errors=%s' % errors)
    if not has_sym(items):
        return bytes(items).decode(encoding)
    if codec == 'ascii' or codec == 'utf-8':
        ok = sand(*[i < 128 for i in items])
        if not ok:
            if codec == 'ascii':
                for k, i in enumerate(items):
                    if i >= 128:
                        raise UnicodeDecodeError('ascii', b'\x80', 0, 1, 'ordinal not in range(128)')
            return bytes(i if type(i) is int else i.__index__() for i in items).decode('utf-8')
        return mk_str([core.tighten(i, 0, 127) if type(i) is SymInt else i for i in items])
    if codec == 'iso8859-1':
        return mk_str(list(items))
    dec, enc = table(codec)
    if len(dec) < 256:
        if not sand(*[i != b for i in items for b in range(256) if b not in dec]):
            raise UnicodeDecodeError(codec, b'\x80', 0, 1, 'undefined')
    return mk_str([dec[i] if type(i) is int else SymChar(codec, i) for i in items])


def encode(chars, encoding, errors='strict'):
    codec = canon_codec(encoding)
    if errors != 'strict':
        raise Inconclusive('encode with errors=%s' % errors)
    if not has_sym(chars):
        return ''.join(map(chr, chars)).encode(encoding)
    if codec in ('ascii', 'iso8859-1', 'utf-8'):
        lim = 256 if codec == 'iso8859-1' else 128
        cs = [cp_of(c) for c in chars]
        if not sand(*[c < lim for c in cs]):
            if codec == 'utf-8':
                return mk_str(chars).concrete().encode('utf-8')
            raise UnicodeEncodeError(codec, '?', 0, 1, 'ordinal not in range')
        return mk_bytes([core.tighten(c, 0, lim - 1) if type(c) is SymInt else c for c in cs])
    dec, enc = table(codec)
    dom = sorted(enc)
    contiguous = dom == list(range(256))
    out = []
    for c in chars:
        if type(c) is SymChar and c.codec == codec:
            out.append(c.byte)
            continue
        c = cp_of(c)
        if type(c) is int:
            if c not in enc:
                raise UnicodeEncodeError(codec, chr(c), 0, 1, 'character maps to <undefined>')
            out.append(enc[c])
            continue
        if contiguous:
            if not (c < 256):
                raise UnicodeEncodeError(codec, '?', 0, 1, 'character maps to <undefined>')
            c = core.tighten(c, 0, 255)
            out.append(map_table(c, enc) if type(c) is SymInt else enc[c])
        else:
            v = c.__index__()
            if v not in enc:
                raise UnicodeEncodeError(codec, chr(v), 0, 1, 'character maps to <undefined>')
            out.append(enc[v])
    return mk_bytes(out)


# ---------------------------------------------------------------------------- array.array
INT_CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
             'l': (8, True), 'L': (8, False), 'q': (8, True), 'Q': (8, False)}
STD_CODES = dict(INT_CODES, l=(4, True), L=(4, False))


def decode_item(code, items, order):
    if code in INT_CODES:
        return items_to_int(items, order, INT_CODES[code][1])
    t = items_to_bv(items, order)
    if code == 'f':
        if z3.is_bv_value(t):
            import struct
            return struct.unpack('>f', t.as_long().to_bytes(4, 'big'))[0]
        return floats.from_f32_bits(t)
    if code == 'd':
        if z3.is_bv_value(t):
            import struct
            return struct.unpack('>d', t.as_long().to_bytes(8, 'big'))[0]
        return floats.from_bits(t)
    raise Inconclusive('item code %s' % code)


def encode_float(code, v, order, exc):
    if not isinstance(v, (int, float)):
        f = getattr(type(v), '__float__', None)
        if f is None:
            raise exc('required argument is not a float')
        v = f(v)
    if code == 'f':
        t, over = floats.to_f32_bits(v)
        if over is not False and bool(over):
            raise OverflowError('float too large to pack with f format')
        return bv_to_items(t, 4, order)
    return bv_to_items(floats.bits_of(v), 8, order)


class SymArray:
    __slots__ = ('typecode', 'elems', '__weakref__')

    def __init__(self, typecode, elems=()):
        self.typecode = typecode
        self.elems = list(elems)        # list of byte lists, native order

    @property
    def __class__(self):
        return _array.array

    @property
    def itemsize(self):
        return _array.array(self.typecode).itemsize

    @staticmethod
    def make(typecode, init=()):
        a = SymArray(typecode)
        b = bytes_items(init) if not isinstance(init, (list, tuple, _array.array)) or type(init) is SymBytes else None
        if type(init) is SymArray:
            b = None
        if b is not None:
            a.frombytes(mk_bytes(b))
        else:
            a.extend(init)
        return a

    def _enc(self, v):
        code = self.typecode
        if code in INT_CODES:
            n, signed = INT_CODES[code]
            n = self.itemsize
            v = as_operand(v)
            if v is None:
                raise TypeError('an integer is required')
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
            if v < lo:
                raise OverflowError('signed integer is less than minimum')
            if v > hi:
                raise OverflowError('integer is greater than maximum')
            return int_to_items(v, n, NATIVE)
        if not isinstance(v, (int, float)) and not hasattr(type(v), '__float__'):
            raise TypeError('must be real number')
        if code == 'f' and type(v) is not floats.SymFloat:
            pass
        return encode_float(code, v, NATIVE, TypeError)

    def frombytes(self, b):
        it = bytes_items(b)
        n = self.itemsize
        if len(it) % n:
            raise ValueError('bytes length not a multiple of item size')
        self.elems.extend(it[i:i + n] for i in range(0, len(it), n))

    def tobytes(self):
        return mk_bytes(self.raw())

    def raw(self):
        return [x for e in self.elems for x in e]

    def byteswap(self):
        self.elems = [e[::-1] for e in self.elems]

    def append(self, v):
        self.elems.append(self._enc(v))

    def extend(self, xs):
        for x in list(xs):
            self.append(x)

    def __len__(self):
        return len(self.elems)

    __sx_len__ = __len__

    def _dec(self, e):
        return decode_item(self.typecode, e, NATIVE)

    def __iter__(self):
        for e in self.elems:
            yield self._dec(e)

    def tolist(self):
        return [self._dec(e) for e in self.elems]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymArray(self.typecode, self.elems[conc_slice(i)])
        if type(i) is SymInt:
            return select(self.tolist(), i, 'array index out of range')
        return self._dec(self.elems[i])

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if not isinstance(v, _array.array):
                raise TypeError('can only assign array')
            self.elems[conc_slice(i)] = v.elems if type(v) is SymArray else SymArray.make(self.typecode, v).elems
        else:
            self.elems[i if type(i) is int else i.__index__()] = self._enc(v)

    def __eq__(self, o):
        if not isinstance(o, _array.array):
            return NotImplemented
        a, b = list(self), list(o)
        return len(a) == len(b) and sand(*[x == y for x, y in zip(a, b)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    __hash__ = None

    def __repr__(self):
        return '<symarray>'


# ---------------------------------------------------------------------------- range
class SymRange:
    __slots__ = ('start', 'stop', 'step', '__weakref__')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    @property
    def __class__(self):
        return range

    @staticmethod
    def make(*a):
        a = [as_operand(x) if as_operand(x) is not None else x.__index__() for x in a]
        if len(a) == 1:
            s = (0, a[0], 1)
        elif len(a) == 2:
            s = (a[0], a[1], 1)
        else:
            s = tuple(a)
        if s[2] == 0:
            raise ValueError('range() arg 3 must not be zero')
        if all(type(x) is int for x in s):
            return range(*s)
        return SymRange(*s)

    def pos_step(self):
        return bool(self.step > 0)

    def __sx_len__(self):
        if self.pos_step():
            st = self.step if type(self.step) is int else core.clamp_low(self.step, 1)
            d = self.stop - self.start
            n = (d + st - 1) // st
        else:
            st = -self.step
            st = st if type(st) is int else core.clamp_low(st, 1)
            d = self.start - self.stop
            n = (d + st - 1) // st
        return n if lohi(n)[0] >= 0 else ite_int(bt(n > 0), n, 0)

    def __len__(self):
        n = self.__sx_len__()
        return n if type(n) is int else n.__index__()

    def __bool__(self):
        return bool(self.__sx_len__() > 0)

    def __iter__(self):
        x = self.start
        if self.pos_step():
            while x < self.stop:
                yield x
                x = x + self.step
        else:
            while x > self.stop:
                yield x
                x = x + self.step

    def __reversed__(self):
        n = self.__sx_len__()
        i = n - 1
        while i >= 0:
            yield self.start + i * self.step
            i = i - 1

    def sx_contains(self, x):
        v = as_operand(x)
        if v is None:
            return sor(*[x == y for y in self])
        if self.pos_step():
            return sand(v >= self.start, v < self.stop, (v - self.start) % self.step == 0)
        return sand(v <= self.start, v > self.stop, (self.start - v) % (-self.step) == 0)

    def __contains__(self, x):
        return bool(self.sx_contains(x))

    def index(self, x):
        if not self.sx_contains(x):
            raise ValueError('%r is not in range' % (x,))
        return (x - self.start) // self.step

    def count(self, x):
        c = self.sx_contains(x)
        return c.as_int() if type(c) is SymBool else int(c)

    def __getitem__(self, i):
        n = self.__sx_len__()
        if isinstance(i, slice):
            nn = n if type(n) is int else n.__index__()
            r = range(nn)[conc_slice(i)]
            return SymRange.make(self.start + r.start * self.step, self.start + r.stop * self.step, r.step * self.step)
        if i < 0:
            i = i + n
        if not sand(i >= 0, i < n):
            raise IndexError('range object index out of range')
        return self.start + i * self.step

    def __eq__(self, o):
        if not isinstance(o, range):
            return NotImplemented
        n, m = self.__sx_len__(), sx_len(o)
        c = n == m
        if not c:
            return False
        if n == 0:
            return True
        if not (self.start == o.start):
            return False
        if n == 1:
            return True
        return self.step == o.step

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return core.SYM_HASH

    def __repr__(self):
        return '<symrange>'

    def __format__(self, s):
        return '<symrange>'


def sx_len(o):
    f = getattr(o, '__sx_len__', None)
    return f() if f is not None else len(o)


# ---------------------------------------------------------------------------- files
class SymFile:
    """Binary file.  Content is either a list of items (writable) or a z3 array (read-only, symbolic positions).
    The length may be symbolic (a truncation point)."""

    def __init__(self, items=None, arr=None, length=None, name=None, addr_bits=32, overlay=None):
        self.items = list(items) if items is not None else None
        self.arr = arr
        self.length = len(self.items) if length is None else length
        self.pos = 0
        self.addr_bits = addr_bits
        self.closed = False
        self.overlay = overlay
        if name is not None:
            self.name = name
        self.reads = 0
        self.writes = []

    def seekable(self):
        return True

    readable = writable = seekable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _alive(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def tell(self):
        self._alive()
        return self.pos

    def seek(self, pos, whence=0):
        self._alive()
        if whence == 1:
            pos = self.pos + pos
        elif whence == 2:
            pos = self.length + pos
        elif whence != 0:
            raise ValueError('invalid whence')
        pos = as_operand(pos)
        if pos is None:
            raise TypeError('seek position must be an integer')
        if pos < 0:
            if whence == 0:
                raise ValueError('negative seek value')
            pos = 0
        self.pos = pos
        return pos

    def _item(self, p):
        if self.arr is None:
            return self.items[p]
        for q, items in self.overlay or ():
            d = p - q
            if type(d) is int:
                if 0 <= d < len(items):
                    return items[d]
            elif sand(d >= 0, d < len(items)):
                return items[d] if type(d) is int else select(items, d, None)
        return byte_of(z3.Select(self.arr, ext(p, self.addr_bits)))

    def read(self, n=-1):
        self._alive()
        self.reads += 1
        n = -1 if n is None else n
        if type(n) is SymInt:
            n = n.__index__()
        if self.arr is None and type(self.pos) is SymInt:
            self.pos = self.pos.__index__()
        avail = self.length - self.pos
        if type(avail) is SymInt or (type(self.pos) is SymInt):
            if n < 0:
                n = avail.__index__() if type(avail) is SymInt else avail
                n = max(n, 0)
            if n == 0:
                return b''
            if not (avail >= n):
                if avail <= 0:
                    return b''
                k = core.tighten(avail, 1, n - 1)
                p = self.pos
                m = lohi(k)[1]
                r = SymBytes([self._item(p + i) for i in range(m)] if self.arr is None else LazyItems(self, p, m), k)
                self.pos = p + k
                return r
            p = self.pos
            if self.arr is None:
                r = mk_bytes(self.items[p:p + n])
            else:
                r = SymBytes(LazyItems(self, p, n))
            self.pos = p + n
            return r
        avail = max(avail, 0)
        n = avail if n < 0 else min(n, avail)
        if self.arr is None:
            r = mk_bytes(self.items[self.pos:self.pos + n])
        else:
            r = SymBytes(LazyItems(self, self.pos, n)) if n else b''
        self.pos = self.pos + n
        return r

    def readinto(self, b):
        raise Inconclusive('readinto')

    def write(self, data):
        self._alive()
        it = bytes_items(data)
        if it is None or isinstance(data, str):
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        if self.arr is not None:
            raise Inconclusive('write to a symbolic array file')
        if type(self.pos) is SymInt:
            self.pos = self.pos.__index__()
        if type(self.length) is SymInt:
            raise Inconclusive('write to a file of symbolic length')
        if it:
            if self.pos > len(self.items):
                self.items.extend([0] * (self.pos - len(self.items)))
            self.items[self.pos:self.pos + len(it)] = it
            self.length = len(self.items)
        self.writes.append((self.pos, len(it)))
        self.pos += len(it)
        return len(it)

    def truncate(self, n=None):
        n = self.pos if n is None else n
        self.items = self.items[:n]
        self.length = len(self.items)
        return n

    def getvalue(self):
        if self.arr is not None:
            raise Inconclusive('getvalue of an array file')
        return mk_bytes(self.items)

    def getbuffer(self):
        return self.getvalue()


class LazyItems:
    """List-like view of array-file bytes, materialised on demand."""
    __slots__ = ('f', 'p', 'n', 'cache', 'off')

    def __init__(self, f, p, n, off=0):
        self.f, self.p, self.n, self.off = f, p, n, off
        self.cache = {}

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, s = i.indices(self.n)
            return [self[k] for k in range(a, b, s)]
        if i < 0:
            i += self.n
        if not 0 <= i < self.n:
            raise IndexError('index out of range')
        v = self.cache.get(i)
        if v is None:
            v = self.cache[i] = self.f._item(self.p + i)
        return v

    def __iter__(self):
        for i in range(self.n):
            yield self[i]

    def __add__(self, o):
        return list(self) + list(o)

    def __radd__(self, o):
        return list(o) + list(self)

    def __mul__(self, k):
        return list(self) * k
