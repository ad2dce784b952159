"""Symbolic IEEE doubles.

A SymFloat is one of
  * raw     - an arbitrary 64-bit pattern (z3 bit-vector), or an FP term computed by z3's FP theory;
  * dyadic  - exactly m * 2**k (m: exact integer |m| <= 2**53, k: int or SymInt), with the sign of a zero tracked;
  * rat     - the correctly rounded quotient n/d of two exact integers (only comparisons are modelled).
Dyadic arithmetic is used only where the IEEE result is provably exact, so it *is* the IEEE result.
"""
import math
import z3
from . import core
from .core import SymInt, SymBool, mkint, mkbool, bv, ext, lohi, sand, sor, snot, Inconclusive, ite_int, bits_for

F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()
BIG = 1 << 53


class SymFloat:
    __slots__ = ('_fp', '_bits', 'm', 'k', 'zs', 'n', 'd', 'kind', 'f32bits', 'finite', '__weakref__')

    def __init__(self):
        self._fp = self._bits = self.m = self.k = self.n = self.d = self.f32bits = None
        self.zs = False
        self.finite = False

    @property
    def __class__(self):
        return float

    # -- representations
    def fp(self):
        if self._fp is None:
            if self.kind == 'raw':
                self._fp = z3.fpBVToFP(self._bits, F64)
            elif self.kind == 'dy':
                self._fp = z3.fpBVToFP(self.bits(), F64)
            else:
                a, b = to_sym(self.n).fp(), to_sym(self.d).fp()
                self._fp = z3.fpDiv(RNE, a, b)
        return self._fp

    def bits(self):
        if self._bits is None:
            if self.kind == 'dy':
                self._bits = dy_bits(self)
            else:
                self._bits = z3.fpToIEEEBV(self.fp())
        return self._bits

    def isnan_t(self):
        if self.kind != 'raw':
            return z3.BoolVal(False)
        if self._bits is not None:
            b = self._bits
            return z3.And(z3.Extract(62, 52, b) == 0x7ff, z3.Extract(51, 0, b) != 0)
        return z3.fpIsNaN(self.fp())

    def isinf_t(self):
        if self.kind != 'raw':
            return z3.BoolVal(False)
        if self._bits is not None:
            b = self._bits
            return z3.Extract(62, 0, b) == bv(0x7ff << 52, 63)
        return z3.fpIsInf(self.fp())

    def iszero_t(self):
        if self.kind == 'dy':
            return core.bt(self.m == 0)
        if self._bits is not None:
            return z3.Extract(62, 0, self._bits) == bv(0, 63)
        return z3.fpIsZero(self.fp())

    def neg_t(self):
        """sign bit"""
        if self.kind == 'dy':
            return z3.Or(core.bt(self.m < 0), z3.And(core.bt(self.m == 0), core.bt(self.zs)))
        return z3.Extract(63, 63, self.bits()) == 1

    # -- protocol
    def __hash__(self):
        return core.SYM_HASH

    def __repr__(self):
        return '<symfloat>'

    __str__ = __repr__

    def __format__(self, s):
        return '<symfloat>'

    def __bool__(self):
        return not bool(mkbool(z3.simplify(self.iszero_t())))

    def __float__(self):
        return self.realise()

    def realise(self):
        import struct
        v = core.E.realise(self.bits(), 'float value', signed=False, limit=4)
        return struct.unpack('<d', struct.pack('<Q', v))[0]

    def __eq__(self, o):
        return cmp('eq', self, o)

    def __ne__(self, o):
        r = cmp('eq', self, o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        return cmp('lt', self, o)

    def __le__(self, o):
        return cmp('le', self, o)

    def __gt__(self, o):
        return cmp('gt', self, o)

    def __ge__(self, o):
        return cmp('ge', self, o)

    def __neg__(self):
        if self.kind == 'dy':
            return dy(-self.m, self.k, snot(self.zs))
        if self.kind == 'rat':
            return rat(-self.n, self.d)
        return from_bits(self.bits() ^ bv(1 << 63, 64))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.kind == 'dy':
            return dy(abs(self.m), self.k, False)
        if self.kind == 'rat':
            return rat(abs(self.n), abs(self.d))
        return from_bits(self.bits() & bv((1 << 63) - 1, 64))

    def __trunc__(self):
        return to_int(self, 'trunc')

    def __int__(self):
        r = to_int(self, 'trunc')
        return r if type(r) is int else r.__index__()

    def __floor__(self):
        return to_int(self, 'floor')

    def __ceil__(self):
        return to_int(self, 'ceil')

    def __round__(self, ndigits=None):
        if ndigits is None:
            return to_int(self, 'round')
        if OPAQUE[0] and type(ndigits) is int:
            return opaque('round%d' % ndigits, self)
        return round(self.realise(), ndigits)

    def is_integer(self):
        if mkbool(z3.simplify(z3.Or(self.isnan_t(), self.isinf_t()))):
            return False
        return to_int(self, 'floor') == to_int(self, 'ceil')

    def as_integer_ratio(self):
        if mkbool(z3.simplify(self.isinf_t())):
            raise OverflowError('cannot convert Infinity to integer ratio')
        if mkbool(z3.simplify(self.isnan_t())):
            raise ValueError('cannot convert NaN to integer ratio')
        s = as_dy(self)
        if s is None:
            raise Inconclusive('as_integer_ratio of a quotient')
        m, k = s.m, s.k
        if type(m) is SymInt and mkbool(z3.simplify(core.bt(m == 0))) or type(m) is int and m == 0:
            return (0, 1)
        if mkbool(z3.simplify(core.bt(k >= 0))):
            return (m << (core.clamp_low(k, 0) if type(k) is SymInt else k), 1)
        nk = -k
        if type(nk) is SymInt:
            nk = core.tighten(nk, 1, nk.hi)
        c = ctz(abs(m))
        if mkbool(z3.simplify(core.bt(c >= nk))):
            return (m >> nk, 1)
        d = nk - c
        if type(d) is SymInt:
            d = core.tighten(d, 1, d.hi)
        return (m >> c, 1 << d)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def hex(self):
        return self.realise().hex()

    def __pow__(self, o, mod=None):
        if not isinstance(o, (int, float)):
            return NotImplemented
        return fpow(self, o)

    def __rpow__(self, o, mod=None):
        return fpow(o, self)

    def __divmod__(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        return divmod(force(self), force(o))

    def __rdivmod__(self, o):
        return divmod(force(o), force(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _mk(name, op, swap=False):
    def f(self, o):
        if isinstance(o, (int, float)):
            return arith(op, o, self) if swap else arith(op, self, o)
        return NotImplemented
    f.__name__ = name
    setattr(SymFloat, name, f)


for _n, _op in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'), ('floordiv', 'floordiv'), ('mod', 'mod')):
    _mk('__%s__' % _n, _op)
    _mk('__r%s__' % _n, _op, True)


def force(x):
    if type(x) is SymFloat:
        return x.realise()
    if type(x) is SymInt:
        return x.__index__()
    return x


def from_bits(t):
    f = SymFloat()
    f.kind = 'raw'
    f._bits = t
    return f


def from_fp(t):
    f = SymFloat()
    f.kind = 'raw'
    f._fp = t
    return f


def dy(m, k, zs=False):
    if type(m) is int and type(k) is int:
        if m == 0:
            if zs is True or zs is False:
                return -0.0 if zs else 0.0
        else:
            return math.ldexp(m, k)
    f = SymFloat()
    f.kind = 'dy'
    f.m, f.k, f.zs = m, k, zs
    f.finite = True
    return f


def rat(n, d):
    if type(n) is int and type(d) is int:
        return n / d
    f = SymFloat()
    f.kind = 'rat'
    f.n, f.d = n, d
    f.finite = True
    return f


def pow2(e):
    """2.0 ** e for exact integer e in the normal double range."""
    if type(e) is int:
        return 2.0 ** e
    if e.lo < -1022 or e.hi > 1023:
        return 2.0 ** e.__index__()
    return dy(1, e)


def norm(a, n, outw):
    """a: unsigned bv of width n (non-zero). Returns (a shifted so its msb is bit n-1, shift count bv(outw))."""
    sh = bv(0, outw)
    s = 1
    while s < n:
        s *= 2
    s //= 2
    while s >= 1:
        if s < n:
            z = z3.Extract(n - 1, n - s, a) == 0
            a = z3.If(z, a << s, a)
            sh = z3.If(z, sh + s, sh)
        s //= 2
    return a, sh


def dy_bits(f):
    m, k = f.m, f.k
    lo, hi = lohi(m)
    n = max(abs(lo), abs(hi)).bit_length()
    klo, khi = lohi(k)
    if n == 0:
        return z3.simplify(z3.If(core.bt(f.zs), bv(1 << 63, 64), bv(0, 64)))
    if klo + 1023 < 1 or khi + n - 1 + 1023 > 2046 or n > 54:
        raise Inconclusive('dyadic value outside the normal double range')
    neg = core.bt(m < 0)
    a = abs(m)
    at = z3.Extract(n - 1, 0, ext(a, n + 1))
    W = 13
    na, sh = norm(at, n, W)
    # msb position p = n-1-sh
    if n >= 53:
        frac = z3.Extract(n - 2, n - 53, na)
    else:
        frac = z3.Concat(z3.Extract(n - 2, 0, na), bv(0, 53 - n)) if n > 1 else bv(0, 52)
    e = ext(k, W) + bv(n - 1 + 1023, W) - sh
    bits = z3.Concat(z3.If(neg, bv(1, 1), bv(0, 1)), z3.Extract(10, 0, e), frac)
    zero = core.bt(m == 0)
    zb = z3.If(core.bt(f.zs), bv(1 << 63, 64), bv(0, 64))
    return z3.simplify(z3.If(zero, zb, bits))


def to_sym(x):
    """int/float/SymInt/SymBool/SymFloat -> SymFloat or python float (value of float(x))"""
    t = type(x)
    if t is SymFloat:
        return x
    if t is SymBool:
        x = x.as_int()
        t = SymInt
    if t is SymInt:
        if x.log2 is not None:
            return pow2(x.log2)
        if max(abs(x.lo), abs(x.hi)) <= BIG:
            return dy(x.plain(), 0)
        return int_to_float(x)
    c = float(x)
    return c


def int_to_float(x):
    """round-to-nearest-even conversion of an integer wider than 53 bits, on bits"""
    n = max(abs(x.lo), abs(x.hi)).bit_length()
    if n > 1000:
        raise Inconclusive('conversion of a very wide integer to float')
    at = z3.Extract(n - 1, 0, ext(abs(x), n + 1))
    W = 13
    na, sh = norm(at, n, W)
    top = z3.Extract(n - 1, n - 53, na)
    low = z3.Extract(n - 54, 0, na)
    half = z3.Extract(n - 54, n - 54, na) == 1
    sticky = z3.Extract(n - 55, 0, na) != 0 if n > 54 else z3.BoolVal(False)
    up = z3.And(half, z3.Or(sticky, z3.Extract(0, 0, top) == 1))
    r = z3.ZeroExt(1, top) + z3.If(up, bv(1, 54), bv(0, 54))
    carry = z3.Extract(53, 53, r) == 1
    frac = z3.If(carry, bv(0, 52), z3.Extract(51, 0, r))
    e = bv(n - 1 + 1023, W) - sh + z3.If(carry, bv(1, W), bv(0, W))
    sign = z3.If(core.bt(x < 0), bv(1, 1), bv(0, 1))
    f = from_bits(z3.If(core.bt(x == 0), bv(0, 64), z3.Concat(sign, z3.Extract(10, 0, e), frac)))
    f.finite = True
    return f


def const_dy(c):
    """finite python float -> dyadic triple"""
    if c == 0:
        return (0, 0, math.copysign(1.0, c) < 0)
    n, d = c.as_integer_ratio()
    k = -(d.bit_length() - 1)
    if d == 1:
        z = (n & -n).bit_length() - 1
        n >>= z
        k += z
    return (n, k, False)


def fp_of(x):
    x = to_sym(x)
    if type(x) is SymFloat:
        return x.fp()
    return z3.FPVal(x, F64)


class _D:
    __slots__ = ('m', 'k', 'zs')

    def __init__(self, m, k, zs):
        self.m, self.k, self.zs = m, k, zs


def as_dy(x):
    """-> object with m,k,zs or None.  Raw finite doubles decompose into sig * 2**ex with symbolic exponent."""
    if type(x) is SymFloat:
        if x.kind == 'dy':
            return x
        if x.kind == 'rat':
            return None
        b = x.bits()
        e = z3.Extract(62, 52, b)
        frac = z3.Extract(51, 0, b)
        sub = e == 0
        sig = mkint(z3.Concat(bv(0, 1), z3.If(sub, bv(0, 1), bv(1, 1)), frac), 54, 0, (1 << 53) - 1)
        ex = mkint(z3.If(sub, bv(1, 13), z3.ZeroExt(2, e)) - 1075, 13, -1074, 972)
        neg = z3.Extract(63, 63, b) == 1
        return _D(ite_int(neg, -sig, sig), ex, SymBool(neg))
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return None
        return _D(*const_dy(x))
    x = core.as_operand(x)
    if type(x) is SymInt and x.log2 is not None:
        return _D(1, x.log2, False)
    if type(x) is int and x:
        z = (x & -x).bit_length() - 1
        return _D(x >> z, z, False)
    return _D(x, 0, False)


def is_dy(x):
    t = type(x)
    if t is SymFloat:
        return x.kind == 'dy'
    if t is SymInt:
        return True
    if isinstance(x, float):
        return not (math.isnan(x) or math.isinf(x))
    return True


def nonfinite_const(x):
    return isinstance(x, float) and type(x) is not SymFloat and (math.isnan(x) or math.isinf(x))


OPAQUE = [False]         # division, remainders, powers and rounding to digits are uninterpreted functions of their operands
_B64 = z3.BitVecSort(64)


class SymComplex:
    """the complex result of a power of a negative number"""
    __slots__ = ('real', 'imag')

    def __init__(self, real, imag):
        self.real, self.imag = real, imag

    @property
    def __class__(self):
        return complex

    def __eq__(self, o):
        if isinstance(o, complex):
            return mkbool(z3.And(bits_of(self.real) == bits_of(o.real), bits_of(self.imag) == bits_of(o.imag)))
        return NotImplemented

    __hash__ = None


def opaque_args(args):
    """Operands as terms, and their kinds: numbers m * 2**k are left as they are, for normalising them is costly. (That makes the function depend
    on the representation; the counterexamples this may add are not reproduced.)"""
    out, kinds = [], ''
    for x in args:
        x = to_sym(x)
        if type(x) is SymFloat and x.kind == 'dy':
            for v in (x.m, x.k):
                if type(v) is int:
                    v = bv(v, max(v.bit_length() + 1, 2))
                else:
                    v = v.t
                out.append(v)
                kinds += 'd%d' % v.size()
        else:
            out.append(bits_of(x))
            kinds += 'b'
    return out, kinds


APPLICATIONS = []        # (name, operands, result) on this path


def opaque_fn(op, args, sort):
    a, kinds = opaque_args(args)
    name = '%s.%s' % (op, kinds)
    for n, b, r in APPLICATIONS:
        if n == name and all(x.eq(y) for x, y in zip(a, b)):
            return r
    r = z3.Const('opaque.%s.%d' % (name, len(APPLICATIONS)), sort)
    for n, b, q in APPLICATIONS:
        if n == name:
            core.E.assume(z3.Implies(z3.And(*[x == y for x, y in zip(a, b)]), r == q))
    APPLICATIONS.append((name, a, r))
    return r


def opaque(op, *args):
    return from_bits(opaque_fn(op, args, _B64))


def is_inf(a):
    return bool(mkbool(z3.simplify(a.isinf_t()))) if type(a) is SymFloat else math.isinf(a)


def is_integer(b):
    return bool(b.is_integer()) if type(b) is SymFloat else float(b).is_integer()


def small_mod(a, b):
    """a % b of numbers of few bits and known exponents, which is exact, or None"""
    da, db = as_dy(a), as_dy(b)
    if da is None or db is None or type(da.k) is SymInt or type(db.k) is SymInt or abs(da.k - db.k) > 12:
        return None
    k = min(da.k, db.k)
    ma, mb = da.m << (da.k - k), db.m << (db.k - k)
    if max(abs(v) for x in (ma, mb) for v in lohi(x)) >= 1 << 12 or not fits(ma, k) or not fits(mb, k):
        return None
    return dy(ma % mb, k, mb < 0)


def opaque_pow(a, b):
    a, b = to_sym(a), to_sym(b)
    if (a == 0.0) and (b < 0.0):
        raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    kind = opaque_fn('pow.kind', (a, b), z3.BitVecSort(2))
    if mkbool(kind == 1):
        raise OverflowError(34, 'Numerical result out of range')
    if is_dy(b):
        turns = (a < 0.0) and not is_inf(a) and not is_integer(b)      # exactly then is the power complex
    else:
        turns = (a < 0.0) and mkbool(kind == 2)
    if turns:
        im = opaque('pow.imag', a, b)
        core.E.assume(bits_of(im) & bv((1 << 63) - 1, 64) != 0)       # complex only if it has to be
        return SymComplex(opaque('pow.real', a, b), im)
    return opaque('pow', a, b)


def arith(op, a, b):
    if OPAQUE[0] and op in ('div', 'floordiv', 'mod') and not (op == 'div' and type(b) in (int, float) and math.isfinite(b) and abs(math.frexp(b)[0]) == 0.5):
        if bool(to_sym(b) == 0.0):
            raise ZeroDivisionError('float division by zero')
        if op == 'mod' and is_dy(a) and is_dy(b) and not nonfinite_const(a) and not nonfinite_const(b):
            r = small_mod(a, b)
            if r is not None:
                return r
        return opaque(op, a, b)
    if nonfinite_const(a) or nonfinite_const(b):
        pass
    elif op in ('mul', 'add', 'sub') and is_dy(a) and is_dy(b):
        r = dy_arith(op, a, b)
        if r is not None:
            return r
    if op == 'div':
        bs = to_sym(b)
        if type(bs) is SymFloat:
            if mkbool(z3.simplify(bs.iszero_t())):
                raise ZeroDivisionError('division by zero')
        elif bs == 0:
            raise ZeroDivisionError('division by zero')
        if is_dy(a) and is_dy(b):
            r = dy_div(a, b)
            if r is not None:
                return r
    if op in ('floordiv', 'mod'):
        x, y = force(a), force(b)
        return x // y if op == 'floordiv' else x % y
    fa, fb = fp_of(a), fp_of(b)
    if op == 'add':
        return from_fp(z3.fpAdd(RNE, fa, fb))
    if op == 'sub':
        return from_fp(z3.fpSub(RNE, fa, fb))
    if op == 'mul':
        return from_fp(z3.fpMul(RNE, fa, fb))
    return from_fp(z3.fpDiv(RNE, fa, fb))


def is_int(x):
    return type(x) is SymInt or type(x) is SymBool or (isinstance(x, int) and type(x) is not SymFloat)


def fits(m, k):
    lo, hi = lohi(m)
    mm = max(abs(lo), abs(hi))
    klo, khi = lohi(k)
    return mm <= BIG and klo >= -1022 and khi + mm.bit_length() <= 1023


def neg_zero(d):
    return sand(d.m == 0, d.zs)


def sgn(d):
    """symbolic sign bit of a dyadic as python bool/SymBool"""
    return sor(d.m < 0, sand(d.m == 0, d.zs))


def dy_arith(op, a, b):
    # ints wider than 53 bits are rounded on conversion first: only exact conversions qualify
    for x in (a, b):
        if is_int(x):
            lo, hi = lohi(x)
            if max(abs(lo), abs(hi)) > BIG and not (type(x) is SymInt and x.log2 is not None):
                if type(x) is not SymInt:
                    return arith(op, float(a) if x is a else a, float(b) if x is b else b)
                return None
    da, db = as_dy(a), as_dy(b)
    if op == 'mul':
        m = da.m * db.m
        k = da.k + db.k
        if not fits(m, k):
            return None
        sa, sb = sgn(da), sgn(db)
        zs = mkbool(z3.simplify(z3.Xor(core.bt(sa), core.bt(sb))))
        return dy(m, k, zs)
    if type(da.k) is SymInt or type(db.k) is SymInt:
        return None
    # integer zero operands behave like +0.0
    k = min(da.k, db.k)
    if max(da.k, db.k) - k > 60:
        return None
    ma, mb = da.m << (da.k - k), db.m << (db.k - k)
    m = ma + mb if op == 'add' else ma - mb
    if not fits(m, k):
        return None
    nb = neg_zero(db)
    if op == 'sub':
        nb = sand(db.m == 0, snot(db.zs))
    return dy(m, k, sand(neg_zero(da), nb))


def dy_div(a, b):
    da, db = as_dy(a), as_dy(b)
    if type(db.m) is int and abs(db.m) == 1 and type(db.k) is int:
        lo, hi = lohi(da.m)
        if max(abs(lo), abs(hi)) > BIG and is_int(a):
            return None
        m, k = da.m * db.m, da.k - db.k
        if fits(m, k):
            return dy(m, k, mkbool(z3.simplify(z3.Xor(core.bt(sgn(da)), core.bt(db.m < 0)))))
        return None
    if type(da.k) is int and type(db.k) is int and abs(da.k - db.k) < 64:
        k = da.k - db.k
        n, d = (da.m << k, db.m) if k >= 0 else (da.m, db.m << -k)
        if max(map(abs, lohi(n))) < 1 << 60 and max(map(abs, lohi(d))) < 1 << 60:
            return rat(n, d)
    return None


def ifcmp(op, a, b):
    return a == b if op == 'eq' else a < b if op == 'lt' else a <= b if op == 'le' else a > b if op == 'gt' else a >= b


def cmp(op, a, b):
    for x in (a, b):
        if not isinstance(x, (int, float)):
            return NotImplemented
    for x, y, flip in ((a, b, False), (b, a, True)):
        if nonfinite_const(x) and (is_int(y) or (type(y) is SymFloat and y.finite)):
            v = ifcmp(op, 0.0, x) if flip else ifcmp(op, x, 0.0)
            return v
    if is_dy(a) and is_dy(b):
        da, db = as_dy(a), as_dy(b)
        if type(da.k) is int and type(db.k) is int:
            k = min(da.k, db.k)
            if max(da.k, db.k) - k <= 600 or type(da.m) is int or type(db.m) is int:
                return _align_cmp(op, da, db)
        # symbolic exponents: compare the exact double bit patterns
        if all(not is_int(x) or max(map(abs, lohi(x))) <= BIG or (type(x) is SymInt and x.log2 is not None) for x in (a, b)):
            return bits_cmp(op, a, b)
        # exact big-integer comparison with symbolic shift
        k0 = min(lohi(da.k)[0], lohi(db.k)[0])
        return ifcmp(op, da.m << (da.k - k0), db.m << (db.k - k0))
    ra = type(a) is SymFloat and a.kind == 'rat'
    rb = type(b) is SymFloat and b.kind == 'rat'
    if ra or rb:
        return rat_cmp(op, a, b, ra, rb)
    # a raw double against something
    for x in (a, b):
        if is_int(x) and max(map(abs, lohi(x))) > BIG:
            if type(x) is not SymInt:
                try:
                    exact = float(x) == x
                except OverflowError:
                    exact = False
                if exact:
                    continue
            raise Inconclusive('comparison of an arbitrary double with a large integer')
    if all(type(x) is not SymFloat or x._bits is not None or (x.kind == 'dy' and fits(x.m, x.k)) for x in (to_sym(a), to_sym(b))):
        nan = [z3.Not(to_sym(x).isnan_t()) for x in (a, b) if type(to_sym(x)) is SymFloat]
        nan += [z3.BoolVal(x == x) for x in (to_sym(a), to_sym(b)) if type(x) is not SymFloat]
        return mkbool(z3.simplify(z3.And(*nan, core.bt(bits_cmp(op, a, b)))))
    fa, fb = fp_of(a), fp_of(b)
    t = (z3.fpEQ(fa, fb) if op == 'eq' else z3.fpLT(fa, fb) if op == 'lt' else z3.fpLEQ(fa, fb) if op == 'le'
         else z3.fpGT(fa, fb) if op == 'gt' else z3.fpGEQ(fa, fb))
    return mkbool(z3.simplify(t))


def _align_cmp(op, da, db):
    k = min(da.k, db.k)
    # reduce a comparison with a concrete constant far away in scale to a threshold on the symbolic side
    if type(db.m) is int and type(da.m) is SymInt and db.k < da.k:
        # da.m * 2^s  op  db.m   with s > 0
        s = da.k - db.k
        q, r = divmod(db.m, 1 << s)
        if r == 0:
            return ifcmp(op, da.m, q)
        if op == 'eq':
            return False
        return da.m <= q if op in ('lt', 'le') else da.m > q
    if type(da.m) is int and type(db.m) is SymInt and da.k < db.k:
        inv = {'eq': 'eq', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[op]
        return _align_cmp(inv, db, da)
    return ifcmp(op, da.m << (da.k - k), db.m << (db.k - k))


def bits_of(x):
    x = to_sym(x)
    if type(x) is SymFloat:
        return x.bits()
    import struct
    return bv(struct.unpack('<Q', struct.pack('<d', x))[0], 64)


def bits_cmp(op, a, b):
    """Compare two finite doubles by their bit patterns (sign-magnitude order)."""
    def key(x):
        t = bits_of(x)
        mag = z3.Extract(62, 0, t)
        s = z3.Extract(63, 63, t) == 1
        z = z3.ZeroExt(1, mag)
        return z3.If(s, -z, z)
    ka, kb = key(a), key(b)
    t = ka == kb if op == 'eq' else ka < kb if op == 'lt' else ka <= kb if op == 'le' else ka > kb if op == 'gt' else ka >= kb
    return mkbool(z3.simplify(t))


def rat_cmp(op, a, b, ra, rb):
    """RN(n/d) op c.  Decided exactly on integers when n/d cannot round onto c without equalling it."""
    if ra and rb:
        # equal quotients round equally; distinct ones with small denominators stay distinct
        x, y = a, b
        lim = max(map(abs, lohi(x.d))) * max(map(abs, lohi(y.d)))
        if lim * max(map(abs, lohi(x.n)), default=1) >= 1 << 100:
            raise Inconclusive('comparison of two wide quotients')
        if lim > (1 << 50):
            raise Inconclusive('comparison of two wide quotients')
        n1, d1, n2, d2 = pos(x.n, x.d) + pos(y.n, y.d)
        return ifcmp(op, n1 * d2, n2 * d1)
    if rb:
        inv = {'eq': 'eq', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[op]
        return rat_cmp(inv, b, a, True, False)
    if not is_dy(b):
        raise Inconclusive('comparison of a quotient with an arbitrary double')
    db = as_dy(b)
    if type(db.k) is SymInt:
        raise Inconclusive('comparison of a quotient with a scaled value')
    if type(a.d) is int and type(a.n) is SymInt and a.n.hi - a.n.lo <= 5000 and type(db.m) is int:
        # few numerators and a constant divisor: the comparison itself, for each of them
        import operator
        from . import models
        c, f = math.ldexp(float(db.m), db.k), getattr(operator, op)
        return models.in_consts(a.n, [v for v in range(a.n.lo, a.n.hi + 1) if f(v / a.d, c)])
    n, d = pos(a.n, a.d)
    # |n/d - c| >= 1/(d*2^q) must exceed half an ulp of c
    q = max(0, -db.k)
    cm = max(map(abs, lohi(db.m)))
    cbits = cm.bit_length() + db.k
    if max(map(abs, lohi(d))).bit_length() + q + max(cbits, 0) > 51:
        raise Inconclusive('comparison of a wide quotient')
    lhs = n << q
    rhs = (db.m << (db.k + q)) * d
    return ifcmp(op, lhs, rhs)


def pos(n, d):
    if lohi(d)[0] > 0:
        return n, d
    if d < 0:
        return -n, -d
    return n, core.clamp_low(d, 1) if type(d) is SymInt else d


def to_int(x, mode):
    x = to_sym(x)
    if type(x) is not SymFloat:
        return {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'round': round}[mode](x)
    if x.kind == 'rat':
        n, d = pos(x.n, x.d)
        q, r = core.divmod_(n, d)
        w = max(map(abs, lohi(x.n))).bit_length()
        if w > 50:
            raise Inconclusive('integer part of a wide quotient')
        if mode == 'floor':
            return q
        if mode == 'ceil':
            return q + ite_int(core.bt(r != 0), 1, 0)
        if mode == 'trunc':
            return q + ite_int(core.bt(sand(r != 0, n < 0)), 1, 0)
        raise Inconclusive('round of a quotient')
    if x.kind == 'raw':
        if mkbool(z3.simplify(x.isnan_t())):
            raise ValueError('cannot convert float NaN to integer')
        if mkbool(z3.simplify(x.isinf_t())):
            raise OverflowError('cannot convert float infinity to integer')
    s = as_dy(x)
    m, k = s.m, s.k
    klo, khi = lohi(k)
    if khi <= -1 and type(k) is SymInt and klo < -1100:
        raise Inconclusive('int() of a value with a huge negative exponent')
    a = abs(m)
    neg = core.bt(m < 0)
    if type(k) is int and k >= 0:
        return m << k
    if type(k) is SymInt:
        up = core.shl(a, core.mkint(z3.If(k.t < 0, bv(0, k.w), k.t), k.w, max(klo, 0), max(khi, 0))) if khi > 0 else a
        nk = -k
        dn_n = core.mkint(z3.If(nk.t < 0, bv(0, nk.w), nk.t), nk.w, max(-khi, 0), max(-klo, 0)) if type(nk) is SymInt else nk
        dn = a >> dn_n
        back = dn << dn_n if lohi(dn_n)[1] < 4096 else dn
        isneg = k < 0
        mag = ite_int(core.bt(isneg), dn, up)
        exact = sor(snot(isneg), back == a)
        if mode == 'round':
            unit = 1 << dn_n
            rem2 = (a - back) * 2
            up1 = sand(isneg, sor(rem2 > unit, sand(rem2 == unit, (mag & 1) == 1)))
            mag = mag + ite_int(core.bt(up1), 1, 0)
            return ite_int(neg, -mag, mag)
    else:
        mag = a >> -k
        exact = (mag << -k) == a
        if mode == 'round':
            half = 1 << (-k - 1)
            rem = a - (mag << -k)
            up1 = sor(rem > half, sand(rem == half, (mag & 1) == 1))
            mag = mag + ite_int(core.bt(up1), 1, 0)
            return ite_int(neg, -mag, mag)
    if mode == 'floor':
        mag = mag + ite_int(z3.And(neg, z3.Not(core.bt(exact))), 1, 0)
    elif mode == 'ceil':
        mag = mag + ite_int(z3.And(z3.Not(neg), z3.Not(core.bt(exact))), 1, 0)
    return ite_int(neg, -mag, mag)


def ctz(a):
    """count trailing zeros of a positive SymInt"""
    if type(a) is int:
        return (a & -a).bit_length() - 1
    n = max(a.hi.bit_length(), 1)
    if n == 1:
        return 0
    t = z3.Extract(n - 1, 0, ext(a, n + 1))
    W = bits_for(0, n) + 1
    sh = bv(0, W)
    s = 1
    while s < n:
        s *= 2
    s //= 2
    while s >= 1:
        if s < n:
            z = z3.Extract(s - 1, 0, t) == 0
            t = z3.If(z, z3.LShR(t, s), t)
            sh = z3.If(z, sh + s, sh)
        s //= 2
    return mkint(sh, W, 0, n - 1)


def msb(a):
    """position of the most significant set bit of a positive SymInt"""
    if type(a) is int:
        return a.bit_length() - 1
    n = max(a.hi.bit_length(), 1)
    if n == 1:
        return 0
    W = bits_for(0, n) + 1
    _, sh = norm(z3.Extract(n - 1, 0, ext(a, n + 1)), n, W)
    return mkint(bv(n - 1, W) - sh, W, 0, n - 1)


def frexp(x):
    x = to_sym(x)
    if type(x) is not SymFloat:
        return math.frexp(x)
    if x.kind == 'rat':
        x = from_fp(x.fp())
    if x.kind == 'raw':
        b = x.bits()
        e = z3.Extract(62, 52, b)
        if mkbool(z3.simplify(e == 0x7ff)):
            return (x, 0)
        if mkbool(z3.simplify(z3.Extract(62, 0, b) == 0)):
            return (x, 0)
        neg = z3.Extract(63, 63, b) == 1
        frac = z3.Extract(51, 0, b)
        if mkbool(z3.simplify(e == 0)):
            nf, sh = norm(frac, 52, 13)
            sig = mkint(z3.Concat(bv(0, 1), nf, bv(0, 1)), 54, 1 << 52, (1 << 53) - 1)
            ee = mkint(bv(51 - 1073, 13) - sh, 13, -1073, -1022)
        else:
            sig = mkint(z3.Concat(bv(1, 2), frac), 54, 1 << 52, (1 << 53) - 1)
            ee = mkint(z3.ZeroExt(2, e) - 1022, 13, -1021, 1024)
        return (dy(ite_int(neg, -sig, sig), -53), ee)
    if mkbool(z3.simplify(core.bt(x.m == 0))):
        return (x, 0)
    a = abs(x.m)
    p = msb(a)
    lo, hi = lohi(x.m)
    n = max(abs(lo), abs(hi)).bit_length()
    if n > 53:
        mm = from_bits(x.bits())
        return frexp(mm)
    sig = a << (52 - p)
    sig = mkint(ext(sig, 54), 54, 1 << 52, (1 << 53) - 1)
    return (dy(ite_int(core.bt(x.m < 0), -sig, sig), -53), x.k + p + 1)


def ldexp(x, e):
    if type(e) is int and type(to_sym(x)) is not SymFloat:
        return math.ldexp(x, e)
    x = to_sym(x)
    if is_dy(x):
        d = as_dy(x)
        k = d.k + e
        if fits(d.m, k):
            return dy(d.m, k, d.zs)
    return math.ldexp(force(x), force(e))


def fpow(a, b):
    if OPAQUE[0] and isinstance(a, float) and isinstance(b, float):
        return opaque_pow(a, b)
    if is_int(a) and type(b) is SymInt:
        return core.power(a, b)
    if isinstance(a, float) and type(a) is not SymFloat and (type(b) is SymInt or (type(b) is SymFloat)):
        if type(b) is SymFloat and b.kind == 'dy' and type(b.k) is int and b.k == 0:
            b = b.m
        if a > 0 and type(b) is SymInt:
            m, e = math.frexp(a)
            if m == 0.5:
                ee = b * (e - 1)
                if lohi(ee)[0] >= -1022 and lohi(ee)[1] <= 1023:
                    return pow2(ee)
    if type(b) is int and b == 2 and type(a) is SymFloat:
        return a * a
    return pow(force(a), force(b))


def to_f32_bits(x):
    """Value packed as an IEEE single: (bits term, overflow condition)."""
    x = to_sym(x)
    if type(x) is not SymFloat:
        import struct
        return bv(struct.unpack('<I', struct.pack('<f', x))[0], 32), False
    if x.f32bits is not None:
        return x.f32bits, False
    f = x.fp()
    s = z3.fpFPToFP(RNE, f, F32)
    over = z3.And(z3.fpIsInf(s), z3.Not(z3.fpIsInf(f)))
    return z3.fpToIEEEBV(s), mkbool(z3.simplify(over))


def from_f32_bits(t):
    """exact widening of an IEEE single to a double (NaN payloads are not modelled beyond 'a quiet NaN')"""
    e = z3.Extract(30, 23, t)
    frac = z3.Extract(22, 0, t)
    nf, sh = norm(frac, 23, 11)
    sub = z3.Concat(bv(896, 11) - sh, z3.Extract(21, 0, nf), bv(0, 30))        # 2**-149 * frac, frac != 0
    nrm = z3.Concat(z3.ZeroExt(3, e) + bv(896, 11), frac, bv(0, 29))
    top = z3.If(frac == 0, bv(0x7ff << 52, 63), z3.Concat(bv(0x7ff, 11), bv(1, 1), z3.Extract(21, 0, t), bv(0, 29)))
    mag = z3.If(e == 255, top, z3.If(e == 0, z3.If(frac == 0, bv(0, 63), sub), nrm))
    f = from_bits(z3.Concat(z3.Extract(31, 31, t), mag))
    f.f32bits = t
    return f
