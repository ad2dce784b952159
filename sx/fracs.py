"""Exact rationals with symbolic parts, kept unnormalised; only what fractions.Fraction users observe is modelled."""
import decimal
import fractions
from . import core
from .core import SymInt, sand, sor, snot, bt, lohi, ite_int, Inconclusive, as_operand


class SymFraction:
    def __init__(self, n, d):
        self.n, self.d = n, d          # d > 0
        self._norm = None

    @property
    def __class__(self):
        return fractions.Fraction

    def norm(self):
        if self._norm is None:
            from . import models
            n, d = self.n, self.d
            if type(d) is int and d == 1:
                self._norm = (n, 1)
            else:
                # integral values are by far the common case: decide integrality first
                q, r = core.divmod_(n, d)
                if models.truth(r == 0):
                    self._norm = (q, 1)
                else:
                    g = models.gcd2(n, d)
                    self._norm = (core.divmod_(n, g)[0], core.divmod_(d, g)[0])
        return self._norm

    @property
    def numerator(self):
        return self.norm()[0]

    @property
    def denominator(self):
        return self.norm()[1]

    def as_integer_ratio(self):
        return self.norm()

    def is_integer(self):
        return core.divmod_(self.n, self.d)[1] == 0

    def __hash__(self):
        return core.SYM_HASH

    def __repr__(self):
        return '<symfraction>'

    def _bin(self, o, f):
        p = parts(o)
        if p is None:
            return NotImplemented
        return f(self.n, self.d, *p)

    def __add__(self, o):
        return self._bin(o, lambda a, b, c, d: type(self)(a * d + c * b, b * d))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b, c, d: type(self)(a * d - c * b, b * d))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b, c, d: type(self)(c * b - a * d, b * d))

    def __mul__(self, o):
        return self._bin(o, lambda a, b, c, d: type(self)(a * c, b * d))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b, c, d: make2(a * d, b * c, type(self)))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b, c, d: make2(b * c, a * d, type(self)))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b, c, d: core.divmod_(a * d, b * c)[0])

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __neg__(self):
        return type(self)(-self.n, self.d)

    def __abs__(self):
        return type(self)(abs(self.n), self.d)

    def __eq__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d == c * b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d < c * b)

    def __le__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d <= c * b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d > c * b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d >= c * b)

    def __bool__(self):
        return bool(self.n != 0)

    def __floor__(self):
        return core.divmod_(self.n, self.d)[0]

    def __ceil__(self):
        return -core.divmod_(-self.n, self.d)[0]

    def __trunc__(self):
        q = core.divmod_(abs(self.n), self.d)[0]
        return ite_int(bt(self.n < 0), -q, q)

    __int__ = __trunc__

    def __round__(self, nd=None):
        raise Inconclusive('round of a symbolic fraction')

    def __float__(self):
        raise Inconclusive('float of a symbolic fraction')


class SymDecimal(SymFraction):
    """A Decimal whose digits are symbolic; exact, so only for results that need no rounding (few digits)."""

    @property
    def __class__(self):
        return decimal.Decimal

    def __repr__(self):
        return '<symdecimal>'


def make_decimal(*args):
    if args and type(args[0]) is SymInt:
        return SymDecimal(args[0], 1)
    return decimal.Decimal(*args)


def parts(o):
    if type(o) is SymFraction or type(o) is SymDecimal:
        return o.n, o.d
    if isinstance(o, decimal.Decimal) and o.is_finite():
        return o.as_integer_ratio()
    x = as_operand(o)
    if x is not None:
        return x, 1
    if isinstance(o, fractions.Fraction):
        return o.numerator, o.denominator
    return None


def make2(n, d, cls=None):
    if d == 0:
        raise ZeroDivisionError('Fraction(%s, 0)' % (n,))
    lo, hi = lohi(d)
    if hi < 0:
        n, d = -n, -d
    elif lo <= 0:
        if d < 0:
            n, d = -n, -d
        d = core.clamp_low(d, 1) if type(d) is SymInt else d
    if type(n) is int and type(d) is int:
        return fractions.Fraction(n, d)
    return (cls or SymFraction)(n, d)


def make(n, d):
    if d is None:
        if type(n) is SymFraction:
            return n
        if as_operand(n) is not None and type(as_operand(n)) is SymInt:
            return SymFraction(as_operand(n), 1)
        from .floats import SymFloat
        if type(n) is SymFloat:
            return make2(*n.as_integer_ratio())
        return fractions.Fraction(n)
    a, b = parts(n), parts(d)
    if a is None or b is None:
        return fractions.Fraction(n, d)
    return make2(a[0] * b[1], a[1] * b[0])
