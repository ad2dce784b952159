"""Path-exploring engine, symbolic booleans and exact symbolic integers (z3 bit-vectors)."""
import os
import sys
import time
import z3

REALISE_LIMIT = 600
MAX_DECISIONS = 6000
FIRST_MS = int(os.environ.get('SX_FIRST_MS', '4000'))     # incremental solver first, then the one-shot tactic
SLOW = float(os.environ.get('SX_SLOW', '0'))


class SxSignal(BaseException):
    """Engine control flow; never caught by the code under test (BaseException)."""


class PathAbort(SxSignal):
    """The current path is infeasible (assumption failed) or finished early."""


class Inconclusive(SxSignal):
    """The current path cannot be decided (engine limit, unsupported operation)."""


class Stop(SxSignal):
    """The whole job must stop (budget exhausted)."""


# The ids of terms decide the order in which z3 arranges commutative arguments.  Terms that are never freed keep their ids, and the
# memory of what they were simplified to makes a path taken up again build exactly the same conditions as before.  (One process per job.)
if hasattr(z3.AstRef, '__del__'):
    del z3.AstRef.__del__
_z3_simplify = z3.simplify
_simplified = {}


def simplify(t, *args, **kw):
    if args or kw:
        return _z3_simplify(t, *args, **kw)
    i = t.get_id()
    r = _simplified.get(i)
    if r is None:
        r = _simplified[i] = _z3_simplify(t)
        _simplified[r.get_id()] = r
    return r


z3.simplify = simplify


class Engine:
    """Depth-first path exploration by re-execution.  One instance per job."""

    def __init__(self, deadline=None, query_timeout_ms=60000):
        self.deadline = deadline
        self.query_timeout_ms = query_timeout_ms
        self.queries = 0
        self.query_time = 0.0
        self.query_hist = {'sat': 0, 'unsat': 0, 'unknown': 0}
        self.transitions = 0
        self.paths = 0
        self.aborted_paths = 0
        self.realisations = {}
        self.inconclusive = {}
        self.vars = {}
        self.pending = [[]]
        self.int_first = False

    # -- path lifecycle
    def start_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.pc = []
        self.raw = []              # the same constraints before simplification, for intarith
        self.facts = {}            # id of a narrowed term -> (term, lo, hi)
        self.branch_cache = {}
        self.keep = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_timeout_ms)
        self.model = None
        self.symdicts = {}
        self.over = False
        self.fresh_n = 0

    def check(self, extra=None, raw=None):
        if self.deadline and time.time() > self.deadline:
            raise Stop('time budget exhausted')
        t0 = time.time()
        self.queries += 1
        raw = extra if raw is None else raw
        quick = self.int_first
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        if self.deadline:
            left = max(1000, int((self.deadline - time.time()) * 1000))
            self.solver.set('timeout', min(200 if quick else FIRST_MS, self.query_timeout_ms, left))
        r = self.solver.check()
        if SLOW and time.time() - t0 > SLOW:
            print('SLOW %.1fs %s pc=%d %s' % (time.time() - t0, r, len(self.pc), str(extra)[:300].replace(chr(10), ' ')), file=sys.stderr)
        m = self.solver.model() if r == z3.sat else None
        if extra is not None:
            self.solver.pop()
        self.query_time += time.time() - t0
        rs = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        self.query_hist[rs] += 1
        if rs == 'unknown':
            rs, m = self.by_integers(extra, raw, 15000)
            if rs is not None:
                self.int_first = True
                return rs, m
            rs, m = self.second_opinion(extra)
        return rs, m

    def by_integers(self, extra, raw, ms):
        """Products and quotients of symbolic numbers: decide over the integers (see intarith); (None, None) if that does not help."""
        from . import intarith
        t0 = time.time()
        try:
            rs, pins = intarith.decide(self.raw, raw, self.facts, ms)
        except z3.Z3Exception:
            rs, pins = None, None
        m = None
        if rs == 'sat':
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(self.pc)
            if extra is not None:
                s.add(extra)
            s.add(pins)
            if s.check() == z3.sat:
                m = s.model()
            else:
                rs = None
        if SLOW and time.time() - t0 > SLOW:
            print('SLOWI %.1fs %s' % (time.time() - t0, rs), file=sys.stderr)
        self.query_time += time.time() - t0
        if rs not in ('sat', 'unsat'):
            return None, None
        self.query_hist[rs] += 1
        return rs, m

    def second_opinion(self, extra):
        """The incremental solver gave up: retry with the one-shot bit-blasting tactic."""
        t0 = time.time()
        self.queries += 1
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver()
        s.set('timeout', self.query_timeout_ms)
        for c in self.pc:
            s.add(c)
        if extra is not None:
            s.add(extra)
        try:
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        if SLOW and time.time() - t0 > SLOW:
            print('SLOW2 %.1fs %s pc=%d %s' % (time.time() - t0, r, len(self.pc), str(extra)[:300].replace(chr(10), ' ')), file=sys.stderr)
        self.query_time += time.time() - t0
        rs = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        self.query_hist[rs] += 1
        return rs, m

    def add(self, c, raw=None):
        self.pc.append(c)
        self.raw.append(c if raw is None else raw)
        self.solver.add(c)

    def get_model(self):
        if self.model is None:
            r, m = self.check()
            if r == 'unsat':
                raise PathAbort('infeasible')
            if r == 'unknown':
                raise Inconclusive('solver returned unknown for a path condition')
            self.model = m
        return self.model

    def assume(self, cond):
        """Restrict to cond (a python bool or z3 Bool)."""
        if isinstance(cond, SymBool):
            cond = cond.t
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort('assumption false')
            return
        raw = cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort('assumption false')
        self.add(cond, raw)
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def branch(self, cond):
        """Decide a symbolic condition on this path, forking when both ways are feasible."""
        if self.over:
            return False
        raw = cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        hit = self.branch_cache.get(key)
        if hit is not None:
            return hit
        neg = z3.simplify(z3.Not(cond))
        if self.pos < len(self.prefix):
            step = self.prefix[self.pos]
            if step[0] != key:
                self.diverged()
            d = step[1]
            self.pos += 1
            self.trail.append(step)
            self._commit(cond, neg, d, raw)
            return d
        if len(self.trail) >= MAX_DECISIONS:
            raise Inconclusive('path longer than %d decisions' % MAX_DECISIONS)
        m = self.get_model()
        v = z3.is_true(m.eval(cond, model_completion=True))
        r, om = self.check(neg if v else cond, z3.Not(raw) if v else raw)
        if r == 'sat':
            self.pending.append(self.trail + [(key, not v)])
        elif r == 'unknown':
            self.note_inconclusive('solver unknown at a branch')
        d = v
        self.transitions += 1
        self.pos += 1
        self.trail.append((key, d))
        self._commit(cond, neg, d, raw, forced=(r == 'unsat'))
        return d

    def forced(self, cond):
        """True or False where the path so far settles cond, else None"""
        if self.over:
            return None
        raw = cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        hit = self.branch_cache.get(cond.get_id())
        if hit is not None:
            return hit
        # what the solver settles may depend on its luck: a path taken up again has to find the same answers
        if self.pos < len(self.prefix):
            key, out = self.prefix[self.pos]
            if key != cond.get_id():
                self.diverged()
        else:
            out = 'open'
            for c, rw, ans in ((cond, raw, 'no'), (z3.Not(cond), z3.Not(raw), 'yes')):
                r, _ = self.check(c, rw)
                if r == 'unsat':
                    out = ans
                    break
        self.pos += 1
        self.trail.append((cond.get_id(), out))
        if out == 'open':
            return None
        self.keep.append((cond, cond))
        self.branch_cache[cond.get_id()] = out == 'yes'
        return out == 'yes'

    def diverged(self):
        self.note_inconclusive('a path could not be taken up again')
        raise Inconclusive('a path could not be taken up again')

    def _commit(self, cond, neg, d, raw, forced=False):
        self.keep.append((cond, neg))
        self.branch_cache[cond.get_id()] = d
        self.branch_cache[neg.get_id()] = not d
        if not forced:
            c = cond if d else neg
            self.pc.append(c)
            self.raw.append(raw if d else z3.Not(raw))
            self.solver.add(c)
            if self.pos <= len(self.prefix) and self.model is not None:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None

    def realise(self, term, why='realise', signed=True, limit=None):
        """Fork over every feasible value of a bit-vector term; returns a python int."""
        limit = limit or REALISE_LIMIT
        n = 0
        if self.over:
            return 0
        raw = term
        term = z3.simplify(term)
        if z3.is_bv_value(term):
            return term.as_signed_long() if signed else term.as_long()
        self.realisations[why] = self.realisations.get(why, 0) + 1
        while True:
            if self.pos < len(self.prefix):
                key, v, taken = self.prefix[self.pos]
                if key != term.get_id():
                    self.diverged()
            else:
                m = self.get_model()
                bv = m.eval(term, model_completion=True)
                v = bv.as_long()
                r, _ = self.check(term != bv, raw != bv)
                taken = True
                if r != 'unsat':
                    if n + 1 >= limit:
                        self.note_inconclusive('more than %d values at %s' % (limit, why))
                    else:
                        self.pending.append(self.trail + [(term.get_id(), v, False)])
                self.transitions += 1
            self.pos += 1
            self.trail.append((term.get_id(), v, taken))
            bv = z3.BitVecVal(v, term.size())
            c = (term == bv) if taken else (term != bv)
            self.pc.append(c)
            self.raw.append((raw == bv) if taken else (raw != bv))
            self.solver.add(c)
            if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None
            if taken:
                if signed and v >= 1 << (term.size() - 1):
                    v -= 1 << term.size()
                return v
            n += 1

    def note_inconclusive(self, why):
        self.inconclusive[why] = self.inconclusive.get(why, 0) + 1

    def bvvar(self, name, width):
        k = (name, width)
        v = self.vars.get(k)
        if v is None:
            v = self.vars[k] = z3.BitVec(name, width)
        return v

    def fresh(self, hint, width):
        self.fresh_n += 1
        return self.bvvar('%s!%d' % (hint, self.fresh_n), width)


E = None


def set_engine(e):
    global E
    E = e


def engine():
    return E


# ---------------------------------------------------------------------------------------------
def bits_for(lo, hi):
    return max((lo if lo >= 0 else ~lo).bit_length(), (hi if hi >= 0 else ~hi).bit_length()) + 1


def bv(n, w):
    return z3.BitVecVal(n, w)


class SymBool:
    __slots__ = ('t', '__weakref__')

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.branch(self.t)

    def as_int(self):
        return mkint(z3.If(self.t, bv(1, 2), bv(0, 2)), 2, 0, 1)

    def __invert__(self):
        return ~self.as_int()

    def __hash__(self):
        return SYM_HASH

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.t == o.t)
        if o is True:
            return self
        if o is False:
            return snot(self)
        return self.as_int() == o

    def __ne__(self, o):
        return snot(self == o)

    def __and__(self, o):
        if type(o) in (SymBool, bool):
            return sand(self, o)
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (SymBool, bool):
            return sor(self, o)
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (SymBool, bool):
            return mkbool(z3.Xor(self.t, bt(o)))
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __repr__(self):
        return '<symbool>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<symbool>'

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())


def _deleg(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)
    f.__name__ = name
    return f


for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ __rfloordiv__ __mod__ __rmod__ '
           '__truediv__ __rtruediv__ __lshift__ __rlshift__ __rshift__ __rrshift__ __lt__ __le__ __gt__ __ge__ '
           '__neg__ __pos__ __abs__ __divmod__ __rdivmod__ __pow__ __rpow__ __trunc__ __floor__ __ceil__').split():
    setattr(SymBool, _n, _deleg(_n))


def bt(x):
    """python bool / SymBool -> z3 Bool"""
    if type(x) is SymBool:
        return x.t
    return z3.BoolVal(bool(x))


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def snot(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.t))
    return not x


def sand(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    if len(ts) == 1:
        return SymBool(ts[0])
    return SymBool(z3.And(ts))


def sor(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    if len(ts) == 1:
        return SymBool(ts[0])
    return SymBool(z3.Or(ts))


SYM_HASH = 0x5afe5afe


def mkint(t, w, lo, hi, log2=None):
    """Build an exact integer from signed bit-vector t of width w known to lie in [lo, hi]."""
    if lo == hi:
        return lo
    n = bits_for(lo, hi)
    if n < w:
        t = z3.Extract(n - 1, 0, t)
        w = n
    if E is not None:
        E.facts[t.get_id()] = (t, lo, hi)
    r = SymInt.__new__(SymInt)
    r.t = t
    r.w = w
    r.lo = lo
    r.hi = hi
    r.cls = int
    r.log2 = log2
    r.origin = None
    r.lin = None
    r.src = None
    return r


# -- affine forms: const + sum of coeff * atom, so that common parts of sums and differences cancel
def affine(x):
    if type(x) is not SymInt:
        return int(x), {}
    if x.lin is not None:
        return x.lin
    return 0, {x.t.get_id(): (1, x)}


def affine_bounds(f):
    lo = hi = f[0]
    for c, a in f[1].values():
        if c > 0:
            lo, hi = lo + c * a.lo, hi + c * a.hi
        else:
            lo, hi = lo + c * a.hi, hi + c * a.lo
    return lo, hi


def combine(f, g, m):
    """f + m * g, and whether anything cancelled"""
    d = dict(f[1])
    gone = False
    for k, (c, a) in g[1].items():
        old = d.get(k)
        n = c * m + (old[0] if old else 0)
        if n == 0:
            if old:
                del d[k]
                gone = True
        else:
            d[k] = (n, a)
    return (f[0] + m * g[0], d), gone


def from_affine(f):
    c, d = f
    if not d:
        return c
    lo, hi = affine_bounds(f)
    items = list(d.values())
    if len(items) == 1 and items[0][0] == 1 and c == 0:
        return items[0][1]
    m = abs(c) + sum(abs(k) * max(abs(a.lo), abs(a.hi)) for k, a in items)
    w = max([bits_for(-m, m)] + [a.w for _, a in items])
    t = None
    for k, a in items:
        x = ext(a, w)
        y = x if k == 1 else x * z3.BitVecVal(k, w)
        t = y if t is None else t + y
    if c:
        t = t + z3.BitVecVal(c, w)
    r = mkint(t, w, lo, hi)
    if type(r) is SymInt:
        r.lin = f
    return r


def with_affine(r, f):
    """attach an affine form to a sum just built, using the bounds it gives"""
    if type(r) is not SymInt or len(f[1]) > 8:
        return r
    lo, hi = affine_bounds(f)
    if lo > r.lo or hi < r.hi:
        r = mkint(r.t, r.w, max(lo, r.lo), min(hi, r.hi))
        if type(r) is not SymInt:
            return r
    r.lin = f
    return r


def ext(x, w):
    """x: int or SymInt -> signed bit-vector of width w"""
    if type(x) is SymInt:
        d = w - x.w
        if d == 0:
            return x.t
        if d > 0:
            return z3.SignExt(d, x.t)
        return z3.Extract(w - 1, 0, x.t)
    return z3.BitVecVal(int(x), w)


def lohi(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    x = int(x)
    return x, x


def as_operand(o):
    """normalise an arithmetic operand to int / SymInt, or None"""
    t = type(o)
    if t is SymInt or t is int:
        return o
    if t is SymBool:
        return o.as_int()
    if t is bool:
        return int(o)
    if issubclass(t, int):
        return int(o)
    return None


def ite_int(c, a, b):
    """c: z3 Bool; a, b int/SymInt"""
    if type(a) is int and type(b) is int and a == b:
        return a
    la, ha = lohi(a)
    lb, hb = lohi(b)
    lo, hi = min(la, lb), max(ha, hb)
    w = bits_for(lo, hi)
    return mkint(z3.If(c, ext(a, w), ext(b, w)), w, lo, hi)


def _floatmod():
    from . import floats
    return floats


class SymInt:
    """Exact python integer: a signed bit-vector wide enough for its interval [lo, hi]."""
    __slots__ = ('t', 'w', 'lo', 'hi', 'cls', 'log2', 'origin', 'lin', 'src', '__weakref__')

    @property
    def __class__(self):
        return self.cls

    def with_cls(self, cls):
        r = SymInt.__new__(SymInt)
        r.t, r.w, r.lo, r.hi, r.log2, r.origin = self.t, self.w, self.lo, self.hi, self.log2, self.origin
        r.cls = cls
        r.lin = self.lin
        r.src = self.src
        return r

    def plain(self):
        return self if self.cls is int else self.with_cls(int)

    # -- attribute fallback for tagged classes (IntField subclasses, IntEnum members)
    def __getattr__(self, name):
        cls = object.__getattribute__(self, 'cls')
        if name.startswith('_sunder') or name.startswith('__array') or name in ('__sx_len__', '__deepcopy__', '__copy__'):
            raise AttributeError(name)
        import enum
        if isinstance(cls, enum.EnumMeta):
            if name in ('value', '_value_'):
                return self.plain()
            if name in ('name', '_name_'):
                v = self.__index__()
                return cls(v).name
            if any(name == m for m in cls.__members__):
                return cls[name]
        d = getattr(cls, name)        # raises AttributeError naturally
        raw = None
        for k in cls.__mro__:
            if name in k.__dict__:
                raw = k.__dict__[name]
                break
        import types
        if isinstance(raw, types.FunctionType):
            return types.MethodType(raw, self)
        if isinstance(raw, property):
            return raw.fget(self)
        if isinstance(raw, (classmethod, staticmethod)):
            return d
        if callable(d):
            raise AttributeError('symbolic int has no model for %s' % name)
        return d

    def bit_length(self):
        r = 0
        a = abs(self)
        n = max(abs(self.lo), abs(self.hi)).bit_length()
        w = bits_for(0, max(1, n))
        t = bv(0, w)
        at = ext(a, n + 1)
        for i in range(n):
            t = z3.If(z3.Extract(i, i, at) == 1, bv(i + 1, w), t)
        return mkint(t, w, 0, n)

    @property
    def real(self):
        return self.plain()

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self.plain()

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self.plain()

    def as_integer_ratio(self):
        return (self.plain(), 1)

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import seqs
        if type(length) is SymInt:
            length = length.__index__()
        if signed:
            ok = (self >= -(1 << (8 * length - 1))) if length else (self == 0)
            ok2 = (self < (1 << (8 * length - 1))) if length else True
            ok = sand(ok, ok2)
        else:
            if not (self >= 0):
                raise OverflowError("can't convert negative int to unsigned")
            ok = self < (1 << (8 * length))
        if not ok:
            raise OverflowError('int too big to convert')
        return seqs.SymBytes(seqs.int_to_items(self, length, byteorder))

    def __hash__(self):
        return SYM_HASH

    def __index__(self):
        return E.realise(self.t, '__index__')

    __int__ = __index__

    def __float__(self):
        return float(E.realise(self.t, '__float__'))

    def __bool__(self):
        r = self != 0
        return r if r is True or r is False else E.branch(r.t)

    def __repr__(self):
        return '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    # -- comparisons
    def __eq__(self, o):
        x = as_operand(o)
        if x is None:
            if isinstance(o, (float,)):
                return _floatmod().cmp('eq', self, o)
            return NotImplemented
        lo, hi = lohi(x)
        if hi < self.lo or lo > self.hi:
            return False
        if x is self:
            return True
        if type(x) is int:
            return mkbool(self.t == bv(x, self.w))
        if self.lin is not None or x.lin is not None or self.t.eq(x.t):
            f, gone = combine(affine(self), affine(x), -1)
            if gone:
                d = from_affine(f)
                return d == 0
        w = max(self.w, x.w)
        return mkbool(ext(self, w) == ext(x, w))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return snot(r)

    def _rel(self, o, op):
        x = as_operand(o)
        if x is None:
            if isinstance(o, (float,)):
                return _floatmod().cmp(op, self, o)
            return NotImplemented
        lo, hi = lohi(x)
        if op == 'lt':
            if self.hi < lo:
                return True
            if self.lo >= hi:
                return False
        elif op == 'le':
            if self.hi <= lo:
                return True
            if self.lo > hi:
                return False
        elif op == 'gt':
            if self.lo > hi:
                return True
            if self.hi <= lo:
                return False
        else:
            if self.lo >= hi:
                return True
            if self.hi < lo:
                return False
        if type(x) is SymInt and (self.lin is not None or x.lin is not None or self.t.eq(x.t)):
            f, gone = combine(affine(self), affine(x), -1)
            if gone:
                d = from_affine(f)
                return d < 0 if op == 'lt' else d <= 0 if op == 'le' else d > 0 if op == 'gt' else d >= 0
        w = max(self.w, bits_for(lo, hi))
        a, b = ext(self, w), ext(x, w)
        return mkbool(a < b if op == 'lt' else a <= b if op == 'le' else a > b if op == 'gt' else a >= b)

    def __lt__(self, o):
        return self._rel(o, 'lt')

    def __le__(self, o):
        return self._rel(o, 'le')

    def __gt__(self, o):
        return self._rel(o, 'gt')

    def __ge__(self, o):
        return self._rel(o, 'ge')

    # -- arithmetic
    def _other(self, o):
        return as_operand(o)

    def __add__(self, o):
        x = as_operand(o)
        if x is None:
            return _floatmod().arith('add', self, o) if isinstance(o, float) else NotImplemented
        if type(x) is int and x == 0:
            return self.plain()
        f, gone = combine(affine(self), affine(x), 1)
        if gone:
            return from_affine(f)
        l, h = lohi(x)
        lo, hi = self.lo + l, self.hi + h
        w = max(self.w, bits_for(l, h), bits_for(lo, hi))
        return with_affine(mkint(ext(self, w) + ext(x, w), w, lo, hi), f)

    __radd__ = __add__

    def __sub__(self, o):
        x = as_operand(o)
        if x is None:
            return _floatmod().arith('sub', self, o) if isinstance(o, float) else NotImplemented
        if type(x) is int and x == 0:
            return self.plain()
        return sub(self, x)

    def __rsub__(self, o):
        x = as_operand(o)
        if x is None:
            return _floatmod().arith('sub', o, self) if isinstance(o, float) else NotImplemented
        return sub(x, self)

    def __mul__(self, o):
        x = as_operand(o)
        if x is None:
            if isinstance(o, float):
                return _floatmod().arith('mul', self, o)
            if isinstance(o, (list, tuple, str, bytes)):
                return o * self.__index__()
            return NotImplemented
        if type(x) is int:
            if x == 0:
                return 0
            if x == 1:
                return self.plain()
            if x == -1:
                return sub(0, self)
        elif x.log2 is not None and lohi(x.log2)[0] >= 0:
            return shl(self, x.log2)
        elif self.log2 is not None and lohi(self.log2)[0] >= 0:
            return shl(x, self.log2)
        l, h = lohi(x)
        c = (self.lo * l, self.lo * h, self.hi * l, self.hi * h)
        lo, hi = min(c), max(c)
        w = max(bits_for(lo, hi), self.w, bits_for(l, h))
        if type(x) is int and x > 0 and x & (x - 1) == 0:
            r = mkint(ext(self, w) << (x.bit_length() - 1), w, lo, hi)
        else:
            r = mkint(ext(self, w) * ext(x, w), w, lo, hi)
        if self.log2 is not None and type(x) is int and x > 0 and x & (x - 1) == 0 and type(r) is SymInt:
            r.log2 = self.log2 + (x.bit_length() - 1)
        elif type(x) is int:
            c, d = affine(self)
            r = with_affine(r, (c * x, {k: (n * x, a) for k, (n, a) in d.items()}))
        return r

    __rmul__ = __mul__

    def __neg__(self):
        return sub(0, self)

    def __pos__(self):
        return self.plain()

    def __abs__(self):
        if self.lo >= 0:
            return self.plain()
        if self.hi <= 0:
            return -self
        hi = max(-self.lo, self.hi)
        w = bits_for(0, hi)
        w = max(w, self.w)
        t = ext(self, w)
        return mkint(z3.If(t < 0, -t, t), w, 0, hi)

    def __floordiv__(self, o):
        x = as_operand(o)
        if x is None:
            return _floatmod().arith('floordiv', self, o) if isinstance(o, float) else NotImplemented
        return divmod_(self, x)[0]

    def __rfloordiv__(self, o):
        x = as_operand(o)
        if x is None:
            return _floatmod().arith('floordiv', o, self) if isinstance(o, float) else NotImplemented
        return divmod_(x, self)[0]

    def __mod__(self, o):
        x = as_operand(o)
        if x is None:
            return _floatmod().arith('mod', self, o) if isinstance(o, float) else NotImplemented
        return divmod_(self, x)[1]

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return o % self.__index__()
        x = as_operand(o)
        if x is None:
            return _floatmod().arith('mod', o, self) if isinstance(o, float) else NotImplemented
        return divmod_(x, self)[1]

    def __divmod__(self, o):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        return divmod_(self, x)

    def __rdivmod__(self, o):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        return divmod_(x, self)

    def __truediv__(self, o):
        if as_operand(o) is None and not isinstance(o, float):
            return NotImplemented
        return _floatmod().arith('div', self, o)

    def __rtruediv__(self, o):
        if as_operand(o) is None and not isinstance(o, float):
            return NotImplemented
        return _floatmod().arith('div', o, self)

    def __lshift__(self, o):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        return shl(self, x)

    def __rlshift__(self, o):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        return shl(x, self)

    def __rshift__(self, o):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        return shr(self, x)

    def __rrshift__(self, o):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        return shr(x, self)

    def __and__(self, o):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        l, h = lohi(x)
        w = max(self.w, bits_for(l, h))
        if l >= 0 and self.lo >= 0:
            lo, hi = 0, min(h, self.hi)
        elif l >= 0:
            lo, hi = 0, h
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        else:
            lo, hi = -(1 << (w - 1)), max(self.hi, h, 0)
            hi = (1 << max(hi.bit_length(), 0)) - 1
        if type(x) is int and x >= 0:
            # narrow: only the low bits matter
            n = x.bit_length()
            if n == 0:
                return 0
            if x == (1 << n) - 1:
                t = z3.ZeroExt(1, z3.Extract(n - 1, 0, ext(self, max(self.w, n))))
                return mkint(t, n + 1, lo, hi)
        return mkint(ext(self, w) & ext(x, w), w, lo, hi)

    __rand__ = __and__

    def __or__(self, o):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        l, h = lohi(x)
        w = max(self.w, bits_for(l, h))
        if l >= 0 and self.lo >= 0:
            lo, hi = max(l, self.lo), (1 << max(h, self.hi).bit_length()) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mkint(ext(self, w) | ext(x, w), w, lo, hi)

    __ror__ = __or__

    def __xor__(self, o):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        l, h = lohi(x)
        w = max(self.w, bits_for(l, h))
        if l >= 0 and self.lo >= 0:
            lo, hi = 0, (1 << max(h, self.hi).bit_length()) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mkint(ext(self, w) ^ ext(x, w), w, lo, hi)

    __rxor__ = __xor__

    def __invert__(self):
        return mkint(~self.t, self.w, ~self.hi, ~self.lo)

    def __pow__(self, o, mod=None):
        x = as_operand(o)
        if x is None:
            return NotImplemented
        if type(x) is int and 0 <= x <= 8 and mod is None:
            r = 1
            for _ in range(x):
                r = self * r
            return r
        return power(self, x, mod)

    def __rpow__(self, o, mod=None):
        x = as_operand(o)
        if x is None:
            if isinstance(o, float):
                return _floatmod().fpow(o, self)
            return NotImplemented
        return power(x, self, mod)

    def __round__(self, ndigits=None):
        return self.plain()

    def __trunc__(self):
        return self.plain()

    __floor__ = __ceil__ = __trunc__

    def __reduce_ex__(self, p):
        return (int, (self.__index__(),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def sub(a, b):
    la, ha = lohi(a)
    lb, hb = lohi(b)
    lo, hi = la - hb, ha - lb
    w = max(bits_for(la, ha), bits_for(lb, hb), bits_for(lo, hi))
    f, gone = combine(affine(a), affine(b), -1)
    if gone:
        return from_affine(f)
    return with_affine(mkint(ext(a, w) - ext(b, w), w, lo, hi), f)


def shl(a, n):
    ln, hn = lohi(n)
    if type(n) is SymInt:
        if ln < 0:
            if not (n >= 0):
                raise ValueError('negative shift count')
            ln = 0
        if hn > 4096:
            n = n.__index__()
            return a << n
    elif n < 0:
        raise ValueError('negative shift count')
    la, ha = lohi(a)
    c = (la << ln, la << hn, ha << ln, ha << hn)
    lo, hi = min(c), max(c)
    w = max(bits_for(lo, hi), bits_for(la, ha), bits_for(ln, hn))
    r = mkint(ext(a, w) << (ext(n, w) if type(n) is SymInt else n), w, lo, hi)
    if type(r) is SymInt:
        if type(a) is int and a > 0 and a & (a - 1) == 0:
            r.log2 = n + (a.bit_length() - 1)
        elif type(a) is SymInt and a.log2 is not None:
            r.log2 = a.log2 + n
    return r


def shr(a, n):
    ln, hn = lohi(n)
    if type(n) is SymInt:
        if ln < 0:
            if not (n >= 0):
                raise ValueError('negative shift count')
            ln = 0
    elif n < 0:
        raise ValueError('negative shift count')
    la, ha = lohi(a)
    cap = max(bits_for(la, ha), 1)
    c = [x >> min(k, cap + 1) for x in (la, ha) for k in (ln, hn)]
    lo, hi = min(c), max(c)
    if type(n) is int:
        n = min(n, cap)
        w = bits_for(la, ha)
        return mkint(ext(a, w) >> n, w, lo, hi)
    w = max(bits_for(la, ha), bits_for(ln, hn))
    return mkint(ext(a, w) >> ext(n, w), w, lo, hi)


def multiple(a, b):
    """a as (q, rest) with a == q * b + rest where the affine form shows a multiple of b, else None"""
    f = affine(a)
    if type(b) is int:
        if b < 0 or b == 1:
            return None
        q = {k: (c // b, x) for k, (c, x) in f[1].items() if c % b == 0}
        if not q:
            return None
        rest = {k: (c, x) for k, (c, x) in f[1].items() if c % b}
        if not rest:
            return from_affine((f[0] // b, q)), f[0] % b
        if a.lin is None:
            return None
        return from_affine((0, q)), from_affine((f[0], rest))
    g = affine(b)
    if len(g[1]) == 1 and g[0] == 0:
        (k, (c, x)), = g[1].items()
        h = f[1].get(k)
        if h is None or h[0] % c:
            return None
        return h[0] // c, from_affine(combine(f, g, -(h[0] // c))[0])
    return None


def divmod_(a, b):
    """Python floor division on exact integers."""
    la, ha = lohi(a)
    lb, hb = lohi(b)
    if type(b) is int and b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if type(b) is SymInt and lb <= 0 <= hb:
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if lb == 0:
            lb = 1
        elif hb == 0:
            hb = -1
    if type(b) is SymInt and b.log2 is not None:
        q = shr(a, b.log2)
        return q, a - q * b
    if type(a) is SymInt:
        m = multiple(a, b)
        if m is not None:
            q, rest = m
            if type(rest) is int and rest == 0:
                return q, 0
            q2, r2 = divmod_(rest, b)
            return q + q2, r2
    if type(b) is int and b > 0 and b & (b - 1) == 0:
        k = b.bit_length() - 1
        return shr(a, k), (a & (b - 1))
    w = max(bits_for(la, ha), bits_for(*lohi(b))) + 1
    ta, tb = ext(a, w), ext(b, w)
    mb = max(abs(lb), abs(hb))
    ma = max(abs(la), abs(ha))
    if la >= 0 and lb > 0:
        q, r = z3.UDiv(ta, tb), z3.URem(ta, tb)
        return (mkint(q, w, la // hb, ha // lb), mkint(r, w, 0, min(hb - 1, ha)))
    if lb > 0:
        # Python's mod has the sign of the divisor
        r = ta % tb                          # smod: sign follows divisor
        q = (ta - r) / tb                    # exact signed division
        return (mkint(q, w, min(la // lb, la // hb), max(ha // lb, ha // hb)), mkint(r, w, 0, hb - 1))
    r = ta % tb
    q = (ta - r) / tb
    rlo = -(mb - 1) if lb < 0 else 0
    rhi = (mb - 1) if hb > 0 else 0
    return (mkint(q, w, -ma - 1, ma + 1), mkint(r, w, rlo, rhi))


def power(a, n, mod=None):
    if mod is not None:
        a = a.__index__() if type(a) is SymInt else a
        n = n.__index__() if type(n) is SymInt else n
        mod = mod.__index__() if type(mod) is SymInt else mod
        return pow(a, n, mod)
    ln, hn = lohi(n)
    if type(a) is int and a > 0 and a & (a - 1) == 0:
        k = a.bit_length() - 1
        if ln < 0:
            if n < 0:
                return _floatmod().pow2(n * k)
            if hn < 0:
                return 1
        e = n * k
        if type(e) is SymInt and e.lo < 0:
            e = mkint(e.t, e.w, e.lo, e.hi)
        if lohi(e)[0] < 0:
            e = clamp_low(e, 0)
        return shl(1, e)
    if type(n) is SymInt:
        n = n.__index__()
        return pow(a, n)
    # symbolic base, concrete exponent
    if n < 0:
        return 1 / pow(a, -n)
    r = 1
    base = a
    while n:
        if n & 1:
            r = base * r
        n >>= 1
        if n:
            base = base * base
    return r


def clamp_low(x, lo):
    """Re-type x with a tighter lower bound that the path condition already implies."""
    if type(x) is not SymInt:
        return x
    r = SymInt.__new__(SymInt)
    n = max(bits_for(lo, x.hi), 1)
    r.t = z3.Extract(n - 1, 0, x.t) if n < x.w else x.t
    E.facts[r.t.get_id()] = (r.t, lo, x.hi)
    r.w = min(n, x.w)
    r.lo, r.hi, r.cls, r.log2, r.origin = lo, x.hi, int, None, None
    r.lin = affine(x)
    return r


def tighten(x, lo, hi):
    """Re-type x with bounds the path condition already implies."""
    lo, hi = max(lo, x.lo), min(hi, x.hi)
    if lo >= hi:
        return lo if lo == hi else x
    r = mkint(x.t, x.w, lo, hi)
    if type(r) is SymInt:
        r.lin = affine(x)
    return r
