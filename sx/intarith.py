"""Integer-arithmetic reading of bit-vector path conditions.

The engine's integers are exact: every operation is given enough bits not to wrap.  Queries with products and
quotients of symbolic numbers, hopeless when bit-blasted, can therefore be read back as integer arithmetic.  The translation
recovers value intervals bottom-up (plus the bounds the engine recorded where it narrowed a term) and refuses any node whose
value might wrap, so a translated constraint is equivalent to the original.  Constraints that do not translate are dropped:
'unsat' stays sound, and a model is used only after the bit-vector solver has accepted it."""
import z3

Z = z3


class No(Exception):
    pass


def half(w):
    return 1 << (w - 1)




class Tr:
    def __init__(self, facts):
        self.facts = facts
        self.cache = {}
        self.bcache = {}
        self.vars = {}
        self.side = []
        self.keep = []
        self.nonlinear = False

    # -- bit-vector terms: (Int term or python int, lo, hi), signed reading
    def bv(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._bv(t)
            f = self.facts.get(k)
            if f is not None:
                lo, hi = max(r[1], f[-2]), min(r[2], f[-1])
                if lo <= hi:
                    r = (r[0], lo, hi)
            self.cache[k] = r
            self.keep.append(t)
        return r

    def fit(self, v, lo, hi, w):
        if lo < -half(w) or hi >= half(w):
            raise No()
        return v, lo, hi

    def unsigned(self, t):
        v, lo, hi = self.bv(t)
        if lo >= 0:
            return v, lo, hi
        w = t.size()
        if hi < 0:
            return v + (1 << w), lo + (1 << w), hi + (1 << w)
        return Z.If(v < 0, v + (1 << w), v), 0, (1 << w) - 1

    def signed(self, v, lo, hi, w):
        """the signed w-bit reading of an unsigned value"""
        if hi < half(w):
            return v, lo, hi
        if lo >= half(w):
            return v - (1 << w), lo - (1 << w), hi - (1 << w)
        return Z.If(v >= half(w), v - (1 << w), v), -half(w), half(w) - 1

    def mul(self, a, b):
        if not isinstance(a[0], int) and not isinstance(b[0], int):
            self.nonlinear = True
        ps = [x * y for x in a[1:] for y in b[1:]]
        return a[0] * b[0], min(ps), max(ps)

    def value_of(self, c):
        """truth of a condition in the current case; asks for a case split while that is affordable"""
        n = True
        while c.decl().kind() == Z.Z3_OP_NOT:
            c, n = c.children()[0], not n
        v = self.assign.get(c.get_id())
        if v is not None:
            return v == n
        if self.split:
            self.boolean(c)                     # must translate
            raise Split(c.get_id(), c)
        return None

    def condition(self, c):
        if isinstance(c, tuple):
            return self.i(self.bv(c[1])[0]) > 0
        return self.boolean(c)

    def sign(self, t, b):
        """a divisor of unknown sign"""
        if b[1] < 0 < b[2]:
            k = ('pos', t.get_id())
            v = self.assign.get(k)
            if v is True:
                return b[0], 1, b[2]
            if v is False:
                return b[0], b[1], -1
            if self.split:
                raise Split(k, ('pos', t))
        return self.nonzero(b)

    def div(self, a, b):
        """floor division and modulo; the divisor may not be zero where this matters"""
        if not isinstance(b[0], int):
            self.nonlinear = True
        av, bv_ = self.i(a[0]), self.i(b[0])
        if b[1] > 0:
            return av / bv_, av % bv_
        if b[2] < 0:
            return (-av) / (-bv_), -((-av) % (-bv_))
        return Z.If(bv_ > 0, av / bv_, (-av) / (-bv_)), Z.If(bv_ > 0, av % bv_, -((-av) % (-bv_)))

    def i(self, v):
        return Z.IntVal(v) if isinstance(v, int) else v

    def _bv(self, t):
        w = t.size()
        if Z.is_bv_value(t):
            n = t.as_signed_long()
            return n, n, n
        k = t.decl().kind()
        ch = t.children()
        if k == Z.Z3_OP_UNINTERPRETED:
            if ch:
                raise No()
            v = Z.Int('i!' + t.decl().name() + '!%d' % w)
            self.vars[t.get_id()] = (t, v)
            lo, hi = -half(w), half(w) - 1
            self.side += [v >= lo, v <= hi]
            return v, lo, hi
        if k == Z.Z3_OP_BADD:
            v, lo, hi = self.bv(ch[0])
            for c in ch[1:]:
                x = self.bv(c)
                v, lo, hi = v + x[0], lo + x[1], hi + x[2]
            return self.narrow(t, v, lo, hi, w)
        if k == Z.Z3_OP_BSUB:
            a, b = self.bv(ch[0]), self.bv(ch[1])
            return self.narrow(t, a[0] - b[0], a[1] - b[2], a[2] - b[1], w)
        if k == Z.Z3_OP_BNEG:
            a = self.bv(ch[0])
            return self.narrow(t, -a[0], -a[2], -a[1], w)
        if k == Z.Z3_OP_BMUL:
            r = self.bv(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.bv(c))
            return self.narrow(t, *r, w)
        if k == Z.Z3_OP_SIGN_EXT:
            return self.bv(ch[0])
        if k == Z.Z3_OP_ZERO_EXT:
            return self.unsigned(ch[0])
        if k == Z.Z3_OP_CONCAT:
            v, lo, hi = self.unsigned(ch[0])
            for c in ch[1:]:
                x = self.unsigned(c)
                n = c.size()
                v, lo, hi = v * (1 << n) + x[0], (lo << n) + x[1], (hi << n) + x[2]
            return self.signed(v, lo, hi, w)
        if k == Z.Z3_OP_EXTRACT:
            top, low = t.params()
            a = self.bv(ch[0])
            if low == 0:
                f = self.facts.get(t.get_id())
                if f is not None:
                    return a[0], max(a[1], f[-2]), min(a[2], f[-1])
                if a[1] >= -half(w) and a[2] < half(w):
                    return a
            if isinstance(a[0], int):
                n = (a[0] >> low) & ((1 << w) - 1)
                n = n - (1 << w) if n >= half(w) else n
                return n, n, n
            u = self.unsigned(ch[0])
            v = (u[0] / (1 << low)) if low else u[0]
            if top < ch[0].size() - 1:
                v = v % (1 << w)
            return self.signed(v, 0, (1 << w) - 1, w)
        if k == Z.Z3_OP_ITE:
            v = self.value_of(ch[0])
            if v is not None:
                return self.bv(ch[1] if v else ch[2])
            c = self.boolean(ch[0])
            a, b = self.bv(ch[1]), self.bv(ch[2])
            return Z.If(c, self.i(a[0]), self.i(b[0])), min(a[1], b[1]), max(a[2], b[2])
        if k in (Z.Z3_OP_BSMOD, Z.Z3_OP_BSMOD_I):
            a, b = self.bv(ch[0]), self.bv(ch[1])
            b = self.sign(ch[1], b)
            m = max(abs(b[1]), abs(b[2]))
            return self.div(a, b)[1], (-(m - 1) if b[1] < 0 else 0), (m - 1 if b[2] > 0 else 0)
        if k in (Z.Z3_OP_BSDIV, Z.Z3_OP_BSDIV_I):
            a, b = self.bv(ch[0]), self.bv(ch[1])
            b = self.sign(ch[1], b)
            n = ch[0]
            m = max(abs(a[1]), abs(a[2]))
            if n.decl().kind() == Z.Z3_OP_BSUB and n.children()[1].decl().kind() in (Z.Z3_OP_BSMOD, Z.Z3_OP_BSMOD_I):
                x, r = n.children()
                if r.children()[0].eq(x) and r.children()[1].eq(ch[1]):
                    q = self.div(self.bv(x), b)[0]       # (x - x mod b) / b is floor(x / b)
                    return self.fit(q, -m - 1, m + 1, w)
            if a[1] >= 0 and b[1] > 0:
                return self.div(a, b)[0], 0, a[2]
            q = self.div((Z.If(a[0] < 0, -a[0], a[0]), 0, m), b)[0]
            return self.fit(Z.If(a[0] < 0, -q, q), -m, m, w)
        if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I, Z.Z3_OP_BUREM, Z.Z3_OP_BUREM_I):
            a, b = self.unsigned(ch[0]), self.nonzero(self.unsigned(ch[1]))
            q, r = self.div(a, b)
            if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I):
                return self.signed(q, 0, a[2], w)
            return self.signed(r, 0, min(a[2], b[2] - 1), w)
        if k == Z.Z3_OP_BSHL and Z.is_bv_value(ch[1]):
            n = ch[1].as_long()
            a = self.bv(ch[0])
            return self.narrow(t, a[0] * (1 << n), a[1] << n, a[2] << n, w)
        if k == Z.Z3_OP_BASHR and Z.is_bv_value(ch[1]):
            n = ch[1].as_long()
            a = self.bv(ch[0])
            return self.i(a[0]) / (1 << n), a[1] >> n, a[2] >> n
        if k == Z.Z3_OP_BLSHR and Z.is_bv_value(ch[1]):
            n = ch[1].as_long()
            a = self.unsigned(ch[0])
            return self.signed(self.i(a[0]) / (1 << n), a[1] >> n, a[2] >> n, w)
        raise No()

    def narrow(self, t, v, lo, hi, w):
        if lo < -half(w) or hi >= half(w):
            raise No()
        return v, lo, hi

    def nonzero(self, b):
        if b[1] == 0 and b[2] > 0:
            return b[0], 1, b[2]                  # the engine divides only where the path excludes zero ...
        if b[2] == 0 and b[1] < 0:
            return b[0], b[1], -1
        return b                                  # (and a quotient by zero is left uninterpreted)

    # -- booleans
    def boolean(self, t):
        k = t.get_id()
        r = self.bcache.get(k)
        if r is None:
            r = self.bcache[k] = self._bool(t)
            self.keep.append(t)
        return r

    def _bool(self, t):
        if Z.is_true(t) or Z.is_false(t):
            return t
        k = t.decl().kind()
        ch = t.children()
        if k == Z.Z3_OP_UNINTERPRETED and not ch:
            self.vars[t.get_id()] = (t, t)
            return t
        if k == Z.Z3_OP_NOT:
            return Z.Not(self.boolean(ch[0]))
        if k == Z.Z3_OP_AND:
            return Z.And([self.boolean(c) for c in ch])
        if k == Z.Z3_OP_OR:
            return Z.Or([self.boolean(c) for c in ch])
        if k == Z.Z3_OP_XOR:
            return Z.Xor(self.boolean(ch[0]), self.boolean(ch[1]))
        if k == Z.Z3_OP_IMPLIES:
            return Z.Implies(self.boolean(ch[0]), self.boolean(ch[1]))
        if k == Z.Z3_OP_ITE:
            return Z.If(*[self.boolean(c) for c in ch])
        if k in (Z.Z3_OP_EQ, Z.Z3_OP_IFF):
            if Z.is_bool(ch[0]):
                return self.boolean(ch[0]) == self.boolean(ch[1])
            if Z.is_bv(ch[0]):
                return self.i(self.bv(ch[0])[0]) == self.i(self.bv(ch[1])[0])
            raise No()
        if k == Z.Z3_OP_DISTINCT:
            if Z.is_bv(ch[0]):
                return Z.Distinct([self.i(self.bv(c)[0]) for c in ch])
            raise No()
        rd = {Z.Z3_OP_SLEQ: (self.bv, 'le'), Z.Z3_OP_SLT: (self.bv, 'lt'), Z.Z3_OP_SGEQ: (self.bv, 'ge'), Z.Z3_OP_SGT: (self.bv, 'gt'),
              Z.Z3_OP_ULEQ: (self.unsigned, 'le'), Z.Z3_OP_ULT: (self.unsigned, 'lt'), Z.Z3_OP_UGEQ: (self.unsigned, 'ge'),
              Z.Z3_OP_UGT: (self.unsigned, 'gt')}.get(k)
        if rd is None:
            raise No()
        a, b = self.i(rd[0](ch[0])[0]), self.i(rd[0](ch[1])[0])
        return {'le': a <= b, 'lt': a < b, 'ge': a >= b, 'gt': a > b}[rd[1]]


NONLIN = {z3.Z3_OP_BMUL, z3.Z3_OP_BSMOD, z3.Z3_OP_BSMOD_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I,
          z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I}


MAX_CASES = 48


class Split(Exception):
    def __init__(self, key, cond):
        self.key, self.cond = key, cond


def decide(pc, extra, facts, timeout_ms):
    """-> ('sat', pins) / ('unsat', None) / ('unknown', None) / (None, None) when nothing nonlinear is there to translate"""
    import time
    known = {}
    for c in pc:
        note(c, True, known)
    if extra is not None:
        note(extra, True, known)
    todo = [[]]
    cases = 0
    end = time.time() + timeout_ms / 1000
    unknown = False
    while todo:
        picks = todo.pop()                      # [(key, condition as z3 Bool over bit-vectors or ints, value)]
        tr = Tr(facts)
        tr.split = len(picks) < 5 and cases + len(todo) < MAX_CASES
        tr.assign = dict(known)
        tr.assign.update({k: v for k, _, v in picks})
        cs = []
        try:
            for c in pc:
                try:
                    cs.append(tr.boolean(c))
                except No:
                    pass
            if extra is not None:
                cs.append(tr.boolean(extra))
            for k, c, v in picks:
                b = tr.condition(c)
                cs.append(b if v else z3.Not(b))
        except No:
            return None, None
        except Split as s:
            todo.append(picks + [(s.key, s.cond, False)])
            todo.append(picks + [(s.key, s.cond, True)])
            continue
        if not tr.nonlinear and not picks:
            return None, None
        cases += 1
        s = z3.Solver()
        left = int((end - time.time()) * 1000)
        if left < 50:
            return 'unknown', None
        s.set('timeout', left)
        s.add(cs)
        s.add(tr.side)
        r = s.check()
        if r == z3.unsat:
            continue
        if r == z3.unknown:
            unknown = True
            return 'unknown', None
        m = s.model()
        pins = []
        for t, v in tr.vars.values():
            x = m.eval(v, model_completion=True)
            if z3.is_bv(t):
                pins.append(t == z3.BitVecVal(x.as_long(), t.size()))
            else:
                pins.append(t == x)
        return 'sat', pins
    return ('unknown' if unknown else 'unsat'), None


def note(c, v, known):
    """conditions the path condition states outright"""
    while c.decl().kind() == z3.Z3_OP_NOT:
        c, v = c.children()[0], not v
    known[c.get_id()] = v
    if v and c.decl().kind() == z3.Z3_OP_AND or not v and c.decl().kind() == z3.Z3_OP_OR:
        for d in c.children():
            note(d, v, known)
