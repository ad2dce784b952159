"""Symbolic side of the harness API: declares inputs, discharges checks, extracts counterexamples and witnesses."""
import enum
import math
import os
import struct
import time
import traceback
import z3
from . import core, disk, floats, models, native, seqs
from .core import (SymInt, SymBool, mkint, mkbool, bv, sand, sor, snot, bt, PathAbort, Inconclusive, Stop, SxSignal, ext)
from .floats import SymFloat
from .seqs import SymBytes, SymStr, SymArray, SymRange, SymFile, SymChar


class CheckFailed(SxSignal):
    pass


class Sym:
    symbolic = True

    def __init__(self, eng, job):
        self.e = eng
        self.job = job
        self.decls = {}
        self.observed = []
        self.nchecks = 0

    # -- inputs
    def _decl(self, name, kind, val):
        assert name not in self.decls, 'input %s declared twice' % name
        self.decls[name] = (kind, val)
        return val

    def int(self, name, lo, hi):
        if lo == hi:
            self.decls[name] = ('int', lo)
            return lo
        w = core.bits_for(lo, hi)
        t = self.e.bvvar(name, w)
        v = mkint(t, w, lo, hi)
        self.e.add(t >= lo)
        self.e.add(t <= hi)
        self.e.model = None
        return self._decl(name, 'int', v)

    def choose(self, name, n):
        v = self.int(name, 0, n - 1)
        return v if type(v) is int else v.__index__()

    def bool(self, name):
        v = mkint(z3.ZeroExt(1, self.e.bvvar(name, 1)), 2, 0, 1)
        self._decl(name, 'bool', v)
        return v == 1

    def bytes(self, name, n):
        items = [mkint(z3.ZeroExt(1, self.e.bvvar('%s[%d]' % (name, i), 8)), 9, 0, 255) for i in range(n)]
        self._decl(name, 'bytes', items)
        return seqs.mk_bytes(items) if n else b''

    def float(self, name):
        f = floats.from_bits(self.e.bvvar(name, 64))
        self._decl(name, 'float', f)
        return f

    def float32(self, name):
        t = self.e.bvvar(name, 32)
        self._decl(name, 'float32', t)
        return floats.from_f32_bits(t)

    def text(self, name, n, codec='ascii', lo=0, hi=None):
        """n characters encodable in `codec` ('unicode': any code point lo..hi)"""
        if codec == 'unicode':
            chars = []
            hi = 0x10ffff if hi is None else hi
            for i in range(n):
                w = core.bits_for(lo, hi)
                t = self.e.bvvar('%s[%d]' % (name, i), w)
                self.e.add(t >= lo)
                self.e.add(t <= hi)
                if hi >= 0xd800 and lo <= 0xdfff:
                    self.e.add(z3.Or(t < 0xd800, t > 0xdfff))
                chars.append(mkint(t, w, lo, hi))
            self.e.model = None
        elif codec == 'ascii':
            chars = [mkint(z3.ZeroExt(1, self.e.bvvar('%s[%d]' % (name, i), 7)), 8, 0, 127) for i in range(n)]
            if lo > 0 or hi is not None:
                for c in chars:
                    self.e.assume(sand(c >= lo, c <= (127 if hi is None else hi)))
        else:
            dec, _ = seqs.table(codec)
            chars = [SymChar(codec, mkint(z3.ZeroExt(1, self.e.bvvar('%s[%d]' % (name, i), 8)), 9, 0, 255)) for i in range(n)]
        self._decl(name, 'text', chars)
        return seqs.mk_str(chars) if n else ''

    def file(self, data, length=None, name=None):
        items = seqs.bytes_items(data)
        return SymFile(items, length=length, name=name)

    def array_file(self, name, length, addr_bits=32, parts=(), path=None):
        """a file of any content; parts: (position, bytes) known to be there"""
        arr = z3.Array(name, z3.BitVecSort(addr_bits), z3.BitVecSort(8))
        parts = [(p, seqs.bytes_items(b)) for p, b in parts]
        f = SymFile(arr=arr, length=length, addr_bits=addr_bits, overlay=parts, name=path)
        self._decl(name, 'array', (arr, length, addr_bits, parts))
        return f

    def array_byte(self, f, pos):
        return f._item(pos)

    # -- logic helpers
    def both(self, *cs):
        return sand(*[models.truth_value(c) for c in cs])

    def either(self, *cs):
        return sor(*[models.truth_value(c) for c in cs])

    def implies(self, a, b):
        return sor(snot(models.truth_value(a)), models.truth_value(b))

    def ite(self, c, a, b):
        c = models.truth_value(c)
        if type(c) is bool:
            return a if c else b
        return core.ite_int(c.t, a, b)

    def f64bits(self, x):
        t = floats.bits_of(x)
        return mkint(z3.ZeroExt(1, t), 65, 0, (1 << 64) - 1)

    def pickled(self, x):
        """x after pickling and unpickling: the object protocol is followed without the byte stream in between"""
        func, args, *rest = x.__reduce_ex__(2)
        y = func(*args)
        if rest and rest[0] is not None:
            if hasattr(y, '__setstate__'):
                y.__setstate__(rest[0])
            else:
                y.__dict__.update(rest[0])
        return y

    # -- files on a disk
    def folder(self):
        """an empty folder, removed after the run"""
        disk.install()
        return disk.folder()

    def put(self, path, data):
        """write a file; its content may be symbolic"""
        items = seqs.bytes_items(data)
        if all(type(v) is int for v in items):
            disk.CONTENTS.pop(os.path.realpath(path), None)
            with open(path, 'wb') as f:
                f.write(bytes(items))
        else:
            disk.put(path, items)

    # -- floats
    def opaque(self):
        """from here on division, remainders, powers and rounding to digits of floats are uninterpreted functions of the operands: what holds for
        any such functions holds for the real ones. Path witnesses are not replayed, for they depend on the functions"""
        floats.OPAQUE[0] = True

    # -- arrays
    def arrays(self):
        """numpy arrays may hold symbolic values from here on"""
        from . import arrays
        arrays.install()

    def cells(self, a):
        """(shape, element type, masked?, nested list of the cells; None for a masked one)"""
        from . import arrays
        if not isinstance(a, arrays.Arr):
            return native.cells(a)
        return tuple(a.shape), str(a.dtype), a.m is not None, arrays.cells(a)

    def single(self, x):
        """the single precision number nearest to x"""
        import numpy
        from . import arrays
        return arrays.convert(numpy.dtype('f4'), x)

    def realise(self, x):
        if type(x) is SymInt:
            return x.__index__()
        return x

    def assume(self, c):
        c = models.truth_value(c)
        if type(c) is bool:
            if not c:
                raise PathAbort('assume')
            return
        self.e.assume(c)
        # keep the invariant that the path condition is satisfiable
        self.e.get_model()

    # -- checks
    def check(self, c, msg):
        self.nchecks += 1
        job = self.job
        job['reached'][msg] = job['reached'].get(msg, 0) + 1
        v = models.truth_value(c)
        if type(v) is bool:
            if v:
                job['trivial'] += 1
                return
            self._violate(self.e.get_model(), msg)
        t = z3.simplify(v.t)
        if z3.is_true(t):
            job['trivial'] += 1
            return
        r, m = self.e.check(z3.Not(t), z3.Not(v.t))
        if r == 'unsat':
            job['discharged'] += 1
            return
        if r == 'unknown':
            self.e.note_inconclusive('solver unknown: ' + msg)
            raise Inconclusive('solver unknown on: ' + msg)
        self._violate(m, msg)

    def check_all(self, conds, msg):
        self.check(sand(*[models.truth_value(c) for c in conds]), msg)

    def fail(self, msg):
        self.check(False, msg)

    def _violate(self, m, msg):
        self.job['candidates'].append({'message': msg, 'inputs': self.inputs_from(m)})
        raise CheckFailed(msg)

    def observe(self, name, value):
        self.observed.append((name, value))

    # -- model evaluation
    def inputs_from(self, m):
        out = {}
        for name, (kind, val) in self.decls.items():
            if kind == 'int':
                out[name] = val if type(val) is int else ev_int(m, val)
            elif kind == 'bool':
                out[name] = ev_int(m, val)
            elif kind == 'bytes':
                out[name] = bytes(ev_int(m, x) for x in val).hex()
            elif kind == 'float':
                out[name] = '%016x' % ev_bv(m, val.bits())
            elif kind == 'float32':
                out[name] = '%08x' % ev_bv(m, val)
            elif kind == 'text':
                out[name] = [seqs.table(c.codec)[0][ev_int(m, c.byte)] if type(c) is SymChar else ev_int(m, c) for c in val]
            elif kind == 'array':
                out[name] = ev_array(m, val)
        return out

    def observed_from(self, m):
        return [[n, canon(m, v)] for n, v in self.observed]


def ev_bv(m, t):
    return m.eval(t, model_completion=True).as_long()


def ev_int(m, x):
    if type(x) is SymInt:
        v = m.eval(x.t, model_completion=True)
        return v.as_signed_long()
    return int(x)


def ev_array(m, val):
    arr, length, bits, parts = val
    a = m.eval(arr, model_completion=True)
    vals, default = {}, 0
    while z3.is_store(a):
        k = a.arg(1).as_long()
        vals.setdefault(str(k), a.arg(2).as_long())
        a = a.arg(0)
    if z3.is_const_array(a):
        default = a.arg(0).as_long()
    for p, items in reversed(parts):
        p = ev_int(m, p)
        for i, x in enumerate(items):
            vals[str(p + i)] = ev_int(m, x)
    return {'default': default, 'values': vals}


def canon(m, v):
    t = type(v)
    if v is None or t is str or t is bool:
        return v
    if t is SymBool:
        return z3.is_true(m.eval(v.t, model_completion=True))
    if t is SymInt:
        if isinstance(v.cls, enum.EnumMeta) and not issubclass(v.cls, int):
            return ['enum', v.cls(ev_int(m, v)).name]
        return ev_int(m, v)
    if t is SymFloat:
        b = ev_bv(m, v.bits())
        f = struct.unpack('>d', b.to_bytes(8, 'big'))[0]
        return ['f', 'nan'] if f != f else ['f', struct.pack('>d', f).hex()]
    if t is SymBytes:
        n = v.n if v.n is not None else len(v.items)
        n = ev_int(m, n) if type(n) is SymInt else n
        return ['b', bytes(ev_int(m, x) for x in v.items[:n]).hex()]
    if t is SymStr:
        return ''.join(chr(seqs.table(c.codec)[0][ev_int(m, c.byte)] if type(c) is SymChar else ev_int(m, c)) for c in v.chars)
    if t is SymRange:
        r = range(*[ev_int(m, x) for x in (v.start, v.stop, v.step)])
        return ['l', list(r)]
    if isinstance(v, enum.Enum) and not isinstance(v, int):
        return ['enum', v.name]
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return ['f', 'nan'] if v != v else ['f', struct.pack('>d', v).hex()]
    if isinstance(v, (bytes, bytearray)):
        return ['b', bytes(v).hex()]
    if isinstance(v, dict):
        return ['d', [[canon(m, k), canon(m, x)] for k, x in v.items()]]
    if t is SymArray:
        return ['l', [canon(m, x) for x in v]]
    if isinstance(v, (list, tuple, range)) or hasattr(v, '__iter__'):
        return ['l', [canon(m, x) for x in v]]
    return ['o', type(v).__name__]


def run_job(mod, spec, deadline, max_witness, seed, quiet=True, stop_after=6):
    """Explore every path of one harness job; returns a JSON-able result."""
    t0 = time.time()
    fn = getattr(mod, spec['fn'])
    eng = core.Engine(deadline=deadline, query_timeout_ms=spec.get('query_timeout_ms', 60000))
    core.set_engine(eng)
    job = {'name': spec['name'], 'reached': {}, 'trivial': 0, 'discharged': 0, 'candidates': []}
    witnesses, suspects = [], []
    stopped = None
    import warnings
    warnings.simplefilter('ignore')
    maxdepth = 0
    while eng.pending:
        if len(job['candidates']) >= stop_after:
            stopped = 'stopped after %d counterexamples' % stop_after
            break
        prefix = eng.pending.pop()
        eng.start_path(prefix)
        disk.reset()
        floats.OPAQUE[0] = False
        del floats.APPLICATIONS[:]
        h = Sym(eng, job)
        eng.paths += 1
        status = 'ok'
        try:
            fn(h, **spec['params'])
        except CheckFailed:
            status = 'violated'
        except PathAbort:
            status = 'aborted'
            eng.aborted_paths += 1
        except Inconclusive as e:
            eng.note_inconclusive(str(e))
            status = 'inconclusive'
        except Stop as e:
            stopped = str(e)
            break
        except RecursionError as e:
            eng.note_inconclusive('recursion limit')
            status = 'inconclusive'
        except Exception as e:
            status = 'exception'
            tb = traceback.format_exc()
            try:
                m = eng.get_model()
                job['candidates'].append({'message': 'unexpected %s: %s' % (type(e).__name__, str(e)[:200]),
                                          'inputs': h.inputs_from(m), 'trace': tb[-2500:]})
            except Stop as e2:
                stopped = str(e2)
                break
            except SxSignal:
                eng.note_inconclusive('exception %s on a path without a model' % type(e).__name__)
        maxdepth = max(maxdepth, len(eng.trail))
        try:
            if status == 'ok' and len(witnesses) < max_witness and not floats.OPAQUE[0]:
                m = eng.get_model()
                witnesses.append({'inputs': h.inputs_from(m), 'observed': h.observed_from(m), 'checks': h.nchecks})
            elif status == 'inconclusive' and len(suspects) < 40:
                m = eng.get_model()
                suspects.append({'inputs': h.inputs_from(m)})
        except Stop as e:
            stopped = str(e)
            break
        except SxSignal:
            pass
        except Exception as e:
            eng.note_inconclusive('witness extraction: %s' % e)
        eng.over = True
    disk.reset()
    unexplored = len(eng.pending)
    job.update(paths=eng.paths, aborted=eng.aborted_paths, transitions=eng.transitions, queries=eng.queries,
               solver_s=round(eng.query_time, 3), verdicts=eng.query_hist, realisations=eng.realisations,
               inconclusive=eng.inconclusive, witnesses=witnesses, suspects=suspects, unexplored=unexplored,
               stopped=stopped, wall_s=round(time.time() - t0, 3), max_depth=maxdepth)
    return job
