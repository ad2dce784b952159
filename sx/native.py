"""Concrete side of the harness API and the replay entry point.  Runs on the unmodified /repo code; imports no solver."""
import io
import json
import os
import struct
import sys
import traceback


class Violation(Exception):
    pass


class AssumeFailed(Exception):
    pass


class Inputs(dict):
    """inputs of an undecided path may stop short of what the concrete run asks for: such a run says nothing"""
    def __missing__(self, name):
        raise AssumeFailed('input %s not given' % name)


class Native:
    """Harness handle reading concrete input values."""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = Inputs(inputs)
        self.observed = []
        self.checks = []

    def int(self, name, lo, hi):
        v = int(self.inputs[name])
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def choose(self, name, n):
        return self.int(name, 0, n - 1)

    def bool(self, name):
        return bool(self.inputs[name])

    def bytes(self, name, n):
        b = bytes.fromhex(self.inputs[name])
        assert len(b) == n
        return b

    def float(self, name):
        return struct.unpack('>d', bytes.fromhex(self.inputs[name]))[0]

    def float32(self, name):
        return struct.unpack('>f', bytes.fromhex(self.inputs[name]))[0]

    def text(self, name, n, codec='ascii', lo=0, hi=None):
        return ''.join(map(chr, self.inputs[name]))

    def file(self, data, length=None, name=None):
        b = bytes(data)
        f = io.BytesIO(b if length is None else b[:length])
        if name is not None:
            f.name = name
        return f

    def array_file(self, name, length, addr_bits=32, parts=(), path=None):
        runs = self.inputs[name]
        buf = bytearray([runs['default']]) * int(length)
        for k, v in runs['values'].items():
            k = int(k)
            if 0 <= k < len(buf):
                buf[k] = v
        f = io.BytesIO(bytes(buf))
        if path is not None:
            f.name = path
        return f

    def array_byte(self, f, pos):
        b = f.getvalue()
        return b[pos] if 0 <= pos < len(b) else 0

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        self.checks.append(msg)
        if not c:
            raise Violation(msg)

    def check_all(self, conds, msg):
        self.check(all(conds), msg)

    def fail(self, msg):
        self.check(False, msg)

    def observe(self, name, value):
        self.observed.append([name, canon(value)])

    def both(self, *cs):
        return all(cs)

    def either(self, *cs):
        return any(cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def f64bits(self, x):
        return struct.unpack('>Q', struct.pack('>d', x))[0]

    def stub(self, f, g):
        raise NotImplementedError

    def pickled(self, x):
        import pickle
        return pickle.loads(pickle.dumps(x))

    def folder(self):
        import atexit
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix='sx-')
        atexit.register(shutil.rmtree, d, True)
        return d

    def put(self, path, data):
        with open(path, 'wb') as f:
            f.write(data)

    def opaque(self):
        pass

    def arrays(self):
        pass

    def cells(self, a):
        return cells(a)

    def single(self, x):
        import numpy
        with numpy.errstate(all='ignore'):
            return float(numpy.float32(float(x)))

    def realise(self, x):
        return x


def cells(a):
    import numpy
    return tuple(a.shape), str(a.dtype), numpy.ma.isMaskedArray(a), a.tolist()


def canon(v):
    """JSON-able canonical form of an observed value."""
    import enum
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, bool):
        return v
    if isinstance(v, enum.Enum) and not isinstance(v, int):
        return ['enum', v.name]
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        if v != v:
            return ['f', 'nan']
        return ['f', struct.pack('>d', v).hex()]
    if isinstance(v, (bytes, bytearray)):
        return ['b', bytes(v).hex()]
    if isinstance(v, dict):
        return ['d', [[canon(k), canon(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple, range)) or hasattr(v, '__iter__'):
        return ['l', [canon(x) for x in v]]
    return ['o', type(v).__name__]


def load(modname):
    import importlib
    return importlib.import_module('checks.' + modname)


def run_one(mod, fn, params, inputs):
    h = Native(inputs)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            getattr(mod, fn)(h, **params)
        return {'outcome': 'ok', 'observed': h.observed, 'checks': len(h.checks)}
    except Violation as e:
        return {'outcome': 'violation', 'message': str(e), 'observed': h.observed}
    except AssumeFailed as e:
        return {'outcome': 'assume', 'observed': h.observed}
    except Exception as e:
        return {'outcome': 'exception', 'message': '%s: %s' % (type(e).__name__, e), 'type': type(e).__name__,
                'observed': h.observed, 'trace': traceback.format_exc()[-3000:]}


def main():
    """stdin: JSON list of {module, fn, params, inputs}; stdout: JSON list of outcomes."""
    if len(sys.argv) > 1:
        with open(sys.argv[1]) as f:
            rec = json.load(f)
        r = run_one(load(rec['module']), rec['fn'], rec['params'], rec['inputs'])
        print(json.dumps({k: v for k, v in r.items() if k != 'trace'}, indent=1))
        print(r.get('trace', ''))
        sys.exit(1 if r['outcome'] in ('violation', 'exception') else 0)
    recs = json.load(sys.stdin)
    out = []
    for rec in recs:
        out.append(run_one(load(rec['module']), rec['fn'], rec['params'], rec['inputs']))
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
