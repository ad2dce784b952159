"""Arrays: numpy's shapes, indexing and broadcasting over cells that may be symbolic.  The cells of an Arr live in a real
numpy array of objects, so positions and shapes obey the library itself; values are converted to the element type on the way in."""
import numpy as np
from . import core, floats, models
from .core import Inconclusive

NONE = object()


def convert(dtype, v):
    """the value a cell of this element type holds after v is assigned to it"""
    if isinstance(v, np.generic):
        v = v.item()
    if dtype.kind == 'f':
        x = models.MODELS[float](v)
        if dtype.itemsize == 8:
            return x
        if dtype.itemsize != 4:
            raise Inconclusive('array of ' + str(dtype))
        if type(x) is float:
            with np.errstate(all='ignore'):
                return float(np.float32(x))
        t, over = floats.to_f32_bits(x)
        return floats.from_f32_bits(t)
    if dtype.kind in 'iu':
        if type(v) in (float, floats.SymFloat):
            if type(v) is float:
                return int(np.array([v]).astype(dtype)[0])
            raise Inconclusive('a symbolic float put in an array of integers')
        x = models.MODELS[int](v)
        info = np.iinfo(dtype)
        if not models.truth(core.sand(x >= int(info.min), x <= int(info.max))):
            raise OverflowError('Python integer out of bounds for %s' % dtype)
        return x
    if dtype.kind == 'b':
        return models.truth_value(v)
    if dtype.kind == 'O':
        return v
    raise Inconclusive('array of ' + str(dtype))


def objects(v, dtype):
    """a (possibly nested) sequence, or a scalar, as an array of converted objects, with its mask"""
    if isinstance(v, Arr):
        o = np.empty(v.o.shape, object)
        for k in np.ndindex(*v.o.shape):
            x = v.o[k]
            o[k] = NONE if x is NONE else convert(dtype, x)
        return o, v.m
    if v is np.ma.masked:
        return None, True
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple, range)) or (hasattr(v, '__len__') and hasattr(v, '__getitem__') and not isinstance(v, (str, bytes, dict))):
        parts = [objects(x, dtype)[0] for x in v]
        shapes = {getattr(p, 'shape', ()) for p in parts}
        if len(shapes) > 1:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        shape = shapes.pop() if shapes else ()
        o = np.empty((len(parts),) + shape, object)
        for k, p in enumerate(parts):
            o[k] = p[()] if shape == () else p
        return o, None
    o = np.empty((), object)
    o[()] = convert(dtype, v)
    return o, None


class Arr:
    def __init__(self, o, dtype, m=None):
        self.o, self.dtype, self.m = o, dtype, m

    shape = property(lambda self: self.o.shape)
    ndim = property(lambda self: self.o.ndim)
    size = property(lambda self: self.o.size)
    T = property(lambda self: Arr(self.o.T, self.dtype, None if self.m is None else self.m.T))

    @property
    def mask(self):
        if self.m is None:
            raise AttributeError('mask')
        return self.m

    def __len__(self):
        return len(self.o)

    def fill(self, v):
        self.o.fill(None)
        self[...] = v

    def __setitem__(self, key, v):
        o, m = objects(v, self.dtype)
        if o is not None:
            self.o[key] = o[()] if o.ndim == 0 else o
        if self.m is not None:
            self.m[key] = False if m is None else m
        elif m is True:
            raise Inconclusive('a masked value put in a plain array')

    def __getitem__(self, key):
        o = self.o[key]
        m = None if self.m is None else self.m[key]
        if isinstance(o, np.ndarray):
            return Arr(o, self.dtype, m)
        if m is not None and m:
            return np.ma.masked
        if o is NONE:
            raise Inconclusive('a cell that was never written')
        return o

    def __iter__(self):
        return iter([self[k] for k in range(len(self))])

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else None if x is np.ma.masked else x for x in self]

    def astype(self, dtype, **kw):
        dtype = np.dtype(dtype)
        return Arr(objects(self, dtype)[0], dtype, None if self.m is None else self.m.copy())

    def copy(self, *a):
        return Arr(self.o.copy(), self.dtype, None if self.m is None else self.m.copy())

    def reshape(self, *a):
        return Arr(self.o.reshape(*a), self.dtype, None if self.m is None else self.m.reshape(*a))

    def __getattr__(self, name):
        raise Inconclusive('array attribute ' + name) if not name.startswith('__') else AttributeError(name)


def blank(shape):
    o = np.empty(shape, object)
    o.fill(NONE)
    return o


def empty(shape, dtype=float, **kw):
    return Arr(blank(shape), np.dtype(dtype))


def filled(shape, v, dtype=None):
    if dtype is None:
        dtype = np.array(v).dtype if not models.has_sym(v) else np.dtype(float if type(v) is floats.SymFloat else int)
    a = empty(shape, dtype)
    a.fill(v)
    return a


def masked_all(shape, dtype=float):
    o = blank(shape)
    return Arr(o, np.dtype(dtype), np.ones(o.shape, bool))


def fromiter(it, dtype, count=-1, **kw):
    dtype = np.dtype(dtype)
    items = []
    for x in it:
        if count >= 0 and len(items) == count:
            break
        items.append(convert(dtype, x))
    if len(items) < count:
        raise ValueError('iterator too short: Expected %d but iterator had only %d items.' % (count, len(items)))
    o = np.empty(len(items), object)
    for k, x in enumerate(items):
        o[k] = x
    return Arr(o, dtype)


def array(v, dtype=None, **kw):
    if dtype is None:
        if isinstance(v, Arr):
            dtype = v.dtype
        elif models.has_sym(v) or isinstance(v, (list, tuple)) and any(models.has_sym(x) for x in v):
            raise Inconclusive('array of symbolic values without an element type')
        else:
            return np.array(v, **kw)
    dtype = np.dtype(dtype)
    return Arr(objects(v, dtype)[0], dtype, v.m if isinstance(v, Arr) else None)


def masked_array(data, mask=False, dtype=None, **kw):
    a = array(data, dtype)
    if not isinstance(a, Arr):
        return np.ma.masked_array(data, mask=mask, dtype=dtype, **kw)
    m = np.zeros(a.o.shape, bool)
    m[...] = mask.o.astype(bool) if isinstance(mask, Arr) else mask
    return Arr(a.o, a.dtype, m)


def install():
    for f, m in ((np.empty, empty), (np.ndarray, empty), (np.zeros, lambda shape, dtype=float, **k: filled(shape, 0, dtype)), (np.ones, lambda shape, dtype=float, **k: filled(shape, 1, dtype)),
                 (np.full, lambda shape, fill_value, dtype=None, **k: filled(shape, fill_value, dtype)), (np.fromiter, fromiter), (np.array, array), (np.asarray, array)):
        models.MODELS[f] = m
        models.ALWAYS.add(f)
    for f, m in ((np.full, lambda shape, fill_value, dtype=None, **k: filled(shape, fill_value, dtype)), (np.ones, lambda shape, dtype=float, **k: filled(shape, 1, dtype)), (np.ma.masked_all, masked_all)):
        models.PYFUNC_MODELS[f] = m
    models.MODELS[np.ma.masked_array] = models.PYFUNC_MODELS[np.ma.array] = masked_array
    models.ALWAYS.add(np.ma.masked_array)


def cells(a):
    if not isinstance(a, Arr):
        return None
    out = np.empty(a.o.shape, object)
    for k in np.ndindex(*a.o.shape):
        if a.m is not None and a.m[k]:
            out[k] = None
        elif a.o[k] is NONE:
            out[k] = 'never written'
        else:
            out[k] = a.o[k]
    return out.tolist()
