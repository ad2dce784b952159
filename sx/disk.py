"""Files on a real disk whose contents are symbolic, values that survive real pickling, and digests of symbolic messages."""
import builtins
import copyreg
import hashlib
import io
import os
import shutil
import tempfile
from . import core, models, seqs
from .core import Inconclusive
from .seqs import SymBytes, SymFile, SymStr

CONTENTS = {}            # real path -> items; what is really in the file there is only a place-holder
FOLDERS = []
VALUES = []              # symbolic values that went into a pickle, by number
MESSAGES = []            # (algorithm, items, digest) on this path
_real_open = io.open
PLACE = b'symbolic'


def reset():
    CONTENTS.clear()
    del VALUES[:]
    del MESSAGES[:]
    while FOLDERS:
        shutil.rmtree(FOLDERS.pop(), ignore_errors=True)


def folder():
    d = tempfile.mkdtemp(prefix='sx-')
    FOLDERS.append(d)
    return d


def put(path, items):
    path = os.path.realpath(path)
    with _real_open(path, 'wb') as f:
        f.write(PLACE)
    CONTENTS[path] = items


def sym_open(file, mode='r', *a, **k):
    if isinstance(file, (str, bytes, os.PathLike)) and CONTENTS:
        path = os.path.realpath(os.fsdecode(os.fspath(file)))
        if path in CONTENTS and os.path.exists(path):
            if 'b' not in mode or 'w' in mode or 'x' in mode or 'a' in mode:
                raise Inconclusive('file with symbolic content opened with mode %r' % mode)
            f = SymFile(CONTENTS[path], name=os.fspath(file))
            f.mode = mode
            return f
    return _real_open(file, mode, *a, **k)


def _restore(i):
    return VALUES[i]


def _reduce(x):
    VALUES.append(x)
    return _restore, (len(VALUES) - 1,)


class Digest:
    """Digests are taken to be equal exactly for equal messages."""

    def __init__(self, name, data=b'', **kw):
        self.name = name
        self.items = []
        self.symbolic = False
        if data:
            self.update(data)

    def update(self, data):
        it = seqs.bytes_items(data)
        if it is None or isinstance(data, str):
            raise TypeError('Strings must be encoded before hashing')
        self.items.extend(it)

    def copy(self):
        d = Digest(self.name)
        d.items = list(self.items)
        return d

    @property
    def digest_size(self):
        return hashlib.new(self.name).digest_size

    def hexdigest(self):
        items = self.items
        plain = all(type(v) is int for v in items)
        for name, other, digest in MESSAGES:
            if name == self.name and len(other) == len(items):
                if models.truth(SymBytes(list(items)) == SymBytes(list(other))):
                    return digest
        d = hashlib.new(self.name)
        d.update(bytes(items) if plain else b'symbolic message %d' % len(MESSAGES))
        MESSAGES.append((self.name, list(items), d.hexdigest()))
        return d.hexdigest()

    def digest(self):
        return bytes.fromhex(self.hexdigest())


def install():
    if builtins.open is sym_open:
        return
    builtins.open = io.open = sym_open
    for t in models.SYMS + (seqs.SymChar,):
        copyreg.pickle(t, _reduce)
    for name in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'blake2b', 'blake2s', 'sha3_256', 'sha3_512'):
        f = getattr(hashlib, name)
        models.MODELS[f] = (lambda name: lambda data=b'', **kw: Digest(name, data))(name)
        models.ALWAYS.add(f)
    models.MODELS[hashlib.new] = lambda name, data=b'', **kw: Digest(name.lower(), data)
    models.ALWAYS.add(hashlib.new)
