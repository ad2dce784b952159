"""C27: processes sharing a cache directory never harm each other."""
import builtins
import io
import os
from checks.c23 import content, same, outcome, cache_at, BOTH, ODD3

BOUNDS = {'quick': 'a process opening a file (one or two traces, any bytes in job number, trace header fields and samples) with a cache folder that is absent, empty, or holds a complete, empty or cut entry, '
                   'while other processes doing the same take up to two steps, each at any of the system calls on the cache (status, opening, reading, writing, closing, removing, making or renaming): '
                   'they create the folder, remove, truncate, partly write or complete the entry; then two more openings',
          'thorough': 'up to three steps'}
OUTSIDE = 'the other processes are represented by all effects their reads, writes and removals have on the entry, not by their own instructions; processes using other options or files, whose entries have other names (C23); removal of the folder by users'

STEPS = ('remove', 'empty', 'half', 'complete')


class World:
    """the other processes: before each system call on the cache they may take a step"""

    def __init__(self, h, place, entries, budget, first):
        self.h, self.place, self.entries, self.budget, self.first = h, os.path.realpath(place), entries, budget, first
        self.busy, self.points = False, 0

    def inside(self, p):
        if not isinstance(p, (str, bytes, os.PathLike)):
            return False
        p = os.path.realpath(os.fsdecode(os.fspath(p)))
        return p == self.place or p.startswith(self.place + os.sep)

    def point(self):
        if self.busy or self.budget == 0 or self.points >= 40:
            return
        self.busy = True
        try:
            self.points += 1
            if self.first is not None:
                # the first step is given with the job, only its time is open
                if not self.h.choose('now%d' % self.points, 2):
                    return
                k, self.first = self.first, None
            else:
                k = self.h.choose('step%d' % self.points, len(STEPS) + 1) - 1
                if k < 0:
                    return
            self.budget -= 1
            self.step(STEPS[k])
        finally:
            self.busy = False

    def step(self, what):
        os.makedirs(self.place, exist_ok=True)
        for name, data in self.entries.items():
            p = os.path.join(self.place, name)
            if what == 'remove':
                if os.path.exists(p):
                    os.remove(p)
            else:
                with io.FileIO(p, 'w') as f:
                    f.write({'empty': b'', 'half': data[:len(data) // 2], 'complete': data}[what])


class Raw(io.FileIO):
    """a file whose system calls are points where others may step in"""
    world = None

    def readinto(self, b):
        self.world.point()
        return super().readinto(b)

    def read(self, n=-1):
        self.world.point()
        return super().read(n)

    def readall(self):
        self.world.point()
        return super().readall()

    def write(self, b):
        self.world.point()
        return super().write(b)

    def close(self):
        if not self.closed:
            self.world.point()
        super().close()


def hooked(world, path, cache):
    """open the file with the others at work"""
    names = [n for n in ('stat', 'lstat', 'unlink', 'remove', 'mkdir', 'rename', 'replace', 'listdir', 'scandir', 'access', 'rmdir', 'link', 'open') if hasattr(os, n)]
    saved = {n: getattr(os, n) for n in names}
    opened = io.open, builtins.open

    def hook(n):
        def call(p, *a, **k):
            if not world.busy and world.inside(p):
                world.point()
            return saved[n](p, *a, **k)
        return call

    def open_(file, mode='r', *a, **k):
        if not world.busy and not isinstance(file, int) and world.inside(file) and 'b' in mode:
            world.point()
            raw = Raw(os.fspath(file), mode.replace('b', ''))
            raw.world = world
            if (a[0] if a else k.get('buffering', -1)) == 0:
                return raw
            return io.BufferedRandom(raw) if '+' in mode else io.BufferedReader(raw) if 'r' in mode else io.BufferedWriter(raw)
        return opened[0](file, mode, *a, **k)
    inside, world.inside = world.inside, None

    def quiet(p):
        # names are resolved with os.lstat, which is no step of the program
        if world.busy:
            return False
        world.busy = True
        try:
            return inside(p)
        finally:
            world.busy = False
    world.inside = quiet
    try:
        for n in names:
            setattr(os, n, hook(n))
        io.open = builtins.open = open_
        return outcome(path, cache, {})
    finally:
        for n in names:
            setattr(os, n, saved[n])
        io.open, builtins.open = opened


def together(h, kind, n, start, first, budget):
    d = h.folder()
    path = os.path.join(d, 'a.segy')
    h.put(path, content(h, 'a', BOTH[:n]))
    cache = cache_at(d, kind)
    place = os.path.join(d, '.cache') if kind == 'relative' else cache
    ref = outcome(path, None, {})
    outcome(path, cache, {})
    entries = {}
    for name in (os.listdir(place) if os.path.isdir(place) else []):
        with io.FileIO(os.path.join(place, name)) as f:
            entries[name] = f.readall()
        if start in ('absent', 'no folder'):
            os.remove(os.path.join(place, name))
    world = World(h, place, entries, budget, first)
    if start == 'no folder':
        if os.path.isdir(place):
            os.rmdir(place)
    elif start != 'absent':
        world.step(start)
    r = hooked(world, path, cache)
    h.check(not isinstance(r, type), 'no error while others use the cache')
    same(h, r, ref, 'while others use the cache')
    for again in ('afterwards', 'and once more'):
        r = outcome(path, cache, {})
        h.check(not isinstance(r, type), 'no error ' + again)
        same(h, r, ref, again)


def jobs(tier):
    J = []
    for k, start in enumerate(('no folder', 'absent', 'empty', 'half', 'complete')):
        for s, step in enumerate(STEPS):
            for budget in ((2,) if tier == 'quick' else (2, 3)):
                kind = 'relative' if (k + s) % 2 else 'absolute'
                J.append(dict(name='%s-%s-%d' % (start.replace(' ', ''), step, budget), fn='together', params={'kind': kind, 'n': 1 + s % 2, 'start': start, 'first': s, 'budget': budget}))
        if tier != 'quick':
            for s in range(len(STEPS)):
                J.append(dict(name='%s-%s-other' % (start.replace(' ', ''), STEPS[s]), fn='together', params={'kind': 'absolute' if (k + s) % 2 else 'relative', 'n': 2 - s % 2, 'start': start, 'first': s, 'budget': 2}))
    return J
