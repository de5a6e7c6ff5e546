"""File seam: real files in a scratch directory, with a yield point, a crash
point and a fault point at every operation the code under test performs.

User-space buffering is real (``io.BufferedWriter`` / ``io.TextIOWrapper`` over
a hooked raw file), so a crash loses exactly what a killed process would lose:
the scratch directory is copied at the crash point and only that copy survives.
Calls that bypass the seam still work - on the same scratch directory - they are
just not crash points.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile
import time

from .core import SimCrash

_real_open = io.open
_os = {n: getattr(os, n) for n in
       ('mkdir', 'replace', 'rename', 'remove', 'unlink', 'rmdir', 'stat', 'lstat',
        'listdir', 'fsync', 'truncate', 'open', 'write', 'access', 'link', 'scandir')}
_path = {n: getattr(os.path, n) for n in ('exists', 'isfile', 'isdir', 'lexists', 'getsize')}
_time = {n: getattr(time, n) for n in ('time', 'time_ns', 'asctime', 'ctime', 'sleep',
                                       'localtime', 'gmtime', 'strftime')}

ERR = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'eacces': errno.EACCES,
       'emfile': errno.EMFILE, 'edquot': errno.EDQUOT, 'enoent': errno.ENOENT}


def scratch_base():
    for d in ('/dev/shm', None):
        try:
            p = tempfile.mkdtemp(prefix='scaks-sim-', dir=d)
            return p
        except OSError:
            continue
    raise OSError('no scratch directory')


class SimRaw(io.FileIO):
    """Raw file whose writes, reads and close are simulation points."""

    def __init__(self, seam, path, mode, opener=None):
        self._seam = seam
        self._name = seam.rel(path)
        self._closed_once = False
        self._gen = seam.generation
        super().__init__(path, mode, True, opener)

    def _gone(self):
        """The process that opened this file no longer exists."""
        return self._seam.dead or self._gen != self._seam.generation

    def write(self, b):
        seam = self._seam
        if self._gone():
            return len(b)
        if seam.sim.in_oracle or not seam.active:
            return super().write(b)
        faults = seam.op('write', self._name)
        data = bytes(b)
        for f in faults:
            k = f['kind']
            if k == 'crash_before':
                seam.crash('crash_before_write')
            elif k == 'torn':
                n = int(len(data) * f.get('frac', 0.5))
                super().write(data[:n])
                seam.crash('torn_write')
            elif k in ('enospc', 'edquot'):
                # the disk fills up: this write is cut short, later ones fail
                n = int(len(data) * f.get('frac', 0.5))
                seam.sim.fire(k)
                seam.full = ERR[k]
                if n:
                    return super().write(data[:n])
            elif k == 'eio':
                seam.sim.fire(k)
                raise OSError(errno.EIO, os.strerror(errno.EIO), self._name)
            elif k == 'short':
                n = max(1, int(len(data) * f.get('frac', 0.5)))
                if n < len(data):
                    seam.sim.fire('short_write')
                    return super().write(data[:n])
            elif k == 'crash_after':
                n = super().write(data)
                seam.crash('crash_after_write')
        if seam.full:
            raise OSError(seam.full, os.strerror(seam.full), self._name)
        n = super().write(data)
        seam.sim.counters['bytes_written'] += n or 0
        return n

    def readinto(self, buf):
        seam = self._seam
        if not (self._gone() or seam.sim.in_oracle or not seam.active):
            for f in seam.op('read', self._name):
                if f['kind'] == 'eio':
                    seam.sim.fire('eio_read')
                    raise OSError(errno.EIO, os.strerror(errno.EIO), self._name)
                if f['kind'] == 'short':
                    seam.sim.fire('short_read')
                    return super().readinto(memoryview(buf)[:max(1, len(buf) // 2)])
                if f['kind'].startswith('crash'):
                    seam.crash('crash_before_read')
        return super().readinto(buf)

    def readall(self):
        seam = self._seam
        if not (self._gone() or seam.sim.in_oracle or not seam.active):
            for f in seam.op('read', self._name):
                if f['kind'] == 'eio':
                    seam.sim.fire('eio_read')
                    raise OSError(errno.EIO, os.strerror(errno.EIO), self._name)
                if f['kind'].startswith('crash'):
                    seam.crash('crash_before_read')
        return super().readall()

    def close(self):
        first = not self._closed_once
        self._closed_once = True
        super().close()
        if first and not self._gone():
            self._seam.after('close', self._name)


CHANGES = ('open_w', 'write', 'truncate', 'remove', 'unlink', 'replace', 'rename', 'link')


class FsSeam(object):
    """Installs the file seam for one run."""

    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.dead = False
        self.generation = 0
        self.active = False
        self.snapshot = None          # directory that survived the crash
        self.full = 0                 # errno while the disk is full
        self.on_after = None          # callback(op, name) after mutating ops
        self.writers = set()          # (rank, name) of operations that change something
        self.trace = []               # (site, name) of the operations, in order

    # -- helpers ----------------------------------------------------------
    def rel(self, path):
        try:
            p = os.path.abspath(os.fsdecode(path))
        except Exception:
            return None
        if p == self.root or p.startswith(self.root + os.sep):
            return os.path.relpath(p, self.root)
        return None

    def inside(self, path):
        if not self.active or isinstance(path, int) or path is None:
            return False
        if self.sim.in_oracle:
            return False
        return self.rel(path) is not None

    def op(self, kind, name):
        """A simulation point *before* an operation; returns planned faults."""
        sim = self.sim
        node = sim.node
        who = node.rank if node is not None else '-'
        sim.yield_point('%s %s' % (kind, name))
        if self.dead:
            raise SimCrash('dead')
        faults = sim.fault_for(kind)
        anyf = sim.fault_for('fs')         # faults addressed by global op number
        for g in sim.plan.get('fs_groups', ()):
            if g in (name or ''):          # ... or by operation on a group of files
                anyf = anyf + sim.fault_for('fs~' + g) + sim.fault_for(kind + '~' + g)
        sim.event('fs', who, kind, name)
        self.trace.append((kind, name))
        if kind in CHANGES:
            self.writers.add((who, name))
        sim.counters['fs_ops'] += 1
        return faults + anyf

    def after(self, kind, name):
        if self.dead or not self.active or self.sim.in_oracle:
            return
        if self.on_after is not None:
            self.on_after(kind, name)

    def crash(self, kind):
        """The process dies here; only what the OS has now survives."""
        self.sim.fire(kind)
        self.dead = True
        snap = self.root + '.snap%d' % len(os.listdir(os.path.dirname(self.root)))
        self.sim.in_oracle += 1
        try:
            shutil.copytree(self.root, snap)
        finally:
            self.sim.in_oracle -= 1
        self.snapshot = snap
        self.sim.kill()
        raise SimCrash(kind)

    def _generic(self, faults, name, err=True):
        """Crash / error faults of non-write operations (before them)."""
        for f in faults:
            k = f['kind']
            if k in ('crash_before', 'torn'):
                self.crash('crash_before_op')
            elif k in ERR and err:
                self.sim.fire(k)
                if k in ('enospc', 'edquot'):
                    self.full = ERR[k]
                raise OSError(ERR[k], os.strerror(ERR[k]), name)
        return any(f['kind'] == 'crash_after' for f in faults)

    # -- the patched functions ------------------------------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if not self.inside(file):
            return _real_open(file, mode, buffering, encoding, errors, newline,
                              closefd, opener)
        if self.dead:
            raise SimCrash('dead')
        name = self.rel(file)
        writing = any(c in mode for c in 'wax+')
        kind = 'open_w' if writing else 'open_r'
        late = self._generic(self.op(kind, name), name)
        binary = 'b' in mode
        rawmode = mode.replace('b', '').replace('t', '').replace('U', '') or 'r'
        raw = SimRaw(self, file, rawmode, opener)
        if late:
            self.crash('crash_after_open')
        self.after(kind, name)
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            line_buffering = buffering == 1 and not binary
            bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if '+' in mode:
                buf = io.BufferedRandom(raw, bs)
            elif writing:
                buf = io.BufferedWriter(raw, bs)
            else:
                buf = io.BufferedReader(raw, bs)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    def _wrap1(self, name, mutating):
        real = _os[name]

        def f(path, *a, **k):
            if not self.inside(path):
                return real(path, *a, **k)
            if self.dead:
                raise SimCrash('dead')
            rel = self.rel(path)
            faults = self.op(name, rel)
            for x in faults:
                if x['kind'] == 'eexist_race' and name == 'mkdir':
                    # another program creates the same directory first
                    try:
                        real(path)
                        self.sim.fire('eexist_race')
                    except OSError:
                        pass
            late = self._generic(faults, rel, err=mutating)
            r = real(path, *a, **k)
            if late:
                self.crash('crash_after_' + name)
            if mutating:
                self.after(name, rel)
            return r
        f.__name__ = name
        return f

    def _wrap2(self, name):
        real = _os[name]

        def f(src, dst, *a, **k):
            if not (self.inside(src) or self.inside(dst)):
                return real(src, dst, *a, **k)
            if self.dead:
                raise SimCrash('dead')
            rel = '%s->%s' % (self.rel(src), self.rel(dst))
            late = self._generic(self.op(name, rel), rel)
            r = real(src, dst, *a, **k)
            if late:
                self.crash('crash_after_' + name)
            self.after(name, self.rel(dst))
            return r
        f.__name__ = name
        return f

    def _wrap_path(self, name):
        real = _path[name]

        def f(path):
            if not self.inside(path):
                return real(path)
            if self.dead:
                raise SimCrash('dead')
            late = self._generic(self.op('stat', self.rel(path)), '', err=False)
            if late:
                self.crash('crash_after_stat')
            return real(path)
        f.__name__ = name
        return f

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is not None or not self.inside(path):
            return _os['open'](path, flags, mode, dir_fd=dir_fd)
        if self.dead:
            raise SimCrash('dead')
        name = self.rel(path)
        w = flags & (os.O_WRONLY | os.O_RDWR)
        late = self._generic(self.op('open_w' if w else 'open_r', name), name)
        fd = _os['open'](path, flags, mode)
        if late:
            self.crash('crash_after_open')
        return fd

    def _fsync(self, fd):
        if self.active and not self.sim.in_oracle and not self.dead:
            self._generic(self.op('fsync', '-'), '-')
        return _os['fsync'](fd)

    # -- clock ---------------------------------------------------------------
    def _now(self):
        if self.active:
            self.sim.tick()
            return self.sim.clock
        return _time['time']()

    def _sleep(self, s):
        if self.active:
            self.sim.tick(s)
            self.sim.yield_point('sleep')
            return
        _time['sleep'](s)

    # -- installation ----------------------------------------------------------
    def __enter__(self):
        builtins.open = self.open
        io.open = self.open
        for n in ('mkdir', 'remove', 'unlink', 'rmdir', 'truncate'):
            setattr(os, n, self._wrap1(n, True))
        for n in ('listdir', 'scandir'):
            setattr(os, n, self._wrap1(n, False))
        for n in ('replace', 'rename', 'link'):
            setattr(os, n, self._wrap2(n))
        for n in _path:
            setattr(os.path, n, self._wrap_path(n))
        os.open = self._os_open
        os.fsync = self._fsync
        time.time = self._now
        time.time_ns = lambda: int(self._now() * 1e9)
        time.asctime = lambda t=None: _time['asctime'](
            _time['gmtime'](self._now()) if t is None else t)
        time.ctime = lambda s=None: _time['asctime'](
            _time['gmtime'](self._now() if s is None else s))
        time.localtime = lambda s=None: _time['gmtime'](self._now() if s is None else s)
        time.sleep = self._sleep
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        builtins.open = _real_open
        io.open = _real_open
        for n, f in _os.items():
            setattr(os, n, f)
        for n, f in _path.items():
            setattr(os.path, n, f)
        for n, f in _time.items():
            setattr(time, n, f)
