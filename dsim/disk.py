"""Disk seam.

Files live in a private scratch directory; every `open` of a path under it
returns a Python buffered/text stack on `SimRaw`, and the mutating `os` calls
are wrapped, so that each I/O step is a fault point the plan can hit:

  write steps   ENOSPC / EIO (part of the data may have reached the file),
                short write (legal), crash before / in the middle / after
  close steps   EIO (late write error)
  open steps    EIO, EMFILE, crash
  read steps    EIO, short read (legal)
  rename, mkdir, remove ...  EIO, crash before / after

A crash is `SimCrash` (a BaseException): from that instant nothing the dying
process still flushes reaches the disk; data already written stays (process
crash, not power loss).  Directory listings come back in an order chosen by
the plan."""
import builtins
import errno
import io
import os
import pathlib
import random
import shutil
import tempfile

import numpy.lib.format as npformat

_real_open = io.open
_real = {name: getattr(os, name) for name in (
    'listdir', 'scandir', 'rename', 'replace', 'remove', 'unlink', 'mkdir',
    'rmdir', 'truncate', 'link', 'symlink') if hasattr(os, name)}
_real_isfileobj = npformat.isfileobj


class SimCrash(BaseException):
    """The simulated process dies here."""


class DirList(object):
    """scandir iterator in the order the plan wants."""

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        self._it = iter(())


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        super().__init__()
        self._disk, self._path = disk, path
        self._epoch = disk.epoch
        self._fio = io.FileIO(path, mode)
        self.name = path
        self.mode = self._fio.mode

    def readable(self):
        return self._fio.readable()

    def writable(self):
        return self._fio.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self._fio.fileno()

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return self._fio.seek(pos, whence)

    def tell(self):
        return self._fio.tell()

    def truncate(self, size=None):
        if self._dead():
            return 0
        self._disk.step('truncate', self._path)
        return self._fio.truncate(size)

    def _dead(self):
        return self._disk.dead or self._epoch != self._disk.epoch

    def readinto(self, b):
        n = self._disk.step('read', self._path, len(b))
        if n is not None and n < len(b):
            data = self._fio.read(n)
            b[:len(data)] = data
            return len(data)
        data = self._fio.read(len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        data = bytes(b)
        if self._dead():
            return len(data)            # a dead process writes nothing
        return self._disk.write_step(self._path, self._fio, data)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self._fio.close()
        if not self._dead() and self.writable_hint:
            self._disk.step('close', self._path)

    @property
    def writable_hint(self):
        return self.mode != 'rb'


class Disk(object):
    """One simulated disk; `with Disk(ctx, plan) as disk:` installs it."""

    def __init__(self, ctx, faults=(), buffer_size=None, order_seed=0):
        self.ctx = ctx
        base = '/dev/shm' if os.path.isdir('/dev/shm') and \
            os.access('/dev/shm', os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp('', 'dsim-', base))
        self.epoch = 0
        self.dead = False
        self.enabled = True     # faults are injected only while True
        self.steps = 0
        self.faults = sorted(
            ({'at': int(f['at']), 'kind': str(f['kind']),
              'frac': float(f.get('frac', 0.5)), 'left': int(f.get('n', 1))}
             for f in faults), key=lambda f: f['at'])
        self.buffer_size = buffer_size
        self.order = random.Random(order_seed)
        self.on_step = None

    # -- lifecycle
    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def reboot(self):
        """A new process starts on what is on the disk."""
        self.epoch += 1
        self.dead = False

    def quiesce(self):
        """Faults stop here."""
        self.faults = []

    # -- fault decisions
    def _take(self, kinds):
        for f in self.faults:
            if f['at'] > self.steps:
                return None
            if f['kind'] in kinds and f['left'] > 0:
                f['left'] -= 1
                if f['left'] == 0:
                    self.faults.remove(f)
                return f
        return None

    def crash(self, where):
        self.ctx.fault('crash:' + where)
        self.dead = True
        raise SimCrash(where)

    def _error(self, code, name, path):
        self.ctx.fault(name)
        raise OSError(code, os.strerror(code), path)

    def step(self, op, path, size=None):
        """One I/O step other than a write.  May raise; returns a byte count
        for short reads."""
        if self.dead:
            raise SimCrash('dead')
        if not self.enabled:
            return None
        self.steps += 1
        if self.on_step is not None:
            self.on_step(op, path)
        f = self._take({'crash_before'})
        if f:
            self.crash('before-' + op)
        if op == 'read':
            f = self._take({'read_eio'})
            if f:
                self._error(errno.EIO, 'read_eio', path)
            f = self._take({'read_short'})
            if f and size and size > 1:
                self.ctx.fault('read_short')
                return max(1, int(size * f['frac']))
        elif op == 'open':
            f = self._take({'open_eio', 'open_emfile'})
            if f:
                self._error(errno.EMFILE if f['kind'] == 'open_emfile'
                            else errno.EIO, f['kind'], path)
        elif op == 'close':
            f = self._take({'close_eio'})
            if f:
                self._error(errno.EIO, 'close_eio', path)
        elif op == 'listdir':
            f = self._take({'list_eio'})
            if f:
                self._error(errno.EIO, 'list_eio', path)
        else:
            f = self._take({'meta_eio'})
            if f:
                self._error(errno.EIO, 'meta_eio:' + op, path)
        return None

    def after(self, op):
        if self.enabled and self._take({'crash_after'}):
            self.crash('after-' + op)

    def write_step(self, path, fio, data):
        if not self.enabled:
            return fio.write(data)
        self.steps += 1
        if self.on_step is not None:
            self.on_step('write', path)
        f = self._take({'crash_before'})
        if f:
            self.crash('before-write')
        f = self._take({'crash_torn', 'enospc', 'write_eio', 'write_short'})
        if f:
            n = min(len(data), int(len(data) * f['frac']))
            kind = f['kind']
            if kind == 'write_short':
                n = max(1, n)
                if n < len(data):
                    self.ctx.fault('write_short')
                    return fio.write(data[:n])
            else:
                if kind == 'crash_torn':
                    if n:
                        fio.write(data[:n])
                    self.crash('torn-write')
                if 0 < n < len(data) and not f.get('armed'):
                    # as a kernel does: a short count now, the error on the
                    # next attempt
                    f['armed'] = True
                    f['left'] += 1
                    if f not in self.faults:
                        self.faults.insert(0, f)
                    return fio.write(data[:n])
                self._error(errno.ENOSPC if kind == 'enospc' else errno.EIO,
                            kind, path)
        n = fio.write(data)
        if self._take({'crash_after'}):
            self.crash('after-write')
        return n

    # -- patched entry points
    def _inside(self, file):
        if isinstance(file, (int, bytes)) or file is None:
            return None
        try:
            p = os.path.abspath(os.fspath(file))
        except TypeError:
            return None
        if isinstance(p, str) and (p == self.root or
                                   p.startswith(self.root + os.sep)):
            return p
        return None

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        path = self._inside(file)
        if path is None or opener is not None:
            return _real_open(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
        if self.dead:
            raise SimCrash('dead')
        binary = 'b' in mode
        rawmode = mode.replace('b', '').replace('t', '')
        if len([c for c in rawmode if c in 'rwax']) != 1:
            raise ValueError('bad mode %r' % mode)
        self.step('open', path)
        raw = SimRaw(self, path, rawmode)
        self.after('open')
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else \
            (self.buffer_size or io.DEFAULT_BUFFER_SIZE)
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif rawmode[0] == 'r':
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                                line_buffering=(buffering == 1))
        text.mode = mode
        return text

    def _shuffled(self, names):
        names = sorted(names)
        self.order.shuffle(names)
        return names

    def listdir(self, path='.'):
        inside = self._inside(path)
        out = _real['listdir'](path)
        if inside is None:
            return out
        self.step('listdir', inside)
        self.ctx.probe('listing')
        return self._shuffled(out)

    def scandir(self, path='.'):
        inside = self._inside(path)
        if inside is None:
            return _real['scandir'](path)
        self.step('listdir', inside)
        self.ctx.probe('listing')
        with _real['scandir'](path) as it:
            entries = {e.name: e for e in it}
        return DirList([entries[n] for n in self._shuffled(entries)])

    def _wrap(self, name):
        real = _real[name]

        def call(path, *args, **kwargs):
            inside = self._inside(path)
            if inside is None and args:
                inside = self._inside(args[0]) if not isinstance(
                    args[0], int) else None
            if inside is None:
                return real(path, *args, **kwargs)
            self.step(name, inside)
            out = real(path, *args, **kwargs)
            self.after(name)
            return out
        return call

    def __enter__(self):
        builtins.open = self.open
        io.open = self.open
        os.listdir = self.listdir
        os.scandir = self.scandir
        self._acc = {}
        acc = getattr(pathlib, '_NormalAccessor', None)
        for name in _real:
            if name not in ('listdir', 'scandir'):
                setattr(os, name, self._wrap(name))
            if acc is not None and name in vars(acc):
                self._acc[name] = vars(acc)[name]
                setattr(acc, name, staticmethod(getattr(os, name)))
        npformat.isfileobj = lambda f: False
        return self

    def __exit__(self, *exc):
        builtins.open = _real_open
        io.open = _real_open
        for name, f in _real.items():
            setattr(os, name, f)
        acc = getattr(pathlib, '_NormalAccessor', None)
        for name, f in self._acc.items():
            setattr(acc, name, f)
        npformat.isfileobj = _real_isfileobj
        self.epoch += 1
        if self.root and os.path.basename(self.root).startswith('dsim-'):
            shutil.rmtree(self.root, ignore_errors=True)
        return False

    # -- inspection outside the simulation
    def isdir(self, *parts):
        return os.path.isdir(self.path(*parts))

    def names(self, *parts):
        return sorted(_real['listdir'](self.path(*parts)))

    def read_bytes(self, *parts):
        with _real_open(self.path(*parts), 'rb') as fp:
            return fp.read()

    def write_bytes(self, data, *parts):
        with _real_open(self.path(*parts), 'wb') as fp:
            fp.write(data)
