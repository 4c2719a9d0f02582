"""The seams the simulator owns: clocks, file I/O, interruption points.

`install()` must run before the library is imported, so that every name the library binds
(`from datetime import *`, `import time`, ...) is a simulated one.  Outside a simulated world
(`WORLD is None`) the replacements behave like the originals.
"""
import builtins
import datetime as _dt
import errno
import io
import os
import sys
import time as _time

WORLD = None            # the active World, set by World.__enter__

_real = {}
_installed = False


def real(name):
    return _real[name]


# ----------------------------------------------------------------------------- clocks

def _mk_time():
    def perf_counter():
        w = WORLD
        return _real['perf_counter']() if w is None else w.read_mono('perf_counter') / 1e9

    def perf_counter_ns():
        w = WORLD
        return _real['perf_counter_ns']() if w is None else w.read_mono('perf_counter')

    def monotonic():
        w = WORLD
        return _real['monotonic']() if w is None else w.read_mono('monotonic') / 1e9

    def monotonic_ns():
        w = WORLD
        return _real['monotonic_ns']() if w is None else w.read_mono('monotonic')

    def process_time():
        w = WORLD
        return _real['process_time']() if w is None else w.read_cpu('process_time') / 1e9

    def thread_time():
        w = WORLD
        return _real['thread_time']() if w is None else w.read_cpu('thread_time') / 1e9

    def process_time_ns():
        w = WORLD
        return _real['process_time_ns']() if w is None else w.read_cpu('process_time')

    def thread_time_ns():
        w = WORLD
        return _real['thread_time_ns']() if w is None else w.read_cpu('thread_time')

    def time():
        w = WORLD
        return _real['time']() if w is None else w.read_wall('time') / 1e6

    def time_ns():
        w = WORLD
        return _real['time_ns']() if w is None else w.read_wall('time') * 1000

    def localtime(secs=None):
        w = WORLD
        if secs is None and w is not None:
            secs = w.read_wall('localtime') / 1e6
        if w is not None:
            secs += w.tz_us / 1e6
        return _real['localtime'](secs)

    def gmtime(secs=None):
        w = WORLD
        if secs is None and w is not None:
            secs = w.read_wall('gmtime') / 1e6
        return _real['gmtime'](secs)

    def sleep(secs):
        w = WORLD
        if w is None:
            return _real['sleep'](secs)
        w.advance(int(secs * 1e9))

    return dict(perf_counter=perf_counter, perf_counter_ns=perf_counter_ns, monotonic=monotonic,
                monotonic_ns=monotonic_ns, process_time=process_time, thread_time=thread_time,
                process_time_ns=process_time_ns, thread_time_ns=thread_time_ns,
                time=time, time_ns=time_ns, localtime=localtime, gmtime=gmtime, sleep=sleep)


class SimDatetime(_dt.datetime):

    @classmethod
    def now(cls, tz=None):
        w = WORLD
        if w is None:
            return super().now(tz)
        us = w.read_wall('datetime.now')
        base = cls(1970, 1, 1) + _dt.timedelta(microseconds=us)
        if tz is not None:
            return base.replace(tzinfo=_dt.timezone.utc).astimezone(tz)
        return base + _dt.timedelta(microseconds=w.tz_us)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        w = WORLD
        if w is None or tz is not None:
            return super().fromtimestamp(t, tz)
        return super().fromtimestamp(t, _dt.timezone.utc).replace(tzinfo=None) + _dt.timedelta(microseconds=w.tz_us)

    @classmethod
    def utcnow(cls):
        w = WORLD
        if w is None:
            return super().utcnow()
        return cls(1970, 1, 1) + _dt.timedelta(microseconds=w.read_wall('datetime.utcnow'))

    @classmethod
    def today(cls):
        w = WORLD
        if w is None:
            return super().today()
        return cls(1970, 1, 1) + _dt.timedelta(microseconds=w.read_wall('datetime.today') + w.tz_us)


class SimDate(_dt.date):

    @classmethod
    def today(cls):
        w = WORLD
        if w is None:
            return super().today()
        return (_dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=w.read_wall('date.today') + w.tz_us)).date()


# ----------------------------------------------------------------------------- files

class SimRaw(io.RawIOBase):
    """A raw file over a real descriptor in the scratch directory, with faults at each call."""

    def __init__(self, world, name, fd, writable):
        self._world, self._name, self._fd, self._writable = world, name, fd, writable
        self.name = name
        self.delivered = b''
        self.eof = False

    def readable(self):
        return True

    def writable(self):
        return self._writable

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        os.ftruncate(self._fd, self.tell() if size is None else size)
        return size

    def fileno(self):
        return self._fd

    def readinto(self, b):
        want = self._world.io_point('read', self._name, len(b))
        data = os.read(self._fd, want)
        b[:len(data)] = data
        self.delivered += data
        if not data and len(b):
            self.eof = True
        return len(data)

    def write(self, b):
        self._world.note('fs-write', self._name)
        return os.write(self._fd, bytes(b))

    def close(self):
        if not self.closed:
            w = self._world
            try:
                if w.active:
                    w.io_point('close', self._name, 0)
            finally:
                fd, self._fd = self._fd, -1
                os.close(fd)
                super().close()
                w.handles.pop(id(self), None)


def _sim_open(world, file, mode, buffering, encoding, errors, newline):
    name = os.path.relpath(os.path.abspath(os.fspath(file)), world.root)
    writing = any(ch in mode for ch in 'wax+')
    world.note('fs-open-write' if writing else 'fs-open', name)
    world.io_point('open', name, 0)
    flags = os.O_RDONLY
    if writing:
        flags = os.O_RDWR | os.O_CREAT
        if 'w' in mode:
            flags |= os.O_TRUNC
        if 'a' in mode:
            flags |= os.O_APPEND
        if 'x' in mode:
            flags |= os.O_EXCL
    fd = _real['os_open'](file, flags | getattr(os, 'O_CLOEXEC', 0), 0o666)
    import stat
    if stat.S_ISDIR(os.fstat(fd).st_mode):
        os.close(fd)
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    raw = SimRaw(world, name, fd, writing)
    world.opened(raw, name)
    if 'b' in mode and buffering == 0:
        return raw
    size = world.buffer_size
    buf = io.BufferedRandom(raw, size) if writing else io.BufferedReader(raw, size)
    if 'b' in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=False)
    text.mode = mode
    return text


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = WORLD
    if w is not None and w.active and not isinstance(file, int) and opener is None:
        try:
            inside = w.inside(file)
        except TypeError:
            inside = False
        if inside:
            return _sim_open(w, file, mode, buffering, encoding, errors, newline)
    return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = WORLD
    if w is not None and w.active and dir_fd is None:
        try:
            inside = w.inside(path)
        except TypeError:
            inside = False
        if inside:
            name = os.path.relpath(os.path.abspath(os.fspath(path)), w.root)
            w.note('fs-open-write' if flags & (os.O_WRONLY | os.O_RDWR) else 'fs-open', name)
            w.io_point('open', name, 0)
    return _real['os_open'](path, flags, mode, dir_fd=dir_fd)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    # Libraries that must keep the real thing are imported first.
    import decimal, json, random, hashlib, numpy, scipy.special, statistics, functools, traceback   # noqa
    import threading, importlib, pkgutil, inspect, re, math, tempfile, shutil, signal, _strptime    # noqa
    for name, fn in _mk_time().items():
        _real[name] = getattr(_time, name)
        setattr(_time, name, fn)
    _real['datetime'], _real['date'] = _dt.datetime, _dt.date
    _dt.datetime, _dt.date = SimDatetime, SimDate
    _real['open'], _real['os_open'] = builtins.open, os.open
    builtins.open = _open
    io.open = _open
    os.open = _os_open
