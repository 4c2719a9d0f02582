"""One simulated execution: clock, scratch file system, fault plan, event log."""
import errno
import hashlib
import json
import os
import shutil
import sys
import tempfile

from . import seams


class SimInterrupt(BaseException):
    """An interruption that is none of the built-in ones."""


class Discard(BaseException):
    """The plan does not make sense (typically after shrinking), or has grown too large: no verdict."""


class WeirdError(Exception):
    """A host exception without arguments, message or sensible text."""

    def __str__(self):
        return ''


class NoStrError(Exception):

    def __str__(self):
        raise ValueError('no text')


INTERRUPTS = ['KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'SimInterrupt']
ERRORS = ['RuntimeError', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'ZeroDivisionError', 'AttributeError',
          'MemoryError', 'RecursionError', 'OSError', 'StopIteration', 'AssertionError', 'UnicodeDecodeError',
          'InvalidOperation', 'CalculatorException', 'WeirdError', 'OverflowError', 'NotImplementedError', 'EOFError']
IO_ERRORS = ['ENOENT', 'EACCES', 'EIO', 'EMFILE', 'EISDIR', 'ENOMEM', 'ESTALE', 'ELOOP', 'ETIMEDOUT']


FIRST_US = -62_135_424_000_000_000           # 0001-01-03
LAST_US = 253_401_955_200_000_000            # 9999-12-27


def make_exception(kind):
    if kind == 'SystemExit':
        return SystemExit(3)
    if kind == 'KeyboardInterrupt':
        return KeyboardInterrupt()
    if kind == 'GeneratorExit':
        return GeneratorExit()
    if kind == 'SimInterrupt':
        return SimInterrupt('sim')
    if kind == 'OSError':
        return OSError(errno.EIO, 'simulated')
    if kind == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'simulated')
    if kind == 'InvalidOperation':
        import decimal
        return decimal.InvalidOperation()
    if kind == 'CalculatorException':
        from modularcalculator.objects.exceptions import CalculatorException
        return CalculatorException('simulated failure')
    if kind == 'ExecuteException':
        from modularcalculator.objects.exceptions import ExecuteException
        return ExecuteException('simulated failure', [], None)
    if kind in ('ParsingException', 'ExecutionException'):
        # what a host function gets when a calculation of its own fails
        import modularcalculator.objects.exceptions as X
        return getattr(X, kind)('simulated failure', [[]], None)
    if kind == 'WeirdError':
        return WeirdError()
    if kind == 'NoStrError':
        return NoStrError()
    if kind in IO_ERRORS:
        e = getattr(errno, kind)
        return OSError(e, os.strerror(e))
    import builtins
    return getattr(builtins, kind)('simulated')


class World:
    """Installed as seams.WORLD for the duration of a run."""

    def __init__(self, plan_env=None):
        env = plan_env or {}
        self.wall_us = env.get('wall_us', 1_700_000_000_123_456)
        self.tz_us = env.get('tz_us', 0)              # how far local time is ahead of UTC
        self.mono_ns = env.get('mono_ns', 5_000_000_000)
        self.cpu_ns = 1_000_000_000
        self.mono_reads = 0
        self.tick_ns = env.get('tick_ns', 0)          # how far the clocks move at each reading
        self.buffer_size = env.get('buffer_size', 8192)
        self.active = False
        self.budget = env.get('budget', 3_000_000)    # points a run may pass before it counts as too large
        self.events = []
        self.clock_reads = []
        self.handles = {}
        self.all_handles = []
        self.points = {}          # counts of fault points passed in the current operation
        self.armed = []           # faults of the current operation
        self.fired = []           # faults that fired, over the run
        self.fired_now = []       # ... in the current operation
        self.counts = {}
        self.sim_ns = 0
        self.on_point = None
        self.root = None
        self.io_delays = {}       # file -> {'open'|'read'|'close': ns}
        self.probe_log = []
        self.marks = []
        self.raised = None
        self.last_response = None

    # -- scope
    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix='mcsim.', dir=os.environ.get('MCSIM_TMP', '/tmp'))
        self._cwd = os.getcwd()
        self._home = os.environ.get('HOME')
        os.chdir(self.root)
        os.environ['HOME'] = self.root
        self.active = True
        seams.WORLD = self
        return self

    def __exit__(self, *a):
        self.active = False
        seams.WORLD = None
        os.chdir(self._cwd)
        if self._home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = self._home
        root = self.root
        if root and os.path.basename(root).startswith('mcsim.'):
            shutil.rmtree(root, ignore_errors=True)
        return False

    def inside(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def scrub(self, text):
        return text.replace(self.root, '<root>') if isinstance(text, str) and self.root else text

    # -- log
    def note(self, kind, *data):
        if self.root is None:
            return
        self.events.append([kind] + [self.scrub(d) for d in data])
        self.counts[kind] = self.counts.get(kind, 0) + 1

    def digest(self):
        return hashlib.sha256(json.dumps(self.events, sort_keys=True, default=str).encode()).hexdigest()[:16]

    # -- clocks
    def advance(self, ns):
        self.mono_ns += ns
        self.wall_us += ns // 1000
        self.sim_ns += ns

    def jump_wall(self, us):
        # stays where a datetime can tell it, in any time zone
        self.wall_us = max(FIRST_US, min(LAST_US, self.wall_us + us))

    def read_mono(self, which):
        self.budget -= 30
        self.mono_reads += 1
        self.point('clock', which)
        if self.marks:
            self.point('clockx', which)
        self.mono_ns += self.tick_ns
        self.sim_ns += self.tick_ns
        self.wall_us += self.tick_ns // 1000
        return self.mono_ns

    def read_cpu(self, which):
        # processor time: does not pass while something waits
        self.point('clock', which)
        self.cpu_ns += self.tick_ns
        return self.cpu_ns

    def read_wall(self, which):
        self.point('wall', which)
        self.wall_us += self.tick_ns // 1000
        self.mono_ns += self.tick_ns
        self.sim_ns += self.tick_ns
        self.clock_reads.append(self.wall_us + self.tz_us)
        self.counts['wall-read'] = self.counts.get('wall-read', 0) + 1
        return self.wall_us

    # -- fault points
    def begin_op(self, faults=()):
        self.points = {}
        self.armed = [dict(f) for f in faults]
        self.fired_now = []

    def end_op(self):
        self.armed = []

    def point(self, name, detail=None):
        """A place where a fault may land.  Returns the fault to apply, or raises it."""
        if not self.active:
            return None
        n = self.points.get(name, 0)
        self.points[name] = n + 1
        self.budget -= 1
        if self.budget < 0:
            raise Discard()
        for f in self.armed:
            if f['point'] == name and f.get('n', 0) == n and (f.get('only') is None or f['only'] == detail):
                return self.fire(f, detail)
        return None

    def fire(self, f, detail=None):
        self.fired.append([f['point'], f['kind']])
        self.fired_now.append(f)
        self.events.append(['fault', f['point'], f.get('n', 0), f['kind'], self.scrub(detail) if isinstance(detail, str) else detail])
        key = 'fault:%s:%s' % (f['point'].split('@')[0], f['kind'])
        self.counts[key] = self.counts.get(key, 0) + 1
        if f['kind'] == 'delay':
            self.advance(f['ns'])
            return f
        if f['kind'] == 'jump':
            self.jump_wall(f['us'])
            return f
        if f['kind'] in ('short', 'rewrite', 'EINTR', 'mark', 'stack'):
            return f
        self.raised = make_exception(f['kind'])
        raise self.raised

    def opened(self, raw, name):
        self.handles[id(raw)] = name
        self.all_handles.append(raw)

    def io_point(self, what, name, want):
        if name in self.io_delays:
            self.advance(self.io_delays[name].get(what, 0))
        f = self.point(what, name)
        if f is None:
            return want
        if f['kind'] == 'short':
            return max(1, min(want, f.get('len', 1)))
        if f['kind'] == 'rewrite':
            self.write_file(f['file'], f['content'], f.get('how', 'inplace'), f.get('mtime'))
        if f['kind'] == 'EINTR':
            raise InterruptedError(errno.EINTR, 'simulated')
        return want

    # -- scratch files (done by "someone else": not traced as actions of the library)
    def path(self, name):
        p = os.path.abspath(os.path.join(self.root, name))
        assert p.startswith(self.root + os.sep), p
        return p

    def write_file(self, name, content, how='inplace', mtime=None):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data = content.encode('utf-8', 'surrogateescape') if isinstance(content, str) else bytes(content)
        active, self.active = self.active, False
        try:
            if os.path.isdir(p) and not os.path.islink(p):
                os.rmdir(p)
            if how == 'replace':
                tmp = p + '.tmp~'
                with open(tmp, 'wb') as fh:
                    fh.write(data)
                os.replace(tmp, p)
            elif how == 'delete':
                if os.path.lexists(p):
                    os.unlink(p)
            elif how == 'symlink':             # the name becomes a link to a file of its own
                self._links = getattr(self, '_links', 0) + 1
                os.makedirs(self.path('targets'), exist_ok=True)
                target = self.path('targets/t%d' % self._links)
                with open(target, 'wb') as fh:
                    fh.write(data)
                if mtime is not None:
                    os.utime(target, (mtime, mtime))
                tmp = p + '.tmp~'
                os.symlink(target, tmp)
                os.replace(tmp, p)
            elif how == 'dir':
                if os.path.lexists(p):
                    os.unlink(p)
                os.mkdir(p)
            else:
                with open(p, 'wb') as fh:
                    fh.write(data)
            if mtime is not None and how not in ('delete',):
                os.utime(p, (mtime, mtime))
        finally:
            self.active = active
