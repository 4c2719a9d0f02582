"""Real threads under a scheduler that decides every switch: only the thread holding the token runs."""
import ast
import json
import os
import signal
import sys
import threading
import warnings
import _thread

from . import lib

_RealLock, _RealRLock = threading.Lock, threading.RLock
SCHED = None


def gate(n=0):
    """A plain lock, closed: release() lets the one waiter through."""
    g = _thread.allocate_lock()
    g.acquire()
    return g


SHARED = {}
LINES = {}         # name -> {function: the lines of it that mention the name}
MUTATORS = {'append', 'add', 'update', 'pop', 'clear', 'extend', 'insert', 'remove', 'setdefault', 'popitem', 'discard', 'sort', 'reverse'}


def shared_functions():
    """name -> functions of the library (file, first line) that touch something of that name which threads share: a global, or a
    class attribute, that any function changes.  Only a hint for where to switch threads; what a run finds does not depend on it."""
    base = os.path.join(lib.REPO, 'modularcalculator')
    if base in SHARED:
        return SHARED[base]
    functions, written, mutable = [], set(), set()
    for d, _, names in sorted(os.walk(base)):
        for name in sorted(names):
            if name.endswith('.py'):
                path = os.path.join(d, name)
                try:
                    with open(path, encoding='utf-8') as fh:
                        source = fh.read()
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(source)
                except (OSError, SyntaxError, ValueError):
                    continue
                for node in ast.walk(tree):
                    if isinstance(node, ast.ClassDef):
                        for st in node.body:
                            if isinstance(st, ast.Assign) and isinstance(st.value, (ast.Dict, ast.List, ast.Set, ast.Call)):
                                mutable.update(t.id for t in st.targets if isinstance(t, ast.Name))
                    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        functions.append((path, node))
    uses = []
    for path, fn in functions:
        local = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)} - {'cls'}
        local |= {h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler) and h.name}
        glob = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Global):
                glob.update(n.names)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                local.add(n.id)
        local -= glob

        def shared(n, inside=True):
            """The names by which an expression reaches something not of this call, or None."""
            if isinstance(n, ast.Name):
                if n.id in ('sys', 'os'):
                    return None
                return {n.id} if n.id in glob or n.id not in local else None
            if isinstance(n, ast.Attribute):
                inner = n.value
                if (inside and n.attr in mutable) or shared(inner) or (isinstance(inner, ast.Call) and isinstance(inner.func, ast.Name) and inner.func.id == 'type') \
                        or (isinstance(inner, ast.Attribute) and inner.attr == '__class__'):
                    return {n.attr}
            if isinstance(n, ast.Subscript):
                return shared(n.value)
            return None
        mine = {}
        for n in ast.walk(fn):
            if isinstance(n, (ast.Attribute, ast.Subscript)) or (isinstance(n, ast.Name) and n.id in glob):
                names = shared(n, False)
                if names and isinstance(n.ctx, (ast.Store, ast.Del)):
                    written |= names
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                names = shared(n.func.value)
                if names:
                    written |= names
            if isinstance(n, ast.Attribute):
                mine.setdefault(n.attr, set()).add(n.end_lineno)
            if isinstance(n, ast.Name):
                mine.setdefault(n.id, set()).add(n.lineno)
        first = min([fn.lineno] + [x.lineno for x in fn.decorator_list])
        uses.append(((path, first), mine))
    SHARED[base] = {name: {key for key, mine in uses if name in mine} for name in sorted(written)}
    for name in written:
        LINES[name] = {key: mine[name] for key, mine in uses if name in mine}
    return SHARED[base]


def touching(texts):
    """name -> the texts whose calculation gets to functions touching what threads share under that name (found out in a process
    of its own)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(60)
            with os.fdopen(w, 'w') as fh:
                json.dump(find_touching(texts), fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {}


def find_touching(texts):
    groups = shared_functions()
    names = {}
    for name, keys in groups.items():
        for key in keys:
            for line in LINES[name][key]:
                names.setdefault(key, {}).setdefault(line, []).append(name)
    out = {name: [] for name in groups}
    base = os.path.join(lib.REPO, 'modularcalculator') + os.sep
    met = set()

    def tracer(frame, event, arg):
        code = frame.f_code
        lines = names.get((code.co_filename, code.co_firstlineno)) if code.co_filename.startswith(base) else None
        if not lines:
            return None

        def local(frame, event, arg):
            if event == 'line':
                met.update(lines.get(frame.f_lineno, ()))
            return local
        return local

    c = lib.ModularCalculator('Computing')
    for text in texts:
        met.clear()
        sys.settrace(tracer)
        try:
            c.calculate(text)
        except Exception:
            pass
        finally:
            sys.settrace(None)
        for name in met:
            out[name].append(text)
    return {name: ts for name, ts in out.items() if ts}


class Deadlock(BaseException):
    pass


class Scheduler:
    """switches: [[number of steps, thread to go to], ...]; a step is a line (or opcode) of library code."""

    def __init__(self, fns, switches, opcodes=False, only=None):
        self.fns = fns
        self.n = len(fns)
        self.switches = switches
        self.opcodes = opcodes
        self.only = only
        self.pos = 0
        self.count = 0
        self.steps = 0
        self.taken = 0
        self.places = []
        self.live = set(range(self.n))
        self.sems = [gate() for _ in fns]
        self.finished = gate()
        self.errors = {}
        self.ids = {}
        self.blocked = 0
        self.base = os.path.join(lib.REPO, 'modularcalculator') + os.sep

    def run(self):
        global SCHED
        threads = [threading.Thread(target=self.body, args=(i,)) for i in range(self.n)]
        SCHED = self
        try:
            for t in threads:
                t.start()
            self.sems[0].release()
            self.finished.acquire()
            for t in threads:
                t.join()
        finally:
            SCHED = None
        for i in sorted(self.errors):
            raise self.errors[i]

    def body(self, i):
        self.sems[i].acquire()
        self.ids[threading.get_ident()] = i
        base = self.base
        tick = self.tick
        opcodes = self.opcodes
        only = None if self.only is None else os.sep + self.only
        hot = shared_functions().get(self.only[7:], ()) if self.only is not None and self.only.startswith('shared:') else ()
        lines = None
        if self.only is not None and self.only.startswith('line:'):
            shared_functions()
            lines = hot = LINES.get(self.only[5:], {})

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                if lines is None or frame.f_lineno in lines[frame.f_code.co_filename, frame.f_code.co_firstlineno]:
                    tick(i, frame)
            return local

        def tracer(frame, event, arg):
            code = frame.f_code
            if code.co_filename.startswith(base) and (only is None or code.co_filename.endswith(only) or (code.co_filename, code.co_firstlineno) in hot):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        sys.settrace(tracer)
        try:
            self.fns[i]()
        except BaseException as err:
            self.errors[i] = err
        finally:
            sys.settrace(None)
            self.live.discard(i)
            nxt = self.next(i)
            if nxt is None:
                self.finished.release()
            else:
                self.sems[nxt].release()

    def next(self, i):
        for k in range(1, self.n + 1):
            j = (i + k) % self.n
            if j in self.live and j != i:
                return j
        return None

    def tick(self, i, frame):
        self.count += 1
        self.steps += 1
        if self.pos < len(self.switches) and self.count >= self.switches[self.pos][0]:
            t = self.switches[self.pos][1] % self.n
            self.pos += 1
            self.count = 0
            if t not in self.live or t == i:
                t = self.next(i)
            if t is not None:
                self.places.append('%d>%d %s:%s' % (i, t, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                self.go(i, t)

    def go(self, i, t):
        self.taken += 1
        self.sems[t].release()
        self.sems[i].acquire()

    def wait_for_lock(self, i):
        """Thread i wants a lock somebody parked holds: let the others run."""
        self.blocked += 1
        t = self.next(i)
        if t is None or self.blocked > 100000:
            raise Deadlock()
        self.go(i, t)


def me():
    s = SCHED
    return None if s is None else s.ids.get(threading.get_ident())


class SimLock:
    real = staticmethod(_RealLock)

    def __init__(self, *a):
        self._lock = self.real(*a)

    def acquire(self, blocking=True, timeout=-1):
        i = me()
        if i is None or not blocking:
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            SCHED.wait_for_lock(i)
        return True

    __enter__ = acquire

    def __exit__(self, *a):
        self._lock.release()

    def __getattr__(self, name):
        return getattr(self._lock, name)


class SimRLock(SimLock):
    real = staticmethod(_RealRLock)


def install():
    threading.Lock, threading.RLock = SimLock, SimRLock


class Workers:
    """Threads that do one thing at a time, each in turn: for handing a calculator from thread to thread."""

    def __init__(self, n):
        self.jobs = [None] * n
        self.go = [gate() for _ in range(n)]
        self.done = [gate() for _ in range(n)]
        self.out = [None] * n
        self.threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(n)]
        for t in self.threads:
            t.start()

    def body(self, i):
        while True:
            self.go[i].acquire()
            if self.jobs[i] is None:
                return
            try:
                self.out[i] = (True, self.jobs[i]())
            except BaseException as err:
                self.out[i] = (False, err)
            self.done[i].release()

    def do(self, i, fn):
        self.jobs[i] = fn
        self.go[i].release()
        self.done[i].acquire()
        ok, v = self.out[i]
        if not ok:
            raise v
        return v

    def stop(self):
        for i in range(len(self.jobs)):
            self.jobs[i] = None
            self.go[i].release()
        for t in self.threads:
            t.join()
