"""Runs, workers, minimisation, replay and evidence."""
import collections
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import time as _time
import traceback

from .world import Discard

_perf = _time.perf_counter          # bound before the seams are installed: the harness' own clock
_sleep = _time.sleep

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 30                    # real seconds for one run before the watchdog ends it
HANG_STEPS = 60_000_000             # interpreter steps after which a run counts as making no progress
MEM_LIMIT = 6 << 30


class Violation(Exception):

    def __init__(self, kind, **detail):
        super().__init__(kind)
        self.kind = kind
        self.detail = detail


class Run:
    """What a property's run reports: statistics, a trace, the measure of distinctness."""

    def __init__(self):
        self.stats = collections.Counter()
        self.trace = []
        self.sim_ns = 0
        self.sig = []
        self.nontrivial = False
        self.worlds = []
        self.verbose = False

    def record(self, *what):
        self.trace.append(list(what))

    def world(self, env=None):
        from .world import World
        w = World(env)
        self.worlds.append(w)
        return w

    def absorb(self):
        """Fold the counters of the worlds of this process into the run."""
        for w in self.worlds:
            for k, v in w.counts.items():
                self.stats[k] += v
            self.sim_ns += w.sim_ns
            for f in w.fired:
                self.stats['faults-fired'] += 1
            self.trace.append(['events', w.events])
        self.worlds = []

    def digest(self):
        return hashlib.sha256(json.dumps(self.trace, sort_keys=True, default=str).encode()).hexdigest()[:16]

    def fork(self, fn, *args, **kw):
        """Run fn in a forked copy of this process: its effects stay there."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                sub = Run()
                sub.verbose = self.verbose
                msg = execute(lambda: fn(sub, *args, **kw), sub)
                with os.fdopen(w, 'wb') as fh:
                    fh.write(json.dumps(msg, default=str).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            raise Violation('process-died', where='variant')
        msg = json.loads(data)
        for k, v in msg['stats'].items():
            self.stats[k] += v
        self.sim_ns += msg['sim_ns']
        self.trace.append(['variant', msg['digest']])
        self.last_sig = msg['sig']
        if msg['status'] == 'violation':
            raise Violation(msg['violation']['kind'], **msg['violation']['detail'])
        if msg['status'] == 'discard':
            raise Discard()
        if msg['status'] == 'error':
            raise VariantError(msg['error'])
        return msg['value']


class VariantError(Exception):
    pass


def blame_library(tb):
    """Whether an exception escaped from a call into the library, rather than arising in the harness."""
    from . import lib
    frames = traceback.extract_tb(tb)
    base = os.path.join(lib.REPO, 'modularcalculator') + os.sep
    return bool(frames) and frames[-1].filename.startswith(base)


def execute(fn, run):
    msg = {'status': 'ok', 'value': None}
    try:
        msg['value'] = fn()
    except Violation as v:
        msg['status'] = 'violation'
        msg['violation'] = {'kind': v.kind, 'detail': json.loads(json.dumps(v.detail, default=str))}
    except Discard:
        msg['status'] = 'discard'
    except BaseException as err:
        text = ''.join(traceback.format_exception(err))[-3000:]
        if blame_library(err.__traceback__):
            msg['status'] = 'violation'
            msg['violation'] = {'kind': 'library-exception', 'detail': {'exception': type(err).__name__, 'traceback': text}}
        else:
            msg['status'] = 'error'
            msg['error'] = text
    from . import seams
    if seams.WORLD is not None:
        try:
            seams.WORLD.__exit__()
        except Exception:
            pass
    run.absorb()
    msg['stats'] = dict(run.stats)
    msg['sim_ns'] = run.sim_ns
    msg['digest'] = run.digest()
    msg['sig'] = hashlib.sha256(json.dumps(run.sig, default=str).encode()).hexdigest()[:12]
    msg['nontrivial'] = bool(run.nontrivial)
    if run.verbose:
        msg['trace'] = run.trace
    return msg


# ----------------------------------------------------------------------------- one run, in its own process

def _watch_steps(limit):
    """Deterministic hang detector: interpreter steps counted by sys.monitoring."""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, 'mcsim')
    count = [0]

    class NoProgress(BaseException):
        pass

    def step(*a):
        count[0] += 1
        if count[0] > limit:
            mon.set_events(tool, 0)
            os.write(_hang_fd, json.dumps({'status': 'violation', 'violation': {
                'kind': 'no-progress', 'detail': {'steps': limit, 'stack': ''.join(traceback.format_stack(limit=12))[-1500:]}},
                'stats': {}, 'sim_ns': 0, 'digest': 'hang', 'sig': 'hang', 'nontrivial': False, 'value': None}).encode())
            os._exit(0)

    mon.register_callback(tool, mon.events.JUMP, step)
    mon.register_callback(tool, mon.events.PY_START, step)
    mon.set_events(tool, mon.events.JUMP | mon.events.PY_START)


_hang_fd = None


def run_isolated(prop, plan, timeout=None, steps=None, verbose=False):
    """Fork, run, collect.  Returns the message, or {'status': 'died'|'timeout'}."""
    global _hang_fd
    timeout = timeout or (RUN_TIMEOUT if prop.hangs else RUN_TIMEOUT // 3)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            run = Run()
            run.verbose = verbose
            if steps:
                _hang_fd = w
                _watch_steps(steps)
            msg = execute(lambda: prop.run(plan, run), run)
            msg.pop('value', None)
            data = json.dumps(msg, default=str).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    chunks = []
    end = _perf() + timeout
    timed_out = False
    while True:
        left = end - _perf()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    clean_scratch(pid)
    if timed_out:
        return {'status': 'timeout'}
    data = b''.join(chunks)
    if not data:
        return {'status': 'died', 'wait': status}
    try:
        return json.loads(data)
    except ValueError:
        return {'status': 'died', 'wait': status}


def scratch_base():
    return os.environ['MCSIM_TMP']


def clean_scratch(pid):
    base = scratch_base()
    if os.path.basename(os.path.dirname(base + '/')).startswith('mcsim-'):
        d = os.path.join(base, str(pid))
        if os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)


def settle(prop, plan, msg):
    """Turn timeouts and deaths into a reproducible violation, or into an error."""
    if msg['status'] == 'timeout':
        if not prop.hangs:
            return {'status': 'slow'}
        again = run_isolated(prop, plan, timeout=RUN_TIMEOUT * 3, steps=HANG_STEPS)
        if again['status'] == 'violation':
            return again
        return {'status': 'slow'}
    if msg['status'] == 'died':
        again = run_isolated(prop, plan)
        if again['status'] == 'died':
            return dict(empty_msg(), status='violation', violation={'kind': 'process-died', 'detail': {'wait': msg['wait']}})
        return {'status': 'error', 'error': 'a run died (wait status %s) and did so only once' % msg['wait']}
    return msg


def empty_msg():
    return {'stats': {}, 'sim_ns': 0, 'digest': '', 'sig': '', 'nontrivial': False}


# ----------------------------------------------------------------------------- workers

def run_seed(base, pid, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%d' % (base, pid, i)).encode()).digest()[:8], 'big')


def make_plan(prop, base, i, tier):
    rng = random.Random(run_seed(base, prop.id, i))
    plan = prop.gen(rng, i, tier)
    return json.loads(json.dumps(plan))


def worker(prop, base, tier, w, nworkers, total, deadline, out, stop_r):
    i = w
    while i < total and _perf() < deadline:
        if select.select([stop_r], [], [], 0)[0]:
            break
        t = _perf()
        plan = make_plan(prop, base, i, tier)
        msg = settle(prop, plan, run_isolated(prop, plan))
        msg['i'] = i
        if msg['status'] in ('ok', 'violation') and (i // nworkers) % 16 == 0 and msg.get('digest') not in ('hang', ''):
            again = run_isolated(prop, plan)
            msg['rechecked'] = True
            if again.get('status') not in ('timeout', 'died') and (again['digest'] != msg['digest'] or again['status'] != msg['status']):
                msg['nondeterministic'] = True
        msg['real_s'] = _perf() - t
        data = (json.dumps(msg, default=str) + '\n').encode()
        os.write(out, len(data).to_bytes(8, 'big') + data) if len(data) < 3000 else _write_all(out, len(data).to_bytes(8, 'big') + data)
        i += nworkers


def _write_all(fd, data):
    while data:
        data = data[os.write(fd, data):]


class Collector:

    def __init__(self, fd):
        self.fd = fd
        self.buf = b''

    def feed(self):
        data = os.read(self.fd, 1 << 16)
        if not data:
            return None
        self.buf += data
        msgs = []
        while len(self.buf) >= 8:
            n = int.from_bytes(self.buf[:8], 'big')
            if len(self.buf) < 8 + n:
                break
            msgs.append(json.loads(self.buf[8:8 + n]))
            self.buf = self.buf[8 + n:]
        return msgs


def load_prop(pid):
    return importlib.import_module('sim.props.' + pid.lower()).PROP


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    data = json.load(open(path))
    return [f for f in data['findings'] if f['property'] == pid]


def matches_finding(finding, violation):
    if finding['kind'] != violation['kind']:
        return False
    return all(violation['detail'].get(k) == v for k, v in finding.get('match', {}).items())


def check(pid, tier, base, nworkers=None, runs=None, seconds=None):
    t0 = _perf()
    from . import lib
    prop = load_prop(pid)
    lib.load()
    prop.setup()
    total = runs or prop.runs[tier]
    seconds = seconds or prop.seconds[tier]
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    known = known_findings(pid)
    gc.collect()
    gc.freeze()
    gc.disable()

    stop_r, stop_w = os.pipe()
    collectors, pids = {}, []
    deadline = t0 + seconds
    for w in range(nworkers):
        r, out = os.pipe()
        sys.stdout.flush()
        p = os.fork()
        if p == 0:
            try:
                os.close(r)
                os.close(stop_w)
                worker(prop, base, tier, w, nworkers, total, deadline, out, stop_r)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
        os.close(out)
        collectors[r] = Collector(r)
        pids.append(p)

    stats = collections.Counter()
    sigs = set()
    n = discards = slow = rechecked = 0
    sim_ns = 0
    violations, errors, findings = [], [], {}
    nondet = []
    while collectors:
        ready, _, _ = select.select(list(collectors), [], [], 5)
        for r in ready:
            msgs = collectors[r].feed()
            if msgs is None:
                os.close(r)
                del collectors[r]
                continue
            for m in msgs:
                if m['status'] == 'slow':
                    slow += 1
                    if os.environ.get('MCSIM_SLOW'):
                        print('slow: run %d, %.0f s' % (m['i'], m['real_s']))
                    continue
                if os.environ.get('MCSIM_SLOW') and m['real_s'] > float(os.environ['MCSIM_SLOW']):
                    print('%s: run %d, %.1f s' % (m['status'], m['i'], m['real_s']))
                if m['status'] == 'error':
                    errors.append(m)
                    continue
                if m['status'] == 'discard':
                    discards += 1
                    continue
                n += 1
                sim_ns += m['sim_ns']
                for k, v in m['stats'].items():
                    stats[k] += v
                if m['nontrivial']:
                    sigs.add(m['sig'])
                if m.get('rechecked'):
                    rechecked += 1
                if m.get('nondeterministic'):
                    nondet.append(m['i'])
                if m['status'] == 'violation':
                    for f in known:
                        if matches_finding(f, m['violation']):
                            findings[f['what']] = findings.get(f['what'], 0) + 1
                            break
                    else:
                        violations.append(m)
                        if len(violations) == 1:
                            os.write(stop_w, b'x')
    bad_exit = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st != 0:
            bad_exit += 1

    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))

    elapsed = _perf() - t0
    exit_code = 0
    replay = None
    if violations:
        m = min(violations, key=lambda m: m['i'])
        plan = make_plan(prop, base, m['i'], tier)
        small, vio, tried = minimise(prop, plan, m['violation'], 45 if tier == 'quick' else 180)
        replay = write_replay(prop, base, m['i'], tier, small, vio, plan)
        ok = confirm(replay)
        if not ok and small != plan:
            replay = write_replay(prop, base, m['i'], tier, plan, m['violation'], plan)
            ok = confirm(replay)
        if ok:
            print('violated: %s' % vio['kind'])
            print(json.dumps(vio['detail'], indent=1, default=str)[:3000])
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(replay, VERIF)))
            exit_code = 1
        else:
            print('HARNESS-ERROR: violation of run %d did not reproduce in a fresh process: %s' % (m['i'], json.dumps(m['violation'])[:1500]))
            exit_code = 2
    if exit_code == 0:
        if errors:
            print('HARNESS-ERROR: %d runs failed in the harness; first (run %s):\n%s' % (len(errors), errors[0]['i'], errors[0]['error']))
            exit_code = 2
        elif nondet:
            print('HARNESS-ERROR: runs %s differed when repeated' % nondet[:10])
            exit_code = 2
        elif bad_exit or n == 0:
            print('HARNESS-ERROR: %d workers failed, %d runs' % (bad_exit, n))
            exit_code = 2
        elif slow > max(3, n // 50):
            print('HARNESS-ERROR: %d runs hit the watchdog' % slow)
            exit_code = 2
        else:
            missing = [k for k in prop.must_reach if n >= prop.reach_after and not any(s.startswith(k) and stats[s] for s in stats)]
            if missing:
                print('HARNESS-ERROR: conditions never reached: %s' % missing)
                exit_code = 2

    write_evidence(prop, tier, base, n, discards, slow, rechecked, sigs, stats, sim_ns, elapsed, violations, findings)
    print('%s %s: %d runs (%d discarded), %d distinct non-trivial, %.1f s, %.0f runs/h, faults %s' % (
        pid, tier, n, discards, len(sigs), elapsed, n / max(elapsed, 0.1) * 3600,
        {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}))
    return exit_code


def write_replay(prop, base, i, tier, plan, vio, original):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%s-run%d.json' % (prop.id, base, i))
    with open(path, 'w') as fh:
        json.dump({'property': prop.id, 'seed': base, 'run': i, 'tier': tier, 'run_seed': run_seed(base, prop.id, i),
                   'violation': vio, 'plan': plan, 'size': {'minimised': len(json.dumps(plan)), 'original': len(json.dumps(original))}},
                  fh, indent=1)
    return path


def confirm(path):
    p = subprocess.run([sys.executable, '-m', 'sim', 'replay', path, '--quiet'], cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return p.returncode == 1


def replay(path, quiet=False, verbose=False):
    from . import lib
    data = json.load(open(path))
    prop = load_prop(data['property'])
    lib.load()
    prop.setup()
    steps = HANG_STEPS if data['violation']['kind'] == 'no-progress' else None
    msg = run_isolated(prop, data['plan'], timeout=600, steps=steps, verbose=verbose)
    if msg['status'] == 'died':
        msg = settle(prop, data['plan'], msg)
    if verbose:
        for t in msg.get('trace', []):
            print(json.dumps(t, default=str)[:2000])
    if msg['status'] == 'violation':
        same = msg['violation']['kind'] == data['violation']['kind']
        if not quiet:
            print('%s: %s' % ('reproduced' if same else 'a different violation', msg['violation']['kind']))
            print(json.dumps(msg['violation']['detail'], indent=1)[:6000])
            print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1 if same else 3
    if not quiet or msg['status'] == 'error':
        print('not reproduced: %s %s' % (msg['status'], msg.get('error', '')))
    return 0 if msg['status'] == 'ok' else 2


# ----------------------------------------------------------------------------- minimisation

LISTS = ('ops', 'stmts', 'faults', 'switches', 'files', 'calcs', 'threads', 'body', 'elems', 'noise', 'feats', 'calls', 'tail', 'setup', 'before', 'inner')


def list_paths(node, path=()):
    if isinstance(node, dict):
        for k, v in node.items():
            if k in LISTS and isinstance(v, list):
                yield path + (k,)
            yield from list_paths(v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from list_paths(v, path + (i,))


def ast_paths(node, path=()):
    """Paths of expression nodes: ['e', kind, ...]."""
    if isinstance(node, list) and node and node[0] == 'e':
        yield path
    if isinstance(node, dict):
        for k, v in node.items():
            yield from ast_paths(v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from ast_paths(v, path + (i,))


def get_path(node, path):
    for p in path:
        node = node[p]
    return node


def set_path(node, path, value):
    node = copy.deepcopy(node)
    if not path:
        return value
    cur = node
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = value
    return node


def candidates(prop, plan):
    yield from prop.shrink(plan)
    paths = sorted(list_paths(plan), key=len)
    for path in paths:
        lst = get_path(plan, path)
        n = len(lst)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                if n == 0:
                    break
                yield set_path(plan, path, lst[:start] + lst[start + size:])
            size //= 2
    for path in ast_paths(plan):
        node = get_path(plan, path)
        for sub in node[2:]:
            if isinstance(sub, list) and sub and sub[0] == 'e':
                yield set_path(plan, path, sub)
            elif isinstance(sub, list):
                for j, s in enumerate(sub):
                    if isinstance(s, list) and s and s[0] == 'e':
                        yield set_path(plan, path, s)
        if node[1] != 'num':
            yield set_path(plan, path, ['e', 'num', '1'])


def minimise(prop, plan, vio, seconds):
    end = _perf() + seconds
    best, best_vio, tried = plan, vio, 0
    if vio['kind'] in ('no-progress', 'process-died'):
        return best, best_vio, tried
    improved = True
    seen = set()
    while improved and _perf() < end:
        improved = False
        size = len(json.dumps(best))
        for cand in candidates(prop, best):
            if _perf() > end:
                break
            text = json.dumps(cand)
            if len(text) >= size:
                continue
            h = hashlib.sha256(text.encode()).digest()
            if h in seen:
                continue
            seen.add(h)
            tried += 1
            msg = run_isolated(prop, cand, timeout=20)
            if msg['status'] == 'violation' and msg['violation']['kind'] == vio['kind']:
                best, best_vio = cand, msg['violation']
                improved = True
                break
    return best, best_vio, tried


# ----------------------------------------------------------------------------- evidence

def write_evidence(prop, tier, base, n, discards, slow, rechecked, sigs, stats, sim_ns, elapsed, violations, findings):
    samples = []
    for i in range(3):
        try:
            samples.append({'run': i, 'plan': make_plan(prop, base, i, tier)})
        except Exception:
            pass
    ev = {
        'property': prop.id, 'tier': tier, 'seed': base, 'level': 'exploration',
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(sigs),
            'rule': prop.rule,
            'samples': samples,
            'runs_per_hour': int(n / max(elapsed, 0.1) * 3600),
            'seeds_per_hour': int(n / max(elapsed, 0.1) * 3600),
            'simulated_seconds': round(sim_ns / 1e9, 6),
            'faults_injected': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
            'conditions_hit': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault:')},
            'distinctness_measure': prop.measure,
            'runs_repeated_for_determinism': rechecked,
            'runs_discarded': discards,
            'runs_over_watchdog': slow,
            'components': prop.components,
            'known_findings_seen': findings,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(elapsed, 2),
        'violations': len(violations),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)


class Prop:
    """A property: how plans are generated and judged."""
    id = None
    runs = {'quick': 4000, 'thorough': 200000}
    seconds = {'quick': 45, 'thorough': 1500}
    rule = ''
    measure = ''
    must_reach = ()
    reach_after = 300
    hangs = True            # a run that makes no progress is a violation (otherwise it is only too long a calculation)
    components = {'real': 'the whole library from /repo (parser, engine, features, number and unit code), CPython, decimal, numpy/scipy',
                  'simulated': 'clocks (time.*, datetime.now), the files the library opens (over a scratch directory), host functions, interruptions'}
    assumptions = ['sampled, not exhaustive: a quiet run is evidence for the runs it made',
                   'CPython 3.12, its decimal module and the operating system behave as documented']

    def setup(self):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, plan, run):
        raise NotImplementedError

    def shrink(self, plan):
        return ()
