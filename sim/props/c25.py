"""C25: calculations and the program around them do not disturb each other."""
import builtins
import decimal
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import warnings
from contextlib import contextmanager, nullcontext

import numpy

from .. import lib
from .. import sess
from .. import world as W
from ..runner import Prop, Violation

SIGNALS = ['Inexact', 'Rounded', 'Subnormal', 'Underflow', 'Clamped', 'FloatOperation', 'InvalidOperation', 'DivisionByZero', 'Overflow']
TEXTS = ['fact(300)', 'fact(400) / fact(398)', '(2 ^ 3000) as hexadecimal', 'hex(2 ^ 330)', '1E330 as binary', 'bin(7 ^ 100)', '0x' + 'F' * 700, '1' * 700, '1 / 3', '2 ^ 0.5', '10 ^ 60 / 7', '1E50 * 1E40', '1E-40 / 3', '1E99 * 10', '(1 / 7) as scientific', '1 / 0', 'log(0)', 'sqrt(-1)', 'fact(70)', 'sin(1)', 'exp(500)', 'sp_gamma(0.5)', 'sp_zeta(3)', 'sp_lambertw(1)', 'sp_lambertw(-0.2)', 'sp_hankel1(1, 2)', 'sp_kv(1, 800)', 'sp_jv(500, 0.001)', 'sp_ndtr(-40)', 'sp_exp1(800)', 'sp_gamma(200)', 'sp_gamma(-1)', 'sp_beta(300, 400)', 'sp_logit(0)', 'sp_logit(2)', 'sp_iv(1, 900)', 'sp_hyp2f1(1, 2, 3, 1)', 'sp_airy_ai(200)', 'sp_agm(1E-200, 1E200)', 'sp_loggamma(-0.5)', 'sp_boxcox(-1, 2)', 'sp_kelvin_be(1)', 'sp_h1vp(1, 2)', 'sp_bdtrc(3, 10, 0.5)', 'sp_pdtr(1E300, 2)', '[sp_gamma(0.5), sp_expn(2, 900), sp_erf(3)]', '1E400', '0.1 + 0.2', '2 / 3 miles to km', '1E5 +$ 2', 'string(1E30)',
         'exp(-500)', 'tan(1.5)', 'asin(2)', 'round(2 / 3, 20)', 'now()', "dateadd('2000-01-01', 1 / 3 days)", 'stdev([1, 2, 4])', '[1 / 3, 2 / 3] * 3', '2 ^ 300', '2 ^ 400 / 3', 'sum([0.1, 0.2, 0.3]) == 0.6', 'hex(2 ^ 70)', '0x1F / 3', '1E-7 * 1', '-7 % 3',
         'format(12345.678 m, si)', 'scientific(0.000123456)', 'pi * 1E30', 'qa / 3', 'qb = qa / 7', 'qb * 3', 'qc = [1 / 3, 1E40 / 7]', 'qc * 2', 'compact(123456789 m)', "1 / 3 +$ 'x'", '50% of 1 / 3', 'cosh(400)', 'float(1 / 3)', 'arcsinh(1E300)', '5 m / 3 s to km / h',
         "qf = './lib/fna'\n@qf(3)", "qf = './lib/fna'\n@qf([1, 2])", "qf = './lib/fnb'\n@qf(3)", "qf = './fnc'\n@qf(1)", "qf = './lib/none'\n@qf(1)", "qf = './lib/fnd'\n@qf(4)", "qf = './fne'\n[@qf(1), 2]", "qf = {PARAM1 / 0}\n@qf(1)", "qf = {qq = PARAM1 / 3\nqq}\n@qf([1, 2])"]
FILES = {'lib/fna': 'qx = PARAM1 / 3\nqx * 2', 'lib/fnb': 'qx = PARAM1 / 0\nqx', 'fnc': "qg = './lib/fna'\n@qg(PARAM1)", 'lib/fnd': '1 +', 'fne': "qg = './lib/fnb'\nnow()\n@qg(PARAM1)"}


class C25(Prop):
    id = 'C25'
    seconds = dict(Prop.seconds, quick=55)
    rule = ('sessions with faults of every kind on threads whose decimal context has any precision, rounding, limits, traps, flags and letter case, and in '
            'processes with other warning filters, floating-point error handling and digit limits, changed between and created before or after the calculator: '
            'every response and variable against the same session in a plain process; the context, filters, directory, environment, paths, limits, output, '
            'random state, signal handlers and threads of the process before and after every calculation; non-trivial: a calculation that failed or was '
            'interrupted under a context other than the default')
    measure = 'hash of (settings of the process, operation kinds, faults fired)'
    must_reach = ('calculated', 'failed', 'interrupted', 'traps', 'limits', 'created-under-settings', 'fault:leaf', 'fault:clock')
    runs = {'quick': 20000, 'thorough': 200000}

    def gen(self, rng, i, tier):
        t = sess.Texts(rng)
        ops = [{'k': 'calc', 'text': 'qa = %s' % rng.choice(['2', '1 / 3', '0xFF', '5 m', '1E20 / 3'])}]
        for _ in range(rng.choice([4, 8, 12])):
            k = rng.random()
            if k < 0.15:
                op = sess.setting(rng, t.focus)
            else:
                op = {'k': 'calc', 'text': rng.choice(TEXTS) if rng.random() < 0.6 else t.any() if rng.random() < 0.8 else t.broken(t.any())}
                if rng.random() < 0.35:
                    op['faults'] = [sess.gen_fault(rng)]
                if '@qf' in op['text'] and rng.random() < 0.5:
                    op['faults'] = [{'point': rng.choice(['open', 'read', 'close', 'leaf', 'clock']), 'n': rng.choice([0, 0, 1, 5]), 'kind': rng.choice(W.IO_ERRORS + W.INTERRUPTS * 2)}]
                if rng.random() < 0.1:
                    op['flags'] = {rng.choice(['include_state', 'stateless', 'parse_only']): True}
                if rng.random() < 0.1:
                    op['text'] = rng.choice(["boom('%s') + %s", "[1, boom('%s'), %s]", "probe('p', %s) + boom('%s')"][:2]) % (rng.choice(W.ERRORS), rng.choice(TEXTS))
            op = dict(op)
            if rng.random() < 0.5:
                op['settings'] = self.settings(rng)
            ops.append(op)
        return {'env': {'tick_ns': 0}, 'ops': ops, 'first': self.settings(rng) if rng.random() < 0.5 else None, 'preset': rng.choice(['Computing', 'Computing', 'Advanced', 'Scientific'])}

    def settings(self, rng):
        s = {'prec': rng.choice([1, 3, 9, 28, 200]), 'rounding': rng.choice(sess.ROUNDINGS)}
        if rng.random() < 0.5:
            s['traps'] = rng.sample(SIGNALS, rng.choice([0, 1, 2, 4, 9]))
        if rng.random() < 0.3:
            s['Emax'] = rng.choice([0, 20, 99, 999])
            s['Emin'] = -rng.choice([0, 20, 99, 999])
        if rng.random() < 0.3:
            s['flags'] = rng.sample(SIGNALS, rng.choice([1, 2, 9]))
        if rng.random() < 0.3:
            s['capitals'] = 0
        if rng.random() < 0.2:
            s['clamp'] = 1
        if rng.random() < 0.3:
            s['digits'] = rng.choice([640, 0, 5000])
        if rng.random() < 0.2:
            s['defaults'] = rng.sample(SIGNALS, rng.choice([0, 2, 9]))
        if rng.random() < 0.3:
            s['floats'] = rng.choice(['raise', 'ignore', 'warn'])
        if rng.random() < 0.3:
            s['warnings'] = rng.choice(['default', 'always', 'ignore', 'once'])
        if rng.random() < 0.15:
            s['locale'] = 'C.UTF-8'
        if rng.random() < 0.15:
            s['collector'] = False
        if rng.random() < 0.15:
            s['same'] = True            # change the context there is instead of bringing another
        return s

    def adopt(self, s, old=None):
        """The thread's context as the program around has it: a new one, or the one there is with other settings."""
        new = decimal.Context(prec=s['prec'], rounding=s['rounding'], Emin=s.get('Emin', -999999), Emax=s.get('Emax', 999999), capitals=s.get('capitals', 1), clamp=s.get('clamp', 0),
                              flags=[getattr(decimal, x) for x in s.get('flags', [])], traps=[getattr(decimal, x) for x in s['traps']] if 'traps' in s else None)
        if s.get('same') and old is not None:
            for a in ('prec', 'rounding', 'Emin', 'Emax', 'capitals', 'clamp', 'flags', 'traps'):
                setattr(old, a, getattr(new, a))
            new = old
        self.context, self.digits = new, s.get('digits', 4300)
        if 'defaults' in s:
            d = decimal.DefaultContext
            d.prec, d.rounding, d.Emax, d.capitals = s['prec'], s['rounding'], s.get('Emax', 999999), s.get('capitals', 1)
            for x in SIGNALS:
                d.traps[getattr(decimal, x)] = x in s['defaults']
        self.floats, self.warnings = s.get('floats'), s.get('warnings')
        self.locale, self.collector = s.get('locale', 'C'), s.get('collector', True)

    @contextmanager
    def around(self):
        plain = decimal.getcontext()
        digits = sys.get_int_max_str_digits()
        if self.context is not None:
            decimal.setcontext(self.context)
            sys.set_int_max_str_digits(self.digits)
            locale.setlocale(locale.LC_TIME, self.locale)
            (gc.enable if self.collector else gc.disable)()
        with numpy.errstate(all=self.floats) if self.floats else nullcontext(), warnings.catch_warnings():
            if self.warnings:
                warnings.simplefilter(self.warnings)
            before = self.process()
            try:
                yield
            finally:
                self.seen.append([before, self.process()])
                decimal.setcontext(plain)
                sys.set_int_max_str_digits(digits)
                locale.setlocale(locale.LC_TIME, 'C')
                gc.enable()

    def left_alone(self, op, outcome):
        for before, after in self.seen:
            if after != before:
                # outside a calculation a calculator's number size and rounding also become those of the thread
                bad = sorted(k for k in before if before[k] != after[k] and (op or k not in ('prec', 'rounding')))
                if not bad:
                    continue
                raise Violation('calculation-changed-the-process' if op else 'creation-changed-the-process', operation=op, names=bad, outcome=outcome,
                                changed={k: [str(before[k])[:500], str(after[k])[:500]] for k in bad if k != 'environment'})

    def process(self):
        c = decimal.getcontext()
        return {
            'context': id(c), 'prec': c.prec, 'rounding': c.rounding, 'limits': [c.Emin, c.Emax, c.capitals, c.clamp],
            'flags': sorted(x.__name__ for x, on in c.flags.items() if on), 'traps': sorted(x.__name__ for x, on in c.traps.items() if on),
            'numpy': numpy.geterr(), 'warnings': [repr(f) for f in warnings.filters], 'directory': os.getcwd(), 'environment': dict(os.environ), 'path': list(sys.path),
            'recursion limit': sys.getrecursionlimit(), 'digits': sys.get_int_max_str_digits(), 'random': hash(random.getstate()), 'numpy random': hash(str(numpy.random.get_state())), 'output': [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
            'signals': [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)], 'locale': locale.setlocale(locale.LC_ALL), 'threads': threading.active_count(), 'switch interval': sys.getswitchinterval(),
            'trace': [repr(sys.gettrace()), repr(sys.getprofile())], 'hooks': [id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)], 'default': repr(decimal.DefaultContext), 'umask': umask(),
            'collector': [gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)], 'printing': repr(numpy.get_printoptions()), 'stack size': threading.stack_size(), 'timeout': socket.getdefaulttimeout(),
            'logging': [logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable], 'names': sorted(builtins.__dict__), 'files': len(os.listdir('/proc/self/fd')), 'priority': os.getpriority(os.PRIO_PROCESS, 0),
            'limits of the process': [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU)], 'timers': signal.getitimer(signal.ITIMER_REAL)[1:],
        }

    def session(self, sub, plan, disturbed):
        w = sub.world(plan['env'])
        seen = []
        gc.enable()                 # as in an ordinary process
        self.context, self.floats, self.warnings, self.seen = None, None, None, []
        lib.AROUND = self.around
        with w:
            real, sys.stdout = sys.stdout, io.StringIO()
            try:
                if disturbed and plan['first']:
                    sub.stats['created-under-settings'] += 1
                    self.adopt(plan['first'])
                    with self.around():
                        c = lib.ModularCalculator(plan['preset'])
                else:
                    c = lib.ModularCalculator(plan['preset'])
                if 'structure.functions' in c.installed_features:
                    lib.add_host_functions(c, w)
                for name, body in FILES.items():
                    w.write_file(name, body)
                self.left_alone(None, None)
                settings = plan['first'] if disturbed else None
                for n, op in enumerate(plan['ops']):
                    if disturbed and op.get('settings'):
                        settings = op['settings']
                        self.adopt(settings, self.context)
                    self.seen = []
                    d = sess.apply(c, op, w)
                    how = '' if op['k'] != 'calc' else 'interrupted' if 'interrupt' in d else 'failed' if 'error' in d or 'leak' in d else 'calculated'
                    if disturbed and op['k'] == 'calc':
                        sub.stats[how] += 1
                        if settings is not None:
                            sub.stats['traps'] += 'traps' in settings
                            sub.stats['limits'] += 'Emax' in settings
                            sub.nontrivial = sub.nontrivial or how != 'calculated'
                            sub.sig.append([sorted(settings.items(), key=str), how, d.get('fired')])
                        self.left_alone(op, d)
                        if sys.stdout.getvalue():
                            raise Violation('calculation-printed', operation=op, text=sys.stdout.getvalue()[:300])
                    seen.append([d, lib.canon_vars(c.vars, c) if hasattr(c, 'vars') else None])
            finally:
                sys.stdout = real
        sub.record(seen)
        return {'seen': seen, 'nontrivial': bool(sub.nontrivial), 'sig': sub.sig}

    def run(self, plan, run):
        a = run.fork(self.session, plan, False)
        b = run.fork(self.session, plan, True)
        run.nontrivial = b['nontrivial']
        run.sig.append(b['sig'])
        for n, (op, x, y) in enumerate(zip(plan['ops'], a['seen'], b['seen'])):
            if x != y:
                raise Violation('depends-on-the-process-around', op=n, operation=op, plain=x, here=y)


def umask():
    old = os.umask(0o22)
    os.umask(old)
    return old


PROP = C25()
