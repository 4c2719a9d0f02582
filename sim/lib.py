"""Access to the library under test, canonical forms of its values, host functions."""
import os
import re
import sys
from contextlib import nullcontext

from . import seams
from . import world as W

REPO = os.environ.get('MCSIM_REPO', '/repo')
_loaded = False


class HarnessError(Exception):
    """Something the simulator relies on is missing or broken: never a violation."""


def load():
    """Install the seams and import the library from the working tree."""
    global _loaded, ModularCalculator, Number, OperandResult, UnitPowerList, OperationResult, FunctionDefinition, OperatorDefinition
    global CalculatorException, CalculatingException, ExecutionException, ParsingException, InlineFunctionItem
    if _loaded:
        return
    seams.install()
    import warnings
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import modularcalculator
    if not os.path.abspath(modularcalculator.__file__).startswith(REPO + os.sep):
        raise HarnessError('wrong library: %s' % modularcalculator.__file__)
    from modularcalculator.modularcalculator import ModularCalculator as M
    from modularcalculator.objects.number import Number as N
    from modularcalculator.objects.items import OperandResult as O
    from modularcalculator.objects.units import UnitPowerList as U
    from modularcalculator.objects.operators import OperationResult as OR, OperatorDefinition as OD
    from modularcalculator.features.structure.functions import FunctionDefinition as F
    from modularcalculator.objects.exceptions import (CalculatorException as CE, CalculatingException as CG,
                                                      ExecutionException as EX, ParsingException as PX)
    from modularcalculator.features.structure.inlinefunctions import InlineFunctionItem as I
    ModularCalculator, Number, OperandResult, UnitPowerList, OperationResult, FunctionDefinition = M, N, O, U, OR, F
    CalculatorException, CalculatingException, ExecutionException, ParsingException = CE, CG, EX, PX
    InlineFunctionItem = I
    OperatorDefinition = OD
    _loaded = True
    # first-use imports (scipy, ...) happen here; no calculator is made, so that what a run makes first is the first
    import glob
    from importlib import import_module
    base = os.path.join(REPO, 'modularcalculator', 'features')
    for path in sorted(glob.glob(os.path.join(base, '*', '*.py'))):
        if not path.endswith('__init__.py'):
            import_module('modularcalculator.features.%s.%s' % (os.path.basename(os.path.dirname(path)), os.path.basename(path)[:-3]))


_pool = {}


def prebuild(preset, n):
    """Calculators built before the runs fork: each run uses pristine copies."""
    load()
    lst = _pool.setdefault(preset, [])
    while len(lst) < n:
        lst.append(ModularCalculator(preset))


def take(preset='Computing'):
    lst = _pool.get(preset)
    return lst.pop() if lst else ModularCalculator(preset)


# ----------------------------------------------------------------------------- canonical forms

def canon_unit(u):
    if u is None:
        return None
    if isinstance(u, UnitPowerList):
        return [str(u), u.plural()]
    return ['?', type(u).__name__, str(u)]


def canon_number(v, c, display=True):
    out = ['n', '{0:f}'.format(v.num), '{0:f}'.format(v.den)]
    if display and abs(v.num.adjusted()) + abs(v.den.adjusted()) > 3000:
        out.append('too long to show')        # takes minutes in some representations
    elif display:
        try:
            out.append(v.to_string(c))
        except Exception as err:
            out.append('!' + type(err).__name__)
    return out


def canon(v, c, display=True):
    """A JSON form of a value with everything a user can see of it."""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, Number):
        return canon_number(v, c, display)
    if isinstance(v, str):
        return ['s', scrub(v)]
    if isinstance(v, list):
        return ['l'] + [canon_result(e, c, display) for e in v]
    if isinstance(v, OperandResult):
        return canon_result(v, c, display)
    if isinstance(v, UnitPowerList):
        return ['u'] + canon_unit(v)
    if isinstance(v, InlineFunctionItem):
        return ['f', v.text]
    if isinstance(v, CalculatorException):
        return ['x', scrub(v.message)]
    if isinstance(v, BaseException):
        return ['X', type(v).__name__, scrub(str(v))]
    return ['?', type(v).__name__]


def canon_result(r, c, display=True):
    if not isinstance(r, OperandResult):
        return ['raw', canon(r, c, display)]
    return [canon(r.value, c, display), canon_unit(r.unit)]


def canon_pair(p, c, display=True):
    return [canon(p[0], c, display), canon_unit(p[1])]


def canon_vars(vars, c, display=True):
    return {k: canon_pair(vars[k], c, display) for k in sorted(vars)}


def grown(v):
    """Has a value grown so large that calculating with it may take minutes?"""
    if isinstance(v, Number):
        return abs(v.num.adjusted()) + abs(v.den.adjusted()) > 1000
    if isinstance(v, list):
        return len(v) > 200 or any(grown(e) for e in v)
    if isinstance(v, str):
        return len(v) > 5000
    if isinstance(v, OperandResult):
        return grown(v.value) or grown(v.unit)
    if isinstance(v, UnitPowerList):
        return sum(abs(p.power.to_decimal()) for p in v.list()) > 20
    return False


ADDRESS = re.compile(r'<([\w.]+) object at 0x[0-9a-f]+>')


def scrub(text):
    w = seams.WORLD
    return w.scrub(text) if w is not None and w.root else text


def get_vars(c):
    return c.vars


def canon_calc_result(r, c, timings=False, display=True):
    out = {'text': r.expression}
    if r.has_result():
        out['value'] = canon(r.value, c, display)
        out['unit'] = canon_unit(r.unit)
    if r.has_state():
        out['state'] = canon_vars(r.state, c, display)
    if timings:
        out['timings'] = dict(r.timings)
    return out


AROUND = None       # a context manager: what a program around puts around each calculation


def call(c, expr, flags=None, leaf=None):
    """calculate(), with faults in force only while it runs; leaf: a world whose leaf points are to be counted."""
    w = seams.WORLD
    try:
        with AROUND() if AROUND is not None else nullcontext():
            with LeafTracer(leaf) if leaf is not None else nullcontext():
                return c.calculate(expr) if flags is None else c.calculate(expr, flags)
    finally:
        if w is not None:
            w.armed = []


def outcome(c, expr, flags=None, timings=False, pos=False, leaf=None):
    """Run calculate() and describe what the caller gets.  Returns (description, response)."""
    try:
        resp = call(c, expr, flags, leaf)
    except CalculatingException as err:
        d = {'error': type(err).__name__, 'message': scrub(err.message)}
        resp = err.response if err.has_response() else None
        d['results'] = [canon_calc_result(r, c, timings) for r in resp.results] if resp is not None else None
        if pos:
            d['err'] = err
        return d, resp
    except Exception as err:
        return {'leak': type(err).__name__, 'message': scrub(safe_str(err))}, None
    except W.Discard:
        raise
    except BaseException as err:
        return {'interrupt': type(err).__name__}, None
    return {'results': [canon_calc_result(r, c, timings) for r in resp.results]}, resp


def safe_str(err):
    try:
        return str(err)
    except Exception:
        return '<no text>'


# ----------------------------------------------------------------------------- host functions

def result_of(v, unit=None):
    res = OperationResult(v)
    res.set_unit(unit)
    return res


def add_function(c, name, fn, minp, maxp, objtypes=None, arrays=False):
    f = FunctionDefinition('Sim', name, 'simulator function', [], fn, minp, maxp, objtypes)
    f.units_normalise = False
    f.auto_convert_numerical_inputs = False
    f.auto_convert_numerical_result = False
    c.funcs[name] = f
    return f


def add_host_functions(c, world, tag='', hooks=None):
    """probe(label, value...): logs, is a fault point, yields its value.
    probea: the same, taking an array whole.  boom(kind): raises.  slow(ms): takes time.  act(k): runs a hook."""

    def probe(calc, vals, units, refs, flags):
        label = vals[0] if len(vals) else None
        v = vals[1] if len(vals) > 1 else label
        u = units[1] if len(vals) > 1 else (units[0] if len(vals) else None)
        lab = canon(label, c) if not isinstance(label, str) else label
        if isinstance(label, Number):
            lab = '{0:f}'.format(label.num)
        entry = [lab, [canon(x, c) for x in vals[1:]]]
        world.note('probe', tag, *entry)
        world.probe_log.append(entry)
        world.point('probe', lab)
        world.point('probe@%s' % lab, lab)
        return result_of(v, u)

    def boom(calc, vals, units, refs, flags):
        kind = vals[0] if vals else 'RuntimeError'
        world.note('boom', tag, kind)
        raise W.make_exception(kind)

    def slow(calc, vals, units, refs, flags):
        ns = int(vals[0]) * 1000
        world.note('slow', tag, ns)
        world.advance(ns)
        return result_of(vals[1] if len(vals) > 1 else vals[0], units[1] if len(vals) > 1 else None)

    def mark(calc, vals, units, refs, flags):
        k = int(vals[0].num) if isinstance(vals[0], Number) else vals[0]
        world.note('mark', tag, k)
        world.marks.append(k)
        return result_of(vals[0])

    def act(calc, vals, units, refs, flags):
        k = int(vals[0])
        world.note('act', tag, k)
        world.point('act', k)
        if hooks is not None:
            hooks(k)
        return result_of(vals[1] if len(vals) > 1 else vals[0], units[1] if len(vals) > 1 else None)

    add_function(c, 'probe', probe, 1, 2)
    f = add_function(c, 'probea', probe, 1, 2)
    f.add_value_restriction(1, 1, [None, 'array'])
    add_function(c, 'mark', mark, 1, 1)
    add_function(c, 'boom', boom, 0, 1)
    add_function(c, 'slow', slow, 1, 2)
    add_function(c, 'act', act, 1, 2)


# ----------------------------------------------------------------------------- leaf interruption points

def corpus():
    import json
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'corpus.json')
    return json.load(open(path))


LEAF_DIRS = ('features/numerical', 'features/strings', 'features/dates', 'features/boolean')
LEAF_FILES = ('objects/units.py', 'objects/number.py', 'services/unitnormaliser.py',
              'features/units/unitfunctions.py', 'features/arrays/arrayfunctions.py')


def leaf_file(filename, _cache={}):
    r = _cache.get(filename)
    if r is None:
        base = os.path.join(REPO, 'modularcalculator') + os.sep
        r = False
        if filename.startswith(base):
            rel = filename[len(base):]
            r = rel in LEAF_FILES or os.path.dirname(rel) in LEAF_DIRS
        _cache[filename] = r
    return r


class LeafTracer:
    """Counts line events in leaf modules and raises the armed fault at the chosen one."""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        world = self.world

        def local(frame, event, arg):
            if event == 'line':
                world.point('leaf')
                if world.marks:
                    world.point('leafx')
            return local

        def trial(frame, event, arg):
            if event == 'line':
                world.point('trial')
            return trial

        engine = os.path.join(REPO, 'modularcalculator', 'engine.py')
        simplifying = os.path.join(REPO, 'modularcalculator', 'services', 'unitnormaliser.py')

        def local_simp(frame, event, arg):
            if event == 'line' and world.marks:
                world.point('simp')
            return local(frame, event, arg) and local_simp

        def tracer(frame, event, arg):
            if frame.f_code.co_filename == simplifying:
                return local_simp
            if leaf_file(frame.f_code.co_filename):
                return local
            if frame.f_code.co_filename == engine:
                # while statements are tried out as they are parsed
                flags = frame.f_locals.get('flags')
                if isinstance(flags, dict) and 'fake_execution' in flags:
                    return trial
            return None

        self.old = sys.gettrace()
        sys.settrace(tracer)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False
