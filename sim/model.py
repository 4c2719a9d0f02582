"""The reference model of a session: a map from names to values, and an oracle calculator for pure expressions."""
import copy

from . import gen
from . import lib


def clone(v):
    """A deep copy of a calculator value that shares nothing mutable with it."""
    if isinstance(v, list):
        return [clone_result(e) for e in v]
    if isinstance(v, lib.Number):
        n = copy.copy(v)
        if getattr(n, 'number_cast', None) is not None and isinstance(n.number_cast, (dict, list)):
            n.number_cast = copy.deepcopy(n.number_cast)
        return n
    if isinstance(v, lib.UnitPowerList):
        return v.copy()
    return v


def clone_result(r):
    if not isinstance(r, lib.OperandResult):
        return clone(r)
    return lib.OperandResult(clone(r.value), r.unit.copy() if r.unit is not None else None, None)


def clone_pair(p):
    return (clone(p[0]), p[1].copy() if p[1] is not None else None)


def clone_vars(vars):
    return {k: clone_pair(p) for k, p in vars.items()}


class Oracle:
    """Evaluates pure expressions against given variables, on a calculator of its own."""

    def __init__(self, calc, world=None):
        self.c = calc
        self.world = world

    def arm(self, faults):
        """Put the host function faults of the coming operation in force here as well."""
        if self.world is not None:
            self.world.active = True
            from .world import INTERRUPTS
            self.world.begin_op([f for f in faults if f['point'].startswith('probe@') and f['kind'] not in INTERRUPTS])

    def pure(self, text, vars, simplify=False):
        """The value and unit of an expression, or None if it fails; the message if so."""
        c = self.c
        c.vars = clone_vars(vars)
        before = lib.canon_vars(c.vars, c)
        c.unit_simplification_set(simplify)
        try:
            resp = c.calculate(text)
        except lib.CalculatingException as err:
            return None, err.message
        finally:
            c.unit_simplification_set(False)
        results = [r for r in resp.results if r.has_result()]
        if lib.canon_vars(c.vars, c) != before:
            from .runner import Violation
            raise Violation('evaluation-changed-variables', text=text, before=before, after=lib.canon_vars(c.vars, c))
        if not results:
            return None, 'no result'
        r = results[-1]
        return (r.value, r.unit), None


class Model:
    """Variables by name, and what each kind of statement does to them."""

    def __init__(self, oracle):
        self.o = oracle
        self.vars = {}

    def canon(self):
        return lib.canon_vars(self.vars, self.o.c)

    def step(self, s):
        """Apply one statement.  Returns (failed, expected result or None if unspecified, resync variables)."""
        k = s[0]
        if k in ('set', 'setif'):
            val, err = self.o.pure(gen.text(s[2], True), self.vars)
            if err is not None:
                return True, None, ()
            if k == 'set':
                self.vars[s[1]] = clone_pair(val)
                return False, ('val', val), ()
            if s[1] not in self.vars:
                self.vars[s[1]] = clone_pair(val)
                return False, ('val', val), ()
            return False, None, ()
        if k in ('op', 'inc', 'dec'):
            sym = s[2] if k == 'op' else {'inc': '+', 'dec': '-'}[k]
            v = (lib.Number(1), None)
            if k == 'op':
                v, err = self.o.pure(gen.text(s[3], True), self.vars)
                if err is not None:
                    return True, None, ()
                if isinstance(v[0], list) or (isinstance(self.vars.get(s[1], (0,))[0], list) and not isinstance(v[0], lib.Number)):
                    # an operation over an array on the right: what it does to the variable is not specified
                    return None, None, (s[1],)
            if s[1] not in self.vars:
                return True, None, ()
            tmp = dict(self.vars)
            tmp['q_rhs_'] = clone_pair(v)
            val, err = self.o.pure('%s %s q_rhs_' % (s[1], sym), tmp)
            if err is not None:
                return True, None, ()
            self.vars[s[1]] = clone_pair(val)
            return False, ('num', val), ()
        if k == 'del':
            if s[1] not in self.vars:
                return True, None, ()
            del self.vars[s[1]]
            return False, None, ()
        if k == 'reset':
            self.vars = {}
            return False, None, ()
        if k == 'expr':
            val, err = self.o.pure(gen.text(s[1], True), self.vars)
            if err is not None:
                return True, None, ()
            return False, ('val', val), ()
        raise ValueError(k)
