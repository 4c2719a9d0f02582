"""C18: whatever fails inside a calculation, the caller gets the right results or one calculation error."""
import sys

from .. import funcs
from .. import gen
from .. import lib
from .. import sess
from .. import world as W
from ..runner import Prop, Violation, Discard
from .c01 import wrap_probes
from .c05 import AFTER, EXTRA
from .fcalls import file_text

KINDS = W.ERRORS + ['NoStrError', 'ExecuteException', 'ParsingException', 'ExecutionException', 'ENOMEM']
MORE = ["simn()", "1 + simn()", "[simn(), 2]", "simn() * simn()", "abs(simn())", "join(split('a,b,c', ','), '-')", "join([1, 2, 3] / 2, ',')", "simf(3, 4)", "simf([1, 2, 3], 2)", "(3 !! 4)", "([1, 2] !! [3, 4])", "regexget('abcabc', 'b(.)', 1)", "regexsplit('a1b2', '[0-9]')",
        "filter([1, 2, 3, 4], [1, 2, 3, 4] > 2)", "concat([1, 2], [3])", "reverse([1, 2, 3])", "max([1, 2], [3, 0])", "'12' + 3", "'0x1F' * 2", "'3' +$ 4", "length(12345)",
        "[3 m, 4 feet] to inches", "(5 m + 3 feet) ^ 2", "sort(['3', '1', '2'])", "(1 > 2) or (3 > 2)", "false and (1 / 0 == 1)", "(2 > 1) then 5 else (1 / 0)", "5 m/s to feet/minute",
        "simu(4 m)", "simu([1 m, 2 feet])", "'0b11' & 6", "sum('1', '2', '0x10')", "max('5', '40')", "[1, '2', '0x3'] * 2", "'7' == 7", "'5' > '40'", "('3' m) to feet", "mean(['1', '2'])",
        "substr('hello', 1, 3)", "find('hello', 'l')", "replace('hello', 'l', '0x1')", "round('2.567', 2)", "6 & 3", "~5", "(3 == 3) xor (1 == 2)",
        "variance([1, 2, 4])", "0xAB as binary", "1 + ((2 * 3) - 4) / ((5))", "abs(abs(abs(abs(0 - 7))))", "[[1, 2], [3, [4, 5]]] * 2", "@zfa(@zfb(1))",
        "dateadd(['2000-01-01', '2001-01-01'], 1 month)", "100 kelvin to celsius", "(3 feet + 2 inches) to m", "floor(7.5 m)", "4 kg / (3 feet m)", "5 m * 3 feet / 2 miles", "3 hours * 5 m / 2 minutes", "2 kg m^2 / (s minute feet)"]


def stmt(s):
    return gen.stmt_text(s)


def leq(got, want):
    """Is a canonical value the wanted one but for elements that failed?"""
    if got == want:
        return True
    if isinstance(got, list) and isinstance(want, list) and got and want:
        if got[0] in ('x', 'X'):
            return True
        if got[0] == 'l' and want[0] == 'l' and len(got) == len(want):
            return all(elem_leq(a, b) for a, b in zip(got[1:], want[1:]))
    return False


def elem_leq(a, b):
    if isinstance(a[0], list) and a[0] and a[0][0] in ('x', 'X'):
        return True
    return a[1] == b[1] and leq(a[0], b[0])


class C18(Prop):
    id = 'C18'
    rule = ('programs of assignments, function files, inline functions, arrays, units, strings, dates and host functions in which the nth application of an operator or function, '
            'the nth validation, the nth line executed in number, unit, string and date code, or a file access raises an exception of any kind, or the stack runs out at a '
            'chosen depth below the nth application; values (but for failed elements), variables and responses are those of the statements completed before, and later '
            'calculations and the configuration those of another process without faults; non-trivial: a fault fired')
    measure = 'hash of (statement kinds, fault point, kind, whether the calculation failed, which statement)'
    must_reach = ('fault:ref', 'fault:refx', 'fault:valid', 'fault:number', 'fault:leafx', 'fault:open', 'fault:read', 'fault:probe', 'fault:stack', 'failed', 'survived')
    runs = {'quick': 20000, 'thorough': 300000}

    def setup(self):
        lib.prebuild('Computing', 2)

    # -- generation
    def gen(self, rng, i, tier):
        g = gen.Gen(rng, err=rng.choice([0, 0, 0.02]), depth=2, types=rng.choice([['num'], None]))
        g.leaf = wrap_probes(g, rng)
        g.noarr = True
        n = rng.randint(1, 3)
        files = [{'name': 'fn%d' % j, 'body': funcs.gen_friendly(rng, g, ['fn%d' % m for m in range(j + 1, n)])} for j in range(n)]
        names = [f['name'] for f in files]
        prelude = []
        g.vars = gen.VARS[:4]
        for v in gen.VARS[:rng.randint(2, 4)]:
            t = 'num' if v in ('qa', 'qb') else rng.choice(['num', 'len', 'arr', 'str'])
            prelude.append(['set', v, g.expr(t, 1)])
            g.remember(v, t)
        for k, f in enumerate(funcs.FVARS):
            if rng.random() < 0.5:
                prelude.append(['bind', f, './' + rng.choice(names)])
            else:
                prelude.append(['bindinl', f, funcs.gen_friendly(rng, g, names, funcs.FVARS[:k], True)])
        ops = []
        for _ in range(rng.randint(1, 4)):
            stmts = []
            g.vars = gen.VARS
            arrays = rng.random() < 0.3
            for _ in range(rng.choice([1, 2, 3, 5])):
                k = rng.random()
                if k < 0.3:
                    stmts.append(g.statement())
                elif k < 0.55:
                    stmts.append(['call', rng.choice([None, rng.choice(gen.VARS)]), rng.choice(funcs.FVARS),
                                  [g.expr('arr' if j == 0 and arrays and rng.random() < 0.3 else 'num', 1) for j in range(rng.choice([1, 1, 2]))]])
                else:
                    e = ['e', 'raw', rng.choice(EXTRA + MORE * 2)]
                    stmts.append(['set', rng.choice(['qe', 'qf']), e] if rng.random() < 0.6 else ['expr', e])
            op = {'stmts': stmts, 'state': rng.random() < 0.3, 'simplify': rng.random() < 0.8, 'faults': []}
            if rng.random() < 0.93:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    f = self.fault(rng, gen.labels([stmts, prelude, files]))
                    if f is not None:
                        op['faults'].append(f)
            ops.append(op)
        return {'env': {'tick_ns': 0}, 'files': files, 'prelude': prelude, 'ops': ops, 'after': rng.sample(AFTER, 5) + rng.sample(MORE, 4)}

    def fault(self, rng, labels):
        kind = rng.choice(KINDS)
        k = rng.random()
        if k < 0.22:
            return {'point': 'ref', 'n': int(10 ** rng.uniform(0, 1.8)) - 1, 'kind': kind}
        if k < 0.28:
            return {'point': 'refx', 'n': int(10 ** rng.uniform(0, 1.8)) - 1, 'kind': kind}
        if k < 0.38:
            return {'point': 'valid', 'n': int(10 ** rng.uniform(0, 2)) - 1, 'kind': kind}
        if k < 0.42:
            return {'point': 'number', 'n': int(10 ** rng.uniform(0, 2.2)) - 1, 'kind': kind}
        if k < 0.47 and labels:
            return {'point': 'probe@' + rng.choice(labels), 'n': rng.choice([0, 0, 0, 1, 2]), 'kind': kind}
        if k < 0.5:
            return {'point': 'probe', 'n': rng.randint(0, 3), 'kind': kind}
        if k < 0.56:
            return {'point': rng.choice(['open', 'read', 'close']), 'n': rng.choice([0, 0, 0, 1, 1, 2]), 'kind': rng.choice(W.IO_ERRORS + ['UnicodeDecodeError', 'MemoryError', 'ValueError'])}
        if k < 0.6:
            return {'point': 'wall', 'n': rng.choice([0, 0, 1, 4]), 'kind': kind}
        if k < 0.8:
            return {'point': 'stack', 'n': int(10 ** rng.uniform(0, 1.6)) - 1, 'kind': 'stack', 'k': int(10 ** rng.uniform(0.8, 2.3)), 'rest': rng.random() < 0.5}
        return {'point': 'leafx', 'n': int(10 ** rng.uniform(0, 3.4)), 'kind': rng.choice(['MemoryError', 'MemoryError', kind])}

    # -- execution
    def build(self, plan, w, c, tag, armed):
        lib.add_host_functions(c, w, tag)

        def simv(calc, value, unit, ref):
            return calc.validate_number(value)

        def simf(calc, vals, units, refs, flags):
            return lib.OperationResult(vals[0] * vals[1] + vals[0])

        def simn(calc, vals, units, refs, flags):
            return lib.OperationResult(lib.Number(6))

        def simu(calc, vals, units, refs, flags):
            res = lib.OperationResult(vals[0] * vals[0])
            res.set_unit(units[0])
            return res

        c.validators['simv'] = simv
        c.funcs['simf'] = lib.FunctionDefinition('Sim', 'simf', '', [], simf, 2, 2, 'simv')
        c.funcs['simn'] = lib.FunctionDefinition('Sim', 'simn', '', [], simn, 0, 0)
        c.funcs['simu'] = lib.FunctionDefinition('Sim', 'simu', '', [], simu, 1, 1, None)
        c.funcs['simu'].add_value_restriction(0, 0, 'number with unit')
        op = lib.OperatorDefinition('Sim', '!!', 'simulator operator', simf, 1, 1, ['simv', 'number'])
        c.ops.append({'!!': op})
        c.setup()
        seen = set()
        for o in [o for level in c.ops for o in level.values()] + list(c.funcs.values()):
            if id(o) not in seen and armed:
                seen.add(id(o))
                o.ref = self.shim(w, o, o.ref)
        if armed:
            for v in list(c.validators):
                c.validators[v] = self.vshim(w, v, c.validators[v])
            for name, t in list(c.number_types.items()):
                c.number_types[name] = Parsing(w, t)
        for f in plan['files']:
            w.write_file(f['name'], file_text(f))

    def shim(self, w, o, ref):
        name = o.name
        pure = not o.input_can_be_type(0, 'variable') and name not in ('mark', 'probe', 'probea', 'reset', 'delete')

        def run(*a):
            w.point('ref', name)
            f = w.point('stack', name)
            if f is None:
                res = ref(*a)
            else:
                saved = sys.getrecursionlimit()
                shrink_stack(f['k'])
                w.shrunk = True
                try:
                    res = ref(*a)
                finally:
                    if not f.get('rest'):
                        sys.setrecursionlimit(saved)
            if pure:
                w.point('refx', name)
            return res
        return run

    def vshim(self, w, name, ref):
        def run(*a):
            w.point('valid', name)
            return ref(*a)
        return run

    def prelude(self, plan, c):
        lib.outcome(c, 'reset()')
        for s in plan['prelude']:
            lib.outcome(c, stmt(s))

    def sut(self, sub, plan):
        w = sub.world(plan['env'])
        recs = []
        with w:
            c = lib.take()
            self.build(plan, w, c, 'sut', True)
            for op in plan['ops']:
                c.unit_simplification_set(op['simplify'])
                self.prelude(plan, c)
                before = sess.inventory(c)
                text = 'mark(0)\n' + '\n'.join(stmt(s) for s in op['stmts'])
                w.marks = []
                w.begin_op(op['faults'])
                leaf = w if any(f['point'].startswith('leaf') for f in op['faults']) else None
                limit = sys.getrecursionlimit()
                try:
                    d, resp = lib.outcome(c, text, {'include_state': True} if op['state'] else None, pos=True, leaf=leaf)
                finally:
                    sys.setrecursionlimit(limit)
                fired = list(w.fired_now)
                w.end_op()
                err = d.pop('err', None)
                rec = {'d': d, 'fired': fired, 'vars': lib.canon_vars(c.vars, c), 'open': sorted(w.handles.values())}
                ctx = dict(text=text, faults=fired)
                if err is not None:
                    if not isinstance(err, lib.ExecutionException):
                        raise Violation('error-of-another-kind', got=type(err).__name__, message=d['message'], **ctx)
                    if not isinstance(err.message, str) or not err.message:
                        raise Violation('error-without-message', **ctx)
                    try:
                        at = err.find_pos(text)
                    except Exception as e:
                        raise Violation('error-without-position', got=[type(e).__name__, lib.safe_str(e)], message=d['message'], **ctx)
                    if not 0 <= at <= len(text):
                        raise Violation('error-without-position', got=at, **ctx)
                    if resp is None:
                        raise Violation('error-without-response', message=d['message'], **ctx)
                if 'leak' in d or 'interrupt' in d:
                    raise Violation('not-a-calculation-error', outcome=d, **ctx)
                after = sess.inventory(c)
                if after != before:
                    raise Violation('configuration-changed', changed={k: [before.get(k), after[k]] for k in after if before.get(k) != after[k]}, **ctx)
                recs.append(rec)
                if sum(funcs.size(p[0]) for p in c.vars.values()) > 200:
                    raise Discard()
                sub.record(rec)
            self.prelude(plan, c)
            c.unit_simplification_set(True)
            tail = [lib.outcome(c, t)[0] for t in self.after(plan)]
            final = lib.canon_vars(c.vars, c)
            sub.record(tail, final)
        return {'recs': recs, 'tail': tail, 'final': final}

    def after(self, plan):
        again = []
        for op in plan['ops']:
            t = '\n'.join(stmt(s) for s in op['stmts'])
            if t not in again:
                again.append(t)
        return plan['after'] + again

    def run(self, plan, run):
        out = run.fork(self.sut, plan)
        w = run.world(plan['env'])
        with w:
            c = lib.take()
            self.build(plan, w, c, 'twin', False)
            for n, (op, rec) in enumerate(zip(plan['ops'], out['recs'])):
                c.unit_simplification_set(op['simplify'])
                self.prelude(plan, c)
                self.compare(run, n, c, op, rec)
            self.prelude(plan, c)
            c.unit_simplification_set(True)
            for t, got in zip(self.after(plan), out['tail']):
                d, _ = lib.outcome(c, t)
                if d != got:
                    raise Violation('later-calculation-differs', text=t, expected=d, got=got, faults=[r['fired'] for r in out['recs']])
            if lib.canon_vars(c.vars, c) != out['final']:
                raise Violation('later-variables-differ', expected=lib.canon_vars(c.vars, c), got=out['final'])

    def compare(self, run, n, c, op, rec):
        d, fired = rec['d'], rec['fired']
        stmts = op['stmts']
        results = d['results'][1:]
        failed = 'error' in d
        late = any(f['point'] in ('leafx', 'stack', 'number') for f in fired)
        ctx = dict(op=n, text='\n'.join(stmt(s) for s in stmts), faults=fired, outcome=d.get('message'))
        if fired:
            run.nontrivial = True
            run.stats['failed' if failed else 'survived'] += 1
            run.stats['fault:' + fired[0]['point'].split('@')[0]] += 0
            run.sig.append([[s[0] for s in stmts], fired[0]['point'], fired[0]['kind'], failed, len(results)])
        if rec['open']:
            raise Violation('file-left-open', files=rec['open'], **ctx)
        if not d['results'] and fired and failed:
            if rec['vars'] != lib.canon_vars(c.vars, c):
                raise Violation('variables-changed', expected=lib.canon_vars(c.vars, c), got=rec['vars'], **ctx)
            return                             # failed at the mark
        if len(results) > len(stmts) or not failed and len(results) != len(stmts):
            raise Violation('wrong-number-of-results', expected=len(stmts), got=len(results), **ctx)
        for k, s in enumerate(stmts):
            if fired and s[0] in ('op', 'inc', 'dec') and any(s[1] in v and isinstance(v[s[1]][0], list) and v[s[1]][0][0] == 'l' for v in (rec['vars'], lib.canon_vars(c.vars, c))):
                return                         # assigns once per element: unspecified with elements failing
            if k == len(results):
                # the failing statement
                if not fired:
                    e, _ = lib.outcome(c, stmt(s))
                    if 'error' not in e:
                        raise Violation('failed-without-cause', statement=k, expected=e, **ctx)
                else:
                    before = lib.canon_vars(c.vars, c)
                    if not self.vars_leq(rec['vars'], before):
                        # or its answer could not be finalized
                        lib.outcome(c, stmt(s))
                        if not late or not self.vars_leq(rec['vars'], lib.canon_vars(c.vars, c)):
                            raise Violation('failed-statement-changed-variables', statement=k, expected=before, got=rec['vars'], **ctx)
                        return
                break
            e, _ = lib.outcome(c, stmt(s))
            got = results[k]
            if 'error' in e:
                raise Violation('value-in-spite-of-failure', statement=k, expected=e.get('message'), got=got, **ctx)
            want = e['results'][-1]
            if not fired and (got.get('value'), got.get('unit')) != (want.get('value'), want.get('unit')):
                raise Violation('another-value', statement=k, expected=want, got=got, **ctx)
            if ('value' in got) != ('value' in want) or got.get('unit') != want.get('unit') or not leq(got.get('value'), want.get('value')):
                raise Violation('wrong-value-after-failure', statement=k, expected=want, got=got, **ctx)
            if got.get('value') != want.get('value'):
                # elements have failed: what follows may depend on them
                run.stats['elements'] += 1
                if not self.vars_leq(rec['vars'], lib.canon_vars(c.vars, c)) and k == len(results) - 1:
                    raise Violation('wrong-variables-after-failure', statement=k, expected=lib.canon_vars(c.vars, c), got=rec['vars'], **ctx)
        have, want = rec['vars'], lib.canon_vars(c.vars, c)
        if not (have == want if not fired else self.vars_leq(have, want)):
            raise Violation('wrong-variables-after-failure', expected=want, got=have, **ctx)

    def vars_leq(self, a, b):
        return set(a) == set(b) and all(a[k] == b[k] or a[k] is not None and b[k] is not None and elem_leq(a[k], b[k]) for k in a)


class Parsing:
    """A number type of the calculator whose parsing may fail."""

    def __init__(self, w, real):
        self.w, self.real = w, real

    def parse(self, calculator, val):
        if self.w.marks:
            self.w.point('number', self.real.name())
        return self.real.parse(calculator, val)

    def __getattr__(self, name):
        return getattr(self.real, name)


def shrink_stack(k):
    """Leaves about k frames of stack below the caller."""
    try:
        sys.setrecursionlimit(1)
        depth = 1
    except RecursionError as err:
        depth = int(str(err).split('recursion depth ')[1].split(':')[0])
    sys.setrecursionlimit(depth + max(4, k))


PROP = C18()
