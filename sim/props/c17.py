"""C17: a failure confined to an element, or to an operand that is not used, stays confined."""
import re

from .. import lib
from .. import world as W
from ..runner import Prop, Violation, Discard

FAIL = None
UN = ['abs({})', 'round({}, 1)', '(0 - {})', '({} * 2)', '(2 / {})', '({} ^ 2)', '({} + 1 m)', '({} to feet)', 'floor({})', '({} as hexadecimal)', 'upper({})', 'sin({})', 'fact({} % 9)', 'probec(1, {})', '@zfi({})', '@zfd({})', '@zfa({})',
      '@zfc({})', '@zfn({})', '({} +$ 1)', '({} m)', '(1 +% {})', "(\n{} + 1)", '@zfp({})', 'probex(1, {})', 'probe(1, {})', 'string({})', 'log({}, 2)', '(~{})', '@zfk({})', '({} & 3)']
BIN = ['+', '-', '*', '/', '%', '\\', '+', '*', '/', '+$', '&', '+%']
CMP = ['<', '>', '==', '!=', '<=']
WHOLE = ['(1 / 0)', "boom('ValueError')", "boom('RecursionError')", '@nofunc(1)', "abs('x')", '@zfq(1)', '(1 m + 1 s)', 'element([1], 3)', "[1, boom('KeyError')]", "boom('CalculatorException')", '@zfd(3)', 'sum([1, 0] / 0)']
FILES = {'fna': 'zz = PARAM1 * 2\nzz + 1', 'fnc': 'zz = 6 / (PARAM1 - 2)\nzz', 'fnp': "zfi = {2 / PARAM1}\n[@zfi(PARAM1), 2]\n@zfi(PARAM1) + 1"}
INLINE = {'zfi': '{PARAM1 + 1}', 'zfd': '{qz = PARAM1 - 3\n1 / qz}', 'zfk': '{(PARAM1 > 2) then (PARAM1 / 0) else PARAM1}'}
HOST = ['zzb']


def flat(shape):
    return sum(shape) if isinstance(shape, list) else shape


class Tree:

    def __init__(self, shape, truth):
        self.shape = shape
        self.n = flat(shape)
        self.truth = truth           # evaluates a boolean text: True, False or FAIL
        self.memo = {}
        self.faults = []

    def array(self, values):
        if len(values) != self.n:
            raise Discard()
        if isinstance(self.shape, int):
            return '[%s]' % ', '.join(values)
        out, k = [], 0
        for m in self.shape:
            out.append('[%s]' % ', '.join(values[k:k + m]))
            k += m
        return '[%s]' % ', '.join(out)

    def is_array(self, n):
        if not isinstance(n, list) or not n:
            raise Discard()
        if n[0] == 'lit':
            return True
        return any(self.is_array(x) for x in n[1:] if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in KINDS)

    def scalars(self, n):
        """Has the tree operands without arrays that may fail as a whole?"""
        if not self.is_array(n):
            return n[0] != 'const'
        return any(self.scalars(x) for x in n[1:] if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in KINDS)

    def text(self, n):
        k = n[0]
        if k == 'lit':
            return self.array(n[1])
        if k == 'const':
            return n[1]
        if k == 'whole':
            return n[1]
        if k == 'probe':
            return "%s('%s', %s)" % (n[4], n[1], self.text(n[2]))
        if k == 'un':
            return n[1].format(self.text(n[2]))
        if k == 'bin':
            return '(%s %s %s)' % (self.text(n[2]), n[1], self.text(n[3]))
        if k == 'bool':
            return '(%s %s %s)' % (self.text(n[2]), n[1], self.text(n[3]))
        if k == 'not':
            return '(not %s)' % self.text(n[1])
        if k == 'cond':
            return '(%s then %s else %s)' % tuple(self.text(x) for x in n[1:4])
        if k == 'multi':
            return '%s(%s)' % (n[1], ', '.join(self.text(x) for x in n[2:]))
        raise Discard()

    def elem(self, n, i):
        key = (id(n), i)
        if key not in self.memo:
            self.memo[key] = self._elem(n, i)
        return self.memo[key]

    def _elem(self, n, i):
        """What the element i should be: the text of a scalar expression without anything that does not matter, or FAIL."""
        k = n[0]
        if k == 'lit':
            return '(%s)' % n[1][i]
        if k == 'const':
            return n[1]
        if k == 'whole':
            return FAIL
        if k == 'probe':
            x = self.elem(n[2], i)
            return FAIL if x is FAIL or i in n[3] else "%s('-', %s)" % (n[4], x)
        if k == 'un':
            x = self.elem(n[2], i)
            return FAIL if x is FAIL else n[1].format(x)
        if k == 'bin':
            x, y = self.elem(n[2], i), self.elem(n[3], i)
            return FAIL if x is FAIL or y is FAIL else '(%s %s %s)' % (x, n[1], y)
        if k == 'not':
            x = self.elem(n[1], i)
            return FAIL if x is FAIL else '(not %s)' % x
        if k == 'bool':
            x, y = self.elem(n[2], i), self.elem(n[3], i)
            if n[1] in ('and', 'or'):
                t = FAIL if x is FAIL else self.truth(x)
                if t is FAIL:
                    return FAIL
                if t == (n[1] == 'or'):
                    return 'true' if t else 'false'
                return FAIL if y is FAIL else '(%s %s %s)' % (x, n[1], y)
            return FAIL if x is FAIL or y is FAIL else '(%s %s %s)' % (x, n[1], y)
        if k == 'cond':
            x = self.elem(n[1], i)
            t = FAIL if x is FAIL else self.truth(x)
            if t is FAIL:
                return FAIL
            y = self.elem(n[2 if t else 3], i)
            return FAIL if y is FAIL else '(%s)' % y
        if k == 'multi':
            xs = [self.elem(x, i) for x in n[2:]]
            return FAIL if FAIL in xs else '%s([%s])' % (n[1], ', '.join(xs))
        raise Discard()

    def collect(self, n, ok):
        """The faults that make the chosen elements fail: the nth call is that for the nth element that has not failed before."""
        for x in n[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in KINDS:
                self.collect(x, ok)
        if n[0] == 'probe':
            if not self.is_array(n[2]):
                if n[3]:
                    raise Discard()
                return
            calls = 0
            for i in range(self.n):
                x = self.elem(n[2], i)
                if x is FAIL or not ok(x):
                    continue
                if i in n[3]:
                    self.faults.append({'point': 'probe@' + n[1], 'n': calls, 'kind': n[5]})
                calls += 1


KINDS = {'lit', 'const', 'whole', 'probe', 'un', 'bin', 'bool', 'not', 'cond', 'multi'}


class C17(Prop):
    id = 'C17'
    rule = ('expressions over arrays (flat and nested) of operators, functions, inline and external functions, conversions, conditionals and and/or, nested '
            'up to four deep, in which chosen elements fail by a host fault of any kind, division by zero, unsuitable units or types, or a failing function '
            'body, and operands fail as a whole; each element is compared to the scalar expression left of it when what does not matter for it is cut away, '
            'evaluated without faults on another calculator; non-trivial: at least one element failed and another did not')
    measure = 'hash of (text, failing elements, fault kinds)'
    must_reach = ('compared', 'failed-elements', 'good-elements', 'unused-failures', 'fault:probe', 'nested', 'forms', 'which-branch')
    runs = {'quick': 20000, 'thorough': 300000}

    def setup(self):
        lib.prebuild('Computing', 2)

    # -- generation
    def gen(self, rng, i, tier):
        self.rng = rng
        ops = []
        for _ in range(rng.choice([2, 4, 6])):
            self.labels = 0
            if rng.random() < 0.12:
                n = rng.choice([None, None, 1, 2, 3])
                ops.append({'form': 'which', 'n': n, 'tree': self.branches(n, rng.choice([1, 2, 3]))})
                continue
            self.nested = rng.random() < 0.2
            self.shape = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))] if self.nested else rng.choice([1, 2, 2, 3, 3, 4, 6])
            depth = rng.choice([1, 2, 3, 4])
            if rng.random() < 0.06:
                # long arrays
                self.nested, self.shape, depth = False, rng.choice([9, 12, 20, 33]), rng.choice([1, 1, 2])
            self.n = flat(self.shape)
            self.units = rng.random() < 0.3
            self.fails = rng.choice([0.1, 0.3, 0.6] if self.n < 9 else [0.1, 0.7, 0.95, 1])
            tree = self.num(depth) if rng.random() < 0.8 else self.boolean(rng.choice([1, 2, 3]))
            form = rng.choice(['plain'] * 6 + ['element', 'reverse', 'concat', 'filter', 'var', 'var', 'outer', 'outer', 'arg', 'agg', 'agg'])
            if self.nested and form in ('element', 'filter', 'concat', 'arg', 'reverse', 'agg'):
                form = 'plain'
            op = {'shape': self.shape, 'tree': tree, 'form': form}
            if form == 'element':
                op['k'] = rng.randint(1, self.n)
            if form == 'agg':
                op['f'] = rng.choice(['sum({})', 'max({})', 'join({})', "join({}, '-')", 'count({})', 'mean({})', 'sort({})', 'min({})', 'median({})'])
            if form in ('filter',):
                op['keep'] = [rng.random() < 0.6 for _ in range(self.n)]
            if form == 'outer':
                op['whole'] = [rng.random() < 0.5, rng.choice(WHOLE)]
            if form == 'var':
                op['then'] = rng.choice(['{} * 2', '{} + {}', 'abs({})', "probe('-', {})", '(1 == 1) then {} else 3', '[5, 6]\n{} + 1', '{} = {}\n{}', '1 / 0 == 1\n{}'][:7])
            ops.append(op)
        return {'env': {'tick_ns': 0}, 'ops': ops}

    def branches(self, n, depth):
        """A conditional with failures in several branches: [conditions, then, else], or a text."""
        r = self.rng
        if depth <= 0 or r.random() < 0.1:
            self.labels += 1
            return r.choice(["(1 + 'w%d')", "(1 + 'w%d')", "(1 + 'w%d')", "abs('w%d')", "(2 - boom('ValueError') + %d)", "@nofunc%d(1)", '%d', "[1, 2 * 'w%d', 3]", "(1 m to 'w%d')"]) % self.labels
        conds = r.choice(['true', 'false', '(1 > 2)', '(2 > 1)']) if n is None or r.random() < 0.3 else [r.choice(['true', 'false', '(1 == 1)', '(2 < 1)']) for _ in range(n)]
        return [conds, self.branches(n, depth - 1), self.branches(n, depth - 1)]

    def label(self):
        self.labels += 1
        return 'p%d' % self.labels

    def probe(self, x, array):
        r = self.rng
        if not array:
            return ['probe', self.label(), x, [], 'probe', 'ValueError']
        return ['probe', self.label(), x, [i for i in range(self.n) if r.random() < self.fails], 'probe', r.choice(W.ERRORS)]

    def value(self):
        r = self.rng
        k = r.random()
        if k < 0.1:
            return '0'
        if self.units and k < 0.5:
            return r.choice(['1 m', '2 s', '3 feet', '0 m', '4 kg', '2 km'])
        if k < 0.15:
            return r.choice(["'x'", 'true', "'7'"])
        return str(r.choice([1, 2, 3, 4, 5, 2.5, '0xF', '0b11', '50%', '7']))

    def num(self, depth):
        r = self.rng
        k = r.random()
        if depth <= 0:
            if k < 0.75:
                x = ['lit', [self.value() for _ in range(self.n)]]
                return self.probe(x, True) if r.random() < 0.6 else x
            if k < 0.95:
                return ['const', r.choice(['2', '3', '1', '0x7', '0', '1 m', 'qs'])]
            return ['whole', r.choice(WHOLE)]
        d = depth - 1
        if k < 0.2:
            return ['un', r.choice(UN), self.num(d)]
        if k < 0.55:
            return ['bin', r.choice(BIN), self.num(d), self.num(d)]
        if k < 0.75:
            return ['cond', self.boolean(d), self.num(d), self.num(d)]
        if k < 0.85 and not self.nested:
            return ['multi', r.choice(['max', 'min', 'sum', 'mean'])] + [self.num(d) for _ in range(r.choice([2, 2, 3]))]
        x = self.num(d)
        return self.probe(x, Tree(self.shape, None).is_array(x))

    def boolean(self, depth):
        r = self.rng
        k = r.random()
        if depth <= 0:
            x = ['lit', [r.choice(['true', 'false', '(1 > 0)', '(2 == 3)']) for _ in range(self.n)]]
            if k < 0.1:
                return ['const', r.choice(['true', 'false', '(1 < 2)'])]
            return self.probe(x, True) if k < 0.6 else x
        d = depth - 1
        if k < 0.6:
            return ['bool', r.choice(['and', 'or', 'and', 'or', 'xor']), self.boolean(d), self.boolean(d)]
        if k < 0.75:
            return ['bool', r.choice(CMP), self.num(d), self.num(d)]
        if k < 0.85:
            return ['not', self.boolean(d)]
        if k < 0.95:
            return ['cond', self.boolean(d), self.boolean(d), self.boolean(d)]
        x = self.boolean(d)
        return self.probe(x, Tree(self.shape, None).is_array(x))

    # -- execution
    def run(self, plan, run):
        w = run.world(plan['env'])
        with w:
            for f, t in FILES.items():
                w.write_file(f, t)
            c, twin = lib.take(), lib.take()
            for x, tag in ((c, 'sut'), (twin, 'twin')):
                lib.add_host_functions(x, w, tag)
                lib.add_function(x, 'probex', lambda calc, vals, units, refs, flags: lib.result_of(vals[1], units[1]), 2, 2)
                x.funcs['probec'] = lib.FunctionDefinition('Sim', 'probec', '', [], lambda calc, vals, units, refs, flags: lib.OperationResult(vals[1]), 2, 2, 'number')
                for t in ["zfa = './fna'", "zfc = './fnc'", "zfp = './fnp'", "zfq = './nofile'", 'zfn = zfd', 'qs = 4'] + ['%s = %s' % p for p in INLINE.items()]:
                    lib.outcome(x, t)
                lib.outcome(x, 'zfn = zfd')
            for n, op in enumerate(plan['ops']):
                self.op(run, w, c, twin, n, op)

    def scalar(self, twin, text):
        """(canonical value and unit) of a scalar text evaluated without faults, or FAIL."""
        if text not in self.cache:
            d, resp = lib.outcome(twin, text)
            if 'leak' in d or 'interrupt' in d:
                raise Discard()
            if 'error' in d:
                self.cache[text] = FAIL
            else:
                r = [r for r in resp.results if r.has_result()][-1]
                if lib.grown(r.value):
                    raise Discard()
                self.cache[text] = [lib.canon(r.value, twin), lib.canon_unit(r.unit)]
        return self.cache[text]

    def which(self, run, w, c, twin, n, op):
        """The error reported is that of the branch that was chosen, whatever failed in the other."""
        def text(x):
            if isinstance(x, str):
                return x
            return '(%s then %s else %s)' % ('[%s]' % ', '.join(x[0]) if isinstance(x[0], list) else x[0], text(x[1]), text(x[2]))

        def leaf(x, i):
            while not isinstance(x, str):
                t = x[0][i] if isinstance(x[0], list) else x[0]
                x = x[1 if t in ('true', '(2 > 1)', '(1 == 1)') else 2]
            return x

        def arrays(x):
            return not isinstance(x, str) and (isinstance(x[0], list) or arrays(x[1]) or arrays(x[2]))

        def what(d, r):
            return [None, d.get('message')] if 'error' in d else [lib.canon(r.value, c), lib.canon_unit(r.unit)]

        tree = op['tree']
        if isinstance(tree, str) or op['n'] is not None and not isinstance(op['n'], int):
            raise Discard()
        try:
            full = text(tree)
            count = op['n'] if arrays(tree) else None
            leaves = [leaf(tree, i) for i in range(count or 1)]
            others = {x for x in re.findall(r"'w\d+'|nofunc\d+", full)}
        except (IndexError, TypeError, KeyError):
            raise Discard()
        want = []
        for x in leaves:
            d, resp = lib.outcome(twin, x)
            if 'leak' in d or 'interrupt' in d:
                raise Discard()
            want.append([None, d['message']] if 'error' in d else what(d, resp.results[-1]))
        d, resp = lib.outcome(c, full)
        run.record(n, full, d)
        if 'leak' in d or 'interrupt' in d:
            return
        ctx = dict(text=full, expected=want, outcome=d.get('message'))
        run.stats['which-branch'] += 1
        run.sig.append(['which', full])
        if count is None:
            if what(d, None if 'error' in d else resp.results[-1]) != want[0]:
                raise Violation('not-what-the-chosen-branch-gives', **ctx)
            return
        if any(v[0] is not None and v[0][0] == 'l' for v in want):
            return                  # arrays in arrays: the shapes do not match
        if 'error' in d:
            if "[1, 2 * 'w" in full:
                return
            raise Violation('whole-operation-failed', **ctx)
        got = resp.results[-1].value
        if not isinstance(got, list) or len(got) != count:
            raise Violation('shape-changed', got=lib.canon(got, c), **ctx)
        for i, (g, v) in enumerate(zip(got, want)):
            have = [None, getattr(g.value, 'message', None)] if isinstance(g.value, BaseException) else [lib.canon(g.value, c), lib.canon_unit(g.unit)]
            if (have[0] is None) != (v[0] is None) or v[0] is not None and have != v:
                raise Violation('not-what-the-chosen-branch-gives', element=i, value=have, **ctx)
            if v[0] is None and have != v:
                mine = set(re.findall(r"'w\d+'|nofunc\d+", leaves[i]))
                if mine and (not mine & set(re.findall(r"'w\d+'|nofunc\d+", str(have[1]))) or (others - mine) & set(re.findall(r"'w\d+'|nofunc\d+", str(have[1])))):
                    raise Violation('error-of-a-branch-not-chosen', element=i, value=have, **ctx)

    def op(self, run, w, c, twin, n, op):
        self.cache = {}
        self.twin = twin
        if op['form'] == 'which':
            return self.which(run, w, c, twin, n, op)

        def truth(text):
            v = self.scalar(twin, text)
            if v is FAIL or not isinstance(v[0], bool):
                return FAIL
            return v[0]

        shape = op['shape']
        if not flat(shape) or isinstance(shape, list) and (not shape or 0 in shape):
            raise Discard()
        t = Tree(shape, truth)
        tree = op['tree']
        try:
            array = t.is_array(tree)
            text = t.text(tree)
            want = []
            for i in range(t.n if array else 1):
                e = t.elem(tree, i)
                want.append(FAIL if e is FAIL else self.scalar(twin, e))
            t.collect(tree, lambda x: self.scalar(twin, x) is not FAIL)
        except (IndexError, TypeError, KeyError):
            raise Discard()
        if any(v is not FAIL and (v[0] is None or isinstance(v[0], list) and v[0][:1] in (['l'], ['x'], ['X'])) for v in want):
            raise Discard()
        form = op['form']
        if not array and form not in ('plain', 'outer'):
            raise Discard()
        full, post = text, None
        if form == 'element':
            full = 'element(%s, %d)' % (text, op['k'])
        elif form == 'reverse':
            full = 'reverse(%s)' % text
        elif form == 'concat':
            full = 'concat(%s, [7])' % text
        elif form == 'filter':
            full = 'filter(%s, [%s])' % (text, ', '.join('true' if x else 'false' for x in op['keep']))
        elif form == 'outer':
            used, whole = op['whole']
            full = '(1 == %d) then %s else %s' % ((1, text, whole) if used else (2, whole, text))
        elif form == 'agg':
            full = op['f'].replace('{}', text)
        elif form == 'arg':
            full = 'probex(1, %s)' % text
        w.begin_op(t.faults)
        d, resp = lib.outcome(c, full)
        fired = list(w.fired_now)
        w.end_op()
        run.record(n, full, d, t.faults)
        if 'leak' in d or 'interrupt' in d:
            return                             # C18's business
        bad = [i for i, v in enumerate(want) if v is FAIL]
        ctx = dict(text=full, failing=bad, of=len(want), fired=fired, outcome=d.get('message'))
        run.stats['compared'] += 1
        run.stats['forms'] += form != 'plain'
        run.stats['nested'] += isinstance(shape, list)
        run.stats['failed-elements'] += len(bad)
        run.stats['good-elements'] += len(want) - len(bad)
        if len(fired) > 0 and len(bad) < len(want):
            run.nontrivial = True
        if fired and not bad or 'outer' == form and len(bad) < len(want):
            run.stats['unused-failures'] += 1
        run.sig.append([full, bad, [f['kind'] for f in fired]])
        if self.check(form, op, t, array, want, d, resp, ctx, c):
            return
        # what came of it, used later without faults
        if form == 'var':
            lib.outcome(c, 'qr = 0')
            w.begin_op(t.faults)
            d1, _ = lib.outcome(c, 'qr = ' + text)
            w.end_op()
            if 'error' in d1:
                if t.scalars(tree) and len(bad) == len(want):
                    return
                raise Violation('array-with-failed-elements-not-assigned', **ctx)
            d2, r2 = lib.outcome(c, op['then'].replace('{}', 'qr'))
            later = []
            for i, v in enumerate(want):
                e = t.elem(tree, i)
                later.append(FAIL if v is FAIL else self.scalar(twin, 'qr = %s\n%s' % (e, op['then'].replace('{}', 'qr'))))
            if any(v is not FAIL and (v[0] is None or isinstance(v[0], list) and v[0][:1] in (['l'], ['x'], ['X'])) for v in later):
                return
            run.record(n, 'later', d2)
            ctx = dict(ctx, later=op['then'], outcome=d2.get('message'), failing=[i for i, v in enumerate(later) if v is FAIL])
            self.check('plain', op, t, True, later, d2, r2, ctx, c)

    def check(self, form, op, t, array, want, d, resp, ctx, c):
        if 'leak' in d or 'interrupt' in d:
            return True
        if not array:
            return self.one(want[0], d, resp, ctx, c)
        if form == 'element':
            return self.one(want[op['k'] - 1], d, resp, ctx, c)
        if form == 'agg':
            if 'error' in d and t.scalars(op['tree']) and all(v is FAIL for v in want):
                return True
            # of the whole array: fails if an element it needs failed, and otherwise is that of the elements
            if FAIL in want and not op['f'].startswith('count'):
                v = FAIL
            else:
                v = self.scalar(self.twin, op['f'].replace('{}', '[%s]' % ', '.join('0' if x is FAIL else t.elem(op['tree'], i) for i, x in enumerate(want))))
            return self.one(v, d, resp, ctx, c)
        if 'error' in d:
            if t.scalars(op['tree']) and all(v is FAIL for v in want):
                return True                    # an operand that every element needs failed as a whole
            raise Violation('whole-operation-failed', **ctx)
        r = [r for r in resp.results if r.has_result()][-1]
        got = r.value
        shape = t.shape
        if form == 'reverse':
            want = want[::-1]
        elif form == 'concat':
            want = want + [[['n', '7', '1', '7'], None]]
        elif form == 'filter':
            want = [v for v, k in zip(want, op['keep']) if k]
        if not isinstance(got, list):
            raise Violation('not-an-array', got=lib.canon(got, c), **ctx)
        if isinstance(shape, list):
            if [len(e.value) if isinstance(e.value, list) else None for e in got] != shape:
                raise Violation('shape-changed', shape=shape, got=lib.canon(got, c), **ctx)
            got = [x for e in got for x in e.value]
        if len(got) != len(want):
            raise Violation('shape-changed', expected=len(want), got=lib.canon(r.value, c), **ctx)
        for i, (g, v) in enumerate(zip(got, want)):
            have = FAIL if isinstance(g.value, BaseException) else [lib.canon(g.value, c), lib.canon_unit(g.unit)]
            if have is FAIL and v is not FAIL:
                raise Violation('element-failed-that-should-not', element=i, expected=v, got=lib.canon(r.value, c), **ctx)
            if v is FAIL and have is not FAIL:
                raise Violation('failed-element-has-a-value', element=i, value=have, got=lib.canon(r.value, c), **ctx)
            if have != v:
                raise Violation('element-has-another-value', element=i, expected=v, value=have, **ctx)

    def one(self, v, d, resp, ctx, c):
        if 'error' in d:
            if v is not FAIL:
                raise Violation('failed-although-unaffected', expected=v, **ctx)
            return
        r = [r for r in resp.results if r.has_result()][-1]
        if v is FAIL:
            raise Violation('value-in-spite-of-failure', value=lib.canon(r.value, c), **ctx)
        have = [lib.canon(r.value, c), lib.canon_unit(r.unit)]
        if have != v:
            raise Violation('another-value', expected=v, value=have, **ctx)


PROP = C17()
