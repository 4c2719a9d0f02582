"""C06: calculators in one process are independent of each other."""
from .. import gen
from .. import lib
from .. import sess
from ..runner import Prop, Violation

PRESETS = ['Computing', 'Computing', 'Computing', 'Scientific', 'Advanced', 'Basic', None, None]
CORE = ['numerical.basicarithmetic', 'numerical.decimalnumbers', 'state.assignment', 'structure.terminator', 'nonfunctional.space']
# what is a constant, unit or function on one calculator can be a variable on another
NAMES = ['pi', 'e', 'tau', 'c', 'G', 'm', 's', 'km', 'feet', 'g', 'day', 'sum', 'abs', 'sqrt', 'sqrt2', 'x', 'qa', 'and', 'to', 'step', 'phi', 'goldenratio', 'speedoflight', 'usd', 'J', 'k', 'pint', 'mod', 'true', 'then']
NAMED = ['{v} = 3', '{v} + 1', '{v} = 3\n{v} + 1', '2 * {v}', '3 {v}', '{v}', '{v} += 1', '{v} = 0x1F\n{v}', "{v} = 'a'", '{v}(4)', '5 {v} to {u}', '{v} / {u}', '{v} = {u}', '1 {v} 2', 'ans', '0b11 + {v}', '[{v}, {u}]']


def named(rng):
    return rng.choice(NAMED).replace('{v}', rng.choice(NAMES)).replace('{u}', rng.choice(NAMES))


# a feature file, in two versions of the same name
FEATURE = """from modularcalculator.features.feature import Feature
from modularcalculator.features.structure.functions import FunctionDefinition
from modularcalculator.objects.number import Number
from modularcalculator.objects.operators import OperationResult
COUNT = []
class Z%(n)s(Feature):
    def id():
        return 'zz.%(i)s'
    def title():
        return 'zz'
    def category():
        return 'Sim'
    def desc():
        return ''
    def dependencies():
        return ['structure.functions', 'numerical.decimalnumbers']
    @classmethod
    def install(cls, calculator):
        calculator.funcs['zz%(i)s'] = FunctionDefinition('Sim', 'zz%(i)s', '', [], cls.value, 0, 0)
    def value(self, vals, units, refs, flags):
        return OperationResult(Number('%(n)d'))
"""
FEATURES = {'zzone.py': FEATURE % {'n': 1, 'i': 'one'}, 'sub/zzone.py': FEATURE % {'n': 2, 'i': 'one'}, 'zztwo.py': FEATURE % {'n': 3, 'i': 'two'}}


class C06(Prop):
    id = 'C06'
    rule = ('two or three calculators (different presets, precision, size, rounding, feature options, unit systems) created and used in a random '
            'interleaving, including inside one another\'s calculations and broken by failures and interruptions; each must behave exactly as in '
            'a forked process of its own that performs only its own operations; non-trivial: an operation of one calculator came between two of another')
    measure = 'hash of the order of (calculator, operation kind, outcome class)'
    must_reach = ('op:calc', 'op:prec', 'op:option', 'op:import', 'nested', 'created-late')
    runs = {'quick': 20000, 'thorough': 200000}

    def gen(self, rng, i, tier):
        n = rng.choice([2, 2, 2, 3])
        calcs = [{'preset': rng.choice(PRESETS), 'host': rng.random() < 0.7} for _ in range(n)]
        for spec in calcs:
            if spec['preset'] is None:
                spec['features'] = [f for f in CORE if rng.random() < 0.9] + rng.sample(self.known(), rng.choice([0, 1, 2, 4, 8, 16]))
        sparse = any(spec['preset'] is None for spec in calcs)
        if rng.random() < 0.25:
            return self.directed(rng)
        first = sess.Texts(rng)
        texts = [first] + [sess.Texts(rng, focus=first.focus) for _ in range(n - 1)]
        shared = [named(rng) if sparse and rng.random() < 0.5 else texts[0].any() for _ in range(rng.randint(3, 8))]      # the same texts on differently configured calculators
        ops = []
        for _ in range(rng.choice([8, 14, 20])):
            j = rng.randrange(n)
            ops.append(self.one(rng, j, texts[j], shared))
            if rng.random() < 0.12:
                # inside a calculation of j, operations of the others
                others = [m for m in range(n) if m != j]
                inner = [self.one(rng, m, texts[m], shared) for m in [rng.choice(others) for _ in range(rng.randint(1, 3))]]
                if rng.random() < 0.4:
                    # a calculation and then a setting, both of another
                    m = rng.choice(others)
                    inner.append({'c': m, 'op': {'k': 'calc', 'text': rng.choice(['1 / 3', '2 + 2', '1 / 0', texts[m].any()])}})
                    inner.append({'c': rng.choice([m, rng.choice(others)]), 'op': rng.choice([{'k': 'size', 'v': rng.choice([5, 20, 300])}, {'k': 'round', 'v': rng.choice(sess.ROUNDINGS)}, {'k': 'prec', 'v': 4}])})
                ops.append({'c': j, 'op': {'k': 'calc', 'text': rng.choice(['act(1, 2 / 3)\nqa = 2 / 3\nqa / 7', 'act(1) + 1 / 3\n2 / 7', 'act(1, %s)', '%s + act(1)', 'act(1) + %s', 'qa = act(1, %s) / 3\nqa', '[act(1, %s), %s]']
                            ).replace('%s', rng.choice(['1 / 3', '2.5', '2 / 7', '(2 / 3) as percentage', 'sin(1)', '1 mile to km']))}, 'inner': inner})
        for j in range(n):
            ops.append({'c': j, 'op': {'k': 'read'}})
        return {'env': {'tick_ns': 0}, 'calcs': calcs, 'ops': ops}

    def directed(self, rng):
        """Two calculators that differ in one setting, and texts that turn on that setting on both."""
        focus = sess.a_focus(rng)
        texts = [sess.Texts(rng, focus=focus) for _ in range(2)]
        calcs = [{'preset': 'Computing', 'host': True} for _ in range(2)]
        some = rng.sample(sess.OPTION_TEXTS[focus[:2]], min(len(sess.OPTION_TEXTS[focus[:2]]), rng.choice([2, 4, 8])))
        ops = []
        for _ in range(rng.choice([8, 14, 20])):
            j = rng.randrange(2)
            k = rng.random()
            if k < 0.25:
                ops.append({'c': j, 'op': sess.setting(rng, focus, 0.95)})
            elif k < 0.85:
                ops.append({'c': j, 'op': {'k': 'calc', 'text': rng.choice(some)}})
            else:
                ops.append(self.one(rng, j, texts[j], some))
        return {'env': {'tick_ns': 0}, 'calcs': calcs, 'ops': ops}

    def known(self):
        if not hasattr(self, 'features'):
            self.features = sorted(lib.ModularCalculator().list_features())
        return self.features

    def one(self, rng, j, texts, shared):
        k = rng.random()
        if k < 0.3:
            op = sess.setting(rng, texts.focus)
        elif k < 0.33:
            op = {'k': 'inventory'}
        elif k < 0.35:
            op = {'k': 'install', 'names': rng.sample(['boolean.booleans', 'units.units', 'state.assignment', 'numerical.hexadecimalnumbers', 'structure.functions', 'arrays.arrays', 'nosuch.feature'], 2)}
        elif k < 0.37:
            op = {'k': 'read'}
        elif k < 0.4:
            op = {'k': 'import', 'file': rng.choice(sorted(FEATURES))}
        elif k < 0.42:
            op = {'k': 'install', 'names': [rng.choice(['zz.one', 'zz.one', 'zz.two'])]}
        elif k < 0.44:
            op = {'k': 'calc', 'text': rng.choice(['zzone()', 'zzone() + 1', 'zztwo()', 'zzone() * zztwo()', '[zzone(), 1]'])}
        elif k < 0.6:
            op = {'k': 'calc', 'text': rng.choice(shared)}
        elif k < 0.75:
            op = {'k': 'calc', 'text': texts.setter()}
        else:
            op = {'k': 'calc', 'text': texts.any()}
        if op['k'] == 'calc':
            fl = {}
            if rng.random() < 0.2:
                fl['include_state'] = True
            if rng.random() < 0.05:
                fl['stateless'] = True
            if fl:
                op['flags'] = fl
            if rng.random() < 0.08:
                op['faults'] = [sess.gen_fault(rng)]
        return {'c': j, 'op': op}

    def create(self, spec, w, j, hooks):
        c = lib.ModularCalculator(spec['preset'])
        if spec.get('features'):
            try:
                c.install_features(spec['features'])
            except lib.CalculatorException:
                pass
        if spec['host'] and 'structure.functions' in c.installed_features:
            lib.add_host_functions(c, w, 'c%d' % j, hooks)
        return c

    def files(self, w):
        for name, content in list(FEATURES.items()) + list(sess.INPUTS.items()):
            w.write_file(name, content)

    def together(self, sub, plan):
        w = sub.world(plan['env'])
        log = [[] for _ in plan['calcs']]        # per calculator: [operation, what was seen]
        order = []
        with w:
            self.files(w)
            cs = {}
            inner = []
            busy = []

            def perform(o):
                j = o['c']
                if j >= len(plan['calcs']) or j in busy:
                    return
                if j not in cs:
                    if order:
                        sub.stats['created-late'] += 1
                    cs[j] = self.create(plan['calcs'][j], w, j, hooks)
                busy.append(j)
                inner.append(list(o.get('inner', [])))
                try:
                    seen = sess.apply(cs[j], o['op'], w)
                finally:
                    busy.pop()
                    inner.pop()
                log[j].append([o['op'], seen])
                order.append([j, o['op']['k']])
                sub.stats['op:' + o['op']['k']] += 1

            def hooks(k):
                todo, inner[-1] = inner[-1], []
                for o in todo:
                    sub.stats['nested'] += 1
                    perform(o)

            for o in plan['ops']:
                perform(o)
        sub.sig.append(order)
        sub.record(log)
        return {'log': log, 'order': order}

    def alone(self, sub, plan, j, log):
        w = sub.world(plan['env'])
        seen = []
        with w:
            self.files(w)
            c = self.create(plan['calcs'][j], w, j, None)
            for op, _ in log:
                seen.append(sess.apply(c, op, w))
        sub.record(seen)
        return seen

    def run(self, plan, run):
        out = run.fork(self.together, plan)
        order = [j for j, _ in out['order']]
        run.sig.append(out['order'])
        if any(order[i] != order[i + 1] and order[i] in order[i + 2:] for i in range(len(order) - 1)):
            run.nontrivial = True
        for j in range(len(plan['calcs'])):
            if not out['log'][j]:
                continue
            seen = run.fork(self.alone, plan, j, out['log'][j])
            for n, ((op, got), want) in enumerate(zip(out['log'][j], seen)):
                if got != want:
                    raise Violation('calculator-affected-by-others', calculator=j, operation=op, alone=want, together=got,
                                    own_operations_before=n)


PROP = C06()
