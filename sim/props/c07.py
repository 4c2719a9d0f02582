"""C07: calculators behave the same on any thread and under any thread schedule."""
from .. import funcs
from .. import gen
from .. import lib
from .. import sess
from .. import threads
from ..runner import Prop, Violation
from .c05 import EXTRA
from .fcalls import file_text

TROUBLE = ["boom('ValueError')", "1 + boom('KeyError')", "boom('KeyboardInterrupt')", "[1, 2] + boom('SystemExit')", "boom('MemoryError')", '1 +', '(1', '1 / 0']

# parts of the library in which some schedules switch all the time
HOT = ['objects/number.py', 'objects/number.py', 'objects/number.py', 'numericalengine.py', 'objects/units.py', 'objects/operators.py', 'objects/items.py', 'objects/exceptions.py', 'objects/api.py',
       'services/unitnormaliser.py', 'numericalengine.py', 'numericalengine.py', 'structure/terminator.py', 'structure/functions.py', 'structure/functionpointers.py',
       'structure/externalfunctions.py', 'structure/inlinefunctions.py', 'structure/innerexpressions.py', 'state/assignment.py', 'state/assignmentoperators.py',
       'arrays/arrays.py', 'strings/strings.py', 'units/units.py', 'dates/dates.py', 'dates/datefunctions.py', 'numerical/expnumbers.py',
       'numerical/numericalrepresentation.py', 'numerical/bases.py', 'numerical/basicarithmetic.py', 'numerical/percentagenumbers.py']


class C07(Prop):
    id = 'C07'
    seconds = dict(Prop.seconds, quick=55)
    rule = ('two or three real threads, each with its own calculator, preempted at chosen source lines (some runs: bytecodes) of the library under a '
            'seeded switch list, against each thread\'s operations alone in a forked process; and calculators handed over between threads (whose own '
            'decimal settings the embedding program changes) against the same operations on one thread; non-trivial: at least two switches happened '
            'inside calculations, or a calculator changed threads twice')
    measure = 'hash of the places (source line, from and to thread) where the schedule switched'
    must_reach = ('switches', 'handed-over', 'opcode-runs')
    runs = {'quick': 20000, 'thorough': 200000}

    def setup(self):
        threads.install()
        threads.shared_functions()
        texts = sorted(set(sess.SENSITIVE + EXTRA + [t for ts in sess.OPTION_TEXTS.values() for t in ts]))
        self.touching = threads.touching(texts)
        lib.prebuild('Computing', 3)

    def gen(self, rng, i, tier):
        n = rng.choice([2, 2, 3])
        first = sess.Texts(rng)
        texts = [first] + [sess.Texts(rng, focus=first.focus) for _ in range(n - 1)]
        shared = [first.any() for _ in range(4)]
        files = []
        for j in range(n):
            files.append({'name': 'fn%d' % j, 'body': funcs.gen_friendly(rng, texts[j].g, [])})
        if rng.random() < 0.35:
            return self.gen_move(rng, n, texts, shared, files)
        ts = []
        differ = rng.choice([0, 1, 2, 3, 4, 5])
        twins = rng.random() < 0.45
        if twins:
            # all threads work on the same few texts, so that they meet in whatever is shared
            pool = sess.OPTION_TEXTS[first.focus[:2]] if first.focus is not None else sess.SENSITIVE
            common = rng.sample(pool, min(len(pool), rng.randint(2, 4)))
        only = rng.choice(HOT) if rng.random() < 0.5 else None
        calls = False
        own = None
        if twins and self.touching and rng.random() < 0.6:
            names = sorted(self.touching)
            name = rng.choices(names, [len(self.touching[m]) ** -0.5 for m in names])[0]
            common = [rng.choice(self.touching[name]) for _ in range(rng.randint(2, 4))]
            only = rng.choice(['shared:', 'line:', 'line:']) + name
            if rng.random() < 0.5:
                # the threads' calculators differ in a setting the texts turn on
                near = [path for path, _ in threads.LINES.get(name, ())]
                for k in range(40):
                    focus = sess.a_focus(rng)
                    if k < 20 and not any(path.endswith(focus[0].replace('.', '/') + '.py') for path in near):
                        continue            # rather a setting of the feature that has something shared
                    pool = sorted(set(sess.OPTION_TEXTS[focus[:2]]) & set(self.touching[name]))
                    if pool:
                        common = [rng.choice(pool) for _ in range(rng.randint(2, 4))]
                        own = [sess.setting(rng, focus, 1) for _ in range(n)]
                        break
        elif rng.random() < 0.3:
            # every thread calls functions, of other files than the other threads
            calls = twins = True
            common = ['@zfa(3)', '@zfb(4)', '@zfa([1, 2])', '@zfa(1) + @zfb(2)', '@zfb(@zfa(5))', '[@zfa(1), @zfb(2)]', '@zfc(2)', '@zfb([1, @zfc(2)])']
            only = rng.choice(['structure/externalfunctions.py'] * 3 + ['structure/functionpointers.py', 'structure/terminator.py', 'structure/inlinefunctions.py', 'structure/functions.py', 'objects/operators.py', 'structure/innerexpressions.py'])
        elif only is not None and first.focus is not None and rng.random() < 0.5:
            # where the texts of this run do their work
            only = 'services/unitnormaliser.py' if first.focus[0] == 'units' else 'dates/dates.py' if first.focus[0] == 'dates.datefunctions' else first.focus[0].replace('.', '/') + '.py'
        for j in range(n):
            ops = []
            if calls:
                binds = ["zfa = './fn%d'\nzfb = './fn%d'" % (j, (j + 1) % n), "zfb = './fn%d'" % j, 'zfc = {%d * PARAM1}' % (j + 2)]
            elif rng.random() < 0.5:
                s = ['bind', 'zfa', './fn%d' % rng.randrange(n)] if rng.random() < 0.5 else ['bindinl', 'zfa', funcs.gen_friendly(rng, texts[j].g, ['fn%d' % rng.randrange(n)], [], True)]
                texts[j].g.vars = gen.VARS[:4]
                ops.append({'k': 'calc', 'text': gen.stmt_text(s)})
                ops.append({'k': 'calc', 'text': rng.choice(['@zfa(3)', '@zfa([1, 2, 3])', 'qa = @zfa(2 / 3)\nqa + 1'])})
            for _ in range(rng.randint(2, 5) if not twins else rng.randint(0, 1)):
                ops.append(self.one(rng, texts[j], shared))
            if twins:
                ops.extend({'k': 'calc', 'text': rng.choice(common)} for _ in range(rng.randint(4, 14)))
            rng.shuffle(ops)
            if calls:
                ops = [{'k': 'calc', 'text': b} for b in binds] + ops
            if own is not None:
                ops.insert(0, own[j])
            if differ:
                ops[:0] = [{'k': 'prec', 'v': [30, 4, 12][j]}, {'k': 'round', 'v': sess.ROUNDINGS[(differ + j) % 7]}]
                if rng.random() < 0.5:
                    ops.insert(0, {'k': 'size', 'v': [100, 60, 300][j]})
                    ops.append({'k': 'calc', 'text': rng.choice(['2 / 3', '[1 / 3, 2 / 3, 1.00005]', 'sin(1)', '2 ^ 0.5', "string(1 / 7)"])})
            ops.append({'k': 'read'})
            ts.append({'where': rng.choice(['main', 'main', 'main', 'own']), 'preset': rng.choice(['Computing'] * 5 + ['Scientific', 'Advanced']), 'ops': ops})
        opcode = rng.random() < 0.12
        switches = []
        style = rng.choice(['few', 'many', 'bursts'])
        if only is not None:
            style = 'hot'
            switches = [[rng.choice([1, 1, 2, 3, rng.randint(1, 5 if only.startswith('line:') else 60)]), rng.randrange(n)] for _ in range(300)]
        for _ in range(0 if only else {'few': rng.randint(1, 5), 'many': 150, 'bursts': 60}[style]):
            if style == 'bursts':
                d = rng.choice([1, 2, 3, 5, int(10 ** rng.uniform(1, 3.5))])
            else:
                d = int(10 ** rng.uniform(0, 4 if style == 'few' else 3))
            switches.append([d * (4 if opcode else 1), rng.randrange(n)])
        return {'env': {'tick_ns': 0}, 'mode': 'par', 'files': files, 'threads': ts, 'switches': switches, 'opcode': opcode, 'only': only}

    def one(self, rng, t, shared):
        k = rng.random()
        if k < 0.3:
            return sess.setting(rng, t.focus)
        if k < 0.35:
            return {'k': 'ambient', 'prec': rng.choice([3, 5, 28, 200]), 'rounding': rng.choice(sess.ROUNDINGS)}
        if k < 0.45:
            text = rng.choice(TROUBLE)
        elif k < 0.6:
            text = rng.choice(shared)
        elif k < 0.7:
            text = t.setter()
        elif k < 0.75:
            text = rng.choice(EXTRA)
        else:
            text = t.any()
        return {'k': 'calc', 'text': text, 'flags': {'include_state': True} if rng.random() < 0.2 else {}}

    def gen_move(self, rng, n, texts, shared, files):
        m = rng.choice([1, 1, 2])
        ops = []
        for _ in range(rng.randint(5, 12)):
            j = rng.randrange(m)
            t = rng.randrange(n)
            ops.append({'c': j, 't': t, 'op': self.one(rng, texts[j], shared)})
            if rng.random() < 0.4:
                ops.append({'c': j, 't': rng.randrange(n), 'op': {'k': 'show'}})
            if rng.random() < 0.15:
                ops.append({'c': j, 't': rng.randrange(n), 'op': {'k': 'ambient', 'prec': rng.choice([2, 5, 28, 200]), 'rounding': rng.choice(sess.ROUNDINGS)}})
        return {'env': {'tick_ns': 0}, 'mode': 'move', 'files': files, 'calcs': [{'preset': 'Computing', 't': rng.randrange(n)} for _ in range(m)], 'n': n, 'ops': ops}

    # -- several threads at once

    def make(self, w, preset, j):
        c = lib.take(preset) if preset == 'Computing' else lib.ModularCalculator(preset)
        if 'structure.functions' in c.installed_features:
            lib.add_host_functions(c, w, 't%d' % j)
        return c

    def parallel(self, sub, plan, only=None):
        w = sub.world(plan['env'])
        ts = plan['threads'] if only is None else [plan['threads'][only]]
        out = [[] for _ in ts]
        with w:
            for f in plan['files']:
                w.write_file(f['name'], file_text(f))
            cs = [self.make(w, t['preset'], j) if t['where'] == 'main' else None for j, t in enumerate(ts)]

            def body(j):
                def fn():
                    c = cs[j] or lib.ModularCalculator(ts[j]['preset'])
                    if cs[j] is None and 'structure.functions' in c.installed_features:
                        lib.add_host_functions(c, w, 't%d' % j)
                    for op in ts[j]['ops']:
                        out[j].append(sess.apply(c, op, w))
                return fn
            s = threads.Scheduler([body(j) for j in range(len(ts))], plan['switches'] if only is None else [], plan['opcode'], plan.get('only'))
            try:
                s.run()
            except threads.Deadlock:
                raise Violation('deadlock', places=s.places[-4:])
            sub.stats['switches'] += s.taken
            sub.stats['preemption-points'] += s.steps
            sub.record(out, s.places)
        return {'out': out, 'places': s.places}

    # -- one calculator, several threads in turn

    def moved(self, sub, plan, spread):
        w = sub.world(plan['env'])
        out = []
        last = {}
        with w:
            for f in plan['files']:
                w.write_file(f['name'], file_text(f))
            pool = threads.Workers(plan['n']) if spread else None

            def do(t, fn):
                return pool.do(t, fn) if spread else fn()
            cs = [do(spec['t'], lambda: lib.ModularCalculator(spec['preset'])) for spec in plan['calcs']]
            for j, c in enumerate(cs):
                lib.add_host_functions(c, w, 'c%d' % j)

            def one(o):
                c, op = cs[o['c']], o['op']
                if op['k'] == 'ambient':
                    return sess.apply(c, op, w) if spread else None
                if op['k'] == 'show':
                    resp = last.get(o['c'])
                    return None if resp is None else [lib.canon_calc_result(r, c) for r in resp.results]
                seen = sess.apply(c, op, w)
                if op['k'] == 'calc':
                    last[o['c']] = w.last_response
                return seen
            for o in plan['ops']:
                if o['c'] < len(cs):
                    out.append(do(o['t'], lambda: one(o)))
            for j, c in enumerate(cs):
                out.append(do(0, lambda: lib.canon_vars(c.vars, c)))
            if spread:
                pool.stop()
            sub.record(out)
        return out

    def run(self, plan, run):
        if plan['mode'] == 'move':
            a = run.fork(self.moved, plan, False)
            b = run.fork(self.moved, plan, True)
            moves = sum(1 for x, y in zip(plan['ops'], plan['ops'][1:]) if x['t'] != y['t'])
            run.stats['handed-over'] += moves
            run.nontrivial = moves > 1
            run.sig.append([[o['c'], o['t'], o['op']['k']] for o in plan['ops']])
            ops = [o for o in plan['ops'] if o['c'] < len(plan['calcs'])] + [{'op': 'variables'}] * len(plan['calcs'])
            for o, x, y in zip(ops, a, b):
                if x != y:
                    raise Violation('differs-on-another-thread', operation=o, one_thread=x, handed_over=y)
            return
        if plan['opcode']:
            run.stats['opcode-runs'] += 1
        got = run.fork(self.parallel, plan)
        run.sig.append(got['places'])
        run.nontrivial = len(got['places']) > 1
        for j, t in enumerate(plan['threads']):
            alone = run.fork(self.parallel, plan, j)['out'][0]
            for n, (x, y) in enumerate(zip(alone, got['out'][j])):
                if x != y:
                    raise Violation('differs-under-schedule', thread=j, operation=t['ops'][n], alone=x, together=y, switches_at=got['places'][-6:])
            if len(alone) != len(got['out'][j]):
                raise Violation('thread-did-not-finish', thread=j)


PROP = C07()
