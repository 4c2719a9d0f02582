"""C05: an interrupted calculation is abandoned cleanly, and the calculator stays usable."""
from .. import funcs
from .. import gen
from .. import lib
from .. import sess
from .. import world as W
from ..runner import Prop, Violation, Discard
from .c01 import wrap_probes
from .fcalls import gen_files, file_text

AFTER = ["6000 metres", "3 N * 2 m", "1200 grams * 5 m/s/s", "[4000 m, 0.002 km] + 0 m", "1 / 3", "2 miles to km", "0xFF + 1", "sin(1) + sqrt2", "(2 / 3) ^ 5", "[1, 2, 3] / 7", "'a' +$ 'b'", "now()", "100 / 7 as percentage",
         "10 degrees to radians", "round(2 / 3, 5)", "3 feet + 2 inches", "sum([1 / 3, 1 / 7])", "element([5, 6], 2)", "(1 == 1) and (2 > 1)",
         "qzz = {qzy = PARAM1\nqzy * 2}\n@qzz(4)\nqzy", "1 +", "1 / 0", "exp(1)", "5 kg * 3 m/s^2 to newtons", "2 ^ 0.5", "dateadd('2000-01-01', 1 day)"]

EXTRA = ["6000 metres", "3 N * 2 m", "1200 grams * 5 m/s/s", "now()", "sin(1)", "2 ^ 0.5", "5 miles to km", "100 kelvin to celsius", "3 N * 2 m to joules", "dateadd(now(), 3 days)", "datedifference(now(), '2001-02-03', days)",
         "exp(2)", "log(10, 2)", "dateformat(now())", "0b101 + 0xF", "sqrt2", "median([3, 1, 2])", "1 hour + 3 minutes", "12 miles/hour to m/s", "fact(6)", "(1 / 3) as scientific",
         "upper('abc') +$ lower('DEF')", "[1 .. 5] * 2", "sort([3, 1, 2])", "stdev([1, 2, 4])", "1024 bytes to bits", "regexsub('abc', 'b', 'x')", "compact(3661 seconds)"]


def stmt(s):
    return gen.stmt_text(s)


def marked(stmts):
    """A program with a mark before every statement."""
    return '\n'.join('mark(%d)\n%s' % (i, stmt(s)) for i, s in enumerate(stmts))


class C05(Prop):
    id = 'C05'
    rule = ('sessions (assignments, function files, inline functions, dates, units) in which calculations are interrupted by KeyboardInterrupt, SystemExit, '
            'GeneratorExit or an own BaseException at a chosen host function call, file open/read/close, clock reading, line of the number/unit/string/date '
            'code or line of the trial execution of statements being parsed; a twin calculator in another process, which is given only the completed statements, must agree on variables and on everything '
            'calculated later; non-trivial: an interruption fired after at least one completed statement or inside a function body')
    measure = 'hash of (statement kinds, point and kind of the interruption, which statement it hit)'
    must_reach = ('fault:probe', 'fault:open', 'fault:read', 'fault:close', 'fault:clock', 'fault:wall', 'fault:leaf', 'interrupted')
    runs = {'quick': 20000, 'thorough': 300000}

    def setup(self):
        lib.prebuild('Computing', 2)

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, err=rng.choice([0, 0, 0.02]), depth=2, types=rng.choice([['num'], None]))
        g.leaf = wrap_probes(g, rng)
        g.noarr = True
        if rng.random() < 0.3:
            files = gen_files(rng, g, rng.randint(1, 3))
        else:
            n = rng.randint(1, 3)
            files = [{'name': 'fn%d' % j, 'body': funcs.gen_friendly(rng, g, ['fn%d' % m for m in range(j + 1, n)])} for j in range(n)]
        names = [f['name'] for f in files]
        prelude = []
        g.vars = gen.VARS[:4]
        for v in gen.VARS[:rng.randint(2, 4)]:
            t = 'num' if v in ('qa', 'qb') else rng.choice(['num', 'len', 'arr', 'str'])   # qa and qb are what bodies read
            prelude.append(['set', v, g.expr(t, 1)])
            g.remember(v, t)
        for n, f in enumerate(funcs.FVARS):
            if rng.random() < 0.5:
                prelude.append(['bind', f, './' + rng.choice(names)])
            elif rng.random() < 0.3:
                prelude.append(['bindinl', f, funcs.gen_inline(rng, g, [], names)])
            else:
                prelude.append(['bindinl', f, funcs.gen_friendly(rng, g, names, funcs.FVARS[:n], True)])
        ops = []
        for _ in range(rng.randint(1, 4)):
            stmts = []
            g.vars = gen.VARS
            arrays = rng.random() < 0.3
            for _ in range(rng.choice([1, 2, 3, 5])):
                k = rng.random()
                if k < 0.3:
                    stmts.append(g.statement())
                elif k < 0.75:
                    stmts.append(['call', rng.choice([None, rng.choice(gen.VARS)]), rng.choice(funcs.FVARS),
                                  [g.expr('arr' if j == 0 and arrays and rng.random() < 0.3 else 'num', 1) for j in range(rng.choice([1, 1, 2]))]])
                else:
                    e = ['e', 'raw', rng.choice(EXTRA)]
                    stmts.append(['set', rng.choice(['qe', 'qf']), e] if rng.random() < 0.6 else ['expr', e])
            op = {'stmts': stmts, 'state': rng.random() < 0.3}
            if rng.random() < 0.1:
                op['stateless'] = True
            if rng.random() < 0.85:
                f = self.fault(rng, gen.labels([stmts, prelude, files]), stmts)
                if f is not None:
                    op['faults'] = [f]
            grows = arrays or any(s[0] == 'op' and s[2] == '^' for s in stmts)
            for _ in range(rng.choice([1, 1, 1, 1, 2, 3, 12]) if not grows else 1):
                ops.append(op)
        if len(ops) > 16:
            ops = ops[:16]
        return {'env': {'tick_ns': 0}, 'files': files, 'prelude': prelude, 'ops': ops, 'after': rng.sample(AFTER, 8)}

    def fault(self, rng, labels, stmts):
        kind = rng.choice(W.INTERRUPTS)
        k = rng.random()
        if k < 0.15 and labels:
            return {'point': 'probe@' + rng.choice(labels), 'n': rng.choice([0, 0, 0, 1, 2]), 'kind': kind}
        if k < 0.3:
            return {'point': 'probe', 'n': rng.randint(0, 3), 'kind': kind}
        if k < 0.45:
            return {'point': rng.choice(['open', 'read', 'close']), 'n': rng.choice([0, 0, 0, 1, 1, 2]), 'kind': kind}
        if k < 0.55:
            return {'point': 'clockx', 'n': rng.randint(0, 20), 'kind': kind}
        if k < 0.6:
            return {'point': 'clock', 'n': rng.randint(0, 20), 'kind': kind}
        if k < 0.7 and 'now()' in gen.program(stmts):
            return {'point': 'wall', 'n': rng.choice([0, 0, 1]), 'kind': kind}
        if k < 0.66:
            return {'point': 'simp', 'n': int(10 ** rng.uniform(0, 2.5)), 'kind': kind}
        if k < 0.69:
            return {'point': 'trial', 'n': int(10 ** rng.uniform(0, 3)), 'kind': kind}
        if k < 0.75:
            return {'point': 'leaf', 'n': int(10 ** rng.uniform(0, 3.9)), 'kind': kind}
        return {'point': 'leafx', 'n': int(10 ** rng.uniform(0, 3.4)), 'kind': kind}

    def after(self, plan):
        """What is calculated once the interruptions are over: among it, what was interrupted."""
        again = []
        for op in plan['ops']:
            t = marked(op['stmts'])
            if t not in again:
                again.append(t)
        return plan['after'] + again

    def build(self, plan, w, c, tag):
        lib.add_host_functions(c, w, tag)
        for f in plan['files']:
            w.write_file(f['name'], file_text(f))
        for s in plan['prelude']:
            lib.outcome(c, stmt(s))

    def flags(self, op):
        fl = {}
        if op.get('state'):
            fl['include_state'] = True
        if op.get('stateless'):
            fl['stateless'] = True
        return fl

    def interrupted(self, sub, plan):
        """The calculator under test: everything, with the interruptions."""
        w = sub.world(plan['env'])
        recs = []
        with w:
            c = lib.take()
            self.build(plan, w, c, 'sut')
            for op in plan['ops']:
                faults = op.get('faults', [])
                text = marked(op['stmts'])
                w.marks = []
                w.raised = None
                w.begin_op(faults)
                leaf = w if any(f['point'].startswith('leaf') or f['point'] in ('trial', 'simp') for f in faults) else None
                err = None
                try:
                    lib.call(c, text, self.flags(op), leaf)
                except Discard:
                    raise
                except BaseException as e:
                    err = e
                fired = list(w.fired_now)
                w.end_op()
                rec = {'marks': list(w.marks), 'fired': fired, 'vars': lib.canon_vars(c.vars, c), 'open': sorted(w.handles.values())}
                if fired:
                    if err is None or isinstance(err, Exception):
                        raise Violation('interruption-did-not-reach-the-caller', text=text, faults=fired,
                                        got=None if err is None else [type(err).__name__, lib.scrub(lib.safe_str(err))])
                    if err is not w.raised:
                        raise Violation('interruption-changed-on-the-way', text=text, faults=fired, got=[type(err).__name__, lib.safe_str(err)])
                elif err is not None and not isinstance(err, Exception):
                    raise Violation('spurious-interruption', text=text, got=type(err).__name__)
                err = None
                if not fired:
                    rec['again'] = None
                recs.append(rec)
                if sum(funcs.size(p[0]) for p in c.vars.values()) > 200:
                    raise Discard()          # arrays of arrays of arrays
                sub.record(rec)
            tail = [lib.outcome(c, t)[0] for t in self.after(plan)]
            final = [lib.canon_vars(c.vars, c), sess.inventory(c)]
            sub.record(tail, final)
        return {'recs': recs, 'tail': tail, 'final': final}

    def run(self, plan, run):
        out = run.fork(self.interrupted, plan)
        w = run.world(plan['env'])
        with w:
            c = lib.take()
            self.build(plan, w, c, 'twin')
            for n, (op, rec) in enumerate(zip(plan['ops'], out['recs'])):
                stmts = op['stmts']
                fired = rec['fired']
                ctx = dict(op=n, text=marked(stmts), faults=fired)
                if not fired:
                    lib.outcome(c, marked(stmts), self.flags(op))
                    self.same(c, rec, ctx)
                    continue
                run.stats['interrupted'] += 1
                k = max([m for m in rec['marks'] if isinstance(m, int)], default=-1)
                run.sig.append([[s[0] for s in stmts], fired[0]['point'], fired[0]['kind'], k])
                if rec['open']:
                    raise Violation('file-left-open', files=rec['open'], **ctx)
                if k > 0 or len(rec['marks']) and stmts and stmts[k][0] == 'call':
                    run.nontrivial = True
                if op.get('stateless') or k < 0:
                    # nothing was executed, or nothing may have an effect
                    self.same(c, rec, ctx)
                    continue
                for s in stmts[:k]:
                    lib.outcome(c, stmt(s))
                if lib.canon_vars(c.vars, c) == rec['vars']:
                    continue
                if fired[0]['point'].startswith('probe') and not fired[0].get('late'):
                    # the value was still being computed: the statement cannot have completed
                    self.same(c, rec, ctx)
                if k < len(stmts):
                    lib.outcome(c, stmt(stmts[k]))
                    s = stmts[k]
                    if s[0] in ('op', 'inc', 'dec') and s[1] in c.vars and isinstance(c.vars[s[1]][0], list):
                        # an assignment operator applied over an array assigns once per element
                        have, want = dict(rec['vars']), lib.canon_vars(c.vars, c)
                        have.pop(s[1], None)
                        want.pop(s[1])
                        if have == want:
                            return
                self.same(c, rec, ctx)
            for t, want in zip(self.after(plan), out['tail']):
                d, _ = lib.outcome(c, t)
                if d != want:
                    raise Violation('later-calculation-differs', text=t, expected=d, got=want,
                                    interruptions=[r['fired'] for r in out['recs']])
            final = [lib.canon_vars(c.vars, c), sess.inventory(c)]
            if final != out['final']:
                raise Violation('later-variables-differ', expected=final, got=out['final'])

    def same(self, c, rec, ctx):
        want = lib.canon_vars(c.vars, c)
        have = rec['vars']
        if want != have:
            names = sorted(k for k in set(have) | set(want) if have.get(k, 'unset') != want.get(k, 'unset'))
            raise Violation('variables-not-those-of-the-completed-statements', variables=names,
                            expected={k: want.get(k, 'unset') for k in names}, got={k: have.get(k, 'unset') for k in names}, **ctx)


PROP = C05()
