"""C10: delivered responses stay as delivered; evaluating without assigning changes no variable or constant."""
import re

from .. import gen
from .. import lib
from .. import sess
from ..runner import Prop, Violation

COMPARISONS = re.compile(r'<=[~$]?|>=[~$]?|==[~$]?|!=[~$]?|=~')
UNITS = ['s^-1', 'hours^-1', 'km', 'N', 'N m', 's^-1 m', 'km / hour', 'm^-1 N', '[s^-1, Hz]']
VARS = ['qa', 'qb', 'qc', 'qd', 'qe', 'qf']
LITERAL = re.compile(r"\[[^\[\]{}\n]*\]|'[^'\\\n]*'|\b0x[0-9A-F]+\b|\b0b[01]+\b|\b0o[0-7]+\b|\b\d+(?:\.\d+)?(?:E-?\d+)?%?(?![\w.])")


def assigns(text):
    """May the text assign to, or delete, a variable?"""
    t = re.sub(r"'(?:[^'\\]|\\.)*'", "''", text)
    t = COMPARISONS.sub(' ', t)
    return '=' in t or '++' in t or '--' in t or 'delete' in t or 'reset' in t or "'" in t.replace("''", '')


class C10(Prop):
    id = 'C10'
    rule = ('histories of evaluations over variables (numbers in all representations, units, arrays, strings, functions), assignments, deletions, failures, '
            'interruptions and setting changes; every response and state delivered is read again after and during each later operation; variables and '
            'constants are read around every evaluation that assigns nothing; non-trivial: at least two later operations after a response holding a value')
    measure = 'hash of (operation texts, outcomes)'
    must_reach = ('kept', 'rereads', 'nonassigning', 'settings', 'states', 'interrupted', 'during', 'partial')
    hangs = False
    runs = {'quick': 20000, 'thorough': 300000}

    def setup(self):
        lib.prebuild('Computing', 2)

    def gen(self, rng, i, tier):
        texts = sess.Texts(rng)
        ops = []
        for v in rng.sample(VARS, rng.randint(2, 4)):
            ops.append({'k': 'calc', 'text': '%s = %s' % (v, rng.choice(sess.VALUES))})
        for _ in range(rng.choice([4, 8, 14])):
            k = rng.random()
            if k < 0.12:
                v = rng.choice(VARS)
                ops += [{'k': 'calc', 'text': '%s = %s' % (v, rng.choice(sess.VALUES if rng.random() < 0.7 else UNITS))}, {'k': 'simplify', 'v': True}]
                ops += [{'k': 'calc', 'text': rng.choice([v, self.over(rng, v), '5 ' + v, '3 Hz to ' + v, '2 / (4 %s)' % v, '6 N * 2 m * 3 %s' % v, '6 kg * %s / 2 s^2' % v])} for _ in range(rng.choice([1, 2, 4]))]
            elif k < 0.45:
                ops.append({'k': 'calc', 'text': self.over(rng)})
            elif k < 0.62:
                ops += self.lifted(rng, texts)
            elif k < 0.72:
                ops.append({'k': 'calc', 'text': texts.any()})
            elif k < 0.8:
                ops.append(sess.setting(rng, texts.focus) if rng.random() < 0.6 else {'k': 'simplify', 'v': rng.random() < 0.7})
            elif k < 0.93:
                v = rng.choice(VARS)
                ops.append({'k': 'calc', 'text': rng.choice(['{v} = {x}', '{v} += 1', '{v} *= 2', '{v}++', '--{v}', '{v} ||= {x}', 'delete({v})', 'reset()', '{v} = {w}', '{v} = [{w}, {w}]', '{v} = {w}\n{v} += 1', '{v} += {w}', '{v} = {w} = 5']).format(
                    v=v, w=rng.choice(VARS), x=rng.choice(sess.VALUES).replace('{', '{{').replace('}', '}}')).replace('{{', '{').replace('}}', '}')})
            else:
                ops.append({'k': 'calc', 'text': '\n'.join(self.over(rng) for _ in range(rng.choice([2, 3]))) + rng.choice(['', '', '\n1 / 0', '\nboom()', '\nabs(1, 2, 3)'])})
        for op in ops:
            if op['k'] == 'calc':
                fl = {}
                if rng.random() < 0.3:
                    fl['include_state'] = True
                if rng.random() < 0.06:
                    fl['stateless'] = True
                if fl:
                    op['flags'] = fl
                if rng.random() < 0.12:
                    op['faults'] = [sess.gen_fault(rng)]
        return {'env': {'tick_ns': 0}, 'ops': ops, 'simplify': rng.random() < 0.3}

    def over(self, rng, v=None):
        t = rng.choice(sess.OVER)
        if v is not None:
            t = t.replace('{b}', v) if '{b}' in t and rng.random() < 0.5 else t.replace('{a}', v)
        return t.replace('{a}', rng.choice(VARS)).replace('{b}', rng.choice(VARS + ['2', '3']))

    def lifted(self, rng, texts):
        """A text of the corpus with its literals put into variables."""
        t = rng.choice(texts.corpus)
        if len(t) > 200 or 'sp_' in t and rng.random() < 0.9:
            return []
        sets = []
        free = list(VARS)
        rng.shuffle(free)

        def lift(m):
            if not free or rng.random() < 0.25:
                return m.group(0)
            v = free.pop()
            sets.append({'k': 'calc', 'text': '%s = %s' % (v, m.group(0))})
            return '(%s)' % v if rng.random() < 0.3 else v
        t = LITERAL.sub(lift, t)
        return sets + [{'k': 'calc', 'text': t}] * rng.choice([1, 1, 2])

    def snap(self, c, ref, resp):
        return [self.describe(r, ref) for r in resp.results]

    def describe(self, r, ref):
        return lib.canon_calc_result(r, ref)

    def values(self, c, ref):
        return [lib.canon_vars(c.vars, ref), {k: lib.canon_pair(v if isinstance(v, tuple) else (v, None), ref) for k, v in sorted(c.constants.items())}]

    def run(self, plan, run):
        w = run.world(plan['env'])
        with w:
            ref = lib.take()          # only ever used to display values
            c = lib.take()
            kept = []

            def check(when, op):
                for resp, want, by in kept:
                    run.stats['rereads'] += 1
                    now = self.snap(c, ref, resp)
                    if now != want:
                        raise Violation('delivered-response-changed', delivered_by=by, changed_by=op, when=when, delivered=want, now=now)

            current = []

            def hook(k):
                run.stats['during'] += 1
                check('during', current[0])
            lib.add_host_functions(c, w, hooks=hook)
            c.unit_simplification_set(plan['simplify'])
            w.write_file('fna', 'PARAM1 ||= [1, 2, 3]\nPARAM1')
            for t in ("zfa = './fna'", 'zfb = {PARAM1}'):
                lib.outcome(c, t)
            again = []                # evaluations and what they gave, since the last change of a variable or setting
            for op in plan['ops']:
                current[:] = [op]
                quiet = op['k'] == 'calc' and not assigns(op['text'])
                before = self.values(c, ref) if quiet else None
                resp = None
                if op['k'] == 'calc':
                    w.begin_op(op.get('faults', []))
                    leaf = w if any(f['point'].startswith('leaf') for f in op.get('faults', [])) else None
                    d, resp = lib.outcome(c, op['text'], op.get('flags'), leaf=leaf)
                    if 'interrupt' in d:
                        run.stats['interrupted'] += 1
                    w.end_op()
                    run.record(op['text'], d)
                else:
                    d = sess.apply(c, op, w)
                    run.stats['settings'] += 1
                check('after', op)
                if quiet:
                    run.stats['nonassigning'] += 1
                    after = self.values(c, ref)
                    if after != before:
                        ch = {}
                        for x, y in zip(before, after):
                            for name in sorted(set(x) | set(y)):
                                if x.get(name) != y.get(name):
                                    ch[name] = [x.get(name, 'unset'), y.get(name, 'unset')]
                        raise Violation('value-changed-by-evaluation', text=op['text'], changed=ch, outcome=d)
                    for text, want in again[-4:]:
                        got, _ = lib.outcome(c, text)
                        run.stats['reevaluated'] += 1
                        if got != want:
                            raise Violation('evaluation-changed-what-another-gives', text=op['text'], of=text, before=want, after=got)
                    if 'interrupt' not in d and 'now' not in op['text'] and not op.get('faults'):
                        again.append((op['text'], lib.outcome(c, op['text'])[0]))
                else:
                    again = []
                if len(kept) and kept[0][1]:
                    run.nontrivial = run.nontrivial or len(kept) > 2
                if resp is not None and resp.results:
                    kept.append((resp, self.snap(c, ref, resp), op['text']))
                    run.stats['kept'] += 1
                    run.stats['states'] += any(r.has_state() for r in resp.results)
                    run.stats['partial'] += 'error' in d
                if any(lib.grown(v) or lib.grown(u) for v, u in c.vars.values()):
                    break
                run.sig.append([op.get('text'), 'error' in (d or {})])


PROP = C10()
