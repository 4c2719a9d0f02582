"""C01: session variables follow a sequential model, whatever fails in between."""
from .. import gen
from .. import lib
from .. import model
from .. import world as W
from ..runner import Prop, Violation

GARBAGE = [' )', ' (1', " 'abc", ' [1, 2', ' ]', ' }', ' {1', ' abs(1', ' $', ' ?', '\n)', '\n1 + (2', '\n"', '\n@@', '\n€', ' 1 ! 2', '\nabs(,', ' [', '\n#x\n)']


def wrap_probes(g, rng):
    """Some leaves become probes: host functions that are fault points."""
    def leaf(t):
        if rng.random() < 0.35 and t in ('num', 'len', 'bool', 'str'):
            old, g.leaf = g.leaf, None
            inner = g.expr(t, 1)
            g.leaf = old
            g.labels += 1
            return ['e', 'call', 'probe', [['e', 'str', 'p%d' % g.labels], inner]]
        return None
    g.labels = 0
    return leaf


def gen_ops(rng, nops, faults=True):
    ops = []
    g = gen.Gen(rng, err=rng.choice([0, 0.01, 0.03, 0.1]), depth=rng.choice([1, 2, 3]),
                vars=gen.pool(rng), types=rng.choice([None, ['num'], ['num', 'arr'], ['len', 'num'], ['len', 'time', 'mix', 'num', 'arr'], ['str', 'bool', 'num']]))
    g.leaf = wrap_probes(g, rng)
    many = len(g.vars) > 12
    if rng.random() < 0.12:
        g.big = rng.choice([0.03, 0.15])
    if many:
        # a long calculation that gives many variables values
        g.depth = 1
        names = rng.sample(g.vars, rng.randint(len(g.vars) // 2, len(g.vars)))
        ops.append({'op': 'calc', 'stmts': [['set', v, gen.lit(rng.randint(0, 9999)) if rng.random() < 0.8 else g.expr(None, 0)] for v in names], 'state': rng.random() < 0.05})
        nops = min(nops, 5)
    for _ in range(nops):
        k = rng.random()
        stmts = [g.statement() for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
        op = {'op': 'calc', 'stmts': stmts, 'state': rng.random() < 0.4}
        if k < 0.1:
            op['op'] = 'garbage'
            op['tail'] = rng.choice(GARBAGE)
        elif k < 0.15:
            op['op'] = 'parse_only'
        elif k < 0.2:
            op['op'] = 'stateless'
        if faults and op['op'] == 'calc' and rng.random() < 0.3:
            labels = gen.labels(stmts)
            if labels:
                op['faults'] = [{'point': 'probe@' + rng.choice(labels), 'n': rng.choice([0, 0, 0, 1, 2, 3]), 'kind': rng.choice(W.ERRORS)}]
        if rng.random() < 0.3:
            op['layout'] = rng.randint(1, 3)
        if rng.random() < 0.05:
            op['simplify'] = True
        ops.append(op)
    return ops


def layout(stmts, how):
    texts = [gen.stmt_text(s) for s in stmts]
    if how == 1:
        return '\n\n'.join(texts) + '\n'
    if how == 2:
        return '\n'.join('  %s   # note %d' % (t, i) for i, t in enumerate(texts))
    if how == 3:
        return '# head\n' + '\n  \n'.join(texts) + '\n# tail'
    return '\n'.join(texts)


class C01(Prop):
    id = 'C01'
    rule = ('random histories of calculations (assignments of every kind, delete, reset, reads, unparsable text, parse-only, stateless, '
            'host functions that raise at a chosen call) on one calculator against a map model; non-trivial: at least one variable was '
            'written and at least one fault fired or statement failed')
    measure = 'hash of the sequence of (operation kind, statement kinds, which failed, which fault fired)'
    must_reach = ('stmt:set', 'stmt:op', 'stmt:del', 'failed', 'garbage', 'fault:probe')
    runs = {'quick': 20000, 'thorough': 400000}

    def setup(self):
        lib.prebuild('Computing', 2)

    def gen(self, rng, i, tier):
        return {'env': {}, 'ops': gen_ops(rng, rng.choice([3, 6, 10, 16]))}

    def run(self, plan, run):
        w = run.world(plan['env'])
        with w:
            c = lib.take()
            ow = W.World()
            o = model.Oracle(lib.take(), ow)
            lib.add_host_functions(c, w, 'sut')
            lib.add_host_functions(o.c, ow, 'oracle')
            m = model.Model(o)
            wrote = failed_any = False
            for n, op in enumerate(plan['ops']):
                stmts = op['stmts']
                text = layout(stmts, op.get('layout'))
                flags = {'include_state': True} if op.get('state') else {}
                kind = op['op']
                if kind == 'garbage':
                    text += op['tail']
                elif kind == 'parse_only':
                    flags['parse_only'] = True
                elif kind == 'stateless':
                    flags['stateless'] = True
                before = m.canon()
                o.arm(op.get('faults', []))
                c.unit_simplification_set(bool(op.get('simplify')))
                w.begin_op(op.get('faults', []))
                d, resp = lib.outcome(c, text, flags)
                fired = bool(w.fired_now)
                w.end_op()
                c.unit_simplification_set(False)
                run.record(n, text, d)
                if 'leak' in d:
                    raise Violation('exception-leaked', op=n, text=text, outcome=d)
                if kind == 'garbage':
                    # the tail may happen to parse after all: what matters is a parse error changes nothing
                    if d.get('error') == 'ParsingException':
                        run.stats['garbage'] += 1
                        self.same(c, m, before, 'unparsable-text-changed-variables', n, text)
                        continue
                    self.resync(c, m, set(m.vars) | set(c.vars))
                    continue
                if d.get('error') == 'ParsingException':
                    raise Violation('unexpected-parse-error', op=n, text=text, outcome=d)
                if kind in ('parse_only', 'stateless'):
                    self.same(c, m, before, kind + '-changed-variables', n, text)
                    continue
                results = [r for r in d['results'] if 'value' in r]
                sig = []
                # which statement failed, by the number of delivered results
                nfail = len(results) if 'error' in d else None
                for i, s in enumerate(stmts):
                    run.stats['stmt:' + s[0]] += 1
                    if nfail is not None and i > nfail:
                        break
                    failed, expect, resync = m.step(s)
                    if resync:
                        self.resync(c, m, resync, at=i, stmts=stmts)
                        if nfail is not None and i == nfail:
                            failed_any = True
                            break
                        # later statements of this calculation read the unspecified value: compare no further in it
                        rest = stmts[i:]
                        names = set(t[1] for t in rest if t[0] not in ('expr', 'reset'))
                        if any(t[0] == 'reset' for t in rest):
                            names |= set(m.vars) | set(c.vars)
                        self.resync(c, m, names)
                        break
                    sig.append((s[0], bool(failed)))
                    if failed:
                        run.stats['failed'] += 1
                        failed_any = True
                        if nfail != i:
                            raise Violation('failing-statement-reported-as-completed', op=n, text=text, statement=gen.stmt_text(s), outcome=d)
                        break
                    if s[0] != 'expr':
                        wrote = True
                    if nfail == i:
                        raise Violation('statement-failed-unexpectedly', op=n, text=text, statement=gen.stmt_text(s), outcome=d)
                    got = results[i] if i < len(results) else None
                    if got is None:
                        raise Violation('missing-result', op=n, text=text, statement=gen.stmt_text(s), outcome=d)
                    if expect is not None and not op.get('simplify'):
                        how, val = expect
                        want = [lib.canon(val[0], o.c), lib.canon_unit(val[1])]
                        have = [got['value'], got['unit']]
                        if how == 'num':
                            want = [lib.canon(val[0], o.c, False), want[1]]
                            have = [strip(got['value']), got['unit']]
                        if have != want:
                            raise Violation('wrong-result', op=n, text=text, statement=gen.stmt_text(s), expected=want, got=have)
                    if op.get('state'):
                        st = m.canon()
                        if got.get('state') != st:
                            raise Violation('wrong-state-snapshot', op=n, text=text, statement=gen.stmt_text(s), expected=st, got=got.get('state'))
                self.same(c, m, m.canon(), 'variables-differ-from-model', n, text)
                run.sig.append([kind, sig, fired])
            # every variable reads back as the model says
            for v in sorted(set(s[1] for op in plan['ops'] for s in op['stmts'] if s[0] not in ('expr', 'reset')) | set(m.vars)):
                d, _ = lib.outcome(c, v)
                p = m.vars.get(v, (None, None))
                if isinstance(p[0], Exception):
                    continue
                want = [lib.canon(p[0], o.c), lib.canon_unit(p[1])]
                if 'error' in d or 'leak' in d or [d['results'][0].get('value'), d['results'][0].get('unit')] != want:
                    raise Violation('variable-reads-wrong', var=v, expected=want, outcome=d)
            run.nontrivial = wrote and failed_any

    def same(self, c, m, want, kind, n, text):
        have = lib.canon_vars(lib.get_vars(c), c)
        if have != want:
            names = sorted(k for k in set(have) | set(want) if have.get(k, 'unset') != want.get(k, 'unset'))
            raise Violation(kind, op=n, text=text, variables=names, expected={k: want.get(k, 'unset') for k in names},
                            got={k: have.get(k, 'unset') for k in names})

    def resync(self, c, m, names, at=None, stmts=None):
        for v in names:
            if v in c.vars:
                m.vars[v] = model.clone_pair(c.vars[v])
            else:
                m.vars.pop(v, None)


def strip(v):
    """A canonical value without its display."""
    if isinstance(v, list) and v and v[0] == 'n':
        return v[:3]
    if isinstance(v, list) and v and v[0] == 'l':
        return ['l'] + [[strip(e[0]), e[1]] for e in v[1:]]
    return v


PROP = C01()
