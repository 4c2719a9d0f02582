"""C26: a host function may calculate on the calculator that is calling it."""
from .. import funcs
from .. import gen
from .. import lib
from .. import world as W
from ..model import clone_pair, clone_vars
from ..runner import Prop, Violation, Discard
from .c01 import wrap_probes
from .c05 import AFTER

OWN, FREE = gen.VARS[:2], gen.VARS[2:]       # nested calculations write only the latter
FVARS = ['zfa', 'zfb', 'zfc']


def text(s):
    """Statements beyond those of gen: ['act', form, target or None, calls, value], ['fn', target, function, argument]."""
    if s[0] == 'act':
        form, target, calls, e = s[1:5]
        a = [gen_act(x) for x in calls]
        if form == 'alone':
            t = a[0]
        elif form == 'first':
            t = '%s + %s' % (a[0], gen.text(e))
        elif form == 'list':
            t = '[%s, %s]' % (', '.join(a), gen.text(e, True))
        elif form == 'probe':
            t = "probe('%s', %s)" % (s[5], a[0])
        elif form == 'inner':
            t = 'act(%d, %s)' % (calls[1][0], a[0])
        elif form == 'each':
            t = 'act([%s], %s)' % (', '.join(str(x[0]) for x in calls), value_text(calls[0][1]))
        elif form == 'choice':
            t = '(%s == 0) then %s else %s' % (a[0], gen.text(e), '7')
        elif form == 'sum':
            t = '%s + sum(%s, 1) + %s' % (a[0], a[1] if len(a) > 1 else '2', gen.text(e))
        if target is None:
            return t
        return '%s %s %s' % (target, s[6] if len(s) > 6 and s[6] else '=', t)
    if s[0] == 'fn':
        t = '@%s(%s)' % (s[2], arg_text(s[3]))
        return t if s[1] is None else '%s = %s' % (s[1], t)
    if s[0] == 'fnbind':
        return "%s = './%s'" % (s[1], s[2])
    if s[0] == 'inlbind':
        return '%s = {%s}' % (s[1], program(s[2]))
    return gen.stmt_text(s)


def value_text(v):
    return v if v is not None else ''


def gen_act(x):
    return 'act(%d%s)' % (x[0], '' if x[1] is None else ', ' + x[1])


def arg_text(a):
    if a[0] == 'act':
        return gen_act(a[1])
    if a[0] == 'list':
        return '[%s]' % ', '.join(gen.text(e, True) for e in a[1])
    return gen.text(a[1], True)


def program(stmts):
    return '\n'.join(text(s) for s in stmts)


UNKNOWN = '~unknown~'        # the text of an error that the reference does not tell


class C26(Prop):
    id = 'C26'
    rule = ('programs whose host functions calculate on the calculator that is calling them, several levels deep: in statements, operands, array elements, arguments and '
            'the bodies of inline and external functions; nested programs that assign, delete, reset, fail, cannot be parsed, are interrupted, only parsed or stateless, '
            'whose failure the host function swallows or passes on; each level against a statement-by-statement evaluation on another calculator in which nothing is '
            'nested; non-trivial: a nested calculation ran, and something was calculated after it in the same calculation')
    measure = 'hash of (forms of the nesting statements, depth reached, how the nested calculations ended)'
    must_reach = ('nested', 'nested:error', 'nested:interrupt', 'nested:parse error', 'in-body', 'deep', 'fault:probe', 'timed')
    runs = {'quick': 20000, 'thorough': 300000}

    def setup(self):
        lib.prebuild('Computing', 2)

    # ------------------------------------------------------------------ generation

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, err=rng.choice([0, 0.02, 0.08]), depth=1, types=['num', 'num', 'len', 'arr', 'str'])
        probes = wrap_probes(g, rng)

        def leaf(t):
            if rng.random() < 0.12 and t == 'num':
                return ['e', 'call', 'slow', [gen.lit(rng.randint(1, 9) * 10 ** rng.randint(0, 6)), g.number()]]
            return probes(t)
        g.leaf = leaf
        n = rng.randint(2, 6)
        half = max(1, n // 2)
        nested = []
        for k in range(n):
            later = list(range(k + 1, n))
            flags = {}
            x = rng.random()
            if x < 0.2:
                flags['include_state'] = True
            elif x < 0.28:
                flags['stateless'] = True
            elif x < 0.34:
                flags['parse_only'] = True
            spec = {'flags': flags, 'swallow': rng.choice(['all', 'all', 'errors', 'none', 'none'])}
            stmts = []
            for _ in range(rng.randint(1, 4)):
                if flags.get('stateless'):
                    g.vars = OWN
                    stmts.append(['set', rng.choice(FREE), g.expr(rng.choice(['num', 'len']))] if rng.random() < 0.5 else ['expr', g.expr()])
                elif later and rng.random() < 0.4:
                    stmts.append(self.act(rng, g, later, FREE, None))
                elif k < half and rng.random() < 0.3:
                    stmts.append(self.call(rng, g, FREE, later))
                else:
                    stmts.append(self.plain(rng, g, FREE))
            spec['stmts'] = stmts
            if rng.random() < 0.12:
                spec['broken'] = rng.choice([' )', ' (1', " 'abc", ' [1, 2', '\n)', '\n(1 + 2'])
            if not flags.get('stateless') and rng.random() < 0.06:
                spec['stmts'].insert(rng.randint(0, len(stmts)), ['reset'])
                spec['resets'] = True
            nested.append(spec)
        leaves = list(range(half, n)) or [n - 1]
        files = [{'name': 'fn%d' % j, 'body': self.body(rng, g, leaves)} for j in range(2)]
        prelude = [['set', v, g.number() if rng.random() < 0.7 else ['e', 'unit', g.number(), 'metres']] for v in OWN]
        g.vars = OWN
        prelude += [['set', v, g.expr()] for v in FREE if rng.random() < 0.6]
        for f in FVARS:
            prelude.append(['fnbind', f, rng.choice(files)['name']] if rng.random() < 0.5 else ['inlbind', f, self.body(rng, g, leaves)])
        ops = []
        for _ in range(rng.randint(1, 4)):
            stmts = []
            for _ in range(rng.randint(1, 5)):
                x = rng.random()
                if x < 0.5:
                    stmts.append(self.act(rng, g, list(range(n)), gen.VARS, OWN))
                elif x < 0.7:
                    stmts.append(self.call(rng, g, gen.VARS, list(range(n))))
                else:
                    stmts.append(self.plain(rng, g, gen.VARS))
            op = {'stmts': stmts, 'flags': {'include_state': True} if rng.random() < 0.3 else {}}
            if rng.random() < 0.6:
                labels = sorted(set(gen.labels([stmts, nested, files, prelude]) + [s[5] for st in [stmts] + [x['stmts'] for x in nested] for s in st if s[0] == 'act' and s[1] == 'probe']))
                if labels:
                    op['faults'] = [{'point': 'probe@' + rng.choice(labels), 'n': rng.choice([0, 0, 0, 1, 2]), 'kind': rng.choice(W.ERRORS + W.INTERRUPTS * 4)}]
            ops.append(op)
        resets = set()
        for k in reversed(range(n)):
            if nested[k].get('resets') or any(x[0] in resets for s in nested[k]['stmts'] if s[0] == 'act' for x in s[3]):
                resets.add(k)
        for stmts in [x['stmts'] for x in nested] + [x['body'] for x in files] + [s[2] for s in prelude if s[0] == 'inlbind'] + [x['stmts'] for x in ops]:
            for s in stmts:
                if s[0] == 'act' and any(x[0] in resets for x in s[3]):
                    s[4] = gen.lit(rng.randint(1, 9))       # no variable is read that may be gone
                    del s[6:]
                elif s[0] == 'fn' and s[3][0] == 'act' and s[3][1][0] in resets:
                    s[3] = ['value', gen.lit(4)]
        return {'env': {'tick_ns': 0}, 'files': files, 'prelude': prelude, 'nested': nested, 'ops': ops, 'after': rng.sample(AFTER, 4)}

    def plain(self, rng, g, targets):
        g.vars = gen.VARS
        v = rng.choice(targets)
        k = rng.random()
        own = v in OWN
        if k < 0.45:
            return ['set', v, g.expr('num' if own else None)]
        if k < 0.55:
            return ['setif', v, g.expr('num')]
        if k < 0.65:
            return ['op', v, rng.choice('+-*'), g.expr('num', 1)]
        if k < 0.72:
            return [rng.choice(['inc', 'dec']), v]
        if k < 0.78:
            return ['del', v]
        return ['expr', g.expr() if rng.random() < 0.5 else ['e', 'var', rng.choice(gen.VARS)]]

    def act(self, rng, g, ks, targets, assigned):
        """A statement with calls of act, whose operands are not among what nested calculations write."""
        g.vars = OWN
        form = rng.choice(['alone', 'alone', 'first', 'first', 'list', 'probe', 'inner', 'each', 'choice', 'sum'])
        target = rng.choice(targets) if rng.random() < 0.6 else None
        n = 2 if form == 'inner' else rng.choice([1, 2, 3]) if form == 'each' else rng.choice([1, 2]) if form in ('list', 'sum') else 1
        calls = [[rng.choice(ks), rng.choice([None, '3', '2.5', '0', '0x1F'])] for _ in range(n)]
        if form in ('inner', 'each'):
            calls[0][1] = '5'
        e = g.expr('num', 1)
        g.labels += 1
        s = ['act', form, target, calls, e, 'p%d' % g.labels]
        if target in OWN and assigned and rng.random() < 0.3:
            s.append(rng.choice(['+=', '-=', '*=', '||=']))
        return s

    def call(self, rng, g, targets, ks):
        g.vars = OWN
        k = rng.random()
        a = ['act', [rng.choice(ks), '4']] if k < 0.2 and ks else ['list', [g.number() for _ in range(rng.choice([1, 2, 3]))]] if k < 0.35 else ['value', g.expr('num', 1)]
        return ['fn', rng.choice([None, rng.choice(targets)]), rng.choice(FVARS), a]

    def body(self, rng, g, ks):
        body = []
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if x < 0.55:
                s = self.act(rng, g, ks, FREE, None)
                body.append(s)
            else:
                s = self.plain(rng, g, FREE)
                body.append(s)
        g.vars = ['PARAM1'] + gen.VARS[2:4]
        body.append(['expr', ['e', 'arr', [['e', 'var', v] for v in ['PARAM1'] + [rng.choice(gen.VARS)][:rng.choice([0, 1])]]]] if rng.random() < 0.6 else ['set', 'qc', g.expr('num', 1)])
        return body

    # ------------------------------------------------------------------ the calculator under test

    def hook(self, k):
        c, w = self.c, self.w
        spec = self.plan['nested'][k]
        self.depth += 1
        self.runs += 1
        if self.depth > 12 or self.runs > 150:
            raise Discard()
        t = program(spec['stmts']) + spec.get('broken', '')
        o = {'k': k, 'depth': self.depth}
        resp = None
        passed = spec['swallow'] == 'none'
        err = None
        try:
            resp = c.calculate(t, dict(spec['flags']))
            o['results'] = self.results(resp)
        except lib.CalculatingException as e:
            err = e
            resp = e.response if e.has_response() else None
            o.update(error=e.message, parse=isinstance(e, lib.ParsingException), results=self.results(resp) if resp is not None else None)
            o['at'] = self.position(e, spec, t, len(o['results'] or []))
        except Discard:
            raise
        except Exception as e:
            raise W.SimInterrupt('leak: %s' % type(e).__name__)
        except BaseException as e:
            o['interrupt'] = type(e).__name__
            err = e
        finally:
            self.depth -= 1
        self.log.append(o)
        self.kept.append([resp, o])
        if err is not None and (passed or spec['swallow'] == 'errors' and 'interrupt' in o):
            raise err

    def position(self, err, spec, t, done):
        if isinstance(err, lib.ParsingException):
            return
        try:
            pos = err.find_pos(t)
        except Exception as e:
            self.bad.append(['position-not-found', t, lib.safe_str(e)])
            return
        texts = [text(s) for s in spec['stmts']]
        start = sum(len(x) + 1 for x in texts[:done])
        end = start + len(texts[done]) if done < len(texts) else len(t)
        if not start - 1 <= pos <= end:
            self.bad.append(['position-outside-the-failing-statement', t, pos, start, end])
        return max(0, pos - start)

    def results(self, resp):
        c = self.c
        out = []
        for r in resp.results:
            if r.has_result():
                out.append([funcs.blur(lib.canon(r.value, c)), lib.canon_unit(r.unit), blur_vars(lib.canon_vars(r.state, c)) if r.has_state() else None, round(r.timings.get('exec', 0) * 1e9)])
        return out

    # ------------------------------------------------------------------ the reference: nothing is nested

    def ref_calc(self, spec, depth=0):
        """Statement by statement; returns its outcome and what it ends with."""
        t, ow = self.t, self.ow
        o = {'results': []}
        whole = program(spec['stmts']) + spec.get('broken', '')
        flags = spec['flags']
        try:
            t.calculate(whole, {'parse_only': True})
        except lib.CalculatingException as e:
            o.update(error=e.message, parse=True)
            return o, lib.ParsingException(e.message, [[]], None)
        if flags.get('parse_only'):
            return o, None
        saved = t.vars
        try:
            for s in spec['stmts']:
                start = ow.mono_ns
                self.unsure = False
                if flags.get('stateless'):
                    t.vars = clone_vars(saved)
                try:
                    v, u = self.ref_statement(s, depth)
                except funcs.Failed as e:
                    message = str(e) if e.args and e.args[0] is not None and not self.unsure else None
                    o.update(error=message, parse=False)
                    if not self.unsure and s[0] != 'fn':
                        o['at'] = e.at
                    return o, lib.ExecutionException(message or UNKNOWN, [[]], None)
                except Discard:
                    raise
                except Exception:
                    raise
                except BaseException as e:
                    o['interrupt'] = type(e).__name__
                    o.pop('results')
                    return o, e
                o['results'].append([funcs.blur(lib.canon(v, t)), lib.canon_unit(u), blur_vars(lib.canon_vars(t.vars, t)) if flags.get('include_state') else None, ow.mono_ns - start])
            return o, None
        finally:
            if flags.get('stateless'):
                t.vars = saved

    def ref_nested(self, k, depth):
        spec = self.plan['nested'][k]
        self.runs += 1
        if depth > 12 or self.runs > 150:
            raise Discard()
        o, end = self.ref_calc(spec, depth)
        self.log.append(dict(o, k=k, depth=depth))
        if end is None:
            return None
        interrupt = not isinstance(end, Exception)
        if spec['swallow'] == 'none' or spec['swallow'] == 'errors' and interrupt:
            if not interrupt and o['error'] is None:
                self.tainted = True
            return end
        return None

    def nest(self, calls, depth):
        """The calculations of the act calls of a statement, in order: what each call is to raise."""
        todo = []
        for k, _ in calls:
            end = self.ref_nested(k, depth + 1)
            todo.append([k, end])
            if end is not None and not isinstance(end, Exception):
                break
        return todo

    def ref_hook(self, k):
        if not self.todo or self.todo[0][0] != k:
            raise Discard()            # the statement is not one whose operands come in the order taken for granted
        _, end = self.todo.pop(0)
        if end is not None:
            raise end

    def ref_statement(self, s, depth):
        t = self.t
        if s[0] == 'fn':
            return self.ref_call(s, depth)
        if s[0] == 'act':
            self.tainted = False
            before = self.todo
            calls = s[3]
            if s[1] in ('list', 'inner', 'sum') and len(calls) > 1:
                # a failure passed on keeps the later ones from being called
                todo = []
                for x in calls:
                    end = self.ref_nested(x[0], depth + 1)
                    todo.append([x[0], end])
                    if end is not None:
                        if s[1] != 'inner' and isinstance(end, Exception):
                            raise Discard()
                        break
            else:
                todo = self.nest(calls, depth)
            self.todo = todo
            if self.tainted:
                self.unsure = True
            try:
                return self.ref_text(text(s))
            finally:
                self.todo = before
        return self.ref_text(text(s))

    def ref_text(self, tx):
        try:
            resp = self.t.calculate(tx)
        except lib.CalculatingException as e:
            failed = funcs.Failed(e.message)
            failed.at = max(0, e.find_pos(tx)) if isinstance(e, lib.ExecutionException) else None
            raise failed
        r = [r for r in resp.results if r.has_result()]
        if not r:
            failed = funcs.Failed('no result')
            failed.at = None
            raise failed
        return r[-1].value, r[-1].unit

    def ref_call(self, s, depth):
        t = self.t
        self.unsure = True
        if s[2] not in t.vars:
            raise funcs.Failed(None)
        ref = t.vars[s[2]][0]           # names are resolved before the arguments
        target, a = s[1], s[3]
        if a[0] == 'act':
            before, self.todo = self.todo, self.nest([a[1]], depth)
            try:
                arg = self.ref_text(gen_act(a[1]))
            finally:
                self.todo = before
        else:
            arg = self.ref_text(arg_text(a))
        arg = clone_pair(arg)
        val = self.apply(ref, arg, depth)
        if target is not None:
            t.vars = dict(t.vars)
            t.vars[target] = clone_pair(val)
        return val

    def apply(self, ref, arg, depth):
        if not isinstance(arg[0], list):
            return self.ref_body(ref, arg, depth)
        out = []
        for e in arg[0]:
            try:
                v, u = (e.value, None) if isinstance(e.value, Exception) else self.apply(ref, (e.value, e.unit), depth)
            except funcs.Failed:
                v, u = lib.CalculatorException(UNKNOWN), None
            out.append(lib.OperandResult(v, u, None))
        return (out, None)

    def ref_body(self, ref, arg, depth):
        t = self.t
        if isinstance(ref, str):
            body = next(f['body'] for f in self.plan['files'] if './' + f['name'] == ref)
            scope = {}
        elif isinstance(ref, lib.InlineFunctionItem):
            body = self.inl[ref.text]
            scope = clone_vars(t.vars)
        else:
            raise Discard()
        saved = t.vars
        scope['PARAM1'] = clone_pair(arg)
        t.vars = scope
        self.bodies += 1
        if self.bodies > 200:
            raise Discard()
        try:
            val = None
            for s in body:
                val = clone_pair(self.ref_statement(s, depth))
            return val
        finally:
            t.vars = saved
            self.unsure = True

    # ------------------------------------------------------------------ run

    def run(self, plan, run):
        self.plan = plan
        self.w = w = run.world(plan['env'])
        self.inl = {'{%s}' % program(s[2]): s[2] for s in plan['prelude'] if s[0] == 'inlbind'}
        self.depth = self.runs = self.bodies = 0
        self.kept, self.todo, self.bad = [], [], []
        with w:
            self.c = c = lib.take()
            self.t = t = lib.take()
            self.ow = ow = W.World()
            ow.active = True
            lib.add_host_functions(c, w, 'sut', self.hook)
            lib.add_host_functions(t, ow, 'oracle', self.ref_hook)
            for f in plan['files']:
                w.write_file(f['name'], program(f['body']))
            for s in plan['prelude']:
                lib.outcome(c, text(s))
                lib.outcome(t, text(s))
            for n, op in enumerate(plan['ops']):
                faults = op.get('faults', [])
                # the reference first
                self.log, self.runs, self.bodies, self.unsure = [], 0, 0, False
                ow.begin_op(faults)
                want, _ = self.ref_calc(op)
                ow.end_op()
                want_log = self.log
                want_vars = blur_vars(lib.canon_vars(t.vars, t))
                if any(lib.grown(p[0]) for p in t.vars.values()):
                    raise Discard()
                # the real thing
                self.log, self.runs, self.depth = [], 0, 0
                tx = program(op['stmts'])
                w.begin_op(faults)
                d, resp = None, None
                try:
                    resp = c.calculate(tx, dict(op['flags']))
                    d = {'results': self.results(resp)}
                except lib.CalculatingException as e:
                    d = {'error': e.message, 'parse': isinstance(e, lib.ParsingException), 'results': self.results(e.response)}
                    d['at'] = self.position(e, op, tx, len(d['results']))
                    resp = e.response
                except Discard:
                    raise
                except Exception as e:
                    raise Violation('leak', text=tx, error=type(e).__name__)
                except BaseException as e:
                    d = {'interrupt': type(e).__name__}
                fired = list(w.fired_now)
                w.end_op()
                got_vars = blur_vars(lib.canon_vars(c.vars, c))
                ctx = dict(op=n, text=tx, faults=fired, nested=[[x['k'], program(plan['nested'][x['k']]['stmts'])] for x in want_log][:10])
                run.record(n, d, self.log, got_vars)
                self.count(run, op, want_log, d)
                if self.bad:
                    raise Violation(self.bad[0][0], detail=self.bad[0][1:], **ctx)
                for i, (x, y) in enumerate(zip(want_log, self.log)):
                    if not same(x, y):
                        raise Violation('nested-calculation-differs', number=i, expected=x, got=y, **ctx)
                if len(want_log) != len(self.log):
                    raise Violation('other-nested-calculations', expected=[x['k'] for x in want_log], got=[x['k'] for x in self.log], **ctx)
                if not same(want, d):
                    raise Violation('calculation-around-differs', expected=want, got=d, **ctx)
                if want_vars != got_vars:
                    names = sorted(k for k in set(want_vars) | set(got_vars) if want_vars.get(k) != got_vars.get(k))
                    raise Violation('variables-differ', expected={k: want_vars.get(k, 'unset') for k in names}, got={k: got_vars.get(k, 'unset') for k in names}, **ctx)
                for r, o in self.kept:
                    if r is not None and self.results(r) != o['results']:
                        raise Violation('response-of-a-nested-calculation-changed', delivered=o['results'], now=self.results(r), **ctx)
            for tx in plan['after']:
                a, b = lib.outcome(c, tx)[0], lib.outcome(t, tx)[0]
                if a != b:
                    raise Violation('later-calculation-differs', text=tx, expected=b, got=a)

    def count(self, run, op, log, d):
        run.stats['nested'] += len(log)
        for x in log:
            run.stats['nested:interrupt' if 'interrupt' in x else 'nested:parse error' if x.get('parse') else 'nested:error' if 'error' in x else 'nested:ok'] += 1
            run.stats['deep'] += x['depth'] > 2
            run.stats['timed'] += any(r[3] for r in x.get('results') or [])
        run.stats['in-body'] += self.bodies > 0 and bool(log)
        if log and (len(op['stmts']) > 1 or len(log) > 1):
            run.nontrivial = True
        run.sig.append([[s[1] if s[0] == 'act' else s[0] for s in op['stmts']], [x['k'] for x in log], ['interrupt' if 'interrupt' in x else 'error' if 'error' in x else 'ok' for x in log]])


def same(want, got):
    if want.get('results') is not None and 'interrupt' not in want and want['results'] != got.get('results'):
        return False
    if ('interrupt' in want, want.get('interrupt')) != ('interrupt' in got, got.get('interrupt')):
        return False
    if 'error' in want:
        if want.get('at') is not None and got.get('at') != want['at']:
            return False
        return 'error' in got and want['parse'] == got['parse'] and (want['error'] is None or UNKNOWN in want['error'] or want['error'] == got['error'])
    return 'error' not in got


def blur_vars(v):
    return {k: funcs.blur(x) for k, x in v.items()}


PROP = C26()
