"""Calls of user defined functions judged by a statement-by-statement reference: shared by C02 and C03."""
from .. import funcs
from .. import gen
from .. import lib
from .. import model
from .. import world as W
from ..runner import Prop, Violation
from .c01 import wrap_probes


def gen_files(rng, g, n):
    files = []
    for i in range(n):
        later = ['fn%d' % j for j in range(i + 1, n)]
        files.append({'name': 'fn%d' % i, 'input': rng.choice([None, None, None, ['array'], ['number'], ['number', 'array']]),
                      'body': funcs.gen_body(rng, g, i, later)})
        if rng.random() < 0.08:
            files[-1]['body'].append(['raw', rng.choice([')', '(1', "'abc", '1 +', 'abs(1, 2)', '1/0'])])
        if rng.random() < 0.1:
            files[-1]['tail'] = rng.choice(['\n', '\n\n# end\n', ' '])
    return files


def file_text(f):
    head = '' if not f.get('input') else '#INPUT ' + ' '.join(f['input']) + '\n'
    return head + gen.program(f['body']) + f.get('tail', '')


FAULTS = ['probe', 'probe', 'probe-int', 'open', 'read', 'close', 'open-int', 'read-int', 'clock-int', 'leaf-int', 'leaf-err', 'soft']


def gen_fault(rng, labels):
    k = rng.choice(FAULTS)
    if k.startswith('probe'):
        if not labels:
            return None
        return {'point': 'probe@' + rng.choice(labels), 'n': rng.choice([0, 0, 0, 1, 2]),
                'kind': rng.choice(W.INTERRUPTS if k == 'probe-int' else W.ERRORS)}
    if k in ('open', 'read'):
        return {'point': k, 'n': rng.choice([0, 0, 0, 1, 2]), 'kind': rng.choice(W.IO_ERRORS)}
    if k == 'close':
        return {'point': 'close', 'n': rng.choice([0, 0, 1]), 'kind': 'EIO'}
    if k in ('open-int', 'read-int'):
        return {'point': k[:4], 'n': rng.choice([0, 0, 1, 2]), 'kind': rng.choice(W.INTERRUPTS)}
    if k == 'clock-int':
        return {'point': 'clock', 'n': rng.randint(0, 25), 'kind': rng.choice(W.INTERRUPTS)}
    if k == 'leaf-int':
        return {'point': 'leaf', 'n': rng.randint(0, 400), 'kind': rng.choice(W.INTERRUPTS)}
    if k == 'leaf-err':
        return {'point': 'leaf', 'n': rng.randint(0, 400), 'kind': rng.choice(['MemoryError', 'RecursionError'])}
    return {'point': 'read', 'n': rng.choice([0, 1]), 'kind': rng.choice(['short', 'EINTR']), 'len': rng.randint(1, 9)}


def soft(faults):
    """Faults after which the outcome is still what it would have been (or what the oracle armed alike gives)."""
    return all(f['kind'] in ('short', 'EINTR') or (f['point'].startswith('probe@') and f['kind'] not in W.INTERRUPTS) for f in faults)


class FuncProp(Prop):
    judge_log = False

    def setup(self):
        lib.prebuild('Computing', 2)

    def run(self, plan, run):
        w = run.world(plan['env'])
        with w:
            c = lib.take()
            ow = W.World()
            o = model.Oracle(lib.take(), ow)
            lib.add_host_functions(c, w, 'sut')
            lib.add_host_functions(o.c, ow, 'oracle')
            files = {}
            for f in plan['files']:
                w.write_file(f['name'], file_text(f))
                files[f['name']] = {'input': f.get('input'), 'body': f['body']}
            fo = funcs.Funcs(o, files)
            ow.active = True
            fo.register(plan)
            for s in plan['prelude']:
                lib.outcome(c, gen.stmt_text(s))
            model_vars = model.clone_vars(c.vars)
            for n, op in enumerate(plan['ops']):
                self.op(run, w, c, o, fo, model_vars, n, op, plan)

    def op(self, run, w, c, o, fo, scope, n, op, plan):
        text = gen.program(op['stmts'])
        faults = op.get('faults', [])
        flags = {'stateless': True} if op.get('stateless') else {}
        missing = op.get('missing')
        if missing:
            w.write_file(missing, '', 'delete')
        # the reference: states and results after each statement
        fo.io_fails = {missing} if missing else set()
        o.arm(faults)
        states = [lib.canon_vars(scope, o.c)]
        scopes = [model.clone_vars(scope)]
        values = []
        end = 'ok'
        cur = model.clone_vars(scope)
        o.world.probe_log = []
        for s in op['stmts']:
            try:
                v = fo.statement(s, cur)
            except funcs.Failed:
                end = 'error'
                break
            except funcs.Unspecified:
                end = 'unspecified'
                break
            if op.get('stateless'):
                cur = model.clone_vars(scope)
            values.append([funcs.blur(lib.canon(v[0], o.c)), lib.canon_unit(v[1])])
            states.append(lib.canon_vars(cur, o.c))
            scopes.append(model.clone_vars(cur))
        if op.get('stateless') and self.judge_log:
            end = 'unspecified'        # what a body's own assignments do in a stateless calculation is not specified
        # the real thing
        before = lib.canon_vars(c.vars, c)
        w.probe_log = []
        w.begin_op(faults)
        leaf = w if any(f['point'] == 'leaf' for f in faults) else None
        d, resp = lib.outcome(c, text, flags, leaf=leaf)
        fired = list(w.fired_now)
        w.end_op()
        after = lib.canon_vars(c.vars, c)
        run.record(n, text, d, after)
        if missing:
            f = next(f for f in plan['files'] if f['name'] == missing)
            w.write_file(missing, file_text(f))
        how = 'interrupt' if 'interrupt' in d else 'leak' if 'leak' in d else 'error' if 'error' in d else 'ok'
        run.stats['ended:' + how] += 1
        run.sig.append([[(s[0], len(s[3])) for s in op['stmts']], [(f['point'], f['kind']) for f in fired], how])
        if len(before) > 1 and (self.judge_log or w.counts.get('fs-open')):
            run.nontrivial = True
        ctx = dict(op=n, text=text, faults=fired, ended=d.get('message') or how)
        b_after = funcs_blur_vars(after)
        b_states = [funcs_blur_vars(s) for s in states]
        done = len([r for r in d.get('results') or [] if 'value' in r])
        hard = not soft(fired)
        targets = [s[1] for s in op['stmts']]
        if how in ('interrupt', 'leak'):
            # how a failure is reported is not this property's business; the caller's variables are
            # those some completed prefix of the calls left
            allowed = b_states if end != 'unspecified' else None
        elif hard:
            # an I/O or allocation failure may be confined to elements of results: the variables assigned to are not judged
            allowed, targets = None, targets[:done]
        elif end == 'unspecified':
            allowed = b_states[:done + 1] if done < len(values) else None
        else:
            allowed = [b_states[done]] if done < len(b_states) else []
        if allowed is None:
            for k in sorted((set(before) | set(after)) - set(targets)):
                if before.get(k) != after.get(k):
                    raise Violation('caller-variable-changed', variable=k, before=before.get(k, 'unset'), after=after.get(k, 'unset'), **ctx)
        elif b_after not in allowed:
            want = allowed[-1] if allowed else b_states[-1]
            names = sorted(k for k in set(want) | set(b_after) if want.get(k, 'unset') != b_after.get(k, 'unset'))
            raise Violation('caller-variables-differ', variables=names, expected={k: want.get(k, 'unset') for k in names},
                            got={k: b_after.get(k, 'unset') for k in names}, **ctx)
        if self.judge_log and end != 'unspecified' and (not hard or how == 'interrupt'):
            want, got = funcs.blur(o.world.probe_log), funcs.blur(w.probe_log)
            if got != (want if not hard else want[:len(got)]):
                raise Violation('wrong-steps-executed', expected=want, got=got, **ctx)
        if how in ('ok', 'error') and not hard and end != 'unspecified':
            if how != end:
                raise Violation('call-ended-differently', expected=end, got=how, outcome=d, **ctx)
            got = [[funcs.blur(r['value']), r['unit']] for r in d['results'] if 'value' in r]
            if got != values[:len(got)] or len(got) != len(values):
                raise Violation('call-result-differs', expected=values, got=got, **ctx)
        # carry on from where the calculator really is (it is one of the states the reference allows)
        scope.clear()
        scope.update(model.clone_vars(c.vars))


def funcs_blur_vars(vars):
    return {k: funcs.blur(v) for k, v in vars.items()}


