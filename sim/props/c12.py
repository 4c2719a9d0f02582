"""C12: a response depends on current state only, never on calculation history."""
import json
import os
import re
import subprocess
import sys

from .. import funcs
from .. import gen
from .. import lib
from .. import sess
from ..runner import Prop, Violation, Discard, VERIF
from .c05 import EXTRA
from .fcalls import file_text

ASSIGNS = re.compile(r'(?<![=!<>~])=(?![=~$])|\+\+|--|reset|delete|now|PARAM')
CALLS = ['@zfa(3)', '@zfb(2.5)', '@zfc(7)', '@zfa(qa)', '@zfb([1, 2])', '@zfa([qa, 4])']
BADCALLS = ["@zfa('x')", '@zfa(1 m)', '@zfb(1 / 0)', '@zfc()', "@zfb([1, 'x'])", '@zfa([])', '@zfa(true)', '@zfa(3 s) + 1', '@zfb(2', "@zfc('2000-01-01')", '@qa(1)', '@qz(1)',
            '@zfa([1, 2] / 0)', '@zfa(1, 2, 3, 4)', '@zfb(-1)', '@zfc(0)', '@zfc(1E30)']

OFTEN = ['1 / 0', '1 +', 'nosuch(1)', '[1 / 0]', "abs('x')", 'q_none + 1', '(1', "'abc", '1 2 + (3 / 0)', '2 + 3', '1 m + 1 s', 'max(1 / 0)', '{1', '3 kg * 2 m', '[1, 2', "'2001-02-03' + 'x'", '1\n2 +\n3', '7 ^ 0.5', '[1 .. 3] / 0']


class C12(Prop):
    id = 'C12'
    seconds = dict(Prop.seconds, quick=55)
    rule = ('the same expressions evaluated in the same state (variables, functions, options, files) by two forked copies of a calculator, one of which '
            'went through extra history: failing, unparsable, parse-only, stateless and interrupted calculations of related texts, settings changed and '
            'changed back, variables set and deleted, function files lost and restored; some runs repeat the session under other hash seeds in '
            'fresh interpreters; non-trivial: the extra history contained failing and successful calculations')
    measure = 'hash of the kinds and outcome classes of the extra history'
    must_reach = ('noise:failed', 'noise:ok', 'noise:interrupted', 'noise:setting', 'hashseed-runs')
    runs = {'quick': 20000, 'thorough': 200000}

    def setup(self):
        lib.prebuild('Computing', 1)

    def gen(self, rng, i, tier):
        t = sess.Texts(rng, assign=False)
        setup = []
        g = t.g
        for v in gen.VARS[:4]:
            if rng.random() < 0.8:
                ty = 'num' if v in ('qa', 'qb') else rng.choice(['num', 'len', 'arr', 'str', 'time', 'mix'])
                setup.append({'k': 'calc', 'text': gen.stmt_text(['set', v, g.expr(ty, 2)])})
                g.remember(v, ty)
        files = [{'name': 'fn0', 'body': funcs.gen_friendly(rng, g, [])}]
        for f in funcs.FVARS:
            s = ['bind', f, './fn0'] if rng.random() < 0.3 else ['bindinl', f, funcs.gen_friendly(rng, g, ['fn0'], [], True)]
            setup.append({'k': 'calc', 'text': gen.stmt_text(s)})
        g.vars = gen.VARS[:4]
        for _ in range(rng.choice([0, 0, 1, 2])):
            setup.insert(rng.choice([0, 0, len(setup)]), sess.setting(rng, t.focus))
        hashrun = i % 60 == 7
        tail = []
        for _ in range(rng.randint(3, 7) if not hashrun else 80):
            k = rng.random()
            if k < 0.25:
                text = rng.choice(CALLS)
            elif k < 0.35:
                text = rng.choice(EXTRA)
            elif k < 0.45:
                text = rng.choice(BADCALLS)
            elif k < 0.6:
                text = gen.stmt_text(['set', rng.choice(gen.VARS[:4]), g.expr(None, 1)])
            elif k < 0.75 and t.focus is not None:
                text = rng.choice(sess.OPTION_TEXTS[t.focus[:2]])
            else:
                text = t.any()
            tail.append({'k': 'calc', 'text': text, 'flags': {'include_state': True} if rng.random() < 0.2 else {}})
        plan = {'env': {'tick_ns': 0}, 'files': files, 'setup': setup, 'tail': tail}
        if hashrun:
            plan['hashseed'] = rng.randint(1, 4_000_000_000)
            return plan
        plan['before'] = [{'ops': self.noise(rng, t, tail) if rng.random() < 0.4 else []} for _ in range(len(setup))]
        if rng.random() < 0.05:
            # what a failing or an ordinary calculation leaves behind can add up
            often = [rng.choice(OFTEN + BADCALLS[:4]) for _ in range(rng.choice([1, 1, 2]))]
            setup_noise = {'n': 'often', 'texts': often, 'times': rng.choice([300, 600, 1200]), 'flags': rng.choice([{}, {'stateless': True}, {'parse_only': True}])}
            plan['before'][rng.randrange(len(setup))]['ops'].append(setup_noise)
        plan['noise'] = [{'ops': self.noise(rng, t, tail) + self.same(rng, t, op)} for op in tail]
        return plan

    def same(self, rng, t, op):
        """What is calculated next, calculated under other circumstances just before."""
        focused = t.focus is not None and op['text'] in sess.OPTION_TEXTS[t.focus[:2]]
        if rng.random() < (0.4 if focused else 0.75):
            return []
        k = rng.random()
        if k < 0.7:
            return [{'n': 'setting', 'op': sess.setting(rng, t.focus, 1 if focused else 0.5), 'calcs': [op['text']], 'flags': op['flags']}]
        if k < 0.85:
            return [{'n': 'calc', 'text': op['text'], 'flags': op['flags'], 'faults': [sess.gen_fault(rng)]}]
        return [{'n': 'file', 'how': rng.choice(['delete', 'garbage', 'dir', 'other']), 'text': op['text']}]

    def noise(self, rng, t, tail):
        out = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            k = rng.random()
            if k < 0.25:
                # the texts of the tail under other settings, or their neighbours
                calcs = [rng.choice(tail)['text'] if rng.random() < 0.5 else self.text(rng, t, tail) for _ in range(rng.randint(0, 5))]
                out.append({'n': 'setting', 'op': sess.setting(rng, t.focus), 'calcs': calcs})
            elif k < 0.32:
                out.append({'n': 'temp', 'text': 'qx = ' + gen.text(t.g.expr(None, 2), True) + '\nqx'})
            elif k < 0.37:
                out.append({'n': 'file', 'how': rng.choice(['delete', 'garbage', 'dir', 'other']), 'text': rng.choice(CALLS)})
            else:
                n = {'n': 'calc', 'text': self.text(rng, t, tail)}
                if rng.random() < 0.2:
                    n['faults'] = [sess.gen_fault(rng)]
                k = rng.random()
                if k < 0.15:
                    n['flags'] = {'stateless': True}
                elif k < 0.3:
                    n['flags'] = {'parse_only': True}
                elif k < 0.4:
                    n['flags'] = {'include_state': True}
                out.append(n)
                if rng.random() < 0.1:
                    out.extend([n] * rng.choice([1, 3, 40]))
        return out

    def text(self, rng, t, tail):
        k = rng.random()
        if k < 0.3 and t.focus is not None:
            return rng.choice(sess.OPTION_TEXTS[t.focus[:2]])
        if k < 0.4:
            return rng.choice(tail)['text']
        if k < 0.65:
            return t.broken(rng.choice(tail)['text'])
        if k < 0.75:
            return rng.choice(BADCALLS)
        if k < 0.82:
            return t.broken(t.any())
        return t.any()

    def build(self, plan, w, perturb=None):
        c = lib.take()
        lib.add_host_functions(c, w)
        for f in plan['files']:
            w.write_file(f['name'], file_text(f))
        for n, op in enumerate(plan['setup']):
            if perturb is not None and n < len(plan['before']):
                for noise in plan['before'][n]['ops']:
                    perturb(c, noise)
            sess.apply(c, op, w)
        return c

    def plain(self, sub, plan):
        w = sub.world(plan['env'])
        with w:
            c = self.build(plan, w)
            seen = [[sess.apply(c, op, w), lib.canon_vars(c.vars, c)] for op in plan['tail']]
            sub.record(seen)
            return {'seen': seen, 'inventory': sess.inventory(c)}

    def noisy(self, sub, plan):
        w = sub.world(plan['env'])
        kept = []
        classes = []
        with w:
            c = self.build(plan, w, lambda c, n: classes.append(self.perturb(sub, w, c, n, plan, kept)))
            seen = []
            for op, noise in zip(plan['tail'], plan['noise'] + [{'ops': []}] * len(plan['tail'])):
                for n in noise['ops']:
                    classes.append(self.perturb(sub, w, c, n, plan, kept))
                seen.append([sess.apply(c, op, w), lib.canon_vars(c.vars, c)])
                if not ASSIGNS.search(op['text']):
                    again = [sess.apply(c, op, w), lib.canon_vars(c.vars, c)]
                    if again != seen[-1]:
                        raise Violation('differs-when-repeated', text=op['text'], first=seen[-1], second=again)
            sub.sig.append(classes)
            sub.nontrivial = 'failed' in classes and 'ok' in classes
            sub.record(seen)
            return {'seen': seen, 'inventory': sess.inventory(c), 'nontrivial': sub.nontrivial, 'classes': classes}

    def perturb(self, sub, w, c, n, plan, kept):
        before = lib.canon_vars(c.vars, c)
        if n['n'] == 'setting':
            back = sess.undo(n['op'], c)
            sess.apply(c, n['op'], w)
            for text in n['calcs']:
                self.calc(sub, w, c, text, dict(n.get('flags', {})) if not ASSIGNS.search(text) else {'stateless': True}, ())
            sess.apply(c, back, w)
            cls = 'setting'
        elif n['n'] == 'file':
            f = plan['files'][0]
            w.write_file(f['name'], {'garbage': '1 +', 'other': '7'}.get(n['how'], ''), {'delete': 'delete', 'dir': 'dir'}.get(n['how'], 'inplace'))
            cls = self.calc(sub, w, c, n['text'], {} if not ASSIGNS.search(n['text']) else {'stateless': True}, ())
            w.write_file(f['name'], file_text(f))
        elif n['n'] == 'often':
            left = n['times']
            while left > 0:
                for text in n['texts']:
                    left -= 1
                    try:
                        c.calculate(text, {'stateless': True} if ASSIGNS.search(text) else dict(n['flags']))
                    except lib.CalculatingException:
                        pass
            cls = 'often'
        elif n['n'] == 'temp':
            cls = self.calc(sub, w, c, n['text'], {}, ())
            if 'qx' in c.vars:
                lib.outcome(c, 'delete(qx)')
        else:
            flags = dict(n.get('flags', {}))
            if ASSIGNS.search(n['text']) and 'parse_only' not in flags:
                flags['stateless'] = True
            cls = self.calc(sub, w, c, n['text'], flags, n.get('faults', ()))
        if lib.canon_vars(c.vars, c) != before:
            raise Discard()
        sub.stats['noise:' + cls] += 1
        return cls

    def calc(self, sub, w, c, text, flags, faults):
        d = sess.apply(c, {'k': 'calc', 'text': text, 'flags': flags, 'faults': list(faults)}, w)
        return 'interrupted' if 'interrupt' in d else 'failed' if 'error' in d or 'leak' in d else 'ok'

    def run(self, plan, run):
        a = run.fork(self.plain, plan)
        if 'hashseed' in plan:
            run.stats['hashseed-runs'] += 1
            env = dict(os.environ, MCSIM_HASHSEED=str(plan['hashseed']))
            env.pop('PYTHONHASHSEED', None)
            p = subprocess.run([sys.executable, '-m', 'sim', 'helper', 'c12'], input=json.dumps(plan), cwd=VERIF, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode != 0:
                raise RuntimeError('helper failed: ' + p.stderr[-2000:])
            b = json.loads(p.stdout.splitlines()[-1])
            run.nontrivial = True
            run.sig.append(plan['hashseed'])
            what = 'differs-under-another-hash-seed'
        else:
            b = run.fork(self.noisy, plan)
            run.nontrivial = b['nontrivial']
            run.sig.append(b['classes'])
            what = 'differs-after-other-history'
        for op, x, y in zip(plan['tail'], a['seen'], b['seen']):
            if x != y:
                raise Violation(what, text=op['text'], without=x, with_=y)
        if a['inventory'] != b['inventory']:
            raise Violation('configuration-' + what, without=a['inventory'], with_=b['inventory'])


PROP = C12()
