"""C14: a stateless calculation changes no variable and no flag, leaves nothing behind, and answers like an ordinary one."""
from .. import lib
from .. import sess
from .. import world as W
from ..runner import Prop, Violation

VARS = ['qa', 'qb', 'qc', 'qd', 'qe']
NEW = ['qw%d' % i for i in range(8)]
X = ['1', '2.5', '(1 + 2)', '0xF', '[1, 2]', "'s'", '5 m', 'true', '1 / 3', "probe('g{n}', 4)", "probe('g{n}', [1, 2])", 'sum([1, 2])', '@zfc(2)', '@zfa(3)', "{{qz = 1\nqz}}", "'./fna'", 'now()', '[[1], 2]', '@zfl(3)', '50%']
# assign, and read nothing they assigned: {w} a new variable, {o} one of the session's numbers, neither used again
WRITES = ['{w} = {x}', '{w} ||= {x}', '{o} += 2', '{o} *= {s}', '{o}++', '{o}--', '{o} -= 0x3', '{o} \\= 2', '{o} ^= 2', '{o} /= 4', '{o} %= 2', '({w} = {s}) + {s}', '[({w} = {s}), ({w2} = {s})]', 'max([({w} = {s}), {s}])', '@zfc({w} = {s})', '@zfi({s})', '@zfj({s})',
          '(1 == 1) then ({w} = 1) else ({w2} = 2)', '{w} = {w2} = {s}', '{w} = @zfi({s})', '@zfa({s})', '@zfb({s})', '{w} = @zfb({s})', '{x}', '{x}', '@zfk({s})', 'round(({o} += 1), 1)', '({o} += 5) * 2', '[{o} += 2]', '@zfc([{w} = {s}, {s}])', 'abs({w} ||= {s})',
          '{w} =\n{s}', "{w} = {{qz = 1\nqz}}", '{w} = [{s}, {s}]', "probe('g{n}', {w} = {s})", '{o} ||= {s}', '[1 .. 5 step ({w} = 2)]', 'sum([({w} = 1) .. ({w2} = 4) step ({w3} = {s})])', '@zfq({w} = {s})', '[({w} = 1) .. 3]', 'count([(1 m) .. ({w} = 4 m) step ({w2} = 1 m)])', 'sum([({w} = 1) .. ({w2} = 4)])', '@zfm({s})', '{o} = {s}']
# anything that can change a variable
ANY = ['reset()', 'delete({v})', '{v} = {x}\n{v}', '{v} += [1, 2]', 'qc += 1', 'delete(qc)', '{v} = {v} + 1\n{v}', '{v}++\n{v}++', '@zfr(1)', '@zfd(1)', '@zfs(2)', 'max([delete({v}), 1])', '[reset(), 1]', '{v} = 1 / 0', '{v} += 1 / 0', 'delete(5)', 'delete(nosuch)', '@zfr([1, 2])',
       '{v} = {v2}', '{v} = {v2} = {x}', '{v} ||= 7', 'nosuch += 1', 'delete([qa, qb])', '@zfe(1)', '@zfx(2)', '{v} = {x}\n1 / 0', '{v} = {x}\n{v} = (', '({v} = 3) + {v}', '@{v}(1)', 'reset()\n{v} = 5\n{v}', '{v} *= {v}', '{v} = [{v}, {v2}]', '{v} /= 0', "{v} = boom('ValueError')", "{v} = probe('p{n}', 2)",
       "{v} = 5\nprobe('p{n}', 1)", '@zfg(2)', "@zfh(3)", '{v} -= {v2}', 'delete({v})\n{v}', '{v} == 3 then delete({v}) else reset()', "@zfs([1, 2])", 'element([{v} = 5, 2], 1)', '{v} &= 2', '{v} = {v}++', 'sort({v})', '{v} to feet', 'compact({v})', '{v} = sort([3, 1])', 'reverse(qc)']
FILES = {'fna': 'zz = PARAM1\nzz += 1\nzz * 2', 'fnb': "zfa = './fna'\nqa = @zfa(PARAM1)\nreset()\nqb = 4\nqb", 'fnx': 'qa = 77\nreset()\nPARAM1 / 0', 'fng': "qa = 5\ndelete(qa)\nprobe('p0', PARAM1)"}
INLINE = {'zfc': '{PARAM1 + 1}', 'zfi': '{qwx = PARAM1 * 2\nqwy = 5\nPARAM1 + 1}', 'zfj': '{qwx ||= 3\nPARAM1}', 'zfk': '{[qwx = 1, qwy = PARAM1]}', 'zfl': "{PARAM1 * 2}", 'zfm': '{zz += 1\nPARAM1}', 'zfr': '{reset()\nPARAM1}', 'zfd': '{delete(qa)\nPARAM1}',
          'zfs': '{qa = PARAM1\nqb = qa + 1\nqa + qb}', 'zfe': '{qa = 9\nPARAM1 / 0}', 'zfh': "{qa = 8\ndelete(qb)\nprobe('p0', PARAM1)}"}
LATER = ['qa', 'qb + 1', 'qc', '[qa, qb, qd]', '1 / 3', 'qa = qa + 1', 'qn = 5', 'qn += 2', 'delete(qn)', 'qf = 3\nqf * 2', '@zfs(2)', '@zfa(3)', 'qd *= 2', 'qw0', 'qwx', 'PARAM1', '5 km to miles', 'qe', 'reset()', '1 +', 'sort(qc)']


class C14(Prop):
    id = 'C14'
    rule = ('sessions in which ordinary and stateless calculations alternate; the stateless ones assign, increment, delete, reset, define and call inline '
            'and external functions that do the same, fail, are interrupted, or are unparsable; variables and the flags passed in are compared before and '
            'after; a second calculator which is given only the ordinary ones must agree on them, and, with its variables put aside, on the answers of '
            'stateless programs that read nothing they assigned; non-trivial: a stateless calculation performing an assignment, deletion or reset')
    measure = 'hash of (operation texts, faults fired)'
    must_reach = ('stateless', 'compared', 'failed', 'interrupted', 'ordinary', 'fault:probe', 'fault:open', 'fault:read', 'fault:leaf', 'fault:clock')
    runs = {'quick': 20000, 'thorough': 300000}
    hangs = False

    def setup(self):
        lib.prebuild('Computing', 2)

    def gen(self, rng, i, tier):
        ops = []
        self.rng = rng
        for _ in range(rng.choice([3, 6, 10])):
            k = rng.random()
            if k < 0.25:
                ops.append({'k': 'ordinary', 'text': rng.choice(LATER), 'flag': rng.choice([None, None, 'none', False, 0, ''])})
                continue
            self.n = 0
            compare = rng.random() < 0.5
            self.new = list(NEW)
            self.old = ['qa', 'qb', 'qd']
            rng.shuffle(self.new)
            rng.shuffle(self.old)
            parts = [self.fill(rng.choice(WRITES if compare or rng.random() < 0.3 else ANY)) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            parts = [p for p in parts if p is not None] or ['1']
            op = {'k': 'stateless', 'parts': parts, 'compare': compare}
            if rng.random() < 0.1:
                op['parts'] = parts + [rng.choice(['(1', '1 / 0', 'abs(', "boom('KeyError')", 'qa = )', "boom('MemoryError')"])]
            if rng.random() < 0.2:
                op['flag'] = rng.choice([1, 'yes', 2, [0], 0.5])        # as true as True
            if rng.random() < 0.2:
                op['state'] = True
            if rng.random() < 0.2:
                op['extra'] = True
            if rng.random() < 0.5:
                op['faults'] = [self.fault(rng, op['parts'])]
            ops.append(op)
            if rng.random() < 0.1:
                ops.append(op)
        ops.append({'k': 'ordinary', 'text': rng.choice(LATER), 'flag': None})
        return {'env': {'tick_ns': 0}, 'ops': ops, 'values': [rng.choice(['3', '5 m', '0xF', '2.5', '50%']) for _ in range(3)]}

    def fill(self, t):
        r = self.rng
        v = r.sample(VARS, 2)
        if '{o}' in t and not self.old or ('{w}' in t) + ('{w2}' in t) + ('{w3}' in t) > len(self.new):
            return None
        if '{x}' in t:
            x = r.choice(X)
            t = t.replace('{x}', x, 1)
        while '{s}' in t:
            t = t.replace('{s}', r.choice(['1', '2', '3.5', '(1 + 1)', "probe('g{n}', 2)", '@zfc(2)', '0x2']), 1)
        while '{n}' in t:
            t = t.replace('{n}', str(self.n), 1)
            self.n += 1
        for a in ('{w}', '{w2}', '{w3}'):
            if a in t:
                t = t.replace(a, self.new.pop())
        if '{o}' in t:
            t = t.replace('{o}', self.old.pop())
        return t.replace('{v}', v[0]).replace('{v2}', v[1]).replace('{{', '{').replace('}}', '}')

    def fault(self, rng, parts):
        kind = rng.choice(W.ERRORS + W.INTERRUPTS * 4)
        k = rng.random()
        labels = [l for l in ['%s%d' % (a, m) for a in 'gp' for m in range(self.n + 1)] if "'%s'" % l in '\n'.join(parts)] + ['p0'] * (k > 0.95)
        if k < 0.3 and labels:
            return {'point': 'probe@' + rng.choice(labels), 'n': rng.choice([0, 0, 1]), 'kind': kind}
        if k < 0.45:
            return {'point': rng.choice(['open', 'read']), 'n': rng.choice([0, 0, 1]), 'kind': rng.choice(W.IO_ERRORS + W.INTERRUPTS)}
        if k < 0.55:
            return {'point': 'close', 'n': rng.choice([0, 1]), 'kind': rng.choice(W.INTERRUPTS)}
        if k < 0.7:
            return {'point': 'clock', 'n': rng.randint(0, 24), 'kind': rng.choice(W.INTERRUPTS)}
        return {'point': 'leaf', 'n': int(10 ** rng.uniform(0, 3)), 'kind': rng.choice(W.INTERRUPTS)}

    # -- execution
    def run(self, plan, run):
        w = run.world(plan['env'])
        with w:
            for f, t in FILES.items():
                w.write_file(f, t)
            c, ref = lib.take(), lib.take()
            for x, tag in ((c, 'sut'), (ref, 'ref')):
                lib.add_host_functions(x, w, tag)
                for t in ["zfa = './fna'", "zfb = './fnb'", "zfx = './fnx'", "zfg = './fng'", 'zz = 4', "zfq = [{PARAM1}, './fna']", 'qc = [1, 2, 3]', "qe = 's'"] + ['%s = %s' % p for p in INLINE.items()] + ['%s = %s' % p for p in zip(('qa', 'qb', 'qd'), plan['values'])]:
                    lib.outcome(x, t)
            for n, op in enumerate(plan['ops']):
                if op['k'] == 'ordinary':
                    self.ordinary(run, w, c, ref, n, op)
                else:
                    self.stateless(run, w, c, ref, n, op)

    def ordinary(self, run, w, c, ref, n, op):
        run.stats['ordinary'] += 1
        flags = {} if op['flag'] is None else {'stateless': op['flag']}
        if op['flag'] == 'none':
            flags = None
        d, _ = lib.outcome(c, op['text'], flags)
        e, _ = lib.outcome(ref, op['text'], None if flags is None else dict(flags))
        run.record(n, op['text'], d)
        if d != e:
            raise Violation('later-ordinary-calculation-differs', op=n, text=op['text'], expected=e, got=d)
        a, b = lib.canon_vars(c.vars, c), lib.canon_vars(ref.vars, ref)
        if a != b:
            raise Violation('later-ordinary-calculation-leaves-other-variables', op=n, text=op['text'], expected=b, got=a)

    def stateless(self, run, w, c, ref, n, op):
        text = '\n'.join(op['parts'])
        flags = {'stateless': op.get('flag', True)}
        if op.get('state'):
            flags['include_state'] = True
        if op.get('extra'):
            flags['custom'] = ['kept']
        given = dict(flags)
        before = lib.canon_vars(c.vars, c)
        faults = op.get('faults', [])
        leaf = w if any(f['point'] == 'leaf' for f in faults) else None
        w.begin_op(faults)
        d, _ = lib.outcome(c, text, flags, leaf=leaf)
        fired = list(w.fired_now)
        w.end_op()
        run.record(n, text, d)
        run.stats['stateless'] += 1
        run.stats['failed'] += 'error' in d
        run.stats['interrupted'] += 'interrupt' in d
        run.sig.append([text, fired])
        run.nontrivial = True
        ctx = dict(op=n, text=text, fired=fired, outcome=d.get('message', d.get('interrupt')))
        after = lib.canon_vars(c.vars, c)
        if after != before:
            names = sorted(k for k in set(before) | set(after) if before.get(k, 'unset') != after.get(k, 'unset'))
            raise Violation('stateless-calculation-changed-variables', variables=names, before={k: before.get(k, 'unset') for k in names}, after={k: after.get(k, 'unset') for k in names}, **ctx)
        if flags != given or flags.get('custom', ['kept']) != ['kept']:
            raise Violation('flags-were-modified', given=sorted(given), after={k: repr(v) for k, v in flags.items()}, **ctx)
        if not op['compare'] or leaf is not None or any(f['point'] in ('clock', 'close') for f in faults):
            return
        kept = dict(ref.vars)
        w.begin_op(faults)
        e, _ = lib.outcome(ref, text, {'include_state': True} if op.get('state') else {})
        w.end_op()
        ref.vars.clear()
        ref.vars.update(kept)
        run.stats['compared'] += 1
        if self.plain(d) != self.plain(e):
            raise Violation('stateless-answer-differs', expected=self.plain(e), got=self.plain(d), **ctx)

    def plain(self, d):
        """Without the states, which an ordinary calculation changes."""
        return dict(d, results=[{k: v for k, v in r.items() if k != 'state'} for r in d['results']]) if d.get('results') else d


PROP = C14()
