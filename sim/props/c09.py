"""C09: reported timings are those of each stage of each statement."""
import re

from .. import lib
from .. import world as W
from ..runner import Prop, Violation, Discard

# {S} a slow value, {C} a slow comment (up to the end of its line), {v} a variable
FORMS = ['{v} = {S}', '{S} + {S}', '[{S}, {S}]', '@zfa({S})', '@zfb({S})', '{v} = @zfa([1, 2])', '{C}', '', '   ', '{S} +\n{S}', '({S}\n+ 2)', '[1, {C}\n {S}]',
         '1 {C}', '{S} {C}', '{v} = ({S} {C}\n) * 2', 'true then {S} else {S}', 'act(1, {S})', 'act(2)', 'act(0, {S})', 'zfc = {{S} {C}\nPARAM1 + {S}}', '@zfc(2)',
         '@zfb([{S}, 2, 3])', 'slow({n}, [1, 2, 3])', '{S} + {C}\n {S}', '1 + {C}\n{C}\n{S}', '{v} = now()', '1', '{v}', '2 miles to km', "'x' +$ '{C}'", '{v} = [1, 2, 3, 4]',
         '@zfd(1)', '@zfd({S}) {C}', 'sum([{S}, {S}])', 'zfe = {@zfa(PARAM1) {C}\n}', '@zfe(4)']
FAILING = ['1 / 0', 'boom()', '{S} + boom()', 'abs({S}, {S}, {S})', 'nosuch({S})', '{S} m + {S} s', '@zfa(boom())', '1 2 ) {C}', "'x", '@zfn(1)']
FILES = {'fna': 'slow({n}, PARAM1) {C}', 'fnb': "zga = './fna'\nact(1)\n@zga(PARAM1) {C}\n"}


class C09(Prop):
    id = 'C09'
    rule = ('programs in which functions, files (opening, reading, closing), comments (a parser that takes time), finalisers and nested calculations take '
            'simulated time, on a monotonic clock and a wall clock that jumps; each reported timing must be the time that passed in that stage of that '
            'statement; non-trivial: at least two statements with delays in different stages')
    measure = 'hash of (statement forms, delays)'
    must_reach = ('delays', 'exec-delays', 'parse-delays', 'finalize-delays', 'file-delays', 'jumps', 'partial', 'nested')
    runs = {'quick': 20000, 'thorough': 300000}

    def setup(self):
        lib.prebuild('Computing', 3)

    def fill(self, rng, text):
        def n():
            return rng.choice([10, 50, 300, 1000, 20_000, 3_000_000, 0] if rng.random() > 0.03 else [59_999_000, 7_200_000_000, 100_000_000_000]) + rng.choice([0, 1, 7]) * 10
        return re.sub(r'\{[SCnv]\}', lambda m: {'S': lambda: 'slow(%d, %d)' % (n(), rng.randint(1, 9)), 'C': lambda: '#d%d' % n(), 'n': lambda: str(n()),
                                                'v': lambda: rng.choice(['qa', 'qb'])}[m.group(0)[1]](), text)

    def gen(self, rng, i, tier):
        fin = rng.choice([0, 0, 20, 5000])
        ops = []
        for _ in range(rng.randint(1, 4)):
            forms = [f for f in FORMS if not fin or not re.search('@zf[ade]', f)]
            stmts = [self.fill(rng, rng.choice(forms)) for _ in range(rng.choice([1, 2, 3, 5]))]
            if rng.random() < 0.3:
                stmts.append(self.fill(rng, rng.choice(FAILING)))
                stmts += [self.fill(rng, rng.choice(forms)) for _ in range(rng.randint(0, 2))]
            op = {'stmts': stmts, 'state': rng.random() < 0.2}
            k = rng.random()
            if k < 0.25:
                op['faults'] = [{'point': 'clock', 'n': rng.randint(0, 12), 'kind': 'jump', 'us': rng.choice([-3_600_000_000, 86_400_000_000, -1, 1, 5_000_000])} for _ in range(3)]
            elif k < 0.35:
                op['faults'] = [{'point': 'clock', 'n': rng.randint(0, 12), 'kind': rng.choice(W.INTERRUPTS)}]
            if rng.random() < 0.1:
                op['flags'] = rng.choice([{'parse_only': True}, {'stateless': True}])
            ops.append(op)
        delays = {}
        for f in FILES:
            if rng.random() < 0.7:
                delays[f] = {k: rng.choice([0, 10, 700, 50_000]) * 1000 for k in ('open', 'read', 'close')}
        return {'env': {'tick_ns': rng.choice([0, 0, 0, 1000]), 'mono_ns': rng.choice([0, 5_000_000_000, 3_000_000_000_000_000]), 'wall_us': 1_700_000_000_000_000},
                'fin': fin, 'ops': ops, 'files': {f: self.fill(rng, t) for f, t in FILES.items()}, 'io': delays, 'jump': rng.choice([0, 10_000_000, -10_000_000, -86_400_000_000])}

    def build(self, plan, w, tag, other):
        c = lib.take()
        log = {'parse': 0, 'fin': 0, 'nested': False}

        def hook(k):
            w.jump_wall(plan['jump'])
            if k == 1 or k == 2:
                was, log['nested'] = log['nested'], True
                armed, w.armed = w.armed, []
                try:
                    lib.outcome(c if k == 1 else other, 'slow(40, 1)\n2 #d70')
                finally:
                    log['nested'] = was
                    w.armed = armed
        lib.add_host_functions(c, w, tag, hooks=hook)

        def parse_delay(calc, expr, i, items, flags):
            m = re.match(r'#d(\d+)', expr[i:])
            if m:
                us = int(m.group(1))
                if not log['nested']:
                    log['parse'] += us
                w.advance(us * 1000)
            return None, None, None

        def finalise(calc, answer):
            if not log['nested'] and plan['fin']:
                log['fin'] += plan['fin']
                w.advance(plan['fin'] * 1000)
            return answer
        c.parsers.insert(0, {'name': 'delay', 'ref': parse_delay})
        c.finalizers.append({'ref': finalise})
        self.reset(c)
        return c, log

    def reset(self, c):
        for t in ("zfa = './fna'", 'zfb = {slow(30, PARAM1)}', 'zfc = {PARAM1}', "zfd = './fnb'", 'zfe = {PARAM1}', 'qa = 1', 'qb = 2', "zfn = './nofile'"):
            lib.outcome(c, t)

    def run(self, plan, run):
        w = run.world(plan['env'])
        with w:
            for f, t in plan['files'].items():
                w.write_file(f, t)
            w.io_delays = plan['io']
            other = lib.take()
            lib.add_host_functions(other, w, 'other')
            c, _ = self.build(plan, w, 'sut', other)
            twin, log = self.build(plan, w, 'twin', other)
            kept = []
            for n, op in enumerate(plan['ops']):
                self.op(plan, run, w, c, twin, log, n, op, kept)
            for resp, want in kept:
                if [dict(r.timings) for r in resp.results] != want:
                    raise Violation('timings-of-an-earlier-response-changed', expected=want, got=[dict(r.timings) for r in resp.results])

    def op(self, plan, run, w, c, twin, log, n, op, kept):
        text = '\n'.join(op['stmts'])
        flags = dict(op.get('flags', {}))
        if op.get('state'):
            flags['include_state'] = True
        w.begin_op(op.get('faults', []))
        reads = w.mono_reads
        start = w.mono_ns
        d, resp = lib.outcome(c, text, flags, timings=True)
        total = (w.mono_ns - start) / 1e9
        reads = w.mono_reads - reads
        if any(f['kind'] == 'jump' for f in w.fired_now):
            run.stats['jumps'] += 1
        w.end_op()
        run.record(n, text, d)
        slack = 2e-6 + 1e-9 * plan['env']['tick_ns'] * (reads + 2)
        if resp is None or d.get('error') == 'ParsingException':      # unparsable, or interrupted
            if 'interrupt' in d:
                self.reset(c)
                self.reset(twin)
            return
        # the same statements one by one, on a calculator of their own
        spent = []
        for s in op['stmts']:
            log['parse'] = 0
            po, _ = lib.outcome(twin, s, dict(flags, parse_only=True))
            parse = log['parse']
            log['parse'] = log['fin'] = 0
            start = w.mono_ns
            r0 = w.mono_reads
            one, _ = lib.outcome(twin, s, flags)
            elapsed = w.mono_ns - start - (w.mono_reads - r0) * plan['env']['tick_ns']
            run.stats['delays'] += elapsed > 0
            if 'results' not in one or 'error' in one:
                break
            fin = log['fin']
            spent.append({'parse': parse / 1e6, 'finalize': fin / 1e6, 'exec': elapsed / 1e9 - (parse + fin) / 1e6, 'text': s})
            run.stats['parse-delays'] += parse > 0
            run.stats['finalize-delays'] += fin > 0
            run.stats['exec-delays'] += spent[-1]['exec'] > 0
            run.stats['file-delays'] += '@zfa' in s or '@zfd' in s
            run.stats['nested'] += 'act(1' in s or '@zfd' in s
        run.nontrivial = run.nontrivial or len([s for s in spent if s['exec'] + s['parse'] > 0]) > 1
        if 'error' in d:
            run.stats['partial'] += 1
        run.sig.append([plan['fin'], op['stmts']])
        results = resp.results
        if len(results) > len(spent) and 'error' not in d:
            spent += [{'parse': 0, 'exec': 0, 'finalize': 0, 'text': ''}] * (len(results) - len(spent))
        if [r.expression.strip() for r in results] != [s['text'].strip() for s in spent][:len(results)]:

            raise Discard()                # not split into statements as written: not this property's business
        for r, s in zip(results, spent):
            for stage in ('parse', 'exec', 'finalize'):
                got = r.timings.get(stage, 0)
                if not got >= 0:
                    raise Violation('negative-timing', text=text, statement=s['text'], stage=stage, got=got)
                if abs(got - s[stage]) > slack:
                    raise Violation('timing-is-not-the-time-that-passed', text=text, statement=s['text'], stage=stage, got=got, expected=s[stage], timings=dict(r.timings))
        if sum(sum(r.timings.values()) for r in results) > total + 2e-6:
            raise Violation('timings-exceed-the-time-that-passed', text=text, total=total)
        kept.append((resp, [dict(r.timings) for r in results]))


PROP = C09()
