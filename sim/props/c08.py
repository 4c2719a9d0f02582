"""C08: now() is a reading of the clock taken while it is evaluated."""
import datetime
import re

from .. import lib
from .. import world as W
from ..runner import Prop, Violation

DATE = re.compile(r'(\d{4})-(\d\d)-(\d\d)(?:T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?)?$')
EPOCH = datetime.datetime(1970, 1, 1)


STYLES = [None, ('%Y/%m/%d', '%Y/%m/%d %H:%M:%S', '%Y/%m/%d %H:%M:%S.%f'), ('%Y%m%d', '%Y%m%d-%H.%M.%S', '%Y%m%d-%H.%M.%S.%f')]


def standard(s, style):
    """A date string in the given style, in the standard one."""
    if style is None or not isinstance(s, str):
        return s
    for f in style:
        try:
            t = datetime.datetime.strptime(s, f)
        except ValueError:
            continue
        return t.isoformat()
    return s


def denotes(s):
    """The microsecond a date string without time zone denotes, or None."""
    m = DATE.match(s) if isinstance(s, str) else None
    if m is None:
        return None
    y, mo, d, h, mi, se, f = m.groups()
    try:
        t = datetime.datetime(int(y), int(mo), int(d), int(h or 0), int(mi or 0), int(se or 0), int((f or '0').ljust(6, '0')))
    except ValueError:
        return None
    return (t - EPOCH) // datetime.timedelta(microseconds=1)


# statements, with the variable they set (if any); every string in the value is an evaluation of now(), in order
FORMS = [
    ('now()', None), ('{v} = now()', 'v'), ('{v} = [now(), now()]', 'v'), ('[now(), now(), now()]', None), ("probe('p', now())", None),
    ('{v} = (now())', 'v'), ('true then now() else now()', None), ('@zfa(1)', None), ('{v} = @zfa([1, 2, 3])', 'v'), ('@zfb(1)', None), ('{v} = @zfb([1, 2])', 'v'),
    ('@zfc(5)', None), ('[@zfa(1), now(), @zfb(2)]', None), ('{v} = act(0, now())', 'v'), ('act(0)\n{v} = now()', 'v'), ('[act(0, now()), now()]', None),
    ('{v} = dateadd(now(), 0 seconds)', 'v'), ('{v} = [dateadd(now(), 0 seconds), now()]', 'v'), ('{v} = \nnow()', 'v'), ('[now(),\nnow()]', None), ('@zfd(1)', None),
    ('reverse([now()])', None), ("element([now(), 'x'], 1)", None), ("{v} ||= now()", None), ("now() +$ ''", None), ('upper(now())', None), ('{v} = [[now()], [now(), now()]]', 'v'),
]
READS = ['{v}', 'dateadd({v}, 0 seconds)', '[{v}, {v}]', '@zfe({v})', "{v} +$ ''"]

INSTANTS = ['2024-02-29T23:59:59.999999', '2000-01-01T00:00:00.000000', '1999-12-31T23:59:59.999998', '2023-06-01T12:00:00.000000', '2023-06-01T12:00:00.000001', '2023-06-01T12:00:00.100000',
            '2023-06-01T00:00:00.000001', '2023-06-01T00:00:01.000000', '2023-06-01T09:05:03.050000', '1970-01-01T00:00:00.000000', '9998-12-31T23:59:59.999999', '2038-01-19T03:14:07.999999',
            '0999-03-04T05:06:07.000008', '0001-01-02T00:00:00.000000', '1969-12-31T23:59:59.500000', '2023-10-29T02:30:00.000000', '1900-02-28T23:00:00.000000', '2023-06-01T10:00:00.001000']


def us(text):
    return denotes(text)


def strings(v):
    """The strings in a raw calculator value, in order."""
    if isinstance(v, str):
        return [v]
    if isinstance(v, list):
        return [s for e in v for s in strings(e.value)]
    return []


class C08(Prop):
    id = 'C08'
    rule = ('programs with now() at any place (arrays, functions over arrays, inline and external bodies, conditionals, continued lines) on a simulated '
            'clock that starts at boundary instants, ticks, stands still and jumps forward or back between and during evaluations, in any time zone; '
            'non-trivial: the clock moved between two evaluations')
    measure = 'hash of (statement forms, clock steps, start instant)'
    must_reach = ('evaluations', 'jumps', 'standstill', 'boundary')
    runs = {'quick': 20000, 'thorough': 400000}

    def setup(self):
        lib.prebuild('Computing', 1)

    def gen(self, rng, i, tier):
        k = rng.random()
        if k < 0.6:
            start = us(rng.choice(INSTANTS)) + rng.choice([0, 0, 0, -1, 1, 1_000_000, -1_000_000])
        else:
            start = rng.randint(us('1971-01-01'), us('2200-01-01'))
            if rng.random() < 0.3:
                start -= start % rng.choice([1000, 1_000_000, 3_600_000_000, 86_400_000_000])
        start = max(start, us('0001-01-02'))
        tz = rng.choice([0, 0, 3600, -5 * 3600, 19800, 14 * 3600, -12 * 3600]) * 1_000_000
        ops = []
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            op = {'before': self.step(rng), 'during': [self.step(rng) for _ in range(4)]}
            if k < 0.75:
                op['stmts'] = [[n, rng.choice(['qa', 'qb', 'qc'])] for n in [rng.randrange(len(FORMS)) for _ in range(rng.choice([1, 1, 2, 3]))]]
            else:
                op['read'] = [rng.randrange(len(READS)), rng.choice(['qa', 'qb', 'qc'])]
            if rng.random() < 0.3:
                op['faults'] = [{'point': 'wall', 'n': rng.randint(0, 3), 'kind': 'jump', 'us': self.step(rng)}]
            if rng.random() < 0.1:
                op['stateless'] = True
                if 'stmts' in op:          # bodies that rely on an assignment of their own give nothing then
                    op['stmts'] = [x for x in op['stmts'] if '@zfc' not in FORMS[x[0]][0] and '@zfd' not in FORMS[x[0]][0]]
            ops.append(op)
        return {'style': rng.choice([0, 0, 0, 1, 2]), 'env': {'wall_us': start - tz, 'tz_us': tz, 'tick_ns': rng.choice([0, 1000, 1000, 1_000_000, 1_000_000_000, 500_000])}, 'ops': ops}

    def step(self, rng):
        k = rng.random()
        if k < 0.3:
            return 0
        if k < 0.6:
            return rng.choice([1, 1, -1, 2, 999, 1000, 1_000_000, -1_000_000])
        return rng.choice([60, 3600, 86400, -3600, -86400, 86400 * 366, -86400 * 40]) * 1_000_000 + rng.choice([0, 0, 1, 250_000])

    def run(self, plan, run):
        w = run.world(plan['env'])
        with w:
            c = lib.take()
            steps = []
            self.style = STYLES[plan.get('style', 0)]
            if self.style is not None:
                for name, f in zip(('Date Format', 'Date + Time Format', 'Date + Hi Res Time Format'), self.style):
                    c.feature_options['dates.dates'][name] = f
                    c.feature_options['dates.dates'][name.replace('Format', 'Padding')] = '0>%d' % len(datetime.datetime(2000, 1, 1).strftime(f))

            def hook(k):
                if steps:
                    self.move(run, w, steps.pop(0))
            lib.add_host_functions(c, w, hooks=hook)
            w.write_file('fna', 'now()')
            for t in ('zfa = {now()}', "zfb = './fna'", 'zfc = {qz = now()\nmark(PARAM1)\nqz}', "zfd = {zga = './fna'\nact(0)\n@zga(PARAM1)}", 'zfe = {PARAM1}'):
                lib.outcome(c, t)
            stored = {}            # variable -> its value as it was when stored
            moved = False
            for n, op in enumerate(plan['ops']):
                moved = self.move(run, w, op['before']) or moved
                steps[:] = op['during']
                flags = {'stateless': True} if op.get('stateless') else {}
                w.begin_op(op.get('faults', []))
                if 'read' in op:
                    v = op['read'][1]
                    text = READS[op['read'][0]].replace('{v}', v)
                    if v not in stored:
                        continue
                    d, resp = lib.outcome(c, text, flags)
                    got = strings(resp.results[-1].value) if resp is not None and resp.results and resp.results[-1].has_result() else None
                    if isinstance(stored[v], str) and (not got or any(s != stored[v] for s in got)):
                        raise Violation('stored-date-reads-differently', text=text, stored=stored[v], got=got, outcome=d)
                    run.record(n, d)
                    continue
                for form, v in op['stmts']:
                    text, sets = FORMS[form]
                    text = text.replace('{v}', v)
                    keep = sets is None and '||=' in text and v in c.vars
                    first = len(w.clock_reads)
                    w.probe_log = []
                    d, resp = lib.outcome(c, text, flags)
                    w.armed = [f for f in op.get('faults', [])]
                    reads = w.clock_reads[first:]
                    run.record(n, text, d, reads)
                    if 'results' not in d or 'error' in d:
                        raise Violation('now-failed', text=text, outcome=d, reads=reads)
                    got = strings(resp.results[-1].value)
                    if '||=' in text and keep:
                        pass
                    self.judge(run, text, got, reads)
                    for s in got:
                        self.back(c, s)
                    if sets and not op.get('stateless'):
                        stored[v] = c.vars[v][0]
                        if isinstance(stored[v], list):
                            stored[v] = strings(stored[v])
                    elif '||=' in text and not keep and not op.get('stateless') and v in c.vars:
                        stored[v] = c.vars[v][0]
                    self.kept(c, stored)
                run.sig.append([[f for f, _ in op['stmts']], op['before'] > 0, op['before'] < 0])
            self.kept(c, stored)
            run.nontrivial = moved or plan['env']['tick_ns'] > 0
            run.sig.append(plan['env']['wall_us'] % 86_400_000_000)

    def move(self, run, w, step):
        if step == 0:
            run.stats['standstill'] += 1
            return False
        if w.wall_us + step > us('9999-12-30') or w.wall_us + step < us('0001-01-03'):
            return False
        w.jump_wall(step)
        run.stats['jumps'] += 1
        return True

    def judge(self, run, text, got, reads):
        """Each evaluation, in order, shows a reading made after that of the one before it."""
        pos = 0
        if not got:
            raise Violation('no-date', text=text, got=got)
        for s in got:
            t = denotes(standard(s, self.style))
            run.stats['evaluations'] += 1
            if t is not None and t % 1_000_000 == 0:
                run.stats['boundary'] += 1
            if t is None:
                raise Violation('not-a-date', text=text, got=s, reads=reads)
            while pos < len(reads) and reads[pos] != t:
                pos += 1
            if pos == len(reads):
                raise Violation('not-a-reading-of-the-clock-then', text=text, got=got, readings=[str(EPOCH + datetime.timedelta(microseconds=r)) for r in reads])
            pos += 1

    def back(self, c, s):
        for t in ("dateadd('%s', 0 seconds)" % s, "datesubtract('%s', 0 seconds)" % s):
            d, resp = lib.outcome(c, t)
            if resp is None or not resp.results or not resp.results[-1].has_result() or resp.results[-1].value != s:
                raise Violation('does-not-read-back', text=t, outcome=d)

    def kept(self, c, stored):
        for v, want in stored.items():
            have = c.vars[v][0] if v in c.vars else None
            if isinstance(have, list):
                have = strings(have)
            if have != want:
                raise Violation('stored-date-changed', variable=v, stored=want, now=have)


PROP = C08()
