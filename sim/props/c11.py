"""C11: an error carries the results of the statements completed before it, and its position lies in the failing one."""
import contextlib
import io

from .. import lib
from .. import world as W
from ..runner import Prop, Violation

GOOD = ['1', '2.5', 'qa', 'qb', '(1 + 2)', 'abs(-3)', '0xF', "probe('g{n}', 4)", '[1, 2]', 'max(1, 2, 3)', '@zfb(2)', '@zfa(3)', "'s'", 'sum([1, 2])', '(2 * (3 + 4))', 'true', '5 m', '1 / 3', 'element([4, 5], 1)']
FAILS = ['1 / 0', '(1 m + 1 s)', "abs('x')", 'element([1], 5)', 'abs(1, 2, 3)', '@zfn(1)', '@zfe(1)', '@zfx(1)', '(q_undef + 1)', "('a' * 2)", '@nofunc(1)', 'nosuch(2)', "boom('{kind}')", "boom('{kind}')", "probe('p{n}', 2)",
         "probe('p{n}', [1, 2])", '@zff({n})', '@zfg({n})', 'delete(5)', '(5 to km)', '(1 then 2 else 3)', "@zfx([1, 2])", '(true and 3)', '@qa(1)', 'max()', '[3 .. 1 step 2]', '{qz = 1 / 0\nqz}', '@zfe([1, 2])', 'now(3)', '(1 + + )', '(2 *)', '{1 / 0}(2)', '(= 3)', '1 2 m 3']
WRAPS = ['{F}', '({F})', '{F} + {X}', '{X} + {F}', 'abs({F})', 'max({X}, {F})', '[{X}, {F}]', '{v} = {F}', '{v} += {F}', '{v} ||= {F}', '@zfb({F})', '@zfa({F})', 'true then {F} else {X}', '{F} then {X} else {X}', 'not {F}', '-({F})', 'sum([{X}, {F}])',
         '{X} +\n{F}', '({X}\n+ {F})', '{X} * (2 - {F})', '{F} # {X}', '  {F}', '({v} = {X}) + {F}', 'round({F}, 2)', "{F} +$ 'x'", '{F} m', '{F} to km', '{X} and {F}', '{X} +   {F}  ', '[1, {F}\n, 2]', '{F} == {X}', 'concat([{X}], [{F}])', '{X} # 1 / 0\n + {F}',
         'filter([1, 2], {F})', '@{v}({F})', '{F}++', '{X} {F}', 'element([{F}, {X}], 1)', '[{F}, {X}] + 1', '{F} + {F}']
PLAIN = ['{v} = {X}', '{X}', '', '# 1 / 0', '{v} += 1', '{v} = [{X}, {X}]', '{X} +\n{X}', '{v} = {X} # note', "{v} = 'a # b'", '  {X}', '({X}\n+ {X})', '[1,\n2]', '{v} = {X} + {X}', '{v} = 5 m', 'delete({v})', '{v}', '{v} = @zfa(2)', '{v} ||= {X}', '1 then {X} else {X}',
         '{v} = {qz = 2\nqz}', '{X} * {X}', '{v}++']
SAFE = ['1', 'qd = 2', '', '# 1 / 0', 'qd + 1', '(1 +\n2)', "'s'", '5 m', '[1, 2]', '@zfb(2)', 'qe = 3 # note', '  7', 'qd = [1, 2]', 'max(1, 2)']
GARBAGE = [' )', ' (1', " 'abc", ' [1, 2', ' ]', ' }', ' {1', ' abs(1', ' $', ' ?', ' "', ' @@', ' €', ' 1 ! 2', ' abs(,', ' [', ' ~~ ) 2', '(1 + ]', "max(1, 'a", '@zfa(', '{1 +', '{1 )}', ' 0x', ' [1 ..', ' [1, )', '(2 $ 3)', 'abs(2 ?)', '[1, ?]', '{2\n?}', '(1\n\n)', '@zfa(1, ?)', '((((1 + ? 2)))']
BAD = '\u00ac'      # nothing but a string or comment can contain it
FILES = {'fna': '2 * PARAM1', 'fnx': 'qz = 1\nPARAM1 / 0', 'fnf': 'PARAM1', 'fng': "zga = './fnx'\n@zga(PARAM1) + 1"}


class C11(Prop):
    id = 'C11'
    rule = ('programs of several statements (continuations, blank lines, comments, repeated texts) in which one fails: in an operator, function, array '
            'element, inline or external function, by a host exception of any kind, by a failing open/read of a function file, or by being unparsable, '
            'wrapped up to three levels deep; a twin calculator that gets the text up to and with the statement said to fail tells what was due; '
            'non-trivial: at least one statement completed before a failure')
    measure = 'hash of (statement texts, faults)'
    must_reach = ('failed', 'parse-errors', 'positions', 'bad-characters', 'fault:probe', 'fault:open', 'fault:read', 'states')
    runs = {'quick': 20000, 'thorough': 300000}
    hangs = False

    def setup(self):
        lib.prebuild('Computing', 2)

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.randint(1, 4)):
            self.n = 0
            n = rng.choice([1, 2, 3, 4, 6]) if rng.random() < 0.95 else rng.randint(12, 70)
            stmts = [self.fill(rng, rng.choice(PLAIN if n < 7 or rng.random() < 0.02 else SAFE)) for _ in range(n)]
            if rng.random() < 0.3:
                stmts[rng.randrange(n)] = rng.choice(stmts)
            k = rng.random()
            if k < 0.8:
                f = rng.choice(FAILS)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    w = rng.choice(WRAPS)
                    f = self.fill(rng, w.replace('{F}', f)) if w.count('\n') == 0 or '\n' not in f else f
                stmts[rng.randrange(n) if n < 7 else rng.randrange(n // 2, n)] = self.fill(rng, f)
            k = rng.random()
            j = rng.randrange(n)
            if k < 0.15:
                stmts[j] += rng.choice(GARBAGE)
            elif k < 0.3:
                at = rng.randint(0, len(stmts[j]))
                stmts[j] = stmts[j][:at] + BAD + stmts[j][at:]
            op = {'stmts': stmts, 'state': rng.random() < 0.5, 'sep': rng.choice(['\n', '\n', '\n', '\n\n', '\n \n'])}
            faults = []
            text = '\n'.join(stmts)
            for m in range(self.n):
                if "'p%d'" % m in text and rng.random() < 0.9 or "'g%d'" % m in text and rng.random() < 0.05:
                    faults.append({'point': 'probe@%s%d' % ('p' if "'p%d'" % m in text else 'g', m), 'n': rng.choice([0, 0, 1]), 'kind': rng.choice(W.ERRORS)})
            if '@zfa' in text or '@zff' in text or '@zfg' in text:
                if rng.random() < 0.6:
                    faults.append({'point': rng.choice(['open', 'read', 'read']), 'n': rng.choice([0, 0, 1, 2]), 'kind': rng.choice(W.IO_ERRORS + ['MemoryError', 'UnicodeDecodeError', 'ValueError'])})
            if faults:
                op['faults'] = faults
            if rng.random() < 0.05:
                op['stateless'] = True
            ops.append(op)
        return {'env': {'tick_ns': 0}, 'ops': ops}

    def fill(self, rng, t):
        for a, f in (('{X}', lambda: rng.choice(GOOD)), ('{v}', lambda: rng.choice(['qa', 'qb', 'qc'])), ('{kind}', lambda: rng.choice(W.ERRORS))):
            while a in t:
                t = t.replace(a, f(), 1)
        while '{n}' in t:
            t = t.replace('{n}', str(self.n), 1)
            self.n += 1
        return t

    def fresh(self, c):
        c.vars.clear()
        for t in ("zfa = './fna'", 'zfb = {PARAM1 + 1}', 'zfe = {qz = 2\nPARAM1 / 0}', "zfx = './fnx'", "zff = './fnf'", "zfg = './fng'", "zfn = './nofile'", 'qa = 3', "qb = [1, 2]"):
            lib.outcome(c, t)

    def go(self, c, w, text, op, run=None):
        self.fresh(c)
        flags = {}
        if op.get('state'):
            flags['include_state'] = True
        if op.get('stateless'):
            flags['stateless'] = True
        w.begin_op(op.get('faults', []))
        d, resp = lib.outcome(c, text, flags, pos=True)
        fired = list(w.fired_now)
        w.end_op()
        return d, resp, fired

    def run(self, plan, run):
        w = run.world(plan['env'])
        with w:
            for f, t in FILES.items():
                w.write_file(f, t)
            c, twin = lib.take(), lib.take()
            lib.add_host_functions(c, w, 'sut')
            lib.add_host_functions(twin, w, 'twin')
            for n, op in enumerate(plan['ops']):
                self.op(run, w, c, twin, n, op)

    def op(self, run, w, c, twin, n, op):
        starts, text = [], ''
        for i, s in enumerate(op['stmts']):
            if i:
                text += op['sep']
            starts.append(len(text))
            text += s
        d, resp, fired = self.go(c, w, text, op)
        run.record(n, text, {k: v for k, v in d.items() if k != 'err'})
        if 'leak' in d or 'interrupt' in d:
            return                        # C18's business
        if 'error' not in d:
            return
        err = d['err']
        run.stats['failed'] += 1
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                pos = err.find_pos(text)
        except Exception as e:
            raise Violation('position-not-found', text=text, error=d['message'], why=lib.scrub(lib.safe_str(e)), fired=fired)
        if out.getvalue():
            raise Violation('position-guessed', text=text, error=d['message'], printed=out.getvalue()[:500])
        if not isinstance(pos, int) or not 0 <= pos <= len(text):
            raise Violation('position-outside-the-text', text=text, error=d['message'], position=pos)
        if resp is None:
            raise Violation('error-without-response', text=text, error=d['message'])
        run.stats['positions'] += 1
        ctx = dict(text=text, error=d['message'], position=pos, at=text[pos:pos + 30], fired=fired)
        run.sig.append([op['stmts'], [f['kind'] for f in fired]])
        if d['error'] == 'ParsingException':
            run.stats['parse-errors'] += 1
            if resp.results:
                raise Violation('results-of-an-unparsable-text', **ctx)
            if err.next is not None and not text[pos:].startswith(err.next):
                raise Violation('position-is-not-at-the-unparsable-text', next=err.next, **ctx)
            # what comes before it must not be what is wrong: the statements before it parse
            self.before_parses(twin, w, text, pos, ctx)
            if text.count(BAD) == 1:
                self.bad_character(run, twin, text, pos, ctx)
            return
        # the statements as the parser sees them: the partial response shows those completed
        done = len(resp.results)
        po, pr = self.parse(twin, text)
        if pr is None or len(pr.results) < done + 1:
            raise Violation('more-results-than-statements', results=done, **ctx)
        texts = [r.expression for r in pr.results]
        if ''.join(texts) != text:
            return                        # not this property's business
        start = sum(len(t) for t in texts[:done])
        end = start + len(texts[done])
        prefix = text[:start]
        d0, r0, _ = self.go(twin, w, prefix, op)
        if 'error' in d0 or r0 is None:
            raise Violation('failure-attributed-to-a-later-statement', statement=texts[done], earlier=prefix, got=d0.get('message'), **ctx)
        want = [self.strip(r) for r in d0['results']][:done]
        have = [self.strip(r) for r in d['results']]
        if have != want or [x for x in d0['results'][done:] if 'value' in x]:
            raise Violation('partial-response-is-not-that-of-the-completed-statements', expected=d0['results'], got=d['results'], **ctx)
        run.nontrivial = run.nontrivial or done > 0
        run.stats['states'] += bool(op.get('state')) and done > 0
        d1, _, _ = self.go(twin, w, text[:end], op)
        if 'error' not in d1:
            raise Violation('failure-attributed-to-a-statement-that-succeeds', statement=texts[done], got=self.plain(d1), **ctx)
        if not start <= pos <= end:
            raise Violation('position-outside-the-failing-statement', statement=texts[done], start=start, end=end, **ctx)

    def before_parses(self, twin, w, text, pos, ctx):
        """Lines up to one after the position that parse by themselves are not where the trouble is."""
        cut = len(text)
        while cut > pos:
            d, resp = self.parse(twin, text[:cut])
            if resp is not None and 'error' not in d:
                raise Violation('position-before-the-unparsable-text', parses=text[:cut], **ctx)
            cut = text.rfind('\n', 0, cut)

    def bad_character(self, run, twin, text, pos, ctx):
        """Without the character it parses: so the statement that contains it is the unparsable one."""
        at = text.index(BAD)
        d, resp = self.parse(twin, text.replace(BAD, ''))
        if resp is None or 'error' in d:
            return
        run.stats['bad-characters'] += 1
        start = 0
        for r in resp.results:
            if start + len(r.expression) >= at:
                break
            start += len(r.expression)
        if not start <= pos <= at:
            raise Violation('position-not-at-the-unparsable-text', bad=at, statement=start, **ctx)

    def parse(self, c, text):
        return lib.outcome(c, text, {'parse_only': True})

    def strip(self, r):
        return {k: v for k, v in r.items() if k != 'text'}

    def plain(self, d):
        return {k: v for k, v in d.items() if k != 'err'}


PROP = C11()
