"""C13: parsing performs nothing; execution performs every application once, in program order, and none after a failure."""
from .. import lib
from .. import world as W
from ..runner import Prop, Violation, Discard

FAIL = '!'
SEPS = {'plain': ' ', 'after': ' \n', 'inside': '\n ', 'wide': '   ', 'blank': ' \n\n ', 'tab': '\t'}
FAILING = ['(1 / 0)', "abs('x')", '(1 m + 1 s)', "boom('RuntimeError')", "boom('KeyError')", "boom('RecursionError')", 'nosuch', "element([1], 5)", '@nofunc(1)', "boom('CalculatorException')"]
GARBAGE = [' )', ' (1', " 'abc", ' [1, 2', ' ]', ' ¬', '\n¬', '\n1 + )', '\nprobe(1', "\n@zfa(1", '\n{probe(1)', " + (probe('x')", '\n[probe(2), ¬]', "\nmax(probe('y'), ¬)", "\n{probe('z')\n¬}", " ) probe('w')", '\n@zfa(¬)', '\nact(1) ¬', '\n(now() ¬)', '\n(qa = 5) ¬', "\n(qa = 5", "\nreset() ¬", '\nqa++ ¬']

FORMS = ['((%s) m / 1 m)', '(((%s) km to m) / (1 m))', '(round((%s) m) / (1 m))', 'count(filter([%s, %s], [%s > 0, %s > 0]))', 'element([%s, %s], 2)', 'element([(%s) m, (%s) km], 1) / (1 m)',
         'count(reverse([%s, %s]))', 'count(concat([%s], [%s, %s]))', 'count(sort([%s, %s]))', '(sum([(%s) m, (%s) cm]) / (1 m))', '(((%s) m + (%s) cm) / (1 m))', 'count([(%s) m, %s])',
         'length(%s +$ %s)']

LISTS = {'zfr': ['fna', 'fnb'], 'zfs': ['fnc', 'fnc'], 'zfu': ['fnb', 'fnc', 'fnb']}


class Entry:
    """One thing a program performs.  certain: if it fails, the statement it stands in fails; dead: what must not follow then."""

    def __init__(self, label):
        self.label = label
        self.certain = True
        self.dead = set()


def maybe(tr):
    for e in tr:
        e.certain = False
    return tr


class Tree:
    """The text of a program and what it performs, in order."""

    def __init__(self, plan):
        self.files = plan['files']
        self.inl = plan['inline']
        self.depth = 0

    def stmt(self, s):
        if not isinstance(s, list) or not s:
            raise Discard()
        k = s[0]
        if k == 'expr':
            t, tr = self.e(s[1])
        elif k == 'set':
            t, tr = self.e(s[2])
            t = '%s = %s' % (s[1], t)
        elif k == 'op':
            t, tr = self.e(s[2])
            t = '%s %s= %s' % (s[1], s[3], t)
        elif k == 'step':           # a change of the counter, which tells how often it happened
            t, tr = 'qn = qn * 10 + %d' % s[1], [Entry(s[1])]
        elif k == 'comment':
            t, tr = self.stmt(s[1])
            t += " # probe('c') ) qa = 7"
        else:
            raise Discard()
        return t, tr

    def all(self, nodes, n=None):
        parts = [self.e(x) for x in nodes]
        if not parts or n is not None and len(parts) != n:
            raise Discard()
        return [p[0] for p in parts], sum((p[1] for p in parts), [])

    def e(self, n):
        """(text, trace)"""
        if not isinstance(n, list) or not n:
            raise Discard()
        k = n[0]
        if k == 'num':
            return str(n[1]), []
        if k == 'fail':
            return n[1], [Entry(FAIL)]
        if k == 'var':
            return n[1], []
        if k == 'probe':
            t, tr = self.e(n[2])
            own = [Entry(n[1]) for _ in range(n[3])]
            if n[2][0] == 'arr':
                maybe(own)           # only their element is an error then
            return "probe('%s', %s)" % (n[1], t), tr + own
        if k in ('probea', 'probex'):
            t, tr = self.e(n[2])
            if k == 'probex':
                maybe(tr)
            return "%s('%s', %s)" % (k, n[1], t), tr + [Entry(n[1])]
        if k in ('probec', 'probes'):          # labelled with a number: these convert and normalise what they get
            t, tr = self.e(n[2])
            return '%s(%s, %s)' % (k, n[1][1:], t) if k == 'probec' else 'probes([%s, %s])' % (n[1][1:], t), tr + [Entry(n[1])]
        if k == 'dup':          # over an array in which the same thing stands repeatedly
            if not n[2]:
                raise Discard()
            own = maybe([Entry(x) for x in n[2]])
            if n[1] == 'probed':
                return 'sum(probed([%s]))' % ', '.join("'%s'" % x for x in n[2]), own
            return 'sum(probec([%s], 2))' % ', '.join(x[1:] for x in n[2]), own
        if k == 'hop':
            t, tr = self.e(n[2])
            return '(%s !! %s)' % (n[1][1:], t), tr + [Entry(n[1])]
        if k == 'step':
            return '(qn = qn * 10 + %d)' % n[1], [Entry(n[1])]
        if k == 'paren':
            t, tr = self.e(n[1])
            return '(%s%s%s)' % (n[2], t, n[3]), tr
        if k == 'neg':
            t, tr = self.e(n[1])
            return '(0 - %s)' % t, tr
        if k == 'bin':
            (a, b), tr = self.all(n[2:4], 2)
            if any(x[0] == 'arr' for x in n[2:4]):
                maybe(tr)            # an error beside an array makes its elements errors
            return '%s %s%s%s' % (a, n[1], SEPS[n[4]], b), tr
        if k == 'call':
            ts, tr = self.all(n[2])
            return '%s(%s)' % (n[1], n[3].join(ts)), tr
        if k == 'arr':
            ts, tr = self.all(n[1])
            return '[%s]' % n[2].join(ts), tr
        if k == 'range':
            ts, tr = self.all(n[2:])
            if len(ts) == 2:
                return '[%s .. %s]' % tuple(ts), tr
            if len(ts) != 3:
                raise Discard()
            return '[%s .. %s step %s]' % tuple(ts), tr
        if k == 'urange':
            ts, tr = self.all(n[2:])
            if len(ts) not in (2, 3):
                raise Discard()
            return 'count([%s])' % (' step '.join([' .. '.join('(%s) %s' % (t, n[1]) for t in ts[:2])] + ['(%s) %s' % (t, n[1]) for t in ts[2:]])), tr
        if k == 'form':
            ts, tr = self.all(n[2:])
            return n[1] % tuple(ts), tr
        if k == 'cond':
            ts, tr = self.all(n[1:], 4)
            return '((%s < %s) then %s else %s)' % tuple(ts), maybe(tr)
        if k == 'bool':
            (a, b), tr = self.all(n[2:4], 2)
            return '((%s > 0) %s (%s > 0))' % (a, n[1], b), maybe(tr)
        if k == 'fn':
            ts, tr = self.all(n[2])
            body = []
            for _ in range(n[3]):
                body += self.body(n[1])
            if n[3] > 1 or n[2][0][0] == 'arr':
                maybe(body)
            return '@%s(%s)' % (n[1], ', '.join(ts)), tr + body
        raise Discard()

    def body(self, f):
        """What one call of a function variable performs."""
        self.depth += 1
        if self.depth > 12:
            raise Discard()
        try:
            if f in self.inl:
                return self.program(self.inl[f])[1]
            if f in LISTS:
                return sum((self.file(x) for x in LISTS[f]), [])
            return self.file({'zfa': 'fna', 'zfb': 'fnb', 'zfc': 'fnc'}[f])
        finally:
            self.depth -= 1

    def file(self, name):
        d = self.files[name]
        if d['broken']:
            return [Entry(FAIL)]
        return self.program(d['body'])[1]

    def filetext(self, name):
        d = self.files[name]
        # a body sees nothing of its caller's variables
        return "zfb = './fnb'\nzfc = './fnc'\n" + self.program(d['body'])[0] + (d['broken'] or '')

    def program(self, stmts):
        parts = [self.stmt(s) for s in stmts]
        if not parts:
            raise Discard()
        # a failing statement of a body is the last one performed
        for j, (_, tr) in enumerate(parts):
            later = {id(e) for _, t in parts[j + 1:] for e in t}
            for e in tr:
                if e.certain:
                    e.dead |= later
        self.keep = getattr(self, 'keep', []) + [parts]          # the ids stay valid
        return '\n'.join(p[0] for p in parts), sum((p[1] for p in parts), [])


class C13(Prop):
    id = 'C13'
    seconds = dict(Prop.seconds, quick=55)
    rule = ('programs of several statements and layouts (continuation lines, comments, blank lines, breaks inside brackets) whose applications of host '
            'functions carry unique labels: at every nesting in operators, arrays, ranges, conditionals, function arguments, bodies of inline and external '
            'functions, and in-expression assignments; with faults at chosen applications, failing operators and broken function files; parsed only, parsed '
            'with an unparsable tail, and executed; non-trivial: at least three labelled applications in program order')
    measure = 'hash of (program texts, faults, what was performed)'
    must_reach = ('executed', 'parsed-only', 'unparsable', 'failed', 'fault:probe', 'continued', 'bodies', 'fault:read')
    runs = {'quick': 20000, 'thorough': 300000}

    def setup(self):
        lib.prebuild('Computing', 1)

    # -- generation
    def gen(self, rng, i, tier):
        self.rng = rng
        self.n = 0
        self.steps = 0
        self.fns = []
        files = {}
        inline = {}
        self.failing = 0
        for name, callable_ in (('fnc', []), ('fnb', ['zfc']), ('fna', ['zfb', 'zfc'])):
            self.fns = callable_
            files[name] = {'body': self.stmts(rng.choice([1, 1, 2, 3]), 1, body=True), 'broken': rng.choice(['\n(1 + ', '\n¬', "\nprobe('zz') )"]) if rng.random() < 0.08 else None}
        lower = ['zfa', 'zfb', 'zfc', 'zfr', rng.choice(['zfs', 'zfu'])]
        for name in ('zfi', 'zfj'):
            self.fns = list(lower)
            inline[name] = self.stmts(rng.choice([1, 1, 2]), 1, body=True)
            lower.append(name)
        self.failing = rng.choice([0, 0, 0.03, 0.1])
        ops = []
        for _ in range(rng.randint(1, 4)):
            self.fns = lower
            first = self.n
            stmts = self.stmts(rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3]))
            op = {'stmts': stmts, 'sep': rng.choice(['\n', '\n', '\n', '\n\n', ' \n', '\n \n'])}
            if rng.random() < 0.4 and self.n > first:
                op['faults'] = [{'point': 'probe@p%d' % rng.randrange(first, self.n), 'n': rng.choice([0, 0, 0, 1]), 'kind': rng.choice(W.ERRORS)}]
            elif rng.random() < 0.15:
                op['faults'] = [{'point': rng.choice(['open', 'read']), 'n': rng.choice([0, 0, 1, 2]), 'kind': rng.choice(W.IO_ERRORS)}]
            elif rng.random() < 0.1:
                op['faults'] = [{'point': 'probe', 'n': rng.randint(0, 12), 'kind': rng.choice(W.ERRORS)}]
            if rng.random() < 0.1:
                op['stateless'] = True
            if rng.random() < 0.15:
                op['state'] = True
            if rng.random() < 0.5:
                op['garbage'] = rng.choice(GARBAGE)
            if rng.random() < 0.3:
                op['parse_first'] = rng.choice([1, 2])
            ops.append(op)
        return {'env': {'tick_ns': 0}, 'files': files, 'inline': inline, 'ops': ops}

    def stmts(self, n, depth, body=False):
        r = self.rng
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.4:
                s = ['set', r.choice(['qa', 'qb']), self.expr(depth, body)]
            elif k < 0.5:
                s = ['op', 'qc', self.scalar(depth, body), r.choice('+-')]
            elif k < 0.6 and not body and self.steps < 15:
                s = ['step', self.digit()]
            else:
                s = ['expr', self.expr(depth, body)]
            if r.random() < 0.1:
                s = ['comment', s]
            out.append(s)
        if body:
            out[0:0] = [['set', 'qc', ['num', 1]]]
            out.append(['expr', self.scalar(depth, body)])
        return out

    def digit(self):
        self.steps += 1
        return self.rng.randint(1, 9)

    def label(self):
        self.n += 1
        return 'p%d' % (self.n - 1)

    def expr(self, depth, body):
        r = self.rng
        if r.random() < 0.15:
            n = r.randint(1, 3)
            if n > 1 and r.random() < 0.3:
                x = r.choice([['num', r.randint(1, 9)], ['var', 'qc']])
                a = ['arr', [x] * n, ', ']
                return ['probe', self.label(), a, n] if r.random() < 0.5 or not self.fns else ['fn', r.choice([f for f in self.fns if f not in LISTS]), [a], n]
            a = ['arr', [self.scalar(depth - 1, body) for _ in range(n)], r.choice([', ', ',\n', ' ,'])]
            k = r.random()
            if k < 0.4:
                return ['probe', self.label(), a, n]
            if k < 0.5:
                return ['probea', self.label(), a]
            if k < 0.7 and self.fns:
                return ['fn', r.choice([f for f in self.fns if f not in LISTS]), [a], n]
            if k < 0.85:
                return ['bin', '*', a, self.scalar(depth - 1, body), r.choice(['plain', 'plain', 'after'])]
            return a
        return self.scalar(depth, body)

    def scalar(self, depth, body):
        r = self.rng
        if self.failing and r.random() < self.failing:
            return ['fail', r.choice(FAILING)]
        if depth <= 0:
            return r.choice([lambda: ['num', r.choice([r.randint(1, 9), r.randint(1, 9), '0x7', '0b11', '2.5', '50%'])], lambda: ['probe', self.label(), ['num', r.randint(1, 9)], 1], lambda: ['var', 'qc']])()
        d = depth - 1
        e = lambda: self.scalar(d, body)
        k = r.random()
        if k < 0.03:
            a, b = self.label(), self.label()
            return ['dup', r.choice(['probed', 'probed', 'probec']), r.choice([[a, a], [a, a, b], [a, b, b], [a, b, a], [a, a, a, a, b]])]
        if k < 0.25:
            return [r.choice(['probe', 'probe', 'probex', 'probec', 'probes', 'hop']), self.label(), e(), 1]
        if k < 0.45:
            return ['bin', r.choice('+-*'), e(), e(), r.choice(['plain', 'plain', 'after', 'after', 'wide', 'blank'])]
        if k < 0.52:
            return ['paren', self.bare(d, body), r.choice(['', '', '\n', ' ']), r.choice(['', '', '\n', ' '])]
        if k < 0.56:
            return ['neg', ['paren', e(), '', '']]
        if k < 0.64:
            return ['call', r.choice(['round', 'abs', 'floor']), [e()], ', ']
        if k < 0.68:
            return ['call', r.choice(['max', 'min', 'sum', 'median']), [['arr', [e(), e(), e()], r.choice([', ', ',\n'])]], ', ']
        if k < 0.72:
            return ['call', 'sum', [['arr', [e(), e()], ', ']], ', ']
        if k < 0.75:
            return ['call', 'sum', [['range', 0] + [['probe', self.label(), ['num', x], 1] for x in r.choice([(1, 4, 1), (1, 3), (4, 1, -1), (5, 2), (2, 2), (1, 6, 2), (9, 1, -4)])]], ', ']
        if k < 0.765:
            return ['urange', r.choice(['m', 'km', 'seconds'])] + [['probe', self.label(), ['num', x], 1] for x in r.choice([(1, 4, 1), (1, 3), (4, 1, -1), (5, 2), (2, 2), (1, 6, 2)])]
        if k < 0.785:
            f = r.choice(FORMS)
            return ['form', f] + [e() for _ in range(f.count('%s'))]
        if k < 0.81:
            return ['cond', e(), e(), e(), e()]
        if k < 0.84:
            return ['cond', ['num', 1], ['num', 2], ['bool', r.choice(['and', 'or', 'xor']), e(), e()], e()] if not body else e()
        if k < 0.94 and self.fns:
            f = r.choice(self.fns)
            if f in LISTS:
                return ['call', 'sum', [['fn', f, [e() for _ in range(r.choice([1, 1, 2]))], 1]], ', ']
            return ['fn', f, [e() for _ in range(r.choice([1, 1, 2]))], 1]
        if k < 0.97 and not body and self.steps < 15:
            return ['step', self.digit()]
        return e()

    def bare(self, d, body):
        return ['bin', self.rng.choice('+-*'), self.scalar(d, body), self.scalar(d, body), self.rng.choice(['plain', 'after', 'inside'])]

    # -- execution
    def run(self, plan, run):
        tree = Tree(plan)
        w = run.world(plan['env'])
        with w:
            c = lib.take()
            lib.add_host_functions(c, w, 'sut')
            self.more_functions(c, w)
            for name in plan['files']:
                w.write_file(name, tree.filetext(name))
            for t in ("zfa = './fna'", "zfb = './fnb'", "zfc = './fnc'", *['%s = [%s]' % (f, ', '.join("'./%s'" % x for x in l)) for f, l in LISTS.items()], 'qc = 1', 'qn = 0'):
                lib.outcome(c, t)
            for f, b in plan['inline'].items():
                lib.outcome(c, '%s = {%s}' % (f, tree.program(b)[0]))
            for n, op in enumerate(plan['ops']):
                self.op(run, w, c, tree, n, op)

    def more_functions(self, c, w):
        """Host operations of the kinds the library has: converting, whole arrays, tolerating errors, an operator."""

        def log(label):
            label = 'p%d' % int(label)
            w.note('probe', label)
            w.probe_log.append([label, []])
            w.point('probe', label)
            w.point('probe@' + label, label)

        def probec(calc, vals, units, refs, flags):
            log(vals[0])
            return lib.OperationResult(vals[1])

        def probed(calc, vals, units, refs, flags):
            log(vals[0][1:])
            return lib.OperationResult(lib.Number(len(w.probe_log)))

        def probes(calc, vals, units, refs, flags):
            log(vals[0][0].value)
            return lib.OperationResult(vals[0][1].value)

        def probex(calc, vals, units, refs, flags):
            log(vals[0][1:])
            return lib.OperationResult(vals[1] if isinstance(vals[1], lib.Number) else lib.Number(1))

        c.funcs['probec'] = lib.FunctionDefinition('Sim', 'probec', '', [], probec, 2, 2, 'number')
        c.funcs['probed'] = lib.FunctionDefinition('Sim', 'probed', '', [], probed, 1, 1, 'string')
        c.funcs['probes'] = lib.FunctionDefinition('Sim', 'probes', '', [], probes, 1, 1, 'array[number]')
        f = c.funcs['probex'] = lib.FunctionDefinition('Sim', 'probex', '', [], probex, 2, 2)
        f.inputs_can_be_exceptions = True
        f.units_normalise = f.auto_convert_numerical_inputs = False
        op = lib.OperatorDefinition('Sim', '!!', '', probec, 1, 1, ['number', 'number'])
        c.ops.append({'!!': op})
        c.setup()

    def op(self, run, w, c, tree, n, op):
        lib.outcome(c, 'qc = 1\nqn = 0')
        parts = [tree.stmt(s) for s in op['stmts']]
        text = op['sep'].join(p[0] for p in parts)
        traces = [p[1] for p in parts]
        if sum(map(len, traces)) > 1000:
            raise Discard()
        if op.get('parse_first'):
            for _ in range(op['parse_first']):
                self.inert(run, w, c, text, {'parse_only': True}, 'parsed-only')
        if op.get('garbage'):
            bad = text + op['garbage']
            d, resp = lib.outcome(c, bad, {'parse_only': True})
            self.inert(run, w, c, bad, {'parse_only': True}, 'parsed-only')
            if d.get('error') == 'ParsingException':
                self.inert(run, w, c, bad, {}, 'unparsable')
        flags = {}
        if op.get('stateless'):
            flags['stateless'] = True
        if op.get('state'):
            flags['include_state'] = True
        before = len(w.probe_log)
        w.begin_op(op.get('faults', []))
        d, resp = lib.outcome(c, text, flags)
        fired = list(w.fired_now)
        w.end_op()
        log = [e[0] for e in w.probe_log[before:]]
        run.record(n, text, d, log)
        run.stats['executed'] += 1
        run.stats['continued'] += ' \n' in text
        run.stats['bodies'] += '@' in text
        if len(log) > 2:
            run.nontrivial = True
        run.sig.append([text, fired, len(log)])
        ctx = dict(text=text, performed=log, outcome=d.get('message'), fired=fired)
        if 'leak' in d or 'interrupt' in d or d.get('error') == 'ParsingException' or resp is None:
            return                             # C18's business, or the generator's
        done = sum(r.has_result() for r in resp.results)
        ok = 'error' not in d
        if not fired and not any(x.label == FAIL for t in traces for x in t) and "['X'," in repr(d).replace('"x"', '"X"').replace("['x',", "['X',"):
            raise Discard()                    # an error of its own inside an array
        run.stats['failed'] += not ok
        if ok and done != len(parts):
            raise Discard()                    # statements joined where the plan has them apart
        if not ok and not any(x.label == FAIL for t in traces[:done + 1] for x in t) and not fired:
            raise Discard()
        if not ok and not fired and not any(x.label == FAIL for t in traces for x in t):
            raise Discard()                    # fails for a reason of its own: a value too large, say
        run.stats['compared'] += 1
        if not self.matches(log, traces, done, ok, fired):
            flat = [x.label for t in traces for x in t if isinstance(x.label, str)]
            raise Violation('performed-otherwise-than-written', expected=flat, completed=done, **ctx)
        if ok and not fired and not op.get('stateless') and not any(x.label == FAIL for t in traces for x in t):
            want = 0
            for t in traces:
                for x in t:
                    if not isinstance(x.label, str):
                        want = want * 10 + x.label
            have = lib.canon(c.vars['qn'][0], c) if 'qn' in c.vars else None
            if have is None or have[1] != str(want):
                raise Violation('assignments-performed-otherwise-than-written', expected=want, got=have, **ctx)

    def matches(self, log, traces, done, ok, fired):
        """Is the log what the statements perform?  Exact up to the first failure; each thing at most once and in order afterwards."""
        names = [[x for x in t if isinstance(x.label, str)] for t in traces]
        anywhere = bool(fired) and not fired[0]['point'].startswith('probe')
        # which performance does the fault hit, if it comes to it
        hit = None
        if fired and fired[0]['point'].startswith('probe'):
            label = fired[0]['point'][6:]
            count = fired[0].get('n', 0)
            for j, e in enumerate(log):
                if not label or e == label:
                    if count == 0:
                        hit = j
                        break
                    count -= 1
        upto = len(names) if ok else done + 1

        def walk(pos, j):
            """Every end in the log of statement j begun at pos."""
            t = names[j]
            dead = set()
            ends = set()
            at = pos
            loose = anywhere
            k = 0
            while not loose and k < len(t):
                if t[k].label == FAIL:
                    loose = True
                    dead = t[k].dead
                    break
                if at >= len(log) or log[at] != t[k].label:
                    return set()
                k += 1
                at += 1
                if hit is not None and at - 1 == hit:
                    loose = True
                    dead = t[k - 1].dead
            if not loose:
                return {at}
            rest = [x.label for x in t[k:] if x.label != FAIL and id(x) not in dead]
            ends.add(at)
            frontier = {at: 0}
            while frontier:
                nxt = {}
                for a, used in frontier.items():
                    if a < len(log):
                        for q in range(used, len(rest)):
                            if rest[q] == log[a]:
                                nxt[a + 1] = min(nxt.get(a + 1, len(rest)), q + 1)
                                break
                ends |= set(nxt)
                frontier = nxt
            return ends

        states = {0}
        for j in range(upto):
            new = set()
            for p in states:
                new |= walk(p, j)
            states = new
            if not states:
                return False
        return len(log) in states

    def inert(self, run, w, c, text, flags, what):
        """Only parsed: nothing may happen."""
        mark = len(w.events)
        vars = lib.canon_vars(c.vars, c)
        kept = dict(c.vars)
        w.begin_op([])
        d, resp = lib.outcome(c, text, flags)
        w.end_op()
        seen = [e for e in w.events[mark:] if e[0] in ('probe', 'boom', 'act', 'slow', 'mark', 'fs-open', 'fs-open-write', 'fs-write')]
        run.stats[what] += 1
        ctx = dict(text=text, flags=flags, outcome=d.get('message', d.get('leak')))
        if seen:
            raise Violation('parsing-performed-something', events=seen[:10], **ctx)
        if w.points.get('wall'):
            raise Violation('parsing-consulted-the-clock', **ctx)
        now = lib.canon_vars(c.vars, c)
        if now != vars or any(c.vars[k] is not kept[k] for k in kept):
            raise Violation('parsing-changed-variables', before=vars, after=now, **ctx)


PROP = C13()
