"""Generated programs.  Expressions are JSON trees ['e', kind, ...], printed with explicit grouping."""

VARS = ['qa', 'qb', 'qc', 'qd', 'qe', 'qf']
LENGTHS = ['metres', 'cm', 'km', 'feet', 'inches', 'm']
TIMES = ['seconds', 'minutes', 'hours', 'ms']
MASSES = ['kg', 'grams', 'tonnes']


# ----------------------------------------------------------------------------- printing

def text(e, top=False):
    """The source text of an expression."""
    k = e[1]
    if k in ('num', 'var', 'raw', 'bool'):
        return e[2]
    if k == 'str':
        return "'%s'" % e[2]
    if k == 'inl':
        return '{%s}' % program(e[2])
    if k == 'call':
        return '%s(%s)' % (e[2], ', '.join(text(a, True) for a in e[3]))
    if k == 'arr':
        return '[%s]' % ', '.join(text(a, True) for a in e[2])
    if k == 'range':
        s = '[%s..%s' % (text(e[2]), text(e[3]))
        if len(e) > 4 and e[4] is not None:
            s += ' step %s' % text(e[4])
        return s + ']'
    if k == 'ext':
        return '@%s(%s)' % (e[2], ', '.join(text(a, True) for a in e[3]))
    if k == 'par':
        return '(%s)' % text(e[2], True)
    if k == 'bin':
        s = '%s %s %s' % (text(e[3]), e[2], text(e[4]))
    elif k == 'un':
        s = '%s %s' % (e[2], text(e[3]))
    elif k == 'unit':
        s = '%s %s' % (text(e[2]), e[3])
    elif k == 'to':
        s = '%s %s %s' % (text(e[2]), e[3], e[4])
    elif k == 'if':
        s = '%s then %s else %s' % (text(e[2]), text(e[3]), text(e[4]))
    else:
        raise ValueError(k)
    return s if top else '(%s)' % s


def stmt_text(s):
    """Statements: ['set', var, e], ['setif', var, e], ['op', var, sym, e], ['inc', var], ['dec', var],
    ['del', var], ['reset'], ['expr', e], ['raw', text]."""
    k = s[0]
    if k == 'note':             # nothing to perform
        return s[1]
    if k == 'set':
        return '%s = %s' % (s[1], text(s[2], True))
    if k == 'setif':
        return '%s ||= %s' % (s[1], text(s[2], True))
    if k == 'op':
        return '%s %s= %s' % (s[1], s[2], text(s[3], True))
    if k == 'inc':
        return '%s++' % s[1]
    if k == 'dec':
        return '%s--' % s[1]
    if k == 'del':
        return 'delete(%s)' % s[1]
    if k == 'reset':
        return 'reset()'
    if k == 'expr':
        return text(s[1], True)
    if k == 'raw':
        return s[1]
    if k == 'bind':                    # a variable naming an external function file
        return "%s = '%s'" % (s[1], s[2])
    if k == 'bindarr':
        return '%s = [%s]' % (s[1], ', '.join("'%s'" % f for f in s[2]))
    if k == 'bindinl':                 # a variable holding an inline function
        return '%s = {%s}' % (s[1], program(s[2]))
    if k == 'bindmix':                 # functions of both kinds in one array
        return '%s = [%s]' % (s[1], ', '.join("'%s'" % f if isinstance(f, str) else '{%s}' % program(f) for f in s[2]))
    if k == 'bindinlarr':
        return '%s = [%s]' % (s[1], ', '.join('{%s}' % program(b) for b in s[2]))
    if k == 'call':                    # ['call', target variable or None, function variable, [arguments]]
        t = '@%s(%s)' % (s[2], ', '.join(text(a, True) for a in s[3]))
        return t if s[1] is None else '%s = %s' % (s[1], t)
    raise ValueError(k)


def program(stmts):
    return '\n'.join(stmt_text(s) for s in stmts)


def walk(node):
    """Every expression node in a JSON structure."""
    if isinstance(node, list):
        if node and node[0] == 'e':
            yield node
        for x in node:
            yield from walk(x)
    elif isinstance(node, dict):
        for x in node.values():
            yield from walk(x)


def labels(node):
    """The labels of the probes in a program."""
    return [n[3][0][2] for n in walk(node) if n[1] == 'call' and n[2] in ('probe', 'probea') and n[3] and n[3][0][1] == 'str']


def lit(v):
    return ['e', 'num', str(v)]


# ----------------------------------------------------------------------------- generation

ALIKE = ['q', 'qa', 'QA', 'Qa', 'qA', 'qaa', 'qab', 'qa1', 'qa_', '_qa', '__qa', 'q_a', 'q1', 'q10', 'q100', 'q' * 40, 'qa' * 120, 'qa' * 120 + 'b',
         'PARAM1', 'PARAM10', 'PARAM', 'param1', 'vars', 'self', 'q__class__', '_', '_1']


def pool(rng):
    """Names for a program's variables: mostly a few, at times many, or names that are nearly the same."""
    k = rng.random()
    if k < 0.82:
        return VARS[:rng.randint(2, 6)]
    if k < 0.95:
        return rng.sample(ALIKE, rng.randint(2, 12))
    return ['q%s%d' % (rng.choice('ab'), i) for i in range(rng.choice([15, 30, 60, 130, 280]))]


class Gen:

    def __init__(self, rng, vars=None, types=None, err=0.05, depth=3, leaf=None, host=False, risky=True):
        self.rng = rng
        self.vars = vars if vars is not None else VARS
        self.err = err
        self.depth = depth
        self.leaf = leaf              # called now and then for a custom leaf: (type) -> expression or None
        self.types = types or ['num', 'num', 'num', 'len', 'arr', 'bool', 'str', 'time']
        self.vartype = {}             # best guess at what each variable holds
        self.host = host
        self.risky = risky
        self.big = 0                  # how often a literal is large: long strings, many elements, many digits
        # swarm: each generator favours some constructs
        self.on = {k: rng.random() < 0.7 for k in ('cast', 'call', 'if', 'arr', 'unit', 'strfn', 'pct', 'date')}

    def pick(self, *opts):
        return self.rng.choice(opts)

    def expr(self, t=None, d=None):
        t = t or self.rng.choice(self.types)
        d = self.depth if d is None else d
        if self.rng.random() < self.err:
            return self.error(d)
        if self.leaf is not None and self.rng.random() < 0.25:
            e = self.leaf(t)
            if e is not None:
                return e
        if self.vars and self.rng.random() < 0.3:
            good = [v for v in self.vars if self.vartype.get(v) == t]
            if good:
                return ['e', 'var', self.rng.choice(good)]
            if self.rng.random() < 0.15:
                return ['e', 'var', self.rng.choice(self.vars)]
        return getattr(self, 'g_' + t)(d)

    def number(self):
        r = self.rng
        if self.big and r.random() < self.big:
            return lit(r.choice([r.randint(1, 10 ** 60), r.randint(1, 10 ** 140), '%d.%d' % (r.randint(0, 10 ** 25), r.randint(1, 10 ** 25)), '%dE%d' % (r.randint(1, 9), r.choice([-300, -90, 60, 150, 400])),
                                 '0x%X' % r.getrandbits(200), '-%d' % r.randint(1, 10 ** 40)]))
        k = r.random()
        if k < 0.45:
            return lit(r.randint(0, 20))
        if k < 0.6:
            return lit('%d.%d' % (r.randint(0, 50), r.randint(1, 99)))
        if k < 0.68 and self.on['cast']:
            return lit('0x%X' % r.randint(0, 255))
        if k < 0.74 and self.on['cast']:
            return lit('0b%s' % bin(r.randint(0, 31))[2:])
        if k < 0.78 and self.on['cast']:
            return lit('0o%o' % r.randint(0, 63))
        if k < 0.83 and self.on['pct']:
            return lit('%d%%' % r.randint(1, 150))
        if k < 0.87:
            return lit('%dE%d' % (r.randint(1, 9), r.randint(-3, 4)))
        if k < 0.90:
            return lit('-%d' % r.randint(1, 20))
        if k < 0.93:
            return ['e', 'raw', r.choice(['pi', 'tau', 'e'])]
        return lit(r.randint(100, 100000))

    def g_num(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.2:
            return self.number()
        k = r.random()
        if k < 0.5:
            op = r.choice(['+', '-', '*', '/', '+', '-', '*', '%', '\\', '^'])
            a = self.expr('num', d - 1)
            if op == '^':
                return ['e', 'bin', op, a if r.random() < 0.5 else self.number(), lit(r.randint(0, 3))]
            return ['e', 'bin', op, a, self.expr('num', d - 1)]
        if k < 0.75 and self.on['call']:
            f = r.choice(['abs', 'floor', 'ceil', 'max', 'min', 'sum', 'mean', 'round', 'median'])
            if f in ('abs', 'floor', 'ceil'):
                return ['e', 'call', f, [self.expr('num', d - 1)]]
            if f == 'round':
                return ['e', 'call', f, [self.expr('num', d - 1), lit(r.randint(0, 4))]]
            if r.random() < 0.5:
                return ['e', 'call', f, [self.expr('num', d - 1) for _ in range(r.randint(1, 3))]]
            return ['e', 'call', f, [self.expr('arr', d - 1)]]
        if k < 0.83 and self.on['if']:
            return ['e', 'if', self.expr('bool', d - 1), self.expr('num', d - 1), self.expr('num', d - 1)]
        if k < 0.9 and self.on['arr']:
            if r.random() < 0.5:
                return ['e', 'call', 'count', [self.expr('arr', d - 1)]]
            return ['e', 'call', 'element', [self.expr('arr', d - 1), lit(r.randint(1, 2))]]
        if k < 0.95 and self.on['cast']:
            return ['e', 'to', self.expr('num', d - 1), r.choice(['as', 'to']), r.choice(['hexadecimal', 'binary', 'octal', 'percentage', 'decimal', 'scientific'])]
        if self.on['strfn']:
            return ['e', 'call', 'length', [self.expr('str', d - 1)]]
        return self.number()

    def _quantity(self, d, t, units):
        r = self.rng
        k = r.random()
        if d <= 0 or k < 0.4:
            return ['e', 'unit', lit(r.randint(1, 40)), r.choice(units)]
        if k < 0.6:
            return ['e', 'bin', r.choice(['+', '-']), self.expr(t, d - 1), self.expr(t, d - 1)]
        if k < 0.75:
            return ['e', 'bin', r.choice(['*', '/']), self.expr(t, d - 1), self.expr('num', d - 1)]
        if k < 0.9:
            return ['e', 'to', self.expr(t, d - 1), 'to', r.choice(units)]
        return ['e', 'call', r.choice(['max', 'min', 'sum']), [self.expr(t, d - 1), self.expr(t, d - 1)]]

    def g_len(self, d):
        return self._quantity(d, 'len', LENGTHS)

    def g_time(self, d):
        return self._quantity(d, 'time', TIMES)

    def g_mass(self, d):
        return self._quantity(d, 'mass', MASSES)

    def g_mix(self, d):
        a, b = self.rng.sample(['len', 'time', 'mass'], 2)
        return ['e', 'bin', self.rng.choice(['*', '/']), self.expr(a, d - 1), self.expr(b, d - 1)]

    def g_bool(self, d):
        r = self.rng
        k = r.random()
        if d <= 0 or k < 0.25:
            return ['e', 'bool', r.choice(['true', 'false'])]
        if k < 0.65:
            t = r.choice(['num', 'num', 'len'])
            return ['e', 'bin', r.choice(['<', '>', '<=', '>=', '==', '!=']), self.expr(t, d - 1), self.expr(t, d - 1)]
        if k < 0.9:
            return ['e', 'bin', r.choice(['and', 'or', 'xor']), self.expr('bool', d - 1), self.expr('bool', d - 1)]
        return ['e', 'un', 'not', self.expr('bool', d - 1)]

    def g_str(self, d):
        r = self.rng
        k = r.random()
        if self.big and r.random() < self.big:
            return ['e', 'str', r.choice(['ab ', 'x', '\u00e9\u20ac', 'a#b ', '(']) * r.choice([r.randint(50, 1500), 4100])]
        if d <= 0 or k < 0.45 or not self.on['strfn']:
            return ['e', 'str', r.choice(['abc', 'Hello', 'x y', '12', '', 'true', 'a,b', '2000-01-02', 'zz'])]
        if k < 0.7:
            return ['e', 'bin', '+$', self.expr('str', d - 1), self.expr('str', d - 1)]
        if k < 0.9:
            return ['e', 'call', r.choice(['upper', 'lower', 'strip']), [self.expr('str', d - 1)]]
        return ['e', 'call', 'join', [['e', 'arr', [self.expr('str', 0), self.expr('str', 0)]], ['e', 'str', '-']]]

    def g_arr(self, d):
        r = self.rng
        k = r.random()
        if self.big and r.random() < self.big:
            n = r.choice([15, 40, 90, 200])
            return ['e', 'range', lit(1), lit(n), None] if r.random() < 0.5 else ['e', 'arr', [lit(r.randint(0, 999)) for _ in range(n)]]
        if d <= 0 or k < 0.45 or not self.on['arr']:
            if r.random() < 0.3:
                return ['e', 'range', lit(r.randint(1, 3)), lit(r.randint(4, 6)), None]
            t = 'num' if r.random() < 0.75 else 'len'
            return ['e', 'arr', [self.expr(t, min(d - 1, 1)) for _ in range(r.randint(1, 4))]]
        if k < 0.7:
            return ['e', 'bin', r.choice(['+', '-', '*', '/']), self.expr('arr', d - 1), self.expr('num', d - 1)]
        if k < 0.85:
            return ['e', 'call', r.choice(['reverse', 'sort']), [self.expr('arr', d - 1)]]
        if k < 0.95:
            return ['e', 'call', 'concat', [self.expr('arr', d - 1), self.expr('arr', d - 1)]]
        a = self.expr('arr', d - 1)
        return ['e', 'call', 'filter', [a, ['e', 'bin', '>', a, lit(r.randint(0, 10))]]]

    def error(self, d):
        r = self.rng
        k = r.random()
        if k < 0.25:
            return ['e', 'bin', '/', self.number(), lit(0)]
        if k < 0.4:
            return ['e', 'bin', '+', ['e', 'unit', lit(r.randint(1, 9)), 'metres'], ['e', 'unit', lit(2), 'seconds']]
        if k < 0.55:
            return ['e', 'call', 'element', [['e', 'arr', [lit(1), lit(2)]], lit(9)]]
        if k < 0.7:
            return ['e', 'bin', '+', ['e', 'str', 'abc'], lit(1)]
        if k < 0.8:
            return ['e', 'var', 'q_undefined']
        if k < 0.9 or not self.host:
            return ['e', 'call', 'abs', [lit(1), lit(2)]]
        return ['e', 'call', 'boom', [['e', 'str', 'RuntimeError']]]

    # -- statements

    def remember(self, v, t):
        self.vartype[v] = t

    def statement(self, read_only=False):
        r = self.rng
        t = r.choice(self.types)
        if read_only or r.random() < 0.3:
            return ['expr', self.expr(t)]
        v = r.choice(self.vars)
        k = r.random()
        if k < 0.5:
            s = ['set', v, self.expr(t)]
            self.remember(v, t)
            return s
        if k < 0.6:
            s = ['setif', v, self.expr(t)]
            self.vartype.setdefault(v, t)
            return s
        if k < 0.8:
            vt = self.vartype.get(v, 'num')
            op = r.choice(['+', '-', '*', '/', '%', '\\', '^'])
            if vt == 'len' or vt == 'time':
                op = r.choice(['+', '-', '*', '/'])
                return ['op', v, op, self.expr(vt if op in '+-' else 'num', 1)]
            if op == '^':
                return ['op', v, op, lit(r.randint(0, 3))]
            return ['op', v, op, self.expr('num', 2)]
        if k < 0.9:
            return [r.choice(['inc', 'dec']), v]
        if k < 0.98:
            self.vartype.pop(v, None)
            return ['del', v]
        self.vartype.clear()
        return ['reset']
