"""The reference meaning of user defined functions: a body evaluated statement by statement in a scope of its own."""
from . import gen
from . import lib
from .model import clone_pair, clone_vars, clone
from .runner import Discard


class Unspecified(Exception):
    """The program reached something the reference does not define: no comparison."""


class Failed(Exception):
    pass


class Funcs:

    def __init__(self, oracle, files, world=None):
        self.o = oracle
        self.files = files            # name -> {'input': [types] or None, 'body': [statements]}
        self.io_fails = set()         # files whose read is made to fail
        self.inl = {}                 # source text of an inline function -> its statements
        self.opened = []
        self.depth = 0
        self.bodies = 0

    def register(self, node):
        """Every inline function in a plan, by its source text."""
        if isinstance(node, list):
            if len(node) > 2 and node[0] == 'bindinl':
                self.inl['{%s}' % gen.program(node[2])] = node[2]
            elif len(node) > 2 and node[0] in ('bindinlarr', 'bindmix'):
                for b in node[2]:
                    if isinstance(b, str):
                        continue
                    self.inl['{%s}' % gen.program(b)] = b
            elif len(node) > 2 and node[0] == 'e' and node[1] == 'inl':
                self.inl[gen.text(node)] = node[2]
            for x in node:
                self.register(x)
        elif isinstance(node, dict):
            for x in node.values():
                self.register(x)

    # -- scopes: dicts of name -> (value, unit)

    def statement(self, s, scope):
        """Run one statement in a scope; returns its (value, unit).  Raises Failed or Unspecified."""
        k = s[0]
        if k == 'call':
            if s[2] not in scope:
                raise Failed('no such function variable')
            args = [self.value(a, scope) for a in s[3]]
            val = self.pointer(scope[s[2]][0], args, scope)
            if s[1] is not None:
                scope[s[1]] = clone_pair(val)
            return val
        # anything else is the library's own business, on a calculator that has only this scope
        c = self.o.c
        c.vars = clone_vars(scope)
        try:
            resp = c.calculate(gen.stmt_text(s))
        except lib.CalculatingException as err:
            # what a failing statement leaves behind does not matter: the scope is about to vanish
            raise Failed(err.message)
        scope.clear()
        scope.update(clone_vars(c.vars))
        results = [r for r in resp.results if r.has_result()]
        if not results:
            raise Failed('no result')
        return (results[-1].value, results[-1].unit)

    def value(self, e, scope):
        val, err = self.o.pure(gen.text(e, True), scope)
        if err is not None:
            raise Failed(err)
        return val

    def pointer(self, ref, args, scope):
        if isinstance(ref, list):
            out = []
            for r in ref:
                v, u = self.call(r.value, args, scope)
                out.append(lib.OperandResult(v, u, None))
            return (out, None)
        return self.call(ref, args, scope)

    def call(self, ref, args, scope):
        if isinstance(ref, str):
            name = ref[2:] if ref[:2] in ('./', '~/') else ref
            self.opened.append(name)
            f = self.files.get(name)
            if f is None or name in self.io_fails:
                raise Failed('unreadable')
            if 'parses' not in f:
                try:
                    self.o.c.calculate(gen.program(f['body']), {'parse_only': True})
                    f['parses'] = True
                except lib.CalculatingException:
                    f['parses'] = False
            if not f['parses']:
                # what cannot be parsed as a whole does not run at all
                return self.broadcast(f.get('input'), args, self.unparsable)
            return self.broadcast(f.get('input'), args, lambda a: self.body(f['body'], self.params(a, {})))
        if isinstance(ref, lib.InlineFunctionItem):
            stmts = self.inl.get(ref.text)
            if stmts is None:
                raise Unspecified()
            return self.broadcast(None, args, lambda a: self.body(stmts, self.params(a, clone_vars(scope))))
        raise Failed('not a function')

    def unparsable(self, args):
        raise Failed('unparsable')

    def params(self, args, scope):
        for i, a in enumerate(args):
            scope['PARAM%d' % (i + 1)] = clone_pair(a)
        return scope

    def broadcast(self, spec, args, fn):
        spec = spec or []
        idx = [i for i, a in enumerate(args) if isinstance(a[0], list) and not (i < len(spec) and spec[i].startswith('array'))]
        if not idx:
            for i, t in enumerate(spec):
                if i < len(args) and not self.fits(t, args[i]):
                    raise Failed('input type')
            return fn(args)
        lengths = set(len(args[i][0]) for i in idx)
        if len(lengths) > 1:
            raise Failed('array lengths')
        out = []
        for n in range(lengths.pop()):
            row = list(args)
            bad = None
            for i in idx:
                e = args[i][0][n]
                row[i] = (e.value, e.unit)
            for a in row:
                if isinstance(a[0], Exception):
                    bad = a[0]
                    break
            nested = any(isinstance(a[0], list) and not (i < len(spec) and spec[i].startswith('array')) for i, a in enumerate(row))
            if bad is not None and not nested:
                out.append(lib.OperandResult(bad, None, None))
                continue
            try:
                v, u = self.broadcast(spec, row, fn) if nested else fn_checked(self, spec, row, fn)
                out.append(lib.OperandResult(v, u, None))
            except Failed as err:
                out.append(lib.OperandResult(lib.CalculatorException(str(err)), None, None))
        return (out, None)

    def fits(self, t, a):
        if t == 'array':
            return isinstance(a[0], list)
        if t == 'number':
            if isinstance(a[0], lib.Number):
                return True
            if isinstance(a[0], list):
                return False
            raise Unspecified()
        raise Unspecified()

    def body(self, stmts, scope):
        self.depth += 1
        try:
            self.bodies += 1
            if self.depth > 12:
                raise Unspecified()
            if self.bodies > 300 or sum(size(p[0]) for p in scope.values()) > 1500:
                raise Discard()        # arrays of arrays of arrays: too large to be worth it
            last = None
            for s in stmts:
                if s[0] != 'note':
                    last = self.statement(s, scope)
            if last is None:
                raise Failed('empty')
            return clone_pair(last)
        finally:
            self.depth -= 1


def size(v):
    return 1 + sum(size(e.value) for e in v) if isinstance(v, list) else 1


def fn_checked(self, spec, row, fn):
    for i, t in enumerate(spec):
        if i < len(row) and not self.fits(t, row[i]):
            raise Failed('input type')
    return fn(row)


def blur(canon):
    """A canonical result with the texts of errors inside it left out."""
    if isinstance(canon, list):
        if canon and canon[0] in ('x', 'X'):
            return ['x']
        return [blur(x) for x in canon]
    return canon


# ----------------------------------------------------------------------------- generation

FVARS = ['zfa', 'zfb', 'zfc']


def arrs(g, types):
    """The types to choose from; arrays multiply when functions are applied to them over and over."""
    return [t for t in types if t != 'arr'] if getattr(g, 'noarr', False) else types


def params(g):
    """The names of the arguments a generated body reads."""
    return ['PARAM%d' % (i + 1) for i in range(getattr(g, 'params', 2))]


def gen_args(rng, g, types, few=(1, 2)):
    """The arguments of a call."""
    n = rng.randint(*few)
    most = getattr(g, 'params', 2)
    if most > 2 and rng.random() < 0.7:
        n = rng.randint(n, most)
        types = [t for t in types if t != 'arr'] + ['len']
    return [g.expr(rng.choice(types), 1) for _ in range(n)]


def own_params(rng, g):
    """Statements that give the caller variables of its own with the names of arguments."""
    out = []
    if rng.random() < 0.3:
        for v in rng.sample(['PARAM%d' % (i + 1) for i in range(max(4, getattr(g, 'params', 2)))], rng.randint(1, 4)):
            out.append(['set', v, g.expr(rng.choice(['num', 'len']), 0)])
    return out


def swarm(rng, g):
    """Now and then: functions of many arguments."""
    if rng.random() < 0.25:
        g.params = rng.choice([3, 4, 6, 9, 10, 11, 13])


def last(rng, g, names):
    """The variables a body ends by showing: with many arguments, some run of them."""
    n = getattr(g, 'params', 2)
    if n > 2 and rng.random() < 0.7:
        a = rng.randint(0, n - 2)
        return names[a:rng.randint(a + 1, n)]
    return rng.sample(names, 3)


def gen_body(rng, g, level, files, inline=False, n=None, probe=None):
    """Statements of a function body; calls only files of a higher number."""
    body = []
    names = params(g) + gen.VARS[:4]
    g.vars = names
    for _ in range(n if n is not None else rng.randint(1, 4)):
        k = rng.random()
        v = rng.choice(gen.VARS[:4] + ['PARAM1'])
        if k < 0.4:
            body.append(['set', v, g.expr(rng.choice(arrs(g, ['num', 'num', 'len', 'arr'])), 1)])
        elif k < 0.5:
            body.append(['op', v, rng.choice('+-*'), g.expr('num', 1)])
        elif k < 0.55:
            body.append([rng.choice(['inc', 'dec']), v])
        elif k < 0.62:
            body.append(['del', v])
        elif k < 0.68:
            body.append(['reset'])
        elif k < 0.75:
            body.append(['setif', v, g.expr('num', 1)])
        elif files and k < 0.95:
            f = rng.choice(FVARS)
            body.append(['bind', f, './' + rng.choice(files)])
            body.append(['call', rng.choice([None, v]), f, gen_args(rng, g, arrs(g, ['num', 'num', 'arr', 'len']))])
        else:
            body.append(['expr', g.expr('num', 1)])
    k = rng.random() * (0.5 if getattr(g, 'noarr', False) else 1)
    if k < 0.5:
        body.append(['expr', g.expr(rng.choice(arrs(g, ['num', 'num', 'len', 'arr', 'str'])), 2)])
    else:
        body.append(['expr', ['e', 'arr', [['e', 'var', n] for n in last(rng, g, names)]]])
    return notes(rng, body, False)


def gen_inline(rng, g, lower, files, depth=0):
    """Statements of an inline function: sees the caller's variables, may call those of a lower rank."""
    body = []
    names = params(g) + gen.VARS[:5]
    g.vars = names
    for _ in range(rng.randint(0, 4)):
        k = rng.random()
        v = rng.choice(gen.VARS[:5] + ['PARAM1'])
        if k < 0.4:
            body.append(['set', v, g.expr(rng.choice(arrs(g, ['num', 'num', 'len', 'arr'])), 1)])
        elif k < 0.5:
            body.append(['op', v, rng.choice('+-*'), g.expr('num', 1)])
        elif k < 0.55:
            body.append([rng.choice(['inc', 'dec']), v])
        elif k < 0.62:
            body.append(['del', v])
        elif k < 0.66:
            body.append(['reset'])
        elif k < 0.73:
            body.append(['setif', v, g.expr('num', 1)])
        elif k < 0.85 and lower:
            body.append(['call', rng.choice([None, v]), rng.choice(lower), gen_args(rng, g, arrs(g, ['num', 'num', 'arr', 'len']))])
        elif k < 0.9 and depth < 2:
            f = rng.choice(['zga', 'zgb'])
            body.append(['bindinl', f, gen_inline(rng, g, lower, files, depth + 1)])
            g.vars = names
            body.append(['call', rng.choice([None, v]), f, [g.expr(rng.choice(arrs(g, ['num', 'arr'])), 1)]])
        elif k < 0.94 and files:
            f = rng.choice(['zga', 'zgb'])
            body.append(['bind', f, './' + rng.choice(files)])
            body.append(['call', rng.choice([None, v]), f, gen_args(rng, g, arrs(g, ['num', 'num', 'arr', 'len']))])
        elif k < 0.97:
            body.append(['call', None, 'PARAM%d' % rng.randint(1, 2), [lit_or(g)]])
        else:
            body.append(['expr', g.expr('num', 1)])
    k = rng.random() * (0.5 if getattr(g, 'noarr', False) else 1)
    if k < 0.5:
        body.append(['expr', g.expr(rng.choice(arrs(g, ['num', 'num', 'len', 'arr', 'str'])), 2)])
    elif k < 0.55 and body:
        pass
    else:
        body.append(['expr', ['e', 'arr', [['e', 'var', n] for n in last(rng, g, names)]]])
    return notes(rng, body, True)


def notes(rng, body, inline):
    """Lines on which nothing happens, here and there in a body."""
    if rng.random() < 0.2:
        for _ in range(rng.choice([1, 1, 2, 4])):
            body.insert(rng.randint(0, len(body)), ['note', rng.choice(['', '  ', '\t', '# note', ' # ) {', "# 'x", '   #'])])
        if inline and body[-1][0] == 'note' and '#' in body[-1][1]:
            body.append(['note', rng.choice(['', '   ', '\t \t'])])
    return body


def tower(rng, g, calls):
    """Bodies that call each other several levels deep, each with variables of its own; the first statement of each says how it reaches the next."""
    n = rng.choice([4, 5, 6, 7, 8, 9])
    old = g.vars, g.vartype, g.types
    g.types, g.vartype, g.vars = ['num'], {'PARAM1': 'num'}, ['PARAM1']
    out = []
    for i in range(n):
        v = rng.choice(gen.VARS[:2])
        body = [['set', v, ['e', 'num', str(rng.randint(2, 9))]]]
        if rng.random() < 0.5:
            body.append(['set', rng.choice(gen.VARS[2:4]), ['e', 'bin', '+', ['e', 'var', 'PARAM1'], ['e', 'num', str(i)]]])
        if i < n - 1:
            body += calls(i)
            body[-1][1] = 'qe'
            if rng.random() < 0.15:
                body.append(['expr', ['e', 'bin', '/', ['e', 'var', v], ['e', 'num', '0']]])
            body.append(['expr', ['e', 'bin', '+', ['e', 'bin', '*', ['e', 'var', v], ['e', 'var', 'PARAM1']], ['e', 'var', 'qe']]])
        else:
            body.append(['expr', ['e', 'bin', '+', ['e', 'var', v], g.expr('num', 1)]])
        out.append(body)
    g.vars, g.vartype, g.types = old
    return out


def higher(rng, g, call, leaf):
    """A body that calls the function it is given, handing on another: a function can so be running several times at once."""
    v = rng.choice(gen.VARS[:3])
    return [['set', 'zgb', ['e', 'var', 'PARAM1']], ['set', v, ['e', 'bin', '+', ['e', 'var', 'PARAM2'], ['e', 'num', str(rng.randint(2, 9))]]],
            [call, 'qe', 'zgb', [leaf, ['e', 'bin', '+', ['e', 'var', 'PARAM2'], ['e', 'num', '1']]]],
            ['expr', ['e', 'bin', '+', ['e', 'bin', '*', ['e', 'var', v], ['e', 'var', 'PARAM2']], ['e', 'var', 'qe']]]]


def up(i):
    return ['e', 'bin', '+', ['e', 'var', 'PARAM1'], ['e', 'num', str(i + 1)]]


def lit_or(g):
    return g.number()


def gen_friendly(rng, g, files=(), lower=(), inline=False, depth=0):
    """A body that mostly works: numbers only, names known to be set."""
    names = ['PARAM1']
    body = []
    old = g.vars, g.vartype, g.types
    g.types = ['num']
    g.vartype = {'PARAM1': 'num'}
    if inline:
        names += ['qa', 'qb']
        g.vartype.update(qa='num', qb='num')
    for _ in range(rng.randint(1, 4)):
        g.vars = names
        v = rng.choice(gen.VARS[:4])
        k = rng.random()
        if files and k < 0.3:
            f = rng.choice(['zga', 'zgb'])
            body.append(['bind', f, './' + rng.choice(files)])
            body.append(['call', v, f, [g.expr('num', 1)]])
        elif lower and k < 0.45:
            body.append(['call', v, rng.choice(lower), [g.expr('num', 1)]])
        elif k < 0.55 and depth < 1:
            f = rng.choice(['zga', 'zgb'])
            body.append(['bindinl', f, gen_friendly(rng, g, files, lower, True, depth + 1)])
            body.append(['call', v, f, [g.expr('num', 1)]])
        elif k < 0.65 and v in names:
            body.append(['op', v, rng.choice('+-*'), g.expr('num', 1)])
            continue
        elif k < 0.7 and v in names:
            body.append([rng.choice(['inc', 'dec']), v])
            continue
        else:
            body.append(['set', v, g.expr('num', 2)])
        if v not in names:
            names.append(v)
        g.vartype[v] = 'num'
        g.vars = names
    body.append(['expr', g.expr('num', 2)])
    g.vars, g.vartype, g.types = old
    return body
