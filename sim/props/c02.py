"""C02: external functions never touch the caller's variables, however the call ends."""
from .. import funcs
from .. import gen
from .c01 import wrap_probes
from .fcalls import FuncProp, gen_fault, gen_files


class C02(FuncProp):
    id = 'C02'
    seconds = dict(FuncProp.seconds, quick=55)
    rule = ('programs of calls (nested, per element, arrays of functions) to generated function files that assign, delete and reset the '
            "caller's names, with host exceptions, interruptions, I/O errors and allocation failures at chosen points; each call judged by "
            'a statement-by-statement evaluation of its body in a scope of its own; non-trivial: a call ran a body while the caller had variables')
    measure = 'hash of (call shape, file bodies kinds, fault point and kind, how the call ended)'
    must_reach = ('ended:ok', 'ended:error', 'ended:interrupt', 'fault:probe', 'fault:open', 'fault:read', 'fault:clock', 'fault:leaf')
    runs = {'quick': 20000, 'thorough': 400000}

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, err=rng.choice([0, 0.02, 0.08]), depth=2)
        g.leaf = wrap_probes(g, rng)
        funcs.swarm(rng, g)
        files = gen_files(rng, g, rng.randint(1, 4))
        deep = rng.random() < 0.12
        if deep:
            bodies = funcs.tower(rng, g, lambda i: [['bind', 'zga', './fh%d' % (i + 1)], ['call', None, 'zga', [funcs.up(i)]]])
            files += [{'name': 'fh%d' % i, 'input': None, 'body': body} for i, body in enumerate(bodies)]
        again = rng.random() < 0.12
        if again:
            files.append({'name': 'fl', 'input': None, 'body': [['set', 'qa', g.number()], ['expr', ['e', 'bin', '+', ['e', 'var', 'qa'], ['e', 'var', 'PARAM2']]]]})
            body = funcs.higher(rng, g, 'call', ['e', 'str', './fl'])
            files += [{'name': 'fap', 'input': None, 'body': body}, {'name': 'faq', 'input': None, 'body': body if rng.random() < 0.5 else funcs.higher(rng, g, 'call', ['e', 'str', './fap'])}]
        g.vars = gen.VARS[:4]
        prelude = [['set', v, g.expr(rng.choice(['num', 'len', 'arr', 'str']), 1)] for v in gen.VARS[:rng.randint(1, 5)]]
        prelude += funcs.own_params(rng, g)
        g.vars = gen.VARS
        ops = []
        for f in funcs.FVARS:
            if rng.random() < 0.78:
                prelude.append(['bind', f, rng.choice(['./', './', './', '~/']) + rng.choice(files)['name']])
            elif rng.random() < 0.3:
                prelude.append(['bindmix', f, ['./' + rng.choice(files)['name'] if rng.random() < 0.5 else funcs.gen_inline(rng, g, [], [x['name'] for x in files]) for _ in range(rng.choice([2, 2, 3]))]])
            else:
                prelude.append(['bindarr', f, ['./' + rng.choice(files)['name'] for _ in range(rng.choice([1, 2, 3]))]])
        if deep:
            prelude.append(['bind', 'zfa', './fh0'])
        if again:
            prelude.append(['bind', 'zfb', './' + rng.choice(['fap', 'faq'])])
        for _ in range(rng.randint(2, 5)):
            stmts = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                args = funcs.gen_args(rng, g, ['num', 'num', 'arr', 'len', 'str'], (0, 3))
                stmts.append(['call', rng.choice([None, rng.choice(gen.VARS)]), rng.choice(funcs.FVARS), args])
                if deep and rng.random() < 0.5:
                    stmts[-1][2:] = ['zfa', [rng.choice([g.number(), ['e', 'arr', [g.number(), g.number()]]])]]
                if again and rng.random() < 0.5:
                    stmts[-1][2:] = ['zfb', [['e', 'str', './' + rng.choice(['fap', 'faq', 'fl'])], rng.choice([g.number(), ['e', 'arr', [g.number(), g.number()]]])]]
            op = {'stmts': stmts, 'faults': []}
            if rng.random() < 0.6:
                f = gen_fault(rng, gen.labels([stmts, files]))
                if f is not None:
                    op['faults'] = [f]
            if rng.random() < 0.15:
                op['missing'] = rng.choice(files)['name']
            op['stateless'] = rng.random() < 0.1 and not any(s[0] == 'bindmix' for s in prelude)
            ops.append(op)
        return {'env': {'tick_ns': rng.choice([0, 1000])}, 'files': files, 'prelude': prelude, 'ops': ops}


PROP = C02()
