"""C03: inline functions leave the caller's variables alone, and a failing statement fails the call."""
from .. import funcs
from .. import gen
from .c01 import wrap_probes
from .fcalls import FuncProp, gen_fault, gen_files


class C03(FuncProp):
    id = 'C03'
    rule = ('programs of calls (nested, per element, arrays of functions, functions passed as arguments, mixed with external function files) to '
            "generated inline functions that read, assign, delete and reset the caller's names, with statements that fail and host exceptions, "
            'interruptions, I/O errors and allocation failures at chosen points; each call judged by a statement-by-statement evaluation of its body '
            "in a copy of the caller's scope, including which steps ran; non-trivial: a call was made while the caller had variables")
    measure = 'hash of (call shape, fault point and kind, how the call ended)'
    must_reach = ('ended:ok', 'ended:error', 'ended:interrupt', 'fault:probe', 'fault:clock', 'fault:leaf')
    runs = {'quick': 20000, 'thorough': 400000}
    judge_log = True

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, err=rng.choice([0, 0.02, 0.08]), depth=2)
        g.leaf = wrap_probes(g, rng)
        funcs.swarm(rng, g)
        files = gen_files(rng, g, rng.choice([0, 0, 1, 2]))
        names = [f['name'] for f in files]
        g.vars = gen.VARS[:4]
        prelude = [['set', v, g.expr(rng.choice(['num', 'len', 'arr', 'str']), 1)] for v in gen.VARS[:rng.randint(1, 5)]]
        prelude += funcs.own_params(rng, g)
        for n, f in enumerate(funcs.FVARS):
            if rng.random() < 0.85:
                prelude.append(['bindinl', f, funcs.gen_inline(rng, g, funcs.FVARS[:n], names)])
            elif names and rng.random() < 0.3:
                prelude.append(['bindmix', f, ['./' + rng.choice(names) if rng.random() < 0.5 else funcs.gen_inline(rng, g, funcs.FVARS[:n], names) for _ in range(rng.choice([2, 2, 3]))]])
            else:
                prelude.append(['bindinlarr', f, [funcs.gen_inline(rng, g, funcs.FVARS[:n], names) for _ in range(rng.choice([1, 2, 3]))]])
        k = rng.random()
        if k < 0.12:
            # one calls the next through a function variable of the caller
            bodies = funcs.tower(rng, g, lambda i: [['call', None, 'zh%s' % 'abcdefghij'[i + 1], [funcs.up(i)]]])
            prelude += [['bindinl', 'zh%s' % 'abcdefghij'[i], body] for i, body in enumerate(bodies)]
            prelude.append(['bindinl', 'zfa', [['call', None, 'zha', [['e', 'var', 'PARAM1']]]]])
        elif k < 0.3:
            # bodies alike but for their ends
            head = [['set', 'qf', ['e', 'str', rng.choice('xyz') * rng.choice([20, 70, 130])]]]
            for s in prelude:
                if s[0] == 'bindinl':
                    s[2] = head + s[2]
                elif s[0] in ('bindinlarr', 'bindmix'):
                    s[2] = [b if isinstance(b, str) else head + b for b in s[2]]
        ops = []
        g.vars = gen.VARS
        for _ in range(rng.randint(2, 5)):
            stmts = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                args = funcs.gen_args(rng, g, ['num', 'num', 'arr', 'len', 'str'], (0, 3))
                if args and rng.random() < 0.1:
                    args[0] = ['e', 'inl', funcs.gen_inline(rng, g, [], names)]
                    g.vars = gen.VARS
                stmts.append(['call', rng.choice([None, rng.choice(gen.VARS)]), rng.choice(funcs.FVARS), args])
            op = {'stmts': stmts, 'faults': []}
            if rng.random() < 0.5:
                f = gen_fault(rng, gen.labels([stmts, prelude, files]))
                if f is not None:
                    op['faults'] = [f]
            op['stateless'] = rng.random() < 0.1
            ops.append(op)
        return {'env': {'tick_ns': rng.choice([0, 1000])}, 'files': files, 'prelude': prelude, 'ops': ops}


PROP = C03()
