"""C15: installation does not depend on order, grouping or repetition, and a failed install can be made good."""
import re
import sys

from .. import gen
from .. import lib
from .. import sess
from .. import world as W
from ..runner import Prop, Violation, Discard
from .c05 import EXTRA

UNITS = ('m s kg g A K mol cd V W J N Pa Hz C F ohm S Wb T H lm lx Bq Gy Sv kat L feet miles inches pounds ounces hours minutes days acres hectares '
         'radians degrees sr bit byte kilobytes gallon pint knots gees ha km cm mg kilometers milliseconds megawatts').split()
CALLS = ['sqrt(16)', 'sin(1)', 'round(2.567, 1)', 'abs(-3)', 'max([1, 5, 2])', "upper('abc')", "date('2000-01-01')", '5!', '10 \\ 3', '10 % 3', '2 ^ 10', '50% * 4',
         '0b101 + 0x1F + 0o17', '1E3', "bin(5)", 'hex(255)', '(1 + 2) * 3', '[1, 2, 3] + 1', '[1..5]', 'sum([1, 2])', '1 < 2', 'true and false', 'if 1 < 2 then 3 else 4',
         '6 & 3', '6 xor 3', "'a' + 'b'", "'abc' =~ 'b'", 'pi', 'e', 'a = 3\na * 2', 'a = 1\na += 4\na', '3; 4', '3\n4', '# note\n7', '5 # note', 'speedoflight', 'mean([1, 2, 9])',
         "floor(2.5)", "join(['a', 'b'], '-')", 'count([1, 2])', "@{PARAM1 * 2}(4)", "f = @{PARAM1 + 1}\n@f(2)", "@zf(3)", "compact(36000 s)", "format(100 s)",
         '5 m to feet', '2 kg m / s', '1 / 0', 'nosuch', '1 +', "'", 'exp(1)', 'log(100)', 'random(1)', 'zz1(2)', 'zz2(2)', 'zz3(5)', '12r5', '0z5', 'delete(a)', 'reset()']


def probe(rng):
    k = rng.random()
    if k < 0.45:
        return '%d' % rng.randint(1, 50) + ''.join(' %s (%d %s)' % (rng.choice('*/'), rng.choice([1, 1, 2, 5, 100]), rng.choice(UNITS)) for _ in range(rng.randint(1, 4)))
    if k < 0.55:
        return '%d %s to %s' % (rng.randint(1, 50), rng.choice(UNITS), rng.choice(UNITS))
    if k < 0.8:
        return rng.choice(CALLS)
    return rng.choice(EXTRA)


class C15(Prop):
    id = 'C15'
    rule = ('a set of features (a preset, everything, or a random few, and generated features with dependencies and ordering hints of their own) installed into '
            'a new calculator by one call naming them in sorted order, and by another simulated execution: any order, any grouping into calls, some asked for again, '
            'with calls that fail because a feature is missing, raises before or after its own work, or is interrupted at any line of the installation, and are '
            'made again (as they were or in another order); non-trivial: the calls differ from the one sorted call')
    measure = 'hash of the calls (names in order) and of the faults that fired'
    must_reach = ('failed-call', 'retried-ok', 'fault-missing', 'fault-raise', 'fault-step', 'grouped', 'again', 'used-before-install')
    runs = {'quick': 20000, 'thorough': 100000}

    def setup(self):
        lib.load()

    def gen(self, rng, i, tier):
        feats, hints = known()
        k = rng.random()
        if k < 0.25:
            names = sorted(presets()[rng.choice(['Basic', 'Advanced', 'Scientific', 'Computing', 'Computing'])])
        elif k < 0.4:
            names = sorted(feats)
        else:
            names = rng.sample(sorted(feats), rng.randint(1, 12))
            if rng.random() < 0.6:
                names += ['structure.operators', 'numerical.decimalnumbers', 'numerical.basicarithmetic', 'nonfunctional.space']
            if rng.random() < 0.4:
                names += ['units.units', 'units.basicunitprefixes', 'units.systems'] + rng.sample([f for f in feats if f.startswith('unitdef')], 4)
            if rng.random() < 0.3:
                names += ['structure.functions', 'structure.innerexpressions', 'state.assignment']
            names = sorted(set(names))
        own = []
        if rng.random() < 0.5:
            for n in range(rng.randint(1, 6)):
                below = ['zz.f%d' % j for j in range(n)]
                f = {'id': 'zz.f%d' % n, 'deps': [d for d in below if rng.random() < 0.3], 'after': [d for d in below if rng.random() < 0.4], 'subs': None}
                if below and rng.random() < 0.25:
                    f['subs'] = [d for d in below if rng.random() < 0.6]
                if rng.random() < 0.3:
                    f['deps'].append(rng.choice(sorted(feats)))
                elif f['subs'] is None and rng.random() < 0.6:
                    f['deps'].append('structure.functions')
                if rng.random() < 0.3:
                    f['after'].append(rng.choice(sorted(feats)))
                own.append(f)
            names = sorted(set(names) | {f['id'] for f in own if rng.random() < 0.7})
        plan = {'own': own, 'names': names}
        order = names[:]
        rng.shuffle(order)
        calls = []
        k = rng.random()
        if k < 0.4:
            calls.append({'names': order})
        else:
            # no call before the one that names a feature its own are to follow
            rel = relations(own)
            while order:
                n = rng.randint(1, max(1, len(order) // rng.choice([1, 2, 4])))
                calls.append({'names': order[:n]})
                order = order[n:]
            calls = legal(calls, rel)
        for _ in range(rng.choice([0, 0, 1, 2])):
            at = rng.randrange(len(calls))
            pool = sorted({n for c in calls[:at + 1] for n in c['names']})
            calls.insert(at + 1, {'names': [rng.choice(pool) for _ in range(rng.randint(1, 4))]})
        if rng.random() < 0.3:
            c = rng.choice(calls)
            c['names'] = c['names'] + [rng.choice(c['names'])]
        for c in calls:
            if rng.random() < (0.5 if len(calls) == 1 else 0.25):
                c['faults'] = [self.fault(rng, c['names'], rel_names(c['names'], own)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                c['reorder'] = rng.choice([None, rng.randint(0, 1 << 30)])
                c['texts'] = [probe(rng) for _ in range(3)]
                c['between'] = [probe(rng) for _ in range(rng.choice([0, 0, 2]))]
        for c in calls:
            c['skip'] = rng.random() < 0.1
        plan['calls'] = [{'call': c} for c in calls]
        plan['use'] = [{'k': 'calc', 'text': 'qa=5'}] * (rng.random() < 0.5) + [sess.setting(rng) for _ in range(rng.choice([0, 1, 3]))]
        plan['use'] = [u for u in plan['use'] if u['k'] in ('calc', 'prec', 'round', 'systems', 'normaliser', 'option')]
        plan['usewhen'] = [rng.randint(0, len(calls)) for _ in plan['use']]
        plan['simplify'] = rng.random() < 0.7
        plan['texts'] = ['qa', 'qa+1'] + [probe(rng) for _ in range(25)]
        return plan

    def fault(self, rng, names, reach):
        k = rng.random()
        if k < 0.2:
            return {'f': 'missing', 'at': rng.randint(0, len(names)), 'name': rng.choice(['zz.nosuch', 'units.nosuch', ''])}
        if k < 0.3:
            return {'f': 'unknown', 'feature': rng.choice(reach)}
        if k < 0.65:
            return {'f': 'raise', 'feature': rng.choice(reach), 'when': rng.choice(['before', 'after']), 'kind': rng.choice(W.ERRORS + W.INTERRUPTS)}
        return {'f': 'step', 'n': int(10 ** rng.uniform(0, 4.3)), 'kind': rng.choice(W.INTERRUPTS + ['MemoryError', 'OSError', 'RuntimeError'])}

    def calculator(self, plan, log):
        c = lib.ModularCalculator()
        for f in plan['own']:
            cls = own_feature(f, log)
            c.feature_list[f['id']] = cls
        return c

    def behaviour(self, sub, c, plan, texts=None):
        if texts is None and plan['simplify'] and c.unit_normaliser is not None:
            c.unit_simplification_set(True)
        inv = sess.inventory(c)
        if c.unit_normaliser is not None:
            inv['unitlist'] = sorted(u.singular() for u in c.unit_normaliser.list_units())
            inv['systems'] = [sorted(c.unit_normaliser.systems), list(c.unit_normaliser.systems_preference)]
            inv['dimensions'] = sorted(c.unit_normaliser.dimensions)
            del inv['units']
        out = {'inventory': inv, 'seen': [self.outcome(c, t) for t in (plan['texts'] if texts is None else texts)]}
        sub.record(out)
        return out

    def outcome(self, c, t):
        d = lib.outcome(c, t, {'stateless': True} if hasattr(c, 'vars') else None)[0]
        return d

    def plain(self, sub, plan):
        w = sub.world({'budget': 40_000_000})
        with w:
            log = []
            c = self.calculator(plan, log)
            c.install_features(sorted(plan['names']))
            self.hints(c, log, plan)
            for u in plan['use']:
                self.use(c, u, w)
            return self.behaviour(sub, c, plan)

    def use(self, c, u, w):
        """Something a user does with the calculator that further installs are to leave alone; False if it cannot be done yet."""
        if u['k'] == 'calc':
            return hasattr(c, 'vars') and 'results' in sess.apply(c, u, w) and isinstance(c.vars.get('qa', [None])[0], lib.Number)
        if u['k'] == 'option' and u['o'] not in c.feature_options.get(u['f'], {}):
            return False
        if u['k'] in ('systems', 'normaliser') and (c.unit_normaliser is None or 'units.systems' not in c.installed_features):
            return False
        sess.apply(c, u, w)
        return True

    def other(self, sub, plan):
        w = sub.world({'budget': 40_000_000})
        with w:
            log = []
            c = self.calculator(plan, log)
            todo = list(zip(plan['usewhen'], plan['use']))
            for n, call in enumerate(plan['calls']):
                # in the order they were made: a later setting may be of the same option
                while todo and todo[0][0] <= n and self.use(c, todo[0][1], w):
                    sub.stats['used-before-install'] += n > 0
                    todo.pop(0)
                call = call['call']
                sub.sig.append(call['names'])
                for f in call.get('faults', ()):
                    before = self.behaviour(sub, c, plan, call['texts'])
                    fired, err = self.attempt(c, call['names'], f, sub, w)
                    sub.sig.append([f['f'], fired])
                    if not fired:
                        break
                    sub.stats['failed-call'] += 1
                    sub.stats['fault-' + f['f']] += 1
                    sub.record(n, f['f'], fired)
                    if f['f'] in ('missing', 'unknown') and not isinstance(err, lib.CalculatorException):
                        raise Violation('missing-feature-not-reported', call=call['names'], fault=f, raised=type(err).__name__, message=str(err))
                    after = self.behaviour(sub, c, plan, call['texts'])
                    if before != after:
                        raise Violation('failed-install-changed-the-calculator', call=call['names'], fault=f, differs={
                            k: difference(v, after['inventory'].get(k)) for k, v in before['inventory'].items() if after['inventory'].get(k) != v} or
                            [[t, x, y] for t, x, y in zip(call['texts'], before['seen'], after['seen']) if x != y])
                    for t in call.get('between', ()):
                        lib.outcome(c, t, {'stateless': True} if hasattr(c, 'vars') else None)
                else:
                    names = list(call['names'])
                    if call.get('reorder') is not None:
                        import random
                        random.Random(call['reorder']).shuffle(names)
                    if call['skip']:
                        names.insert(len(names) // 2, 'zz.nosuch')
                    c.install_features(names, skipMissing=call['skip']) if len(names) != 1 or call['skip'] else c.install_features(names[0])
                    if call.get('faults'):
                        sub.stats['retried-ok'] += 1
            for _, u in todo:
                self.use(c, u, w)
            if len(plan['calls']) > 1:
                sub.stats['grouped'] += 1
            named = [n for k in plan['calls'] for n in k['call']['names']]
            if len(named) > len(set(named)):
                sub.stats['again'] += 1
            if not any('faults' in k['call'] for k in plan['calls']):
                self.hints(c, log, plan)
            return {'b': self.behaviour(sub, c, plan), 'sig': sub.sig, 'installed-once': once(log, plan)}

    def attempt(self, c, names, f, sub, w):
        """One call under a fault: did it fire, and what came out."""
        undo = lambda: None
        fired = [False]
        names = list(names)
        if f['f'] == 'missing':
            names.insert(min(f['at'], len(names)), f['name'])
            fired[0] = True
        elif f['f'] == 'unknown':
            cls = c.feature_list.pop(f['feature'])
            fired[0] = None
            undo = lambda: c.feature_list.__setitem__(f['feature'], cls)
        elif f['f'] == 'raise':
            cls = c.feature_list[f['feature']]

            def install(kls, calculator):
                if f['when'] == 'after':
                    cls.install(calculator)
                fired[0] = True
                w.note('fault:install-%s:%s' % (f['when'], f['kind']), f['feature'])
                raise W.make_exception(f['kind'])
            c.feature_list[f['feature']] = type('Failing', (cls,), {'install': classmethod(install)})
            undo = lambda: c.feature_list.__setitem__(f['feature'], cls)
        err = None
        try:
            if f['f'] == 'step':
                with Steps(f['n'], f['kind'], fired):
                    c.install_features(names)
            else:
                c.install_features(names)
        except W.Discard:
            raise
        except BaseException as e:
            err = e
        finally:
            undo()
        if f['f'] == 'step' and fired[0]:
            w.note('fault:line:%s' % f['kind'])
        if f['f'] == 'step' and fired[0] and err is None:
            return False, None
        if fired[0] is None:
            fired[0] = err is not None
        if err is not None and not fired[0]:
            raise Violation('install-failed', names=names, raised=type(err).__name__, message=lib.safe_str(err))
        if f['f'] == 'missing' and err is None:
            raise Violation('missing-feature-not-reported', call=names, fault=f)
        return fired[0], err

    def hints(self, c, log, plan):
        """Every generated feature saw what it depends on, and what it asked to follow if that was asked for; nothing else is installed."""
        asked = closure(plan['names'], relations(plan['own']))
        if c.installed_features != set(asked):
            raise Violation('installed-other-features', lacking=sorted(set(asked) - c.installed_features), unasked=sorted(c.installed_features - set(asked)))
        for f, installed in log:
            missing = [d for d in f['deps'] if d not in installed]
            late = [a for a in f['after'] if a not in installed and a in asked]
            if missing or late:
                raise Violation('installed-before-what-it-needs' if missing else 'installed-before-what-it-follows', feature=f, missing=missing, late=late)

    def valid(self, plan):
        rel = relations(plan['own'])
        calls = [k['call'] for k in plan['calls']]
        return ({n for c in calls for n in c['names']} == set(plan['names']) and not any(d not in rel for n in rel for d in rel[n]['deps'] + rel[n]['subs'])
                and all(n in rel for n in plan['names']) and len(legal(calls, rel)) == len(calls)
                and all(f.get('feature', 'units.units') in rel for c in calls for f in c.get('faults', ())) and all(c['names'] for c in calls))

    def run(self, plan, run):
        if not self.valid(plan):
            raise Discard()
        a = run.fork(self.plain, plan)
        b = run.fork(self.other, plan)
        run.sig.append(b['sig'])
        run.nontrivial = [sorted(plan['names'])] != [k['call']['names'] for k in plan['calls']]
        calls = [k['call'] for k in plan['calls']]
        if a['inventory'] != b['b']['inventory']:
            diff = {k: difference(v, b['b']['inventory'].get(k)) for k, v in a['inventory'].items() if b['b']['inventory'].get(k) != v}
            raise Violation('configuration-depends-on-installation', calls=calls, differs=diff)
        for t, x, y in zip(plan['texts'], a['seen'], b['b']['seen']):
            if x != y:
                raise Violation('response-depends-on-installation', text=t, calls=calls, sorted=x, other=y)
        if b['installed-once']:
            raise Violation('installed-again', features=b['installed-once'], calls=calls)


def difference(x, y):
    if isinstance(x, list) and isinstance(y, list) and [e for e in x if e not in y] + [e for e in y if e not in x]:
        return [[e for e in x if e not in y][:20], [e for e in y if e not in x][:20]]
    return [x, y]


class Steps:
    """Raises at the n-th line the library executes."""

    def __init__(self, n, kind, fired):
        self.left, self.kind, self.fired = n, kind, fired
        self.base = lib.REPO + '/modularcalculator/'

    def __enter__(self):
        def local(frame, event, arg):
            if event == 'line' and not self.fired[0]:
                self.left -= 1
                if self.left <= 0:
                    self.fired[0] = True
                    raise W.make_exception(self.kind)
            return local
        self.old = sys.gettrace()
        sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(self.base) else None)

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


_known = []


def known():
    """The features there are, and their ordering hints."""
    if not _known:
        lib.load()
        feats = lib.ModularCalculator().list_features()
        from modularcalculator.features.feature import MetaFeature
        _known.append(sorted(feats))
        _known.append({k: {'deps': list(f.dependencies()), 'after': list(f.after()), 'subs': list(f.subfeatures()) if issubclass(f, MetaFeature) else []}
                       for k, f in feats.items()})
    return _known[0], _known[1]


def presets():
    return lib.ModularCalculator().preset_list


def relations(own):
    rel = dict(known()[1])
    for f in own:
        rel[f['id']] = {'deps': f['deps'], 'after': f['after'], 'subs': f['subs'] or []}
    return rel


def closure(names, rel):
    out, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += rel[n]['deps'] + rel[n]['subs']
    return out


def rel_names(names, own):
    return sorted(closure(names, relations(own)))


def legal(calls, rel):
    """Merge calls until no feature is installed by a call before the one that brings a feature it is to follow."""
    while True:
        seen = [closure(c['names'], rel) for c in calls]
        for i in range(len(calls)):
            later = set().union(*seen[i + 1:]) - set().union(*seen[:i + 1])
            if any(a in later for n in seen[i] for a in rel[n]['after']):
                calls = calls[:i] + [{'names': calls[i]['names'] + calls[i + 1]['names']}] + calls[i + 2:]
                break
        else:
            return calls


def own_feature(f, log):
    from modularcalculator.features.feature import Feature, MetaFeature

    def install(cls, calculator):
        log.append([f, sorted(calculator.installed_features)])
        if f['subs'] is not None:
            MetaFeature.install.__func__(cls, calculator)
        elif 'structure.functions' in f['deps']:
            n = f['id'][-1]

            def fn(calc, vals, units, refs, flags):
                return lib.result_of(vals[0] + lib.Number(int(n)))
            lib.add_function(calculator, 'zz' + n, fn, 1, 1, ['number'])
    body = {'id': lambda: f['id'], 'category': lambda: 'Sim', 'title': lambda: f['id'], 'desc': lambda: '', 'dependencies': lambda: list(f['deps']), 'after': lambda: list(f['after'])}
    if f['subs'] is not None:
        body['subfeatures'] = lambda: list(f['subs'])
    body['install'] = classmethod(install)
    if f['subs'] is not None:
        return type('Own', (MetaFeature,), body)
    return type('Own', (Feature,), body)


def once(log, plan):
    """Generated features that were installed more than once though none of the calls failed."""
    if any('faults' in k['call'] for k in plan['calls']):
        return []
    ids = [e[0]['id'] for e in log]
    return sorted({i for i in ids if ids.count(i) > 1})


PROP = C15()
