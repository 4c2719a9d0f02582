"""C16: importing a feature file is all-or-nothing and loads the file that was named, as it is now."""
import os
import sys
import warnings

from .. import lib
from .. import world as W
from ..runner import Prop, Violation, Discard

NAMES = ['feat', 'feat', 'myfeature', 'random', 'string', 'json', 'colorsys', 'statistics', 'strings', 'units', 'numbers', 'feature', 'modularcalculator', 'with-dash', 'with space',
         'a.b', '2nd', 'Ünicode', '__init__', 'sim']
DIRS = ['', 'd0', 'd1', 'd1/sub', 'd 2']
PROBES = ['1 + 2 * 3', "upper('abc')", '5 m to feet', "'abc' =~ 'b'", 'mean([1, 2, 6])', "date('2000-01-02')", '@{PARAM1 * 2}(4)', 'sqrt(2)', '1 / 0', '0x1F + 0b1']
BREAKS = ['syntax', 'syntax-early', 'raise', 'raise-early', 'name', 'import', 'bytes', 'nul', 'exit', 'interrupt', 'cut', 'empty', 'indent', 'memory', 'recursion']


def render(spec, version):
    """The source of a feature file."""
    out = []
    if spec.get('cookie'):
        out.append('# -*- coding: utf-8 -*-')
    out += ['from modularcalculator.features.feature import Feature, MetaFeature',
            'from modularcalculator.features.structure.functions import FunctionDefinition',
            'from modularcalculator.objects.number import Number',
            'from modularcalculator.objects.operators import OperationResult']
    brk = spec.get('broken')
    if brk == 'raise-early':
        out.append("raise RuntimeError('broken')")
    if brk == 'syntax-early':
        out.append('def (')
    if spec.get('std'):
        out += ['import random, string, json, statistics', "LETTERS = string.ascii_lowercase + json.dumps(random.Random(1).random() < 2) + str(statistics.mean([1, 2]))", 'import colorsys', 'LIGHT = colorsys.rgb_to_hls(1, 1, 1)']
    if spec.get('helper'):
        out.append('from zzhelper_%s import BASE' % spec['helper'])
    mid = len(spec['features']) // 2
    for n, f in enumerate(spec['features']):
        if n == mid and brk in ('raise', 'name', 'import', 'exit', 'interrupt', 'memory', 'recursion'):
            out.append({'raise': "raise ValueError('broken')", 'name': 'no_such_name', 'import': 'import zz_no_such_module', 'exit': 'raise SystemExit(1)', 'memory': 'raise MemoryError()',
                        'interrupt': 'raise KeyboardInterrupt()', 'recursion': 'def f():\n    f()\nf()'}[brk])
        base = 'Base%s' % f if spec.get('abstract') else 'Feature'
        if spec.get('abstract'):
            out += ['class %s(Feature):' % base, '    def category():', "        return 'Sim'", '    def after():', '        return []']
        out += ['class %s%s(%s):' % (spec.get('class', 'Z'), f, base),
                '    def id():', "        return 'zz.%s'" % f,
                '    def title():', "        return '%s v%d'" % (f, version),
                '    def category():', "        return 'Sim'",
                '    def desc():', "        return ''",
                '    def dependencies():', "        return ['structure.functions', 'numerical.decimalnumbers']",
                '    @classmethod', '    def install(cls, calculator):',
                "        calculator.funcs['z%s'] = FunctionDefinition('Sim', 'z%s', '', [], cls.value, 0, 0)" % (f, f),
                '    def value(self, vals, units, refs, flags):', "        return OperationResult(Number('%d'))" % version]
    if spec.get('meta') and spec['features']:
        out += ['class ZMeta(MetaFeature):', '    def id():', "        return 'zz.meta'", '    def title():', "        return 'meta v%d'" % version, '    def category():', "        return 'Sim'",
                '    def desc():', "        return ''", '    def dependencies():', '        return []', '    def subfeatures():', '        return %r' % ['zz.' + f for f in spec['features']]]
    if brk == 'syntax':
        out.append('class Unfinished(Feature')
    if brk == 'indent':
        out.append('   x = 1')
    text = '\n'.join(out) + '\n'
    text += '#' * max(0, spec.get('pad', 0) - len(text.encode()))
    data = text.encode()
    if brk == 'bytes':
        data += b'\nX = "\xff\xfe"\n'
    if brk == 'nul':
        data += b'\nX = "\0"\n'
    if brk == 'empty':
        data = b''
    if brk == 'cut':
        data = data[:int(len(data) * spec['cut'])]
    return data


class C16(Prop):
    id = 'C16'
    rule = ('two calculators and one scratch directory of feature files whose base names coincide with each other and with modules; a seeded history rewrites files (whole, broken in many '
            'ways, cut short, same size and time, replaced, deleted, made directories), imports them with I/O faults at open, read and close, files replaced while being read, and '
            'interruptions at any line of the importer and of the file, and installs and uses what was imported; non-trivial: at least one import failed and one succeeded')
    measure = 'hash of the operations with the kinds of breakage, faults and outcomes'
    must_reach = ('import-ok', 'import-failed', 'fault-fired', 'same-name-other-dir', 'module-name', 'repaired', 'unchanged-stat', 'used')
    runs = {'quick': 20000, 'thorough': 150000}

    def gen(self, rng, i, tier):
        names = [rng.choice(NAMES) for _ in range(rng.choice([1, 2, 3]))]
        files = sorted({(rng.choice(DIRS) + '/' + rng.choice(names)).lstrip('/') + '.py' for _ in range(rng.choice([1, 2, 3, 4]))})
        ops = []
        for _ in range(rng.randint(4, 14)):
            k = rng.random()
            f = rng.choice(files)
            if k < 0.35 or not ops:
                ops.append(self.write(rng, f))
            elif k < 0.85:
                op = {'k': 'import', 'file': f, 'calc': rng.choice([0, 0, 1]), 'path': rng.choice(['abs', 'abs', 'rel', 'dotted'])}
                if rng.random() < 0.35:
                    op['fault'] = self.fault(rng, f)
                ops.append(op)
                if rng.random() < 0.4:
                    # broken, tried, repaired, tried again
                    ops.append(self.write(rng, f))
                    ops.append(dict({k: v for k, v in op.items() if k != 'fault'}))
            else:
                ops.append({'k': 'install', 'calc': rng.choice([0, 0, 1]), 'id': rng.choice(['zz.a', 'zz.b', 'zz.c', 'zz.meta'])})
        return {'ops': ops}

    def write(self, rng, f):
        spec = {'features': rng.sample(['a', 'b', 'c', 'd'], rng.choice([0, 1, 1, 2, 3])), 'meta': rng.random() < 0.2, 'std': rng.random() < 0.3, 'abstract': rng.random() < 0.15,
                'cookie': rng.random() < 0.1, 'class': rng.choice(['Z', 'Z', 'Z', '_Z', '__z', 'z_', 'Übung', 'Feature_', 'A', '_'])}
        if rng.random() < 0.3:
            spec['broken'] = rng.choice(BREAKS)
            spec['cut'] = rng.random()
        elif rng.random() < 0.15:
            spec['helper'] = 'x'
        if rng.random() < 0.6:
            spec['pad'] = 6000
        return {'k': 'write', 'file': f, 'spec': spec, 'how': rng.choice(['inplace', 'inplace', 'replace', 'symlink', 'delete', 'dir'] if rng.random() < 0.3 else ['inplace', 'replace']),
                'mtime': rng.choice([None, 1_600_000_000, 1_600_000_000])}

    def fault(self, rng, f):
        k = rng.random()
        if k < 0.25:
            return {'f': 'io', 'point': rng.choice(['open', 'read', 'close']), 'n': rng.choice([0, 0, 1]), 'kind': rng.choice(W.IO_ERRORS + ['MemoryError'] + W.INTERRUPTS)}
        if k < 0.4:
            return {'f': 'io', 'point': 'read', 'n': rng.choice([0, 1, 2]), 'kind': rng.choice(['short', 'EINTR']), 'len': rng.randint(1, 3000)}
        if k < 0.55:
            return {'f': 'replace', 'point': rng.choice(['open', 'read', 'read', 'close']), 'n': rng.choice([0, 1]), 'op': dict(self.write(rng, f), how='replace')}
        return {'f': 'step', 'n': int(10 ** rng.uniform(0, 2.4)), 'kind': rng.choice(W.INTERRUPTS + ['MemoryError', 'RuntimeError', 'OSError'])}

    def expected(self, data):
        """What a file of these contents defines: id -> title; None if it cannot be loaded."""
        src = data.replace(b'from zzhelper_x import BASE', b'').replace(b'import colorsys\nLIGHT = colorsys.rgb_to_hls(1, 1, 1)', b'')
        ns = {'__name__': 'zz_model', '__file__': 'model'}
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                exec(compile(src, 'model', 'exec'), ns)
        except BaseException:
            return None
        from modularcalculator.features.feature import Feature
        out = {}
        for k in sorted(ns):
            v = ns[k]
            if isinstance(v, type) and issubclass(v, Feature):
                try:
                    out[v.id()] = title(v)
                except Exception:
                    pass
        return {k: v for k, v in out.items() if isinstance(k, str)}

    def run(self, plan, run):
        sys.dont_write_bytecode = False
        w = run.world({'budget': 30_000_000, 'buffer_size': 4096})
        with w:
            self.history(plan, run, w)

    def history(self, plan, run, w):
        calcs = [lib.take(), lib.take()]
        lists = [dict(c.list_features()) for c in calcs]            # what each calculator is to know
        base = [titles(x) for x in lists]
        installed = [{}, {}]
        probes = [[lib.outcome(c, t)[0] for t in PROBES] for c in calcs]
        files, version, tried, failed, stat = {}, 0, {}, set(), {}
        shape = []
        ok = bad = 0
        for d in DIRS:
            w.write_file((d + '/zzhelper_x.py').lstrip('/'), 'BASE = 1\n')
        for n, op in enumerate(plan['ops']):
            if op['k'] == 'write':
                version += 1
                data = render(op['spec'], version)
                self.put(w, op, data)
                files[op['file']] = data if op['how'] not in ('delete', 'dir') else None
                shape.append(['write', op['how'], op['spec'].get('broken')])
                continue
            c = calcs[op['calc']]
            if op['k'] == 'install':
                self.install(run, c, op, lists[op['calc']], installed[op['calc']], n)
                shape.append('install')
            else:
                name = op['file']
                want = [self.expected(files[name]) if files.get(name) is not None else None]
                f = op.get('fault')
                w.begin_op()
                steps = None
                if f is not None:
                    if f['f'] == 'io':
                        w.begin_op([{k: v for k, v in f.items() if k != 'f'}])
                    elif f['f'] == 'replace':
                        version += 1
                        data = render(f['op']['spec'], version)
                        w.begin_op([{'point': f['point'], 'n': f['n'], 'kind': 'rewrite', 'file': name, 'content': data.decode('utf-8', 'surrogateescape'), 'how': 'replace', 'mtime': f['op']['mtime']}])
                    else:
                        steps = [False, f]
                path = {'abs': w.path(name), 'rel': name, 'dotted': os.path.join(w.root, '.', name)}[op['path']]
                modules = {m: sys.modules.get(m) for m in ('random', 'string', 'json', 'statistics', 'modularcalculator')}
                ids = err = None
                fired = False
                try:
                    if steps:
                        with FileSteps(f['n'], f['kind'], w.root) as tr:
                            ids = c.import_feature_file(path)
                    else:
                        ids = c.import_feature_file(path)
                except W.Discard:
                    raise
                except BaseException as e:
                    err = e
                fired = [x['kind'] for x in w.fired_now] + ([f['kind']] if steps and tr.fired else [])
                w.armed = []
                if steps and tr.fired:
                    w.note('fault:line:' + f['kind'])
                if 'rewrite' in fired:
                    files[name] = data
                    want.append(self.expected(data))
                if any(k not in ('short', 'EINTR', 'rewrite') for k in fired):
                    want.append(None)
                run.stats['fault-fired'] += bool(fired)
                before = lists[op['calc']]
                after = c.list_features()
                ctx = dict(op=n, file=name, calculator=op['calc'], fired=fired, raised=type(err).__name__ if err is not None else None, message=lib.scrub(lib.safe_str(err)) if err else None,
                           defines=want)
                changed = {k: title(v) for k, v in after.items() if before.get(k) is not v}
                gone = sorted(set(before) - set(after))
                run.record(n, name, ctx['raised'], changed)
                if gone:
                    raise Violation('features-lost', gone=gone, **ctx)
                if err is not None:
                    bad += 1
                    run.stats['import-failed'] += 1
                    failed.add(name)
                    # interrupted once it had been run, it may be known already: all of it or nothing
                    if changed and not (steps and tr.fired and changed in want):
                        raise Violation('failed-import-made-features-available', features=changed, **ctx)
                    if None not in want:
                        raise Violation('import-failed', **ctx)
                    lists[op['calc']] = dict(after)
                else:
                    if changed not in [x or {} for x in want]:
                        raise Violation('other-features-available', features=changed, **ctx)
                    if sorted(ids or []) != sorted(changed):
                        raise Violation('returned-other-features', returned=ids, features=changed, **ctx)
                    if changed or {} in want:
                        ok += 1
                        run.stats['import-ok'] += 1
                        run.stats['repaired'] += name in failed
                        failed.discard(name)
                    twin = [k for k in tried if k != name and os.path.basename(k) == os.path.basename(name)]
                    run.stats['same-name-other-dir'] += bool(twin and changed)
                    run.stats['module-name'] += bool(changed) and os.path.basename(name)[:-3] in ('random', 'string', 'json', 'statistics', 'colorsys')
                    st = os.stat(path) if os.path.exists(path) else None
                    sig = (st.st_size, st.st_mtime) if st else None
                    if changed and stat.get(name, (None, None))[0] == sig and stat[name][1] != files[name]:
                        run.stats['unchanged-stat'] += 1
                    stat[name] = (sig, files[name])
                    tried[name] = True
                    lists[op['calc']] = dict(after)
                for m, v in modules.items():
                    if v is not None and sys.modules.get(m) is not v:
                        raise Violation('module-replaced', module=m, **ctx)
                shape.append(['import', sorted(fired), ctx['raised'], len(changed)])
            for k, x in enumerate(calcs):
                if titles(x.list_features()) != titles(lists[k]):
                    raise Violation('other-calculator-affected', op=n, calculator=k)
                now = [lib.outcome(x, t)[0] for t in PROBES]
                if now != probes[k]:
                    raise Violation('calculator-no-longer-works', op=op, calculator=k, differs=[[t, a, b] for t, a, b in zip(PROBES, probes[k], now) if a != b])
        fresh = lib.ModularCalculator('Computing')
        if titles(fresh.list_features()) != base[0]:
            raise Violation('new-calculator-affected', features=sorted(set(fresh.list_features()) ^ set(base[0])))
        now = [lib.outcome(fresh, t)[0] for t in PROBES]
        if now != probes[0]:
            raise Violation('new-calculator-does-not-work', differs=[[t, a, b] for t, a, b in zip(PROBES, probes[0], now) if a != b])
        run.sig.append(shape)
        run.nontrivial = ok > 0 and bad > 0

    def put(self, w, op, data):
        w.write_file(op['file'], data.decode('utf-8', 'surrogateescape'), op['how'], op['mtime'])

    def install(self, run, c, op, known, done, n):
        cls = known.get(op['id'])
        if cls is None or op['id'] in done:
            return
        if op['id'] == 'zz.meta':
            try:
                subs = cls.subfeatures()
            except Exception:
                return                      # its file was cut short before that method
            if any(s not in known for s in subs):
                return
            new = [s for s in subs if s not in done]
        else:
            new = [op['id']]
        if any(title(known[s]) is None for s in new) or title(cls) is None:
            return
        want = {s: title(known[s]) for s in new}
        try:
            c.install_features(op['id'])
        except Exception:
            # A file cut short can lack what an installation needs; that nothing else fails shows in the calculations
            return
        done[op['id']] = True
        for s in new:
            done[s] = True
            d, resp = lib.outcome(c, 'z%s()' % s[-1])
            run.record(n, 'installed', s, d)
            if d.get('results', [{}])[-1].get('value', [0, 0])[1] != want[s].split(' v')[1]:
                if hasattr(known[s], 'value'):
                    raise Violation('feature-works-otherwise', id=s, expected=want[s], outcome=d)
            run.stats['used'] += 1


def title(cls):
    try:
        return cls.title()
    except Exception:
        return None


def titles(features):
    return {k: title(v) for k, v in features.items()}


class FileSteps:
    """Raises at the n-th line of the importer or of the feature file (errors: of the feature file)."""

    def __init__(self, n, kind, root):
        self.left, self.kind, self.fired = n, kind, False
        self.base = lib.REPO + '/modularcalculator/'
        self.root = root + os.sep

    def __enter__(self):
        hide = self.kind not in W.INTERRUPTS

        def local(frame, event, arg):
            if event == 'line' and not self.fired and not (hide and frame.f_code.co_name == 'id'):
                self.left -= 1
                if self.left <= 0:
                    self.fired = True
                    raise W.make_exception(self.kind)
            return local

        def glob(frame, event, arg):
            name = frame.f_code.co_filename
            # errors only while the file runs: a class whose id() fails is not a feature
            if not hide and name.startswith(self.base) or name[:1] != "<" and os.path.abspath(name).startswith(self.root):
                return local
        self.old = sys.gettrace()
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


PROP = C16()
