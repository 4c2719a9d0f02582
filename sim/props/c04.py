"""C04: a call of an external function runs exactly what its file holds at that call."""
import os

from .. import lib
from .. import world as W
from ..runner import Prop, Violation, Discard

SIZES = [0, 0, 0, 300, 4095, 4096, 8190, 8191, 8192, 8193, 12000, 16384, 20000, 33000, 66000, 70000, 140000]
ODD = ['\t', '\t', '  ', ' \t ', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\x1a', '\x04', '\x00', '\ufeff', '\u00a0', '\ud7ff', '\U0010ffff']
ODD_NAMES = ['fs', 'fs ', ' fs', 'FS', 'f$HOME', 'f${HOME}x', 'f~', '~f', 'f%s', 'f{0}', 'f \u00e9\u20ac', 'fs.py', 'f*', 'f;g', '#f', 'f' * 120]
NAMES = ['fa', 'fb', 'sub/fa', 'fc']


def version(rng, vid, later):
    v = {'id': vid, 'elems': [rng.randint(1, 9) for _ in range(rng.randint(1, 6))], 'size': rng.choice(SIZES),
         'uni': rng.random() < 0.3, 'tail': rng.choice(['', '\n'])}
    if rng.random() < 0.15:
        v['bad'] = rng.choice(['utf8', 'utf8-end', 'syntax', 'empty', 'fails', 'mark'])
    if later and rng.random() < 0.3:
        v['calls'] = [rng.choice(later)]
    if rng.random() < 0.16:
        v['input'] = rng.choice(['number', 'array'])
        if rng.random() < 0.3:
            v['late'] = rng.choice(['\n', '\n', ' \n\n', '# pad\n'])          # only the first line declares anything
    if rng.random() < 0.3:
        v['act'] = True                 # the body has the hook that lets another program rewrite the file called
    if rng.random() < 0.06:
        v['eol'] = rng.choice(['\r\n', '\r\n', '\r'])
    if rng.random() < 0.12:
        # characters that some ways of reading text take for the ends of lines or of the file
        v['odd'] = [rng.choice(ODD), rng.choice(['string', 'string', 'comment'])]
    return v


def content(v):
    """The bytes of a version of a file."""
    bad = v.get('bad')
    if bad == 'empty':
        return b''
    head = v.get('late', '') + '#INPUT %s\n' % v['input'] if v.get('input') else ''
    head += "probe('s%03d')\nqz = 0\n" % v['id']
    steps = ['qz += %d\n' % e for e in v['elems']]
    for f in v.get('calls', []):
        steps.append("zfn = './%s'\nqz += @zfn(0)\n" % f)
    if v.get('act'):
        steps.append('act(1)\n')
    if v.get('odd'):
        ch, where = v['odd']
        # a string of some length, or a comment that would be a statement were it to end early
        steps.append("qz += length('a%sb%s') - %d\n" % (ch, ch, 2 + 2 * len(ch)) if where == 'string' else '# pad%sqz += 1\n' % ch)
    tail = "probe('e%03d')\nqz + PARAM1 + %d" % (v['id'], 1000 * v['id']) + v['tail']
    if bad == 'syntax':
        tail = 'qz + ) 1\n' + tail
    if bad == 'fails':
        tail = '1/0\n' + tail
    pad = v['size'] - len(head) - len(tail) - sum(len(s) for s in steps)
    out = [head]
    fill = '# \u00e9\u20ac\U0001f600 ' if v.get('uni') else '# pad '
    unit = (fill * 12)[:90]
    per = max(0, pad) // len(steps)
    for i, s in enumerate(steps):
        out.append(s)
        n = per if i < len(steps) - 1 else max(0, pad) - per * (len(steps) - 1)
        while n > 0:
            line = unit[:n - 1] if n <= 90 else unit[:89]
            line = '#' * len(line) if not line.startswith('#') else line
            out.append(line + '\n')
            n -= len(line) + 1
    out.append(tail)
    data = ''.join(out).encode('utf-8').replace(b'\n', v.get('eol', '\n').encode())
    if bad == 'mark':
        # a byte order mark is a character like any other, and not one an expression can begin with
        data = b'\xef\xbb\xbf' + data
    if bad == 'utf8':
        data = data[:len(data) // 2].rsplit(b'\n', 1)[0] + b'\n# \xff\xfe\n' + data[len(data) // 2:].split(b'\n', 1)[-1]
    if bad == 'utf8-end':
        data += b'\n# \xc3'
    return data


class C04(Prop):
    id = 'C04'
    seconds = dict(Prop.seconds, quick=55)
    rule = ('histories of rewriting function files (in place, by replacement, through a link, same size and time stamp, deleted, turned into a '
            'directory, undecodable) and calling them from one or two calculators, at top level, nested, per element, and with rewrites inside a '
            'calculation, with open/read/close errors, short reads, EINTR and interruptions; non-trivial: a file was called in at least two versions')
    measure = 'hash of (how files changed, size class, fault point and kind, how calls ended)'
    must_reach = ('call:ok', 'call:error', 'fault:open', 'fault:read', 'changed-between-calls', 'same-size', 'bad:utf8', 'rewrite-in-calc', 'rewrite-in-array', 'call:interrupt')
    runs = {'quick': 20000, 'thorough': 300000}

    def setup(self):
        lib.prebuild('Computing', 2)

    def gen(self, rng, i, tier):
        ops = []
        vid = 0
        same = rng.random() < 0.5          # all versions alike in size and time stamp
        template = None
        current = {}
        names = NAMES if rng.random() < 0.8 else rng.sample(ODD_NAMES, rng.choice([2, 3, 4]))
        for _ in range(rng.randint(4, 14)):
            k = rng.random()
            if k < 0.45 or not current:
                name = rng.choice(names)
                vid += 1
                later = [n for n in names[names.index(name) + 1:] if '/' not in n]
                if name == 'sub/fa':
                    later = []
                v = version(rng, vid, later)
                if same and template is not None and rng.random() < 0.8:
                    v = dict(template, id=vid, elems=[rng.randint(1, 9) for _ in template['elems']])
                    if name != v.get('_for', name):
                        v.pop('calls', None)
                elif same and 'bad' not in v and 'calls' not in v:
                    template = dict(v)
                op = {'op': 'write', 'name': name, 'v': v, 'how': rng.choice(['inplace', 'inplace', 'replace', 'symlink']),
                      'mtime': 1_000_000_000 if same else rng.choice([None, 1_000_000_000, 2_000_000_000 - vid])}
                if rng.random() < 0.08:
                    op['how'] = rng.choice(['delete', 'dir'])
                current[name] = True
                ops.append(op)
            else:
                op = {'op': 'call', 'calc': int(rng.random() < 0.2), 'shape': rng.choice(['plain', 'plain', 'plain', 'arr', 'two', 'between', 'stored', 'inner', 'ptrs', 'twice', 'twice']),
                      'name': rng.choice(sorted(current)), 'tilde': rng.random() < 0.15, 'chdir': rng.random() < 0.15}
                if op['shape'] == 'twice':
                    op['name2'] = rng.choice(sorted(current) + [None])
                if op['shape'] in ('between', 'twice'):
                    vid += 1
                    op['v'] = version(rng, vid, [])
                    if same and template is not None:
                        op['v'] = dict(template, id=vid, elems=[rng.randint(1, 9) for _ in template['elems']])
                    op['how'] = rng.choice(['inplace', 'replace', 'delete'])
                if op['shape'] == 'ptrs':
                    op['name2'] = rng.choice(sorted(current))
                if rng.random() < 0.4:
                    op['faults'] = [self.fault(rng) for _ in range(rng.choice([1, 1, 2, 4]))]
                    if rng.random() < 0.3:
                        op['faults'] = [{'point': 'read', 'n': n, 'kind': rng.choice(['short', 'short', 'EINTR']), 'len': rng.randint(1, 3000)} for n in range(8)] + op['faults']
                ops.append(op)
        return {'env': {'buffer_size': rng.choice([8192, 8192, 512, 64, 1000])}, 'ops': ops}

    def fault(self, rng):
        k = rng.random()
        if k < 0.2:
            return {'point': 'open', 'n': rng.choice([0, 0, 1]), 'kind': rng.choice(W.IO_ERRORS)}
        if k < 0.55:
            return {'point': 'read', 'n': rng.choice([0, 1, 1, 2, 3, 5, 9]), 'kind': rng.choice(W.IO_ERRORS + ['MemoryError'])}
        if k < 0.7:
            return {'point': 'read', 'n': rng.randint(0, 4), 'kind': rng.choice(['short', 'EINTR']), 'len': rng.randint(1, 5000)}
        if k < 0.8:
            return {'point': 'close', 'n': 0, 'kind': 'EIO'}
        return {'point': rng.choice(['open', 'read', 'read', 'close']), 'n': rng.choice([0, 0, 1, 2]), 'kind': rng.choice(W.INTERRUPTS)}

    # -- reference

    def value(self, disk, name, param, depth=0, whole=False):
        """What a call yields: an int, or None if it fails."""
        v = disk.get(name)
        if v is None or depth > 6:
            return None
        if v.get('input') == 'array' and not v.get('late') and not whole:
            return None
        if v.get('bad'):
            return None
        total = sum(v['elems'])
        for f in v.get('calls', []):
            x = self.value(disk, f, 0, depth + 1)
            if x is None:
                return None
            total += x
        return total + param + 1000 * v['id']

    def run(self, plan, run):
        w = run.world(plan['env'])
        with w:
            calcs = [lib.take(), lib.take()]
            todo = {}
            for i, c in enumerate(calcs):
                lib.add_host_functions(c, w, 'c%d' % i, hooks=lambda k: self.rewrite(w, disk, todo))
            disk, owner = {}, {}
            os.mkdir(w.path('sub'))
            called = {}
            for n, op in enumerate(plan['ops']):
                if op['op'] == 'write':
                    self.write(w, disk, op, run)
                    owner[op['v']['id']] = op['name']
                    run.sig.append(['w', op['how'], op['v']['size'], op['v'].get('bad')])
                    if op['v'].get('bad'):
                        run.stats['bad:' + op['v']['bad']] += 1
                    continue
                v = disk.get(op['name'])
                if v is not None:
                    seen = called.setdefault(op['name'], {})
                    for old in seen.values():
                        if old['id'] != v['id']:
                            run.stats['changed-between-calls'] += 1
                            run.nontrivial = True
                            if len(content(old)) == len(content(v)):
                                run.stats['same-size'] += 1
                            break
                    seen[v['id']] = v
                self.call(run, w, calcs[op['calc']], disk, owner, todo, n, op)

    def write(self, w, disk, op, run=None):
        w.write_file(op['name'], content(op['v']), op['how'], op.get('mtime'))
        if op['how'] in ('delete', 'dir'):
            disk.pop(op['name'], None)
        else:
            disk[op['name']] = op['v']

    def rewrite(self, w, disk, todo):
        op = todo.pop('op', None)
        if op is not None:
            self.write(w, disk, op)

    def call(self, run, w, c, disk, owner, todo, n, op):
        name, shape = op['name'], op['shape']
        here = ''
        if op.get('chdir') and not op.get('tilde'):
            here = 'sub'
            name = 'sub/fa'
            ref = './fa'
            if any(v.get('calls') for v in disk.values()):
                return          # relative names inside function files would mean something else here
        else:
            ref = ('~/' if op.get('tilde') else './') + name
        exp = lambda nm, p: self.value(disk, nm, p)
        text = "zfa = '%s'\n" % ref
        if shape == 'plain':
            text += '@zfa(5)'
            want = [exp(name, 5)]
        elif shape == 'stored':
            text = '@zfs%d(5)' % op['calc'] if 'zfs%d' % op['calc'] in c.vars else "zfs%d = '%s'\n@zfs%d(5)" % (op['calc'], ref, op['calc'])
            held = c.vars['zfs%d' % op['calc']][0] if 'zfs%d' % op['calc'] in c.vars else ref
            if here or held.startswith('./fa') and False:
                return
            name = held[2:]
            if op.get('chdir'):
                return
            want = [exp(name, 5)]
        elif shape == 'arr':
            text += '@zfa([1, 2, 3])'
            v = [self.value(disk, name, p, whole=True) for p in (1, 2, 3)]
            # a file that cannot be read or decoded fails the whole call, one whose body fails gives errors as elements
            want = [v]
        elif shape == 'two':
            text += '@zfa(5)\n@zfa(6)'
            want = [exp(name, 5), exp(name, 6)]
        elif shape == 'inner':
            text += '@zfa(@zfa(1)) + 0'
            a = exp(name, 1)
            want = [None if a is None else exp(name, a)]
        elif shape == 'ptrs':
            if here:
                return
            text = "zfa = ['%s', './%s']\n@zfa(5)" % (ref, op['name2'])
            want = [[exp(name, 5), exp(op['name2'], 5)]]
        elif shape == 'twice':
            # the same file in an array of functions more than once, rewritten while its first call runs
            v = disk.get(name)
            if here or v is None or v.get('bad') or v.get('calls'):
                return
            mid = [op['name2']] if op.get('name2') and op['name2'] != name else []
            if mid and disk.get(op['name2'], {}).get('calls'):
                return
            text = "zfa = [%s]\n@zfa(5)" % ', '.join("'%s'" % x for x in [ref] + ['./' + x for x in mid] + [ref])
            want = [exp(name, 5)]
            after = dict(disk)
            if v.get('act'):
                todo['op'] = {'name': name, 'v': op['v'], 'how': op['how'], 'mtime': 1_000_000_000}
                owner[op['v']['id']] = name
                run.stats['rewrite-in-array'] += 1
                if op['how'] == 'delete':
                    after.pop(name, None)
                else:
                    after[name] = op['v']
            want = [want + [self.value(after, x, 5) for x in mid + [name]]]
        else:
            todo['op'] = {'name': name, 'v': op['v'], 'how': op['how'], 'mtime': 1_000_000_000}
            owner[op['v']['id']] = name
            text += '@zfa(5)\nact(1)\n@zfa(6)'
            first = exp(name, 5)
            after = dict(disk)
            if op['how'] == 'delete':
                after.pop(name, None)
            else:
                after[name] = op['v']
            want = [first, 'act', self.value(after, name, 6) if first is not None else None]
            run.stats['rewrite-in-calc'] += 1
        before_files = self.listing(w)
        start = len(w.events)
        if here:
            os.chdir(w.path(here))
        w.begin_op(op.get('faults', []))
        err = resp = None
        how = 'ok'
        try:
            resp = lib.call(c, text)
        except lib.CalculatingException as e:
            err, how = e, 'error'
            resp = e.response if e.has_response() else None
        except Exception as e:
            err, how = e, 'leak'
        except BaseException as e:
            err, how = e, 'interrupt'
        open_now = sorted(w.handles.values())        # while the exception, with its frames, is still there
        fired = list(w.fired_now)
        w.end_op()
        os.chdir(w.root)
        todo.pop('op', None)
        err_name = type(err).__name__
        message = lib.scrub(lib.safe_str(getattr(err, 'message', err))) if err is not None else None
        err = None
        got = [lib.canon(r.value, c) for r in resp.results if r.has_result()] if resp is not None else []
        run.stats['call:' + how] += 1
        run.sig.append([shape, [(f['point'], f['kind']) for f in fired], how, [x is None for x in want]])
        ctx = dict(op=n, text=text, faults=fired, ended=how, message=message)
        run.record(n, text, how, message, got)
        if how == 'leak':
            raise Violation('not-a-calculation-error', exception=err_name, **ctx)
        if open_now:
            raise Violation('file-left-open', files=open_now, **ctx)
        events = w.events[start:]
        for e in events:
            if e[0] in ('fs-open-write', 'fs-write'):
                raise Violation('file-opened-for-writing', file=e[1], **ctx)
        if shape not in ('between', 'twice'):
            files = self.listing(w)
            if files != before_files:
                raise Violation('files-changed', before=sorted(before_files), after=sorted(files), **ctx)
        # no step of a body whose read failed
        failed = set()
        for e in events:
            if e[0] == 'fs-open':
                failed.discard(e[1])
            elif e[0] == 'fault' and e[1] in ('open', 'read') and e[3] not in ('short', 'EINTR'):
                failed.add(e[4])
            elif e[0] == 'probe' and owner.get(int(e[2][1:])) in failed:
                raise Violation('body-of-unreadable-file-ran', step=e[2], **ctx)
        # a version's last step never runs unless its first did, and every step is of the current version
        if how == 'interrupt':
            if not any(f['kind'] in W.INTERRUPTS for f in fired):
                raise Violation('spurious-interrupt', exception=err_name, **ctx)
            return
        if not text.startswith('@zfs'):
            got = got[1:]                       # the binding of the function variable
        hard = any(f['kind'] not in ('short', 'EINTR') and f['point'] != 'close' for f in fired)
        maybe = any(f['point'] == 'close' for f in fired)
        self.compare(want, got, how, hard, maybe, ctx)

    def compare(self, want, got, how, hard, maybe, ctx):
        saw_error = how == 'error'
        for i, x in enumerate(want):
            if i >= len(got):
                if how != 'error':
                    raise Violation('missing-result', expected=want, got=got, **ctx)
                if not hard and not maybe and not fails(x):
                    raise Violation('call-failed', expected=want, got=got, **ctx)
                break
            g = got[i]
            if x == 'act':
                continue
            if isinstance(x, list):
                if not (isinstance(g, list) and g[0] == 'l' and len(g) - 1 == len(x)):
                    raise Violation('wrong-result', expected=x, got=g, **ctx)
                for a, b in zip(x, g[1:]):
                    saw_error |= self.one(a, b[0], hard, maybe, ctx)
            else:
                saw_error |= self.one(x, g, hard, maybe, ctx)
        if hard and not saw_error:
            raise Violation('read-failure-ignored', expected=want, got=got, **ctx)

    def one(self, want, got, hard, maybe, ctx):
        if isinstance(got, list) and got and got[0] in ('x', 'X'):
            if want is not None and not hard and not maybe:
                raise Violation('call-failed', expected=want, got=got, **ctx)
            return True
        if want is None:
            raise Violation('unreadable-or-failing-file-gave-a-value', got=got, **ctx)
        if not (isinstance(got, list) and got[0] == 'n' and got[1] == str(want) and got[2] == '1'):
            raise Violation('wrong-version-or-part-of-the-file', expected=want, got=got, **ctx)
        return False

    def listing(self, w):
        out = {}
        active, w.active = w.active, False
        try:
            for root, dirs, files in os.walk(w.root):
                for f in files:
                    p = os.path.join(root, f)
                    try:
                        with open(p, 'rb') as fh:
                            out[os.path.relpath(p, w.root)] = hash(fh.read())
                    except OSError:
                        out[os.path.relpath(p, w.root)] = None
        finally:
            w.active = active
        return out


def fails(x):
    return x is None or (isinstance(x, list) and any(fails(e) for e in x))


PROP = C04()
