import argparse
import os
import shutil
import sys
import tempfile

ENV = {'PYTHONHASHSEED': '0', 'TZ': 'UTC', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8'}


def main():
    ap = argparse.ArgumentParser(prog='sim')
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('property')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    c.add_argument('--runs', type=int)
    c.add_argument('--seconds', type=float)
    c.add_argument('--workers', type=int)
    r = sub.add_parser('replay')
    r.add_argument('file')
    r.add_argument('--quiet', action='store_true')
    r.add_argument('--verbose', action='store_true')
    d = sub.add_parser('determinism')
    d.add_argument('property')
    d.add_argument('--seeds', type=int, default=4)
    d.add_argument('--runs', type=int, default=40)
    x = sub.add_parser('digests')
    x.add_argument('property')
    x.add_argument('--seed', type=int, default=1)
    x.add_argument('--runs', type=int, default=40)
    h = sub.add_parser('helper')
    h.add_argument('name')
    a = ap.parse_args()

    if any(os.environ.get(k) != v for k, v in ENV.items() if k != 'PYTHONHASHSEED') or 'PYTHONHASHSEED' not in os.environ \
            or (os.environ['PYTHONHASHSEED'] != '0' and os.environ.get('MCSIM_HASHSEED') != os.environ['PYTHONHASHSEED']):
        env = dict(os.environ, **ENV)
        if 'MCSIM_HASHSEED' in os.environ:
            env['PYTHONHASHSEED'] = os.environ['MCSIM_HASHSEED']
        os.execve(sys.executable, [sys.executable, '-m', 'sim'] + sys.argv[1:], env)

    sys.setrecursionlimit(3000)
    scratch = None
    if 'MCSIM_TMP' not in os.environ:
        scratch = tempfile.mkdtemp(prefix='mcsim-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        os.environ['MCSIM_TMP'] = scratch
    owner = os.getpid()
    try:
        from . import runner
        if a.cmd == 'check':
            code = runner.check(a.property, a.tier, a.seed, nworkers=a.workers, runs=a.runs, seconds=a.seconds)
        elif a.cmd == 'replay':
            code = runner.replay(os.path.abspath(a.file), a.quiet, a.verbose)
        elif a.cmd == 'digests':
            from . import determinism
            code = determinism.digests(a.property, a.seed, a.runs)
        elif a.cmd == 'determinism':
            from . import determinism
            code = determinism.compare(a.property, a.seeds, a.runs)
        else:
            from . import helpers
            code = helpers.main(a.name)
    finally:
        if scratch is not None and os.getpid() == owner and os.path.basename(scratch).startswith('mcsim-'):
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


main()
