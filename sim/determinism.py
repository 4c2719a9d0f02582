"""Whether one seed is one execution: the event digests of the same runs in different processes and interpreters."""
import json
import os
import subprocess
import sys

from . import lib, runner


def digests(pid, seed, runs):
    """Print the digest of the event log of each run."""
    prop = runner.load_prop(pid)
    lib.load()
    prop.setup()
    for i in range(runs):
        plan = runner.make_plan(prop, seed, i, 'quick')
        msg = runner.run_isolated(prop, plan)
        print(json.dumps([i, msg['status'], msg.get('digest'), msg.get('sig')]))
    return 0


VARIANTS = [('again', {}, []), ('other load', {}, ['nice', '-n', '19']), ('hash seed 1', {'MCSIM_HASHSEED': '1'}, []),
            ('hash seed 77', {'MCSIM_HASHSEED': '77'}, []), ('one processor', {}, ['taskset', '-c', '0'])]


def compare(pid, seeds, runs):
    """Digests of the same runs made again, under load, on one processor and with other hash seeds."""
    bad = 0
    for seed in range(1, seeds + 1):
        base = None
        for name, env, prefix in [('first', {}, [])] + VARIANTS:
            full = dict(os.environ, **env)
            full.pop('MCSIM_TMP', None)
            p = subprocess.run(prefix + [sys.executable, '-m', 'sim', 'digests', pid, '--seed', str(seed), '--runs', str(runs)],
                               cwd=runner.VERIF, env=full, stdout=subprocess.PIPE, text=True)
            lines = [l for l in p.stdout.split('\n') if l.startswith('[')]
            if base is None:
                base = lines
                continue
            differ = [json.loads(a)[0] for a, b in zip(base, lines) if a != b] + ([] if len(base) == len(lines) else ['count'])
            bad += len(differ)
            print('%s seed %d %-14s %d runs, %d differ %s' % (pid, seed, name, len(lines), len(differ), differ[:8]))
    return 1 if bad else 0
