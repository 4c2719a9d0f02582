#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'C01': 'histories with injected failures against a sequential map model',
    'C02': 'calls with I/O, host, allocation and interruption faults against a scoped reference evaluation',
    'C03': 'calls with failing statements and injected faults against a scoped reference evaluation, with a log of executed steps',
    'C04': 'simulated file system: file versions, short, failing and torn reads, handle accounting',
    'C05': 'interruptions at chosen probes, reads, clock readings and lines; prefix states; continuation against a fresh calculator',
    'C06': 'interleaved and nested use of several calculators against each one alone',
    'C07': 'scheduler-controlled threads (switches at chosen lines) against each thread alone',
    'C08': 'simulated wall clock with jumps, standstill and interruptions',
    'C09': 'simulated monotonic clock with injected delays',
    'C10': 'histories with re-reading of every delivered response, against frozen copies',
    'C11': 'injected failures at every kind of step; partial responses against runs that end there',
    'C12': 'histories of noise (failing, interrupted, unparsable, reconfigured) against a fresh process, and over hash seeds',
    'C13': 'effect log of host functions, files and clocks against the program order',
    'C14': 'stateless calculations with injected faults against frozen state and an ordinary calculation',
    'C15': 'install orders, groupings and failing or interrupted installs with retries against a plain install',
    'C16': 'simulated loading of feature files with failing reads, failing bodies and name collisions',
    'C17': 'a failure injected at one element or operand against the run without it',
    'C18': 'exceptions of every kind injected into host functions, operators and library lines; recursion exhaustion',
    'C25': 'sessions with injected faults under changed process-wide settings against a plain process; the process compared around every calculation',
    'C26': 'calculations nested in host functions at every depth, with injected faults, against a reference that runs statement by statement without nesting',
}

NA = {
    'C19': 'a pure function of the expression: no schedule, clock, I/O, fault or history can influence it, so a simulator has nothing to decide; seeded inputs would be plain property-based testing',
    'C20': 'a pure function of the expression and the unit tables: nothing for a scheduler or fault injector to vary',
    'C21': 'a pure function of the number and its representation: nothing for a scheduler or fault injector to vary',
    'C22': 'a pure function of the expression text: nothing for a scheduler or fault injector to vary',
    'C23': 'a pure function of the expression text: nothing for a scheduler or fault injector to vary',
    'C24': 'a pure function of its arguments (the one reading of a clock, now(), is C08): nothing for a scheduler or fault injector to vary',
}

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'sim', 'props', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': '/opt/venv/bin/python -m sim check %s --tier quick' % pid,
            'thorough_cmd': '/opt/venv/bin/python -m sim check %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'deterministic simulation with fault injection: ' + TECH[pid],
            'level': 'exploration',
            'level_note': 'seeded search over simulated runs of the real code; quiet means no violation in the runs made. '
                          'Trusts CPython, decimal, numpy/scipy and the reference model in /verif/sim; not exhaustive.',
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -m compileall -q sim && /opt/venv/bin/python -c "import numpy, scipy"',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: the clock, file, import and thread seams are reached from outside the library.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
