"""Processes of their own for what cannot be varied within one: the hash seed, another working directory."""
import json
import sys


def main(name):
    from . import lib
    from .runner import Run, load_prop
    lib.load()
    plan = json.load(sys.stdin)
    if name == 'c12':
        prop = load_prop('C12')
        print(json.dumps(prop.plain(Run(), plan), default=str))
        return 0
    raise ValueError(name)
