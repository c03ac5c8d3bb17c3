#!/opt/venv/bin/python
"""Deterministic simulation checks for eprempy.

    check.py PROPERTY            run the check of one property
    check.py replay FILE         repeat a reported violation exactly
    check.py selftest [N] [P..]  prove that runs are repeatable
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import engine


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    cmd = argv[0]
    if cmd == 'worker':
        return engine.worker(argv[1], argv[2], int(argv[3]), int(argv[4]), argv[5])
    if cmd == 'minimise':
        return engine.cmd_minimise(argv[1], argv[2])
    if cmd == 'setup':
        return engine.setup()
    if cmd == 'replay':
        return engine.cmd_replay(argv[1])
    if cmd == 'trace':
        return engine.trace(argv[1], int(argv[2]))
    if cmd == 'selftest':
        from dst import families
        count = int(argv[1]) if len(argv) > 1 else 40
        return engine.selftest(argv[2:] or sorted(families.PROPS), count)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return engine.check(cmd, tier if tier in ('quick', 'thorough') else 'quick', seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
