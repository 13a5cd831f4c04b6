#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]  — decide one property statically."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.registry import CHECKS      # noqa: E402
from sa.report import execute       # noqa: E402


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ids = argv or sorted(CHECKS)
    rc = 0
    for pid in ids:
        fn, level, title = CHECKS[pid]
        rc = max(rc, execute(pid, fn, level, title, tier, seed))
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
