#!/usr/bin/env python3
"""check.py <property> | setup | replay <file>

Runs the check of one property. Environment: VERIF_SEED, VERIF_TIER (quick|thorough).
Exit 0: held on everything explored. Exit 1 + "VIOLATION property=.. replay=..": broken. Else: no answer.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import runner, checks, vbuild


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cmd = sys.argv[1]
    try:
        if cmd == 'setup':
            return checks.setup()
        if cmd == 'replay':
            return checks.replay(sys.argv[2], sys.argv[3:])
        if cmd not in checks.CHECKS:
            print('unknown property', cmd)
            return 2
        return runner.run_check(cmd, checks.CHECKS[cmd])
    except vbuild.BuildError as e:
        print('BUILD ERROR', e)
        return 3


sys.exit(main())
