#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decides one property; check.py --setup   fills the object cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import runner, specs


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        for pid, spec in sorted(specs.SPECS.items()):
            for p in spec['parts']('quick'):
                try:
                    p['build']()
                except Exception as e:
                    print('setup: %s: %s' % (pid, str(e)[-500:]))
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    pid = a[0]
    return runner.run(pid, specs.SPECS[pid], tier, seed)


if __name__ == '__main__':
    sys.exit(main())
