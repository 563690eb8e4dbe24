#!/usr/bin/env python3
"""check.py C01: decides one property from the sources in /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import common, registry

if __name__ == '__main__':
    if sys.argv[1:2] == ['--setup']:
        import facts
        for u in ('repo', 'probe'):
            try:
                print(facts.facts(u))
            except facts.BuildFailure as e:
                print(e)
        sys.exit(0)
    rc = 0
    for pid in sys.argv[1:]:
        rc |= common.main(pid, registry.TABLE)
    sys.exit(rc)
