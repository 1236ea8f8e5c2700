#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
import checks

if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in checks.CHECKS:
        print("usage: check.py <property>")
        sys.exit(2)
    level, body = checks.CHECKS[sys.argv[1]][:2]
    sys.exit(vf.main(sys.argv[1], level, body))
