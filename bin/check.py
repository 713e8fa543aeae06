#!/usr/bin/env python3
"""check.py <property>: decides one property for /repo's working tree (VERIF_SEED, VERIF_TIER)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common


def main():
    pid = sys.argv[1]
    from vlib import raft
    if pid in raft.CLAUSES:
        return raft.check(pid)
    from vlib import others
    if pid in others.RUN:
        return others.check(pid)
    raise SystemExit("no check for " + pid)


if __name__ == "__main__":
    sys.exit(main())
