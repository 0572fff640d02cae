#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--worker':
        core.worker_main(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6])
        sys.exit(0)
    if a[0] == '--replay-worker':
        core.replay_worker(*a[1:5])
        sys.exit(0)
    sys.exit(core.main(a))
