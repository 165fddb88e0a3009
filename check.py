#!/usr/bin/env python3
"""Decides one property:  check.py PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. exhaustively model-checks the specification (TLC, bounded instances);
2. lets TLC generate behaviours of the specification;
3. builds a driver from /repo's working tree, which replays them (and its own, larger, seeded
   programs, schedules, faults and crash points) against the real code and records a trace;
4. lets TLC decide whether the recorded trace is a behaviour of the specification.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import sys
sys.path.insert(0, __file__.rsplit('/', 1)[0] + '/lib')
from engine import main
from props import PROPS

if __name__ == '__main__':
    main(PROPS, sys.argv[1:])
