#!/usr/bin/env python3
"""Warms the go build cache by building every driver once, and parses every specification."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import engine
run = engine.Run('setup', {})
import shutil
try:
    for d in sorted(glob.glob(os.path.join(engine.GO, 'cmd', '*'))):
        engine.build(run, os.path.basename(d))
    print('drivers built')
finally:
    shutil.rmtree(run.scratch, ignore_errors=True)
