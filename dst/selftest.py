#!/usr/bin/env python3
# -*- coding: utf-8 -*-
""" Is one seed one execution?  Runs every check several times with different
numbers of workers and hash seeds and compares the digests of everything
observed: ``python3 dst/selftest.py [C01 ...] [--runs N]``. """
import argparse
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks

ap = argparse.ArgumentParser()
ap.add_argument('props', nargs='*')
ap.add_argument('--runs', type=int, default=120)
a = ap.parse_args()
bad = 0
for prop in a.props or sorted(checks.CHECKS):
    got = []
    for workers, hashseed in ((8, 0), (3, 0), (5, 0), (8, 0)):
        p = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), prop, '--runs', str(a.runs), '--workers', str(workers),
                            '--hashseed', str(hashseed), '--no-evidence'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        m = re.search(rb'log digest (\w+)', p.stdout)
        got.append((p.returncode, m.group(1).decode() if m else p.stdout.decode()[-300:]))
    ok = len(set(got)) == 1 and got[0][0] == 0
    bad += not ok
    print(prop, 'same' if ok else 'DIFFERENT', got if not ok else got[0][1], flush=True)
sys.exit(1 if bad else 0)
