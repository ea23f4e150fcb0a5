#!/usr/bin/env python3
# -*- coding: utf-8 -*-
""" Run the checks against the planted bugs: python3 tools/recheck.py [ID...]

Each patch of seeded/ is applied to a scratch copy of /repo and the check of its
property is run on that copy.  BUGS.md is rewritten with the result: the rows of
the bugs that were run are replaced, the others are kept. """
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('SEEDED', os.path.join(ROOT, 'seeded'))
TABLE = os.path.join(ROOT, 'BUGS.md')
HEAD = '''# The planted bugs and the checks

Written by tools/recheck.py.  "caught": the quick check of that property, with
its default seed, exits 1 with a VIOLATION line on a copy of /repo with the patch
applied; "missed": it exits 0.  What each bug breaks is in its meta.json.

| bug | check | result | s | what it needs |
|---|---|---|---|---|
'''


def rows():
    out = {}
    if os.path.exists(TABLE):
        for l in open(TABLE, encoding='utf8'):
            m = re.match(r'\| (c\d\d\S+) \|', l)
            if m:
                out[m.group(1)] = l
    return out


def write(r):
    have = set(os.listdir(SEEDED))
    ls = [r[k] for k in sorted(r) if k in have]
    n = sum('| caught |' in l for l in ls)
    with open(TABLE, 'w', encoding='utf8') as f:
        f.write(HEAD + ''.join(ls) + '\n%d of %d caught.\n' % (n, len(ls)))


def main():
    args = sys.argv[1:]
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(SEEDED))
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, 'meta.json'), encoding='utf8'))
        tmp = tempfile.mkdtemp(prefix='recheck-')
        try:
            copy = os.path.join(tmp, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', copy])
            if subprocess.call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=copy):
                print(i, 'BAD does not apply', flush=True)
                continue
            t = time.time()
            p = subprocess.run([sys.executable, os.path.join(ROOT, 'dst', 'run.py'), meta['property'], '--no-evidence'],
                               env=dict(os.environ, DST_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            txt = p.stdout.decode('utf8', 'replace').strip().split('\n')
            s = time.time() - t
            res = {0: 'missed', 1: 'caught'}.get(p.returncode, 'error %d' % p.returncode)
            print(i, meta['property'], res, '%.0f s' % s, ' / '.join(x[:220] for x in (txt[:2] if p.returncode == 1 else txt[-2:])), flush=True)
            if SEEDED != os.path.join(ROOT, 'seeded'):
                continue
            r = rows()
            r[i] = '| %s | %s | %s | %.0f | %s |\n' % (i, meta['property'], res, s, ' '.join(meta['needs'].split()).replace('|', '/'))
            write(r)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
