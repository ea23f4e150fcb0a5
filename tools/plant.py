#!/usr/bin/env python3
# -*- coding: utf-8 -*-
""" Confirm planted bugs: python3 tools/plant.py SPEC.py [ID ...] [--keep]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (Python source), needs, breaks, helpers {name: source}.  For each bug a
scratch copy of the repository is changed, built and tested; the demonstration
is run with and without the change; then the property's check is run on the
copy.  Confirmed bugs are written to seeded/<id>/. """
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = None
DEMO_SH = '''#!/bin/sh
# exit 0: fine, anything else: the property is broken.  Run in the repository.
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONIOENCODING=utf8 PYTHONHASHSEED=0 exec %s "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def build_and_test(copy, out):
    """ /opt/vp/build.sh and test.sh, in the copy. """
    env = {k: v for k, v in os.environ.items()}
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    r = {}
    code, txt = sh(['/opt/venv/bin/python', '-m', 'compileall', '-q', 'pymorphy2'], copy, {k: v for k, v in os.environ.items()})
    if code:
        return 'does not compile: ' + txt
    procs = []
    for v in ('venv', 'venv-slow'):
        procs.append(subprocess.Popen(['/opt/%s/bin/python' % v, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--tb=short', '--timeout=300',
                                       '--continue-on-collection-errors', '--doctest-modules', '-o', 'junit_family=xunit2',
                                       '--junitxml=%s/%s.xml' % (out, v), 'pymorphy2', 'tests'], cwd=copy, env=env,
                                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in procs:
        try:
            p.wait(600)
        except subprocess.TimeoutExpired:
            p.kill()
            return 'tests hang'
    code, txt = sh(['/usr/bin/python3', '/opt/vp/results.py', out + '/r.json', 'junit:%s/*.xml' % out])
    res = json.load(open(out + '/r.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return check_results(res, base)


def names(x):
    for k in ('passed', 'stable', 'pass', 'tests'):
        if isinstance(x, dict) and k in x and isinstance(x[k], list):
            return set(x[k])
    raise SystemExit('unknown results format: %s' % list(x)[:5])


def check_results(res, base):
    missing = names(base) - names(res)
    return 'tests fail: %s' % sorted(missing)[:5] if missing else None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('spec')
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--nocheck', action='store_true')
    ap.add_argument('--checks', help='comma separated checks to run instead')
    ap.add_argument('--notest', action='store_true')
    a = ap.parse_args()
    ns = {}
    exec(compile(open(a.spec, encoding='utf8').read(), a.spec, 'exec'), ns)
    for b in ns['BUGS']:
        if a.ids and b['id'] not in a.ids:
            continue
        t0 = time.time()
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            copy = os.path.join(tmp, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', copy])
            err = None
            for f, old, new in b['edits']:
                p = os.path.join(copy, 'pymorphy2', f)
                s = open(p, encoding='utf8').read()
                if s.count(old) != 1:
                    err = 'edit of %s matches %d times: %r' % (f, s.count(old), old[:60])
                    break
                open(p, 'w', encoding='utf8').write(s.replace(old, new))
            if err:
                print(b['id'], 'BAD', err)
                continue
            patch = subprocess.run(['git', 'diff'], cwd=copy, stdout=subprocess.PIPE).stdout
            d = os.path.join(tmp, 'seed')
            os.makedirs(d)
            open(d + '/patch.diff', 'wb').write(patch)
            open(d + '/demo.py', 'w', encoding='utf8').write(b['demo'])
            for n, s in b.get('helpers', {}).items():
                open(os.path.join(d, n), 'w', encoding='utf8').write(s)
            open(d + '/demo.sh', 'w').write(DEMO_SH % b.get('python', '/opt/venv/bin/python'))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), ensure_ascii=False, indent=1)
            good = sh([d + '/demo.sh'], '/repo', timeout=300)
            bad = sh([d + '/demo.sh'], copy, timeout=300)
            if good[0] != 0:
                print(b['id'], 'BAD demo fails on the unchanged tree:', good[1][-800:])
                continue
            if bad[0] == 0:
                print(b['id'], 'BAD demo does not see the change')
                continue
            if not a.notest:
                os.makedirs(tmp + '/out')
                err = build_and_test(copy, tmp + '/out')
                if err:
                    print(b['id'], 'BAD', err)
                    continue
            dst = os.path.join(ROOT, 'seeded', b['id'])
            if os.path.isdir(dst):
                shutil.rmtree(dst)
            shutil.copytree(d, dst)
            line = [b['id'], 'planted (%d s)' % (time.time() - t0), 'demo: ' + bad[1].strip().split('\n')[-1][:150]]
            print(*line, flush=True)
            if not a.nocheck:
                for c in (a.checks or b['property']).split(','):
                    t1 = time.time()
                    env = dict(os.environ, DST_REPO=copy)
                    code, txt = sh([sys.executable, os.path.join(ROOT, 'dst', 'run.py'), c, '--no-evidence'], env=env)
                    ls = txt.strip().split('\n')
                    print('   %s: %s in %.0f s: %s' % (c, {0: 'MISSED', 1: 'caught'}.get(code, 'ERROR %d' % code), time.time() - t1,
                                                     ' / '.join(x[:260] for x in (ls[:2] if code == 1 else ls[-3:]))), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
