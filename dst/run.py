#!/usr/bin/env python3
# -*- coding: utf-8 -*-
""" Entry point of every check: ``python3 dst/run.py C01``.

Exit 0: the property held in every simulated run.  Exit 1: violation (and a
VIOLATION line).  Anything else: the check itself failed. """
import argparse
import atexit
import collections
import hashlib
import importlib.util
import json
import os
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('DST_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
VENVS = {'fast': '/opt/venv/bin/python', 'slow': '/opt/venv-slow/bin/python'}


def build():
    """ The I/O seam. """
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'sim', 'shim.c')
    lib = os.path.join(BUILD, 'libsim.so')
    if not os.path.exists(lib) or os.path.getmtime(lib) < os.path.getmtime(src):
        tmp = lib + '.%d' % os.getpid()
        subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', tmp, src, '-ldl'])
        os.rename(tmp, lib)
    return lib


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(os.path.join(REPO, 'pymorphy2'))):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if f.endswith('.py'):
                with open(os.path.join(base, f), 'rb') as fp:
                    h.update(f.encode() + fp.read())
    return h.hexdigest()[:12]


class Worker(object):
    def __init__(self, prop, tier, seed, venv, lib, pyc, hashseed):
        env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'PYMORPHY2', 'LD_'))}
        env.update(LD_PRELOAD=lib, PYTHONPYCACHEPREFIX=pyc, PYTHONHASHSEED=str(hashseed), DST_REPO=REPO, LC_ALL='C.UTF-8',
                   PYTHONIOENCODING='utf8', TQDM_DISABLE='', DST_LOG=os.path.join(BUILD, 'worker.log'), DST_SCRATCH=scratch())
        self.venv = venv
        self.p = subprocess.Popen([VENVS[venv], '-X', 'utf8', os.path.join(HERE, 'worker.py'), prop, tier, str(seed), venv],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd='/', start_new_session=True)
        self.buf = b''
        self.ready = False
        self.busy = None

    def send(self, obj):
        self.p.stdin.write((json.dumps(obj) + '\n').encode())
        self.p.stdin.flush()

    def lines(self):
        b = os.read(self.p.stdout.fileno(), 1 << 20)
        if not b:
            return None
        self.buf += b
        out = self.buf.split(b'\n')
        self.buf = out.pop()
        return [json.loads(x.decode('utf8')) for x in out]

    def ask(self, obj):
        """ Send and wait for one answer. """
        self.send(obj)
        while True:
            ls = self.lines()
            if ls is None:
                raise SystemError('worker ended')
            for l in ls:
                if 'ready' in l:
                    continue
                if 'error' in l:
                    raise SystemError(l['error'])
                return l

    def stop(self):
        try:
            self.send({'cmd': 'quit'})
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.kill()

    def kill(self):
        """ With the simulated processes it waits for. """
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def scratch():
    """ Removed at the end, whatever becomes of the workers. """
    if not SCRATCH:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        SCRATCH.append(tempfile.mkdtemp(prefix='dst-run-', dir=base))
        atexit.register(shutil.rmtree, SCRATCH[0], True)
    return SCRATCH[0]


SCRATCH = []


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def match_known(known, v):
    for k in known:
        if k.get('kind') == v.get('kind') and k.get('key') and k['key'] == v.get('key'):
            return k
    return None


def load_meta(prop):
    """ Static description of a check (importable without the code under test). """
    spec = importlib.util.spec_from_file_location('checks', os.path.join(HERE, 'checks.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CHECKS[prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--runs', type=int, default=None)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--workers', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--hashseed', type=int, default=0)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--slowest', action='store_true')
    ap.add_argument('--logs', help='write the digest of every run to this file')
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    meta = load_meta(prop)
    t0 = time.time()
    lib = build()
    pyc = os.path.join(BUILD, 'pyc-' + tree_hash())
    if a.replay:
        return replay(a.replay, prop, tier, seed, lib, pyc)

    nw = a.workers or min(8, os.cpu_count() or 4)
    share = meta['venvs']
    total_share = sum(share.values())
    order = [v for v, n in sorted(share.items()) for _ in range(n)]
    total = a.runs or meta['runs'][tier]
    todo = {v: collections.deque() for v in share}
    for i in range(a.first, a.first + total):
        todo[order[i % total_share]].append(i)
    venvs = sorted(share)
    workers = []
    alloc = {v: max(1, round(nw * share[v] / total_share)) for v in venvs}
    while sum(alloc.values()) > nw and max(alloc.values()) > 1:
        alloc[max(venvs, key=lambda x: alloc[x])] -= 1
    for v in venvs:
        for _ in range(alloc[v]):
            workers.append(Worker(prop, tier, seed, v, lib, pyc, a.hashseed))
    sel = selectors.DefaultSelector()
    for w in workers:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    results = {}
    bad = []
    known = known_findings(prop)
    stop = False
    error = None
    setup_violation = None
    chunk = meta.get('chunk', 4)
    cap = meta.get('cap', {}).get(tier, 600 if tier == 'quick' else 5400)
    truncated = False
    live = set(workers)

    def feed(w):
        nonlocal truncated
        if time.time() - t0 > cap:
            truncated = True
        q = todo[w.venv]
        if stop or truncated or not q:
            w.busy = None
            live.discard(w)
            return
        idx = [q.popleft() for _ in range(min(chunk, len(q)))]
        w.busy = idx
        w.send({'cmd': 'run', 'idx': idx})

    stopped = None
    while live and not error:
        if stop and stopped is None:
            stopped = time.time()
        if stopped is not None and time.time() - stopped > 15:
            break               # others may hang; one violation is enough
        for key, _ in sel.select(1):
            w = key.data
            ls = w.lines()
            if ls is None:
                sel.unregister(w.p.stdout)
                if w in live:
                    error = 'a worker ended unexpectedly (status %s)' % w.p.wait()
                continue
            for l in ls:
                if l.get('ready'):
                    feed(w)
                elif 'setup_violation' in l:
                    setup_violation = l['setup_violation']
                    live.discard(w)
                    stop = True
                elif 'error' in l:
                    error = l['error']
                elif 'done' in l:
                    for d in l['done']:
                        d['venv'] = w.venv
                        results[d['idx']] = d
                        v = d['violation']
                        if v and not match_known(known, v):
                            bad.append(d)
                            stop = True
                    feed(w)
    first = min(bad, key=lambda d: d['idx']) if bad else None
    code = 0
    if error:
        print('CHECK FAILED: ' + error, file=sys.stderr)
        code = 3
    elif setup_violation:
        code = 1
        path = save_replay(prop, {'property': prop, 'kind': 'set-up', 'msg': setup_violation, 'setup': True, 'venv': venvs[0], 'seed': seed, 'tier': tier})
        print(setup_violation)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    elif first:
        code = 1
        case = first['case']
        try:
            for x in workers:
                if x in live:
                    x.kill()
            w = next((x for x in workers if x.venv == first['venv'] and x not in live and x.p.poll() is None), None)
            if w is None:
                w = Worker(prop, tier, seed, first['venv'], lib, pyc, a.hashseed)
                workers.append(w)
            if first['violation']['kind'] == 'hang':
                # it did already happen twice; looking for less would take too long
                m = {'stable': True}
            else:
                m = w.ask({'cmd': 'shrink', 'case': case, 'kind': first['violation']['kind'],
                           'tries': meta.get('shrink_tries', 150), 'secs': 100})['shrunk']
        except Exception as e:
            m = {'stable': False, 'note': str(e)}
        final = first
        if m.get('stable') and m.get('violation'):
            final = dict(first, case=m['case'], violation=m['violation'], log=m.get('log'))
        rec = {'property': prop, 'kind': final['violation']['kind'], 'msg': final['violation']['msg'], 'key': final['violation'].get('key'),
               'venv': first['venv'], 'seed': seed, 'tier': tier, 'run': first['idx'], 'case': final['case'], 'log': final.get('log'),
               'original_case': case, 'original_msg': first['violation']['msg'], 'minimised_in': m.get('tries'),
               'reproduced': bool(m.get('stable')), 'tree': tree_hash(), 'note': m.get('note')}
        path = save_replay(prop, rec)
        print('run %d (seed %d, %s backend): %s' % (first['idx'], seed, first['venv'], final['violation']['kind']))
        print(final['violation']['msg'][:3000])
        if not m.get('stable'):
            print('note: the violation did not happen again when the run was repeated')
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for k in known:
        hit = any(d['violation'] and match_known([k], d['violation']) for d in results.values())
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what')))
    for w in workers:
        w.stop()
    wall = time.time() - t0
    if not a.no_evidence:
        evidence(prop, tier, seed, meta, results, wall, bad, truncated, a)
    done = len(results)
    print('%s: %d simulated runs in %.1f s%s, log digest %s' % (
        prop, done, wall, ' (time cap reached)' if truncated else '', log_digest(results)))
    if a.logs:
        with open(a.logs, 'w') as f:
            for i in sorted(results):
                f.write('%d %s %s\n' % (i, results[i]['log'], json.dumps(results[i]['sig'], ensure_ascii=False, default=str)))
    if a.slowest:
        for d in sorted(results.values(), key=lambda d: -d['t'])[:5]:
            print('  run %d took %.2f s' % (d['idx'], d['t']))
        tot = collections.Counter()
        for d in results.values():
            for k, n in d['stats'].items():
                if not k.startswith('max_'):
                    tot[k] += n
        print(dict(sorted(tot.items())))
    return code


def log_digest(results):
    h = hashlib.sha256()
    for i in sorted(results):
        h.update(('%d:%s;' % (i, results[i]['log'])).encode())
    return h.hexdigest()[:16]


def save_replay(prop, rec):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(p, 'w', encoding='utf8') as f:
        json.dump(rec, f, ensure_ascii=False, indent=1)
    return p


def replay(path, prop, tier, seed, lib, pyc):
    rec = json.load(open(path, encoding='utf8'))
    w = Worker(prop, rec.get('tier', tier), rec.get('seed', seed), rec['venv'], lib, pyc, 0)
    try:
        if rec.get('setup'):
            for l in w.lines() or []:
                if 'setup_violation' in l:
                    print(l['setup_violation'])
                    print('VIOLATION property=%s replay=%s' % (prop, path))
                    return 1
            print('not reproduced')
            return 0
        l = w.ask({'cmd': 'case', 'case': rec['case']})
        if 'setup_violation' in l:
            print(l['setup_violation'])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        d = l['done'][0]
        if d['violation']:
            print(d['violation']['kind'])
            print(d['violation']['msg'][:3000])
            print('same as recorded: %s' % (d['violation']['msg'] == rec['msg'] and d['log'] == rec.get('log')))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('not reproduced')
        return 0
    finally:
        w.stop()


def evidence(prop, tier, seed, meta, results, wall, bad, truncated, a):
    stats = collections.Counter()
    sigs = set()
    for d in results.values():
        for k, n in d['stats'].items():
            if k.startswith('max_'):
                stats[k] = max(stats[k], n)
            else:
                stats[k] += n
        if d['nontrivial'] and d['sig'] is not None:
            sigs.add(json.dumps(d['sig'], sort_keys=True))
    samples = [{'run': d['idx'], 'venv': d['venv'], 'case': d['case']} for i, d in sorted(results.items()) if d['case'] is not None][:4]
    for s in samples:
        t = json.dumps(s, ensure_ascii=False)
        if len(t) > 4000:
            s['case'] = t[:4000] + '...'
    runs = len(results)
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(sigs),
        'rule': meta['rule'],
        'samples': samples,
        'simulated_runs': runs,
        'runs_per_hour': round(runs / wall * 3600) if wall else 0,
        'seeds': '%d..%d of VERIF_SEED %d' % (a.first, a.first + max(results or [0]), seed),
        'faults_injected': {k[6:]: n for k, n in sorted(stats.items()) if k.startswith('fault:')},
        'simulated_time_s': round(stats.get('sim_time_ms', 0) / 1000.0, 3),
        'counters': {k: n for k, n in sorted(stats.items()) if not k.startswith('fault:')},
        'real_components': meta['real'],
        'stubbed_components': meta['stub'],
        'venvs': meta['venvs'],
        'log_digest': log_digest(results),
        'time_cap_reached': truncated,
        'tree': tree_hash(),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'], 'coverage': cov,
          'assumptions': meta['assumptions'], 'wall_s': round(wall, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w', encoding='utf8') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    os.rename(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
