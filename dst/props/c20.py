# -*- coding: utf-8 -*-
""" C20: a process may fork at any moment. """
import os
import pickle
import select
import signal
import sys
import traceback

import core
import ops
from props import common as C
from props.c01 import pick
from sim import sched as S

CFG = [('ru', 26), ('plain', 6), ('bare', 6), ('t-ru', 20), ('t-ru-plain', 5), ('t-uk', 10), ('t-nested', 12), ('t-subst', 6), ('t-shape', 5), ('t-inner', 5)]
STUCK = 'it does not end'
MAKE = ['t-ru', 't-ru', 't-uk', 't-tiny', 't-odd', 't-nested', 't-lang', 't-subst', 't-ru-plain']
FORK_TIMEOUT = 20



def setup(ctx):
    C.init_toy()
    ctx.morphs = {name: C.make(name) for name, _ in CFG}


def gen(rng, idx, ctx):
    cfg = pick(rng, CFG)
    toy = C.toy_of(cfg)
    theme = ops.theme(rng) if rng.random() < 0.6 else None
    kinds = rng.sample([k for k, _ in ops.KINDS], rng.choice([1, 2])) if rng.random() < 0.5 else None
    making = rng.random() < 0.3

    def call(p):
        if making and rng.random() < p:
            c = rng.choice(MAKE)
            return ['make', c, [ops.gen_op(rng, theme, C.toy_of(c)) for _ in range(rng.choice([0, 1]))]]
        return ['?', ops.gen_op(rng, theme, toy, kinds)]
    threads = [[call(0.7) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 1, 2]))]
    flat = [c for t in threads for c in t]
    kids = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        kid = []
        for _ in range(rng.choice([1, 2, 3])):
            kid.append(rng.choice(flat) if rng.random() < 0.7 else call(0.5))
        if making and rng.random() < 0.8:
            c = rng.choice(MAKE)
            kid.insert(rng.randrange(len(kid) + 1), ['make', c, [ops.gen_op(rng, theme, C.toy_of(c)) for _ in range(rng.choice([1, 2]))]])
        kids.append({'calls': kid, 'threads': rng.choice([1, 1, 1, 2]), 'before': [call(0.2)] if rng.random() < 0.3 else []})
    noise = [0, 0]
    if not making and rng.random() < 0.3:
        mine = [[c[1] for c in t] for t in threads + [kids[0]['calls']]]
        noise = C.gen_noise(rng, ctx, cfg, mine)
        mine = [[['?', op] for op in t] for t in mine]
        threads, kids[0] = mine[:-1], dict(kids[0], calls=mine[-1])
        flat = [c for t in threads for c in t]
    warm = [] if noise[1] else [ops.gen_op(rng, theme, toy) for _ in range(rng.choice([0, 0, 1, 3]))]
    gran = pick(rng, [('opcode', 35), ('line', 45), ('call', 20)]) if not making else pick(rng, [('line', 45), ('call', 55)])
    return {'cfg': cfg, 'threads': threads, 'kids': kids, 'warm': warm, 'noise': noise, 'gran': gran,
            'probes': [rng.choice(flat), call(0)], 'pseed': rng.randrange(1 << 30)}


def do(morph, c):
    if c[0] == '?':
        return ops.run_op(morph, c[1])
    m = C.make(c[1])
    return [ops.run_op(m, op) for op in c[2]]


def kid_main(morph, kid):
    """ The life of a forked process. """
    S.CURRENT = None
    sys.settrace(None)
    if kid['threads'] == 1:
        bodies = [lambda t: [do(morph, c) for c in kid['calls']]]
    else:
        bodies = [lambda t, i=i: [do(morph, c) for c in kid['calls'][i::2]] for i in range(2)]
    out = C.run_threads(bodies, {'kind': 'fixed', 'schedule': {}}, 'none')
    res = [None] * len(kid['calls'])
    for i, r in enumerate(out['results']):
        for j, x in enumerate(r or ()):
            res[i + j * len(bodies)] = x
    return {'dead': out['dead'], 'errors': out['errors'], 'results': res}


def settle(alive):
    """ Threads may still be starting or, having ended, leaving; PyPy does not
    survive a fork at that moment.  (No observation depends on this.) """
    for _ in range(20000):
        if len(os.listdir('/proc/self/task')) <= alive and all(t.ident is not None for t in S.CURRENT.threads):
            return
        select.select([], [], [], 0.0005)


def forked(morph, kid, alive):
    settle(alive)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = kid_main(morph, kid)
            except BaseException:
                out = {'dead': None, 'errors': [['harness', traceback.format_exc(), False]], 'results': []}
            data = pickle.dumps(out, 2)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    try:
        while True:
            if not select.select([r], [], [], FORK_TIMEOUT)[0]:
                os.kill(pid, signal.SIGKILL)
                return {'dead': STUCK, 'errors': [], 'results': []}
            x = os.read(r, 1 << 16)
            if not x:
                break
            data += x
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else {'dead': None, 'errors': [['died', '', False]], 'results': []}


def child(morph, case):
    for op in ops.noise(*case['noise'][:2]) + case['warm']:
        ops.run_op(morph, op)

    others = []
    base = len(os.listdir('/proc/self/task'))

    def worker(mine):
        def body(t):
            others.append(t)
            return [do(morph, c) for c in mine]
        return body

    def forker(t):
        out = []
        for kid in case['kids']:
            S.CURRENT.tracer.on()
            before = [do(morph, c) for c in kid['before']]
            S.Tracer.off()
            out.append([before, forked(morph, kid, base + 1 + sum(1 for x in others if not x.done) + len(bodies) - 1 - len(others)), sum(1 for x in others if not x.done)])
        return out
    bodies = [worker(mine) for mine in case['threads']] + [forker]
    out = C.run_threads(bodies, case['policy'], case['gran'], step_cap=case.get('cap', 400000))
    out['probes'] = [do(morph, c) for c in case['probes']] if not out['dead'] else None
    return out


COST = {'call': 700, 'line': 4500, 'opcode': 30000}


def want(ctx, cfg, c):
    if c[0] == '?':
        return C.ref(ctx, cfg, c[1])[0]
    return [C.alone(ctx, c[1], op) for op in c[2]]


def execute(ctx, case):
    res = core.Result()
    cfg = case['cfg']
    flat = [c for t in case['threads'] for c in t] + [c for k in case['kids'] for c in k['calls'] + k['before']] + case['probes']
    refs = {str(c): want(ctx, cfg, c) for c in flat}
    if 'policy' not in case:
        gran, cap = C.granularity(case['gran'], [C.ref(ctx, cfg, c[1]) for t in case['threads'] + [k['before'] for k in case['kids']] for c in t if c[0] == '?'])
        gran = gran if gran != 'opcode' or not any(c[0] == 'make' for c in flat) else 'line'
        case = dict(case, gran=gran, cap=cap + 40 * COST[gran] * sum(1 for c in flat if c[0] == 'make'))

        def of(cs):
            n, d = 1, []
            for c in cs:
                if c[0] == '?':
                    r = C.ref(ctx, cfg, c[1])
                    n += r[C.GRANI[gran]]
                    d.append(C.places_of(r, gran))
                else:
                    n += COST[gran]
                    d.append(C.at_gran(C.make_places(ctx, c[1]), gran))
            return n, C.add_places(d)
        both = [of(t) for t in case['threads']] + [of([c for k in case['kids'] for c in k['before']])]
        lengths, places = [n for n, _ in both], [p for _, p in both]
        rng = core.case_rng('sched', case['pseed'])
        nt = len(both)
        if rng.random() < 0.75:
            # the process forks while one of the others is at some place
            t = rng.randrange(nt - 1)
            pts = []
            for _ in case['kids']:
                p, n = C.some_place(rng, places[t])
                pts.append([t, p, n, nt - 1])
            pol = {'kind': 'places', 'seed': rng.randrange(1 << 30), 'points': pts, 'first': t, 'patience': None}
            if nt > 2 and rng.random() < 0.7:
                u = 1 - t
                p, n = C.some_place(rng, places[u])
                pol['points'].append([u, p, n, t])
                pol['first'] = u
        else:
            pol = C.gen_policy(rng, nt, lengths, places if all(places) else None)
        case = dict(case, policy=pol)
    for _ in range(3):
        out = ctx.call(child, ctx.morphs[cfg], case, timeout=100)
        if not any(r and r[1]['dead'] == STUCK for r in (out['results'][-1] or ())):
            break
        # a waiting thread is seen by the scheduler; this is something else
        res.count('repeated')
    res.case = dict(case, policy=out['schedule'])
    res.sig = [cfg, case['threads'], case['kids'], out['sig']]
    res.log = core.digest([out['results'], out['sig'], out['probes']])
    C.note_threads(res, out, case['gran'])
    if out['dead']:
        return res.bad('deadlock', out['dead'])
    for i, e in enumerate(out['errors']):
        if e:
            return res.bad('thread failed', 'thread %d: %s' % (i, e))
    amid = 0
    for i, (kid, (before, got, busy)) in enumerate(zip(case['kids'], out['results'][-1])):
        amid += bool(busy)
        res.count('forks')
        res.count('forks_amid_calls', int(bool(busy)))
        where = 'forked process %d (%d calls of other threads under way); %s' % (i, busy, core.short(out['trace'], 300))
        if got['dead']:
            return res.bad('forked process waits for ever', '%s: %s' % (where, got['dead']))
        for e in got['errors']:
            if e and e[0] == 'harness':
                raise core.HarnessError(e[1])
            if e:
                return res.bad('forked process fails', '%s: %s' % (where, e))
        for c, g in zip(kid['calls'], got['results']):
            res.count('answers_checked')
            if g != refs[str(c)]:
                return res.bad('wrong answer in a forked process', '%s: config %s, %s: %s' % (where, cfg, c, C.diff(g, refs[str(c)])))
        for c, g in zip(kid['before'], before):
            if g != refs[str(c)]:
                return res.bad('wrong answer', 'config %s, %s: %s' % (cfg, c, C.diff(g, refs[str(c)])))
    res.nontrivial = amid > 0
    for i, t in enumerate(case['threads']):
        for c, g in zip(t, out['results'][i]):
            if g != refs[str(c)]:
                return res.bad('wrong answer', 'config %s, thread %d, %s: %s' % (cfg, i, c, C.diff(g, refs[str(c)])))
    for c, g in zip(case['probes'], out['probes']):
        if g != refs[str(c)]:
            return res.bad('wrong answer afterwards', 'config %s, %s: %s' % (cfg, c, C.diff(g, refs[str(c)])))
    return res


def shrink(ctx, case):
    if case['noise'][1]:
        yield dict(case, noise=[0, 0])
    if case['warm']:
        yield dict(case, warm=[])
    ks = case['kids']
    if len(ks) > 1:
        for i in range(len(ks)):
            yield dict(case, kids=ks[:i] + ks[i + 1:])
    for i, k in enumerate(ks):
        if k['threads'] > 1:
            yield dict(case, kids=ks[:i] + [dict(k, threads=1)] + ks[i + 1:])
        if k['before']:
            yield dict(case, kids=ks[:i] + [dict(k, before=[])] + ks[i + 1:])
        for j in range(len(k['calls'])):
            if len(k['calls']) > 1:
                yield dict(case, kids=ks[:i] + [dict(k, calls=k['calls'][:j] + k['calls'][j + 1:])] + ks[i + 1:])
    for c in C.shrink_schedule(case):
        yield c
    for c in C.shrink_threads(case):
        yield c
    for i in range(len(case['probes'])):
        yield dict(case, probes=case['probes'][:i] + case['probes'][i + 1:])
