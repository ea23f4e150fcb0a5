# -*- coding: utf-8 -*-
""" C01: one analyzer shared by threads. """
import core
import ops
from props import common as C

CFG = [('ru', 30), ('plain', 8), ('plainbare', 4), ('bare', 8), ('t-ru', 16), ('t-ru-plain', 5), ('t-uk', 8), ('t-nested', 10), ('t-short', 4), ('t-subst', 6), ('t-shape', 5), ('t-inner', 5)]


def setup(ctx):
    C.init_toy()
    ctx.morphs = {name: C.make(name) for name, _ in CFG}


def pick(rng, table):
    x = rng.randrange(sum(w for _, w in table))
    for k, w in table:
        x -= w
        if x < 0:
            return k


def gen(rng, idx, ctx):
    cfg = pick(rng, CFG)
    toy = C.toy_of(cfg)
    n = rng.choice([2, 2, 2, 3, 4])
    theme = ops.theme(rng) if rng.random() < 0.6 else None
    kinds = rng.sample([k for k, _ in ops.KINDS], rng.choice([1, 2, 3])) if rng.random() < 0.4 else None
    per = lambda: rng.choice([1, 1, 2, 3]) if n > 2 else rng.choice([1, 2, 3, 4])
    mode = rng.random()
    duel = rng.random() < 0.3
    if duel:
        # one kind of question about different words, few of them
        kind, n = [rng.choice(ops.KINDS)[0]], rng.choice([2, 2, 2, 3])
        ts = rng.sample(ops.THEMES, n)
        threads = [[ops.gen_op(rng, ts[i], toy, kind) for _ in range(rng.choice([1, 1, 2]))] for i in range(n)]
        if rng.random() < 0.45 or kind[0] in ops.PREPARED:
            # words are parsed before: just what is done with a parse
            kind = [rng.choice(ops.PREPARED)] if rng.random() < 0.7 else None
            threads = [[ops.gen_prepared(rng, rng.choice(ts), toy, kind) for _ in range(rng.choice([1, 2, 3]))] for i in range(n)]
    elif mode < 0.3:
        base = [ops.gen_op(rng, theme, toy, kinds) for _ in range(per())]
        threads = [list(base) for _ in range(n)]
    elif mode < 0.55:
        pool = [ops.gen_op(rng, theme, toy, kinds) for _ in range(2)]
        threads = [[rng.choice(pool) for _ in range(per())] for _ in range(n)]
    else:
        threads = [[ops.gen_op(rng, theme, toy, kinds) for _ in range(per())] for _ in range(n)]
    noise = C.gen_noise(rng, ctx, cfg, threads) if not duel else [0, 0]
    warm = [] if noise[1] else [ops.gen_op(rng, theme, toy) for _ in range(rng.choice([0, 0, 1, 3]))]
    if rng.random() < 0.15 and not noise[1]:
        warm += [op for t in threads for op in t]
    gran = pick(rng, [('opcode', 35), ('line', 40), ('call', 25)])
    probes = [rng.choice(rng.choice(threads)), ops.gen_op(rng, theme, toy)]
    return {'cfg': cfg, 'threads': threads, 'warm': warm, 'noise': noise, 'gran': gran, 'probes': probes, 'pseed': rng.randrange(1 << 30)}


def child(morph, case):
    for op in ops.noise(*case['noise'][:2]) + case['warm']:
        ops.run_op(morph, op)

    def body(t, mine):
        return [fn() for fn in mine]
    shared = {}
    prepared = [[ops.prepare(morph, op, shared) for op in mine] for mine in case['threads']]
    bodies = [lambda t, mine=mine: body(t, mine) for mine in prepared]
    out = C.run_threads(bodies, case['policy'], case['gran'], step_cap=case.get('cap', 400000), record=case.get('dry'))
    out['probes'] = [ops.run_op(morph, op) for op in case['probes']] if not out['dead'] else None
    return out


def execute(ctx, case):
    res = core.Result()
    cfg = case['cfg']
    refs = {}
    for op in [o for t in case['threads'] for o in t] + case['probes']:
        refs[str(op)] = C.ref(ctx, cfg, op)
    if 'policy' not in case:
        gran, cap = C.granularity(case['gran'], [refs[str(op)] for t in case['threads'] for op in t])
        case = dict(case, gran=gran, cap=cap)
        gi = C.GRANI[case['gran']]
        lengths = [sum(refs[str(op)][gi] for op in t) for t in case['threads']]
        places = [C.add_places(C.places_of(refs[str(op)], case['gran']) for op in t) for t in case['threads']]
        if case['noise'][1] or case['warm'] or case['pseed'] % 3 == 0:
            # which places are passed depends on what is remembered
            dry = ctx.call(child, ctx.morphs[cfg], dict(case, policy={'kind': 'fixed', 'schedule': {}}, probes=[], dry=True))
            places = [C.max_places(a, b) for a, b in zip(places, dry['places'])]
        case = dict(case, policy=C.gen_policy(core.case_rng('sched', case['pseed']), len(case['threads']), lengths, places, len(case['noise']) > 2))
    out = ctx.call(child, ctx.morphs[cfg], case)
    res.case = dict(case, policy=out['schedule'])
    res.sig = [cfg, case['threads'], out['sig']]
    res.nontrivial = out['switches'] > 0
    res.log = core.digest([out['results'], out['sig'], out['probes']])
    C.note_threads(res, out, case['gran'])
    res.count('operations', sum(map(len, case['threads'])))
    if out['dead']:
        return res.bad('deadlock', out['dead'])
    for i, t in enumerate(case['threads']):
        if out['errors'][i]:
            return res.bad('thread failed', 'thread %d: %s' % (i, out['errors'][i]))
        for j, op in enumerate(t):
            got, want = out['results'][i][j], refs[str(op)][0]
            if got != want:
                return res.bad('wrong answer in a thread', 'config %s, thread %d, call %d %s: %s; schedule %s' % (
                    cfg, i, j, op, C.diff(got, want), core.short(out['trace'], 800)))
    for op, got in zip(case['probes'], out['probes']):
        if got != refs[str(op)][0]:
            return res.bad('wrong answer afterwards', 'config %s, %s: %s' % (cfg, op, C.diff(got, refs[str(op)][0])))
    return res


def shrink(ctx, case):
    if case['noise'][1]:
        yield dict(case, noise=[0, 0])
    if case['warm']:
        yield dict(case, warm=[])
    for c in C.shrink_schedule(case):
        yield c
    if len(case['threads']) > 2 and case['policy'].get('kind') == 'fixed':
        # threads are dropped from the end so that the others keep their numbers
        yield dict(case, threads=case['threads'][:-1])
    for c in C.shrink_threads(case):
        yield c
    for i in range(len(case['probes'])):
        yield dict(case, probes=case['probes'][:i] + case['probes'][i + 1:])
