# -*- coding: utf-8 -*-
""" C02: analyzers created in several threads while others are in use. """
import pickle

import core
import ops
from props import common as C
from props import c07
from props.c01 import pick
from sim import sched as S

CFG = [('t-ru', 20), ('t-uk', 20), ('t-tiny', 18), ('t-odd', 12), ('t-nested', 8), ('t-shape', 8), ('t-lang', 8), ('t-noprob', 6), ('t-subst', 6), ('t-ru-plain', 6), ('t-inner', 5)]
PICKLABLE = ['t-ru', 't-uk', 't-tiny', 't-lang', 't-noprob', 't-subst', 't-ru-plain', 't-nested', 't-inner']


def setup(ctx):
    C.init_toy()


def gen(rng, idx, ctx):
    pre = [pick(rng, CFG) for _ in range(rng.choice([0, 1, 1, 2]))]
    same = rng.random() < 0.3
    one = pick(rng, CFG)
    n = rng.choice([2, 2, 2, 3])
    slots = list(pre)
    threads = []
    theme = ops.theme(rng) if rng.random() < 0.5 else None
    for t in range(n):
        mine = []
        own = list(range(len(pre)))
        for _ in range(rng.choice([1, 2, 3])):
            x = rng.random()
            if x < 0.45 or not own:
                cfg = one if same else pick(rng, CFG)
                slots.append(cfg)
                mine.append(['make', len(slots) - 1, cfg])
                own.append(len(slots) - 1)
            elif x < 0.55 and any(c in PICKLABLE for c in pre):
                src = rng.choice([i for i, c in enumerate(pre) if c in PICKLABLE])
                slots.append(pre[src])
                mine.append(['unpickle', len(slots) - 1, src])
                own.append(len(slots) - 1)
            elif x < 0.6:
                mine.append(['fail', rng.choice(['nopath', 'badwords', 'unit-init', 'estimator']), rng.choice(['ru1', 'uk1', 'tiny'])])
            elif x < 0.8:
                i = rng.choice(own)
                mine.append(['?', i, ops.gen_op(rng, theme, C.toy_of(slots[i]))])
            else:
                i = rng.choice(own)
                mine.append(['tag?', i, C.gen_src(rng, theme, C.toy_of(slots[i])), C.gen_obs(rng)])
        threads.append(mine)
    probes = []
    for i, cfg in enumerate(slots):
        probes.append(['?', i, ops.gen_op(rng, theme, C.toy_of(cfg))])
        probes.append(['tag?', i, C.gen_src(rng, theme, C.toy_of(cfg)), C.gen_obs(rng)])
        probes.append(['tag?', i, ['new', rng.choice(['LATN', 'NUMB,intg', 'PNCT'])], ['all']])
    return {'pre': pre, 'slots': slots, 'threads': threads, 'probes': probes, 'gran': pick(rng, [('call', 45), ('line', 40), ('opcode', 15)]),
            'pseed': rng.randrange(1 << 30)}


def child(case, scratch):
    slots = {}
    for i, cfg in enumerate(case['pre']):
        slots[i] = C.make(cfg)
    data = {}
    for m in case['threads']:
        for s in m:
            if s[0] == 'unpickle':
                data[s[2]] = pickle.dumps(slots[s[2]], 2)

    def ask(s):
        m = slots.get(s[1])
        if m is None:
            return 'gone'
        return ops.run_op(m, s[2]) if s[0] == '?' else C.tag_alone(m, s[2], s[3])

    def body(t, mine):
        out = []
        for j, s in enumerate(mine):
            if s[0] == 'make':
                slots[s[1]] = C.make(s[2])
                out.append('made')
            elif s[0] == 'unpickle':
                slots[s[1]] = pickle.loads(data[s[2]])
                out.append('made')
            elif s[0] == 'fail':
                r = c07.fail(s[1], s[2], scratch, t.tid * 100 + j)
                out.append('failed' if r else 'no failure')
            else:
                out.append(ask(s))
        return out
    with core.quiet():
        out = C.run_threads([lambda t, m=m: body(t, m) for m in case['threads']], case['policy'], case['gran'], step_cap=3000000)
    if not out['dead']:
        out['probes'] = [ask(s) for s in case['probes']]
    return out


COST = {'call': 700, 'line': 4500, 'opcode': 30000}


def execute(ctx, case):
    res = core.Result()
    if 'policy' not in case:
        c = COST[case['gran']]
        lengths = [sum(c if s[0] in ('make', 'unpickle') else c // 6 for s in m) for m in case['threads']]
        places = []
        for m in case['threads']:
            d = {}
            for s in m:
                if s[0] in ('make', 'unpickle'):
                    d = C.add_places([d, C.at_gran(C.make_places(ctx, case['slots'][s[1]]), case['gran'])])
                elif s[0] == '?':
                    d = C.add_places([d, C.at_gran(C.zyg(ctx, case['slots'][s[1]]).ask(C.op_places, s[2]), case['gran'])])
            places.append(d)
        case = dict(case, policy=C.gen_policy(core.case_rng('sched', case['pseed']), len(case['threads']), lengths, places))
    out = ctx.call(child, case, ctx.fresh_dir('c02'))
    res.case = dict(case, policy=out['schedule'])
    res.sig = [case['pre'], case['threads'], out['sig']]
    res.nontrivial = out['switches'] > 0
    res.log = core.digest([out['results'], out['sig'], out.get('probes')])
    C.note_threads(res, out, case['gran'])
    res.count('constructions', sum(1 for m in case['threads'] for s in m if s[0] in ('make', 'unpickle')))
    res.count('max_events_per_run', out['steps'])
    if out['dead']:
        return res.bad('deadlock', out['dead'])
    for i, m in enumerate(case['threads']):
        if out['errors'][i]:
            return res.bad('thread failed', 'thread %d: %s' % (i, out['errors'][i]))

    def check(s, got, where):
        if s[0] not in ('?', 'tag?') or got == 'gone':
            return
        cfg = case['slots'][s[1]]
        z = C.zyg(ctx, cfg)
        want = z.ask(ops.run_op, s[2]) if s[0] == '?' else z.ask(C.tag_alone, s[2], s[3])
        res.count('answers_checked')
        if got != want:
            res.bad('wrong answer', '%s, analyzer %d (%s), %s: %s; %s' % (where, s[1], cfg, s[2:], C.diff(got, want), core.short(out['trace'], 500)))
    for i, m in enumerate(case['threads']):
        for s, got in zip(m, out['results'][i]):
            if got == 'no failure':
                return res.bad('construction did not fail', str(s))
            check(s, got, 'thread %d' % i)
    for s, got in zip(case['probes'], out['probes']):
        check(s, got, 'afterwards')
    return res


def shrink(ctx, case):
    if len(case['threads']) > 2:
        yield dict(case, threads=case['threads'][:-1])
    for c in C.shrink_schedule(case):
        yield c
    for c in C.shrink_threads(case):
        yield c
    for i in range(len(case['probes'])):
        yield dict(case, probes=case['probes'][:i] + case['probes'][i + 1:])
