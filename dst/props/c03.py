# -*- coding: utf-8 -*-
""" C03: tags are immutable values. """
import gc

import core
import ops
from props import common as C
from props.c01 import pick
from sim import sched as S

CFG = [('ru', 30), ('t-ru', 25), ('t-uk', 20), ('t-nested', 10), ('t-tiny', 15)]
OTHER = ['t-ru', 't-uk', 't-tiny', 't-lang', 't-shape']


def setup(ctx):
    C.init_toy()
    ctx.morphs = {}


def gen(rng, idx, ctx):
    cfg = pick(rng, CFG)
    toy = C.toy_of(cfg)
    theme = ops.theme(rng) if rng.random() < 0.5 else None
    tags = [C.gen_src(rng, theme, toy) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.25:
        t = rng.choice(tags)
        if t[0] == 'word':
            tags.append(['var', t[1], t[2], rng.randrange(1000)])
        else:
            tags.append(list(t))
    n = rng.choice([1, 2, 2, 3])
    threads = []
    focus = C.gen_obs(rng) if rng.random() < 0.4 else None
    for t in range(n):
        mine = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            x = rng.random()
            if x < 0.8:
                o = focus if focus and rng.random() < 0.6 else C.gen_obs(rng)
                mine.append(['o', rng.randrange(len(tags)), o])
            elif x < 0.9:
                mine.append(['q', ops.gen_op(rng, theme, toy)])
            elif x < 0.95:
                mine.append(['make', rng.choice(OTHER)])
            else:
                mine.append(['gc'])
        threads.append(mine)
    strikes = rng.choice([0, 0, 0, 1, 2])
    return {'cfg': cfg, 'tags': tags, 'threads': threads, 'final': [C.gen_obs(rng) for _ in range(4)],
            'gran': pick(rng, [('opcode', 60), ('line', 40)]), 'pseed': rng.randrange(1 << 30), 'strikes': strikes,
            'exc': rng.choice(['KeyboardInterrupt', 'MemoryError']), 'touch': rng.random() < 0.3,
            'make_first': rng.choice([None, None] + OTHER)}


def relations(tags):
    return [[a == b, a != b, a < b, a > b, len(set([a, b])), len(a)] for a in tags for b in tags if type(a) is type(b)]


def child(morph, case):
    if case['make_first']:
        keep0 = C.make(case['make_first'])
    tags = [C.get_tag(morph, s) for s in case['tags']]
    before = [(str(t), hash(t), t._str if hasattr(t, '_str') else None) for t in tags]
    rel = relations(tags)
    keep = []
    if case['touch']:
        for t in tags:
            for o in ('gr', 'cyr', 'cyr_repr'):
                C.observe(t, [o])

    def body(t, mine):
        out = []
        for s in mine:
            S.CURRENT.tracer.on()
            try:
                if s[0] == 'o':
                    out.append(C.observe(tags[s[1]], s[2]))
                elif s[0] == 'q':
                    ops.run_op(morph, s[1])
                    out.append(None)
                elif s[0] == 'make':
                    keep.append(C.make(s[1]))
                    out.append(None)
                elif s[0] == 'gc':
                    gc.collect()
                    out.append(None)
            except (S.Injected, S.InjectedMemoryError):
                out.append('interrupted')
            finally:
                S.Tracer.off()
        return out
    inj = [{k: case['exc'] for k in case['at']}] if case['at'] else None
    out = C.run_threads([lambda t, m=m: body(t, m) for m in case['threads']], case['policy'], case['gran'], injects=inj, guard=True,
                        step_cap=3000000, strikes=[[(p, n, case['exc']) for p, n in case['where']]])
    if out['dead']:
        return out
    out['final'] = [[C.observe(t, o) for o in case['final']] for t in tags]
    out['same'] = [[str(t) == b[0], hash(t) == b[1]] for t, b in zip(tags, before)]
    out['rel'] = [rel, relations(tags)]
    out['pairs'] = [[a == b, (str(a) == str(b))] for a in tags for b in tags if type(a) is type(b)]
    return out


def estimate(case):
    return [60 * len(m) if case['gran'] == 'line' else 400 * len(m) for m in case['threads']]


def count(morph, case, i):
    """ Yield points of thread ``i`` when it runs alone (constructions excluded). """
    tags = [C.get_tag(morph, s) for s in case['tags']]

    def fn():
        for s in case['threads'][i]:
            if s[0] == 'o':
                C.observe(tags[s[1]], s[2])
            elif s[0] == 'q':
                ops.run_op(morph, s[1])
    return C._counting(fn, fn)[1:]


def run(morph, case):
    return child(morph, case)


def execute(ctx, case):
    res = core.Result()
    z = C.zyg(ctx, case['cfg'])
    if 'policy' not in case:
        rng = core.case_rng('sched', case['pseed'])
        gi = C.GRANI[case['gran']] - 1
        counts = [z.ask(count, {'tags': case['tags'], 'threads': case['threads']}, i) for i in range(len(case['threads']))]
        lengths = [c[gi] for c in counts]
        places = [C.at_gran(c[3], case['gran']) for c in counts]
        n = len(case['threads'])
        at = sorted(set(1 + rng.randrange(max(1, lengths[0])) for _ in range(case['strikes'])))
        pol = C.gen_policy(rng, n, lengths, places) if n > 1 else {'kind': 'fixed', 'schedule': {}}
        where = []
        if places[0] and rng.random() < 0.5:
            where = [list(C.some_place(rng, places[0])) for _ in at]
            at = []
        case = dict(case, policy=pol, at=at, where=where)
    z.memo.pop(None, None)
    out = C.zygcall(z, run, case)
    res.case = dict(case, policy=out['schedule'])
    if case['where'] and not out['dead']:
        res.case = dict(res.case, where=[], at=[k for k, _ in out['fired'][0]])
    res.sig = [case['cfg'], case['tags'], case['threads'], case['at'], out['sig']]
    res.nontrivial = out['switches'] > 0 or bool(out['fired'][0]) or any(len(t) > 1 for t in case['threads'])
    res.log = core.digest([out['results'], out['sig'], out.get('final')])
    C.note_threads(res, out, case['gran'])
    if case['at'] or case['where']:
        res.count('fault:' + case['exc'], len(out['fired'][0]))
    if out['dead']:
        return res.bad('deadlock', out['dead'])
    for i, m in enumerate(case['threads']):
        if out['errors'][i]:
            return res.bad('thread failed', 'thread %d: %s' % (i, out['errors'][i]))
        for s, got in zip(m, out['results'][i]):
            if s[0] != 'o' or got == 'interrupted':
                continue
            res.count('observations')
            want = z.ask(C.tag_alone, case['tags'][s[1]], s[2])
            if got != want:
                return res.bad('tag observed differently', 'config %s, tag %s, thread %d, %s: %s; struck %s; %s' % (
                    case['cfg'], case['tags'][s[1]], i, s[2], C.diff(got, want), out['fired'][0], core.short(out['trace'], 500)))
    for src, gots, same in zip(case['tags'], out['final'], out['same']):
        for o, got in zip(case['final'], gots):
            want = z.ask(C.tag_alone, src, o)
            if got != want:
                return res.bad('tag observed differently', 'config %s, tag %s, afterwards, %s: %s; struck %s' % (case['cfg'], src, o, C.diff(got, want), out['fired'][0]))
        if same != [True, True]:
            return res.bad('tag changed its text or hash', 'tag %s' % (src,))
    if out['rel'][0] != out['rel'][1]:
        return res.bad('tags compare differently', 'tags %s: %s' % (case['tags'], C.diff(out['rel'][1], out['rel'][0])))
    for eq, same in out['pairs']:
        if same and not eq:
            return res.bad('equal tags differ', 'tags %s' % case['tags'])
    return res


def shrink(ctx, case):
    for k in list(range(len(case['at']))):
        yield dict(case, at=case['at'][:k] + case['at'][k + 1:])
    if case['make_first']:
        yield dict(case, make_first=None)
    if len(case['threads']) > 1:
        yield dict(case, threads=case['threads'][:-1])
    for c in C.shrink_schedule(case):
        yield c
    for c in C.shrink_threads(case):
        yield c
    for i in range(len(case['final'])):
        yield dict(case, final=case['final'][:i] + case['final'][i + 1:])
