# -*- coding: utf-8 -*-
""" C06: an interrupted call leaves no trace. """
import core
import ops
from props import common as C
from props.c01 import pick
from sim import sched as S
from sim import faults

CFG = [('ru', 28), ('plain', 6), ('bare', 8), ('t-ru', 20), ('t-uk', 10), ('t-nested', 14), ('t-subst', 8), ('t-ru-plain', 6)]


def setup(ctx):
    C.init_toy()
    ctx.morphs = {name: C.make(name) for name, _ in CFG}


def gen(rng, idx, ctx):
    cfg = pick(rng, CFG)
    toy = C.toy_of(cfg)
    theme = ops.theme(rng) if rng.random() < 0.6 else None
    victims = [ops.gen_op(rng, theme, toy) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.3:
        victims.append(list(victims[0]))
    storm = rng.choice([9, 17, 33]) if rng.random() < 0.1 else 0
    if storm:
        # the same call is interrupted at the same place again and again
        victims = victims[:1] * storm
    noise = C.gen_noise(rng, ctx, cfg, [victims]) if not storm else [0, 0]
    others = []
    if rng.random() < 0.35:
        others = [rng.choice(victims) if rng.random() < 0.6 else ops.gen_op(rng, theme, toy) for _ in range(rng.choice([1, 2]))]
    probes = [list(v) for v in (victims[:1] if storm else victims)] + [ops.gen_op(rng, theme, toy)]
    for v in victims[:1]:
        if v[0] in ('parse', 'tag', 'nf', 'lexeme', 'inflect', 'normalized', 'tagobs', 'isknown', 'agree', 'known'):
            probes += [['parse', v[1]], ['tag', v[1]], ['tagobs', v[1], 0]]
    warm = [] if noise[1] else [ops.gen_op(rng, theme, toy) for _ in range(rng.choice([0, 0, 2]))]
    return {'cfg': cfg, 'warm': warm, 'noise': noise, 'storm': storm, 'victims': victims, 'others': others, 'probes': probes,
            'kind': rng.choice(['KeyboardInterrupt', 'MemoryError', 'lookup'] if not storm else ['KeyboardInterrupt', 'MemoryError']),
            'gran': pick(rng, [('opcode', 45), ('line', 55)]), 'pseed': rng.randrange(1 << 30), 'strikes': rng.choice([1, 1, 2, 3])}


def child(morph, case):
    for op in ops.noise(*case['noise'][:2]) + case['warm']:
        ops.run_op(morph, op)
    state = {'raised': 0}
    look = None
    if case['kind'] == 'lookup':
        look = faults.Lookups(case['at'])
        look.install()

    def victim(t):
        out = []
        for op in case['victims']:
            S.CURRENT.tracer.on()
            before = len(t.fired) + (look.fired if look else 0)
            try:
                r = ops.run_op(morph, op)
            except (S.Injected, S.InjectedMemoryError, faults.InjectedIOError):
                state['raised'] += 1
                out.append('interrupted')
                continue
            finally:
                S.Tracer.off()
            if len(t.fired) + (look.fired if look else 0) > before:
                r = ['swallowed', r]
            out.append(r)
        return out

    def other(t):
        return [ops.run_op(morph, op) for op in case['others']]
    inj = [] if look else [{k: case['kind'] for k in case['at']}]
    strikes = [[(p, n, case['kind']) for p, n in case['strikes']]]
    try:
        bodies = [victim] + ([other] if case['others'] else [])
        out = C.run_threads(bodies, case['policy'], case['gran'], injects=inj, guard=True, strikes=strikes, step_cap=case.get('cap', 400000), record=case.get('dry'))
    finally:
        if look:
            look.remove()
            out_look = look.fired
    out['raised'] = state['raised']
    out['nfired'] = len(out['fired'][0]) + (look.fired if look else 0)
    if out['dead']:
        return out
    out['probes'] = [ops.run_op(morph, op) for op in case['probes']]
    again = C.run_threads([lambda t: [ops.run_op(morph, op) for op in case['probes']]], {'kind': 'fixed', 'schedule': {}}, 'none')
    out['dead2'] = again['dead']
    out['probes2'] = again['results'][0]
    return out


def execute(ctx, case):
    res = core.Result()
    cfg = case['cfg']
    refs = {str(op): C.ref(ctx, cfg, op) for op in case['victims'] + case['others'] + case['probes']}
    if 'policy' not in case:
        gran, cap = C.granularity(case['gran'], [refs[str(op)] for op in case['victims'] + case['others']])
        case = dict(case, gran=gran, cap=cap)
        gi = C.GRANI[gran]
        rng = core.case_rng('sched', case['pseed'])
        nv = sum(refs[str(op)][gi] for op in case['victims'])
        no = sum(refs[str(op)][gi] for op in case['others'])
        if case['kind'] == 'lookup':
            n = ctx.once(['lookups', cfg, case['victims']], faults.count_lookups, lambda: [ops.run_op(ctx.morphs[cfg], op) for op in case['victims']])
        else:
            n = nv
        at = sorted(set(1 + rng.randrange(max(1, n)) for _ in range(case['strikes'])))
        pl = [C.add_places(C.places_of(refs[str(op)], case['gran']) for op in x) for x in (case['victims'], case['others'])]
        if case['noise'][1] or case['warm'] or case['pseed'] % 3 == 0:
            dry = ctx.call(child, ctx.morphs[cfg], dict(case, kind='none', at=[], strikes=[], policy={'kind': 'fixed', 'schedule': {}}, probes=[], dry=True))
            pl = [C.max_places(a, b) for a, b in zip(pl, dry['places'] + [{}])]
        pol = C.gen_policy(rng, 2, [nv, no], pl) if case['others'] else {'kind': 'fixed', 'schedule': {}}
        strikes = []
        if case['kind'] != 'lookup' and rng.random() < 0.6:
            strikes = [list(C.some_place(rng, pl[0])) for _ in at]
            at = []
        if case.get('storm') and case['kind'] != 'lookup':
            one = C.places_of(refs[str(case['victims'][0])], case['gran'])
            p, k = C.some_place(rng, one)
            k = min(k, 5)
            strikes, at = [[p, j] for j in range(k, 600, k)], []
            res.count('storms')
        case = dict(case, policy=pol, at=at, strikes=strikes)
    out = ctx.call(child, ctx.morphs[cfg], case)
    res.case = dict(case, policy=out['schedule'])
    if case['strikes'] and not out['dead']:
        # in terms of steps, the run is the same
        res.case = dict(res.case, strikes=[], at=[k for k, _ in out['fired'][0]])
    res.sig = [cfg, case['victims'], case['kind'], case['gran'], case['at'], out['sig']]
    res.nontrivial = out['nfired'] > 0
    res.log = core.digest([out['results'], out.get('probes'), out['fired']])
    C.note_threads(res, out, case['gran'])
    res.count('fault:' + case['kind'], out['nfired'])
    where = 'struck at %s' % out['fired'][0] if case['kind'] != 'lookup' else 'failing lookups %s' % case['at']
    if out['dead']:
        return res.bad('deadlock', out['dead'] + '; ' + where)
    for i, e in enumerate(out['errors']):
        if e:
            return res.bad('thread failed', 'thread %d: %s' % (i, e))
    for op, got in zip(case['victims'], out['results'][0]):
        if got == 'interrupted':
            res.count('interrupted_calls')
            continue
        if isinstance(got, list) and got[:1] == ['swallowed']:
            return res.bad('interruption swallowed', '%s: the exception did not reach the caller (%s), the call returned %s' % (op, where, core.short(got[1])))
        if got != refs[str(op)][0]:
            return res.bad('wrong answer after an interruption', 'config %s, %s (%s): %s' % (cfg, op, where, C.diff(got, refs[str(op)][0])))
    if case['others']:
        for op, got in zip(case['others'], out['results'][1]):
            if got != refs[str(op)][0]:
                return res.bad('wrong answer in another thread', 'config %s, %s (%s): %s' % (cfg, op, where, C.diff(got, refs[str(op)][0])))
    if out['dead2']:
        return res.bad('something stays locked', out['dead2'] + '; ' + where)
    for name in ('probes', 'probes2'):
        for op, got in zip(case['probes'], out[name] or []):
            if got != refs[str(op)][0]:
                return res.bad('wrong answer after an interruption', 'config %s, %s (%s) %s: %s' % (
                    cfg, op, where, 'in another thread' if name == 'probes2' else '', C.diff(got, refs[str(op)][0])))
    return res


def shrink(ctx, case):
    if len(case['at']) > 1:
        for i in range(len(case['at'])):
            yield dict(case, at=case['at'][:i] + case['at'][i + 1:])
    if case['noise'][1]:
        yield dict(case, noise=[0, 0])
    if case['warm']:
        yield dict(case, warm=[])
    if case['others']:
        yield dict(case, others=[], policy={'kind': 'fixed', 'schedule': {}})
    for c in C.shrink_schedule(case):
        yield c
    for i in range(len(case['probes'])):
        if len(case['probes']) > 1:
            yield dict(case, probes=case['probes'][:i] + case['probes'][i + 1:])
    if len(case['victims']) > 8:
        yield dict(case, victims=case['victims'][:len(case['victims']) // 2])
    for i in range(len(case['victims']) - 1, 0, -1):
        yield dict(case, victims=case['victims'][:i] + case['victims'][i + 1:])
