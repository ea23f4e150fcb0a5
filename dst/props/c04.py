# -*- coding: utf-8 -*-
""" C04: answers do not depend on the history of calls. """
import itertools

import core
import ops
from props import common as C
from props.c01 import pick

CFG = [('ru', 34), ('plain', 8), ('plainbare', 4), ('bare', 8), ('t-ru', 16), ('t-uk', 10), ('t-nested', 10), ('t-subst', 8), ('t-ru-plain', 6)]
LISTING = 300


def setup(ctx):
    C.init_toy()
    ctx.morphs = {name: C.make(name) for name, _ in CFG}


LOOKALIKE = {'а': 'a', 'о': 'o', 'е': 'e', 'с': 'c', 'р': 'p', 'х': 'x', 'у': 'y'}


def neighbour(rng, w):
    """ A word that a careless memo could take for ``w``. """
    k = rng.randrange(17)
    if not w:
        return rng.choice([' ', '-', 'а'])
    i = rng.randrange(len(w))
    if k == 0:
        return w.upper()
    if k == 1:
        return w.title()
    if k == 2:
        return w.lower()
    if k == 3:
        return w.replace('е', 'ё') if 'е' in w else w.replace('ё', 'е')
    if k == 4:
        return w[:i] + LOOKALIKE.get(w[i], w[i]) + w[i + 1:]
    if k == 5:
        return w + rng.choice(['-то', '-ка', 'а', 'ом', ' ', '-'])
    if k == 6:
        return rng.choice(['псевдо', 'не', 'по-', 'авто', 'за', '-', ' ']) + w
    if k == 7:
        return w[:i] + w[i + 1:]
    if k == 8:
        return w[::-1]
    if k == 9:
        return w + w
    if k == 10:
        return w[:-1] + rng.choice('аеиоуыяю')
    if k == 11:
        return w + '-' + w
    if k == 12:
        return w[:i] + rng.choice(ops.WORDS['known'])[:2] + w[i:]
    other = rng.choice(ops.WORDS[rng.choice(['known', 'unknown', 'prefix'])])
    if k == 13:
        return w[:3] + other[3:]
    if k == 14:
        return other + w[-rng.choice([2, 3, 4, 5, 6]):]
    return w[:rng.choice([3, 4, 5, 6, 7, 8, 9])] + rng.choice(['', '', 'ы', 'о']) + other


def vary(rng, op):
    """ Another call that resembles ``op``. """
    k = op[0]
    o = list(op)
    if k in ('transl', 'mktag', 'iter'):
        return o
    x = rng.random()
    if x < 0.6:
        o[1] = neighbour(rng, o[1])
        return o
    if k == 'inflect' and x < 0.8:
        o[3] = rng.choice(ops.GRAMMEMES)
        return o
    if k == 'agree' and x < 0.8:
        o[3] = rng.choice(ops.NUMS)
        return o
    if k == 'known' and x < 0.8:
        o[2] = not o[2]
        return o
    return [rng.choice(['parse', 'tag', 'nf']), o[1]] if x < 0.9 else ['known', o[1], x < 0.95]


def gen(rng, idx, ctx):
    cfg = pick(rng, CFG)
    toy = C.toy_of(cfg)
    theme = ops.theme(rng) if rng.random() < 0.5 else None
    x = rng.random()
    steps = []
    iters = 0
    live = []

    def some_iter():
        nonlocal iters
        y = rng.random()
        if not live or y < 0.35 and len(live) < 4:
            w = ops.gen_word(rng, 'known', toy).lower()
            prefix = w[:rng.choice([2, 3, 4])] if not toy else w[:rng.choice([0, 0, 1, 2])]
            live.append(iters)
            steps.append(['open', iters, prefix])
            iters += 1
        elif y < 0.85:
            steps.append(['next', rng.choice(live), rng.choice([1, 1, 2, 5, 20])])
        elif y < 0.92:
            steps.append(['drain', live.pop(rng.randrange(len(live)))])
        elif y < 0.96:
            steps.append(['close', live.pop(rng.randrange(len(live)))])
        else:
            steps.append(['abandon', live.pop(rng.randrange(len(live)))])
    with_iters = rng.random() < 0.5
    if rng.random() < 0.16:
        # many questions, in one order and in the opposite one: every pair of
        # them is asked in both orders
        n = rng.choice([150, 400, 400, 1000, 2500])
        return {'cfg': cfg, 'orders': {'seed': rng.randrange(1 << 30), 'n': n, 'theme': theme, 'kinds': rng.choice([None, None, ['parse'], ['tag'], ['known'], ['nf'], ['parse', 'tag', 'nf', 'known'], ['tagobs', 'inflect', 'agree', 'lexeme']]),
                                       'prefix': rng.choice(['', 'пере', 'по', 'при', 'раз', 'не', 'вы', 'кот', 'на', 'ста', 'до']) if not toy else '',
                                       'mix': rng.choice([[30, 30, 40], [50, 50, 0], [5, 5, 90], [10, 80, 10]])}, 'steps': []}
    if x < 0.62:
        # short: every answer is checked
        for _ in range(rng.choice([3, 6, 12, 25, 40])):
            if with_iters and rng.random() < 0.35:
                some_iter()
            elif steps and rng.random() < 0.45:
                old = [s for s in steps if s[0] == '?']
                steps.append(['?', vary(rng, rng.choice(old)[1]) if old else ops.gen_op(rng, theme, toy)])
            elif steps and rng.random() < 0.2:
                steps.append(list(rng.choice([s for s in steps if s[0] == '?'] or [['?', ops.gen_op(rng, theme, toy)]])))
            else:
                steps.append(['?', ops.gen_op(rng, theme, toy)])
    else:
        # long: a few questions asked again and again among many others
        probes = [ops.gen_op(rng, theme, toy) for _ in range(rng.choice([4, 8, 12]))]
        n = rng.choice([200, 200, 600, 600, 1500] + ([6000] if rng.random() < 0.25 else []))
        kinds = rng.choice([None, ['parse'], ['tag'], ['parse', 'tag', 'known']])
        steps.append(['noise', rng.randrange(1 << 30), n // 2, theme, kinds, probes])
        for p in probes:
            for _ in range(rng.choice([0, 0, 1, 2])):
                steps.append(['?', vary(rng, p)])
            steps.append(['?', p])
        if rng.random() < 0.12:
            steps.append(['scan', rng.choice(['', '', 'п', 'в', 'не', 'по', 'к', 'с', 'о', 'б']), rng.choice([2000, 20000, 120000])])
        if with_iters:
            for _ in range(4):
                some_iter()
        steps.append(['noise', rng.randrange(1 << 30), n // 2, theme, kinds, probes])
        rng.shuffle(probes)
        for p in probes:
            steps.append(['?', p])
    for i in live:
        steps.append(['drain', i])
    return {'cfg': cfg, 'steps': steps}


def noise(rng, n, theme, kinds, probes, toy):
    """ Calls whose answers are not looked at. """
    out = []
    for _ in range(n):
        y = rng.random()
        if y < 0.35:
            out.append(vary(rng, rng.choice(probes)))
        elif y < 0.6:
            w = neighbour(rng, ops.gen_word(rng, theme, toy))
            out.append([rng.choice(kinds or ['parse', 'tag', 'nf']), w] if not kinds or 'known' not in kinds else ['known', w, False])
        else:
            op = ops.gen_op(rng, theme, toy, kinds)
            if len(op) > 1 and op[0] not in ('transl', 'mktag') and rng.random() < 0.5:
                op[1] = ''.join(rng.choice('абвгдежзийклмнопрстуфхцчшщъыьэюяё') for _ in range(rng.randrange(1, 9)))
            out.append(op)
    return out


def known_words(morph, prefix):
    ws = sorted(set(p[0] for p in itertools.islice(morph.iter_known_word_parses(prefix), 30000)))
    return ws[:25000]


def questions(ctx, cfg, o):
    """ The questions of an "orders" run. """
    rng = core.case_rng('orders', o['seed'])
    toy = C.toy_of(cfg)
    out, seen = [], set()
    words = ctx.once(['words', cfg, o['prefix']], known_words, ctx.morphs[cfg], o['prefix']) if o['mix'][2] else []
    a = rng.randrange(max(1, len(words) - 2 * o['n']))
    words = words[a:a + 3 * o['n']]
    for _ in range(2 * o['n']):
        x = rng.randrange(sum(o['mix']))
        if x < o['mix'][0] or not out and not words:
            op = ops.gen_op(rng, o['theme'], toy, o['kinds'])
        elif x < o['mix'][0] + o['mix'][1] and out or not words:
            op = vary(rng, rng.choice(out))
        else:
            op = ops.gen_op(rng, o['theme'], toy, o['kinds'])
            if op[0] not in ('transl', 'mktag'):
                op[1] = rng.choice(words)
        k = str(op)
        if k not in seen:
            seen.add(k)
            out.append(op)
        if len(out) >= o['n']:
            break
    return out


def ask_all(morph, qs):
    return [ops.run_op(morph, q) for q in qs]


def orders(ctx, case, res):
    cfg = case['cfg']
    morph = ctx.morphs[cfg]
    qs = questions(ctx, cfg, case['orders'])
    one = ctx.call(ask_all, morph, qs)
    two = ctx.call(ask_all, morph, qs[::-1])[::-1]
    res.case = case
    res.sig = [cfg, case['orders']]
    res.nontrivial = True
    res.log = core.digest([one, two])
    res.count('calls', 2 * len(qs))
    res.count('answers_checked', 2 * len(qs))
    res.count('orders_runs')
    for i, q in enumerate(qs):
        if one[i] != two[i]:
            want = C.answer(ctx, cfg, q)
            before = qs[:i] if one[i] != want else qs[:i:-1]
            # as an ordinary history, which can be made smaller
            case = {'cfg': cfg, 'steps': [['do', o] for o in before] + [['?', q]]}
            return execute(ctx, case)
    return res


def child(morph, case):
    toy = C.toy_of(case['cfg'])
    out = []
    its = {}
    got = {}
    calls = 0
    for s in case['steps']:
        k = s[0]
        if k == '?':
            out.append(ops.run_op(morph, s[1]))
            calls += 1
        elif k == 'do':
            ops.run_op(morph, s[1])
            calls += 1
        elif k == 'noise':
            for op in noise(core.case_rng('noise', s[1]), s[2], s[3], s[4], s[5], toy):
                ops.run_op(morph, op)
                calls += 1
        elif k == 'scan':
            # words of many paradigms
            for p in itertools.islice(morph.iter_known_word_parses(s[1]), s[2]):
                calls += 1
        elif k == 'open':
            its[s[1]] = morph.iter_known_word_parses(s[2])
            got[s[1]] = []
        elif k in ('next', 'drain'):
            if s[1] in its:
                n = s[2] if k == 'next' else LISTING - len(got[s[1]])
                got[s[1]] += [ops.c_parse(p) for p in itertools.islice(its[s[1]], max(0, min(n, LISTING - len(got[s[1]]))))]
                calls += 1
        elif k == 'close':
            if s[1] in its:
                its[s[1]].close()
        elif k == 'abandon':
            its.pop(s[1], None)
    return out, got, calls


def listing(morph, prefix):
    return [ops.c_parse(p) for p in itertools.islice(morph.iter_known_word_parses(prefix), LISTING)]


def execute(ctx, case):
    res = core.Result()
    cfg = case['cfg']
    morph = ctx.morphs[cfg]
    if case.get('orders'):
        return orders(ctx, case, res)
    out, got, calls = ctx.call(child, morph, case)
    res.case = case
    res.sig = [cfg, case['steps']]
    res.nontrivial = calls > 1
    res.log = core.digest([out, got])
    res.count('calls', calls)
    i = 0
    opened = {}
    drained = set()
    for s in case['steps']:
        if s[0] == '?':
            want = C.answer(ctx, cfg, s[1])
            res.count('answers_checked')
            if out[i] != want:
                return res.bad('answer depends on history', 'config %s, question %d %s: %s' % (cfg, i, s[1], C.diff(out[i], want)))
            i += 1
        elif s[0] == 'open':
            opened[s[1]] = s[2]
        elif s[0] == 'drain':
            drained.add(s[1])
    for k, prefix in opened.items():
        want = ctx.once(['list', cfg, prefix], listing, morph, prefix)
        res.count('iterations')
        g = got.get(k, [])
        if g != want[:len(g)] or (k in drained and len(g) != len(want)):
            return res.bad('iteration disturbed', 'config %s, iterator %s over %r yielded %d of %d: %s' % (
                cfg, k, prefix, len(g), len(want), core.short([x for x in zip(g, want) if x[0] != x[1]][:1] or [g[-1:], want[-1:]], 600)))
    return res


def shrink(ctx, case):
    st = case['steps']
    n = len(st)
    size = max(1, n // 2)
    while True:
        for i in range(0, n, size):
            if n > size:
                yield dict(case, steps=st[:i] + st[i + size:])
        if size == 1:
            break
        size //= 2
    for i, s in enumerate(st):
        if s[0] == 'scan' and s[2] > 1:
            yield dict(case, steps=st[:i] + [s[:2] + [s[2] // 4]] + st[i + 1:])
        if s[0] == 'noise':
            if s[2] > 1:
                yield dict(case, steps=st[:i] + [s[:2] + [s[2] // 2] + s[3:]] + st[i + 1:])
            if s[2] <= 64:
                flat = noise(core.case_rng('noise', s[1]), s[2], s[3], s[4], s[5], C.toy_of(case['cfg']))
                yield dict(case, steps=st[:i] + [['?', op] for op in flat] + st[i + 1:])
