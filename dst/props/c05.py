# -*- coding: utf-8 -*-
""" C05: results belong to the caller. """
import gc
import itertools
import weakref

import core
import ops
from props import common as C
from props.c01 import pick

CFG = [('ru', 26), ('plain', 8), ('plainbare', 8), ('t-plainbare', 4), ('bare', 6), ('t-ru', 20), ('t-uk', 10), ('t-nested', 12), ('t-subst', 8), ('t-odd', 4), ('t-ru-plain', 10)]
GETS = [('parse', 26), ('tag', 22), ('nf', 8), ('lexeme', 14), ('agree', 8), ('iter', 4), ('upd', 4), ('get_lexeme', 6), ('fix', 2), ('paradigm', 3), ('normalized', 3), ('arg', 8), ('unit', 10)]
HURTS = ['clear', 'pop', 'reverse', 'dup', 'replace', 'sort', 'append']


def setup(ctx):
    C.init_toy()
    ctx.morphs = {name: C.make(name) for name, _ in CFG}


def gen(rng, idx, ctx):
    cfg = pick(rng, CFG)
    toy = C.toy_of(cfg)
    theme = ops.theme(rng) if rng.random() < 0.6 else None
    pool = [ops.gen_word(rng, theme, toy) for _ in range(rng.choice([1, 2, 3, 5]))]
    steps = []
    n = 0
    plain = 'plain' in cfg
    got = []
    dropped = False
    for _ in range(rng.choice([3, 6, 12, 20])):
        x = rng.random()
        if not dropped and x < 0.4 or not n and not dropped:
            k = pick(rng, GETS)
            w = rng.choice(pool)
            arg = rng.choice(ops.NUMS) if k == 'agree' else sorted(rng.choice(ops.GRAMMEMES)) if k in ('upd', 'fix', 'arg') else \
                [rng.choice([0, 0, 1, 2]), rng.choice(['tag', 'tag', 'parse', 'lexeme', 'seen', 'seenp'])] if k == 'unit' else None
            steps.append(['get', n, k, w, rng.choice([0, 0, 1, 2]), arg])
            got.append(steps[-1])
            n += 1
        elif x < 0.65 and n:
            j = rng.choice([n - 1, rng.randrange(n)])
            steps.append(['hurt', j, rng.choice(HURTS)])
            if not dropped and rng.random() < 0.6:
                # ask the same again at once
                _, _, k, w, i, arg = got[j]
                op = {'parse': ['parse', w], 'tag': ['tag', w], 'nf': ['nf', w], 'lexeme': ['lexeme', w, i], 'get_lexeme': ['lexeme', w, i], 'agree': ['agree', w, i, arg],
                      'normalized': ['normalized', w, i], 'iter': ['iter', w[:2].lower(), 3], 'upd': ['inflect', w, i, arg], 'fix': ['inflect', w, i, arg],
                      'arg': ['inflect', w, i, arg], 'unit': ['unit', w, i, arg and arg[0], {'seen': 'tag', 'seenp': 'parse'}.get(arg and arg[1], arg and arg[1])] if k == 'unit' and rng.random() < 0.6 else [rng.choice(['parse', 'tag']), w]}.get(k, ['tagobs', w, i])
                steps.append(['?', op])
        elif x < 0.75 and n:
            # reach one level deeper: an item of a kept list, and what it hands out
            steps.append(['deep', rng.randrange(n), rng.randrange(4), rng.choice(['lexeme', 'agree', 'grammemes', 'cyr', 'upd', 'fix', 'inflect']), rng.choice(HURTS), rng.choice(ops.NUMS)])
        elif x < 0.92 and not dropped:
            k = rng.choice(['parse', 'tag', 'nf', 'lexeme', 'inflect', 'agree', 'normalized', 'tagobs', 'known', 'isknown'])
            w = rng.choice(pool)
            op = {'inflect': [k, w, 0, rng.choice(ops.GRAMMEMES)], 'agree': [k, w, 0, rng.choice(ops.NUMS)], 'known': [k, w, False]}.get(k)
            steps.append(['?', op or ([k, w] if k in ('parse', 'tag', 'nf') else [k, w, rng.choice([0, 1])])])
        elif x < 0.96:
            steps.append(['gc'])
        elif not plain and not dropped and n and rng.random() < 0.6:
            steps.append(['drop'])
            dropped = True
    tail = []
    if not dropped:
        for w in pool:
            tail += [['?', ['parse', w]], ['?', ['tag', w]], ['?', ['tagobs', w, 0]], ['?', ['lexeme', w, 0]], ['?', ['agree', w, 0, rng.choice(ops.NUMS)]]]
    return {'cfg': cfg, 'steps': steps + tail, 'kept': rng.randrange(1 << 30)}


def hurt(c, how):
    """ Modify a container the way a caller might. """
    if isinstance(c, list):
        if how == 'clear':
            del c[:]
        elif how == 'pop' and c:
            c.pop()
        elif how == 'reverse':
            c.reverse()
        elif how == 'dup':
            c.extend(list(c))
        elif how == 'replace' and c:
            c[0] = 'replaced'
        elif how == 'sort':
            c.sort(key=str)
        elif how == 'append':
            c.append('appended')
        return True
    if isinstance(c, set):
        if how in ('clear', 'reverse'):
            c.clear()
        elif how in ('pop', 'sort') and c:
            c.pop()
        else:
            c.add('plur')
            c.add('nonsense')
        return True
    if isinstance(c, dict):
        if how in ('clear', 'pop'):
            c.clear()
        else:
            c['nonsense'] = 1
        return True
    return False


def fetch(morph, k, w, i, arg, notes):
    if k == 'parse':
        return morph.parse(w)
    if k == 'tag':
        return morph.tag(w)
    if k == 'nf':
        return morph.normal_forms(w)
    ps = morph.parse(w)
    p = ps[min(i, len(ps) - 1)]
    if k == 'lexeme':
        return p.lexeme if hasattr(p, 'lexeme') else morph.get_lexeme(p)
    if k == 'get_lexeme':
        return morph.get_lexeme(p)
    if k == 'agree':
        return p[1].numeral_agreement_grammemes(arg)
    if k == 'iter':
        return [x for x in itertools.islice(morph.iter_known_word_parses(w[:2].lower()), 3)]
    if k == 'upd':
        want = set(arg)
        try:
            r = p[1].updated_grammemes(want)
        except ValueError:
            r = None
        if want != set(arg):
            notes.append('argument modified: %s' % sorted(want))
        return r
    if k == 'arg':
        # the caller goes on using what it passed
        want = set(arg)
        try:
            p.inflect(want) if hasattr(p, 'inflect') else p[1].updated_grammemes(want)
        except ValueError:
            pass
        if want != set(arg):
            notes.append('argument modified: %s' % sorted(want))
        return want
    if k == 'unit':
        seen = set()
        try:
            r = ops.unit_call(morph, w, i, arg[0], {'seen': 'tag', 'seenp': 'parse'}.get(arg[1], arg[1]), seen)
        except Exception:
            return None
        return seen if arg[1] in ('seen', 'seenp') else r
    if k == 'fix':
        want = set(arg)
        r = p[1].fix_rare_cases(want)
        if hasattr(p, 'inflect'):
            try:
                p.inflect(want)
            except ValueError:
                pass
        if want != set(arg):
            notes.append('argument modified: %s' % sorted(want))
        return r
    if k == 'paradigm':
        m = p[4][0]
        if len(m) >= 4:
            return morph.dictionary.build_paradigm_info(m[2])
        return None
    if k == 'normalized':
        return [p.normalized] if hasattr(p, 'normalized') else None
    raise AssertionError(k)


def later(p):
    """ What a kept result tells about itself, as plain data. """
    if not hasattr(p, '_morph') and not hasattr(p, 'lexeme'):
        return None
    return [ops.c_parse(p), [ops.c_parse(f) for f in p.lexeme], ops.c_parse(p.normalized), p.is_known, ops.c_tag(p.tag),
            [ops.c_parse(x) if x else None for x in [inflect(p, g) for g in (['plur'], ['gent'], ['datv', 'sing'])]]]


def inflect(p, g):
    try:
        return p.inflect(set(g))
    except ValueError:
        return None


def kept_of(morph, w, i):
    ps = morph.parse(w)
    return later(ps[min(i, len(ps) - 1)])


def child(ctx, case):
    cfg = case['cfg']
    morph = ctx.morphs.pop(cfg)
    ctx.morphs.clear()
    out = []
    notes = []
    boxes = {}
    kept = []
    nhurt = 0
    for s in case['steps']:
        k = s[0]
        if k == 'get':
            boxes[s[1]] = fetch(morph, s[2], s[3], s[4], s[5], notes)
            b = boxes[s[1]]
            if s[2] in ('parse',) and isinstance(b, list) and hasattr(b[0], 'lexeme'):
                j = min(s[4], len(b) - 1)
                kept.append((['later', s[3], j], b[j]))
        elif k == 'hurt':
            if hurt(boxes.get(s[1]), s[2]):
                nhurt += 1
        elif k == 'deep':
            b = boxes.get(s[1])
            if isinstance(b, list) and b:
                p = b[s[2] % len(b)]
                tag = p[1] if isinstance(p, tuple) and len(p) == 5 else p if hasattr(p, 'grammemes') else None
                c = None
                if s[3] == 'lexeme' and hasattr(p, 'lexeme'):
                    c = p.lexeme
                elif tag is not None and hasattr(tag, 'grammemes'):
                    if s[3] == 'agree':
                        c = tag.numeral_agreement_grammemes(s[5])
                    elif s[3] == 'grammemes':
                        c = tag.grammemes
                    elif s[3] == 'cyr':
                        c = tag.grammemes_cyr
                    elif s[3] == 'fix':
                        c = tag.fix_rare_cases(set(['loc2', 'sing']))
                    elif s[3] == 'upd':
                        c = tag.updated_grammemes(set(['plur']))
                    elif s[3] == 'inflect' and hasattr(p, 'inflect'):
                        g = set(['plur'])
                        p.inflect(g)
                        if g != set(['plur']):
                            notes.append('argument of inflect modified: %s' % sorted(g))
                if hurt(c, s[4]):
                    nhurt += 1
        elif k == '?':
            out.append(ops.run_op(morph, s[1]))
        elif k == 'gc':
            gc.collect()
        elif k == 'drop':
            del morph
            gc.collect()
    fin = []
    for key, p in kept[:6]:
        try:
            fin.append([key, later(p)])
        except Exception as e:
            fin.append([key, ['!', type(e).__name__, str(e)]])
    return out, fin, notes, nhurt


def execute(ctx, case):
    res = core.Result()
    cfg = case['cfg']
    m = ctx.morphs[cfg]
    out, fin, notes, nhurt = ctx.call(child, ctx, case)
    res.case = case
    res.sig = [cfg, case['steps']]
    res.nontrivial = nhurt > 0 or any(s[0] in ('drop', 'gc') for s in case['steps'])
    res.log = core.digest([out, fin])
    res.count('modified_containers', nhurt)
    res.count('dropped_analyzers', sum(1 for s in case['steps'] if s[0] == 'drop'))
    res.count('garbage_collections', sum(1 for s in case['steps'] if s[0] in ('gc', 'drop')))
    if notes:
        return res.bad('argument modified', '; '.join(notes))
    i = 0
    for s in case['steps']:
        if s[0] == '?':
            want = C.answer(ctx, cfg, s[1])
            res.count('answers_checked')
            if out[i] != want:
                return res.bad('answer changed by the caller', 'config %s, question %d %s: %s' % (cfg, i, s[1], C.diff(out[i], want)))
            i += 1
    for key, got in fin:
        want = ctx.once(['kept', cfg, key], kept_of, m, key[1], key[2])
        res.count('kept_results_checked')
        if got != want:
            return res.bad('kept result changed', 'config %s, %s: %s' % (cfg, key, C.diff(got, want)))
    return res


def shrink(ctx, case):
    st = case['steps']
    n = len(st)
    size = max(1, n // 2)
    while True:
        for i in range(0, n, size):
            if n > size:
                yield dict(case, steps=st[:i] + st[i + size:])
        if size == 1:
            break
        size //= 2
