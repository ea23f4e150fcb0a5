# -*- coding: utf-8 -*-
""" C12: adding probabilities or metadata to a dictionary is all or nothing. """
import json
import os
import shutil
import sys
import warnings

import core
import ops
import worlds
from props import comp as K
from sim import io as simio


def setup(ctx):
    sys.path.insert(0, os.path.join(core.HERE, 'stubs'))
    import nltk, opencorpora  # noqa
    from pymorphy2.opencorpora_dict import probability  # noqa
    for n in worlds.NAMES:
        ctx.once(['amb', n], ambiguous, worlds.path(n))


def ambiguous(path):
    """ Words with their tags, ambiguous ones first. """
    from pymorphy2 import MorphAnalyzer
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = MorphAnalyzer(path, probability_estimator_cls=None)
    ws = sorted(set(p.word for p in m.iter_known_word_parses()))
    out = [[w, [str(t) for t in m.tag(w)]] for w in ws + ['зюзюка', 'Ёж', 'псевдо' + ws[0], 'стали', 'КОТ', 'pdf']]
    return sorted(out, key=lambda x: (len(x[1]) < 2, x[0]))


EXTRA = [['corpus_revision', 4213], ['note', 'заметка "x"'], ['source', 'changed'], ['nested', {'a': [1, 2, {'b': None}]}], ['empty', ''], ['ok', True],
         ['P(t|w)_note', 'x'], ['list', [1, 'два', []]], ['compiled_at', '2000-01-01'], ['long', 'длинно ' * 400], ['big', 10 ** 20]]


def gen(rng, idx, ctx):
    dic = rng.choice(['ru1', 'ru1', 'uk1', 'uk1', 'tiny'])
    words = ctx.once(['amb', dic], ambiguous, worlds.path(dic))
    amb = [w for w in words if len(w[1]) > 1]
    steps = []
    for i in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if rng.random() < 0.7:
            corpus = []
            for w, tags in [rng.choice(amb if amb and rng.random() < 0.85 else words) for _ in range(rng.choice([0, 1, 2, 5, 10]))]:
                for _ in range(rng.choice([1, 1, 2, 3, 6])):
                    t = rng.choice(tags)
                    corpus.append([w.title() if rng.random() < 0.2 else w, [t] if rng.random() < 0.85 else tags[:2] if rng.random() < 0.7 else ['UNKN']])
            rng.shuffle(corpus)
            s = {'op': 'prob', 'corpus': corpus, 'freq': rng.choice([1, 1, 1, 2, 3, '1']), 'morph': rng.random() < 0.3}
        else:
            s = {'op': 'meta', 'extra': rng.sample(EXTRA, rng.choice([1, 1, 2, 4])), 'as': rng.choice(['list', 'list', 'dict'])}
        x = rng.random()
        s['kind'] = 'crash' if x < 0.45 else 'error' if x < 0.75 else 'strike' if x < 0.85 else 'none' if x < 0.93 else 'benign'
        s['seed'] = rng.randrange(1 << 30)
        steps.append(s)
    return {'dict': dic, 'steps': steps}


def do_step(d, path, s):
    import pymorphy2
    if s['op'] == 'meta':
        from pymorphy2.opencorpora_dict.storage import update_meta
        ex = [list(x) for x in s['extra']]
        update_meta(os.path.join(path, 'meta.json'), dict(map(tuple, ex)) if s['as'] == 'dict' else [tuple(x) for x in ex])
        return
    from pymorphy2.opencorpora_dict.probability import add_conditional_tag_probability
    corpus = os.path.join(os.path.dirname(d), 'corpus.json')
    with core.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        morph = pymorphy2.MorphAnalyzer(path, probability_estimator_cls=None) if s['morph'] else None
        add_conditional_tag_probability(corpus, path, s['freq'], morph=morph)


def attempt(d, path, s, plan=(), rnd=None, strike=None):
    with open(os.path.join(os.path.dirname(d), 'corpus.json'), 'w', encoding='utf8') as f:
        json.dump(s.get('corpus', []), f)           # outside of the simulated disk
    disk = simio.Disk(d, plan, rnd)
    st = K.Strike(*strike) if strike else None
    with disk:
        try:
            if st:
                sys.settrace(st.glob)
            try:
                do_step(d, path, s)
            finally:
                if st:
                    sys.settrace(None)
            how, text = 'ok', ''
        except BaseException as e:
            how, text = 'raised', '%s: %s' % (type(e).__name__, str(e)[:200])
    return [how, text, disk.fired(), disk.log(), (st.count, st.fired) if st else None]


def look(path, words):
    """ What a later process sees: answers, and metadata. """
    from pymorphy2 import MorphAnalyzer
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = MorphAnalyzer(path)
    except Exception as e:
        return ['no', '%s: %s' % (type(e).__name__, str(e)[:200])]
    ans = [[w, [[str(p.tag), p.normal_form, '%.9f' % p.score] for p in m.parse(w)], [str(t) for t in m.tag(w)]] for w in words]
    return ['ok', ans, json.loads(json.dumps(m.dictionary.meta))]


def expected(path, s, words):
    """ An independent model of a complete update: [answers, metadata]. """
    from pymorphy2 import MorphAnalyzer
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        plain = MorphAnalyzer(path, probability_estimator_cls=None)
    before = look(path, words)
    meta = dict(before[2])
    if s['op'] == 'meta':
        for k, v in s['extra']:
            meta[k] = json.loads(json.dumps(v))
        if s['extra'] and 'P(t|w)' in dict(map(tuple, s['extra'])):
            raise core.HarnessError('not modelled')
        return [before[1], meta]
    def grs(t):
        # the corpus may spell grammemes in the way the compiler replaces
        for a, b in (('loc1', 'loct'), ('gen1', 'gent'), ('acc1', 'accs')):
            t = t.replace(a, b)
        return frozenset(t.replace(' ', ',').split(','))
    counts = {}
    n = 0
    for w, tags in s['corpus']:
        if len(tags) != 1 or len(plain.tag(w)) < 2 or tags[0] == 'UNKN':
            continue
        n += 1
        by = counts.setdefault(w.lower(), {})
        by[grs(tags[0])] = by.get(grs(tags[0]), 0) + 1
    table = {}
    for w, by in counts.items():
        total = sum(by.values())
        if total < int(s['freq']):
            continue
        bins = max(len(plain.tag(w)), len(by))
        pr = {}
        for p in plain.parse(w):
            pr[str(p.tag)] = (by.get(frozenset(p.tag.grammemes), 0) + 1.0) / (total + bins)
        if len(set(pr.values())) > 1:
            for t, x in pr.items():
                table[w, t] = int(x * 1000000) / 1000000
    ans = []
    for w in words:
        ps = [[str(p.tag), p.normal_form, p.score] for p in plain.parse(w)]
        ts = [str(t) for t in plain.tag(w)]
        lw = w.lower()
        probs = [table.get((lw, p[0]), 0) for p in ps]
        if sum(probs):
            ps = [[p[0], p[1], x] for p, x in zip(ps, probs)]
            ps.sort(key=lambda p: -p[2])
        else:
            k = sum(p[2] for p in ps)
            ps = [[p[0], p[1], p[2] / k] for p in ps]
        ts.sort(key=lambda t: -table.get((lw, t), 0))
        ans.append([w, [[p[0], p[1], '%.9f' % p[2]] for p in ps], ts])
    meta.update({'P(t|w)': True, 'P(t|w)_unique_words': len(counts), 'P(t|w)_outcomes': n, 'P(t|w)_min_word_freq': int(s['freq'])})
    return [ans, meta]


def explicit(s, dry):
    rng = core.case_rng('c12', s['seed'])
    log = dry[3]
    s = dict(s, plan=[], rnd=None, strike=None)
    if s['kind'] in ('crash', 'error') and log:
        plan = (K.crash_plan if s['kind'] == 'crash' else K.error_plan)(rng, log)
        # the dictionary is read first: strike mostly at what follows
        first = next((i for i, r in enumerate(log) if r[0] in ('openw', 'unlink', 'rename')), 0)
        if plan[0] < first and rng.random() < 0.7:
            plan[0] = first + rng.randrange(len(log) - first)
            if plan[1] == 'trunc-read' and log[plan[0]][0] != 'read':
                plan[1:3] = ['err', 'EIO']
        s['plan'] = [plan]
    elif s['kind'] == 'strike':
        n = max(1, dry[4][0])
        s['strike'] = [1 + (rng.randrange(n) if rng.random() < 0.4 else n - 1 - rng.randrange(min(n, 60))), rng.choice(['KeyboardInterrupt', 'MemoryError'])]
    elif s['kind'] == 'benign':
        s['rnd'] = K.benign_rnd(rng)
    return s


def execute(ctx, case):
    res = core.Result()
    base = ctx.fresh_dir('c12')
    d = os.path.join(base, 'disk')
    os.mkdir(d)
    path = os.path.join(d, 'dict')
    shutil.copytree(worlds.path(case['dict']), path)
    amb = ctx.once(['amb', case['dict']], ambiguous, worlds.path(case['dict']))
    words = [w for w, t in amb if len(t) > 1][:25] + [w for w, t in amb if len(t) < 2][:3]
    for s in case['steps']:
        words += [w for w, _ in s.get('corpus', ())]
    words = sorted(set(words))
    state = ctx.call(look, path, words)
    if state[0] != 'ok':
        raise core.HarnessError('toy dictionary does not open: %s' % state)
    steps = []
    obs = []
    res.case = case
    for n, s in enumerate(case['steps'] + [None]):
        if s is None:
            # nothing goes wrong any more: the last update has to work
            s = dict(case['steps'][-1], plan=[], rnd=None, strike=None, kind='none')
        if 'plan' not in s:
            dry_path = os.path.join(d, 'dryy')
            if os.path.exists(dry_path):
                shutil.rmtree(dry_path)
            shutil.copytree(path, dry_path)
            dry = ctx.call(attempt, d, dry_path, s, (), None, [None, 'MemoryError'] if s['kind'] == 'strike' else None)
            s = explicit(s, dry)
        if n < len(case['steps']):
            steps.append(s)
        res.case = dict(case, steps=steps + case['steps'][n + 1:])
        want = ctx.call(expected, path, s, words)
        got, code = ctx.fork(attempt, d, path, s, s['plan'], s['rnd'], s['strike'])
        if code not in (0, 77):
            raise core.ChildCrash('update ended with status %s' % code)
        found = ctx.call(look, path, words)
        crashed = code == 77
        hit = crashed or any(got[2]) or bool(got[4] and got[4][1])
        if hit:
            res.count('fault:' + (s['plan'][0][1] + (' ' + s['plan'][0][2] if s['plan'][0][2] else '') if s['plan'] else s['strike'][1]))
        if s['rnd'] and got:
            res.count('fault:short or interrupted transfer', sum(1 for r in got[3] if r[5]))
        what = 'step %d (%s, %s)' % (n + 1, s['op'], ('%s at %s' % (s['plan'], got[3][s['plan'][0][0]][:3] if got and s['plan'][0][0] < len(got[3]) else 'death')) if s['plan'] else s['strike'] or 'no fault')
        obs.append([crashed, got[0] if got else '', core.digest(found)])
        if found[0] != 'ok':
            return res.bad('dictionary does not open any more', '%s: %s' % (what, found[1]))
        a = [state[1], want[0]]
        old_a, new_a = found[1] == a[0], found[1] == a[1]
        old_m, new_m = found[2] == state[2], found[2] == want[1]
        if not (old_a or new_a):
            w = next(((x, y, z) for x, y, z in zip(found[1], a[0], a[1]) if x not in (y, z)), None)
            if w is None:
                i = next(i for i, (x, z) in enumerate(zip(found[1], a[1])) if x != z)
                w = found[1][i], a[0][i], a[1][i]
            return res.bad('answers neither old nor new', '%s: %s, before %s, after the update it should be %s' % (what, w[0], w[1], w[2]))
        if not (old_m or new_m):
            return res.bad('metadata neither old nor new', '%s: %s, before %s, after the update it should be %s' % (what, found[2], state[2], want[1]))
        if not (new_a and new_m or old_m):
            return res.bad('metadata without probabilities', '%s: the metadata is new, the answers are old' % what)
        if not crashed and got[0] == 'ok' and not (new_a and new_m):
            return res.bad('update not visible', '%s: the update returned, but a later process sees %s' % (what, 'old answers' if not new_a else 'old metadata %s' % found[2]))
        if not crashed and got[0] != 'ok' and not hit:
            return res.bad('update fails without a fault', '%s: %s' % (what, got[1]))
        res.count('ended_%s%s' % ('new' if new_a else 'old', '/new' if new_m else '/old'))
        state = found
    res.sig = [case['dict'], [[s['op'], s.get('corpus'), s.get('extra'), s['plan'], s['strike'], s['rnd']] for s in steps]]
    res.nontrivial = any(s['plan'] or s['strike'] or s['rnd'] for s in steps)
    res.log = core.digest(obs)
    return res


def shrink(ctx, case):
    st = case['steps']
    for i in range(len(st)):
        if len(st) > 1:
            yield dict(case, steps=st[:i] + st[i + 1:])
    for i, s in enumerate(st):
        c = s.get('corpus')
        if c:
            for size in sorted(set([len(c), len(c) // 2, 1]), reverse=True):
                if size:
                    for j in range(0, len(c), size):
                        yield dict(case, steps=st[:i] + [dict(s, corpus=c[:j] + c[j + size:])] + st[i + 1:])
        if len(s.get('extra', ())) > 1:
            for j in range(len(s['extra'])):
                yield dict(case, steps=st[:i] + [dict(s, extra=s['extra'][:j] + s['extra'][j + 1:])] + st[i + 1:])
