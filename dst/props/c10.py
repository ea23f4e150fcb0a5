# -*- coding: utf-8 -*-
""" C10: a crash while compiling never leaves a wrong dictionary behind. """
import os
import shutil

import core
import lexicon
from props import comp as K


def gen(rng, idx, ctx):
    srcs = [K.gen_source(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    start = rng.choice(['fresh', 'fresh', 'old', 'old', 'old', 'old-prob', 'empty', 'foreign', 'half'])
    atts = []
    for i in range(rng.choice([1, 1, 2, 2, 3, 4])):
        x = rng.random()
        kind = 'crash' if x < 0.72 else 'strike' if x < 0.87 else 'none'
        atts.append({'src': rng.randrange(len(srcs)), 'overwrite': start != 'fresh' and rng.random() < 0.8 or i > 0 and rng.random() < 0.85,
                     'kind': kind, 'seed': rng.randrange(1 << 30)})
    return {'srcs': srcs, 'start': start, 'attempts': atts}


def spoil_prob(path):
    """ Give the dictionary probabilities, like a later processing step would. """
    from pymorphy2.dawg import ConditionalProbDistDAWG
    from pymorphy2 import MorphAnalyzer
    from pymorphy2.opencorpora_dict.storage import update_meta
    m = MorphAnalyzer(path, probability_estimator_cls=None)
    w = [p.word for p in m.iter_known_word_parses()][:1] or ['кот']
    ConditionalProbDistDAWG([((w[0], t), 0.25) for t in m.tag(w[0])]).save(os.path.join(path, 'p_t_given_w.intdawg'))
    update_meta(os.path.join(path, 'meta.json'), [('P(t|w)', True)])


def explicit(a, dry):
    """ Choose the fault, knowing the operations of the undisturbed compilation. """
    rng = core.case_rng('c10', a['seed'])
    if a['kind'] == 'crash':
        return dict(a, plan=[K.crash_plan(rng, dry[3])])
    if a['kind'] == 'strike':
        n = max(1, dry[4][0])
        # the end of the compilation writes the files
        k = 1 + (rng.randrange(n) if rng.random() < 0.5 else n - 1 - rng.randrange(max(1, n // 6)))
        return dict(a, plan=[], strike=[k, rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])])
    return dict(a, plan=[])


def execute(ctx, case):
    res = core.Result()
    d = ctx.fresh_dir('c10')
    out = os.path.join(d, 'out')
    expected = {}
    xmls = []
    atts = []
    obs = []
    for i, src in enumerate(case['srcs']):
        p = os.path.join(d, 'src%d.xml' % i)
        K.write_source(src, p)
        xmls.append(p)

    def want(i):
        """ The complete dictionary of source i, checked against the model. """
        if i not in expected:
            o = os.path.join(d, 'ref%d' % i)
            how, text, _, log, _ = ctx.call(K.attempt, xmls[i], o, case['srcs'][i], False, d)
            if how != 'ok':
                expected[i] = ['no', text]
            else:
                expected[i] = ctx.call(K.open_dict, o)
            res.count('compilations')
        return expected[i]

    def check_new(i):
        m = K.check_model(want(i), case['srcs'][i])
        return m
    used = sorted(set([0] + [a['src'] for a in case['attempts']]))
    res.case = case
    for i in used:
        m = check_new(i)
        if m:
            return res.bad('wrong dictionary', m)
    # the folder before
    state = None
    if case['start'] in ('old', 'old-prob'):
        shutil.copytree(os.path.join(d, 'ref0'), out)
        if case['start'] == 'old-prob':
            ctx.call(spoil_prob, out)
        state = ctx.call(K.open_dict, out)[2]
    elif case['start'] == 'empty':
        os.mkdir(out)
    elif case['start'] == 'foreign':
        os.mkdir(out)
        with open(os.path.join(out, 'notes.txt'), 'w') as f:
            f.write('mine')
    elif case['start'] == 'half':
        shutil.copytree(os.path.join(d, 'ref0'), out)
        os.remove(os.path.join(out, 'meta.json'))
    for n, a in enumerate(case['attempts']):
        src = case['srcs'][a['src']]
        existed = os.path.exists(out)
        before = K.listing(out) if existed else None
        if 'plan' not in a:
            dry_out = os.path.join(d, 'dry')
            if os.path.exists(dry_out):
                shutil.rmtree(dry_out)
            if existed:
                shutil.copytree(out, dry_out)
            dry = ctx.call(K.attempt, xmls[a['src']], dry_out, src, a['overwrite'], d, (), None, None,
                           [None, 'KeyboardInterrupt'] if a['kind'] == 'strike' else None)
            a = explicit(a, dry)
        atts.append(a)
        res.count('compilations')
        got, code = ctx.fork(K.attempt, xmls[a['src']], out, src, a['overwrite'], d, a['plan'], None, None, a.get('strike'))
        if code not in (0, 77):
            raise core.ChildCrash('compilation ended with status %s' % code)
        crashed = code == 77
        if crashed:
            res.count('fault:%s' % a['plan'][0][1])
        elif got[4] and got[4][1]:
            res.count('fault:%s during compilation' % a['strike'][1])
        found = ctx.call(K.open_dict, out) if os.path.exists(out) else ['no', 'no folder']
        new = want(a['src'])[2]
        where = 'attempt %d (%s, overwrite=%s, %s)' % (n + 1, case['start'] if n == 0 else 'again', a['overwrite'], a['plan'] or a.get('strike') or 'no fault')
        obs.append([crashed, got[0] if got else None, found[0], found[2] if found[0] == 'ok' else None])
        res.case = dict(case, attempts=atts + case['attempts'][n + 1:])
        if found[0] == 'ok' and found[2] not in (state, new):
            return res.bad('mixed or partial dictionary opens', '%s: the folder opens, but is neither the old nor the new dictionary (%d words)' % (where, len(found[1])))
        if existed and not a['overwrite']:
            if K.listing(out) != before and not (before == [] and found[0] == 'ok' and found[2] == new):
                return res.bad('folder touched', '%s: the folder existed and overwriting was not asked for, but it changed' % where)
        elif not crashed and got[0] == 'ok':
            if found[0] != 'ok' or found[2] != new:
                return res.bad('finished compilation not readable', '%s: compilation returned, but a later process finds: %s' % (where, found[:2] if found[0] == 'no' else 'another dictionary'))
            extra = [x for x in K.listing(out) if x[0].endswith('notes.txt')]
            if case['start'] == 'foreign' and not extra:
                res.count('foreign_files_removed')
        elif not crashed and not (got[4] and got[4][1]):
            return res.bad('compilation fails without a fault', '%s: %s' % (where, got[1]))
        if crashed:
            res.count('crashes_then_' + ('closed' if found[0] == 'no' else 'old' if found[2] == state and state != new else 'new'))
        state = found[2] if found[0] == 'ok' else state if found[0] == 'ok' else None
    # once nothing goes wrong any more, the folder can be compiled into
    i = case['attempts'][-1]['src'] if case['attempts'] else 0
    ow = os.path.exists(out)
    got = ctx.call(K.attempt, xmls[i], out, case['srcs'][i], ow, d)
    found = ctx.call(K.open_dict, out)
    if got[0] != 'ok' or found[0] != 'ok' or found[2] != want(i)[2]:
        return res.bad('no recovery', 'after %s, compiling again without faults: %s %s, then the folder gives %s' % (
            [a['plan'] or a.get('strike') for a in atts], got[0], got[1], found[:1]))
    res.sig = [[core.digest(s) for s in case['srcs']], case['start'], [[a['src'], a['overwrite'], a['plan'], a.get('strike')] for a in atts]]
    res.log = core.digest([obs, found[2]])
    res.nontrivial = any(o[0] or o[1] == 'raised' for o in obs)
    return res


def shrink(ctx, case):
    at = case['attempts']
    for i in range(len(at)):
        if len(at) > 1:
            yield dict(case, attempts=at[:i] + at[i + 1:])
    for i, s in enumerate(case['srcs']):
        for lex in lexicon.shrink(s['lex']):
            # operation numbers move: choose the fault anew
            free = [{k: v for k, v in a.items() if k not in ('plan', 'strike')} for a in at]
            yield dict(case, srcs=case['srcs'][:i] + [dict(s, lex=lex)] + case['srcs'][i + 1:])
            yield dict(case, srcs=case['srcs'][:i] + [dict(s, lex=lex)] + case['srcs'][i + 1:], attempts=free)
