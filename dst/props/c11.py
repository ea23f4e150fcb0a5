# -*- coding: utf-8 -*-
""" C11: a compilation that cannot read or write everything reports it. """
import os
import shutil

import core
import lexicon
from props import comp as K

PLACES = ['no-source', 'source-is-folder', 'no-parent', 'out-is-file', 'dangling', 'empty-source']


def gen(rng, idx, ctx):
    x = rng.random()
    case = {'srcs': [K.gen_source(rng)], 'start': rng.choice(['fresh', 'fresh', 'old', 'old', 'empty', 'half'])}
    case['srcs'].append(K.gen_source(rng, rng.choice([1, 3, 8])) if case['start'] == 'old' else None)
    case['kind'] = 'error' if x < 0.62 else 'benign' if x < 0.76 else 'truncate' if x < 0.93 else 'place'
    case['seed'] = rng.randrange(1 << 30)
    return case


def explicit(case, dry, size):
    rng = core.case_rng('c11', case['seed'])
    k = case['kind']
    if k == 'error':
        plan = [K.error_plan(rng, dry[3]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        return dict(case, plan=plan, rnd=K.benign_rnd(rng) if rng.random() < 0.2 else None)
    if k == 'benign':
        return dict(case, plan=[], rnd=K.benign_rnd(rng))
    if k == 'truncate':
        cut = rng.choice([0, 1, 5, 40]) if rng.random() < 0.15 else size - 1 - rng.randrange(min(size, 60)) if rng.random() < 0.4 else rng.randrange(size)
        return dict(case, plan=[], rnd=None, cut=cut)
    return dict(case, plan=[], rnd=None, place=rng.choice(PLACES))


def execute(ctx, case):
    res = core.Result()
    d = ctx.fresh_dir('c11')
    out = os.path.join(d, 'out')
    src, old = case['srcs']
    xml = os.path.join(d, 'source.xml')
    K.write_source(src, xml)
    size = os.path.getsize(xml)
    ref, new, log = K.compile_clean(ctx, d, src, name='ref')
    res.case = case
    m = K.check_model(new, src)
    if m:
        return res.bad('wrong dictionary', m)
    state = None
    if case['start'] == 'old':
        o, opened, _ = K.compile_clean(ctx, d, old, out=out, name='old')
        if K.check_model(opened, old):
            return res.bad('wrong dictionary', K.check_model(opened, old))
        state = opened[2]
    elif case['start'] == 'empty':
        os.mkdir(out)
    elif case['start'] == 'half':
        shutil.copytree(ref, out)
        os.remove(os.path.join(out, 'meta.json'))
    ow = case['start'] != 'fresh'
    if 'plan' not in case:
        dry_out = os.path.join(d, 'dry')
        if os.path.exists(out):
            shutil.copytree(out, dry_out)
        dry = ctx.call(K.attempt, xml, dry_out, src, ow, d)
        case = explicit(case, dry, size)
    res.case = case
    use, to = xml, out
    if case.get('place') in ('out-is-file', 'dangling'):
        ow = True           # otherwise something that is in the way is left alone
    if case['kind'] == 'truncate':
        use = os.path.join(d, 'cut.xml')
        with open(xml, 'rb') as f, open(use, 'wb') as g:
            g.write(f.read(case['cut']))
    place = case.get('place')
    if place == 'no-source':
        use = os.path.join(d, 'missing.xml')
    elif place == 'source-is-folder':
        use = os.path.join(d, 'folder.xml')
        os.mkdir(use)
    elif place == 'empty-source':
        use = os.path.join(d, 'empty.xml')
        open(use, 'w').close()
    elif place == 'no-parent':
        to = os.path.join(d, 'no', 'such', 'out')
    elif place == 'out-is-file':
        to = os.path.join(d, 'file')
        open(to, 'w').close()
    elif place == 'dangling':
        to = os.path.join(d, 'link')
        os.symlink(os.path.join(d, 'nowhere', 'x'), to)
    got = ctx.call(K.attempt, use, to, src, ow, d, case['plan'], case['rnd'])
    how, text, fired, log = got[:4]
    for p, n in zip(case['plan'], fired):
        if n:
            res.count('fault:%s%s' % (p[1], ' ' + p[2] if p[2] else ''))
    for r in log:
        if r[5] in ('short', 'eintr') and case['rnd']:
            res.count('fault:' + r[5])
    if case['kind'] in ('truncate', 'place'):
        res.count('fault:' + (place or 'truncated source'))
    found = ctx.call(K.open_dict, to) if os.path.isdir(to) else ['no', 'no folder']
    hit = [[log[p[0]][:3] if p[0] < len(log) else None, p] for p, n in zip(case['plan'], fired) if n]
    where = '%s folder, %s' % (case['start'], case.get('place') or ('source cut to %d of %d bytes' % (case['cut'], size) if 'cut' in case else hit or 'no failing operation'))
    res.sig = [core.digest(case['srcs']), case['start'], case['plan'], case['rnd'], case.get('cut'), place]
    res.nontrivial = bool(hit or place or 'cut' in case or case['rnd'])
    res.log = core.digest([how, found[0], found[2] if found[0] == 'ok' else None, [r[:2] + r[3:] for r in log]])
    if found[0] == 'ok' and found[2] not in (state, new[2]):
        return res.bad('mixed or partial dictionary opens', '%s: compilation %s (%s); the folder opens, but is neither the old nor the new dictionary' % (where, how, text))
    if how == 'ok':
        if found[0] != 'ok' or found[2] != new[2]:
            return res.bad('failure not reported', '%s: compilation returned normally, but the folder gives %s' % (where, found[1] if found[0] == 'no' else 'another dictionary'))
        if place:
            return res.bad('failure not reported', '%s: compilation returned normally' % where)
        res.count('survived')
    else:
        res.count('raised')
        if not hit and case['kind'] not in ('truncate', 'place'):
            return res.bad('compilation fails without a failure', '%s, short transfers and interrupted calls %s: %s' % (where, case['rnd'], text))
    # the fault is gone
    if to == out:
        again = ctx.call(K.attempt, xml, out, src, os.path.exists(out), d)
        found = ctx.call(K.open_dict, out)
        if again[0] != 'ok' or found[0] != 'ok' or found[2] != new[2]:
            return res.bad('no recovery', '%s: compiling again after the fault: %s %s; the folder gives %s' % (where, again[0], again[1], found[:1]))
    return res


def shrink(ctx, case):
    pl = case.get('plan') or []
    for i in range(len(pl)):
        if len(pl) > 1:
            yield dict(case, plan=pl[:i] + pl[i + 1:])
    if case.get('rnd') and case['kind'] == 'error':
        yield dict(case, rnd=None)
    if case['start'] != 'fresh':
        yield {'srcs': [case['srcs'][0], None], 'start': 'fresh', 'kind': case['kind'], 'seed': case['seed']}
    for lex in lexicon.shrink(case['srcs'][0]['lex']):
        s = [dict(case['srcs'][0], lex=lex), case['srcs'][1]]
        yield dict(case, srcs=s)
        if 'cut' not in case or True:
            yield {'srcs': s, 'start': case['start'], 'kind': case['kind'], 'seed': case['seed']}
