# -*- coding: utf-8 -*-
""" C13: a damaged or unreadable dictionary is refused. """
import json
import os
import shutil
import warnings

import core
import ops
import worlds
from props import common as C
from props import comp as K
from sim import io as simio

VERSIONS = ['1.0', '3.0', '3.4', '24.0', '0.4', '2', '', '12.4', '-2.4', '4.2', 3.0, 1, '3.0.0', ' 3.4', '20.4']
PROBES = {None: ['кот', 'стали', 'бутявкой', 'псевдокошка', 'смотри-ка', 'еж', 'по-русски', 'XIV', 'КОТ', 'ламповый', 'хабровчанин', 'человек-гора']}


def setup(ctx):
    C.init_toy()


def gen(rng, idx, ctx):
    dic = rng.choice(worlds.NAMES + ['ru1', 'ru1', 'uk1']) if rng.random() < 0.95 else None
    n = rng.choice([1, 1, 1, 1, 2, 3])
    return {'dict': dic, 'damage': [rng.choice(['remove', 'cut', 'cut', 'cut', 'cut', 'folder', 'err', 'err', 'persist', 'eof', 'version', 'swap-empty', 'benign']) for _ in range(n)],
            'seed': rng.randrange(1 << 30), 'lang': rng.random() < 0.2, 'noprob': rng.random() < 0.15}


def base_path(dic):
    if dic:
        return worlds.path(dic)
    import pymorphy2_dicts_ru
    return pymorphy2_dicts_ru.get_path()


def words_of(case):
    if case['dict'] is None:
        return PROBES[None]
    return ops.TOY[case['dict']][::3] + ['бутявкой', 'псевдокот', 'еж', 'XIV', 'по-русски', 'кот-кот', 'зюлая', 'полееее']


def open_and_ask(path, case, disk_args=None):
    """ [how, text or answers, log, fired] """
    from pymorphy2 import MorphAnalyzer
    kw = {'lang': 'ru'} if case['lang'] else {}
    if case['noprob']:
        kw['probability_estimator_cls'] = None
    disk = simio.Disk(path, *(disk_args or ()))
    nopen = None
    with disk:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                m = MorphAnalyzer(path, **kw)
            except Exception as e:
                how, out = 'no', '%s: %s' % (type(e).__name__, str(e)[:200])
            else:
                nopen = len(disk.log())
                how = 'ok'
                out = [ops.run_op(m, ['parse', w]) for w in words_of(case)] + [ops.run_op(m, ['lexeme', w, 0]) for w in words_of(case)[:6]]
                if case['dict']:
                    out.append(sorted(ops.c_parse(p) for p in m.iter_known_word_parses()))
                out.append([str(t) for t in m.dictionary.gramtab])
                out.append([C.observe(t, ['all']) for t in m.dictionary.gramtab[:12]])
                out.append(json.loads(json.dumps(m.dictionary.meta)))
    return [how, out, disk.log(), disk.fired(), nopen]


def explicit(case, log, sizes, needed):
    rng = core.case_rng('c13', case['seed'])
    acts, plan, rnd = [], [], None
    for k in case['damage']:
        f = rng.choice(needed)
        if k in ('remove', 'folder', 'swap-empty'):
            acts.append([k, f])
        elif k == 'cut':
            n = sizes[f]
            x = rng.random()
            t = 0 if x < 0.05 else n - 1 - rng.randrange(min(n, 12)) if x < 0.3 else rng.randrange(min(n, 16)) if x < 0.45 else n // 2 // 4 * 4 if x < 0.5 else rng.randrange(n)
            if n and x > 0.5 and rng.random() < 0.3:
                t = t // 4 * 4
            acts.append([k, f, max(0, t)])
        elif k == 'version':
            acts.append([k, 'meta.json', rng.choice(VERSIONS)])
        elif k == 'benign':
            rnd = K.benign_rnd(rng)
        else:
            i = rng.randrange(len(log))
            if k == 'eof':
                rs = [j for j, r in enumerate(log) if r[0] == 'read']
                plan.append([rng.choice(rs), 'trunc-read', None, 0, None])
            else:
                err = rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT', 'ESTALE', 'EPERM']) if log[i][0] == 'openr' else rng.choice(['EIO', 'ESTALE', 'EISDIR'])
                plan.append([i, 'err' if k == 'err' else 'persist', err, 0, simio.READS])
    return dict(case, acts=acts, plan=plan, rnd=rnd)


def damage(path, acts):
    for a in acts:
        f = os.path.join(path, a[1])
        if not os.path.lexists(f) or os.path.isdir(f):
            continue
        if a[0] == 'cut':
            if os.path.getsize(f) > a[2]:
                with open(f, 'r+b') as fp:
                    fp.truncate(a[2])
        elif a[0] == 'remove':
            os.remove(f)
        elif a[0] == 'folder':
            os.remove(f)
            os.mkdir(f)
        elif a[0] == 'swap-empty':
            open(f, 'wb').close()
        elif a[0] == 'version':
            with open(f, encoding='utf8') as fp:
                try:
                    meta = json.load(fp)
                except ValueError:
                    continue
            meta = [[k, a[2] if k == 'format_version' else v] for k, v in (meta.items() if isinstance(meta, dict) else meta)]
            with open(f, 'w', encoding='utf8') as fp:
                json.dump(meta, fp)


def execute(ctx, case):
    res = core.Result()
    src = base_path(case['dict'])
    key = [case['dict'], case['lang'], case['noprob']]
    path = os.path.join(ctx.fresh_dir('c13'), 'dict')
    shutil.copytree(src, path, ignore=shutil.ignore_patterns('__pycache__', '*.py*'))
    intact = ctx.once(['intact'] + key, open_and_ask, path, case)
    res.case = case
    if intact[0] != 'ok':
        return res.bad('an intact dictionary does not open', str(intact[1]))
    log = intact[2][:intact[4]]
    needed = sorted(set(r[1] for r in log if r[0] == 'openr' and r[1] and r[3] >= 0))
    sizes = {f: os.path.getsize(os.path.join(path, f)) for f in needed}
    if 'acts' not in case:
        case = explicit(case, log, sizes, needed)
    res.case = case
    damage(path, case['acts'])
    got = ctx.call(open_and_ask, path, case, [case['plan'], case['rnd']])
    fired = sum(1 for n in got[3] if n)
    for a in case['acts']:
        res.count('fault:' + {'cut': 'file cut', 'remove': 'file missing', 'folder': 'folder instead of file', 'swap-empty': 'file emptied', 'version': 'format version'}[a[0]])
    for p, n in zip(case['plan'], got[3]):
        if n:
            res.count('fault:%s%s' % (p[1], ' ' + p[2] if p[2] else ''))
    if case['rnd']:
        res.count('fault:short or interrupted read', sum(1 for r in got[2] if r[5] in ('short', 'eintr')))
    res.sig = [key, case['acts'], case['plan'], case['rnd']]
    res.nontrivial = bool(case['acts'] or fired or case['rnd'])
    res.log = core.digest([got[0], got[1] if got[0] == 'ok' else None])
    what = '%s, %s' % (case['dict'] or 'ru', '; '.join(map(str, case['acts'] + [[p, got[2][p[0]][:3] if p[0] < len(got[2]) else ''] for p, n in zip(case['plan'], got[3]) if n])) or 'nothing failed')
    if got[0] == 'ok':
        res.count('opened')
        if any(a[0] == 'version' for a in case['acts']):
            return res.bad('incompatible format accepted', what)
        if got[1] != intact[1]:
            i = next((i for i, (x, y) in enumerate(zip(got[1], intact[1])) if x != y), -1)
            return res.bad('damaged dictionary opens', '%s: the analyzer opens, but answers differently: %s' % (what, C.diff(got[1][i], intact[1][i])))
        if any(a[0] == 'remove' for a in case['acts']):
            res.count('opened_without_a_file')
    else:
        res.count('refused')
        if not case['acts'] and not fired:
            return res.bad('intact dictionary refused', '%s; short transfers and interruptions %s: %s' % (what, case['rnd'], got[1]))
    return res


def shrink(ctx, case):
    for key in ('acts', 'plan'):
        l = case.get(key) or []
        for i in range(len(l)):
            yield dict(case, **{key: l[:i] + l[i + 1:]})
    if case.get('rnd') and (case.get('acts') or case.get('plan')):
        yield dict(case, rnd=None)
    for k in ('lang', 'noprob'):
        if case[k]:
            yield dict(case, **{k: False})
