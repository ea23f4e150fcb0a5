# -*- coding: utf-8 -*-
""" C08: pickled analyzers and tags come back the same. """
import base64
import copy
import json
import os
import pickle
import subprocess
import sys
import warnings

import core
import ops
import worlds
from props import common as C
from props import mine
from props.c01 import pick
from props.comp import Strike
from sim import sched as S

RESULT = ['auto', 'auto', 'Parse', 'none', 'MyParse', 'QuietParse']
UNITS = ['auto', 'auto', 'auto', 'short', 'nested', 'shape', 'custom', 'scores', 'patronymic', 'none', 'ru', 'uk', 'ru-copy']
PROB = ['auto', 'auto', 'none', 'Est', 'std']
SUBST = ['auto', 'auto', 'none', {}, {'е': 'ё', 'а': 'о'}, {'и': 'й'}, 'ru', 'uk']
CLS = ['MorphAnalyzer'] * 6 + ['SubMorph', 'InitMorph']
LANG = [None, None, None, 'ru', 'uk', 'ru-old', 'xx']


def setup(ctx):
    C.init_toy()


def gen_cfg(rng):
    toy = rng.choice(['ru1', 'ru1', 'ru1', 'uk1', 'uk1', 'tiny', 'tiny']) if rng.random() < 0.93 else None
    how = rng.choice(['path', 'path', 'env']) if toy else rng.choice(['found', 'found', 'path'])
    prob = rng.choice(PROB)
    if prob == 'std' and toy not in ('ru1', None):
        prob = 'auto'
    lang = rng.choice(LANG)
    if how == 'found' and lang not in (None, 'ru'):
        lang = 'ru'
    return {'toy': toy, 'how': how, 'lang': lang, 'result': rng.choice(RESULT), 'units': rng.choice(UNITS), 'prob': prob,
            'subst': rng.choice(SUBST), 'cls': rng.choice(CLS)}


def path_of(cfg):
    if cfg['toy']:
        return worlds.path(cfg['toy'])
    import pymorphy2_dicts_ru
    return pymorphy2_dicts_ru.get_path()


def set_env(cfg):
    for k in ('PYMORPHY2_DICT_PATH', 'MY_DICT_PATH'):
        os.environ.pop(k, None)
    if cfg['how'] == 'env':
        os.environ['MY_DICT_PATH' if cfg['cls'] == 'SubMorph' else 'PYMORPHY2_DICT_PATH'] = path_of(cfg)


def build(cfg):
    from pymorphy2 import MorphAnalyzer, analyzer, lang
    set_env(cfg)
    kw = {}
    if cfg['how'] == 'path':
        kw['path'] = path_of(cfg)
    if cfg['lang']:
        kw['lang'] = cfg['lang']
    if cfg['result'] != 'auto':
        kw['result_type'] = None if cfg['result'] == 'none' else getattr(analyzer if cfg['result'] == 'Parse' else mine, cfg['result'])
    if cfg['units'] != 'auto':
        if cfg['units'] in ('ru', 'uk'):        # what it would choose itself, or not
            kw['units'] = getattr(lang, cfg['units']).DEFAULT_UNITS
        elif cfg['units'] == 'ru-copy':
            kw['units'] = list(lang.ru.DEFAULT_UNITS)
        else:
            kw['units'] = C.some_units(cfg['units']) if cfg['units'] in ('short', 'nested', 'shape') else mine.units(cfg['units'])
    if cfg['prob'] != 'auto':
        kw['probability_estimator_cls'] = {'none': None, 'Est': mine.Est, 'std': analyzer.ProbabilityEstimator}[cfg['prob']]
    if cfg['subst'] != 'auto':
        if cfg['subst'] in ('ru', 'uk'):
            kw['char_substitutes'] = getattr(lang, cfg['subst']).CHAR_SUBSTITUTES
        else:
            kw['char_substitutes'] = None if cfg['subst'] == 'none' else dict(cfg['subst'])
    cls = MorphAnalyzer if cfg['cls'] == 'MorphAnalyzer' else getattr(mine, cfg['cls'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return cls(**kw)


def get_tag(m, src):
    try:
        return C.get_tag(m, src)
    except (IndexError, ValueError):        # no step analyzes the word, or knows the grammeme
        return m.dictionary.gramtab[0]


def ask(m, q):
    if q[0] == 'about':
        ps = m.parse(q[1])
        p = ps[0] if ps else None
        rt = m._result_type_orig if hasattr(m, '_result_type_orig') else None
        return [type(m).__module__, type(m).__name__, m.lang, m.dictionary.path, type(m.prob_estimator).__name__,
                type(p).__name__, bool(rt and p is not None and isinstance(p, rt)), getattr(p, 'shout', None), repr(m.TagClass.__name__)]
    if q[0] == 'tag?':
        return C.observe(get_tag(m, q[1]), q[2])
    return ops.run_op(m, q)


def reference(cfg, qs):
    m = build(cfg)
    return [ask(m, q) for q in qs]


def gen_q(rng, theme, cfg):
    x = rng.random()
    if x < 0.1:
        return ['about', ops.gen_word(rng, theme, cfg['toy'])]
    if x < 0.25:
        return ['tag?', C.gen_src(rng, theme, cfg['toy']), C.gen_obs(rng)]
    return ops.gen_op(rng, theme, cfg['toy'])


def gen(rng, idx, ctx):
    cfg = gen_cfg(rng)
    theme = ops.theme(rng) if rng.random() < 0.4 else None
    q = lambda n: [gen_q(rng, theme, cfg) for _ in range(n)]
    tags = [C.gen_src(rng, theme, cfg['toy']) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    hops = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])):
        how = pick(rng, [('same', 40), ('fork', 35), ('copy', 8), ('deepcopy', 8), ('exec', 2 if ctx.tier == 'quick' else 5), ('thread', 7)])
        hops.append({'how': how, 'proto': rng.choice([0, 1, 2, 2, 3, 4, 5]), 'before': q(rng.choice([0, 0, 1, 3])), 'after': q(rng.choice([2, 4])),
                     'py': rng.random() < 0.15, 'more': rng.choice(['', '', '', 'list', 'both', 'tags-first']),
                     'strike': [rng.choice(['dump', 'load']), rng.randrange(1 << 16), rng.choice(['KeyboardInterrupt', 'MemoryError'])] if rng.random() < 0.2 else None,
                     'obs': [C.gen_obs(rng) for _ in range(2)], 'oseed': rng.randrange(1 << 20)})
    return {'cfg': cfg, 'hops': hops, 'tags': tags}


# -- what happens in the simulated processes -----------------------------------------

def dumps(obj, hop):
    if hop['py']:
        import io
        f = io.BytesIO()
        pickle._Pickler(f, hop['proto']).dump(obj)
        return f.getvalue()
    return pickle.dumps(obj, hop['proto'])


def loads(data, hop):
    if hop['py']:
        import io
        return pickle._Unpickler(io.BytesIO(data)).load()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return pickle.loads(data)


def struck(fn, hop, which, out):
    """ Try once with an exception from outside in the middle, then again. """
    s = hop['strike']
    if s and s[0] == which:
        top = 4 if which == 'dump' else 400
        st = Strike(1 + s[1] % top, s[2])
        sys.settrace(st.glob)
        try:
            fn()
        except (S.Injected, S.InjectedMemoryError):
            out['struck'] += 1
        finally:
            sys.settrace(None)
    return fn()


def pack(m, tags, more):
    if more == 'list':
        return [m, m, tags]
    if more == 'tags-first':
        return [tags, m]
    if more == 'both':
        return {'m': m, 'tags': tags, 'pairs': [(t, m) for t in tags]}
    return m, tags


def unpack(o, more, out):
    if more == 'list':
        if o[0] is not o[1]:
            out['notes'].append('one analyzer pickled twice over comes back as two')
        return o[0], o[2]
    if more == 'tags-first':
        return o[1], o[0]
    if more == 'both':
        return o['m'], o['tags']
    return o


STATIC = ['attr', 'gr', 'cyr', 'cyr_repr', 'len', 'str', 'repr', 'agree', 'prod', 'eq', 'copy']


def tag_view(t):
    """ What a tag tells of itself, whatever else exists in the process. """
    return [str(t), repr(t), sorted(t.grammemes), sorted(map(str, t.grammemes_cyr)), t.cyr_repr, len(t), t.is_productive()] + \
        [None if getattr(t, a) is None else str(getattr(t, a)) for a in ops.ATTRS] + [g in t for g in sorted(t.grammemes)] + \
        [[sorted(map(str, t.numeral_agreement_grammemes(n))) for n in (1, 2, 5)]]


def hash_tag(t):
    return hash(t)


def run_hops(case, state, m, tags, start, out):
    """ Continue with hop ``start``; a hop into another process ends this one. """
    for i in range(start, len(case['hops'])):
        hop = case['hops'][i]
        rec = {'before': [ask(m, q) for q in hop['before']]}
        out['hops'].append(rec)
        kind = hop['how']
        obj = pack(m, tags, hop['more'])
        if kind in ('fork', 'exec'):
            data = struck(lambda: dumps(obj, hop), hop, 'dump', out)
            rec['orig'] = [ask(m, q) for q in hop['after']]
            rec['views'] = [tag_view(t) for t in tags]
            return base64.b64encode(data).decode('ascii'), i
        if kind == 'thread':
            box = {}

            def body(t):
                box['o'] = loads(dumps(obj, hop), hop)

            def other(t):
                return [ask(m, q) for q in hop['after']]
            r = C.run_threads([body, other], {'kind': 'rw', 'seed': hop['oseed'], 'p': 0.1, 'first': hop['oseed'] % 2}, 'call')
            rec['orig'] = r['results'][1]
            out['switches'] += r['switches']
            if r['dead'] or any(r['errors']):
                out['notes'].append('pickling while another thread asks: %s %s' % (r['dead'], r['errors']))
                return None, i
            m2, tags2 = unpack(box['o'], hop['more'], out)
        elif kind == 'same':
            data = struck(lambda: dumps(obj, hop), hop, 'dump', out)
            m2, tags2 = unpack(struck(lambda: loads(data, hop), hop, 'load', out), hop['more'], out)
        else:
            f = copy.copy if kind == 'copy' else copy.deepcopy
            m2, tags2 = f(m), [f(t) for t in tags]
        for t, t2 in zip(tags, tags2):
            if not (t == t2 and t2 == t and not t != t2 and hash(t) == hash(t2) and len(set([t, t2])) == 1 and not t < t2 and not t > t2):
                out['notes'].append('a tag restored in the same process differs from the original: %s, %s' % (t, t2))
            if tag_view(t) != tag_view(t2):
                out['notes'].append('a restored tag tells other things than the original: %s, %s' % (tag_view(t2), tag_view(t)))
            for o in hop['obs']:
                a, b = C.observe(t, o), C.observe(t2, o)
                if a != b:
                    out['notes'].append('restored tag %s, %s: %s, the original: %s' % (t, o, b, a))
        rec.setdefault('orig', [ask(m, q) for q in hop['after']])
        rec['after'] = [ask(m2, q) for q in hop['after']]
        m, tags = m2, tags2
    return None, len(case['hops'])


def new_out():
    return {'hops': [], 'notes': [], 'struck': 0, 'switches': 0}


def first(case):
    out = new_out()
    m = build(case['cfg'])
    tags = [get_tag(m, s) for s in case['tags']]
    data, i = run_hops(case, {}, m, tags, 0, out)
    return out, data, i


def later(case, data, i, views):
    """ A process that starts with the pickle another one left. """
    out = new_out()
    set_env(case['cfg'])
    hop = case['hops'][i]
    b = base64.b64decode(data)
    m, tags = unpack(struck(lambda: loads(b, hop), hop, 'load', out), hop['more'], out)
    for t, v in zip(tags, views):
        if tag_view(t) != v:
            out['notes'].append('a tag restored in another process tells %s, the original: %s' % (tag_view(t), v))
    out['hops'].append({'after': [ask(m, q) for q in hop['after']], 'cont': True})
    # its dictionary is loaded now: the same in every respect
    for t in tags:
        ts = str(t)
        try:
            o = m.TagClass(ts)
        except ValueError as e:
            out['notes'].append('the tag class of the restored analyzer does not know %s: %s' % (ts, e))
            continue
        if not (t == o and o == t and hash(t) == hash(o)):
            out['notes'].append('a restored tag differs from the tag %s of the restored analyzer' % ts)
        for ob in hop['obs']:
            a, b2 = C.observe(o, ob), C.observe(t, ob)
            if a != b2:
                out['notes'].append('restored tag %s, %s: %s; a new one: %s' % (ts, ob, b2, a))
    data, i = run_hops(case, {}, m, tags, i + 1, out)
    return out, data, i


def tags_only(case, data, views):
    """ A process that never has an analyzer. """
    notes = []
    for d, v in zip(data, views):
        t = pickle.loads(base64.b64decode(d))
        if tag_view(t) != v:
            notes.append('a tag restored in a process without analyzers tells %s, the original: %s' % (tag_view(t), v))
        t2 = pickle.loads(pickle.dumps(t, 2))
        if not (t2 == t and hash(t) == hash(t2)):
            notes.append('a tag restored twice differs: %s' % t)
    return notes


def tags_pickled(case):
    m = build(case['cfg'])
    tags = [get_tag(m, s) for s in case['tags']]
    h = case['hops'][0]
    return [base64.b64encode(dumps(t, h)).decode('ascii') for t in tags], [tag_view(t) for t in tags]


MAIN = '''
import sys, json
sys.path.insert(0, %r)
import core
from sim import sched
sched.install()
sys.path.insert(0, core.REPO)
from props import c08
from props import common as C
C.init_toy()
case, data, i, views = json.load(sys.stdin)
import os
real = os.dup(1)
os.dup2(2, 1)
try:
    r = ['ok', c08.later(case, data, i, views)]
except BaseException as e:
    r = ['lib' if core.from_lib(e) else 'exc', core.tb_text()]
os.write(real, ('\\n' + json.dumps(r)).encode('ascii'))
''' % core.HERE


def execed(case, data, i, views):
    env = dict(os.environ, PYTHONHASHSEED=str(case['hops'][i]['oseed'] % 4000000))
    p = subprocess.Popen([sys.executable, '-X', 'utf8', '-c', MAIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/')
    out = p.communicate(json.dumps([case, data, i, views]).encode('utf8'))[0].decode('utf8')
    if p.returncode or not out:
        raise core.HarnessError('a new process ended with %s: %s' % (p.returncode, out[-500:]))
    kind, val = json.loads(out.splitlines()[-1])
    if kind == 'lib':
        raise core.LibError(val)
    if kind == 'exc':
        raise core.HarnessError(val)
    return val


def execute(ctx, case):
    res = core.Result()
    res.case = case
    cfg = case['cfg']
    res.sig = [cfg, case['hops'], case['tags']]
    out, data, i = ctx.call(first, case)
    log = [out]
    n = 0
    while data is not None:
        n += 1
        views = out['hops'][-1]['views']
        run = execed if case['hops'][i]['how'] == 'exec' else later
        if run is execed:
            out, data, i = execed(case, data, i, views)
        else:
            out, data, i = ctx.call(later, case, data, i, views)
        log.append(out)
    if case['tags'] and case['hops'][0]['oseed'] % 3 == 0:
        d, v = ctx.call(tags_pickled, case)
        notes = ctx.call(tags_only, case, d, v)
        log.append({'hops': [], 'notes': notes, 'struck': 0, 'switches': 0})
        res.count('tags_restored_without_analyzers', len(d))
    for h in case['hops']:
        res.count('restored_' + h['how'])
    res.count('fault:interrupted pickling or unpickling', sum(o['struck'] for o in log))
    res.count('fault:restart of the process', n)
    res.count('preemptions', sum(o['switches'] for o in log))
    res.log = core.digest(log)
    for o in log:
        if o['notes']:
            return res.bad('restored object differs', '%s: %s' % (cfg, '; '.join(o['notes'][:3])))
    qs = []
    for h in case['hops']:
        qs += h['before'] + h['after']
    want = ctx.call(reference, cfg, qs)
    want = json.loads(json.dumps(want))
    table = {json.dumps(q, sort_keys=True): w for q, w in zip(qs, want)}
    recs = json.loads(json.dumps([r for o in log for r in o['hops']]))
    k = -1
    for r in recs:
        if not r.get('cont'):
            k += 1
        hop = case['hops'][k]
        for key, q in (('before', 'before'), ('orig', 'after'), ('after', 'after')):
            for query, got in zip(hop[q], r.get(key) or []):
                w = table[json.dumps(query, sort_keys=True)]
                res.count('answers_checked')
                if got != w:
                    who = {'before': 'the analyzer before step %d' % k, 'orig': 'the pickled analyzer', 'after': 'the analyzer restored'}[key]
                    return res.bad('wrong answer', '%s: %s in step %d (%s, protocol %d), %s: %s' % (cfg, who, k, hop['how'], hop['proto'], query, C.diff(got, w)))
    return res


def shrink(ctx, case):
    h = case['hops']
    for i in range(len(h)):
        if len(h) > 1:
            yield dict(case, hops=h[:i] + h[i + 1:])
    for i in range(len(case['tags'])):
        yield dict(case, tags=case['tags'][:i] + case['tags'][i + 1:])
    for i, x in enumerate(h):
        for k, v in (('strike', None), ('more', ''), ('py', False), ('before', []), ('how', 'same'), ('how', 'fork'), ('proto', 2), ('obs', [])):
            if x[k] != v and not (k == 'how' and x[k] == 'same'):
                yield dict(case, hops=h[:i] + [dict(x, **{k: v})] + h[i + 1:])
        for j in range(len(x['after'])):
            if len(x['after']) > 1:
                yield dict(case, hops=h[:i] + [dict(x, after=x['after'][:j] + x['after'][j + 1:])] + h[i + 1:])
    for k, v in (('result', 'auto'), ('units', 'auto'), ('prob', 'auto'), ('subst', 'auto'), ('cls', 'MorphAnalyzer'), ('lang', None)):
        if case['cfg'][k] != v:
            yield dict(case, cfg=dict(case['cfg'], **{k: v}))
