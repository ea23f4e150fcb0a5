# -*- coding: utf-8 -*-
""" C07: analyzers in one process are independent. """
import gc
import os
import pickle
import shutil
import warnings

import core
import lexicon
import ops
import worlds
from props import common as C
from props.c01 import pick

CFG = [('t-ru', 14), ('t-uk', 14), ('t-tiny', 12), ('t-nested', 8), ('t-short', 5), ('t-shape', 6), ('t-subst', 8), ('t-subst2', 5), ('t-subst3', 6), ('t-odd', 12), ('t-noprob', 6), ('t-lang', 6), ('t-ru-plain', 5), ('ru', 8), ('plain', 3), ('t-inner', 5)]
FAILS = ['nopath', 'badwords', 'unit-init', 'estimator', 'version', 'gramtab', 'units-type', 'subst']


def setup(ctx):
    C.init_toy()


def gen(rng, idx, ctx):
    steps = []
    live = {}
    n = 0
    theme = ops.theme(rng) if rng.random() < 0.5 else None
    lexseed = rng.randrange(1 << 30)

    def question(i):
        cfg = live[i]
        x = rng.random()
        if x < 0.6:
            return ['?', i, ops.gen_op(rng, theme, C.toy_of(cfg))]
        return ['tag?', i, C.gen_src(rng, theme, C.toy_of(cfg)), C.gen_obs(rng)]
    held = []
    nh = 0
    shared = rng.random() < 0.35
    for _ in range(rng.choice([3, 5, 8, 12, 18])):
        x = rng.random()
        if not live or x < 0.28:
            cfg = rng.choice(['sh-a', 'sh-b']) if shared and rng.random() < 0.7 else pick(rng, CFG)
            steps.append(['make', n, cfg])
            live[n] = cfg
            n += 1
        elif x < 0.55:
            steps.append(question(rng.choice(sorted(live))))
        elif x < 0.68:
            # hold a tag or result and look at it later
            i = rng.choice(sorted(live))
            src = C.gen_src(rng, theme, C.toy_of(live[i]))
            steps.append(['hold', nh, i, src])
            held.append((nh, live[i], src))
            nh += 1
        elif x < 0.76 and held:
            steps.append(['held?', rng.choice(held)[0], C.gen_obs(rng)])
        elif x < 0.84:
            steps.append(['fail', rng.choice(FAILS), rng.choice(['ru1', 'uk1', 'tiny', 'odd'])])
        elif x < 0.9:
            steps.append(['compile', lexseed, rng.random() < 0.5])
        elif x < 0.93 and len(live) > 1:
            i = rng.choice(sorted(live))
            steps.append(['drop', i])
            del live[i]
        elif x < 0.96:
            i = rng.choice(sorted(live))
            steps.append(['pickle', i, n])
            live[n] = live[i]
            n += 1
        elif x < 0.98:
            steps.append(['gc'])
        else:
            steps.append(question(rng.choice(sorted(live))))
    for i in sorted(live):
        for _ in range(3):
            steps.append(question(i))
    for h in held[:4]:
        steps.append(['held?', h[0], C.gen_obs(rng)])
    return {'steps': steps}


# -- settings that are shared by several analyzers ------------------------------------

class Shared(object):
    """ Steps, classes and mappings passed to more than one constructor. """
    def __init__(self):
        from pymorphy2 import analyzer, units as U

        class MyParse(analyzer.Parse):
            extra = 'mine'
        self.Parse = MyParse
        self.units = [[U.DictionaryAnalyzer(), U.AbbreviatedFirstNameAnalyzer('абв')], U.LatinAnalyzer(),
                      U.HyphenSeparatedParticleAnalyzer(['-то', '-ка']), [U.KnownPrefixAnalyzer(['псевдо', 'не']), U.KnownSuffixAnalyzer()], U.UnknAnalyzer()]
        self.subst = {'е': 'ё'}
        self.before = self.state()

    def state(self):
        out = [[repr(u) for u in (x if isinstance(x, list) else [x])] for x in self.units]
        for x in self.units:
            for u in (x if isinstance(x, list) else [x]):
                out.append(sorted((k, plain(v)) for k, v in u.__dict__.items()))
        out.append(sorted(k for k in self.Parse.__dict__ if not k.startswith('__')))
        out.append([getattr(self.Parse, '_morph', None) is None, getattr(self.Parse, '_dict', None) is None, self.Parse.__name__])
        out.append(self.subst.copy())
        return repr(out)


def plain(v):
    """ A stable description of a unit's attribute. """
    if isinstance(v, (set, frozenset)):
        return sorted(map(repr, v))
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return sorted((repr(k), plain(x)) for k, x in v.items())
    return type(v).__name__


SHARED_KEYS = {'sh-a': ('ru1', ['units', 'result_type', 'subst']), 'sh-b': ('uk1', ['units', 'result_type'])}
for _k in SHARED_KEYS:
    C.CONFIGS[_k] = (SHARED_KEYS[_k][0], {})


def make(cfg, shared):
    if cfg not in SHARED_KEYS:
        return C.make(cfg)
    from pymorphy2 import MorphAnalyzer
    toy, keys = SHARED_KEYS[cfg]
    kw = {'path': worlds.path(toy)}
    if 'units' in keys:
        kw['units'] = shared.units
    if 'result_type' in keys:
        kw['result_type'] = shared.Parse
    if 'subst' in keys:
        kw['char_substitutes'] = shared.subst
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return MorphAnalyzer(**kw)


def make_ref(cfg):
    return make(cfg, Shared() if cfg in SHARED_KEYS else None)


def replace_in(p, a, b):
    with open(p, encoding='utf8') as f:
        s = f.read()
    with open(p, 'w', encoding='utf8') as f:
        f.write(s.replace(a, b, 1))


def fail(how, toy, scratch, n, quiet=True):
    """ A construction that has to fail. """
    from pymorphy2 import MorphAnalyzer, units as U
    from pymorphy2.units.base import BaseAnalyzerUnit
    path = worlds.path(toy)
    kw = {}
    d = os.path.join(scratch, 'broken%d' % n)
    if how == 'nopath':
        path = os.path.join(scratch, 'missing')
    elif how in ('badwords', 'version', 'gramtab') or how.startswith('cut:'):
        shutil.copytree(path, d)
        path = d
        if how.startswith('cut:'):
            p = os.path.join(d, how[4:])
            with open(p, 'r+b') as f:
                f.truncate(os.path.getsize(p) // 2 if p.endswith('.json') else 1)
        elif how == 'badwords':
            with open(os.path.join(d, 'words.dawg'), 'r+b') as f:
                f.truncate(11)
        elif how == 'version':
            p = os.path.join(d, 'meta.json')
            replace_in(p, '"2.4"', '"3.0"')
        else:
            p = os.path.join(d, 'gramtab-opencorpora-int.json')
            replace_in(p, 'NOUN', 'Xoun')
    elif how == 'unit-init':
        class Bad(BaseAnalyzerUnit):
            def init(self, morph):
                morph.TagClass.add_grammemes_to_known('Badd', 'плох')
                raise RuntimeError('step refused')
        kw['units'] = [U.DictionaryAnalyzer(), U.LatinAnalyzer(), Bad()]
    elif how == 'estimator':
        class Est(object):
            def __init__(self, path):
                raise RuntimeError('no estimates')
        kw['probability_estimator_cls'] = Est
    elif how == 'units-type':
        kw['units'] = [U.DictionaryAnalyzer()] + ['nonsense']
    elif how == 'subst':
        kw['char_substitutes'] = 5
    try:
        if not quiet:
            MorphAnalyzer(path, **kw)
            return None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            MorphAnalyzer(path, **kw)
    except Exception as e:
        return type(e).__name__
    return None


def compile_(seed, uk, scratch, n):
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    lex = lexicon.gen(core.case_rng('c07', seed), None, uk)
    lex['grammemes'] = [[g[0], g[1], g[2] + ('ъ' if uk else ''), g[3]] for g in lex['grammemes']]
    src = os.path.join(scratch, 'src%d.xml' % n)
    with open(src, 'wb') as f:
        f.write(lexicon.xml(lex))
    convert_to_pymorphy2(src, os.path.join(scratch, 'out%d' % n), 'x', 'uk' if uk else 'ru',
                         compile_options={'paradigm_prefixes': ['', 'по', 'наи']})


def child(case, scratch, can_compile):
    shared = None
    morphs = {}
    held = {}
    out = []
    notes = []
    for n, s in enumerate(case['steps']):
        k = s[0]
        if k == 'make':
            if s[2] in SHARED_KEYS and shared is None:
                shared = Shared()
            morphs[s[1]] = make(s[2], shared)
        elif k in ('?', 'tag?', 'pickle', 'hold', 'drop') and s[2 if k == 'hold' else 1] not in morphs:
            out.append('gone')
        elif k == '?':
            out.append(ops.run_op(morphs[s[1]], s[2]))
        elif k == 'tag?':
            out.append(C.tag_alone(morphs[s[1]], s[2], s[3]))
        elif k == 'hold':
            held[s[1]] = C.get_tag(morphs[s[2]], s[3])
            out.append(None)
        elif k == 'held?':
            out.append(C.observe(held[s[1]], s[2]) if s[1] in held else 'gone')
        elif k == 'fail':
            with core.quiet():
                r = fail(s[1], s[2], scratch, n)
            if r is None:
                notes.append('a construction with %s succeeded' % s[1])
        elif k == 'compile':
            if can_compile:
                with core.quiet():
                    compile_(s[1], s[2], scratch, n)
        elif k == 'drop':
            morphs.pop(s[1])
            gc.collect()
            out.append(None)
        elif k == 'pickle':
            m = morphs[s[1]]
            try:
                data = pickle.dumps(m, 2)
            except Exception:
                data = None             # settings that cannot be pickled (classes made in a function)
            morphs[s[2]] = pickle.loads(data) if data else m
            out.append(None)
        elif k == 'gc':
            gc.collect()
    if shared is not None and shared.state() != shared.before:
        notes.append('settings passed by the caller were modified: %s -> %s' % (shared.before, shared.state()))
    return out, notes


def ref_z(ctx, cfg):
    zs = ctx.__dict__.setdefault('zygotes', {})
    if cfg not in zs:
        zs[cfg] = core.Zygote(make_ref, cfg).start()
    return zs[cfg]


def execute(ctx, case):
    res = core.Result()
    scratch = ctx.fresh_dir('c07')
    out, notes = ctx.call(child, case, scratch, ctx.venv == 'fast')
    res.case = case
    res.sig = case['steps']
    kinds = [s[0] for s in case['steps']]
    res.nontrivial = kinds.count('make') + kinds.count('fail') + kinds.count('compile') + kinds.count('pickle') > 1
    res.log = core.digest(out)
    for k in set(kinds):
        res.count('step_' + k, kinds.count(k))
    res.count('fault:failed construction', kinds.count('fail'))
    cfgs = {}
    held = {}
    i = 0
    if notes:
        return res.bad('settings or failure', '; '.join(notes))
    for s in case['steps']:
        k = s[0]
        if k == 'make':
            cfgs[s[1]] = s[2]
        elif k == 'pickle':
            cfgs[s[2]] = cfgs.get(s[1])
        elif k == 'hold':
            held[s[1]] = (cfgs.get(s[2]), s[3])
        if k in ('?', 'tag?', 'held?', 'hold', 'drop', 'pickle'):
            got = out[i]
            i += 1
            if got == 'gone' or k in ('hold', 'drop', 'pickle'):
                continue
            res.count('answers_checked')
            if k == '?':
                want = ref_z(ctx, cfgs[s[1]]).ask(ops.run_op, s[2])
                what = 'analyzer %s (%s), %s' % (s[1], cfgs[s[1]], s[2])
            elif k == 'tag?':
                want = ref_z(ctx, cfgs[s[1]]).ask(C.tag_alone, s[2], s[3])
                what = 'analyzer %s (%s), tag %s, %s' % (s[1], cfgs[s[1]], s[2], s[3])
            else:
                cfg, src = held[s[1]]
                want = ref_z(ctx, cfg).ask(C.tag_alone, src, s[2])
                what = 'kept tag %s of an analyzer (%s), %s' % (src, cfg, s[2])
            if got != want:
                return res.bad('another analyzer interferes', '%s: %s' % (what, C.diff(got, want)))
    return res


def shrink(ctx, case):
    st = case['steps']
    n = len(st)
    size = max(1, n // 2)
    while True:
        for i in range(0, n, size):
            if n > size:
                yield dict(case, steps=st[:i] + st[i + size:])
        if size == 1:
            break
        size //= 2
