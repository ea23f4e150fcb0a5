# -*- coding: utf-8 -*-
""" Shared parts of the property modules: analyzers, references, threads. """
import json
import random
import sys
import warnings
import zlib

import core
import ops
import worlds
from sim import sched as S

RU = ['', 'по', 'наи']


def init_toy():
    for n in worlds.NAMES + worlds.MORE:
        ops.TOY[n] = worlds.words(n)


def some_units(kind):
    """ Custom analysis steps (always new instances). """
    from pymorphy2 import units as U
    if kind == 'short':
        return [U.DictionaryAnalyzer(), U.KnownSuffixAnalyzer(), U.UnknAnalyzer()]
    if kind == 'nested':
        return [[U.DictionaryAnalyzer(), U.AbbreviatedFirstNameAnalyzer('абвгд')],
                U.NumberAnalyzer(), U.LatinAnalyzer(),
                U.HyphenSeparatedParticleAnalyzer(['-то', '-ка']), [U.KnownPrefixAnalyzer(['псевдо', 'не']), U.UnknownPrefixAnalyzer(), U.KnownSuffixAnalyzer(min_word_length=3)],
                U.UnknAnalyzer()]
    if kind == 'inner':
        from props import mine
        return mine.units('inner')
    if kind == 'shape':
        return [U.PunctuationAnalyzer(), U.RomanNumberAnalyzer(), U.LatinAnalyzer(), U.NumberAnalyzer(), U.DictionaryAnalyzer(), U.UnknAnalyzer()]
    raise AssertionError(kind)


# name -> (toy dictionary or None, constructor arguments)
CONFIGS = {
    'ru': (None, {}),
    'plain': (None, {'result_type': None}),
    'bare': (None, {'probability_estimator_cls': None, 'char_substitutes': None}),
    'plainbare': (None, {'result_type': None, 'probability_estimator_cls': None}),
    't-plainbare': ('ru1', {'result_type': None, 'probability_estimator_cls': None, 'char_substitutes': None}),
    't-ru': ('ru1', {}),
    't-ru-plain': ('ru1', {'result_type': None}),
    't-uk': ('uk1', {}),
    't-tiny': ('tiny', {}),
    't-short': ('ru1', {'units': 'short'}),
    't-nested': ('ru1', {'units': 'nested'}),
    't-shape': ('ru1', {'units': 'shape'}),
    't-inner': ('ru1', {'units': 'inner'}),
    't-subst': ('ru1', {'char_substitutes': {'е': 'ё', 'а': 'о'}}),
    't-subst2': ('ru1', {'char_substitutes': {'е': 'и', 'а': 'я'}}),
    't-subst3': ('ru1', {'char_substitutes': {'е': 'а'}}),
    't-odd': ('odd', {}),
    't-noprob': ('ru1', {'probability_estimator_cls': None}),
    't-lang': ('ru1', {'lang': 'uk'}),
}


def make(cfg, **extra):
    """ Construct an analyzer. """
    from pymorphy2 import MorphAnalyzer
    toy, kw = CONFIGS[cfg]
    kw = dict(kw, **extra)
    if isinstance(kw.get('units'), str):
        kw['units'] = some_units(kw['units'])
    if toy:
        kw.setdefault('path', worlds.path(toy))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return MorphAnalyzer(**kw)


def toy_of(cfg):
    return CONFIGS[cfg][0]


# ---- references ----------------------------------------------------------------

class Places(dict):
    """ How often each place is passed; ``fresh``: places which are passed
    less often when the same is done again (something is remembered there). """
    fresh = ()


def at_gran(places, gran):
    out = Places(places[gran])
    out.fresh = sorted(k for k in places.get('fresh', ()) if k in out)
    return out


def _counting(fn, again=None):
    """ [result, calls, lines, opcodes, places]: how many yield points of each
    granularity there are, and how often each place is passed.  With ``again``
    also the places which are passed less often the second time. """
    n = {'call': {}, 'line': {}, 'opcode': {}}
    lib = core.LIB

    def glob(frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(lib) or code.co_name == '<module>':
            return None
        frame.f_trace_opcodes = True
        d = n['call']
        k = (code.co_name, frame.f_lineno)
        d[k] = d.get(k, 0) + 1
        return local

    def local(frame, event, arg):
        d = n.get(event)
        if d is not None:
            k = (frame.f_code.co_name, frame.f_lineno)
            d[k] = d.get(k, 0) + 1
        return local
    sys.settrace(glob)
    try:
        out = fn()
    finally:
        sys.settrace(None)
    # opcode and line tracing also yields at the call itself
    tot = {k: sum(d.values()) for k, d in n.items()}
    places = {}
    for g, d in n.items():
        m = places[g] = {'%s:%s' % k: v for k, v in n['call'].items()}
        if g != 'call':
            for k, v in d.items():
                k = '%s:%s' % k
                m[k] = m.get(k, 0) + v
    if again is not None and tot['line'] < 60000:
        again_ = {}

        def glob2(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(lib) or code.co_name == '<module>':
                return None
            k = (code.co_name, frame.f_lineno)
            again_[k] = again_.get(k, 0) + 1
            return local2

        def local2(frame, event, arg):
            if event == 'line':
                k = (frame.f_code.co_name, frame.f_lineno)
                again_[k] = again_.get(k, 0) + 1
            return local2
        sys.settrace(glob2)
        try:
            again()
        finally:
            sys.settrace(None)
        places['fresh'] = sorted(k for k, v in places['line'].items() if v > again_.get((k.rsplit(':', 1)[0], int(k.rsplit(':', 1)[1])), 0))
    return [out, tot['call'], tot['line'] + tot['call'], tot['opcode'] + tot['call'], places]


def granularity(gran, refs):
    """ A coarser granularity for calls that take very long, and the number of
    steps after which a run cannot be said to make progress. """
    total = {g: sum(r[i] for r in refs) for g, i in GRANI.items()}
    if gran == 'opcode' and total['opcode'] > 150000:
        gran = 'line'
    if gran == 'line' and total['line'] > 150000:
        gran = 'call'
    return gran, 400000 + 3 * total[gran]


def add_places(dicts):
    out = Places()
    for d in dicts:
        out.fresh = sorted(set(out.fresh) | set(getattr(d, 'fresh', ())))
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


def make_places(ctx, cfg):
    """ The places passed while an analyzer is created. """
    fn = lambda: make(cfg) and None
    return ctx.once(['places', cfg], lambda: _counting(fn, fn))[4]


def max_places(*dicts):
    out = Places()
    for d in dicts:
        out.fresh = sorted(set(out.fresh) | set(getattr(d, 'fresh', ())))
        for k, v in (d or {}).items():
            out[k] = max(v, out.get(k, 0))
    return out


def some_place(rng, places):
    """ A place, all alike however often they are passed, and a visit of it. """
    fresh = [k for k in getattr(places, 'fresh', ()) if k in places]
    if fresh and rng.random() < 0.45:
        p = rng.choice(fresh)
    else:
        p = rng.choice(sorted(places))
    n = places[p]
    return p, 1 + (rng.randrange(n) if rng.random() < 0.6 else min(n - 1, rng.choice([0, 0, 1, 2, 3])))


def ref(ctx, cfg, op):
    """ The answer to ``op`` when it is the first and only call on a new
    analyzer, and its yield points: [answer, calls, lines, opcodes, places]. """
    m = ctx.morphs[cfg]

    def measure():
        fn = ops.prepare(m, op)
        return packed(_counting(fn, fn))
    return ctx.once(['ref', cfg, op], measure)


def packed(r):
    """ The same with the places in little memory (forks copy it). """
    return r[:4] + [zlib.compress(json.dumps(r[4]).encode('utf8'), 1)]


def places_of(r, gran):
    return at_gran(json.loads(zlib.decompress(r[4]).decode('utf8')), gran)


def answer(ctx, cfg, op):
    """ Just the answer. """
    m = ctx.morphs[cfg]
    return ctx.once(['answer', cfg, op], ops.run_op, m, op)


GRANI = {'call': 1, 'line': 2, 'opcode': 3}


# ---- schedules ----------------------------------------------------------------

def gen_policy(rng, nthreads, lengths, places=None, one=False):
    p = _gen_policy(rng, nthreads, lengths, places, one)
    p['patience'] = rng.choice([None, 1, 100, 3000])
    return p


def _gen_policy(rng, nthreads, lengths, places, one):
    """ A seeded schedule description; ``lengths``: yield points of each
    thread, ``places``: the places each of them passes. """
    seed = rng.randrange(1 << 30)
    first = rng.randrange(nthreads)
    if one and all(places) and rng.random() < 0.8:
        # the last thread comes in once
        t = rng.randrange(nthreads - 1)
        p, n = some_place(rng, places[t])
        return {'kind': 'places', 'seed': seed, 'points': [[t, p, n, nthreads - 1]], 'first': t}
    if places and all(places) and rng.random() < 0.4:
        pts = []
        t = first
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            u = rng.choice([u for u in range(nthreads) if u != t])
            if pts and pts[-1][1] in places[t] and rng.random() < 0.4:
                pts.append([t, pts[-1][1], 1, u])
            else:
                p, n = some_place(rng, places[t])
                pts.append([t, p, n, u])
            t = u
        return {'kind': 'places', 'seed': seed, 'points': pts, 'first': first}
    x = rng.random()
    if x < 0.25:
        return {'kind': 'rw', 'seed': seed, 'p': rng.choice([0.5, 0.2, 0.05, 0.01]), 'first': first}
    if x < 0.45:
        return {'kind': 'bursts', 'seed': seed, 'calm': rng.choice([30, 200, 1000]), 'burst': rng.choice([5, 20, 60]), 'first': first}
    if x < 0.7:
        return {'kind': 'pct', 'seed': seed, 'd': rng.choice([1, 2, 3, 5]), 'len': max(2, sum(lengths)), 'first': first}
    pts = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        t = rng.randrange(nthreads)
        pts.append([t, 1 + rng.randrange(max(1, lengths[t])), rng.choice([u for u in range(nthreads) if u != t])])
    return {'kind': 'preempt', 'seed': seed, 'points': pts, 'first': first}


def policy(spec, n):
    if spec['kind'] == 'fixed':
        return S.Policy(spec['schedule'], spec.get('first', 0))
    rng = random.Random(spec['seed'])
    k = spec['kind']
    if k == 'rw':
        return S.RandomWalk(rng, spec['p'], spec['first'])
    if k == 'bursts':
        return S.Bursts(rng, spec['calm'], spec['burst'], spec['first'])
    if k == 'pct':
        return S.PCT(rng, n, spec['d'], spec['len'], spec['first'])
    if k == 'places':
        return S.Places(rng, spec['points'], spec['first'])
    if k == 'preempt':
        return S.Preempt(rng, {(t, l): u for t, l, u in spec['points']}, spec['first'])
    raise AssertionError(spec)


def run_threads(bodies, pol, gran, step_cap=400000, injects=None, exclude=(), guard=False, strikes=None, record=False):
    """ Run the callables as simulated threads.  Each body gets the SimThread;
    what it returns is its result.  Returns a dictionary. """
    sch = S.Sched(policy(pol, len(bodies)), step_cap)
    sch.patience = pol.get('patience')
    tr = S.Tracer(sch, [core.LIB], gran, exclude) if gran != 'none' else None
    sch.tracer = tr
    if guard:
        from sim import faults
        tr.guard = faults.cleanup_on_stack

    def wrap(fn):
        def body(t):
            if tr:
                tr.on()
            try:
                return fn(t)
            finally:
                S.Tracer.off()
        return body
    for i, fn in enumerate(bodies):
        t = sch.spawn(wrap(fn))
        if injects and i < len(injects) and injects[i]:
            t.inject = dict((int(k), v) for k, v in injects[i].items())
        if record:
            t.seen = {}
        if strikes and i < len(strikes):
            for p, n, exc in strikes[i]:
                t.strikes.setdefault(p, {})[n] = exc
    dead = None
    try:
        sch.run()
    except S.Deadlock as e:
        dead = str(e)
    errs = []
    for t in sch.threads:
        e = t.error
        errs.append(None if e is None else [type(e).__name__, str(e), S.is_injected(e)])
    first = sch.policy.first if hasattr(sch.policy, 'first') else 0
    places = {}
    for x in sch.trace:
        places[str(x[3])] = places.get(str(x[3]), 0) + 1
    return {
        'results': [t.result for t in sch.threads],
        'errors': errs,
        'dead': dead,
        'steps': sch.steps,
        'switches': sch.switches,
        'forced': sch.forced,
        'lock_waits': sch.lock_waits,
        'now': sch.now,
        'locals': [t.local for t in sch.threads],
        'fired': [t.fired for t in sch.threads],
        'places': [t.seen for t in sch.threads],
        'schedule': {'kind': 'fixed', 'schedule': sch.taken, 'first': first, 'patience': sch.patience},
        'timeouts': sch.timeouts,
        'sig': core.digest([[x[0], x[1], x[2]] for x in sch.trace]),
        'trace': [[x[0], x[1], x[2], str(x[3])] for x in sch.trace[:60]],
    }


def note_threads(res, out, gran):
    res.count('yield_points', out['steps'])
    res.count('preemptions', out['switches'])
    res.count('forced_switches', out['forced'])
    res.count('lock_waits', out['lock_waits'])
    res.count('timeouts', out['timeouts'])
    res.count('runs_' + gran)
    res.count('sim_time_ms', int(out['now'] * 1000))


def shrink_schedule(case, key='policy'):
    """ Candidates with fewer preemptions. """
    pol = case.get(key)
    if not pol or pol.get('kind') != 'fixed':
        return
    s = pol['schedule']
    pre = [k for k in s if not k.startswith('!')]

    def order(k):
        t, l = k.split(':')
        return (int(l), int(t))
    pre.sort(key=order)
    n = len(pre)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            drop = set(pre[i:i + size])
            if size == n and n > 1 or len(drop) < n or n == 1:
                yield dict(case, **{key: dict(pol, schedule={k: v for k, v in s.items() if k not in drop})})
        if size == 1:
            break
        size = max(1, size // 2)


def shrink_threads(case, key='threads'):
    """ Candidates with fewer operations. """
    th = case[key]
    for i in range(len(th)):
        for j in range(len(th[i])):
            if sum(map(len, th)) > 1 and len(th[i]) > 1:
                yield dict(case, **{key: th[:i] + [th[i][:j] + th[i][j + 1:]] + th[i + 1:]})


def diff(got, want):
    return 'got %s, expected %s' % (core.short(got, 700), core.short(want, 700))


# ---- references in processes of their own ------------------------------------------

def zyg(ctx, cfg):
    """ A process in which only the analyzer ``cfg`` was ever created. """
    zs = ctx.__dict__.setdefault('zygotes', {})
    if cfg not in zs:
        zs[cfg] = core.Zygote(make, cfg).start()
    return zs[cfg]


def alone(ctx, cfg, op):
    """ The answer to ``op`` in a process with only that analyzer. """
    return zyg(ctx, cfg).ask(ops.run_op, op)


def op_places(morph, op):
    fn = lambda: ops.run_op(morph, op)
    return _counting(fn, fn)[4]


# ---- memos that are emptied now and then -------------------------------------------

def containers(morph):
    """ Everything the library could remember answers in. """
    import types
    seen = {}
    out = []

    def add(x, depth):
        if id(x) in seen or depth > 6:
            return
        seen[id(x)] = x
        if isinstance(x, (dict, set, list)) or type(x).__name__ in ('deque', 'OrderedDict', 'defaultdict'):
            out.append(x)
            if isinstance(x, list) and len(x) < 40:
                for y in x:
                    add(y, depth + 1)
            return
        if isinstance(x, types.FunctionType):
            for c in x.__closure__ or ():
                try:
                    add(c.cell_contents, depth + 1)
                except ValueError:
                    pass
            for y in vars(x).values():
                add(y, depth + 1)
            return
        mod = getattr(type(x), '__module__', '') if not isinstance(x, type) else x.__module__
        if mod.startswith(('pymorphy2', 'props')) and not mod.startswith('pymorphy2_dicts'):
            try:
                vs = list(vars(x).values())
            except TypeError:
                vs = []
            for y in vs:
                add(y, depth + 1)
    add(morph, 0)
    for n, m in sorted(sys.modules.items()):
        if (n == 'pymorphy2' or n.startswith('pymorphy2.')) and m is not None:
            for y in list(vars(m).values()):
                if not isinstance(y, types.ModuleType):
                    add(y, 1)
    return out


NOISE_SEED = 20


def evictions(morph):
    """ The positions in a long run of noise at which something remembered is
    dropped. """
    es = []
    cs = containers(morph)
    last = [len(c) for c in cs]
    for i, op in enumerate(ops.noise(NOISE_SEED, 1100)):
        ops.run_op(morph, op)
        if i in (10, 100):
            cs = containers(morph)
            last = [len(c) for c in cs]
            continue
        now = [len(c) for c in cs]
        if any(b < a and a >= 4 for a, b in zip(last, now)):
            es.append(i)
        last = now
    return es[:400]


def gen_noise(rng, ctx, cfg, threads):
    """ Noise before the threads; near the point at which a memo is emptied,
    if there is one: the call that empties it goes to one of the threads and
    calls made a little earlier to the others. """
    es = ctx.once(['evictions', cfg], evictions, ctx.morphs[cfg]) if cfg in ('ru', 't-ru', 't-nested') else []
    if not es or rng.random() < 0.5:
        return ops.gen_noise(rng)
    e = rng.choice(es[:3] if rng.random() < 0.5 else es)
    ns = ops.noise(NOISE_SEED, e + 1)
    old = ns[max(0, e - rng.choice([2, 10, 80])):e] or ns
    old = [x for x in old if len(x[1]) < 4] or old
    for i, t in enumerate(threads):
        t[:] = [list(rng.choice(old)) for _ in range(rng.choice([1, 1, 2]))]
    threads[-1].insert(0, list(ns[e]))
    return [NOISE_SEED, max(0, e - rng.choice([0, 0, 0, 1])), 'full']


# ---- observations on tags -----------------------------------------------------------

def gen_obs(rng):
    k = rng.choice(['attr', 'attr', 'gr', 'cyr', 'cyr_repr', 'in', 'in', 'inset', 'len', 'str', 'repr', 'agree', 'upd', 'prod',
                    'hash', 'eq', 'lt', 'typed', 'other', 'copy', 'l2c', 'known', 'sort', 'all'])
    g = lambda: rng.choice(ops.MEMBER + ['NUMB', 'gent', 'sing', 'masc', 'VERB', 'inan', 'impf', 'Tiny', 'UkrA', 'UkrB', 'Qual'])
    if k == 'attr':
        return [k, rng.choice(ops.ATTRS)]
    if k in ('in', 'known'):
        return [k, g()]
    if k == 'inset':
        return [k, sorted(set(g() for _ in range(rng.choice([1, 2, 3]))))]
    if k == 'agree':
        return [k, rng.choice(ops.NUMS)]
    if k == 'upd':
        return [k, sorted(set(rng.choice(['plur', 'gent', 'masc', 'sing', 'datv', 'VERB', 'anim', 'LATN', 'nonsense']) for _ in range(rng.choice([1, 2]))))]
    if k in ('eq', 'lt'):
        return [k, rng.choice(['NOUN,anim,masc sing,nomn', 'LATN', 'UNKN', 'PNCT', 'ADVB', 'NUMB,intg', 'CONJ', 'NOUN,inan,masc sing,nomn'])]
    if k == 'other':
        return [k, rng.randrange(1000)]
    if k == 'typed':
        return [k, rng.choice(ops.ATTRS), rng.choice(['plur', 'NOUN', 'nomn', 'foo', 'masc', None])]
    return [k]


def observe(tag, obs):
    """ One observation of a tag, as plain data. """
    try:
        return _observe(tag, obs)
    except Exception as e:
        if S.is_injected(e):
            raise
        # the order in which a set is listed in a message means nothing
        return ['!', type(e).__name__, ''.join(sorted(str(e)))]


def _observe(tag, obs):
    k = obs[0]
    cls = type(tag)
    if k == 'attr':
        v = getattr(tag, obs[1])
        return None if v is None else str(v)
    if k == 'gr':
        return [type(tag.grammemes).__name__, sorted(tag.grammemes)]
    if k == 'cyr':
        return [type(tag.grammemes_cyr).__name__, sorted(tag.grammemes_cyr)]
    if k == 'cyr_repr':
        return tag.cyr_repr
    if k == 'in':
        return obs[1] in tag
    if k == 'inset':
        return [set(obs[1]) in tag, frozenset(obs[1]) in tag]
    if k == 'len':
        return len(tag)
    if k == 'str':
        return str(tag)
    if k == 'repr':
        return repr(tag)
    if k == 'agree':
        s = tag.numeral_agreement_grammemes(obs[1])
        return sorted(map(str, s))
    if k == 'upd':
        want = set(obs[1])
        r = sorted(tag.updated_grammemes(want))
        return [r, sorted(want)]
    if k == 'prod':
        return tag.is_productive()
    if k == 'hash':
        return [hash(tag) == hash(cls(str(tag))), hash(tag) == hash(tag), len(set([tag, cls(str(tag))]))]
    if k in ('eq', 'lt'):
        o = cls(obs[1])
        return [tag == o, o == tag, tag != o] if k == 'eq' else [tag < o, tag > o, o < tag]
    if k == 'other':
        # a tag of the same grammemes in another order or grouping
        o = cls(variant(random.Random(obs[1]), str(tag)))
        return [str(o), tag == o, o == tag, tag != o, hash(tag) == hash(o) or tag != o, tag < o, sorted(o.grammemes), o.cyr_repr, tag == o, len(o)]
    if k == 'sort':
        o = [cls('LATN'), cls('UNKN'), tag]
        return [str(x) for x in sorted(o)]
    if k == 'typed':
        return getattr(tag, obs[1]) == obs[2]
    if k == 'copy':
        import copy
        c = copy.copy(tag)
        return [str(c), c == tag, hash(c) == hash(tag), sorted(c.grammemes)]
    if k == 'l2c':
        return [cls.lat2cyr(tag), cls.lat2cyr(str(tag)), cls.cyr2lat(cls.lat2cyr(tag))]
    if k == 'known':
        return cls.grammeme_is_known(obs[1])
    if k == 'all':
        return ops.c_tag(tag)
    raise AssertionError(obs)


def get_tag(morph, src):
    """ src: ['word', w, i] or ['new', text] """
    if src[0] == 'word':
        ts = morph.tag(src[1])
        return ts[min(src[2], len(ts) - 1)]
    if src[0] == 'var':
        # the same grammemes in another order or grouping, perhaps repeated
        ts = morph.tag(src[1])
        return morph.TagClass(variant(random.Random(src[3]), str(ts[min(src[2], len(ts) - 1)])))
    try:
        return morph.TagClass(src[1])
    except ValueError:          # a grammeme this dictionary does not have
        return morph.tag('кот')[0]


def variant(rng, text):
    gr = text.replace(' ', ',').split(',')
    head, rest = gr[:1], gr[1:]
    x = rng.random()
    if x < 0.5 or len(gr) < 2:
        rest = rest + [rng.choice(gr)]
    if x > 0.3:
        rng.shuffle(rest)
    gr = head + rest
    k = rng.randrange(len(gr))
    return ','.join(gr[:k + 1]) + (' ' if k + 1 < len(gr) else '') + ','.join(gr[k + 1:])


def gen_src(rng, theme, toy):
    if rng.random() < 0.15:
        return ['var', ops.gen_word(rng, theme, toy), rng.choice([0, 0, 1, 2, 5]), rng.randrange(1000)]
    if rng.random() < 0.75:
        return ['word', ops.gen_word(rng, theme, toy), rng.choice([0, 0, 1, 2, 5])]
    return ['new', rng.choice(['NOUN,anim,masc sing,nomn', 'LATN', 'UNKN', 'PNCT', 'ADVB', 'CONJ', 'NOUN,inan,masc sing,nomn', 'NUMB,intg'])]


def tag_alone(morph, src, obs):
    return observe(get_tag(morph, src), obs)


def zygcall(z, fn, *args):
    """ Like z.ask, not memoised. """
    n = len(z.memo)
    z.memo.pop(json.dumps([fn.__name__, args], sort_keys=True, ensure_ascii=False), None)
    out = z.ask(fn, *args)
    z.memo.pop(json.dumps([fn.__name__, args], sort_keys=True, ensure_ascii=False), None)
    return out
