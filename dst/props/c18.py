# -*- coding: utf-8 -*-
""" C18: memoising never changes a result. """
import collections
import io
import zlib

import core
import ops
from props import common as C
from props import clisim as L
from props.c01 import pick
from sim import faults
from sim import sched as S

CACHES = ['dict', 'dict', 'dict', 'ordered', 'small', 'lru1', 'lru2', 'lru3', 'lru8', 'lru128', 'lruNone', 'lru0']
NEAR = [16, 32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000]
FILLS = [0, 0, 0, 0, 0, 10, 60, 100, 127, 128, 250, 256, 500, 512, 1000, 1000, 1024, 2000, 4096, 5000, 10000, 10000, 16384, 20000, 32768]
TAGS = ['NOUN,anim,masc sing,loc1', 'NOUN,anim,masc sing,loct', 'NOUN sing,gen1', 'NOUN sing,gent', 'NOUN,inan sing,acc1', 'VERB', '', 'A,B C D', 'A B,C', 'NOUN,anim,masc sing,loc2', 'A,B,C']


class Boom(ValueError):
    pass


class Planned(Exception):
    """ A failure that does not happen again. """


PLANNED = [type('Planned' + x.__name__, (Planned, x), {}) for x in (
    KeyError, KeyError, IndexError, AttributeError, StopIteration, OSError, RuntimeError, UnicodeError, AssertionError, SystemExit, GeneratorExit, ValueError, ArithmeticError)]


class Key(object):
    """ Keys that all have the same hash. """
    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, Key) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'Key(%r)' % (self.v,)


class Small(dict):
    """ A mapping of the caller's that forgets. """
    def __setitem__(self, k, v):
        if len(self) >= 3 and k not in self:
            del self[next(iter(self))]
        dict.__setitem__(self, k, v)


def setup(ctx):
    C.init_toy()
    ctx.morphs = {n: C.make(n) for n in ('t-ru', 't-tiny')}


def arg_of(a):
    k, v = a
    return {'s': lambda: v, 'i': lambda: v, 'f': lambda: float(v), 'k': lambda: Key(v), 't': lambda: tuple(v), 'z': lambda: frozenset(v),
            'b': lambda: v.encode('utf8'), 'n': lambda: None, 'l': lambda: list(v), 'o': lambda: bool(v)}[k]()


def name_of(i, a):
    """ The same for equal arguments. """
    if isinstance(a, (bool, int, float)):
        a = float(a)
    return '%d %r' % (i, a if not isinstance(a, frozenset) else sorted(map(repr, a)))


def gen_arg(rng, pool):
    if rng.random() < 0.75:
        return rng.choice(pool)
    return new_arg(rng)


def new_arg(rng):
    k = rng.choice(['s', 's', 's', 's', 'i', 'i', 'f', 'k', 'k', 't', 'z', 'b', 'n', 'o'])
    if k in 'sb':
        return [k, rng.choice(['кот', 'Кот', 'КОТ', 'еж', 'ёж', '', ' ', 'a', 'b', 'кот ', '0', '1', 'None', '\u0438\u0306', 'й'])]
    if k in 'ifko':
        return [k, rng.choice([-2, -1, 0, 1, 2, 3, 2 ** 61 - 1, 2 ** 61])]
    if k in 'tz':
        return [k, rng.choice([[], [1], [1, 2], [2, 1], ['a']])]
    return [k, None]


def gen(rng, idx, ctx):
    mode = pick(rng, [('plain', 62), ('formatter', 20), ('tags', 18)])
    nf = rng.choice([1, 1, 2, 3])
    fns = [{'cache': rng.choice(CACHES), 'salt': rng.randrange(1000), 'rec': rng.random() < 0.12, 'style': rng.choice(['any', 'any', 'falsy', 'fail'])} for _ in range(nf)]
    nt = pick(rng, [(1, 45), (2, 35), (3, 20)])
    if nt > 1:
        for f in fns:
            if f['cache'] == 'small':       # the caller's mapping cannot be shared by threads
                f['cache'] = 'dict'
    pool = [new_arg(rng) for _ in range(rng.choice([1, 2, 3, 5]))]
    if mode == 'formatter':
        toy = 'ru1'
        pool = [['s', ops.gen_word(rng, None, toy)] for _ in range(rng.choice([1, 2, 3, 4]))]
        pool += [['s', pool[0][1].upper()], ['s', pool[0][1].title()]]
        pool = [a for a in pool if a[1] and a[1].split() == [a[1]]] or [['s', 'кот']]
    if mode == 'tags':
        pool = [['s', t] for t in rng.sample(TAGS, rng.choice([2, 3, 5]))]
    threads = []
    for _ in range(nt):
        mine = []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            mine.append([rng.randrange(nf), gen_arg(rng, pool) if mode == 'plain' else rng.choice(pool)])
        threads.append(mine)
    if mode == 'plain' and rng.random() < 0.08:
        threads[0].insert(rng.randrange(len(threads[0]) + 1), [0, ['l', [1]]])
    flaky = {}
    for f in range(nf):
        for a in pool:
            if rng.random() < 0.2:
                flaky[name_of(f, arg_of(a))] = sorted(set(rng.randrange(1, 4) for _ in range(2)))
    return {'mode': mode, 'fns': fns, 'threads': threads, 'flaky': flaky, 'fill': 0 if mode == 'formatter' else rng.choice(FILLS) if rng.random() < 0.6 else max(0, rng.choice(NEAR) - rng.randrange(6)), 'probes': pool, 'morph': rng.choice(['t-ru', 't-tiny']),
            'opt': rng.choice([[1, 1, 1, 0], [1, 1, 0, 0], [0, 1, 1, 0], [1, 0, 1, 0.1], [0, 1, 0, 0.3]]),
            'gran': rng.choice(['opcode', 'opcode', 'line', 'none']), 'pseed': rng.randrange(1 << 30),
            'strikes': [[rng.randrange(1, 120), rng.choice(['KeyboardInterrupt', 'MemoryError'])] for _ in range(rng.choice([0, 0, 1, 2, 3]))],
            'lookups': sorted(set(rng.randrange(1, 60) for _ in range(rng.choice([0, 1, 2])))) if mode == 'formatter' else []}


def plain(f, a):
    """ The value of function ``f`` for ``a``; equal arguments have equal values. """
    if isinstance(a, (bool, int, float)):
        a = float(a)
    h = zlib.crc32(('%s %r' % (f['salt'], a if not isinstance(a, frozenset) else sorted(map(repr, a)))).encode('utf8'))
    if f['style'] == 'falsy':
        return [None, '', 0, False, (), 'x'][h % 6]
    if f['style'] == 'fail' and h % 3 == 0:
        raise Boom('%d' % (h % 1000))
    return [h % 100, str(h), None, (h % 7, str(h % 11))][h % 4]


def yield_here(name):
    s = S.in_sim()
    if s is not None:
        s.point(name, None)


def wrap(cache, fn):
    from pymorphy2 import cache as M
    if cache.startswith('lru'):
        n = cache[3:]
        return M.lru_cache(None if n == 'None' else int(n))(fn)
    return M.memoized_with_single_argument({'dict': dict, 'ordered': collections.OrderedDict, 'small': Small}[cache]())(fn)


def _tag_model(i, a):
    s = a
    for x, y in (('loc1', 'loct'), ('gen1', 'gent'), ('acc1', 'accs')):
        s = y.join(s.split(x))
    if i % 2:
        return s
    h, sep, t = s.partition(' ')
    return frozenset((h + ',' + t if sep else h).split(','))


def make_functions(ctx, case):
    counts = {}
    done = {}
    fns = []
    originals = []
    for i, f in enumerate(case['fns']):
        if case['mode'] == 'tags':
            from pymorphy2.opencorpora_dict import preprocess as P
            f = getattr(P, ['tag2grammemes', 'replace_redundant_grammemes'][i % 2], None)
            fns.append(f or wrap('lruNone', lambda a, i=i: _tag_model(i, a)))   # moved elsewhere: nothing of the library's to look at
            continue
        if case['mode'] == 'formatter':
            from pymorphy2 import cli
            l, t, s, thresh = case['opt']

            def base(tok, m=ctx.morphs[case['morph']]):
                o = io.StringIO()
                cli.parse(morph=m, in_file=io.StringIO(tok + '\n'), out_file=o, tokenize=False, score=bool(s), normal_form=bool(l), tag=bool(t),
                          newlines=True, cache_size=0, thresh=thresh)
                return o.getvalue()
        else:
            base = None

        def fn(a, i=i, f=f, base=base):
            k = name_of(i, a)
            counts[k] = counts.get(k, 0) + 1
            n = counts[k]
            yield_here('in the function')
            if n in case['flaky'].get(k, ()):
                raise PLANNED[(zlib.crc32(k.encode('utf8')) + n) % len(PLANNED)]('planned')
            if base is not None:
                v = base(a)
            elif f['rec'] and f['style'] != 'fail' and isinstance(a, int) and not isinstance(a, bool) and 0 < a < 50:
                v = [fns[i](a - 1), plain(f, a)][1]
            else:
                v = plain(f, a)
            yield_here('in the function')
            done[k] = True
            return v
        originals.append(fn)
        fns.append(wrap(f['cache'], fn))
    return fns, counts, done


def view(v):
    return repr(sorted(v)) if isinstance(v, frozenset) else repr(v)


def child(ctx, case):
    look = None
    if case['lookups']:
        look = faults.Lookups(case['lookups'])
    fns, counts, done = make_functions(ctx, case)
    out = {'log': [], 'bad': None, 'recomputed': 0}
    for i in range(case['fill']):
        for f in fns[:2]:
            try:
                f('fill %d' % i)
            except Boom:
                pass

    def expect(i, a):
        if case['mode'] == 'tags':
            return view(_tag_model(i, a))
        try:
            return view(plain(case['fns'][i], a))
        except Boom as e:
            return 'Boom ' + str(e)

    def call(i, a):
        k = name_of(i, a)
        before = counts.get(k, 0)
        was = done.get(k)
        try:
            r = view(fns[i](a))
        except Boom as e:
            r = 'Boom ' + str(e)
        except (Planned, faults.InjectedIOError):
            return 'failed'
        except TypeError as e:
            if isinstance(a, list):
                return 'unhashable'
            raise
        except (S.Injected, S.InjectedMemoryError):
            return 'interrupted'
        # a computation must have happened if none had been completed
        if case['mode'] != 'tags' and not was and not done.get(k) and r[:4] != 'Boom':
            return 'never computed: ' + r
        return r

    def body(t, mine):
        return [call(i, arg_of(a)) for i, a in mine]
    if look:
        look.install()
    try:
        inj = [{}]
        if case['strikes']:
            inj = [{n: x for n, x in case['strikes']}]
        r = C.run_threads([lambda t, m=m: body(t, m) for m in case['threads']], case['policy'], case['gran'], injects=inj, guard=case['gran'] != 'none')
    finally:
        if look:
            look.remove()
    out['run'] = r
    out['fired'] = [sum(len(x) for x in r['fired']), look.fired if look else 0]
    out['probes'] = []
    if r['dead']:
        return out
    for a in case['probes']:
        for i in range(len(fns)):
            for _ in range(15):
                v = call(i, arg_of(a))
                if v != 'failed':
                    break
            out['probes'].append(v)
    for i in (0, case['fill'] // 2, case['fill'] - 1):
        if case['fill']:
            out['probes'].append(['fill %d' % i, [call(j, 'fill %d' % i) for j in range(len(fns))]])
    if case['mode'] != 'formatter':
        out['want'] = [[expect(i, arg_of(a)) for i, a in m] for m in case['threads']]
        out['pwant'] = [expect(i, arg_of(a)) for a in case['probes'] for i in range(len(fns))] + \
            [['fill %d' % i, [expect(j, 'fill %d' % i) for j in range(len(fns))]] for i in (0, case['fill'] // 2, case['fill'] - 1) if case['fill']]
    return out


def answers(morph, case, toks):
    m = L.analyses(morph, toks)
    l, t, s, thresh = case['opt']
    return [view(L.model_line(x, m[x], {'l': l, 't': t, 's': s, 'thresh': thresh})) for x in toks]


def execute(ctx, case):
    res = core.Result()
    if 'policy' not in case:
        n = [len(m) * {'opcode': 60, 'line': 12, 'none': 2}[case['gran']] for m in case['threads']]
        rng = core.case_rng('sched', case['pseed'])
        pol = C.gen_policy(rng, len(case['threads']), n) if len(n) > 1 else {'kind': 'fixed', 'schedule': {}}
        case = dict(case, policy=pol)
    out = ctx.call(child, ctx, case)
    r = out['run']
    res.case = dict(case, policy=r['schedule'])
    res.sig = [case['mode'], case['fns'], case['threads'], case['fill'], case['strikes'], case['flaky'], case['lookups'], r['sig']]
    res.log = core.digest([r['results'], r['sig'], out['probes']])
    C.note_threads(res, r, case['gran'])
    res.count('mode_' + case['mode'])
    res.count('fault:interruption', out['fired'][0])
    res.count('fault:failing lookup', out['fired'][1])
    calls = [x for m in (r['results'] or []) for x in (m or [])]
    res.count('fault:failing function', sum(1 for x in calls if x == 'failed' or str(x).startswith('Boom')) - out['fired'][1])
    res.nontrivial = sum(map(len, case['threads'])) > 1
    if r['dead']:
        return res.bad('deadlock', r['dead'])
    for i, e in enumerate(r['errors']):
        if e:
            return res.bad('unexpected exception', 'thread %d: %s; %s' % (i, e, core.short(r['trace'], 400)))
    if case['mode'] == 'formatter':
        toks = sorted(set(a[1] for m in case['threads'] for _, a in m) | set(a[1] for a in case['probes']))
        ans = ctx.once(['answers', case['morph'], case['opt'], toks], lambda: answers(ctx.morphs[case['morph']], case, toks))
        table = dict(zip(toks, ans))
        want = [[table[a[1]] for _, a in m] for m in case['threads']]
        pwant = [table[a[1]] for a in case['probes'] for _ in case['fns']]
    else:
        want, pwant = out['want'], out['pwant']
    may = sum(out['fired']) > 0 or case['flaky'] or case['lookups']

    def check(got, w, what):
        res.count('results_checked')
        if got == w:
            return
        if got in ('failed', 'interrupted') and may:
            return
        if got == 'unhashable' and what[1][0] == 'l':
            return
        res.bad('wrong result', '%s, function %s: %s; %s' % (what, case['fns'][what[0]] if isinstance(what[0], int) else '', C.diff(got, w), core.short(r['trace'], 300)))
    for m, got, w in zip(case['threads'], r['results'], want):
        for what, g, x in zip(m, got, w):
            check(g, x, what)
    if out['probes'] != pwant:
        for i, (g, x) in enumerate(zip(out['probes'], pwant)):
            if g != x:
                return res.bad('wrong result afterwards', '%s: %s; %s' % (case['probes'][i // len(case['fns'])] if i // len(case['fns']) < len(case['probes']) else 'fill', C.diff(g, x), core.short([r['fired'], r['trace']], 300)))
    return res


def shrink(ctx, case):
    if len(case['threads']) > 1:
        for i in range(len(case['threads'])):
            yield dict(case, threads=case['threads'][:i] + case['threads'][i + 1:], policy={'kind': 'fixed', 'schedule': {}})
        yield dict(case, threads=case['threads'][:-1])
    for c in C.shrink_schedule(case):
        yield c
    for c in C.shrink_threads(case):
        yield c
    for k, v in (('fill', 0), ('strikes', []), ('lookups', []), ('flaky', {}), ('gran', 'line')):
        if case[k] != v:
            yield dict(case, **{k: v})
    for i in range(len(case['probes'])):
        yield dict(case, probes=case['probes'][:i] + case['probes'][i + 1:])
    if case['fill']:
        yield dict(case, fill=case['fill'] // 2)
