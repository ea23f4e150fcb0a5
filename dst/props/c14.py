# -*- coding: utf-8 -*-
""" C14: a failed or interrupted construction leaves no trace. """
import gc
import os
import shutil
import warnings

import core
import ops
import worlds
from props import common as C
from props import c07
from props import comp as K
from props.c01 import pick
from sim import io as simio
from sim import sched as S

CFG = [('t-ru', 14), ('t-uk', 10), ('t-tiny', 10), ('t-nested', 6), ('t-short', 5), ('t-shape', 5), ('t-subst', 6), ('t-odd', 4), ('t-noprob', 5), ('t-lang', 5), ('t-ru-plain', 4), ('t-inner', 5)]
SUPPLIED = ['unit-init', 'unit-clone', 'unit-init-late', 'estimator', 'subst', 'result-type', 'units-iter']
EXC = ['RuntimeError', 'KeyboardInterrupt', 'OSError', 'MemoryError', 'SystemExit', 'GeneratorExit']


def setup(ctx):
    C.init_toy()
    import pymorphy2.units, pymorphy2.analyzer  # noqa


def gen_attempt(rng, io=True):
    cfg = pick(rng, CFG)
    x = rng.random()
    a = {'cfg': cfg, 'seed': rng.randrange(1 << 30), 'retry': rng.random() < 0.6, 'ask': [ops.gen_op(rng, None, C.toy_of(cfg)) for _ in range(rng.choice([1, 1, 2]))]}
    if x < 0.42:
        a.update(kind='strike', exc=rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']))
    elif x < 0.68 and io:
        a.update(kind='io')       # one simulated disk at a time
    elif x < 0.86:
        a.update(kind='supplied', how=rng.choice(SUPPLIED), exc=rng.choice(EXC))
    elif x < 0.96:
        a.update(kind='bad', how=rng.choice(c07.FAILS))
    else:
        a.update(kind='none')
    return a


def gen(rng, idx, ctx):
    nv = rng.choice([1, 1, 1, 2])
    threads = [[gen_attempt(rng, i == 0) for _ in range(rng.choice([1, 1, 2, 3]))] for i in range(nv)]
    exist = [pick(rng, CFG) for _ in range(rng.choice([0, 1, 1, 2]))]
    others = []
    if rng.random() < 0.55:
        for _ in range(rng.choice([1, 1, 2])):
            if exist and rng.random() < 0.5:
                i = rng.randrange(len(exist))
                others.append(['ask', i, ops.gen_op(rng, None, C.toy_of(exist[i]))])
            else:
                cfg = pick(rng, CFG)
                others.append(['make', cfg, ops.gen_op(rng, None, C.toy_of(cfg))])
    probes = []
    for i, cfg in enumerate(exist):
        for _ in range(2):
            probes.append(['ask', i, ops.gen_op(rng, None, C.toy_of(cfg))])
        probes.append(['tag', i, C.gen_src(rng, None, C.toy_of(cfg)), C.gen_obs(rng)])
    for _ in range(2):
        cfg = rng.choice([a['cfg'] for t in threads for a in t] + [pick(rng, CFG)])
        probes.append(['make', cfg, ops.gen_op(rng, None, C.toy_of(cfg))])
    return {'threads': threads, 'exist': exist, 'others': others, 'probes': probes, 'pseed': rng.randrange(1 << 30),
            'gran': rng.choice(['line', 'line', 'opcode', 'call'])}


# -- arguments supplied by the caller that raise until the cause is gone ------------

class Cause(object):
    on = True
    hits = 0

    def __init__(self, exc):
        self.exc = {'RuntimeError': RuntimeError, 'KeyboardInterrupt': KeyboardInterrupt, 'OSError': OSError, 'MemoryError': MemoryError,
                    'SystemExit': SystemExit, 'GeneratorExit': GeneratorExit}[exc]

    def __call__(self):
        if self.on:
            self.hits += 1
            raise self.exc('supplied')


def supplied(how, cause):
    """ Constructor arguments. """
    from pymorphy2 import units as U
    from pymorphy2 import analyzer
    from pymorphy2.units.base import BaseAnalyzerUnit

    if how in ('unit-init', 'unit-clone', 'unit-init-late'):
        class Step(BaseAnalyzerUnit):
            def init(self, morph):
                if how == 'unit-init':
                    cause()
                super(Step, self).init(morph)
                if how == 'unit-init-late':
                    morph.TagClass.add_grammemes_to_known('Late', 'позд')
                    cause()

            def clone(self):
                if how == 'unit-clone':
                    cause()
                return super(Step, self).clone()

            def parse(self, word, word_lower, seen_parses):
                return []

            def tag(self, word, word_lower, seen_tags):
                return []
        us = [[U.DictionaryAnalyzer(), U.AbbreviatedFirstNameAnalyzer('абв')], U.LatinAnalyzer(), Step(), U.KnownSuffixAnalyzer(), U.UnknAnalyzer()]
        return {'units': us}
    if how == 'estimator':
        class Est(object):
            def __init__(self, path):
                cause()

            def apply_to_parses(self, word, word_lower, parses):
                return parses

            def apply_to_tags(self, word, word_lower, tags):
                return tags
        return {'probability_estimator_cls': Est}
    if how == 'subst':
        class Subst(dict):
            def items(self):
                cause()
                return dict.items(self)

            def __iter__(self):
                cause()
                return dict.__iter__(self)

            def keys(self):
                cause()
                return dict.keys(self)

            def __bool__(self):
                cause()
                return True
        return {'char_substitutes': Subst({'е': 'ё'})}
    if how == 'result-type':
        class Meta(type):
            def __new__(mcs, name, bases, ns):
                if '_morph' in ns:
                    cause()
                return type.__new__(mcs, name, bases, ns)
        return {'result_type': Meta(str('P'), (analyzer.Parse,), {})}
    if how == 'units-iter':
        class Units(list):
            def __iter__(self):
                cause()
                return list.__iter__(self)
        return {'units': Units([U.DictionaryAnalyzer(), U.UnknAnalyzer()])}
    raise AssertionError(how)


def supplied_ref(cfg, how):
    cause = Cause('RuntimeError')
    cause.on = False
    return C.make(cfg, **supplied(how, cause))


def open_under(root):
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p.startswith(root + os.sep):
            out.append(p[len(root) + 1:])
    return sorted(out)


def construct(cfg, path, kw):
    return C.make(cfg, path=path, **kw)


def do_attempt(a, t, scratch, n, notes):
    """ One construction that should fail: [outcome, what the retry answers] """
    d = os.path.join(scratch, 'v%s' % n)
    shutil.copytree(worlds.path(C.toy_of(a['cfg'])), d)
    toy = C.toy_of(a['cfg'])
    kw = {}
    m = None
    cause = None
    fired = 0
    kind = a['kind']
    if kind == 'bad':
        notes['seen'].append(1)
        nth = 1000 + len(notes['seen'])
        r = c07.fail(a['how'], toy, scratch, nth)
        if r is None:
            notes['bad'].append('a construction with %s succeeded' % a['how'])
        how, fired = 'raised', 1
    else:
        if kind == 'supplied':
            cause = Cause(a['exc'])
            kw = supplied(a['how'], cause)
        disk = simio.Disk(d, a['plan']) if kind == 'io' else None
        before = len(t.fired)
        if kind == 'strike':
            if a.get('place'):
                t.visits = {}
                t.strikes = {a['place'][0]: {a['place'][1]: a['exc']}}
            else:
                t.inject[t.local + a['at']] = a['exc']
        try:
            if disk:
                disk.__enter__()
            try:
                m = construct(a['cfg'], d, kw)
                how = 'ok'
            finally:
                t.inject.clear()
                t.strikes.clear()
                if disk:
                    disk.__exit__()
                    fired = sum(disk.fired())
        except S.Abort:
            raise
        except BaseException as e:
            how = 'raised'
            right = (S.is_injected(e) if kind == 'strike' else isinstance(e, cause.exc) if cause else isinstance(e, Exception) and not S.is_injected(e))
            if not right:
                how = 'raised %s: %s' % (type(e).__name__, e)
            del e
        if kind == 'strike':
            fired = len(t.fired) - before
        elif cause:
            fired = cause.hits
    # another thread may be loading at this moment
    left = open_under(d if kind != 'bad' else os.path.join(scratch, 'broken%d' % nth))
    if left:
        notes['bad'].append('after the construction (%s) %s files stay open: %s' % (a, how, left))
    out = [how, fired, None]
    if cause:
        cause.on = False
    if a['retry'] and how != 'ok':
        m = construct(a['cfg'], d, kw)
    if m is not None:
        out[2] = [ops.run_op(m, op) for op in a['ask']]
    return out


def do_other(morphs, o):
    if o[0] == 'ask':
        return ops.run_op(morphs[o[1]], o[2])
    if o[0] == 'tag':
        return C.tag_alone(morphs[o[1]], o[2], o[3])
    return ops.run_op(C.make(o[1]), o[2])


def child(case, scratch):
    notes = {'bad': [], 'seen': []}
    morphs = [C.make(cfg) for cfg in case['exist']]

    def victim(i):
        def body(t):
            t.inject = {}
            return [do_attempt(a, t, scratch, '%d-%d' % (i, j), notes) for j, a in enumerate(case['threads'][i])]
        return body
    bodies = [victim(i) for i in range(len(case['threads']))]
    if case['others']:
        bodies.append(lambda t: [do_other(morphs, o) for o in case['others']])
    out = C.run_threads(bodies, case['policy'], case['gran'], guard=True)
    out['notes'] = notes['bad']
    if out['dead']:
        return out
    after = C.run_threads([lambda t: [do_other(morphs, o) for o in case['probes']]], {'kind': 'fixed', 'schedule': {}}, 'none')
    out['dead2'] = after['dead']
    out['err2'] = after['errors']
    out['probes'] = after['results'][0]
    gc.collect()
    return out


def measure(cfg, gran):
    """ Yield points of a construction, and its file operations. """
    def body(t):
        n = t.local
        C.make(cfg)
        return t.local - n
    return C.run_threads([body], {'kind': 'fixed', 'schedule': {}}, gran)['results'][0]


def measure_io(cfg):
    with simio.Disk(worlds.path(C.toy_of(cfg))) as d:
        C.make(cfg)
    return d.log()


def explicit(ctx, case):
    rng = core.case_rng('c14', case['pseed'])
    threads = []
    lens = []
    allplaces = []
    for th in case['threads']:
        new = []
        total = 0
        places = []
        for a in th:
            n = ctx.once(['n', a['cfg'], case['gran']], measure, a['cfg'], case['gran'])
            total += n * 2
            r = core.case_rng('c14a', a['seed'])
            pl = C.at_gran(C.make_places(ctx, a['cfg']), case['gran'])
            places.append(pl)
            if a['kind'] == 'strike' and 'at' not in a and 'place' not in a and r.random() < 0.6:
                a = dict(a, place=list(C.some_place(r, pl)))
            elif a['kind'] == 'strike' and 'at' not in a and 'place' not in a:
                # loading tags repeats one place many times: also strike near the end
                a = dict(a, at=1 + (r.randrange(n) if r.random() < 0.5 else n - 1 - r.randrange(max(1, n // 8))))
            elif a['kind'] == 'io' and 'plan' not in a:
                log = ctx.once(['io', a['cfg']], measure_io, a['cfg'])
                k = r.randrange(len(log))
                e = r.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT'] if log[k][0] == 'openr' else ['EIO', 'ESTALE'])
                p = [k, 'trunc-read', None, 0, None] if log[k][0] == 'read' and r.random() < 0.2 else [k, r.choice(['err', 'persist']), e, 0, simio.READS]
                a = dict(a, plan=[p])
            new.append(a)
        threads.append(new)
        lens.append(total)
        allplaces.append(C.add_places(places))
    for o in case['others'][:1]:
        lens.append(3000)
        allplaces.append(C.at_gran(C.make_places(ctx, o[1] if o[0] == 'make' else case['exist'][o[1]]), case['gran']))
    pol = C.gen_policy(rng, len(lens), lens, allplaces) if len(lens) > 1 else {'kind': 'fixed', 'schedule': {}}
    return dict(case, threads=threads, policy=case.get('policy') or pol)


def execute(ctx, case):
    res = core.Result()
    res.case = case
    case = explicit(ctx, case)
    scratch = ctx.fresh_dir('c14')
    out = ctx.call(child, case, scratch)
    res.case = dict(case, policy=out['schedule'])
    C.note_threads(res, out, case['gran'])
    res.sig = [case['exist'], case['threads'], case['gran'], out['sig']]
    res.log = core.digest([out['results'], out.get('probes'), out['fired'], out['notes']])
    desc = 'existing %s; attempts %s; struck at %s' % (case['exist'], core.short(case['threads'], 900), out['fired'])
    if out['dead']:
        return res.bad('something stays locked', out['dead'] + '; ' + desc)
    if out['notes']:
        return res.bad('left behind', '; '.join(out['notes'])[:2500])
    for i, e in enumerate(out['errors']):
        if e:
            return res.bad('construction does not work any more', 'thread %d: %s; %s' % (i, e, desc))
    nf = 0
    for th, got in zip(case['threads'], out['results']):
        for a, (how, fired, ans) in zip(th, got):
            if fired:
                nf += 1
                res.count('fault:' + (a['kind'] + ' ' + (a.get('how') or a.get('exc') or a['plan'][0][1])))
            if how not in ('ok', 'raised'):
                return res.bad('wrong exception', '%s: %s' % (a, how))
            if fired and how == 'ok' and not (a['kind'] == 'io' and a['plan'][0][1] == 'trunc-read'):
                return res.bad('error does not reach the caller', '%s: the construction returned normally' % a)
            if how == 'raised' and not fired:
                return res.bad('construction fails without a cause', str(a))
            if ans is not None:
                for op, x in zip(a['ask'], ans):
                    if a['kind'] == 'supplied':
                        zs = ctx.__dict__.setdefault('zygotes', {})
                        key = '%s/%s' % (a['cfg'], a['how'])
                        if key not in zs:
                            zs[key] = core.Zygote(supplied_ref, a['cfg'], a['how']).start()
                        want = zs[key].ask(ops.run_op, op)
                    else:
                        want = C.alone(ctx, a['cfg'], op)
                    res.count('answers_checked')
                    if x != want:
                        return res.bad('wrong answer after a failed construction', '%s, %s: %s' % (a, op, C.diff(x, want)))
    res.nontrivial = nf > 0
    if out['dead2'] or out['err2'][0]:
        return res.bad('construction does not work any more', 'afterwards, in a new thread: %s %s; %s' % (out['dead2'], out['err2'], desc))
    for name, got in (('others', out['results'][-1] if case['others'] else []), ('probes', out['probes'])):
        for o, x in zip(case[name], got):
            res.count('answers_checked')
            if o[0] == 'ask':
                want = C.alone(ctx, case['exist'][o[1]], o[2])
            elif o[0] == 'tag':
                want = C.zyg(ctx, case['exist'][o[1]]).ask(C.tag_alone, o[2], o[3])
            else:
                want = C.alone(ctx, o[1], o[2])
            if x != want:
                return res.bad('wrong answer after a failed construction' if name == 'probes' else 'wrong answer in another thread', '%s: %s; %s' % (o, C.diff(x, want), desc))
    return res


def shrink(ctx, case):
    th = case['threads']
    if case['others']:
        yield dict(case, others=[], policy={'kind': 'fixed', 'schedule': {}})
    for i in range(len(th)):
        if len(th) > 1:
            yield dict(case, threads=th[:i] + th[i + 1:], policy={'kind': 'fixed', 'schedule': {}})
        for j in range(len(th[i])):
            if len(th[i]) > 1:
                yield dict(case, threads=th[:i] + [th[i][:j] + th[i][j + 1:]] + th[i + 1:])
    for i in range(len(case['probes'])):
        yield dict(case, probes=case['probes'][:i] + case['probes'][i + 1:])
    for c in C.shrink_schedule(case):
        yield c
