# -*- coding: utf-8 -*-
""" C15: compilation is repeatable and isolated. """
import copy
import gc
import os
import re
import sys

import core
import lexicon
import ops
import worlds
from props import c07
from props import common as C
from props import comp as K
from props.c01 import pick
from sim import io as simio
from sim import sched as S

CFG = [('t-ru', 10), ('t-uk', 10), ('t-tiny', 8), ('t-odd', 3), ('t-nested', 3), ('t-lang', 3)]
TIMES = [0, 1, 10 ** 9, 1709164799, 2 ** 31 - 1, 2 ** 31 + 5, 4102444799, 951782399]


def setup(ctx):
    C.init_toy()


def gen_source(rng):
    s = K.gen_source(rng, rng.choice([1, 2, 3, 5, 8]))
    if rng.random() < 0.25:
        # other spellings of the same grammemes
        for g in s['lex']['grammemes']:
            if g[2] and rng.random() < 0.3:
                g[2] = g[2] + rng.choice(['ъ', '1'])
    if rng.random() < 0.2:
        s['opts']['extra_option'] = rng.choice([1, 'x', [1, 2]])
    return s


def gen(rng, idx, ctx):
    srcs = [gen_source(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    if len(srcs) > 1 and rng.random() < 0.3:
        # the same words under other options or grammemes
        srcs[1] = dict(copy.deepcopy(srcs[0]), opts=K.gen_options(rng))
    n = len(srcs)

    def step(thr):
        x = rng.random()
        if x < (0.6 if thr else 0.5):
            return ['compile', rng.randrange(n)]
        if x < 0.7:
            cfg = pick(rng, CFG)
            return ['make', cfg, [ops.gen_op(rng, None, C.toy_of(cfg)) for _ in range(2)]]
        if x < 0.78:
            return ['parse', rng.randrange(n)]
        if x < 0.86:
            return ['fail', rng.choice(['badxml', 'nopath', 'noprefix'] if thr else ['badxml', 'nopath', 'noprefix', 'analyzer']), rng.randrange(n)]
        if x < 0.92 and not thr:
            return ['strike', rng.randrange(n), 1 + int(10 ** rng.uniform(0, 4.3))]
        if x < 0.96:
            return ['load', rng.randrange(n)]
        return ['gc']
    hist = [step(False) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    mode = rng.random()
    case = {'srcs': srcs, 'hist': hist, 'threads': [], 'clock': None, 'again': rng.random() < 0.4, 'pseed': rng.randrange(1 << 30), 'shared_opts': rng.random() < 0.4}
    if rng.random() < 0.4:
        case['clock'] = [rng.choice(TIMES) * 10 ** 9, rng.choice([0, 1, -10 ** 9, 3600 * 10 ** 9, 10 ** 6])]
    if mode < 0.55:
        case['threads'] = [[['compile', rng.randrange(n)]] + [step(True) for _ in range(rng.choice([0, 0, 1]))]]
        for _ in range(rng.choice([1, 1, 2])):
            case['threads'].append([step(True) for _ in range(rng.choice([1, 1, 2]))])
        case['gran'] = rng.choice(['line', 'line', 'call', 'opcode'])
    else:
        case['hist'].append(['compile', rng.randrange(n)])
    return case


def compile_(xml, out, src, opts=None, overwrite=False):
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    convert_to_pymorphy2(xml, out, src['name'], src['lang'], overwrite=overwrite, compile_options=copy.deepcopy(src['opts']) if opts is None else opts)


def contents(path):
    """ The bytes of every file, without the time of compilation. """
    out = {}
    for f in sorted(os.listdir(path)):
        with open(os.path.join(path, f), 'rb') as fp:
            data = fp.read()
        if f == 'meta.json':
            data, n = re.subn(b'(?s)("compiled_at",?:?\\s*)"[^"]*"', b'\\1""', data)
            if n != 1:
                data = b'compiled_at %d times ' % n + data
        out[f] = [len(data), core.hashlib.sha1(data).hexdigest(), data.decode('utf8', 'replace') if f == 'meta.json' else '']
    return out


def alone(d, src, n):
    """ The bytes written by a process that does nothing else. """
    silence()
    xml = os.path.join(d, 'src%d.xml' % n)
    out = os.path.join(d, 'alone%d' % n)
    compile_(xml, out, src)
    return contents(out)


def places(d, gran):
    """ The places passed by a compilation. """
    silence()
    src = K.gen_source(core.case_rng('places of a compilation'), 5)
    K.write_source(src, os.path.join(d, 'counted.xml'))
    return C._counting(lambda: compile_(os.path.join(d, 'counted.xml'), os.path.join(d, 'counted'), src))[4][gran]


def silence():
    sys.stdout = sys.stderr = open(os.devnull, 'w')


class World(object):
    def __init__(self, case, d):
        self.case = case
        self.d = d
        self.n = 0
        self.outs = []          # (source number, folder, where)
        self.bad = []
        self.answers = []
        self.morphs = []
        self.opts = [copy.deepcopy(s['opts']) for s in case['srcs']]

    def xml(self, i):
        return os.path.join(self.d, 'src%d.xml' % i)

    def new(self):
        self.n += 1
        return os.path.join(self.d, 'out%d' % self.n)

    def step(self, s, where, t=None):
        k = s[0]
        if k == 'compile':
            src = self.case['srcs'][s[1]]
            out = self.new()
            opts = self.opts[s[1]] if self.case['shared_opts'] else copy.deepcopy(src['opts'])
            compile_(self.xml(s[1]), out, src, opts)
            if opts != src['opts']:
                self.bad.append('options were modified: %s -> %s' % (src['opts'], opts))
                self.opts[s[1]] = copy.deepcopy(src['opts'])
            self.outs.append((s[1], out, where))
        elif k == 'make':
            m = C.make(s[1])
            self.morphs.append(m)
            for op in s[2]:
                self.answers.append((s[1], op, ops.run_op(m, op)))
        elif k == 'parse':
            from pymorphy2.opencorpora_dict.parse import parse_opencorpora_xml
            from pymorphy2.opencorpora_dict import preprocess
            p = parse_opencorpora_xml(self.xml(s[1]))
            preprocess.simplify_tags(p)
        elif k == 'load':
            for i, out, _ in self.outs[-1:]:
                from pymorphy2 import MorphAnalyzer
                m = MorphAnalyzer(out)
                m.parse('кот')
                self.morphs.append(m)
        elif k == 'fail':
            src = self.case['srcs'][s[2]]
            try:
                if s[1] == 'badxml':
                    p = self.new() + '.xml'
                    with open(self.xml(s[2]), 'rb') as f, open(p, 'wb') as g:
                        g.write(f.read()[:-30])
                    compile_(p, self.new(), src)
                elif s[1] == 'nopath':
                    compile_(self.xml(s[2]), os.path.join(self.new(), 'x', 'y'), src)
                elif s[1] == 'noprefix':
                    compile_(self.xml(s[2]), self.new(), src, {})
                else:
                    c07.fail('unit-init', 'tiny', self.d, self.n)
            except Exception:
                pass
        elif k == 'strike':
            st = K.Strike(s[2], 'KeyboardInterrupt')
            try:
                sys.settrace(st.glob)
                try:
                    compile_(self.xml(s[1]), self.new(), self.case['srcs'][s[1]])
                finally:
                    sys.settrace(None)
            except S.Injected:
                pass
        elif k == 'gc':
            gc.collect()


def python_clock(start, step):
    import time
    now = [start]

    def tick():
        now[0] = max(0, now[0] + step)
        return now[0] / 1e9
    time.time = tick


def child(case, d):
    silence()
    w = World(case, d)
    # the interpreter's own waiting needs a sane clock: with threads only the
    # clock that Python code sees is replaced
    disk = None
    if case['clock'] and case['threads']:
        python_clock(*case['clock'])
    elif case['clock']:
        disk = simio.Disk(os.path.join(d, 'nothing'), clock=tuple(case['clock']))
        disk.__enter__()
    for i, s in enumerate(case['hist']):
        w.step(s, 'step %d' % (i + 1))
    out = None
    if case['threads']:
        def body(i):
            return lambda t: [w.step(s, 'thread %d' % i, t) for s in case['threads'][i]] and None
        out = C.run_threads([body(i) for i in range(len(case['threads']))], case['policy'], case['gran'], step_cap=3000000)
    if case['again'] and w.outs and not (out and (out['dead'] or any(out['errors']))):
        # over a dictionary that exists
        i, o, where = w.outs[-1]
        compile_(w.xml(i), o, case['srcs'][i], overwrite=True)
    if disk:
        disk.__exit__()
    return [[[i, where, contents(o)] for i, o, where in w.outs] if not (out and out['dead']) else [], w.bad, w.answers, out]


def execute(ctx, case):
    res = core.Result()
    res.case = case
    d = ctx.fresh_dir('c15')
    for i, s in enumerate(case['srcs']):
        K.write_source(s, os.path.join(d, 'src%d.xml' % i))
    want = [ctx.call(alone, d, s, i) for i, s in enumerate(case['srcs'])]
    if case['threads'] and 'policy' not in case:
        rng = core.case_rng('c15', case['pseed'])
        k = {'line': 25000, 'call': 4000, 'opcode': 120000}[case['gran']]
        lens = [k * len(t) for t in case['threads']]
        pl = ctx.once(['places', case['gran']], places, d, case['gran'])
        case = dict(case, policy=C.gen_policy(rng, len(lens), lens, [pl] * len(lens)))
    outs, bad, answers, thr = ctx.call(child, case, d)
    if thr:
        case = dict(case, policy=thr['schedule'])
        C.note_threads(res, thr, case['gran'])
    res.case = case
    res.sig = [[core.digest(s) for s in case['srcs']], case['hist'], case['threads'], case['clock'], thr and thr['sig']]
    kinds = [s[0] for s in case['hist'] + sum(case['threads'], [])]
    res.nontrivial = len(kinds) > 1 or bool(case['clock'])
    for k in set(kinds):
        res.count('step_' + k, kinds.count(k))
    res.count('fault:failed compilation', kinds.count('fail'))
    res.count('fault:interrupted compilation', kinds.count('strike'))
    if case['clock']:
        res.count('fault:odd clock')
    res.log = core.digest([outs, [a[2] for a in answers]])
    if thr and thr['dead']:
        return res.bad('deadlock', thr['dead'])
    if thr and any(thr['errors']):
        return res.bad('compilation fails', 'in threads %s: %s' % (case['threads'], thr['errors']))
    if bad:
        return res.bad('options modified', '; '.join(bad))
    for i, where, got in outs:
        res.count('compilations_compared')
        if got != want[i]:
            fs = sorted(f for f in set(got) | set(want[i]) if got.get(f) != want[i].get(f))
            f = fs[0]
            return res.bad('output differs', 'source %d, %s: %s; %s: %s' % (i, where, fs, f, C.diff(got.get(f), want[i].get(f))))
    for cfg, op, got in answers:
        w = C.alone(ctx, cfg, op)
        if got != w:
            return res.bad('wrong answer', 'analyzer %s next to compilations, %s: %s' % (cfg, op, C.diff(got, w)))
    return res


def shrink(ctx, case):
    h = case['hist']
    for i in range(len(h)):
        yield dict(case, hist=h[:i] + h[i + 1:])
    for i in range(len(case['threads'])):
        if len(case['threads']) > 1:
            yield dict(case, threads=case['threads'][:i] + case['threads'][i + 1:], policy={'kind': 'fixed', 'schedule': {}})
    if case['clock']:
        yield dict(case, clock=None)
    if case['again']:
        yield dict(case, again=False)
    for i, s in enumerate(case['srcs']):
        for lex in lexicon.shrink(s['lex']):
            yield dict(case, srcs=case['srcs'][:i] + [dict(s, lex=lex)] + case['srcs'][i + 1:])
    for c in C.shrink_schedule(case):
        yield c
