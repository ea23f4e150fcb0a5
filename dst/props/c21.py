# -*- coding: utf-8 -*-
""" C21: what is no longer used is given back. """
import copy
import gc
import os
import pickle
import random
import sys
import threading
import warnings
import weakref

import core
import lexicon
import ops
import worlds
from props import common as C
from props import comp as K
from props import c07
from props.c01 import pick
from sim import sched as S
from sim import faults

CFG = [('ru', 20), ('plain', 6), ('bare', 5), ('t-ru', 26), ('t-ru-plain', 6), ('t-uk', 12), ('t-nested', 12), ('t-subst', 6), ('t-shape', 7)]
MAKE = ['t-ru', 't-ru', 't-uk', 't-tiny', 't-odd', 't-nested', 't-lang', 't-subst', 't-ru-plain', 't-noprob', 't-shape']
CALLS = ['parse', 'parse', 'parse', 'tag', 'tag', 'nf', 'lexeme', 'inflect', 'normalized', 'agree', 'isknown', 'known', 'wik', 'tagobs', 'newtag', 'transl', 'member', 'cmp']
SHAPES = ['letters', 'known+ending', 'prefix+known', 'known-known', 'known+letters', 'po', 'particle', 'digits', 'latin', 'roman', 'punct', 'mixed', 'any']
RU = 'абвгдежзийклмнопрстуфхцчшщъыьэюяё'
# kind -> (rounds to get warm, rounds measured first, at most, bytes a round may leave)
SIZES = {
    'calls': (400, 500, 40000, 30),
    'struck': (80, 80, 2500, 60),
    'lookup': (300, 300, 12000, 40),
    'threads': (60, 80, 3000, 200),
    'cli': (400, 500, 40000, 30),
    'make': (6, 6, 60, 6000),
    'fail': (12, 12, 120, 6000),
    'pickle': (6, 6, 60, 6000),
    'tags': (400, 500, 40000, 30),
    'compile': (4, 4, 60, 6000),
}

PARTS = ['analyzer', 'dictionary', 'tag class', 'words']


def setup(ctx):
    C.init_toy()
    ctx.morphs = {name: C.make(name) for name, _ in CFG}
    try:
        import dawg
        ctx.can_compile = True
    except ImportError:
        ctx.can_compile = False


def gen(rng, idx, ctx):
    kind = pick(rng, [('calls', 34), ('lookup', 9), ('struck', 12), ('threads', 7), ('cli', 12), ('make', 9), ('fail', 6), ('pickle', 5), ('compile', 3)])
    if kind == 'compile' and not ctx.can_compile:
        kind = 'make'
    case = {'kind': kind, 'cfg': pick(rng, CFG), 'seed': rng.randrange(1 << 30)}
    if kind in ('struck', 'threads') and C.toy_of(case['cfg']) is None:
        case['cfg'] = 't-ru'
    case['shapes'] = [rng.choice(SHAPES) for _ in range(rng.choice([1, 1, 2]))]
    case['calls'] = [rng.choice(CALLS) for _ in range(rng.choice([1, 1, 2]))]
    if kind in ('struck', 'lookup', 'threads'):
        case['calls'] = ['parse' if c == 'known' else c for c in case['calls']]
    if kind == 'struck':
        case['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        case['deep'] = rng.choice([10, 40, 150, 400])
    elif kind == 'threads':
        case['objects'] = rng.random() < 0.7
    elif kind == 'lookup':
        case['every'] = rng.choice([1, 2, 3, 5, 9])
    elif kind == 'cli':
        case['opts'] = {'tokenize': rng.random() < 0.5, 'score': rng.random() < 0.5, 'normal_form': rng.random() < 0.6, 'tag': rng.random() < 0.6, 'newlines': rng.random() < 0.5,
                        'cache_size': rng.choice(['0', '0', '10', '100', '300']), 'thresh': rng.choice([0.0, 0.0, 0.1])}
        if not case['opts']['normal_form'] and not case['opts']['tag']:
            case['opts']['tag'] = True
        case['perline'] = rng.choice([1, 1, 5, 40]) if case['opts']['tokenize'] else 1
        case['cfg'] = rng.choice(['ru', 't-ru', 't-uk'])
    elif kind in ('make', 'pickle'):
        case['mcfg'] = [rng.choice(MAKE) for _ in range(rng.choice([1, 1, 2, 3]))]
        case['use'] = [op for op in [ops.gen_op(rng, None, None) for _ in range(rng.choice([0, 1, 2]))] if op[0] not in ('iter', 'words')]
        case['proto'] = rng.choice([0, 2, 3, 4])
        case['by'] = rng.choice(['pickle', 'pickle', 'copy', 'deepcopy'])
        case['chain'] = rng.random() < 0.5
        case['keep'] = rng.random() < 0.3
        case['strike'] = rng.choice([None, None, None, 'KeyboardInterrupt', 'MemoryError']) if kind == 'make' else None
    elif kind == 'fail':
        case['how'] = rng.choice(['nopath', 'badwords', 'version', 'gramtab', 'unit-init', 'estimator', 'units-type', 'subst', 'cut:meta.json', 'cut:grammemes.json', 'cut:suffixes.json', 'cut:gramtab-opencorpora-int.json', 'cut:paradigms.array', 'cut:prediction-suffixes-0.dawg'])
        case['toy'] = rng.choice(['ru1', 'uk1', 'tiny'])
    elif kind == 'compile':
        case['srcs'] = [K.gen_source(rng) for _ in range(rng.choice([1, 2]))]
    return case


# -- what is done over and over --------------------------------------------------------

def new_word(rng, shape, known):
    letters = lambda n: ''.join(rng.choice(RU) for _ in range(n))
    if shape == 'letters':
        return letters(rng.randrange(3, 10))
    if shape == 'known+ending':
        return letters(rng.randrange(1, 4)) + rng.choice(known)
    if shape == 'prefix+known':
        return rng.choice(['псевдо', 'не', 'супер', 'мега', 'анти']) + letters(2) + rng.choice(known)
    if shape == 'known-known':
        return rng.choice(known) + '-' + letters(rng.randrange(0, 4)) + rng.choice(known)
    if shape == 'known+letters':
        return rng.choice(known) + letters(rng.randrange(1, 5))
    if shape == 'po':
        return 'по-' + letters(rng.randrange(2, 6)) + rng.choice(['ому', 'ски', 'ему'])
    if shape == 'particle':
        return letters(rng.randrange(3, 7)) + rng.choice(['-то', '-ка', '-таки'])
    if shape == 'digits':
        return str(rng.randrange(10 ** 9)) + rng.choice(['', '', '.5', ',25', '-е'])
    if shape == 'latin':
        return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(rng.randrange(4, 10)))
    if shape == 'roman':
        return ''.join(rng.choice('IVXLCDM') for _ in range(rng.randrange(6, 14)))
    if shape == 'punct':
        return ''.join(rng.choice('.,:;!?()-–—«»"') for _ in range(rng.randrange(6, 12)))
    if shape == 'mixed':
        return letters(3) + ''.join(rng.choice('abcdeXYZ019-.') for _ in range(4)) + letters(2)
    return new_word(rng, rng.choice(SHAPES[:-1]), known)


def one(morph, call, w, rng):
    """ One call; what it gives is dropped. """
    if call == 'parse':
        morph.parse(w)
    elif call == 'tag':
        morph.tag(w)
    elif call == 'nf':
        morph.normal_forms(w)
    elif call == 'isknown':
        morph.word_is_known(w)
    elif call == 'wik':
        morph.word_is_known(w, strict=True)
    elif call == 'known':
        # to the end: PyPy may die when it frees an iterator of DAWG that was left halfway
        for _ in morph.iter_known_word_parses(w[:6]):
            pass
    elif call == 'newtag':
        morph.TagClass(C.variant(rng, str(morph.tag(w)[0])))
    elif call == 'transl':
        t = C.variant(rng, str(morph.tag(w)[0]))
        morph.cyr2lat(morph.lat2cyr(t))
        morph.lat2cyr(w)
    elif call == 'member':
        t = morph.tag(w)[0]
        for x in (set([w]), w):
            try:
                x in t
            except ValueError:
                pass
    elif call == 'cmp':
        t = morph.tag(w)[0]
        t == morph.tag(w)[-1], t < morph.tag(w)[-1], hash(t)
        morph.TagClass(str(t)).grammemes_cyr
    else:
        p = morph.parse(w)[-1]
        plain = morph._result_type is None
        if call == 'tagobs' or plain:
            t = p[1]
            t.grammemes, t.cyr_repr, str(t), t.POS, len(t)
        elif call == 'lexeme':
            p.lexeme
        elif call == 'inflect':
            p.inflect(set(rng.choice(ops.GRAMMEMES)))
        elif call == 'normalized':
            p.normalized
        elif call == 'agree':
            p.make_agree_with_number(rng.randrange(10 ** 6))
        else:
            raise AssertionError(call)


class Striker(object):
    """ Raises at the k-th line of the code under test. """
    def __init__(self, exc):
        self.exc = S.INJECT[exc]
        self.left = 0

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.LIB) or frame.f_code.co_name == '<module>':
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.left -= 1
            if self.left <= 0 and not faults.cleanup_on_stack(frame):
                sys.settrace(None)
                raise self.exc('injected')
        return self.local

    def call(self, k, fn):
        self.left = k
        sys.settrace(self.glob)
        try:
            fn()
        except (S.Injected, S.InjectedMemoryError):
            return 1
        finally:
            sys.settrace(None)
        return 0


class Every(faults.Lookups):
    every = 1

    def hit(self):
        self.n += 1
        if self.n % self.every == 0:
            self.fired += 1
            raise faults.InjectedIOError('lookup failed (simulated)')


def measure():
    # not gc.get_objects(): it gives new life to objects the C extensions are about to free
    gc.collect()
    gc.collect()
    return gc.get_stats()._s.total_gc_memory


def growth(kind, fn, out, rng):
    """ Does ``fn(i)``, over and over, until what is kept stops growing. """
    warm, n, most, size = SIZES[kind]
    i = 0
    rates = []
    for _ in range(warm):
        fn(i)
        i += 1
    # how many phases there will be depends on the bytes measured, which are not
    # the same to the byte in every execution
    out['seen'] = [out['fired'], core.digest(str(rng.getstate()))]
    a = measure()
    while True:
        for _ in range(n):
            fn(i)
            i += 1
        b = measure()
        rates.append(round((b - a) / float(n), 1))
        a = b
        if rates[-1] <= size:
            break
        if i >= most:
            out['grows'] = rates
            break
        n = min(max(1, most - i), n * 3 // 2)
    out['rounds'] = i
    out['phases'] = len(rates)
    out['rates'] = rates
    return out


def child(morph, case, scratch):
    try:
        import pypyjit
        pypyjit.set_param('off')
    except ImportError:
        pass
    gc.enable()
    kind = case['kind']
    rng = random.Random(case['seed'])
    toy = C.toy_of(case['cfg'])
    known = ops.TOY[toy] if toy else ops.WORDS['known']
    out = {'fired': 0}
    word = lambda: new_word(rng, rng.choice(case['shapes']), known)
    call = lambda: one(morph, rng.choice(case['calls']), word(), rng)
    refs = []
    if kind == 'calls':
        fn = lambda i: call()
    elif kind == 'struck':
        st = Striker(case['exc'])

        def fn(i):
            out['fired'] += st.call(1 + rng.randrange(case['deep']), call)
    elif kind == 'lookup':
        look = Every()
        look.every = case['every']
        look.install()

        def fn(i):
            try:
                call()
            except faults.InjectedIOError:
                out['fired'] += 1
    elif kind == 'threads':
        def started(t):
            ts = [threading.Thread(target=call) for _ in range(2)]
            for x in ts:
                x.start()
            for x in ts:
                x.join()

        def fn(i):
            r = C.run_threads([started] if case['objects'] else [lambda t: call(), lambda t: call()], {'kind': 'rw', 'seed': i, 'p': 0.2, 'first': 0}, 'none')
            if r['dead'] or any(r['errors']):
                raise core.LibError(str([r['dead'], r['errors']]))
    elif kind in ('make', 'pickle'):
        st = Striker(case['strike']) if case['strike'] else None
        ms = [C.make(c) for c in case['mcfg']] if kind == 'pickle' else None
        kept = [C.make(c) for c in case['mcfg']] if case['keep'] else None

        def create(i):
            if ms is None:
                m = C.make(case['mcfg'][i % len(case['mcfg'])])
            else:
                j = i % len(ms)
                m = {'pickle': lambda x: pickle.loads(pickle.dumps(x, case['proto'])), 'copy': copy.copy, 'deepcopy': copy.deepcopy}[case['by']](ms[j])
                if case['chain']:
                    ms[j] = m
            for op in case['use']:
                ops.run_op(m, op)
            refs[:] = refs[-4 * len(PARTS):] + [weakref.ref(m), weakref.ref(m.dictionary), weakref.ref(m.TagClass), weakref.ref(m.dictionary.words)]

        def fn(i):
            if st is None or i % 2:
                create(i)
            else:
                out['fired'] += st.call(1 + rng.randrange(3000), lambda: create(i))
    elif kind == 'fail':
        def fn(i):
            # the same folder again and again
            d = os.path.join(scratch, 'broken0')
            if os.path.exists(d):
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
                os.rmdir(d)
            if not c07.fail(case['how'], case['toy'], scratch, 0):
                raise core.HarnessError('no failure')
            out['fired'] += 1
    elif kind == 'compile':
        # the XML parser of PyPy itself leaks, so the sources are read once
        from pymorphy2.opencorpora_dict import parse as P, preprocess, compile as CO, storage
        read = []
        for j, src in enumerate(case['srcs']):
            xml = os.path.join(scratch, 'src%d.xml' % j)
            K.write_source(src, xml)
            with core.quiet():
                read.append(P.parse_opencorpora_xml(xml))

        def fn(i):
            j = i % len(read)
            src = case['srcs'][j]
            d = copy.deepcopy(read[j])
            preprocess.simplify_tags(d)
            preprocess.drop_unsupported_parses(d)
            dest = os.path.join(scratch, 'out')
            if not os.path.exists(dest):
                os.mkdir(dest)
            storage.save_compiled_dict(CO.compile_parsed_dict(d, copy.deepcopy(src['opts'])), dest, source_name=src['name'], language_code=src['lang'])
    elif kind == 'cli':
        return cli(morph, case, word, out, rng)
    with core.quiet():
        growth(kind, fn, out, rng)
    gc.collect()
    fds = len(os.listdir('/proc/self/fd'))
    with core.quiet():
        for i in range(4):
            fn(10 ** 6 + i)
    # files are closed, not left for the garbage collector
    out['fds'] = len(os.listdir('/proc/self/fd')) - fds
    gc.collect()
    gc.collect()
    # the last one may be remembered
    out['alive'] = [i for i, r in enumerate(refs[:-len(PARTS) * len(case.get('mcfg', [0]))]) if r() is not None]
    return out


class Source(object):
    """ Text of which there is as much as needed to see whether memory grows. """
    def __init__(self, case, word, out, rng):
        self.rng = rng
        self.perline = case['perline']
        self.word = word
        self.out = out
        self.lines = self.go()

    def go(self):
        warm, n, most, size = SIZES['cli']
        warm += int(400)
        i = 0
        rates = []

        def some(n):
            for _ in range(max(1, n // self.perline)):
                yield ' '.join(self.word() for _ in range(self.perline)) + '\n'
        for x in some(warm):
            yield x
        self.out['seen'] = core.digest(str(self.rng.getstate()))
        a = measure()
        while True:
            for x in some(n):
                yield x
            i += n
            b = measure()
            rates.append(round((b - a) / float(n), 1))
            a = b
            if rates[-1] <= size:
                break
            if i >= most:
                self.out['grows'] = rates
                break
            n = min(max(1, most - i), n * 3 // 2)
        self.out['rounds'] = i
        self.out['phases'] = len(rates)
        self.out['rates'] = rates

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.lines)

    def readline(self, size=-1):
        return next(self.lines, '')

    def close(self):
        pass


class Sink(object):
    n = 0

    def write(self, s):
        self.n += len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def close(self):
        pass


def cli(morph, case, word, out, rng):
    from pymorphy2 import cli as lib
    sink = Sink()
    with core.quiet():
        lib.parse(morph=morph, in_file=Source(case, word, out, rng), out_file=sink, **case['opts'])
    out['written'] = sink.n
    out['fds'] = 0
    out['alive'] = []
    return out


def execute(ctx, case):
    res = core.Result()
    out = ctx.call(child, ctx.morphs[case['cfg']], case, ctx.fresh_dir('c21'), timeout=150)
    res.case = case
    res.sig = [case[k] for k in sorted(case) if k != 'seed'] + [case['seed'] % 1000]
    res.nontrivial = True
    res.log = core.digest([out['seen'], 'grows' in out, out['fds'], out['alive']])
    res.count('rounds', out['rounds'])
    res.count('kind_' + case['kind'])
    if case['kind'] in ('struck', 'lookup', 'fail', 'make'):
        res.count('fault:' + (case.get('exc') or case.get('strike') or case['kind']), out['fired'])
    res.count('measured_twice_or_more', int(out['phases'] > 1))
    res.count('max_phases', 0)
    if 'grows' in out:
        return res.bad('memory grows', '%s: in all of %d phases, %d rounds, it grows by more than %d bytes a round' % (core.short({k: v for k, v in case.items() if k != 'srcs'}, 500), out['phases'], out['rounds'], SIZES[case['kind']][-1]))
    if out['fds'] > 0:
        return res.bad('files stay open', '%s: %d more files open after four more rounds' % (case['kind'], out['fds']))
    if out['alive']:
        return res.bad('dropped analyzer stays alive', '%s: %s' % (case['kind'], [PARTS[i % len(PARTS)] for i in out['alive']]))
    return res


def shrink(ctx, case):
    for k in ('shapes', 'calls', 'mcfg', 'use', 'srcs'):
        v = case.get(k)
        if v and (len(v) > 1 or k == 'use'):
            for i in range(len(v)):
                yield dict(case, **{k: v[:i] + v[i + 1:]})
    if case.get('keep'):
        yield dict(case, keep=False)
    if case.get('strike'):
        yield dict(case, strike=None)
    if case['kind'] in ('struck', 'lookup', 'threads'):
        yield dict(case, kind='calls')
