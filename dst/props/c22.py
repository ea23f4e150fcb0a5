# -*- coding: utf-8 -*-
""" C22: the process around the library is left alone. """
import gc
import io
import json
import locale
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import socket
import sys
import threading
import time
import warnings

import core
import ops
import worlds
from props import common as C
from props import comp as K
from props import c07
from props.c01 import pick
from sim import io as simio
from sim import sched as S
from sim import faults

CFG = [('ru', 10), ('t-ru', 26), ('t-ru-plain', 6), ('t-uk', 12), ('t-nested', 12), ('t-subst', 6), ('t-shape', 7)]
MAKE = ['t-ru', 't-ru', 't-uk', 't-tiny', 't-odd', 't-nested', 't-lang', 't-subst', 't-ru-plain', 't-noprob', 't-shape']
FAIL = c07.FAILS + ['cut:meta.json', 'cut:suffixes.json', 'cut:paradigms.array']
SETS = ['cwd', 'env', 'umask', 'recursion', 'random', 'gc', 'switch', 'locale', 'socket', 'log-root', 'log-off', 'log-lib', 'path', 'hook', 'stdout', 'stderr', 'tz', 'trace-threads']


def setup(ctx):
    C.init_toy()
    ctx.morphs = {name: C.make(name) for name, _ in CFG}
    import decimal  # noqa
    import pymorphy2.cli  # noqa
    try:
        import dawg  # noqa
        ctx.can_compile = True
    except ImportError:
        ctx.can_compile = False


def gen_action(rng, cfg, compiles):
    x = pick(rng, [('?', 30), ('make', 26), ('fail', 14), ('pickle', 6), ('cli', 9), ('lang', 4), ('compile', 8), ('meta', 4), ('io', 12)])
    if x == 'compile' and not compiles or x == 'cli' and cfg == 't-ru-plain':
        x = 'make'
    if x == '?':
        return ['?', gen_op(rng, C.toy_of(cfg))]
    if x in ('make', 'pickle', 'io'):
        c = rng.choice(MAKE if x != 'io' else ['t-ru', 't-uk', 't-tiny', 't-nested'])
        return [x, c, [gen_op(rng, C.toy_of(c)) for _ in range(rng.choice([0, 1]))]]
    if x == 'fail':
        return ['fail', rng.choice(FAIL), rng.choice(['ru1', 'uk1', 'tiny'])]
    if x == 'cli':
        return ['cli', {'tokenize': rng.random() < 0.5, 'score': rng.random() < 0.5, 'normal_form': rng.random() < 0.6, 'tag': True, 'newlines': True, 'cache_size': rng.choice(['0', '10', 'unlim']), 'thresh': 0.0},
                [rng.choice(ops.TOY['ru1']) for _ in range(rng.choice([1, 3]))], rng.random() < 0.25]
    if x == 'compile':
        return ['compile', K.gen_source(rng), rng.random() < 0.4]
    if x == 'lang':
        return ['lang', rng.choice(['xx', 'ru', 'ru', ''])]
    return [x]


def gen_op(rng, toy):
    while True:
        op = ops.gen_op(rng, None, toy)
        if op[0] not in ('iter', 'words'):
            return op


def gen(rng, idx, ctx):
    cfg = pick(rng, CFG)
    if C.toy_of(cfg) is None and rng.random() < 0.5:
        cfg = 't-ru'
    threads = []
    for i in range(rng.choice([1, 1, 2])):
        th = [gen_action(rng, cfg, ctx.can_compile) for _ in range(rng.choice([1, 1, 2]))]
        if i:
            # one simulated disk at a time
            th = [['make'] + a[1:] if a[0] == 'io' else a for a in th]
        threads.append(th)
    if len(threads) > 1 and rng.random() < 0.4:
        threads[1] = [['make'] + a[1:] if a[0] == 'io' else a for a in threads[0]]
    return {'cfg': cfg, 'threads': threads, 'first': sorted(rng.sample(SETS, rng.choice([0, 3, len(SETS)]))),
            'user': [sorted(rng.sample(SETS, rng.choice([0, 0, 1, 4]))) for _ in range(rng.choice([1, 2, 3, 4]))],
            'strike': rng.choice([None, 'KeyboardInterrupt', 'MemoryError']) if rng.random() < 0.4 else None,
            'gran': rng.choice(['line', 'line', 'call']), 'pseed': rng.randrange(1 << 30)}


# -- the state of the process ---------------------------------------------------------

def get_umask():
    m = os.umask(0)
    os.umask(m)
    return m


def handlers():
    out = []
    for s in range(1, 32):
        h = signal.getsignal(s)
        out.append(getattr(h, '__name__', str(h)))
    return out


def log_state(name):
    l = logging.getLogger(name) if name else logging.getLogger()
    return [l.level, [id(h) for h in l.handlers], [id(f) for f in l.filters], l.propagate, l.disabled]


def library_loggers():
    return {n: log_state(n) for n in sorted(logging.root.manager.loggerDict) if n.split('.')[0] == 'pymorphy2' and isinstance(logging.root.manager.loggerDict[n], logging.Logger)}


def state():
    import builtins
    import copyreg
    import decimal
    return {
        'cwd': os.getcwd(),
        'env': sorted(os.environ.items()),
        'umask': get_umask(),
        'recursion': sys.getrecursionlimit(),
        'random': core.digest(str(random.getstate())),
        'gc': gc.isenabled(),
        'switch': sys.getswitchinterval(),
        'locale': locale.setlocale(locale.LC_ALL, None),
        'decimal-default': decimal.DefaultContext.prec,
        'socket': socket.getdefaulttimeout(),
        'log-root': log_state(None),
        'log-off': logging.root.manager.disable,
        'log-lib': library_loggers(),
        'log-class': [logging.getLoggerClass().__name__, logging.getLogRecordFactory().__name__, logging.raiseExceptions],
        'path': list(sys.path),
        'importers': [str(x) for x in sys.meta_path] + [str(x) for x in sys.path_hooks],
        'hook': [id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(getattr(sys, 'unraisablehook', None))],
        'stdin': id(sys.stdin),
        'stdout': id(sys.stdout),
        'stderr': id(sys.stderr),
        'tz': list(time.tzname),
        'signals': handlers(),
        'timers': [signal.getitimer(k) for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        'limits': [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CORE, resource.RLIMIT_CPU, resource.RLIMIT_FSIZE, resource.RLIMIT_DATA)],
        'nice': os.nice(0),
        'session': [os.getpgrp(), os.getsid(0)],
        'builtins': sorted(k for k in dir(builtins) if k != '_'),
        'underscore': hasattr(builtins, '_'),
        'copyreg': len(copyreg.dispatch_table),
        'trace-threads': id(getattr(threading, '_trace_hook', None)),
        'warnings': [str(f) for f in warnings.filters],
        'showwarning': id(warnings.showwarning),
        'ids': [os.getuid(), os.getgid()],
        'json': [json.encoder.FLOAT_REPR if hasattr(json.encoder, 'FLOAT_REPR') else None, id(json.dumps), id(json._default_encoder), id(json._default_decoder)],
        'codecs': sys.getdefaultencoding() + sys.getfilesystemencoding(),
        'bytecode': sys.dont_write_bytecode,
    }


class Hook(object):
    __name__ = 'hook'

    def __call__(self, *args):
        pass


KEEP = []       # ids stay different


def change(name, k, scratch):
    """ The user of the process changes something. """
    if name == 'cwd':
        d = os.path.join(scratch, 'cwd%d' % k)
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
    elif name == 'env':
        os.environ['DST_STATE'] = str(k)
        os.environ['DST_STATE_%d' % k] = ''
    elif name == 'umask':
        os.umask([0o22, 0o27, 0o77, 0o2][k % 4])
    elif name == 'recursion':
        sys.setrecursionlimit(3000 + k)
    elif name == 'random':
        random.seed(k)
    elif name == 'gc':
        gc.disable() if gc.isenabled() else gc.enable()
    elif name == 'switch':
        sys.setswitchinterval(0.01 + k / 1000.0)
    elif name == 'locale':
        locale.setlocale(locale.LC_ALL, 'C' if k % 2 else 'C.UTF-8')
    elif name == 'socket':
        socket.setdefaulttimeout(100 + k)
    elif name == 'log-root':
        h = logging.NullHandler()
        logging.getLogger().addHandler(h)
        logging.getLogger().setLevel(logging.ERROR + k)
    elif name == 'log-off':
        logging.disable(k)
    elif name == 'log-lib':
        for n in ('pymorphy2', 'pymorphy2.opencorpora_dict.wrapper'):
            logging.getLogger(n).setLevel(logging.ERROR + k)
            logging.getLogger(n).addHandler(logging.NullHandler())
    elif name == 'path':
        sys.path.insert(k % 2, os.path.join(scratch, 'path%d' % k))
    elif name == 'hook':
        KEEP.append(Hook())
        sys.excepthook = KEEP[-1]
        KEEP.append(Hook())
        threading.excepthook = KEEP[-1]
    elif name in ('stdout', 'stderr'):
        KEEP.append(io.StringIO())
        setattr(sys, name, KEEP[-1])
    elif name == 'tz':
        os.environ['TZ'] = 'UTC+%d' % (k % 12)
        time.tzset()
    elif name == 'trace-threads':
        KEEP.append(Hook())
        threading.settrace(None if getattr(threading, '_trace_hook', None) else KEEP[-1])
    else:
        raise AssertionError(name)


def differences(a, b):
    out = []
    for k in sorted(a):
        if k == 'env' and a[k] != b[k]:
            x, y = dict(a[k]), dict(b[k])
            out.append('env: other values of %s' % sorted(n for n in set(x) | set(y) if x.get(n) != y.get(n)))
        elif a[k] != b[k]:
            out.append('%s: %s instead of %s' % (k, core.short(b[k], 300), core.short(a[k], 300)))
    return out


def files(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), 'rb') as f:
            out[n] = core.digest(f.read().hex())
    return out


def tree(d):
    out = []
    for p, ds, fs in os.walk(d):
        for f in fs:
            out.append(os.path.relpath(os.path.join(p, f), d))
    return sorted(out)


# -- the simulated process -------------------------------------------------------------

def do(morph, a, scratch, names):
    from pymorphy2 import cli as lib, MorphAnalyzer
    from pymorphy2.analyzer import lang_dict_path
    k = a[0]
    if k == '?':
        return ops.run_op(morph, a[1])
    names[0] += 1
    d = os.path.join(scratch, 'work', 'a%d' % names[0])
    if k == 'make':
        m = create(a[1])
        return [ops.run_op(m, op) for op in a[2]]
    if k == 'pickle':
        m = pickle.loads(pickle.dumps(create(a[1]), 2))
        return [ops.run_op(m, op) for op in a[2]]
    if k == 'io':
        shutil.copytree(worlds.path(C.toy_of(a[1])), d)
        with simio.Disk(d, a[3] if len(a) > 3 else ()) as disk:
            try:
                create(a[1], d)
                how = 'ok'
            except S.Abort:
                raise
            except (S.Injected, S.InjectedMemoryError):
                raise
            except Exception:
                how = 'raised'
        return [how, sum(disk.fired())]
    if k == 'fail':
        os.mkdir(d)
        return fail(a[1], a[2], d)
    if k == 'lang':
        try:
            if a[1] == 'ru':
                return os.path.basename(lang_dict_path('ru'))
            MorphAnalyzer(lang=a[1] or 'xx')
        except ValueError:
            return 'raised'
        return 'ok'
    if k == 'cli':
        src = io.StringIO(''.join(w + '\n' for w in a[2]))
        out = io.StringIO()
        if a[3]:
            src.close()
            try:
                lib.parse(morph=morph, in_file=src, out_file=out, **a[1])
            except ValueError:
                return 'raised'
            return 'ok'
        lib.parse(morph=morph, in_file=src, out_file=out, **a[1])
        return out.getvalue()
    if k == 'compile':
        import copy
        from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
        os.mkdir(d)
        K.write_source(a[1], os.path.join(d, 'src.xml'))
        if a[2]:
            with open(os.path.join(d, 'src.xml'), 'r+b') as f:
                f.truncate(os.path.getsize(f.name) * 2 // 3)
        try:
            convert_to_pymorphy2(os.path.join(d, 'src.xml'), os.path.join(d, 'out'), a[1]['name'], a[1]['lang'], overwrite=True, compile_options=copy.deepcopy(a[1]['opts']))
        except S.Abort:
            raise
        except (S.Injected, S.InjectedMemoryError):
            raise
        except Exception as e:
            if not a[2]:
                raise
            return 'raised'
        return 'ok'
    if k == 'meta':
        from pymorphy2.opencorpora_dict.storage import update_meta
        os.mkdir(d)
        shutil.copy(os.path.join(worlds.path('ru1'), 'meta.json'), d)
        update_meta(os.path.join(d, 'meta.json'), [('x', 1)])
        return 'ok'
    raise AssertionError(a)


def create(cfg, path=None):
    # C.make changes the filters of warnings, which are looked at here
    from pymorphy2 import MorphAnalyzer
    toy, kw = C.CONFIGS[cfg]
    kw = dict(kw)
    if isinstance(kw.get('units'), str):
        kw['units'] = C.some_units(kw['units'])
    if toy:
        kw['path'] = path or worlds.path(toy)
    return MorphAnalyzer(**kw)


def fail(how, toy, d):
    r = c07.fail(how, toy, d, 0, False)
    return r if r in S.INJECT else 'raised' if r else 'ok'


def child(morph, case, scratch):
    warnings.simplefilter('ignore')
    os.makedirs(os.path.join(scratch, 'work'))
    os.chdir(scratch)
    for i, name in enumerate(case['first']):
        change(name, 100 + i, scratch)
    seen = []
    expected = [state()]
    dicts = {t: files(worlds.path(t)) for t in ('ru1', 'uk1', 'tiny')}
    others = len(threading.enumerate())
    names = [0]
    looks = [0]
    notes = {'fired': 0}

    def look(where):
        looks[0] += 1
        d = differences(expected[0], state())
        if d:
            seen.append([where, d])

    def worker(i):
        def body(t):
            out = []
            for a in case['threads'][i]:
                try:
                    out.append(do(morph, a, scratch, names))
                except S.Abort:
                    raise
                except (S.Injected, S.InjectedMemoryError):
                    out.append('struck')
            t.inject.clear()
            t.strikes.clear()
            return out
        return body

    def user(t):
        S.Tracer.off()
        for k, sets in enumerate(case['user']):
            look('step %d' % k)
            for name in sets:
                change(name, k, scratch)
            expected[0] = state()
            S.CURRENT.point(('user', 'look'), S.NEVER)
        look('last step')
        return looks[0]
    bodies = [worker(i) for i in range(len(case['threads']))] + [user]
    out = C.run_threads(bodies, case['policy'], case['gran'], injects=case.get('injects'), strikes=case.get('strikes'), guard=True, record=True)
    if not out['dead']:
        look('end')
        gc.collect()
        gc.collect()
        for t, f in sorted(dicts.items()):
            if files(worlds.path(t)) != f:
                seen.append(['end', ['dictionary %s has changed' % t]])
        left = [f for f in tree(scratch) if not f.startswith('work' + os.sep)]
        if left:
            seen.append(['end', ['files left behind: %s' % left]])
        # the threads of the scheduler are not threading.Thread objects
        ts = [t for t in threading.enumerate() if not isinstance(t, threading._DummyThread)]
        if len(ts) > others:
            seen.append(['end', ['threads left behind: %s' % ts]])
        try:
            seen.append(['end', ['a process left behind: %s' % (os.waitpid(-1, os.WNOHANG),)]])
        except OSError:
            pass
    out['seen'] = seen
    return out


def explicit(ctx, case, scratch):
    """ Faults and schedule. """
    rng = core.case_rng('c22', case['pseed'])
    threads = []
    for th in case['threads']:
        new = []
        for a in th:
            if a[0] == 'io' and len(a) < 4:
                log = ctx.once(['io22', a[1]], measure_io, a[1])
                a = a + [[K.error_plan(rng, log)] if rng.random() < 0.8 else []]
            new.append(a)
        threads.append(new)
    case = dict(case, threads=threads)
    both = []
    for i in range(len(threads)):
        # the thread on its own
        one = dict(case, threads=[threads[i]], user=[], first=[], policy={'kind': 'fixed', 'schedule': {}})
        d = os.path.join(scratch, 'alone%d' % i)
        os.mkdir(d)
        o = ctx.call(child, ctx.morphs[case['cfg']], one, d)
        if o['dead'] or o['errors'][0]:
            raise core.LibError('alone: %s %s' % (o['dead'], o['errors']))
        if o['seen']:
            return dict(one, cfg=case['cfg']), o
        both.append([max(1, o['locals'][0]), o['places'][0] or {}])
    nt = len(both) + 1
    u = nt - 1
    strikes = [[] for _ in range(nt)]
    if case['strike']:
        t = rng.randrange(u)
        if both[t][1]:
            p, n = C.some_place(rng, both[t][1])
            strikes[t] = [[p, n, case['strike']]]
    steps = len(case['user'])
    if rng.random() < 0.8 and all(p for _, p in both):
        t = rng.randrange(u)
        pts = []
        for k in range(steps):
            p, n = C.some_place(rng, both[t][1])
            pts.append([t, p, n, u])
            pts.append([u, 'user:look', k + 1, t if rng.random() < 0.8 or u == 1 else 1 - t])
        if u > 1:
            p, n = C.some_place(rng, both[1 - t][1])
            pts.append([1 - t, p, n, t])
            if rng.random() < 0.5:
                p, n = C.some_place(rng, both[t][1])
                pts.append([t, p, n, 1 - t])
        pol = {'kind': 'places', 'seed': rng.randrange(1 << 30), 'points': pts, 'first': t if rng.random() < 0.6 else rng.randrange(u), 'patience': None}
    else:
        pol = C.gen_policy(rng, nt, [n for n, _ in both] + [steps])
    return dict(case, strikes=strikes, policy=pol), None


def measure_io(cfg):
    with simio.Disk(worlds.path(C.toy_of(cfg))) as d:
        create(cfg)
    return d.log()


def execute(ctx, case):
    res = core.Result()
    res.case = case
    scratch = ctx.fresh_dir('c22')
    out = None
    if 'policy' not in case:
        case, out = explicit(ctx, case, scratch)
    if out is None:
        d = os.path.join(scratch, 'run')
        os.mkdir(d)
        out = ctx.call(child, ctx.morphs[case['cfg']], case, d)
    res.case = dict(case, policy=out['schedule'])
    C.note_threads(res, out, case['gran'])
    fired = sum(len(f) for f in out['fired'])
    res.sig = [case['threads'], case['user'], case['first'], out['sig'], out['fired']]
    hide = lambda x: json.loads(json.dumps(x).replace(scratch, ''))
    res.log = core.digest([hide(out['results']), out['sig'], len(out['seen'])])
    res.count('fault:strike', fired)
    for th, got in zip(case['threads'], out['results']):
        for a, x in zip(th, got or ()):
            res.count('action_' + a[0])
            if a[0] == 'io' and x != 'struck' and x[1]:
                res.count('fault:io ' + a[3][0][1], x[1])
            if a[0] in ('fail', 'lang') or a[0] == 'compile' and a[2]:
                res.count('fault:' + a[0])
    res.count('looks', (out['results'][-1] or 0) if out['results'] else 0)
    res.nontrivial = bool(out['switches'] or fired)
    if out['dead']:
        return res.bad('deadlock', out['dead'])
    for i, e in enumerate(out['errors']):
        if e:
            return res.bad('thread failed', 'thread %d: %s' % (i, e))
    if out['seen']:
        import re
        txt = re.sub(r'\b\d{12,}\b', 'ID', core.short(out['seen'], 1500).replace(scratch, '<scratch>'))
        return res.bad('the process was changed', '%s; threads %s, struck at %s' % (txt, core.short(case['threads'], 700), out['fired']))
    return res


def shrink(ctx, case):
    if case['first']:
        yield dict(case, first=[])
        for i in range(len(case['first'])):
            yield dict(case, first=case['first'][:i] + case['first'][i + 1:])
    for c in C.shrink_schedule(case):
        yield c
    if case.get('strikes') and any(case['strikes']):
        yield dict(case, strikes=None)
    for i, s in enumerate(case['user']):
        if s:
            yield dict(case, user=case['user'][:i] + [[]] + case['user'][i + 1:])
        for j in range(len(s)):
            if len(s) > 1:
                yield dict(case, user=case['user'][:i] + [s[:j] + s[j + 1:]] + case['user'][i + 1:])
    for c in C.shrink_threads(case):
        yield c
