# -*- coding: utf-8 -*-
""" C09: which dictionary a new analyzer opens. """
import os
import shutil
import sys
import warnings

import core
import ops
import worlds
from props import common as C
from props.c01 import pick
from props.comp import Strike
from sim import io as simio
from sim import sched as S

LANGS = ['ru', 'uk', 'xx', 'de', 'by', 'ru-old', '', 'ruu', 'RU']
ENV = 'PYMORPHY2_DICT_PATH'
SITES = ['siteA', 'siteB', 'siteC']       # the last one is not on sys.path at the start


def setup(ctx):
    C.init_toy()


def gen(rng, idx, ctx):
    steps = []
    n = 0
    langs = rng.sample(LANGS if rng.random() < 0.3 else LANGS[:5], rng.choice([2, 3, 4]))
    if 'ru' not in langs and rng.random() < 0.7:
        langs[0] = 'ru'
    toys = lambda: rng.choice(worlds.NAMES)

    def construct():
        x = rng.random()
        k = {'path': None, 'lang': rng.choice(langs + langs + [None]), 'env': 'std'}
        if x < 0.25:
            k['path'] = rng.choice(['ext0', 'ext1', 'ext2', 'rel:ext0', 'rel:data', 'gone', ''])
            if rng.random() < 0.6:
                k['lang'] = None
        if rng.random() < 0.1:
            k['env'] = 'own'
        k['how'] = rng.choice(['new', 'new', 'new', 'new', 'pos', 'choose'])
        k['strike'] = [rng.randrange(1 << 16), rng.choice(['KeyboardInterrupt', 'MemoryError'])] if rng.random() < 0.1 else None
        k['err'] = [rng.randrange(1 << 16), rng.choice(['EIO', 'EACCES', 'EMFILE'])] if rng.random() < 0.1 else None
        return k
    for l in langs:
        if rng.random() < 0.35:
            steps.append(['install', l, toys(), rng.choice(SITES[:2]), 'dist-info', n, 'data'])
            n += 1
    for _ in range(rng.choice([4, 7, 10, 14])):
        x = rng.random()
        if x < 0.5:
            steps.append(['make', construct()])
            if rng.random() < 0.3:
                steps.append(['make', dict(steps[-1][1], strike=None, err=None)])
        elif x < 0.66:
            l = rng.choice(langs)
            steps.append(['install', l, toys(), rng.choice(SITES), rng.choice(['dist-info', 'dist-info', 'egg-info']), n,
                          pick(rng, [('data', 70), ('dynamic', 12), ('broken', 9), ('broken-path', 9)])])
            n += 1
        elif x < 0.74:
            steps.append(['remove', rng.choice(langs)])
        elif x < 0.84:
            steps.append(['env', rng.choice([ENV, ENV, ENV, 'MY_DICT_PATH']), rng.choice(['ext0', 'ext1', 'ext2', 'gone', 'rel:ext1', 'rel:data', None, None, None, None]) if rng.random() < 0.95 else ''])
        elif x < 0.9:
            steps.append(['swap', rng.choice(['ext0', 'ext1', 'ext2', 'lang', 'lang']), rng.choice(langs), toys()])
        elif x < 0.92:
            steps.append(['site'])
        elif x < 0.94:
            steps.append(['cwd', rng.choice(['a', 'b'])])
        elif x < 0.96:
            steps.append(['ask', rng.randrange(10), ops.gen_op(rng, None, 'ru1')])
        else:
            ks = [dict(construct(), strike=None, err=None, how='new') for _ in range(2)]
            steps.append(['par', ks, rng.randrange(1 << 30)])
    steps.append(['make', dict(construct(), strike=None, err=None)])
    return {'steps': steps, 'real': rng.random() < 0.06, 'ext': [toys(), toys(), toys()], 'rel': [toys(), toys()]}


# -- the simulated computer ------------------------------------------------------------

class World(object):
    """ Folders and environment, and what has to follow from them. """
    def __init__(self, root, case):
        self.root = root
        self.tick = 1500000000
        self.content = {}           # real path -> toy
        self.installed = {}         # lang -> {'path':, 'broken':, 'files': [...], 'current':}
        self.env = {}
        self.cwd = 'a'
        for s in SITES:
            os.makedirs(self.p(s))
        for i in range(3):
            self.put(self.p('ext%d' % i), case['ext'][i])
        for d, toy in zip('ab', case['rel']):
            os.makedirs(self.p(d))
            self.put(self.p(d, 'data'), toy)
            self.put(self.p(d, 'ext0'), case['ext'][0 if d == 'a' else 1])
            self.put(self.p(d, 'ext1'), case['ext'][1 if d == 'a' else 2])
        os.chdir(self.p('a'))
        os.environ.pop(ENV, None)
        os.environ.pop('MY_DICT_PATH', None)
        self.sites = [self.p('siteA'), self.p('siteB')]
        if not case['real']:
            sys.path[:] = [x for x in sys.path if 'site-packages' not in x]
        else:
            import pymorphy2_dicts_ru
            self.installed['ru'] = {'path': pymorphy2_dicts_ru.get_path(), 'broken': False, 'files': [], 'site': None}
            try:
                import pymorphy2_dicts
            except ImportError:
                pass
            else:
                self.installed['ru-old'] = {'path': pymorphy2_dicts.get_path(), 'broken': False, 'files': [], 'site': None}
        sys.path += self.sites
        self.touch()

    def p(self, *a):
        return os.path.join(self.root, *a)

    def touch(self):
        """ Folders get later and later modification times. """
        self.tick += 10
        for base in SITES:
            os.utime(self.p(base), (self.tick, self.tick))
            for d in os.listdir(self.p(base)):
                os.utime(self.p(base, d), (self.tick, self.tick))

    def put(self, path, toy):
        if os.path.lexists(path):
            shutil.rmtree(path)
        shutil.copytree(worlds.path(toy), path)
        self.content[os.path.realpath(path)] = toy

    def install(self, lang, toy, site, fmt, n, kind):
        if not lang or lang in self.installed:
            return
        if lang == 'ru-old':
            # a package of the time before entry points; never removed again
            mod = self.p('siteA', 'pymorphy2_dicts')
            os.makedirs(mod)
            self.put(os.path.join(mod, 'data'), toy)
            with open(os.path.join(mod, '__init__.py'), 'w') as f:
                f.write('import os\ndef get_path():\n    return os.path.join(os.path.dirname(__file__), "data")\n')
            self.installed[lang] = {'path': os.path.join(mod, 'data'), 'broken': False, 'files': [], 'site': self.p('siteA'), 'mod': mod, 'kind': 'old'}
            return
        name = 'pymorphy2_dicts_%s%d' % (lang.replace('-', '_').lower(), n)
        mod = self.p(site, name)
        os.makedirs(mod)
        self.put(os.path.join(mod, 'data'), toy)
        body = 'import os\n'
        if kind == 'broken':
            body += 'raise ImportError("half installed")\n'
        body += 'def get_path():\n'
        if kind == 'broken-path':
            body += '    raise RuntimeError("no data")\n'
        if kind == 'dynamic':
            body += '    with open(os.path.join(os.path.dirname(__file__), "current")) as f:\n        return os.path.join(os.path.dirname(__file__), f.read())\n'
            with open(os.path.join(mod, 'current'), 'w') as f:
                f.write('data')
            self.put(os.path.join(mod, 'data2'), worlds.NAMES[(worlds.NAMES.index(toy) + 1) % 3])
        else:
            body += '    return os.path.join(os.path.dirname(__file__), "data")\n'
        with open(os.path.join(mod, '__init__.py'), 'w') as f:
            f.write(body)
        if fmt == 'dist-info':
            info = self.p(site, '%s-2.%d.dist-info' % (name, n))
            meta = 'METADATA'
        else:
            info = self.p(site, '%s-2.%d.egg-info' % (name, n))
            meta = 'PKG-INFO'
        os.makedirs(info)
        with open(os.path.join(info, meta), 'w') as f:
            f.write('Metadata-Version: 2.1\nName: %s\nVersion: 2.%d\n' % (name.replace('_', '-'), n))
        with open(os.path.join(info, 'entry_points.txt'), 'w') as f:
            f.write('[pymorphy2_dicts]\n%s = %s\n' % (lang, name))
        with open(os.path.join(info, 'top_level.txt'), 'w') as f:
            f.write(name + '\n')
        self.installed[lang] = {'path': os.path.join(mod, 'data'), 'broken': kind in ('broken', 'broken-path'), 'files': [mod, info],
                                'site': self.p(site), 'mod': mod, 'kind': kind}

    def remove(self, lang):
        i = self.installed.get(lang)
        if i and i['files']:
            for f in i['files']:
                shutil.rmtree(f)
            del self.installed[lang]

    def resolve(self, path):
        return os.path.realpath(os.path.join(self.p(self.cwd), path))

    def arg(self, a):
        if a is None or a == '':
            return a
        if a.startswith('rel:'):
            return a[4:]
        return self.p(a)

    def expect(self, k):
        """ ('path', p), ('unknown', lang), ('fail',) or ('any',) """
        if k['path'] is not None:
            return ('path', self.arg(k['path']))
        var = 'MY_DICT_PATH' if k['env'] == 'own' else ENV
        if var in self.env:
            return ('path', self.env[var])
        lang = 'ru' if k['lang'] is None else k['lang']
        seen = {l: i for l, i in self.installed.items() if i['site'] is None or i['site'] in self.sites}
        broken = any(i['broken'] for i in seen.values())
        if lang in seen and not seen[lang]['broken']:
            return ('path?' if broken else 'path', seen[lang]['path'])
        if lang in seen:
            return ('fail',)
        return ('fail',) if broken else ('unknown', lang)


def cls_of(k):
    from pymorphy2 import MorphAnalyzer
    if k['env'] != 'own':
        return MorphAnalyzer

    class Own(MorphAnalyzer):
        DICT_PATH_ENV_VARIABLE = 'MY_DICT_PATH'
    return Own


def make(w, k):
    cls = cls_of(k)
    path = w.arg(k['path'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if k['how'] == 'choose':
            p = cls.choose_dictionary_path(path, 'ru' if k['lang'] is None and path is None else k['lang'])
            return cls(p, k['lang']) if k['path'] is not None or k['lang'] is not None else cls(p, 'ru')
        if k['how'] == 'pos':
            return cls(path, k['lang'])
        kw = {}
        if path is not None:
            kw['path'] = path
        if k['lang'] is not None:
            kw['lang'] = k['lang']
        return cls(**kw)


def about(m):
    """ Path, source and language of a new analyzer. """
    return [m.dictionary.path, dict(m.dictionary.meta)['source'], m.lang, [str(t) for t in m.dictionary.gramtab][:60]]


def judge(w, k, got):
    """ got: ['ok', about] or ['raised', type, text] """
    e = w.expect(k)
    what = '%s with the environment %s and packages %s' % (
        {x: k[x] for x in ('path', 'lang', 'env', 'how')}, w.env, {l: [i['path'][len(w.root):] if i['site'] else i['path'], i.get('kind')] for l, i in sorted(w.installed.items())})
    if e[0] in ('path', 'path?'):
        toy = w.content.get(w.resolve(e[1])) if e[1] else None
        real = toy is None and e[1] and 'pymorphy2_dicts' in e[1] and w.root not in e[1]
        if toy is None and not real:
            if got[0] == 'ok':
                return '%s: opened %s though %r does not exist' % (what, got[1][:3], e[1])
            return None
        if got[0] != 'ok':
            if e[0] == 'path?':
                return None
            return '%s: %s: %s, expected %s' % (what, got[1], got[2], e[1])
        if got[1][0] != e[1]:
            return '%s: opened %s, expected %s' % (what, got[1][0], e[1])
        if toy and got[1][1] != 'toy-' + toy:
            return '%s: opened %s, expected the contents of %s' % (what, got[1][:3], toy)
        if toy and got[1][3] != w.gramtab[toy]:
            return '%s: the grammeme table is not that of %s' % (what, toy)
        lang = k['lang']
        if lang is None:
            lang = 'ru' if k['path'] is None else {'ru1': 'ru', 'uk1': 'uk', 'tiny': 'xx'}[toy]
        if got[1][2] != lang:
            return '%s: the language is %r, expected %r' % (what, got[1][2], lang)
    elif e[0] == 'fail':
        if got[0] == 'ok':
            return '%s: opened %s, expected a failure' % (what, got[1][:3])
    else:
        if got[0] == 'ok':
            return '%s: opened %s, expected an error about %r' % (what, got[1][:3], e[1])
        if e[1] not in got[2]:
            return '%s: the error does not name the language: %s: %s' % (what, got[1], got[2])
    return None


def child(root, case, gramtabs):
    w = World(root, case)
    w.gramtab = gramtabs
    out = {'log': [], 'bad': None, 'fired': {}, 'switches': 0, 'made': 0, 'failed': 0}
    live = []

    def attempt(k):
        try:
            m = make(w, k)
        except Exception as e:
            if S.is_injected(e):
                raise
            return ['raised', type(e).__name__, str(e)], None
        return ['ok', about(m)], m

    def note(k, got, m=None):
        out['log'].append([got[0], got[1] if got[0] == 'raised' else got[1][1:3]])
        out['made' if got[0] == 'ok' else 'failed'] += 1
        b = judge(w, k, got)
        if b and not out['bad']:
            out['bad'] = b
        if m is not None:
            live.append((m, w.content.get(w.resolve(m.dictionary.path)), k))
    for s in case['steps']:
        if s[0] == 'make':
            k = s[1]
            if k['strike']:
                st = Strike(1 + k['strike'][0] % 250, k['strike'][1])
                sys.settrace(st.glob)
                try:
                    got, m = attempt(k)
                except (S.Injected, S.InjectedMemoryError):
                    out['fired'][k['strike'][1]] = out['fired'].get(k['strike'][1], 0) + 1
                    got = None
                finally:
                    sys.settrace(None)
                if got is not None and not st.fired:
                    note(k, got, m)
            if k['err']:
                d = simio.Disk(w.root, [[k['err'][0] % 40, 'err', k['err'][1], 0, simio.READS]], None)
                with d:
                    got, m = attempt(k)
                if sum(d.fired()):
                    out['fired'][k['err'][1]] = out['fired'].get(k['err'][1], 0) + 1
                    if got[0] == 'ok':
                        note(k, got, m)
                else:
                    note(k, got, m)
            got, m = attempt(k)
            note(k, got, m)
        elif s[0] == 'install':
            w.install(*s[1:])
            w.touch()
        elif s[0] == 'remove':
            w.remove(s[1])
            w.touch()
        elif s[0] == 'env':
            v = w.arg(s[2])
            if v is None:
                os.environ.pop(s[1], None)
                w.env.pop(s[1], None)
            else:
                os.environ[s[1]] = v
                w.env[s[1]] = v
        elif s[0] == 'swap':
            if s[1] == 'lang':
                i = w.installed.get(s[2])
                if i and i['files']:
                    if i['kind'] == 'dynamic':
                        i['path'] = os.path.join(i['mod'], 'data2' if i['path'].endswith('data') else 'data')
                        with open(os.path.join(i['mod'], 'current'), 'w') as f:
                            f.write(os.path.basename(i['path']))
                    else:
                        w.put(i['path'], s[3])
                    w.touch()
            else:
                w.put(w.p(s[1]), s[3])
        elif s[0] == 'site':
            if w.p('siteC') not in w.sites:
                w.sites.append(w.p('siteC'))
                sys.path.insert(0, w.p('siteC'))
        elif s[0] == 'cwd':
            os.chdir(w.p(s[1]))
            w.cwd = s[1]
        elif s[0] == 'ask':
            if live:
                m, toy, k = live[s[1] % len(live)]
                out['log'].append(ops.run_op(m, s[2]))
        elif s[0] == 'par':
            def body(t, k):
                got, m = attempt(k)
                return [got, None]
            r = C.run_threads([lambda t, k=k: body(t, k) for k in s[1]], {'kind': 'rw', 'seed': s[2], 'p': 0.2, 'first': s[2] % 2}, 'line')
            out['switches'] += r['switches']
            if r['dead'] or any(r['errors']):
                out['bad'] = out['bad'] or 'constructions in two threads: %s %s' % (r['dead'], r['errors'])
            else:
                for k, (got, _) in zip(s[1], r['results']):
                    note(k, got)
    return out


def gramtab(toy):
    from pymorphy2 import MorphAnalyzer
    return about(MorphAnalyzer(worlds.path(toy), 'xx'))[3]


def execute(ctx, case):
    res = core.Result()
    res.case = case
    res.sig = [case['steps'], case['real']]
    res.nontrivial = len(case['steps']) > 1
    g = {t: ctx.once(['gramtab', t], gramtab, t) for t in worlds.NAMES}
    out = ctx.call(child, ctx.fresh_dir('c09'), case, g)
    res.log = core.digest(out['log'])
    for k, n in out['fired'].items():
        res.count('fault:' + k, n)
    for s in case['steps']:
        res.count('step_' + s[0])
        if s[0] == 'install' and s[6].startswith('broken'):
            res.count('fault:broken package')
    res.count('constructions', out['made'])
    res.count('refusals', out['failed'])
    res.count('preemptions', out['switches'])
    if out['bad']:
        return res.bad('wrong dictionary', out['bad'].replace(ctx.scratch, ''))
    return res


def shrink(ctx, case):
    st = case['steps']
    n = len(st)
    size = max(1, n // 2)
    while True:
        for i in range(0, n, size):
            if n > size:
                yield dict(case, steps=st[:i] + st[i + size:])
        if size == 1:
            break
        size //= 2
    for i, s in enumerate(st):
        if s[0] == 'make':
            for k, v in (('strike', None), ('err', None), ('how', 'new'), ('env', 'std')):
                if s[1][k] != v:
                    yield dict(case, steps=st[:i] + [['make', dict(s[1], **{k: v})]] + st[i + 1:])
    if case['real']:
        yield dict(case, real=False)
