# -*- coding: utf-8 -*-
""" Shared parts of the compilation checks (C10, C11, C15): compiling under a
simulated disk, opening the result like a later process does, fingerprints. """
import json
import os
import shutil
import sys
import warnings

import core
import lexicon
from sim import faults
from sim import io as simio
from sim import sched as S

ERRS_W = ['EIO', 'ENOSPC', 'EDQUOT', 'EACCES', 'EFBIG', 'EROFS']
ERRS_R = ['EIO', 'EACCES', 'ESTALE']
ERRS_OPEN = ['EACCES', 'EMFILE', 'ENFILE', 'ENOSPC', 'EROFS', 'EIO', 'ENOENT', 'ELOOP']
VOLATILE = ('compiled_at',)


def gen_options(rng):
    o = {'paradigm_prefixes': rng.choice([['', 'по', 'наи'], ['', 'по', 'наи'], ['', 'по', 'най', 'наи'], [''], ['', 'наи']])}
    if rng.random() < 0.7:
        o['min_ending_freq'] = rng.choice([1, 1, 2])
        o['min_paradigm_popularity'] = rng.choice([0, 1, 1, 2])
        o['max_suffix_length'] = rng.choice([3, 5, 5, 7])
    return o


def gen_source(rng, size=None):
    uk = rng.random() < 0.3
    return {'lex': lexicon.gen(rng, size, uk), 'opts': gen_options(rng), 'name': rng.choice(['oc', 'corpus.xml', 'x y']), 'lang': 'uk' if uk else 'ru'}


def write_source(src, path):
    with open(path, 'wb') as f:
        f.write(lexicon.xml(src['lex']))


def do_compile(xml, out, src, overwrite):
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    import copy
    with core.quiet():
        convert_to_pymorphy2(xml, out, src['name'], src['lang'], overwrite=overwrite, compile_options=copy.deepcopy(src['opts']))


class Strike(object):
    """ Raises an exception at the n-th line executed in the library. """
    def __init__(self, n, kind):
        self.n = n
        self.kind = kind
        self.count = 0
        self.fired = False

    def glob(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(core.LIB) or code.co_name == '<module>':
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.n is not None and self.count >= self.n and not self.fired and faults.may_strike(frame.f_code.co_filename, frame.f_lineno) \
                    and not faults.cleanup_on_stack(frame):
                self.fired = True
                raise S.INJECT[self.kind]('simulated')
        return self.local


def attempt(xml, out, src, overwrite, root, plan=(), rnd=None, clock=None, strike=None):
    """ One compilation on the simulated disk; a simulated crash ends the
    process.  Returns [outcome, text, fired, log]. """
    disk = simio.Disk(root, plan, rnd, clock)
    st = Strike(*strike) if strike else None
    with disk:
        try:
            if st:
                sys.settrace(st.glob)
            try:
                do_compile(xml, out, src, overwrite)
            finally:
                if st:
                    sys.settrace(None)
            how, text = 'ok', ''
        except BaseException as e:
            how, text = 'raised', '%s: %s' % (type(e).__name__, e)
    log = disk.log()
    return [how, text[:300], disk.fired(), log, (st.count, st.fired) if st else None]


def _plain(v):
    if isinstance(v, dict):
        return [[k, _plain(v[k])] for k in sorted(v)]
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    return v


PROBES = ['кот', 'бутявка', 'наикоты', 'поелееее', 'мылаза', 'псевдокот', 'кот-то', 'стали', 'зюыйого', 'КОТАМИ', 'тёплее', 'еж', '12', 'pdf', 'И', 'по-котовски', 'дом-рама']


def describe(m):
    """ Everything an analyzer says about its dictionary. """
    d = m.dictionary
    content = {
        'words': sorted(set((p.word, str(p.tag), p.normal_form) for p in m.iter_known_word_parses())),
        'answers': [[[p.word, str(p.tag), p.normal_form, repr(p.score)] for p in m.parse(w)] for w in PROBES],
        'lexemes': [[[f.word, str(f.tag), f.normal_form] for f in p.lexeme] for w in PROBES[:4] for p in m.parse(w)[:2]],
        'gramtab': [str(t) for t in d.gramtab],
        'suffixes': list(d.suffixes),
        'paradigms': [list(p) for p in d.paradigms],
        'prefixes': list(d.paradigm_prefixes),
        'raw': sorted(map(_plain, d.words.items())),
        'pred': [sorted(map(_plain, x.items())) for x in d.prediction_suffixes_dawgs],
        'meta': [[k, _plain(v)] for k, v in d.meta.items() if k not in VOLATILE],
        'cyr': [m.lat2cyr(str(t)) for t in d.gramtab],
    }
    content['words'] = [list(x) for x in content['words']]
    return content


def fingerprint(path):
    """ Everything the dictionary in ``path`` says. """
    from pymorphy2 import MorphAnalyzer
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = MorphAnalyzer(path)
        content = describe(m)
        content['formats'] = {}
        formats = m.dictionary.meta['gramtab_formats']
        for fmt in sorted(formats):
            # not all of them are used by an analyzer
            try:
                with open(os.path.join(path, formats[fmt]), encoding='utf8') as f:
                    content['formats'][fmt] = json.load(f)
            except (OSError, ValueError):
                content['formats'][fmt] = 'unreadable'
    return content


def open_dict(path, full=False):
    """ What a later process finds: ['ok', words, fingerprint] or ['no', error]. """
    try:
        fp = fingerprint(path)
    except Exception as e:
        return ['no', '%s: %s' % (type(e).__name__, str(e)[:200])]
    return ['ok', fp['words'], core.digest(fp), fp if full else None]


def listing(path):
    out = []
    for base, dirs, files in sorted(os.walk(path)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            with open(p, 'rb') as fp:
                out.append([os.path.relpath(p, path), core.hashlib.sha1(fp.read()).hexdigest()])
        for d in dirs:
            out.append([os.path.relpath(os.path.join(base, d), path) + '/', ''])
    return out


def compile_clean(ctx, d, src, out=None, name='clean'):
    """ Compile without faults (in a fork), check against the model; returns
    (folder, open_dict result, log). """
    xml = os.path.join(d, name + '.xml')
    write_source(src, xml)
    out = out or os.path.join(d, name)
    how, text, _, log, _ = ctx.call(attempt, xml, out, src, False, d)
    if how != 'ok':
        return out, ['failed', text], log
    return out, ctx.call(open_dict, out), log


def check_model(got, src):
    """ Does the opened dictionary contain what the source says? """
    want, nlex, nlinks = lexicon.model(src['lex'])
    if got[0] != 'ok':
        return 'a finished compilation left a folder that does not open: %s' % got[1]
    if got[1] != want:
        a = [x for x in got[1] if x not in want]
        b = [x for x in want if x not in got[1]]
        return 'words read back differ from the source: extra %s, missing %s' % (core.short(a), core.short(b))
    return None


def wrote(log):
    return [i for i, r in enumerate(log)]


def crash_plan(rng, log):
    """ A crash somewhere in the recorded operations. """
    n = len(log)
    ws = [i for i, r in enumerate(log) if r[0] == 'write']
    x = rng.random()
    if ws and x < 0.4:
        k = rng.choice(ws)
        return [k, 'crash-part', None, rng.choice([0, 1, 10, 250, 500, 750, 990, 999]), None]
    # mostly in the part that changes the folder
    first = next((i for i, r in enumerate(log) if r[0] in ('openw', 'unlink', 'mkdir', 'rename')), 0)
    k = rng.randrange(first, n) if rng.random() < 0.9 else rng.randrange(n)
    if rng.random() < 0.3:
        k = max(0, n - 1 - rng.randrange(min(n, 14)))
    return [k, rng.choice(['crash-before', 'crash-after']), None, 0, None]


def error_plan(rng, log):
    """ A failing operation. """
    n = len(log)
    k = rng.randrange(n)
    x = rng.random()
    if x < 0.15:
        k = max(0, n - 1 - rng.randrange(min(n, 14)))
    op = log[k][0]
    if op == 'write' and rng.random() < 0.35:
        return [k, 'part-err', rng.choice(['ENOSPC', 'EIO', 'EDQUOT']), rng.choice([0, 1, 300, 700, 999]), None]
    if op == 'read' and rng.random() < 0.25:
        return [k, 'trunc-read', None, 0, None]
    err = rng.choice(ERRS_R if op == 'read' else ERRS_OPEN if op in ('openr', 'openw', 'mkdir', 'rename', 'unlink') else ERRS_W)
    if rng.random() < 0.45:
        mask = rng.choice([simio.WRITES, simio.WRITES, simio.READS, simio.ALL])
        return [k, 'persist', err, 0, mask]
    return [k, 'err', err, 0, None]


def benign_rnd(rng):
    return [1 + rng.randrange(1 << 30), rng.choice([0, 50, 300, 900]), rng.choice([0, 20, 200])]


def copytree(a, b):
    shutil.copytree(a, b)
