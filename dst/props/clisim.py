# -*- coding: utf-8 -*-
""" The command line on simulated streams (C16, C17). """
import errno
import io
import os
import sys
import unicodedata
import warnings

import core
import ops
import worlds
from props import common as C

SPACES = [' ', ' ', ' ', '  ', '\t', '\u00a0', '\u2003', '\x0b', '\x0c', '\x1c', '\u2028', '\x85', '\r']
ENDS = ['\n', '\n', '\n', '\n', '\n', '\r\n', '\r', '\n\n', '\n \n', '\r\n\r\n']
# tokens that are alike in one way and not in another
FAMILIES = [['0', '1', '5', '7', '9', '\u00b2', '\u0661', '\u2460', '\u00bd', '\u2167', '\uff15', '\u4e8c'],
            ['12', '10', '50', '00', '99', '\u00b9\u00b2', '\u0661\u0662', '1\u00b2', '007', '100', '5_0', '1_1'],
            ['1e5', '1E5', '1e400', 'inf', 'nan', 'INF', 'NaN', 'infinity', '0x10', '12.5', '12,5', '1-2', '-5', '-0', '1_000', 'e5'],
            ['I', 'V', 'i', 'v', 'IV', 'VI', 'IIII', 'XIV', 'xiv', 'MIX', 'mix', 'DC', 'L', '\u2163', 'X-V'],
            ['pdf', 'PDF', 'Pdf', 'pdf1', 'pdf-', '-pdf', 'naïve', 'pdf_', 'a', 'o', 'рdf', 'foo-bar', 'fооbаr'],
            ['-', '--', '---', '_', '__', '-_', '«', '»', '…', ',', '.', '!', '\u2014', '\u2015'],
            ['кот', 'КОТ', 'Кот', 'кОТ', 'кoт', 'kот', 'кот-', '-кот', 'кот_', 'кот1', '1кот', 'кот-кот', 'кот-то', 'Кот-То'],
            ['ежа', 'ёжа', 'Ежа', 'ЁЖА', 'ежА', 'еже', 'еже-ка', 'стали', 'Стали', 'СТАЛИ', 'сталь', 'стали-ка', 'е', 'ё'],
            ['ß', 'ss', 'SS', 'ẞ', 'ŉ', 'ǰ', 'ﬁ', 'fi', 'ſ', 's', 'S', 'K', 'k', 'K', 'Å', 'å', 'Å', 'µ', 'μ', 'ς', 'σ', 'Σ', 'İ', 'ı', 'i', 'I'],
            ['и', 'й', 'И', 'Й', 'а', 'А', 'А', 'A', 'a', 'с', 'c', 'C', 'С', 'я', 'Я']]
PUNCT = [',', '.', '!', '?', ' - ', '...', '+', '«', '»', '(', ')', ';', '"', "'", '/', '—', '&', '\u0301', '😀', '%', '{', '}', '|', '=', ':', '\ufeff']


# ---- independent model -------------------------------------------------------------

def wordlike(c):
    """ Letters, digits, underscore (what a regular expression calls a word character). """
    return c.isalnum() or c == '_'


def model_tokens(text):
    out = []
    run = ''
    for c in text:
        if (wordlike(c) or c == '-') and c != '+':
            run += c
            continue
        if run:
            out.append(run)
            run = ''
        if not c.isspace():
            out.append(c)
    if run:
        out.append(run)
    return out


def model_lines(text):
    """ Lines of a text file with universal newlines. """
    return text.replace('\r\n', '\n').replace('\r', '\n').split('\n')


def tokens_of(text, tokenized):
    if tokenized:
        return [l.strip() for l in model_lines(text) if l.strip()]
    return model_tokens(text)


def analyses(morph, toks):
    """ Raw answers to single tokens. """
    out = {}
    for t in toks:
        out[t] = [[[p[2], float(p[3]), str(p[1])] for p in morph.parse(t)], [str(x) for x in morph.tag(t)]]
    return out


def model_line(tok, ans, opt):
    """ One output line. """
    parses, tags = ans
    s, l, t = opt['s'], opt['l'], opt['t']
    if not (s or l or t):
        s = l = t = True
    thresh = float(opt['thresh'] or 0)
    if l and not t:
        total = {}
        order = []
        for nf, sc, tag in parses:
            if nf not in total:
                total[nf] = 0
                order.append(nf)
            total[nf] += sc
        items = [(nf, total[nf]) for nf in order if total[nf] >= thresh]
        items.sort(key=lambda x: -x[1])
        parts = ['%s:%.3f' % x if s else x[0] for x in items]
    elif not l and not s and not thresh:
        parts = tags
    else:
        parts = []
        for nf, sc, tag in parses:
            if sc < thresh:
                continue
            x = tag
            if s:
                x = '%.3f=%s' % (sc, x)
            if l:
                x = '%s:%s' % (nf, x)
            parts.append(x)
    return '%s{%s}\n' % (tok, '|'.join(parts))


def reference(ctx, cfg, toks):
    """ Answers of new processes, kept by token. """
    memo = ctx.__dict__.setdefault('cli_memo', {}).setdefault(cfg, {})
    new = sorted(set(t for t in toks if t not in memo))
    if new:
        z = C.zyg(ctx, cfg)
        memo.update(C.zygcall(z, analyses, new))
        z.memo.clear()
    return memo


# ---- generation ----------------------------------------------------------------------

CFGS = [('t-ru', 40), ('t-uk', 25), ('t-tiny', 20), ('ru', 15)]
for _n, _toy in (('c-uk', 'uk1'), ('c-tiny', 'tiny')):
    C.CONFIGS[_n] = (_toy, {'lang': 'ru'})
C.CONFIGS['c-ru'] = ('ru1', {'lang': 'ru'})
C.CONFIGS['c-full'] = (None, {'lang': 'ru'})
C.CONFIGS['c-uk-uk'] = ('uk1', {'lang': 'uk'})


def gen_text(rng, toy, size, tokenized):
    theme = ops.theme(rng) if rng.random() < 0.4 else None
    pool = [ops.gen_word(rng, theme, toy) for _ in range(rng.choice([2, 4, 8, 20]))]
    for w in list(pool[:4]):
        v = rng.choice(['up', 'title', 'yo', 'dup', 'hy'])
        pool.append({'up': w.upper(), 'title': w.title(), 'yo': w.replace('е', 'ё'), 'dup': w, 'hy': w + '-то'}[v])
    if rng.random() < 0.3:
        fam = rng.choice(FAMILIES)
        if rng.random() < 0.5:
            pool = pool[:2]
        pool += rng.sample(fam, rng.choice([3, 6, len(fam)]))
    pool = [w for w in pool if w.strip()] or ['кот']
    out = ''
    n = 0
    while n < size:
        x = rng.random()
        if x < 0.72:
            out += rng.choice(pool)
            n += 1
            if rng.random() < 0.75 and not tokenized:
                out += rng.choice(SPACES)
        elif x < 0.82:
            out += rng.choice(PUNCT)
            n += 1
        if rng.random() < (0.8 if tokenized else 0.25):
            out += rng.choice(ENDS)
        elif tokenized and rng.random() < 0.3:
            out += rng.choice(SPACES)
    if rng.random() < 0.6:
        out += rng.choice(ENDS)
    # combining marks and the like are words to some and not to others
    return ''.join(c for c in out if not unicodedata.category(c).startswith('M'))


def gen_opts(rng):
    o = {'s': rng.random() < 0.45, 'l': rng.random() < 0.45, 't': rng.random() < 0.45}
    if o['s'] and not o['l'] and not o['t']:
        o[rng.choice('lt')] = True          # scores alone are refused
    o['thresh'] = rng.choice([None, None, None, '0', '0.0', '0.01', '0.1', '0.25', '0.5', '1', '1.5', '1e-6'])
    o['cache'] = rng.choice([None, None, '0', '1', '2', '3', '10', '20000', 'unlim'])
    o['tokenized'] = rng.random() < 0.4
    return o


def argv_of(o, cfg, rng_bits, infile=None):
    a = ['parse']
    toy, kw = C.CONFIGS[cfg]
    short = ''.join(k for k in 'lst' if o[k])
    if rng_bits & 1:
        if short:
            a.append('-' + short)
    else:
        a += [{'l': '--lemmatize', 's': '--score', 't': '--tag'}[k] for k in 'tls' if o[k]]
    if o['thresh'] is not None:
        a += ['--thresh', o['thresh']] if rng_bits & 2 else ['--thresh=' + o['thresh']]
    if o['cache'] is not None:
        a += ['-c', o['cache']] if rng_bits & 4 else ['--cache=' + o['cache']]
    if o['tokenized']:
        a.append('--tokenized')
    if toy:
        a += ['--dict', worlds.path(toy)]
    if kw['lang'] != 'ru' or rng_bits & 8:
        a += ['--lang', kw['lang']]
    if infile is not None:
        a.append(infile)
    return a


# ---- streams ----------------------------------------------------------------------------

class Source(io.RawIOBase):
    """ Bytes that arrive in given pieces; may fail. """
    def __init__(self, data, cuts, fault=None, on_read=None):
        self.data = data
        self.cuts = list(cuts)          # ascending positions
        self.pos = 0
        self.reads = 0
        self.fault = fault              # [position, errno name or 'KeyboardInterrupt']
        self.fired = 0
        self.on_read = on_read
        self.eof = 0

    def readable(self):
        return True

    def readinto(self, b):
        self.reads += 1
        if self.on_read:
            self.on_read(self)
        if self.fault and self.pos >= self.fault[0] and not self.fired:
            self.fired += 1
            raise fault_error(self.fault[1])
        end = len(self.data)
        for c in self.cuts:
            if c > self.pos:
                end = min(end, c)
                break
        if self.fault and not self.fired and self.fault[0] > self.pos:
            end = min(end, self.fault[0])
        end = min(end, self.pos + len(b))
        n = end - self.pos
        b[:n] = self.data[self.pos:end]
        self.pos = end
        if n == 0:
            self.eof += 1
        return n


class SimError(OSError):
    pass


class SimInterrupt(KeyboardInterrupt):
    pass


def fault_error(name):
    if name == 'KeyboardInterrupt':
        return SimInterrupt('simulated')
    e = getattr(errno, name)
    cls = {errno.EPIPE: BrokenPipeError}.get(e)
    if cls:
        x = cls(e, 'simulated')
        x.sim = True
        return x
    return SimError(e, 'simulated')


class Sink(io.RawIOBase):
    """ Takes bytes; may take only a part (``shorts``), may fail. """
    def __init__(self, fault=None, shorts=None):
        self.data = b''
        self.writes = 0
        self.fault = fault              # [number of the write, error, how much of it is taken, persistent]
        self.fired = 0
        self.shorts = shorts            # a seeded rng
        self.after_fault = 0

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        self.writes += 1
        if self.fault and (self.writes == self.fault[0] or self.fired and self.fault[3] and self.writes > self.fault[0]):
            self.fired += 1
            if self.fired == 1:
                self.data += b[:int(len(b) * self.fault[2])]
            raise fault_error(self.fault[1])
        if self.fired:
            self.after_fault += 1
        n = len(b)
        if self.shorts and n > 1:
            n = 1 + self.shorts.randrange(n)
        self.data += b[:n]
        return n


class swapped(object):
    """ Standard streams replaced. """
    def __init__(self, stdin, stdout):
        self.new = stdin, stdout

    def __enter__(self):
        self.old = sys.stdin, sys.stdout, sys.stderr
        sys.stdin, sys.stdout = self.new
        sys.stderr = io.StringIO()

    def __exit__(self, *a):
        sys.stdin, sys.stdout, sys.stderr = self.old


def run_main(argv, stdin, stdout):
    from pymorphy2 import cli
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with swapped(stdin, stdout):
            return cli.main(argv)


def gen_cuts(rng, n):
    """ How the bytes arrive. """
    x = rng.random()
    if n == 0 or x < 0.15:
        return []
    if x < 0.3 and n < 600:
        return list(range(1, n))
    k = rng.choice([1, 2, 4, 10, 40])
    return sorted(set(1 + rng.randrange(n) for _ in range(k)))
