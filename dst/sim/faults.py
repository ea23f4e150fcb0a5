# -*- coding: utf-8 -*-
""" Faults other than I/O: failing lookups, and where an asynchronous exception
may strike. """
import ast
import dis

import core
from sim import sched as S


class InjectedIOError(OSError):
    """ A lookup in a dictionary file that fails. """


_plain = S.is_injected
S.is_injected = lambda e: _plain(e) or isinstance(e, InjectedIOError)

METHODS = ['__contains__', '__getitem__', 'get', 'similar_items', 'similar_item_values', 'similar_keys', 'keys', 'iterkeys',
           'items', 'iteritems', 'prob', 'prefixes', 'iterprefixes', 'has_keys_with_prefix', 'get_value', 'b_get_value', 'longest_prefix']


class Lookups(object):
    """ Makes the n-th lookups (n in ``at``) of the dictionary graphs fail. """
    def __init__(self, at=()):
        self.at = set(at)
        self.n = 0
        self.fired = 0
        self.saved = []
        self.depth = 0

    def hit(self):
        self.n += 1
        if self.n in self.at:
            self.fired += 1
            raise InjectedIOError('lookup failed (simulated)')

    def install(self):
        from pymorphy2 import dawg
        names = ('WordsDawg', 'PredictionSuffixesDAWG', 'ConditionalProbDistDAWG')
        for cls in [getattr(dawg, n) for n in names if hasattr(dawg, n)]:
            for name in METHODS:
                fn = getattr(cls, name, None)
                if fn is None:
                    continue
                own = name in cls.__dict__
                self.saved.append((cls, name, cls.__dict__.get(name), own))
                setattr(cls, name, self.wrap(fn))

    def wrap(self, fn):
        def lookup(obj, *args, **kw):
            sch = S.in_sim()
            if sch is not None and sch.current.tid != 0:
                return fn(obj, *args, **kw)     # only the first thread is struck
            if self.depth == 0:
                self.hit()
            self.depth += 1
            try:
                return fn(obj, *args, **kw)
            finally:
                self.depth -= 1
        return lookup

    def remove(self):
        for cls, name, old, own in self.saved:
            if own:
                setattr(cls, name, old)
            else:
                delattr(cls, name)


def count_lookups(fn):
    l = Lookups()
    l.install()
    fn()
    return l.n


# ---- places where an asynchronous exception may strike ---------------------------

_files = {}


def _guarded_lines(filename):
    """ Lines at which no program can defend itself against an exception from
    outside: headers of with and try statements, handlers and finally blocks,
    explicit lock operations. """
    bad = set()
    try:
        with open(filename, encoding='utf8') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return bad

    def span(nodes):
        for n in nodes:
            bad.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            bad.update(range(n.lineno, n.body[0].lineno))
            bad.add(n.lineno)
        elif isinstance(n, ast.Try):
            bad.update(range(n.lineno, n.body[0].lineno))
            span(n.finalbody)
            for h in n.handlers:
                bad.update(range(h.lineno, (h.end_lineno or h.lineno) + 1))
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            if name in ('acquire', 'release', '__enter__', '__exit__', 'close', 'open'):
                bad.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
    return bad


def may_strike(filename, lineno):
    b = _files.get(filename)
    if b is None:
        b = _files[filename] = _guarded_lines(filename)
    return lineno not in b


_tails = {}


def _tail(code):
    """ Instructions which leave the body of a with statement: the block is gone
    already, __exit__ is not called yet. """
    bad = set()
    ins = list(dis.get_instructions(code))
    for i, x in enumerate(ins):
        if x.opname != 'POP_BLOCK':
            continue
        for j in range(i + 1, min(i + 8, len(ins))):
            if ins[j].starts_line is not None and ins[j].opname != 'LOAD_CONST':
                break
            if ins[j].opname.startswith('CALL') and ins[j].arg in (2, 3) and ins[j - 1].opname == 'DUP_TOP':
                bad.update(y.offset for y in ins[i:j + 1])
                break
    return bad


def leaving_with(frame):
    code = frame.f_code
    b = _tails.get(code)
    if b is None:
        b = _tails[code] = _tail(code)
    return frame.f_lasti in b


def cleanup_on_stack(frame):
    """ Is some caller in the middle of a statement that must not be cut short? """
    f = frame
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(core.LIB):
            if f.f_code.co_name in ('__del__', '__exit__', '__enter__', 'release', 'acquire', '_cleanup'):
                return True
            if not may_strike(fn, f.f_lineno) or leaving_with(f):
                return True
        f = f.f_back
    return False
