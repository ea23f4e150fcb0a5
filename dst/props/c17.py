# -*- coding: utf-8 -*-
""" C17: command-line processing streams and never hides a failure. """
import codecs
import errno
import io
import os
import sys

import core
from props import common as C
from props import clisim as L
from props.c01 import pick
from props.comp import Strike
from sim import faults
from sim import io as simio
from sim import sched as S

CFG = [('c-ru', 45), ('c-uk-uk', 20), ('c-tiny', 25), ('c-full', 10)]
FAULTS = [('none', 14), ('text', 16), ('read', 22), ('write', 26), ('badbytes', 12), ('strike', 8), ('lookup', 6), ('file', 8)]
BAD = [b'\xff', b'\xd0', b'\xd0\xff', b'\x80', b'\xc0\xaf', b'\xed\xa0\x80', b'\xf8\x88\x80\x80\x80']


# whatever a stream object of the caller's may raise
TEXT_ERRORS = [('InterruptedError', 'EINTR'), ('InterruptedError', 'EINTR'), ('BlockingIOError', 'EAGAIN'), ('TimeoutError', 'ETIMEDOUT'), ('ConnectionResetError', 'ECONNRESET'),
               ('BrokenPipeError', 'EPIPE'), ('ConnectionAbortedError', 'ECONNABORTED'), ('OSError', 'EIO'), ('OSError', 'EAGAIN'), ('OSError', 'ENOSPC'), ('OSError', 'EBADF'), ('OSError', 'EINVAL'),
               ('PermissionError', 'EACCES'), ('FileNotFoundError', 'ENOENT'), ('ValueError', None), ('UnicodeDecodeError', None), ('UnicodeEncodeError', None), ('UnicodeError', None),
               ('EOFError', None), ('RuntimeError', None), ('KeyError', None), ('IndexError', None), ('LookupError', None), ('TypeError', None), ('AttributeError', None), ('MemoryError', None),
               ('ArithmeticError', None), ('AssertionError', None), ('NotImplementedError', None), ('ImportError', None), ('KeyboardInterrupt', None), ('Exception', None), ('OverflowError', None)]


def text_error(kind):
    import builtins
    name, no = kind
    cls = getattr(builtins, name)
    if name == 'UnicodeDecodeError':
        e = cls('utf8', b'x', 0, 1, 'simulated')
    elif name == 'UnicodeEncodeError':
        e = cls('utf8', 'x', 0, 1, 'simulated')
    elif no:
        e = cls(getattr(errno, no), 'simulated')
    else:
        e = cls('simulated')
    e.sim_text = True
    return e


class TextPlan(object):
    """ The ``at``-th use of the stream fails. """
    def __init__(self, at, kind, often=False):
        self.at, self.kind, self.often = at, kind, often
        self.n = self.fired = 0

    def use(self):
        self.n += 1
        if self.at is not None and (self.n == self.at or self.often and self.n > self.at):
            self.fired += 1
            raise text_error(self.kind)


class TextIn(io.TextIOWrapper):
    plan = None
    deep = False

    def _do(self, fn, *a):
        if self.deep or self.plan is None:
            return fn(*a)
        self.plan.use()
        self.deep = True
        try:
            return fn(*a)
        finally:
            self.deep = False

    def __next__(self):
        return self._do(super(TextIn, self).__next__)

    def readline(self, *a):
        return self._do(super(TextIn, self).readline, *a)

    def read(self, *a):
        return self._do(super(TextIn, self).read, *a)


def setup(ctx):
    C.init_toy()


def gen(rng, idx, ctx):
    cfg = pick(rng, CFG)
    o = L.gen_opts(rng)
    text = L.gen_text(rng, C.toy_of(cfg), rng.choice([1, 3, 8, 8, 20, 20, 60, 150]), o['tokenized'])
    data = text.encode('utf8')
    f = pick(rng, FAULTS)
    n = len(data)
    case = {'cfg': cfg, 'opt': o, 'text': text, 'bits': rng.randrange(16), 'buf': rng.choice([1, 7, 64, 8192, 8192]),
            'via': rng.choice(['stdin', 'stdin', 'dash', 'parse']), 'fault': f, 'again': rng.random() < 0.25, 'x': rng.random(), 'pseed': rng.randrange(1 << 30)}
    cuts = L.gen_cuts(rng, n)
    if rng.random() < 0.5:
        cuts = sorted(set(cuts) | set(i + 1 for i, b in enumerate(data) if b == 10 and i + 1 < n))   # a line at a time
    case['cuts'] = cuts
    if f == 'read':
        case['err'] = [rng.randrange(n + 1), rng.choice(['EIO', 'EIO', 'ESTALE', 'ECONNRESET', 'KeyboardInterrupt', 'EBADF'])]
    elif f == 'write':
        case['err'] = [rng.random(), rng.choice(['EPIPE', 'EPIPE', 'ENOSPC', 'EIO', 'EDQUOT', 'KeyboardInterrupt']), rng.choice([0, 0, 0.5, 1]), rng.random() < 0.5]
    elif f == 'text':
        case['err'] = [rng.random(), rng.randrange(len(TEXT_ERRORS)), rng.choice(['in', 'in', 'out']), rng.random() < 0.2]
        case['via'] = rng.choice(['stdin', 'parse', 'parse'])
    elif f == 'badbytes':
        case['err'] = [rng.randrange(n + 1), rng.randrange(len(BAD))]
    elif f == 'strike':
        case['err'] = [rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError'])]
    elif f == 'lookup':
        case['err'] = [rng.random()]
    elif f == 'file':
        case['via'] = 'file'
        case['err'] = [rng.choice(['missing', 'folder', 'EIO', 'EIO', 'EIO', 'persist', 'EACCES', 'cutchar']), rng.random()]
        case['text'] = text * (1 if rng.random() < 0.5 else 1 + 20000 // (n + 1)) if not o['cache'] == '0' else text
    return case


class Out(io.TextIOWrapper):
    plan = None

    def write(self, s):
        if self.plan is not None:
            self.plan.use()
        return super(Out, self).write(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)


def streams(case, data, on_read):
    src = L.Source(data, case['cuts'], case['err'] if case['fault'] == 'read' else None, on_read)
    wf = None
    if case['fault'] == 'write' and case.get('at'):
        wf = [case['at'], case['err'][1], case['err'][2], case['err'][3]]
    sink = L.Sink(wf)
    return src, TextIn(io.BufferedReader(src, case['buf']), encoding='utf8'), sink, Out(sink, encoding='utf8', newline='\n', write_through=True)


def data_of(case):
    data = case['text'].encode('utf8')
    if case['fault'] == 'badbytes':
        p = min(case['err'][0], len(data))
        while p < len(data) and data[p] & 0xc0 == 0x80:
            p += 1                      # at a character boundary
        return data[:p] + BAD[case['err'][1]] + data[p:], p
    return data, None


def command(case, scratch, stdin, out, shared):
    o = case['opt']
    if case['via'] == 'parse':
        from pymorphy2 import cli
        m = shared.get('m')
        if m is None:
            m = shared['m'] = C.make(case['cfg'])
        s, l, t = o['s'], o['l'], o['t']
        if not (s or l or t):
            s = l = t = True
        cache = o['cache'] or '20000'
        with L.swapped(io.StringIO(), io.StringIO()):
            cli.parse(m, stdin, out, not o['tokenized'], s, l, t, True, cache, float(o['thresh'] or 0))
        return
    L.run_main(L.argv_of(o, case['cfg'], case['bits'], {'stdin': None, 'dash': '-', 'file': os.path.join(scratch, 'in', 'text')}[case['via']]), stdin, out)


def attempt(fn):
    """ How the command ended. """
    try:
        try:
            fn()
        except BaseException as e:
            if getattr(e, 'sim_text', False):
                return ['sim', type(e).__name__, getattr(e, 'errno', None)]
            raise
    except (S.Injected, S.InjectedMemoryError, faults.InjectedIOError, L.SimError, L.SimInterrupt) as e:
        return ['sim', type(e).__name__, getattr(e, 'errno', None)]
    except SystemExit as e:
        return ['exit', str(e.code), None]
    except Exception as e:
        if core.from_lib(e) or isinstance(e, (OSError, ValueError)):
            return ['sim' if getattr(e, 'sim', False) else 'exc', type(e).__name__, getattr(e, 'errno', None), str(e)[:200]]
        raise
    return ['ok']


def child(scratch, case):
    data, bad = data_of(case)
    shared = {}
    log = []
    box = {}

    def on_read(src):
        log.append([src.pos, len(box['sink'].data)])
    src, stdin, sink, out = streams(case, data, on_read)
    box['sink'] = sink
    fired = 0
    d = os.path.join(scratch, 'in')
    run = lambda: command(case, scratch, stdin, out, shared)
    if case['via'] == 'file':
        os.makedirs(d)
        fn = os.path.join(d, 'text')
        how = case['err'][0]
        if how == 'folder':
            os.makedirs(fn)
        elif how != 'missing':
            with open(fn, 'wb') as f:
                f.write(data)
        if how == 'cutchar':
            # the file ends in the middle of a character
            if len(data) and data[-1] & 0x80:
                os.truncate(fn, len(data) - 1)
                fired = 1
            else:
                with open(fn, 'ab') as f:
                    f.write(b'\xd0')
                fired = 1
        plan = []
        if how in ('EIO', 'persist', 'EACCES'):
            n = 1 + int(case['err'][1] * (2 + len(data) / 8192.0))
            if how == 'EACCES':
                plan = [[0, 'err', 'EACCES', 0, 1 << simio.OPN['openr']]]
            else:
                plan = [[n - 1, 'persist' if how == 'persist' else 'err', 'EIO', 0, 1 << simio.OPN['read']]]
        disk = simio.Disk(d, plan)
        with disk:
            how_ended = attempt(run)
        fired = fired or sum(disk.fired()) or (how in ('missing', 'folder'))
        recs = [[r[0], r[3], r[4]] for r in disk.log()]
    elif case['fault'] == 'strike' and case.get('at'):
        st = Strike(case['at'], case['err'][1])

        def run2():
            sys.settrace(st.glob)
            try:
                run()
            finally:
                sys.settrace(None)
        how_ended = attempt(run2)
        fired = int(st.fired)
        recs = None
    elif case['fault'] == 'lookup' and case.get('at'):
        look = faults.Lookups([case['at']])
        look.install()
        try:
            how_ended = attempt(run)
        finally:
            look.remove()
        fired = look.fired
        recs = None
    elif case['fault'] == 'text' and case.get('at'):
        plan = TextPlan(case['at'], TEXT_ERRORS[case['err'][1]], case['err'][3])
        if case['err'][2] == 'in':
            stdin.plan = plan
        else:
            out.plan = plan
        how_ended = attempt(run)
        fired = plan.fired
        recs = None
    else:
        how_ended = attempt(run)
        fired = src.fired + sink.fired
        recs = None
    res = {'ended': how_ended, 'data': sink.data, 'reads': log, 'fired': fired, 'recs': recs, 'after': sink.after_fault, 'writes': sink.writes, 'eof': src.eof, 'nlog': len(log)}
    if case['again']:
        # the same text once more, undisturbed, in the same process
        clean = dict(case, fault='none', via='parse' if case['via'] == 'parse' else 'stdin')
        src, stdin2, sink2, out2 = streams(clean, case['text'].encode('utf8'), None)
        res['again'] = [attempt(lambda: command(clean, scratch, stdin2, out2, shared)), sink2.data]
    # the streams are used no more; what a garbage collection would flush is not looked at
    return res


def measure(scratch, case):
    """ Lines, lookups and writes of a fault-free run. """
    c = dict(case, fault='none', again=False)
    if c['via'] == 'file':
        c['via'] = 'stdin'
    data = case['text'].encode('utf8')
    src, stdin, sink, out = streams(c, data, None)
    if case['fault'] == 'lookup':
        look = faults.Lookups()
        look.install()
        command(c, scratch, stdin, out, {})
        return look.n
    if case['fault'] == 'strike':
        st = Strike(None, None)
        sys.settrace(st.glob)
        try:
            command(c, scratch, stdin, out, {})
        finally:
            sys.settrace(None)
        return st.count
    if case['fault'] == 'text':
        plan = TextPlan(None, None)
        if case['err'][2] == 'in':
            stdin.plan = plan
        else:
            out.plan = plan
        command(c, scratch, stdin, out, {})
        return plan.n
    command(c, scratch, stdin, out, {})
    return sink.writes


def complete(text):
    """ The part of the text that makes up lines known to be complete. """
    i = max(text.rfind('\n'), text.rfind('\r', 0, len(text) - 1) if text.endswith('\r') else text.rfind('\r'))
    return text[:i + 1]


def execute(ctx, case):
    res = core.Result()
    if case['fault'] in ('write', 'strike', 'lookup', 'text') and 'at' not in case:
        n = ctx.call(measure, ctx.fresh_dir('c17m'), case)
        x = case['err'][0]
        if case['fault'] == 'strike' and core.case_rng('c17', case['pseed']).random() < 0.8:
            x = 1 - x * 0.4             # mostly in the processing, not in the construction
        case = dict(case, at=1 + int(x * n))
    res.case = case
    res.sig = [case['cfg'], case['opt'], case['text'], case['cuts'], case['fault'], case.get('err'), case.get('at')]
    out = ctx.call(child, ctx.fresh_dir('c17'), case)
    o = case['opt']
    data, bad = data_of(case)
    cut = case['via'] == 'file' and case['err'][0] == 'cutchar'
    text = data[:bad].decode('utf8') if bad is not None else case['text']
    if cut and data and data[-1] & 0x80:
        text = text[:-1]
    toks = L.tokens_of(text, o['tokenized'])
    ref = L.reference(ctx, case['cfg'], toks)
    lines = [L.model_line(t, ref[t], o) for t in toks]
    want = ''.join(lines).encode('utf8')
    got = out['data']
    ended = out['ended']
    res.log = core.digest([got.decode('utf8', 'replace'), ended[:3], out['reads']])
    fired = out['fired'] or bad is not None
    if fired:
        name = ' '.join(filter(None, TEXT_ERRORS[case['err'][1]])) if case['fault'] == 'text' else case['err'][0] if case['fault'] == 'file' else case['err'][1] if case['fault'] in ('read', 'write', 'strike') else case['fault']
        res.count('fault:%s %s' % (case['fault'], name) if case['fault'] != name else 'fault:' + name)
    res.count('tokens', len(toks))
    res.count('reads', len(out['reads']))
    res.nontrivial = bool(fired or len(out['reads']) > 2)
    what = '%s, %s, via %s, %s %s' % (case['cfg'], o, case['via'], case['fault'], case.get('err'))

    def differ(a, b):
        a, b = a.decode('utf8', 'replace'), b.decode('utf8', 'replace')
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return 'from character %d: %s' % (i, C.diff(a[max(0, i - 60):i + 100], b[max(0, i - 60):i + 100]))
    if case['again']:
        # the whole text with its own tokens
        toks2 = L.tokens_of(case['text'], o['tokenized'])
        ref2 = L.reference(ctx, case['cfg'], toks2)
        want2 = ''.join(L.model_line(t, ref2[t], o) for t in toks2).encode('utf8')
        if out['again'][0] != ['ok'] or out['again'][1] != want2:
            return res.bad('a later command fails', '%s; then undisturbed: %s, %s' % (what, out['again'][0], differ(out['again'][1], want2)))
    # what is written is always the start of what belongs there
    if not want.startswith(got) and bad is None and not cut:
        return res.bad('wrong output', '%s: %s' % (what, differ(got, want)))
    if bad is not None or cut:
        # a token touching the undecodable byte is not complete
        if not want.startswith(got) or (text and toks and len(got) == len(want) and not text[-1].isspace() and
                                        (o['tokenized'] or L.wordlike(text[-1]) or text[-1] == '-')):
            return res.bad('wrong output', '%s (bytes that are no text at %s): %s' % (what, bad, differ(got, want)))
    if not fired:
        if ended != ['ok']:
            return res.bad('failure without a cause', '%s: %s' % (what, ended))
        if got != want:
            return res.bad('wrong output', '%s: %s' % (what, differ(got, want)))
    else:
        if ended == ['ok']:
            return res.bad('failure hidden', '%s: the command ended normally; output %s' % (what, core.short(got.decode('utf8', 'replace')[-200:])))
        f = case['fault']
        if f in ('read', 'write', 'strike', 'lookup'):
            name = case['err'][1] if f != 'lookup' else None
            kinds = {'KeyboardInterrupt': ('SimInterrupt', 'Injected'), 'MemoryError': ('InjectedMemoryError',), None: ('InjectedIOError',)}
            ok = ended[0] == 'sim' and (ended[1] in kinds[name] if name in kinds else ended[2] == getattr(__import__('errno'), name))
            if not ok:
                return res.bad('another failure reported', '%s: ended with %s' % (what, ended))
        elif f == 'text':
            kind = TEXT_ERRORS[case['err'][1]]
            if ended[0] != 'sim' or ended[1] != type(text_error(kind)).__name__:
                return res.bad('another failure reported', '%s %s: ended with %s' % (what, kind, ended))
        elif f == 'badbytes' or cut:
            if ended[0] != 'exc' or ended[1] != 'UnicodeDecodeError':
                return res.bad('another failure reported', '%s: ended with %s' % (what, ended))
        elif ended[0] != 'exc' or ended[1] not in ('FileNotFoundError', 'IsADirectoryError', 'OSError', 'PermissionError'):
            return res.bad('another failure reported', '%s: ended with %s' % (what, ended))
        # the output ends at the end of a result, except for a write that was cut
        if not (f == 'write' and case['err'][2] == 0.5):
            n = 0
            ends = {0}
            for l in lines:
                n += len(l.encode('utf8'))
                ends.add(n)
            if len(got) not in ends:
                return res.bad('half a result', '%s: %s' % (what, core.short(got.decode('utf8', 'replace')[-100:])))
    # streaming: before more input is waited for, complete lines are answered
    if case['via'] != 'file' and case['fault'] != 'badbytes':
        dec = codecs.getincrementaldecoder('utf8')()
        seen = ''
        pos = 0
        table = {}
        for p, w in out['reads']:
            seen += dec.decode(data[pos:p])
            pos = p
            have = complete(seen)
            if have not in table:
                tk = L.tokens_of(have, o['tokenized'])
                table[have] = len(''.join(L.model_line(t, ref[t], o) for t in tk).encode('utf8'))
            if w < table[have]:
                return res.bad('not streaming', '%s: %d bytes of input have arrived, %d bytes of output belong to complete lines, %d were written when more input was waited for: %s' % (
                    what, p, table[have], w, core.short(have[-80:])))
    return res


def shrink(ctx, case):
    t = case['text']
    size = max(1, len(t) // 2)
    base = {k: v for k, v in case.items() if k != 'at'}
    while t and case['fault'] in ('none', 'read', 'badbytes'):
        for a in range(0, len(t), size):
            yield dict(base, text=t[:a] + t[a + size:])
        if size == 1 or len(t) > 200 and size < 8:
            break
        size //= 2
    for k, v in (('again', False), ('buf', 8192), ('cuts', []), ('bits', 0)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for k, v in (('s', False), ('l', False), ('thresh', None), ('cache', None), ('tokenized', False)):
        if case['opt'][k] != v:
            yield dict(base, opt=dict(case['opt'], **{k: v}))
    for i in range(len(case['cuts'])):
        if len(case['cuts']) < 12:
            yield dict(case, cuts=case['cuts'][:i] + case['cuts'][i + 1:])
