# -*- coding: utf-8 -*-
""" C16: command-line output is exact. """
import io
import os

import core
from props import common as C
from props import clisim as L
from props.c01 import pick
from sim import io as simio

CFG = [('c-ru', 40), ('c-uk', 12), ('c-uk-uk', 12), ('c-tiny', 21), ('c-full', 15)]


def setup(ctx):
    C.init_toy()


def gen(rng, idx, ctx):
    jobs = []
    cfg0 = pick(rng, CFG)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        cfg = cfg0 if rng.random() < 0.7 else pick(rng, CFG)
        o = L.gen_opts(rng)
        text = L.gen_text(rng, C.toy_of(cfg), rng.choice([0, 1, 3, 10, 10, 40, 40, 150, 400]), o['tokenized'])
        if jobs and rng.random() < 0.5:
            text, cfg = jobs[-1]['text'], jobs[-1]['cfg']
        data = text.encode('utf8')
        jobs.append({'cfg': cfg, 'opt': o, 'text': text, 'bits': rng.randrange(16), 'cuts': L.gen_cuts(rng, len(data)),
                     'via': pick(rng, [('stdin', 45), ('dash', 10), ('file', 25), ('parse', 10), ('lines', 10)]),
                     'shorts': rng.randrange(1 << 30) if rng.random() < 0.4 else None, 'buf': rng.choice([1, 7, 64, 8192]), 'outbuf': rng.choice([0, 16, 1000, 8192]),
                     'rnd': [rng.randrange(1 << 30), rng.choice([0, 300, 900]), rng.choice([0, 100])] if rng.random() < 0.5 else None,
                     'newlines': rng.random() < 0.7})
    return {'jobs': jobs}


def sink_of(job):
    import random
    raw = L.Sink(None, random.Random(job['shorts']) if job['shorts'] is not None else None)
    if job['shorts'] is None and job['outbuf'] == 0:
        return raw, io.TextIOWrapper(raw, encoding='utf8', newline='\n', write_through=True)
    return raw, io.TextIOWrapper(io.BufferedWriter(raw, max(1, job['outbuf'])), encoding='utf8', newline='\n')


def child(scratch, case):
    outs = []
    shared = {}
    for n, job in enumerate(case['jobs']):
        data = job['text'].encode('utf8')
        src = L.Source(data, job['cuts'])
        stdin = io.TextIOWrapper(io.BufferedReader(src, job['buf']), encoding='utf8')
        raw, out = sink_of(job)
        o = job['opt']
        reads = None
        if job['via'] in ('parse', 'lines'):
            from pymorphy2 import cli
            m = shared.get(job['cfg'])
            if m is None:
                m = shared[job['cfg']] = C.make(job['cfg'])
            s, l, t = o['s'], o['l'], o['t']
            if not (s or l or t):
                s = l = t = True
            fp = stdin
            if job['via'] == 'lines':
                fp = io.StringIO(job['text'], newline=None)
            cache = o['cache'] or '20000'
            cli.parse(m, fp, out, not o['tokenized'], s, l, t, job['newlines'], cache if cache == 'unlim' or job['bits'] & 2 else int(cache), float(o['thresh'] or 0))
        elif job['via'] == 'file':
            d = os.path.join(scratch, 'in')
            os.makedirs(d, exist_ok=True)
            fn = os.path.join(d, 'text%d' % n)
            with open(fn, 'wb') as f:
                f.write(data)
            disk = simio.Disk(d, (), job['rnd'])
            with disk:
                L.run_main(L.argv_of(o, job['cfg'], job['bits'], fn), stdin, out)
            reads = sum(1 for r in disk.log() if r[5] in ('short', 'eintr'))
        else:
            L.run_main(L.argv_of(o, job['cfg'], job['bits'], '-' if job['via'] == 'dash' else None), stdin, out)
        out.flush()
        outs.append([raw.data.decode('utf8', 'replace'), src.reads, raw.writes, reads])
    return outs


def execute(ctx, case):
    res = core.Result()
    res.case = case
    res.sig = case['jobs']
    outs = ctx.call(child, ctx.fresh_dir('c16'), case)
    res.log = core.digest([o[0] for o in outs])
    for n, (job, got) in enumerate(zip(case['jobs'], outs)):
        toks = L.tokens_of(job['text'], job['opt']['tokenized'])
        ref = L.reference(ctx, job['cfg'], toks)
        want = ''.join(L.model_line(t, ref[t], job['opt']) for t in toks)
        if job['via'] in ('parse', 'lines') and not job['newlines']:
            want = ''.join(L.model_line(t, ref[t], job['opt'])[:-1] + ' ' for t in toks)
        res.count('tokens', len(toks))
        res.count('reads', got[1])
        res.count('writes', got[2])
        res.count('via_' + job['via'])
        res.count('fault:input split', len(job['cuts']) if job['via'] in ('stdin', 'dash', 'parse') else 0)
        res.count('fault:short or interrupted read of a file', got[3] or 0)
        res.count('fault:short write', 1 if job['shorts'] is not None and got[2] > 1 else 0)
        if got[0] != want:
            i = next((i for i, (a, b) in enumerate(zip(got[0], want)) if a != b), min(len(got[0]), len(want)))
            return res.bad('wrong output', 'job %d (%s, %s, via %s): the output differs at character %d: %s' % (
                n, job['cfg'], job['opt'], job['via'], i, C.diff(got[0][max(0, i - 60):i + 120], want[max(0, i - 60):i + 120])))
    res.nontrivial = any(j['text'] for j in case['jobs'])
    return res


def shrink(ctx, case):
    js = case['jobs']
    for i in range(len(js)):
        if len(js) > 1:
            yield {'jobs': js[:i] + js[i + 1:]}
    for i, j in enumerate(js):
        def w(**kw):
            return {'jobs': js[:i] + [dict(j, **kw)] + js[i + 1:]}
        t = j['text']
        size = max(1, len(t) // 2)
        while t:
            for a in range(0, len(t), size):
                if size < len(t) or len(t) == 1:
                    yield w(text=t[:a] + t[a + size:], cuts=[])
                    if j['cuts']:
                        yield w(text=t[:a] + t[a + size:])
            if size == 1 or len(t) > 200 and size < 8:
                break
            size //= 2
        for k, v in (('cuts', []), ('shorts', None), ('rnd', None), ('buf', 8192), ('outbuf', 8192), ('bits', 0), ('via', 'stdin')):
            if j[k] != v and not (k == 'via' and j[k] == 'parse'):
                yield w(**{k: v})
        for k, v in (('s', False), ('l', False), ('t', False), ('thresh', None), ('cache', None), ('tokenized', False)):
            if j['opt'][k] != v:
                yield w(opt=dict(j['opt'], **{k: v}))
