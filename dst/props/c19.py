# -*- coding: utf-8 -*-
""" C19: dictionaries can be opened while another process writes them. """
import json
import os
import shutil
import warnings

import core
import lexicon
import worlds
from props import comp as K
from props import c10, c12
from sim import io as simio
from sim import procs as P

BEGIN, END, LAST = 1, 2, 3


def setup(ctx):
    c12.setup(ctx)


def gen(rng, idx, ctx):
    x = rng.random()
    case = {'mode': 'update' if x < 0.42 else 'fresh' if x < 0.57 else 'two' if x < 0.67 else 'overwrite' if x < 0.88 else 'gone',
            'readers': [{'opens': rng.choice([1, 1, 2, 3, 5]), 'late': rng.random() < 0.3, 'rnd': K.benign_rnd(rng) if rng.random() < 0.3 else None} for _ in range(rng.choice([1, 1, 2, 3]))],
            'wrnd': K.benign_rnd(rng) if rng.random() < 0.4 else None, 'seed': rng.randrange(1 << 30), 'kill': rng.random() if rng.random() < 0.2 else None}
    if case['mode'] == 'update':
        c = c12.gen(rng, idx, ctx)
        case['dict'] = c['dict']
        case['steps'] = [{k: s[k] for k in ('op', 'corpus', 'freq', 'morph', 'extra', 'as') if k in s} for s in c['steps'] if 'compiled_at' not in [e[0] for e in s.get('extra', ())]]
        case['pre'] = [case['steps'].pop(0)] if case['steps'] and rng.random() < 0.3 else []
    elif case['mode'] == 'gone':
        case['dict'] = rng.choice(['ru1', 'ru1', 'uk1', 'tiny'])
        case['how'] = rng.choice(['unlink', 'truncate', 'garbage', 'swap', 'rmtree'])
    else:
        case['srcs'] = [K.gen_source(rng) for _ in range(2)]
        case['start'] = rng.choice(['none', 'none', 'empty', 'foreign']) if case['mode'] == 'fresh' else rng.choice(['old', 'old', 'old-prob']) if case['mode'] == 'overwrite' else 'none'
    return case


# -- the processes --------------------------------------------------------------------

def observe(m, words):
    try:
        return _observe(m, words)
    except Exception as e:
        return ['fails', '%s: %s' % (type(e).__name__, str(e)[:200])]


def _observe(m, words):
    if words is None:
        return K.describe(m)
    ans = [[w, [[str(p.tag), p.normal_form, '%.9f' % p.score] for p in m.parse(w)], [str(t) for t in m.tag(w)]] for w in words]
    return [ans, json.loads(json.dumps(m.dictionary.meta))]


def reader(gate, root, path, spec, words):
    """ Opens the dictionary again and again; keeps what it has opened. """
    from pymorphy2 import MorphAnalyzer
    kept = []
    with simio.Disk(root, (), spec['rnd'], gate=gate.fds):
        for _ in range(spec['opens']):
            gate.mark(BEGIN)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    m = MorphAnalyzer(path)
                kept.append([m, None, ''])
            except Exception as e:
                kept.append([None, None, '%s: %s' % (type(e).__name__, str(e)[:200])])
            gate.mark(END)
            if kept[-1][0] is not None and not spec['late']:
                kept[-1][1] = observe(kept[-1][0], words)
        gate.mark(LAST)
        out = []
        for m, first, text in kept:
            out.append([text if m is None else None, first, None if m is None else observe(m, words)])
    return out


def updater(gate, root, path, steps, rnd):
    for s in steps:
        with open(os.path.join(os.path.dirname(root), 'corpus.json'), 'w', encoding='utf8') as f:
            json.dump(s.get('corpus', []), f)
        gate.mark(BEGIN)
        with simio.Disk(root, (), rnd, gate=gate.fds):
            try:
                c12.do_step(root, path, s)
                r = 'ok'
            except Exception as e:
                return ['raised', '%s: %s' % (type(e).__name__, str(e)[:200])]
        gate.mark(END)
    return ['ok']


def compiler(gate, root, xml, path, src, overwrite, rnd):
    gate.mark(BEGIN)
    with simio.Disk(root, (), rnd, gate=gate.fds):
        try:
            K.do_compile(xml, path, src, overwrite)
        except Exception as e:
            return ['raised', '%s: %s' % (type(e).__name__, str(e)[:200])]
    gate.mark(END)
    return ['ok']


def vandal(gate, root, path, how, other):
    """ Whatever may become of a folder that was opened before. """
    gate.mark(BEGIN)
    if how == 'rmtree':
        shutil.rmtree(path)
    else:
        for f in sorted(os.listdir(path)):
            p = os.path.join(path, f)
            if how == 'unlink':
                os.remove(p)
            elif how == 'truncate':
                os.truncate(p, 0)
            elif how == 'garbage':
                n = os.path.getsize(p)
                with open(p, 'r+b') as fp:
                    fp.write(b'\x01\x07garbage' * (n // 9 + 1))
            elif os.path.exists(os.path.join(other, f)):
                with open(os.path.join(other, f), 'rb') as a, open(p, 'wb') as b:
                    b.write(a.read())
            gate.mark(4)
    gate.mark(END)
    return ['ok']


# -- judging ------------------------------------------------------------------------------

def look(path, words):
    from pymorphy2 import MorphAnalyzer
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = MorphAnalyzer(path)
    except Exception as e:
        return ['no', '%s: %s' % (type(e).__name__, str(e)[:200])]
    return ['ok', observe(m, words)]


def states_of(d, path, steps, words):
    """ What is seen after each update, nothing happening at the same time. """
    copy = os.path.join(d, 'ref')
    shutil.copytree(path, copy)
    out = [look(copy, words)]
    for s in steps:
        r = c12.attempt(d, copy, s)
        if r[0] != 'ok':
            raise core.LibError('an update without any fault fails: ' + r[1])
        out.append(look(copy, words))
    if any(x[0] != 'ok' for x in out):
        raise core.LibError('an updated dictionary does not open: %s' % out)
    shutil.rmtree(copy)
    return [x[1] for x in out]


def windows(run, i):
    """ [begin, end] of each open of process ``i``. """
    b = [s for s, j, c in run['events'] if j == i and c == BEGIN]
    e = [s for s, j, c in run['events'] if j == i and c == END + P.ARRIVED]
    return list(zip(b, e))


def execute(ctx, case):
    res = core.Result()
    base = ctx.fresh_dir('c19')
    d = os.path.join(base, 'disk')
    os.mkdir(d)
    path = os.path.join(d, 'dict')
    mode = case['mode']
    words = None
    bodies = []
    refs = None
    if mode in ('update', 'gone'):
        shutil.copytree(worlds.path(case['dict']), path)
        amb = ctx.once(['amb', case['dict']], c12.ambiguous, worlds.path(case['dict']))
        words = [w for w, t in amb if len(t) > 1][:12] + [w for w, t in amb if len(t) < 2][:3]
        for s in case.get('steps', []) + case.get('pre', []):
            words += [w for w, _ in s.get('corpus', ())]
        words = sorted(set(words))
    if mode == 'update':
        for s in case['pre']:
            r = ctx.call(c12.attempt, d, path, s)
            if r[0] != 'ok':
                return res.bad('update fails', r[1])
        states = ctx.call(states_of, d, path, case['steps'], words)
        bodies.append([updater, (d, path, case['steps'], case['wrnd'])])
        nw = 1
    elif mode == 'gone':
        other = worlds.path('uk1' if case['dict'] != 'uk1' else 'ru1')
        states = [ctx.call(look, path, words)[1]]
        bodies.append([vandal, (d, path, case['how'], other)])
        nw = 1
    else:
        refs = []
        xmls = []
        for i, src in enumerate(case['srcs']):
            x = os.path.join(d, 'src%d.xml' % i)
            K.write_source(src, x)
            xmls.append(x)
            o = os.path.join(d, 'ref%d' % i)
            how, text, _, _, _ = ctx.call(K.attempt, x, o, src, False, d)
            if how != 'ok':
                return res.bad('compilation fails without a fault', text)
        if mode == 'overwrite':
            shutil.copytree(os.path.join(d, 'ref0'), path)
            if case['start'] == 'old-prob':
                ctx.call(c10.spoil_prob, path)
            old = ctx.call(look, path, None)
            new = ctx.call(look, os.path.join(d, 'ref1'), None)
            refs = [old, new]
            bodies.append([compiler, (d, xmls[1], path, case['srcs'][1], True, case['wrnd'])])
        else:
            refs = [ctx.call(look, os.path.join(d, 'ref%d' % i), None) for i in range(2)]
            if case['start'] != 'none':
                os.mkdir(path)
            if case['start'] == 'foreign':
                with open(os.path.join(path, 'notes.txt'), 'w') as f:
                    f.write('mine')
            bodies.append([compiler, (d, xmls[0], path, case['srcs'][0], case['start'] != 'none', case['wrnd'])])
            if mode == 'two':
                bodies.append([compiler, (d, xmls[1], path, case['srcs'][1], False, None)])
        for r in refs:
            if r[0] != 'ok':
                return res.bad('finished compilation not readable', r[1])
        refs = [r[1] for r in refs]
        nw = len(bodies)
    for r in case['readers']:
        bodies.append([reader, (d, path, r, words)])
    kills = {}
    if case['kill'] is not None:
        if 'killat' not in case:
            # somewhere in what it does, mostly where it writes
            n = {'update': 60 + 40 * len(case.get('steps', ())), 'gone': 8}.get(mode, 130)
            case = dict(case, killat=2 + int(case['kill'] * n))
        kills = {0: case['killat']}
    if 'schedule' in case:
        choose = P.fixed(case['schedule'])
    else:
        choose = P.random_choice(core.case_rng('c19', case['seed']), len(bodies))
    run = P.run(bodies, choose, kills, last=(LAST,))
    res.case = dict(case, schedule=run['schedule'])
    res.sig = [{k: v for k, v in case.items() if k not in ('schedule', 'seed', 'kill')}, run['schedule']]
    res.count('fault:killed writer', int(run['killed'][0]))
    res.count('fault:short or interrupted transfers', int(bool(case['wrnd'])) + sum(1 for r in case['readers'] if r['rnd']))
    res.count('switches between processes', max(0, len(run['schedule']) - 1))
    res.count('file operations', run['ops'])
    res.count('mode_' + mode)
    killed = run['killed'][0]
    obs = []
    wb = [s for s, j, c in run['events'] if j == 0 and c == BEGIN]
    we = [s for s, j, c in run['events'] if j == 0 and c == END + P.ARRIVED]
    for i in range(nw):
        v = run['values'][i]
        if v and v[0] == 'raised':
            return res.bad('writer fails', '%s: a process that only reads the dictionary makes the writer fail: %s' % (mode, v[1]))
    overlap = 0
    seen = set()

    def short(state):
        return core.digest(state)[:8]
    for i, spec in enumerate(case['readers']):
        vals = run['values'][nw + i]
        for n, ((b, e), (err, first, last)) in enumerate(zip(windows(run, nw + i), vals)):
            what = '%s, reader %d, opening %d (steps %d-%d; writer begins %s, ends %s%s)' % (mode, i, n + 1, b, e, wb, we, ', killed' if killed else '')
            res.count('openings')
            busy = any(s <= e for s in wb) and (len(we) < len(wb) or any(s >= b for s in we)) or mode == 'two'
            overlap += busy
            obs.append([err is None, short(last)])
            if first is not None and last != first:
                return res.bad('open analyzer changes', '%s: its later answers differ: %s' % (what, diff(last, first)))
            if mode == 'update':
                lo = sum(1 for s in we if s < b)
                hi = sum(1 for s in wb if s <= e)
                if err is not None:
                    return res.bad('dictionary does not open', '%s: %s' % (what, err))
                mi = [k for k, s in enumerate(states) if s[1] == last[1] and lo <= k <= hi]
                aj = [k for k, s in enumerate(states) if s[0] == last[0] and lo <= k <= hi]
                if not any(x <= y for x in mi for y in aj):
                    k = min(hi, len(states) - 1)
                    return res.bad('neither before nor after an update', '%s: answers of states %s, metadata of states %s, expected of %d to %d: %s' % (
                        what, [k for k, s in enumerate(states) if s[0] == last[0]], [k for k, s in enumerate(states) if s[1] == last[1]], lo, hi, diff(last, states[k])))
                seen.update(aj)
            elif mode == 'gone':
                if wb and wb[0] <= e:
                    continue            # the folder was not whole any more
                if err is not None:
                    return res.bad('dictionary does not open', '%s: %s' % (what, err))
                if last != states[0]:
                    return res.bad('open analyzer changes', '%s (%s): %s' % (what, case['how'], diff(last, states[0])))
            else:
                started = bool(wb) and wb[0] <= e
                ended = len(we) > 0 and we[0] < b
                if mode == 'overwrite':
                    ok = ([] if ended else [0]) + ([1] if started else [])
                    may_fail = started and not ended
                    if err is None and last not in [refs[k] for k in ok]:
                        return res.bad('mixture opens', '%s: expected one of %s dictionaries: %s' % (what, ['old', 'new'][ok[0]:ok[-1] + 1], diff(last, refs[ok[-1]])))
                elif mode == 'fresh':
                    may_fail = not ended
                    if err is None and (not started or last != refs[0]):
                        return res.bad('partial dictionary opens', '%s: %s' % (what, diff(last, refs[0])))
                else:
                    may_fail = True
                    if err is None and last not in refs:
                        return res.bad('mixture opens', '%s: %s' % (what, diff(last, refs[0])))
                    if err is None:
                        seen.add(refs.index(last))
                        if len(seen) > 1 and refs[0] != refs[1]:
                            return res.bad('dictionary replaced', '%s: two compilations into one new folder both wrote it' % what)
                if err is not None and not may_fail:
                    return res.bad('dictionary does not open', '%s: %s' % (what, err))
    # in the end
    final = ctx.call(look, path, words) if os.path.exists(path) else ['no', 'no folder']
    if mode == 'update':
        if final[0] != 'ok' or (final[1] != states[-1] if not killed else not any(x <= y for x, s in enumerate(states) if s[1] == final[1][1] for y, t in enumerate(states) if t[0] == final[1][0])):
            return res.bad('wrong in the end', '%s: %s' % (mode, final[1] if final[0] == 'no' else diff(final[1], states[-1])))
    elif mode in ('fresh', 'two', 'overwrite'):
        good = refs if mode != 'fresh' else refs[:1]
        if final[0] == 'no' and not killed or final[0] == 'ok' and (final[1] not in good or mode == 'overwrite' and not killed and final[1] != refs[1]):
            return res.bad('wrong in the end', '%s: %s' % (mode, final[1] if final[0] == 'no' else diff(final[1], good[-1])))
        if mode == 'two' and final[0] == 'ok' and seen and refs.index(final[1]) not in seen and refs[0] != refs[1]:
            return res.bad('dictionary replaced', 'two compilations into one new folder both wrote it')
    res.count('openings_meanwhile', overlap)
    res.nontrivial = overlap > 0 or mode == 'gone'
    res.log = core.digest([run['schedule'], obs, final[0]])
    return res


def diff(a, b):
    from props import common as C
    return C.diff(a, b)


def shrink(ctx, case):
    sch = case.get('schedule')
    rs = case['readers']
    for i in range(len(rs)):
        if len(rs) > 1:
            c = dict(case, readers=rs[:i] + rs[i + 1:])
            if sch:
                k = len(writers(case)) + i
                c['schedule'] = [[p if p < k else p - 1, n] for p, n in sch if p != k]
            yield c
    if case['kill'] is not None:
        yield dict(case, kill=None)
    for i, r in enumerate(rs):
        if r['opens'] > 1:
            yield dict(case, readers=rs[:i] + [dict(r, opens=r['opens'] - 1)] + rs[i + 1:])
        if r['rnd']:
            yield dict(case, readers=rs[:i] + [dict(r, rnd=None)] + rs[i + 1:])
    if case['wrnd']:
        yield dict(case, wrnd=None)
    st = case.get('steps')
    if st and len(st) > 1:
        for i in range(len(st)):
            yield dict(case, steps=st[:i] + st[i + 1:])
    if case.get('pre'):
        yield dict(case, pre=[])
    if sch:
        # fewer switches: move a stretch next to the one before the last of the same process
        for i in range(len(sch) - 1):
            m = [list(x) for x in sch]
            m[i], m[i + 1] = m[i + 1], m[i]
            out = []
            for p, n in m:
                if out and out[-1][0] == p:
                    out[-1][1] += n
                else:
                    out.append([p, n])
            if len(out) < len(sch):
                yield dict(case, schedule=out)
    for i, s in enumerate(case.get('srcs', ())):
        for lex in lexicon.shrink(s['lex']):
            yield dict(case, srcs=case['srcs'][:i] + [dict(s, lex=lex)] + case['srcs'][i + 1:])


def writers(case):
    return [0, 1] if case['mode'] == 'two' else [0]
