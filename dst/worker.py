# -*- coding: utf-8 -*-
""" A simulation worker.  Reads jobs (JSON lines) from stdin and writes results
to its standard output; everything the code under test prints goes elsewhere.

Synchronisation primitives are replaced before the code under test is
imported; the process itself stays pristine: every run happens in a fork. """
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
try:
    # compiled loops lose some of the line events the scheduler counts, and when
    # a loop gets compiled depends on the real memory of the process
    import pypyjit
    pypyjit.set_param('off')
except ImportError:
    pass
OUT = os.fdopen(os.dup(1), 'w', encoding='utf8')
_null = os.open(os.environ.get('DST_LOG', os.devnull), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
os.dup2(_null, 1)
os.dup2(_null, 2)

import core
from sim import sched as simsched

# whatever these modules set up in threads has to happen before the seams
import logging, concurrent.futures, queue, heapq, codecs, struct, array, datetime, threading  # noqa
import pkg_resources, docopt, psutil, select, tempfile  # noqa
import tqdm
tqdm.tqdm.monitor_interval = 0
tqdm.tqdm.get_lock()
simsched.install()
from sim import io as simio
sys.path.insert(0, core.REPO)


def preimport():
    import pymorphy2
    assert os.path.realpath(pymorphy2.__file__).startswith(os.path.realpath(core.LIB)), pymorphy2.__file__
    from pymorphy2 import analyzer, cli, tagset, shapes, cache, tokenizers, utils, dawg  # noqa
    from pymorphy2.opencorpora_dict import compile, parse, preprocess, storage, wrapper  # noqa
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)


def outcome(ctx, prop, case):
    """ Execute one case; what goes wrong outside of the harness is a
    violation, provided it happens again. """
    for attempt in (1, 2):
        try:
            return prop.execute(ctx, case)
        except (core.Hang, core.ChildCrash) as e:
            if attempt == 1:
                time.sleep(0.2)
                continue
            res = core.Result()
            res.case = case
            return res.bad('hang' if isinstance(e, core.Hang) else 'died', 'a simulated process did not finish: %s' % e)
        except core.LibError as e:
            res = core.Result()
            res.case = case
            return res.bad('unexpected exception', str(e))


def send(obj):
    OUT.write(json.dumps(obj, ensure_ascii=True, default=str) + '\n')
    OUT.flush()


def main():
    name, tier, seed, venv = sys.argv[1:5]
    preimport()
    prop = importlib.import_module('props.' + name.lower())
    ctx = core.Ctx(name, tier, int(seed), venv)
    ctx.io = simio
    try:
        try:
            if hasattr(prop, 'setup'):
                prop.setup(ctx)
        except core.HarnessError:
            raise
        except Exception as e:
            if core.from_lib(e):
                send({'setup_violation': core.tb_text()})
                return
            raise
        send({'ready': True})
        for line in sys.stdin:
            job = json.loads(line)
            if job['cmd'] == 'run':
                out = []
                for idx in job['idx']:
                    case = prop.gen(core.case_rng(seed, name, idx), idx, ctx)
                    t0 = time.time()
                    r = outcome(ctx, prop, case)
                    d = r.dump()
                    if d['violation'] is None and not job.get('keep') and idx % 97:
                        d['case'] = None
                    d['idx'] = idx
                    d['t'] = time.time() - t0
                    out.append(d)
                    if d['violation']:
                        break
                send({'done': out})
            elif job['cmd'] == 'case':
                d = outcome(ctx, prop, job['case']).dump()
                send({'done': [d]})
            elif job['cmd'] == 'shrink':
                send({'shrunk': shrink(ctx, prop, job['case'], job['kind'], job['tries'], job['secs'])})
            elif job['cmd'] == 'quit':
                break
    except BaseException:
        send({'error': traceback.format_exc()})
    finally:
        ctx.cleanup()


def shrink(ctx, prop, case, kind, tries, secs):
    """ Greedy minimisation: keep any smaller case with the same kind of violation. """
    t0 = time.time()
    n = 0
    best = None
    r = outcome(ctx, prop, case)
    if not r.violation or r.violation['kind'] != kind:
        return {'case': case, 'stable': False, 'tries': 1}
    best = r
    cur = r.case if r.case is not None else case
    if not hasattr(prop, 'shrink'):
        return dict(best.dump(), case=cur, stable=True, tries=1)
    r2 = outcome(ctx, prop, cur)
    n += 1
    if r2.violation and r2.violation['kind'] == kind:
        best = r2
    else:
        cur = case              # the explicit form does not reproduce; keep the original
    progress = True
    while progress and n < tries and time.time() - t0 < secs:
        progress = False
        try:
            cands = list(prop.shrink(ctx, cur))
        except KeyError:
            break               # the case has no explicit schedule to work on
        for cand in cands:
            if n >= tries or time.time() - t0 > secs:
                break
            n += 1
            try:
                r = outcome(ctx, prop, cand)
            except core.HarnessError:
                continue
            if r.violation and r.violation['kind'] == kind:
                cur = r.case if r.case is not None else cand
                best = r
                progress = True
                break
    return dict(best.dump(), case=cur, stable=True, tries=n)


if __name__ == '__main__':
    main()
