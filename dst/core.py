# -*- coding: utf-8 -*-
""" What the property modules share: forked runs, references, results. """
import gc
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('DST_REPO', '/repo')
LIB = os.path.join(REPO, 'pymorphy2') + os.sep
HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(HERE, 'data')
RUN_TIMEOUT = 60


class HarnessError(Exception):
    """ The machinery (not the code under test) failed. """


class ChildCrash(Exception):
    pass


class LibError(Exception):
    """ The code under test raised where it must not. """


def from_lib(e):
    """ Does the exception come out of the code under test? """
    tb = e.__traceback__
    last = None
    if type(e).__name__ == 'Deadlock':
        return True             # a thread waits for a lock of its own
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(HERE):
            last = False
        elif fn.startswith(LIB):
            last = True
        tb = tb.tb_next
    return bool(last)


def tb_text():
    return traceback.format_exc()


class Hang(Exception):
    pass


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode('utf8')).hexdigest()[:16]


def case_rng(*parts):
    h = hashlib.sha256('\0'.join(str(p) for p in parts).encode('utf8')).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Result(object):
    """ Outcome of one simulated run. """
    def __init__(self):
        self.violation = None       # {'kind':, 'msg':}
        self.stats = {}             # counters, summed over runs
        self.sig = None             # what makes the run distinct
        self.log = None             # digest of everything observed
        self.case = None            # replayable case (schedule made explicit)
        self.nontrivial = True

    def bad(self, kind, msg):
        if self.violation is None:
            self.violation = {'kind': kind, 'msg': msg}
        return self

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def dump(self):
        return {'violation': self.violation, 'stats': self.stats, 'sig': self.sig,
                'log': self.log, 'case': self.case, 'nontrivial': self.nontrivial}


class Ctx(object):
    def __init__(self, prop, tier, seed, venv):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.venv = venv
        self.memo = {}
        self._scratch = None
        self.forks = 0

    # -- scratch space ----------------------------------------------------
    @property
    def scratch(self):
        if self._scratch is None:
            base = os.environ.get('DST_SCRATCH') or ('/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
            self._scratch = os.path.realpath(tempfile.mkdtemp(prefix='dst-', dir=base))
        return self._scratch

    def fresh_dir(self, name='run'):
        d = os.path.join(self.scratch, name)
        if os.path.lexists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        return d

    def cleanup(self):
        if self._scratch:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    # -- forked children ----------------------------------------------------
    def fork(self, fn, *args, **opts):
        """ Run ``fn(*args)`` in a forked copy of this process; its result comes
        back pickled.  Returns (result, exit code); an exit without a result
        (a simulated crash) gives (None, code). """
        timeout = opts.pop('timeout', RUN_TIMEOUT)
        self.forks += 1
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(r)
                gc.disable()
                try:
                    out = ('ok', fn(*args))
                except BaseException as e:
                    kind = 'lib' if from_lib(e) and not isinstance(e, HarnessError) else 'exc'
                    out = (kind, traceback.format_exc())
                data = pickle.dumps(out, 2)
                n = 0
                while n < len(data):
                    n += os.write(w, data[n:])
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        chunks = []
        deadline = time.monotonic() + timeout
        try:
            while True:
                left = deadline - time.monotonic()
                ready = select.select([r], [], [], max(0.0, left))[0] if left > 0 else []
                if not ready:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    raise Hang('no end within %s s of real time' % timeout)
                b = os.read(r, 1 << 16)
                if not b:
                    break
                chunks.append(b)
        finally:
            os.close(r)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            code = -os.WTERMSIG(status)
        else:
            code = os.WEXITSTATUS(status)
        if chunks and code == 0:
            kind, val = pickle.loads(b''.join(chunks))
            if kind == 'lib':
                raise LibError(val)
            if kind == 'exc':
                raise HarnessError('in a simulated run:\n' + val)
            return val, 0
        return None, code

    def call(self, fn, *args, **opts):
        """ fork() for functions that must come back with a result. """
        val, code = self.fork(fn, *args, **opts)
        if code != 0:
            raise ChildCrash('simulated process died with status %s' % code)
        return val

    def once(self, key, fn, *args):
        """ Memoised call(). """
        k = json.dumps(key, sort_keys=True, ensure_ascii=False)
        if k not in self.memo:
            self.memo[k] = self.call(fn, *args)
        return self.memo[k]


class quiet(object):
    """ Silence standard output and error (progress bars). """
    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        self.null = open(os.devnull, 'w')
        sys.stdout = sys.stderr = self.null

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved
        self.null.close()


def short(x, n=300):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False, default=str)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


class Zygote(object):
    """ A forked process that prepares something once (``make()``) and then
    answers ``ask(fn, *args)`` with ``fn(prepared, *args)``, each time in a
    fork of its own: the first and only thing ever done with it. """
    def __init__(self, make, *args):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                gc.disable()
                self._serve(r, w, make, args)
            finally:
                os._exit(0)
        os.close(r)
        os.close(w)
        self.memo = {}

    @staticmethod
    def _read(fd):
        n = b''
        while len(n) < 8:
            b = os.read(fd, 8 - len(n))
            if not b:
                return None
            n += b
        n = int.from_bytes(n, 'big')
        out = b''
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                return None
            out += b
        return pickle.loads(out)

    @staticmethod
    def _write(fd, obj):
        data = pickle.dumps(obj, 2)
        data = len(data).to_bytes(8, 'big') + data
        while data:
            data = data[os.write(fd, data):]

    def _serve(self, r, w, make, args):
        try:
            thing = make(*args)
            self._write(w, ('ok', None))
        except BaseException as e:
            self._write(w, ('lib' if from_lib(e) else 'exc', traceback.format_exc()))
            return
        while True:
            req = self._read(r)
            if req is None:
                return
            fn, a = req
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        out = ('ok', fn(thing, *a))
                    except BaseException as e:
                        out = ('lib' if from_lib(e) else 'exc', traceback.format_exc())
                    self._write(w, out)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def start(self):
        kind, val = self._read(self.r)
        if kind == 'lib':
            raise LibError(val)
        if kind == 'exc':
            raise HarnessError(val)
        return self

    def ask(self, fn, *args):
        k = json.dumps([fn.__name__, args], sort_keys=True, ensure_ascii=False)
        if k not in self.memo:
            self._write(self.w, (fn, args))
            got = self._read(self.r)
            if got is None:
                raise HarnessError('zygote ended')
            if got[0] == 'lib':
                raise LibError(got[1])
            if got[0] == 'exc':
                raise HarnessError(got[1])
            self.memo[k] = got[1]
        return self.memo[k]

    def stop(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
