# -*- coding: utf-8 -*-
"""
Several simulated processes on one simulated disk.

Each is a forked process whose file operations (see shim.c) and marks wait for
their turn; the controller lets one of them do one operation at a time, so a
schedule is one exactly repeatable execution.  A process may be killed instead
of being given its turn.
"""
import gc
import os
import pickle
import select
import signal
import time
import traceback

import core
from sim import io as simio

MARK = 100          # codes from here on are marks
ARRIVED = 50        # added to the code of a mark when it is reached; without, the process goes on from there


class Gate(object):
    def __init__(self, out, inp):
        self.fds = (out, inp)

    def mark(self, code):
        os.write(self.fds[0], bytes([MARK + code]))
        if os.read(self.fds[1], 1) != b'g':
            os._exit(simio.CRASH_CODE)


class Proc(object):
    """ ``fn(gate, *args)`` in a process of its own. """
    def __init__(self, fn, args, others):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        r3, w3 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                for fd in [r1, w2, r3] + others:
                    os.close(fd)
                gc.disable()
                g = Gate(w1, r2)
                try:
                    g.mark(0)
                    out = ('ok', fn(g, *args))
                except BaseException as e:
                    kind = 'lib' if core.from_lib(e) and not isinstance(e, core.HarnessError) else 'exc'
                    out = (kind, traceback.format_exc())
                os.close(w1)
                data = pickle.dumps(out, 2)
                n = 0
                while n < len(data):
                    n += os.write(w3, data[n:])
                code = 0
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        os.close(w3)
        self.turn, self.go, self.res = r1, w2, r3
        self.at = None
        self.done = False
        self.killed = False
        self.value = None

    def fds(self):
        return [fd for fd in (self.turn, self.go, self.res) if fd is not None]

    def wait(self, deadline):
        """ Until it wants its turn, or has ended. """
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([self.turn], [], [], left)[0]:
            raise core.Hang('a simulated process does not go on')
        b = os.read(self.turn, 1)
        if b:
            self.at = b[0]
            return
        self.at = None
        self.done = True
        data = b''
        while True:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([self.res], [], [], left)[0]:
                raise core.Hang('a simulated process does not end')
            x = os.read(self.res, 1 << 16)
            if not x:
                break
            data += x
        _, status = os.waitpid(self.pid, 0)
        self.pid = None
        if data:
            kind, val = pickle.loads(data)
            if kind == 'lib':
                raise core.LibError(val)
            if kind == 'exc':
                raise core.HarnessError('in a simulated process:\n' + val)
            self.value = val
        elif not self.killed:
            raise core.ChildCrash('simulated process ended with status %s' % status)

    def close(self):
        if self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            self.pid = None
        for fd in self.fds():
            os.close(fd)
        self.turn = self.go = self.res = None


def run(bodies, choose, kills=(), last=(), timeout=None):
    """ ``bodies``: [fn, args]; ``choose(step, ready, at)`` gives the index of the
    process that goes on.  ``kills``: {process: number of its turn at which it is
    killed}.  Processes at a mark in ``last`` wait until the others have ended or
    wait there, too.  Returns (values, schedule, events, killed) with events =
    [step, process, code] for marks and ends (code -1). """
    deadline = time.monotonic() + (timeout or core.RUN_TIMEOUT)
    procs = []
    schedule = []
    events = []
    turns = [0] * len(bodies)
    step = 0
    nops = 0
    try:
        for fn, args in bodies:
            procs.append(Proc(fn, args, [fd for p in procs for fd in p.fds()]))
        for p in procs:
            p.wait(deadline)            # all are at their first mark
        while True:
            live = [i for i, p in enumerate(procs) if not p.done]
            if not live:
                break
            ready = [i for i in live if procs[i].at is None or procs[i].at - MARK not in last] or live
            i = choose(step, ready, [p.at for p in procs]) if len(ready) > 1 else ready[0]
            if i not in ready:
                i = ready[0]
            p = procs[i]
            if schedule and schedule[-1][0] == i:
                schedule[-1][1] += 1
            else:
                schedule.append([i, 1])
            if p.at >= MARK:
                events.append([step, i, p.at - MARK])
            else:
                nops += 1
            turns[i] += 1
            if i in kills and kills[i] == turns[i]:
                p.killed = True
                events.append([step, i, -2])
                os.write(p.go, b'k')
            else:
                os.write(p.go, b'g')
            p.wait(deadline)
            if p.done:
                events.append([step, i, -1])
            elif p.at >= MARK:
                events.append([step, i, p.at - MARK + ARRIVED])
            step += 1
    finally:
        for p in procs:
            p.close()
    return {'values': [p.value for p in procs], 'schedule': schedule, 'events': events, 'killed': [p.killed for p in procs], 'turns': turns, 'ops': nops}


def fixed(schedule):
    """ The choice a recorded schedule makes. """
    flat = [i for i, n in schedule for _ in range(n)]

    def choose(step, ready, at):
        return flat[step] if step < len(flat) else ready[0]
    return choose


def random_choice(rng, n):
    """ Bursts of different lengths; each process has its own eagerness. """
    style = rng.choice(['single', 'short', 'short', 'mixed', 'mixed', 'long'])
    weights = [rng.choice([1, 1, 2, 5]) for _ in range(n)]
    lens = {'single': [1], 'short': [1, 2, 3, 5], 'mixed': [1, 1, 2, 4, 8, 16, 40], 'long': [10, 20, 40, 80, 200]}[style]
    st = {'i': None, 'left': 0}

    def choose(step, ready, at):
        if st['left'] <= 0 or st['i'] not in ready:
            tot = sum(weights[i] for i in ready)
            x = rng.random() * tot
            for i in ready:
                x -= weights[i]
                if x < 0:
                    break
            st['i'] = i
            st['left'] = rng.choice(lens)
        st['left'] -= 1
        return st['i']
    return choose
