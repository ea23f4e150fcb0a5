# -*- coding: utf-8 -*-
"""
The thread seam.

Simulated threads are real threads that run one at a time.  A thread gives up
control only inside ``Sched.point`` (called by the trace function at every
bytecode, line or call of the code under test, and by every intercepted
synchronisation operation), and the scheduler decides there who runs next.
Locks, conditions, events, sleeps and thread creation made by the code under
test go through the classes below, so a blocked thread is a state of the
simulation and a deadlock is an observation.

A schedule is ``{"<tid>:<k>": target}``: at its k-th yield point thread ``tid``
hands over to ``target``.  Together with the case this replays a run exactly.
"""
import os
import sys
import _thread
import threading

real_allocate = _thread.allocate_lock
real_start = _thread.start_new_thread
real_get_ident = _thread.get_ident

CURRENT = None          # the active scheduler, if any


class Deadlock(Exception):
    pass


class StepCap(BaseException):
    pass


class Abort(BaseException):
    """ Raised inside simulated threads to unwind them when a run is over. """


class Injected(KeyboardInterrupt):
    """ An asynchronous interruption (Ctrl-C). """


class InjectedMemoryError(MemoryError):
    """ A failing allocation. """


def is_injected(e):
    return isinstance(e, (Injected, InjectedMemoryError))


INJECT = {'KeyboardInterrupt': Injected, 'MemoryError': InjectedMemoryError}


def NEVER():
    return True


class SimThread(object):
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.baton = real_allocate()
        self.baton.acquire()
        self.local = 0              # yield points passed
        self.done = False
        self.waiting = None         # lock the thread is blocked on
        self.wake_at = None         # simulated time of a timeout
        self.timed_out = False
        self.since = 0
        self.error = None
        self.result = None
        self.ident = None
        self.inject = {}            # local step -> exception name
        self.strikes = {}           # place -> {visit: exception name}
        self.visits = {}
        self.seen = None            # counts of places, if asked for
        self.fired = []


class Sched(object):
    def __init__(self, policy, step_cap=2000000):
        self.policy = policy
        self.pid = os.getpid()      # a forked process is not part of the simulation
        self.threads = []
        self.current = None
        self.steps = 0
        self.switches = 0
        self.forced = 0
        self.preempted_in = {}
        self.lock_waits = 0
        self.now = 0.0
        self.step_cap = step_cap
        self.main_baton = real_allocate()
        self.main_baton.acquire()
        self.taken = {}             # recorded schedule
        self.trace = []             # (tid, local, place) of every switch
        self.dead = None
        self.aborting = False
        self.tls = {}
        self.place = None
        self.patience = None        # steps after which a timed wait is over, if others keep running
        self.timeouts = 0

    # -- set-up ---------------------------------------------------------
    def spawn(self, fn):
        t = SimThread(len(self.threads), fn)
        self.threads.append(t)
        real_start(self._bootstrap, (t,))
        return t

    def _bootstrap(self, t):
        t.ident = real_get_ident()
        t.baton.acquire()
        try:
            if not self.aborting:
                t.result = t.fn(t)
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            t.done = True
            self._leave(t)

    def run(self):
        """ Run all spawned threads to the end. """
        global CURRENT
        CURRENT = self
        try:
            first = self.policy.start([t.tid for t in self.threads])
            self.current = self.threads[first]
            self.current.baton.release()
            self.main_baton.acquire()
        finally:
            CURRENT = None
        if self.dead:
            raise Deadlock(self.dead)

    # -- scheduling -----------------------------------------------------
    def runnable(self):
        return [t.tid for t in self.threads if not t.done and t.waiting is None]

    def point(self, place=None, hold=None):
        t = self.current
        t.local += 1
        self.steps += 1
        if self.aborting:
            raise Abort()
        if self.steps > self.step_cap:
            self._abort('no progress: %d steps' % self.steps)
            raise Abort()
        self.place = place
        if self.patience:
            for x in self.threads:
                if x.wake_at is not None and not x.done and self.steps - x.since >= self.patience:
                    self._expire(x)
        if t.seen is not None and type(place) is tuple:
            k = '%s:%s' % place
            t.seen[k] = t.seen.get(k, 0) + 1
        target = self.policy.decide(self, t)
        if target is not None and target != t.tid:
            u = self.threads[target]
            if not u.done and u.waiting is None:
                self.taken['%d:%d' % (t.tid, t.local)] = target
                self._switch(t, u, place)
        if t.strikes and place is not None:
            # exceptions planned for the n-th visit of a place
            k = '%s:%s' % tuple(place) if type(place) is tuple else place
            if k in t.strikes:
                n = t.visits[k] = t.visits.get(k, 0) + 1
                if n in t.strikes[k]:
                    t.inject[t.local] = t.strikes[k].pop(n)
        if t.inject:
            # an exception planned for a place where it may not strike comes
            # at the next place where it may
            due = min(t.inject)
            exc = None
            if due <= t.local and not (hold and hold()):
                exc = t.inject.pop(due)
            if exc is not None:
                t.fired.append((t.local, str(place)))
                raise INJECT[exc]('injected at %s' % (place,))

    def _switch(self, t, u, place):
        self.switches += 1
        self.trace.append((t.tid, t.local, u.tid, place))
        self.current = u
        u.baton.release()
        t.baton.acquire()
        if self.aborting:
            raise Abort()

    def _pick(self, t):
        """ Somebody else has to run: choose among the runnable threads. """
        while True:
            ready = self.runnable()
            if ready:
                key = '%d:%d' % (t.tid, t.local)
                target = self.policy.forced(self, t, ready)
                self.taken['!' + key] = target
                self.forced += 1
                return self.threads[target]
            # advance simulated time to the next timeout
            sleepers = [x for x in self.threads if not x.done and x.wake_at is not None]
            if not sleepers:
                return None
            self._expire(min(sleepers, key=lambda x: (x.wake_at, x.tid)))

    def _expire(self, x):
        """ The time a thread was willing to wait is over. """
        self.now = max(self.now, x.wake_at)
        self.timeouts += 1
        x.wake_at = None
        x.timed_out = True
        x.waiting = None

    def block(self, what, timeout=None):
        """ Park the current thread until ``wake`` or a simulated timeout.
        Returns False on timeout. """
        t = self.current
        t.local += 1
        self.lock_waits += 1
        if self.aborting:
            raise Abort()
        t.waiting = what
        t.timed_out = False
        t.wake_at = None if timeout is None else self.now + max(0.0, timeout)
        t.since = self.steps
        u = self._pick(t)
        if u is None:
            self._abort('deadlock: every thread waits (%s)' % ', '.join(
                'thread %d' % x.tid for x in self.threads if not x.done))
            raise Abort()
        if u is not t:
            self.trace.append((t.tid, t.local, u.tid, 'blocked'))
            self.current = u
            u.baton.release()
            t.baton.acquire()
            if self.aborting:
                raise Abort()
        return not t.timed_out

    def wake(self, what):
        for x in self.threads:
            if x.waiting is what and not x.done:
                x.waiting = None
                x.wake_at = None

    def _abort(self, why):
        if not self.dead:
            self.dead = why
        self.aborting = True

    def _leave(self, t):
        """ Thread ``t`` is finished. """
        if self.aborting:
            for x in self.threads:
                if not x.done:
                    self.current = x
                    x.waiting = None
                    x.baton.release()
                    return
            self.main_baton.release()
            return
        if all(x.done for x in self.threads):
            self.main_baton.release()
            return
        u = self._pick(t)
        if u is None:
            self._abort('deadlock: threads %s wait for ever' % [
                x.tid for x in self.threads if not x.done])
            for x in self.threads:
                if not x.done:
                    self.current = x
                    x.waiting = None
                    x.baton.release()
                    return
        self.trace.append((t.tid, t.local, u.tid, 'end'))
        self.current = u
        u.baton.release()


def in_sim():
    s = CURRENT
    if s is None or s.current is None:
        return None
    if s.current.ident != real_get_ident() or s.pid != os.getpid():
        return None
    return s


# ---- policies -------------------------------------------------------------

class Policy(object):
    """ A recorded or generated schedule; never preempts by itself. """
    def __init__(self, schedule=None, first=0):
        self.s = schedule or {}
        self.first = first

    def start(self, tids):
        return self.first if self.first in tids else tids[0]

    def decide(self, sched, t):
        return self.s.get('%d:%d' % (t.tid, t.local))

    def forced(self, sched, t, ready):
        x = self.s.get('!%d:%d' % (t.tid, t.local))
        return x if x in ready else ready[0]


class RandomWalk(Policy):
    """ Switch with probability p at every yield point. """
    def __init__(self, rng, p, first=0):
        self.rng = rng
        self.p = p
        self.first = first

    def decide(self, sched, t):
        if self.rng.random() >= self.p:
            return None
        ready = [x for x in sched.runnable() if x != t.tid]
        return self.rng.choice(ready) if ready else None

    def forced(self, sched, t, ready):
        return self.rng.choice(ready)


class Bursts(RandomWalk):
    """ Alternate between calm stretches and stretches of dense switching. """
    def __init__(self, rng, calm, burst, first=0):
        RandomWalk.__init__(self, rng, 0.0, first)
        self.calm = calm
        self.burst = burst
        self.left = rng.randrange(1, calm + 1)
        self.dense = False

    def decide(self, sched, t):
        self.left -= 1
        if self.left <= 0:
            self.dense = not self.dense
            self.left = 1 + self.rng.randrange(self.burst if self.dense else self.calm)
            self.p = 0.5 if self.dense else 0.0
        if not self.p:
            return None
        return RandomWalk.decide(self, sched, t)


class PCT(Policy):
    """ Random priorities with ``d`` priority changes at random steps. """
    def __init__(self, rng, n, d, length, first=0):
        self.rng = rng
        self.prio = list(range(d, d + n))
        rng.shuffle(self.prio)
        self.change = {}
        for i in range(d):
            self.change[1 + rng.randrange(max(1, length))] = i
        self.first = max(range(n), key=lambda i: self.prio[i])

    def _best(self, ready):
        return max(ready, key=lambda i: self.prio[i] if i < len(self.prio) else 0)

    def decide(self, sched, t):
        low = self.change.pop(sched.steps, None)
        if low is None:
            return None
        if t.tid < len(self.prio):
            self.prio[t.tid] = low
        return self._best(sched.runnable())

    def forced(self, sched, t, ready):
        return self._best(ready)


class Preempt(Policy):
    """ A few preemptions at chosen local steps of chosen threads. """
    def __init__(self, rng, points, first=0):
        self.rng = rng
        self.points = points            # {(tid, local): target}
        self.first = first

    def decide(self, sched, t):
        return self.points.get((t.tid, t.local))

    def forced(self, sched, t, ready):
        return self.rng.choice(ready)


class Places(Policy):
    """ Preemptions at chosen visits of chosen places: ``points`` is a list of
    [tid, place, visit, target]. """
    def __init__(self, rng, points, first=0):
        self.rng = rng
        self.first = first
        self.want = {}
        for t, place, n, u in points:
            self.want.setdefault((t, place), {})[n] = u
        self.tids = set(t for t, _ in self.want)
        self.visits = {}

    def decide(self, sched, t):
        if t.tid not in self.tids or type(sched.place) is not tuple:
            return None
        k = (t.tid, '%s:%s' % sched.place)
        if k not in self.want:
            return None
        n = self.visits[k] = self.visits.get(k, 0) + 1
        return self.want[k].pop(n, None)

    def forced(self, sched, t, ready):
        return self.rng.choice(ready)


# ---- tracing --------------------------------------------------------------

class Tracer(object):
    """ Turns execution events of the code under test into yield points.

    granularity: 'opcode', 'line' or 'call'."""
    def __init__(self, sched, prefixes, granularity, exclude=()):
        self.sched = sched
        self.prefixes = tuple(prefixes)
        self.gran = granularity
        self.cache = {}
        self.exclude = tuple(exclude)

    def wanted(self, code):
        r = self.cache.get(code)
        if r is None:
            fn = code.co_filename
            r = self.cache[code] = (fn.startswith(self.prefixes)
                                    and code.co_name != '<module>'
                                    and not fn.endswith(self.exclude or ('\0',)))
        return r

    def glob(self, frame, event, arg):
        code = frame.f_code
        if not self.wanted(code):
            return None
        gran = self.gran
        if gran == 'opcode':
            frame.f_trace_opcodes = True
        self.sched.point((code.co_name, frame.f_lineno), self.hold(frame))
        if gran == 'call':
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == self.gran:
            self.sched.point((frame.f_code.co_name, frame.f_lineno), self.hold(frame))
        return self.local

    guard = None

    def hold(self, frame):
        if self.guard is None:
            return None
        return lambda: self.guard(frame)

    def on(self):
        sys.settrace(self.glob)

    @staticmethod
    def off():
        sys.settrace(None)


# ---- synchronisation seams --------------------------------------------------

class SimLock(object):
    """ threading.Lock and threading.RLock """
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        s = in_sim()
        return s.current if s else real_get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = in_sim()
        if s:
            s.point('acquire', NEVER)
        while self.owner is not None:
            if self.owner is me and self.reentrant:
                break
            if not blocking:
                return False
            if s is None:
                # nothing else can run outside of a simulation
                raise Deadlock('a lock is still held')
            if not s.block(self, None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        me = self._me()
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner is not me:
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s = in_sim()
            if s:
                s.wake(self)
                if not s.aborting:
                    s.point('release', NEVER)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0

    # for threading.Condition
    def _is_owned(self):
        return self.owner is not None and self.owner is self._me()


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        c = self.count
        self.count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c


MAX_SLEEPS = 20000
_sleeps = [0]


def sim_sleep(secs):
    """ Simulated: takes no time.  Nothing the library does takes thousands of
    pauses; a caller that goes on sleeping waits for what never happens. """
    s = in_sim()
    _sleeps[0] += 1
    if s is None:
        if _sleeps[0] > MAX_SLEEPS:
            raise Deadlock('waits for ever (%d pauses)' % _sleeps[0])
        return
    if _sleeps[0] > MAX_SLEEPS:
        s._abort('deadlock: thread %d waits for ever (%d pauses)' % (s.current.tid, _sleeps[0]))
        raise Abort()
    s.block(object(), max(0.0, secs))


def sim_start_new_thread(fn, args, kwargs={}):
    s = in_sim()
    if s is None:
        return real_start(fn, args, kwargs)
    creator = s

    def body(t):
        tr = getattr(creator, 'tracer', None)
        if tr is not None:
            tr.on()
        try:
            return fn(*args, **kwargs)
        finally:
            sys.settrace(None)
            for lock in creator.tls.pop(t.tid, ()):
                if lock.locked():
                    lock.release()
    t = s.spawn(body)
    while t.ident is None:
        pass
    s.point('start_thread', NEVER)
    return t.ident


def sim_set_sentinel():
    """ The lock threading.Thread.join waits for. """
    lock = SimLock()
    s = in_sim()
    if s is not None:
        s.tls.setdefault(s.current.tid, []).append(lock)
    return lock


def install():
    """ Replace the synchronisation primitives of the process.  To be called
    before the code under test is imported. """
    import time
    import queue
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock
    threading._start_new_thread = sim_start_new_thread
    if hasattr(threading, '_set_sentinel'):
        threading._set_sentinel = sim_set_sentinel
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    _thread.start_new_thread = sim_start_new_thread
    time.sleep = sim_sleep
    import functools
    functools.RLock = SimRLock
    try:
        queue.SimpleQueue = queue._PySimpleQueue
    except AttributeError:
        pass
