"""Deterministic scheduling of threads

Every simulated thread is a real thread, but only one runs at any time, and
which one is the simulator's decision.  A running thread can lose the
processor at yield points: at lines and calls (or at every bytecode that
follows a call) of the code under test, at lock operations, and at system
calls of simulated processes.
"""

import sys
import threading as _t
import types

from .engine import HarnessError, SimCrash, Violation


class Deadlock(Exception):
    pass


class Killed(BaseException):
    """Unwinds the threads of a run that is over"""


class Interrupted(BaseException):
    """What code gets that runs out of memory or receives a signal"""


class SimThread:
    def __init__(self, sched, tid, name, fn):
        self.sched = sched
        self.tid = tid
        self.name = name
        self.fn = fn
        self.go = _t.Semaphore(0)
        self.done = False
        self.exc = None
        self.result = None
        self.blocked_on = None
        self.steps = 0
        self.calls = 0
        self.interrupt = None   # the number of the call that fails
        self.real = _t.Thread(target=self._main, daemon=True)

    def _main(self):
        self.go.acquire()
        s = self.sched
        try:
            if not s.aborting:
                if s.trace_prefix:
                    sys.settrace(s._trace)
                try:
                    self.result = self.fn()
                finally:
                    sys.settrace(None)
        except Killed:
            pass
        except BaseException as exc:
            self.exc = exc
        self.done = True
        s.back.release()


class Scheduler:
    """mode: 'coop' (explicit yield points only), 'line' or 'opcode'"""

    def __init__(self, sim, mode='coop', prefix=None, gaps=(0, 1, 2, 3, 5, 8, 13, 21, 34, 60, 120, 400),
                 max_steps=3000000):
        self.sim = sim
        self.mode = mode
        self.trace_prefix = prefix if mode != 'coop' else None
        self.gaps = gaps
        self.threads = []
        self.current = None
        self.back = _t.Semaphore(0)
        self.aborting = False
        self.gap = None
        self.switches = 0
        self.total = 0
        self.max_steps = max_steps
        self.by_ident = {}
        self.hold = 0
        self._known = {}

    def spawn(self, name, fn):
        th = SimThread(self, len(self.threads), name, fn)
        self.threads.append(th)
        th.real.start()
        return th

    # -- tracing ---------------------------------------------------------

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        k = self._known.get(fn)
        if k is None:
            k = self._known[fn] = fn.startswith(self.trace_prefix)
        if not k:
            return None
        if self.mode == 'opcode':
            frame.f_trace_opcodes = True
        cur = self.current
        if cur is not None and cur.interrupt is not None and _t.current_thread() is cur.real and not self.aborting:
            cur.calls += 1
            if cur.calls == cur.interrupt:
                raise Interrupted()
        self.yield_point()
        return self._local

    def resume(self):
        """An exception in the trace function ends tracing"""
        sys.settrace(self._trace)

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.yield_point()
        return self._local

    # -- called in simulated threads ------------------------------------

    def _new_gap(self):
        g = self.sim.choice(self.gaps)
        self.gap = None if g == 0 else g

    def yield_point(self):
        if self.aborting:
            raise Killed()
        cur = self.current
        if cur is None or _t.current_thread() is not cur.real:
            return      # the driver itself, outside of run()
        cur.steps += 1
        self.total += 1
        if self.total > self.max_steps:
            raise Violation('no-termination', 'threads make no progress')
        if self.gap is None or self.hold:
            return
        self.gap -= 1
        if self.gap <= 0:
            self._park()

    def _park(self):
        cur = self.current
        trace = sys.gettrace()
        sys.settrace(None)
        self.back.release()
        cur.go.acquire()
        if self.aborting:
            raise Killed()
        sys.settrace(trace)

    def block(self, obj):
        cur = self.current
        if cur is None or _t.current_thread() is not cur.real:
            raise Violation('deadlock', 'a lock is never released')
        cur.blocked_on = obj
        self._park()

    def wake(self, obj):
        for th in self.threads:
            if th.blocked_on is obj:
                th.blocked_on = None

    def me(self):
        cur = self.current
        if cur is not None and _t.current_thread() is cur.real:
            return cur.tid + 1
        return 0

    # -- the driver ------------------------------------------------------

    def run(self):
        sim = self.sim
        last = None
        try:
            while True:
                live = [t for t in self.threads if not t.done]
                if not live:
                    break
                ready = [t for t in live if t.blocked_on is None]
                if not ready:
                    raise Violation('deadlock', 'threads %s wait for each other' % [t.name for t in live])
                if last in ready and len(ready) > 1:
                    # the others first: a preempted thread comes last
                    ready.remove(last)
                    ready.append(last)
                th = ready[sim.below(len(ready))]
                self._new_gap()
                if th is not last:
                    self.switches += 1
                    sim.log('run %s (step %d)', th.name, th.steps)
                self.current = th
                last = th
                th.go.release()
                self.back.acquire()
                self.current = None
        except BaseException:
            self.abort()
            raise
        for t in self.threads:
            t.real.join()

    def abort(self):
        self.aborting = True
        self.current = None
        for t in self.threads:
            if not t.done:
                t.go.release()


class Lock:
    def __init__(self, u):
        self._u = u
        self._owner = None
        self._count = 0

    _re = False

    def _sched(self):
        return self._u.sched

    def acquire(self, blocking=True, timeout=-1):
        s = self._sched()
        me = s.me() if s is not None else 0
        if s is not None:
            s.yield_point()
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking or timeout == 0:
                return False
            if s is None:
                raise Violation('deadlock', 'a lock is acquired that is never released')
            s.block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        s = self._sched()
        if self._re and s is not None and self._owner != s.me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if s is not None:
                s.wake(self)
                if not s.aborting:
                    s.yield_point()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        s = self._sched()
        return self._owner == (s.me() if s is not None else 0)


class RLock(Lock):
    _re = True


class Condition:
    def __init__(self, u, lock=None):
        self._u = u
        self._lock = lock if lock is not None else RLock(u)
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        s = self._u.sched
        if s is None:
            raise Violation('deadlock', 'waits for a condition alone')
        n = self._lock._count
        self._lock._count = 1
        self._lock.release()
        if timeout is None:
            s.block(self)
        else:
            s.yield_point()
        self._lock.acquire()
        self._lock._count = n
        return True

    def wait_for(self, pred, timeout=None):
        while not pred():
            self.wait()
        return True

    def notify(self, n=1):
        if self._u.sched is not None:
            self._u.sched.wake(self)

    def notify_all(self):
        self.notify()


class Event:
    def __init__(self, u):
        self._c = Condition(u)
        self._f = False

    def is_set(self):
        return self._f

    def set(self):
        self._f = True
        self._c.notify_all()

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        with self._c:
            while not self._f:
                self._c.wait(timeout)
                if timeout is not None:
                    break
        return self._f


class local:
    def __init__(self, u):
        object.__setattr__(self, '_u', u)
        object.__setattr__(self, '_d', {})

    def _me(self):
        s = self._u.sched
        return self._d.setdefault(s.me() if s is not None else 0, {})

    def __getattr__(self, n):
        try:
            return self._me()[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        self._me()[n] = v

    def __delattr__(self, n):
        try:
            del self._me()[n]
        except KeyError:
            raise AttributeError(n)


def threading_module(u):
    m = types.ModuleType('threading')
    d = {k: v for k, v in _t.__dict__.items() if not k.startswith('__')}
    m.__dict__.update(d)
    m.Lock = lambda: Lock(u)
    m.RLock = lambda: RLock(u)
    m.Condition = lambda lock=None: Condition(u, lock)
    m.Event = lambda: Event(u)
    m.local = lambda: local(u)

    class Semaphore:
        def __init__(self, value=1):
            self._v = value
            self._c = Condition(u)

        def acquire(self, blocking=True, timeout=None):
            with self._c:
                while self._v == 0:
                    if not blocking:
                        return False
                    self._c.wait()
                self._v -= 1
            return True

        def release(self, n=1):
            with self._c:
                self._v += n
                self._c.notify_all()
        __enter__ = acquire

        def __exit__(self, *a):
            self.release()
    m.Semaphore = m.BoundedSemaphore = Semaphore
    m.get_ident = lambda: 1000 + (u.sched.me() if u.sched is not None else 0)

    def start(*a, **k):
        raise HarnessError('the code under test starts threads, which is not simulated')

    class Thread:
        def __init__(self, *a, **k):
            start()
    m.Thread = m.Timer = Thread
    return m
