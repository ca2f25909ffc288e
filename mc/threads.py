"""Real threads under a controlled scheduler.

Exactly one thread runs at a time; at every scheduling point the explorer
decides who runs next.  Letting the current thread go on is the default,
taking the processor away from it is a preemption (cost 1); when it blocks
or ends somebody else has to run, and choosing another than the first enabled
one costs `switch_cost`.  Time is virtual: it advances only when nothing else
can run.  A state in which nothing can ever run again is a deadlock."""
import _thread
import asyncio
import ctypes
import signal
import sys
import threading
import time

from .core import CpuHang, HarnessError, Violation, _on_cpu

_current = None            # the scheduler of the running execution

_real = dict((k, getattr(threading, k)) for k in (
    "Event", "Lock", "RLock", "Condition", "Semaphore", "Thread"))
_real_sleep = time.sleep
_real_monotonic = time.monotonic


class Killed(BaseException):
    """unwinds the threads left over when an execution ends"""


class Th(object):
    def __init__(self, idx, name, fn):
        self.idx, self.name, self.fn = idx, name, fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.done = False
        self.pred = None           # None: can run
        self.deadline = None
        self.timedout = False
        self.label = "start"
        self.exc = None
        self.ident = None
        self.joined = False
        self.quiet = False         # only runs when nobody else can

    def enabled(self):
        return not self.done and (self.timedout or self.pred is None or self.pred())

    def join(self, timeout=None):
        s = _current
        if s is None or s.dying:
            return
        if s.current is self:
            raise RuntimeError("cannot join current thread")
        s.block(lambda: self.done, "join %s" % self.name, timeout)

    def is_alive(self):
        return not self.done


class StubLoop(asyncio.AbstractEventLoop):
    """just enough for an asyncio future used outside of a running loop"""

    def get_debug(self):
        return False

    def call_soon(self, *a, **kw):
        return None

    call_soon_threadsafe = call_soon

    def call_exception_handler(self, ctx):
        pass

    def is_running(self):
        return False

    def is_closed(self):
        return False

    def create_future(self):
        return asyncio.Future(loop=self)


class Sched(object):
    def __init__(self, ch, trace=(), opcodes=False, switch_cost=1, max_points=20000,
                 preempt=True, cpu_limit=20.0):
        self.ch = ch
        self.trace_files = tuple(trace)
        self.opcodes = opcodes
        self.switch_cost = switch_cost
        self.max_points = max_points
        self.preempt = preempt
        self.cpu_limit = cpu_limit
        self.threads = []
        self.current = None
        self.now = 1000.0
        self.points = 0
        self.jumps = 0
        self.dying = False
        self.verdict = None
        self.errors = []           # exceptions that ended a thread
        self.atomic_depth = 0
        self.loops = {}

    # -- choosing who runs -------------------------------------------------------
    def _pick(self, me):
        """next thread, given that `me` cannot or need not go on"""
        while True:
            self.points += 1
            if self.points > self.max_points:
                self.verdict = "no progress: more than %d scheduling points; waiting: %s" % (
                    self.max_points, self.describe())
                return self.threads[0]
            ready = [t for t in self.threads if t.enabled()]
            busy = [t for t in ready if not t.quiet]
            if busy:
                ready = busy
            elif not ready or any(t.deadline is not None and not t.done for t in self.threads):
                timers = [t for t in self.threads
                          if not t.done and t.deadline is not None and not t.enabled()]
                if timers:
                    t = min(timers, key=lambda t: (t.deadline, t.idx))
                    self.now = max(self.now, t.deadline)
                    t.timedout = True
                    self.jumps += 1
                    if self.jumps > 500:
                        self.verdict = "retries forever without progress: %s" % self.describe()
                        return self.threads[0]
                    continue
                if not ready:
                    return None
            if len(ready) == 1:
                return ready[0]
            k = self.ch.choose([("%s:%s" % (t.name, t.label), 0 if i == 0 else self.switch_cost)
                                for i, t in enumerate(ready)])
            return ready[k]

    def describe(self):
        return ", ".join("%s at %s" % (t.name, t.label) for t in self.threads if not t.done)

    def point(self, label):
        """the current thread is about to do something others could see"""
        me = self.current
        if self.dying:
            if me is not self.threads[0]:
                raise Killed()
            return
        if self.atomic_depth:
            return
        self.points += 1
        if self.points > self.max_points:
            self._fail("no progress: more than %d scheduling points in %s at %s" % (
                self.max_points, me.name, label))
        me.label = label
        if not self.preempt:
            return
        others = [t for t in self.threads if t is not me and not t.quiet and t.enabled()]
        if not others:
            return
        k = self.ch.choose([("%s:%s" % (me.name, label), 0)]
                           + [("preempt by %s:%s" % (t.name, t.label), 1) for t in others])
        if k:
            self._switch(me, others[k - 1])

    def block(self, pred, label, timeout=None):
        """wait until pred(); False if the timeout passed first"""
        me = self.current
        if self.dying:
            raise Killed()
        if pred():
            return True
        if self.atomic_depth:
            raise HarnessError("blocking inside an atomic section: %s" % label)
        me.pred, me.label, me.timedout = pred, label, False
        me.deadline = None if timeout is None else self.now + timeout
        self._away(me)
        me.pred = me.deadline = None
        late, me.timedout = me.timedout, False
        return not late or pred()

    def sleep(self, seconds):
        self.block(lambda: False, "sleep", max(0.0, seconds))

    def quiesce(self):
        """wait until nothing else can happen"""
        me = self.current
        me.quiet = True
        me.label = "quiesce"
        me.pred = lambda: True
        self._away(me)
        me.quiet = False
        me.pred = None

    def yield_(self):
        """let the others go first, if they can"""
        me = self.current
        me.label = "yield"
        self._away(me)

    def _away(self, me):
        nxt = self._pick(me)
        if nxt is None:
            self._dead(me)
            return
        if nxt is not me:
            self._switch(me, nxt)
        elif self.verdict:
            self._raise()

    def _dead(self, me):
        self.verdict = "deadlock: %s" % self.describe()
        if me is self.threads[0]:
            self._raise()
        self._switch(me, self.threads[0])

    def _fail(self, msg):
        self.verdict = msg
        me = self.current
        if me is self.threads[0]:
            self._raise()
        self._switch(me, self.threads[0])

    def _raise(self):
        v, self.verdict = self.verdict, None
        self.dying = True
        raise Violation(v)

    def _switch(self, me, nxt):
        self.current = nxt
        nxt.baton.release()
        if me.done:
            return
        me.baton.acquire()
        if me is self.threads[0]:
            if self.verdict:
                self._raise()
        elif self.dying:
            raise Killed()

    # -- threads ---------------------------------------------------------------------
    def spawn(self, fn, name):
        if self.dying:
            return Th(-1, name, fn)
        t = Th(len(self.threads), name, fn)
        self.threads.append(t)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.baton.acquire()
        t.ident = _thread.get_ident()
        try:
            if not self.dying:
                asyncio.set_event_loop(StubLoop())
                if self.trace_files:
                    sys.settrace(self._tracer)
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except Killed:
            pass
        except BaseException as e:
            t.exc = e
            if not self.dying:
                self.errors.append((t.name, e))
        t.done = True
        try:
            if not self.dying:
                nxt = self._pick(t)
                if nxt is None:
                    self.verdict = "deadlock: %s" % self.describe()
                    nxt = self.threads[0]
                self._switch(t, nxt)
        finally:
            t.finished.release()

    def run(self, main):
        global _current
        if _current is not None:
            raise HarnessError("nested schedulers")
        _current = self
        t0 = Th(0, "driver", None)
        t0.ident = _thread.get_ident()
        self.threads.append(t0)
        self.current = t0
        old = signal.signal(signal.SIGPROF, _on_cpu)
        signal.setitimer(signal.ITIMER_PROF, self.cpu_limit)
        asyncio.set_event_loop(StubLoop())
        try:
            if self.trace_files:
                sys.settrace(self._tracer)
            try:
                out = main()
            except CpuHang:
                raise Violation("a thread spins forever without waiting: %s" % self.describe())
            finally:
                sys.settrace(None)
                signal.setitimer(signal.ITIMER_PROF, 0)
            return out
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
            self.dying = True
            for t in self.threads[1:]:
                if not t.done:
                    if t is self.current:        # spinning: it holds the baton
                        ctypes.pythonapi.PyThreadState_SetAsyncExc(
                            ctypes.c_ulong(t.ident), ctypes.py_object(Killed))
                    else:
                        self.current = t
                        t.baton.release()
                if not t.finished.acquire(timeout=10):
                    raise HarnessError("thread %s does not end" % t.name)
            asyncio.set_event_loop(None)
            _current = None

    # -- line granularity -----------------------------------------------------------
    def _tracer(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.endswith(self.trace_files):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "opcode":
            self.point("%s:%d.%d" % (frame.f_code.co_name, frame.f_lineno, frame.f_lasti))
        elif event == "line":
            self.point("%s:%d" % (frame.f_code.co_name, frame.f_lineno))
        return self._local


# -- controlled primitives ----------------------------------------------------------
class CEvent(object):
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        _point("event.set")
        self.flag = True

    def clear(self):
        _point("event.clear")
        self.flag = False

    def wait(self, timeout=None):
        s = _current
        if s is None:
            return self.flag
        return s.block(lambda: self.flag, "event.wait", timeout)


class QEvent(CEvent):
    """as used inside kazoo: setting it is no scheduling point"""

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False


def _point(label):
    if _current is not None:
        _current.point(label)


class CLock(object):
    reentrant = False
    points = True

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or s.dying and s.current is s.threads[0]:
            return True
        if self.points:
            s.point("lock.acquire")
        me = s.current
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if not s.block(lambda: self.owner is None, "lock.acquire",
                           None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        s = _current
        if s is None or s.dying:
            return
        if self.owner is None or self.reentrant and self.owner is not s.current:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None
        if self.points:
            s.point("lock.release")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CRLock(CLock):
    reentrant = True

    def _is_owned(self):
        return _current is not None and self.owner is _current.current


class QLock(CLock):
    points = False


class QRLock(CRLock):
    points = False


class CCondition(object):
    def __init__(self, lock=None):
        self.lock = lock or CRLock()
        self.waiters = []
        self.acquire = self.lock.acquire
        self.release = self.lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        s = _current
        if s is None or s.dying:
            raise Killed()
        token = [False]
        self.waiters.append(token)
        owner, count = self.lock.owner, self.lock.count
        self.lock.owner, self.lock.count = None, 0
        ok = s.block(lambda: token[0], "condition.wait", timeout)
        if token in self.waiters:
            self.waiters.remove(token)
        s.block(lambda: self.lock.owner is None, "condition.reacquire")
        self.lock.owner, self.lock.count = owner, count
        return ok

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout) and timeout is not None:
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        for t in self.waiters[:n]:
            t[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class CSemaphore(object):
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        s = _current
        if s is None:
            return True
        s.point("semaphore.acquire")
        if not self.value:
            if not blocking:
                return False
            if not s.block(lambda: self.value > 0, "semaphore.acquire", timeout):
                return False
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class ShimThread(_real["Thread"]):
    """a thread started during an execution is one of the explorer's"""
    th = None

    def start(self):
        spawn = _current.spawn if _current is not None else (_override or {}).get("spawn")
        if spawn is None:
            return _real["Thread"].start(self)
        self.th = spawn(self.run, "thread")

    def join(self, timeout=None):
        if self.th is None:
            return _real["Thread"].join(self, timeout)
        self.th.join(timeout)

    def is_alive(self):
        if self.th is None:
            return _real["Thread"].is_alive(self)
        return not self.th.done


_controlled = {"Event": CEvent, "Lock": CLock, "RLock": CRLock, "Condition": CCondition,
               "Semaphore": CSemaphore}

_override = None          # another runtime's primitives (see zk.Inline)


def _shim(kind):
    def make(*a, **kw):
        if _current is not None and _thread.get_ident() == _current.current.ident:
            return _controlled[kind](*a, **kw)
        if _override is not None and kind in _override:
            return _override[kind](*a, **kw)
        return _real[kind](*a, **kw)
    make.__name__ = kind
    return make


def install():
    """make threading.Event() and friends controllable (before importing kiel)"""
    for kind in _controlled:
        setattr(threading, kind, _shim(kind))
    threading.Thread = ShimThread

    def sleep(seconds):
        if _current is not None:
            _current.sleep(seconds)
        else:
            _real_sleep(seconds)
    time.sleep = sleep
