"""A model of a ZooKeeper ensemble, under the real kazoo client.

The real KazooClient, its retry logic, its session state machine and its
recipes (DataWatch, ChildrenWatch, Lock, transactions) run unchanged.  Replaced
are the connection (requests are handed to an in-memory server instead of a
socket; connection losses and expirations are choices of the explorer) and the
handler (its worker threads are scheduled by the explorer).

Two runtimes: Threads (real threads under mc.threads) and Inline (no threads:
whatever a kazoo thread would do next is a pending item the explorer picks)."""
import random
import uuid

from kazoo import client as kclient, exceptions as kexc
from kazoo.handlers.threading import KazooTimeoutError
from kazoo.protocol import serialization as ser
from kazoo.protocol.connection import EVENT_TYPE_MAP
from kazoo.protocol.states import Callback, KeeperState, WatchedEvent, ZnodeStat
import kazoo.recipe.lock

from . import threads
from .core import HarnessError, Violation

CREATED, DELETED, CHANGED, CHILD = 1, 2, 3, 4

_server = None             # the server of the running execution
_NONE = object()


def opname(r):
    n = type(r).__name__
    path = getattr(r, "path", "")
    tail = path.rsplit("/", 1)[-1]
    if "__lock__" in path:
        tail = "lock/" + tail[-4:]
    return "%s %s" % (n, tail) if path else n


class Answer(object):
    """what the server says to a request, which it does not perform"""

    def __init__(self, result):
        self.result = result


class Node(object):
    def __init__(self, data, owner, zxid):
        self.data, self.owner = data, owner
        self.czxid = self.mzxid = self.pzxid = zxid
        self.version = 0
        self.seq = 0
        self.cversion = 0


class Server(object):
    """znodes, sessions, watches; every request is atomic"""

    def __init__(self, rt):
        self.rt = rt
        rt.server = self
        self.nodes = {"/": Node(b"", 0, 0)}
        self.zxid = 0
        self.sessions = {}          # id -> live?
        self.next_session = 0x1000
        self.conns = []
        self.fault = None           # fn(conn, request) -> None | fault
        self.log = []               # (conn index, request, outcome)
        self.callback_errors = []
        self.on_apply = None        # fn(conn, request, result or exception)
        self.hold = set()           # indices of clients that cannot connect

    # -- requests -----------------------------------------------------------------
    def children(self, path):
        prefix = path.rstrip("/") + "/"
        return sorted(p[len(prefix):] for p in self.nodes
                      if p != "/" and p.startswith(prefix) and "/" not in p[len(prefix):])

    def stat(self, path):
        n = self.nodes[path]
        return ZnodeStat(n.czxid, n.mzxid, 0, 0, n.version, n.cversion, 0, n.owner,
                         len(n.data or b""), len(self.children(path)), n.pzxid)

    def apply(self, conn, r):
        """the result of a request, or the exception the server answers with"""
        if isinstance(r, ser.Transaction):
            return self.multi(conn, r)
        events = []
        try:
            out = self.one(conn, r, events)
        except kexc.ZookeeperError as e:
            return e
        self.trigger(events)
        return out

    def multi(self, conn, r):
        import copy
        saved = {p: copy.copy(n) for p, n in self.nodes.items()}
        zxid = self.zxid
        events, results = [], []
        for i, op in enumerate(r.operations):
            try:
                results.append(self.one(conn, op, events))
            except kexc.ZookeeperError as e:
                self.nodes, self.zxid = saved, zxid
                return [kexc.RolledBackError() for _ in results] + [e] + [
                    kexc.RuntimeInconsistency() for _ in r.operations[i + 1:]]
        self.trigger(events)
        return results

    def one(self, conn, r, events):
        path = getattr(r, "path", None)
        if path is not None and (not path.startswith("/") or "//" in path
                                 or path != "/" and path.endswith("/")):
            raise kexc.BadArgumentsError()
        if isinstance(r, (ser.Create, ser.Create2)):
            parent = path.rsplit("/", 1)[0] or "/"
            if parent not in self.nodes:
                raise kexc.NoNodeError()
            pn = self.nodes[parent]
            if pn.owner:
                raise kexc.NoChildrenForEphemeralsError()
            if r.flags & 2:
                path = "%s%010d" % (path, pn.seq)
            if path in self.nodes:
                raise kexc.NodeExistsError()
            pn.seq += 1
            pn.cversion += 1
            self.zxid += 1
            pn.pzxid = self.zxid
            self.nodes[path] = Node(r.data, conn.session if r.flags & 1 else 0, self.zxid)
            events += [(CREATED, path), (CHILD, parent)]
            return path if isinstance(r, ser.Create) else (path, self.stat(path))
        if isinstance(r, ser.Exists):
            return self.stat(path) if path in self.nodes else None
        if isinstance(r, ser.Sync):
            return path
        if path not in self.nodes:
            raise kexc.NoNodeError()
        n = self.nodes[path]
        if isinstance(r, ser.GetData):
            return n.data, self.stat(path)
        if isinstance(r, ser.GetChildren):
            return self.children(path)
        if isinstance(r, ser.GetChildren2):
            return self.children(path), self.stat(path)
        if r.version != -1 and r.version != n.version:
            raise kexc.BadVersionError()
        if isinstance(r, ser.CheckVersion):
            return True
        if isinstance(r, ser.SetData):
            self.zxid += 1
            n.data, n.mzxid, n.version = r.data, self.zxid, n.version + 1
            events.append((CHANGED, path))
            return self.stat(path)
        if isinstance(r, ser.Delete):
            if self.children(path):
                raise kexc.NotEmptyError()
            self.remove(path, events)
            return True
        raise HarnessError("request %r not modelled" % (r,))

    def remove(self, path, events):
        parent = path.rsplit("/", 1)[0] or "/"
        self.zxid += 1
        del self.nodes[path]
        self.nodes[parent].cversion += 1
        self.nodes[parent].pzxid = self.zxid
        events += [(DELETED, path), (CHILD, parent)]

    def trigger(self, events):
        for kind, path in events:
            for c in self.conns:
                if not c.up:
                    continue
                hit = False
                if kind != CHILD and path in c.data_watches:
                    c.data_watches.discard(path)
                    hit = True
                if kind in (CHILD, DELETED) and path in c.child_watches:
                    c.child_watches.discard(path)
                    hit = True
                if hit:
                    c.watch_event(kind, path)

    # -- sessions -----------------------------------------------------------------
    def new_session(self):
        self.next_session += 1
        self.sessions[self.next_session] = True
        return self.next_session

    def end_session(self, sid):
        if not self.sessions.get(sid):
            return
        self.sessions[sid] = False
        events = []
        for path in sorted(p for p, n in self.nodes.items() if n.owner == sid):
            self.remove(path, events)
        self.trigger(events)

    # -- for scripts --------------------------------------------------------------
    def put(self, path, data=b"", owner=0):
        parts = path.strip("/").split("/")
        for i in range(1, len(parts) + 1):
            p = "/" + "/".join(parts[:i])
            if p not in self.nodes:
                self.zxid += 1
                last = i == len(parts)
                self.nodes[p] = Node(data if last else b"", owner if last else 0, self.zxid)

    def delete(self, path):
        events = []
        self.remove(path, events)
        self.trigger(events)

    def set(self, path, data):
        self.one(None, ser.SetData(path, data, -1), events := [])
        self.trigger(events)

    def conn_of(self, client):
        return client._connection


class Connection(object):
    """stands in for kazoo.protocol.connection.ConnectionHandler"""

    def __init__(self, client, retry_sleeper, logger=None, sasl_options=None):
        if _server is None:
            raise HarnessError("KazooClient outside an execution")
        self.client = client
        self.server = _server
        self.rt = self.server.rt
        self.index = len(self.server.conns)
        self.server.conns.append(self)
        self.name = "c%d" % self.index
        self._write_sock = None
        self._socket = None
        self.started = False
        self.ended = True
        self.up = False
        self.busy = False
        self.broken = None
        self.session = None
        self.data_watches = set()
        self.child_watches = set()
        self.op_point = True

    # -- called by KazooClient -------------------------------------------------------
    def start(self):
        if self.started:
            raise Exception("Unable to start, connection routine already active.")
        self._write_sock = self
        self.started = True
        self.ended = False
        self.rt.run_conn(self)

    def stop(self, timeout=None):
        if self.started:
            self.rt.block(lambda: self.ended, "connection.stop", timeout)
            if self.ended:
                self.started = False
        return self.ended

    def close(self):
        if not self.ended:
            raise Exception("Cannot close connection until it is stopped")
        self._write_sock = None

    def send(self, data):
        """a request was queued"""
        q = self.client._queue
        if q and self.up and not self.busy and not self.broken:
            self.rt.point("zk " + opname(q[0][0]))
            self.serve()

    # -- the connection's own thread --------------------------------------------------
    def routine(self):
        """generator: yields (condition to wait for, label)"""
        c = self.client
        while not c._stopped.is_set():
            if c._state != KeeperState.CONNECTING:
                self.callback(KeeperState.CONNECTING)
            yield (lambda: self.index not in self.server.hold or c._stopped.is_set(), "connect")
            if c._stopped.is_set():
                break
            if c._session_id and not self.server.sessions.get(c._session_id):
                self.session = None
                self.callback(KeeperState.EXPIRED_SESSION)
                continue
            if not c._session_id:
                c._session_id = self.server.new_session()
                c._session_passwd = b"p" * 16
            self.session = c._session_id
            self.up = True
            self.broken = None
            self.callback(KeeperState.CONNECTED)
            self.serve()
            while not self.broken:
                yield (lambda: self.broken or c._queue and self.up, "connected")
                if not self.broken:
                    self.serve()
            how, self.broken = self.broken, None
            self.up = False
            self.data_watches.clear()
            self.child_watches.clear()
            if how == "close":
                self.session = None
                break
            self.callback(KeeperState.CONNECTING)
        self.ended = True
        self.callback(KeeperState.CLOSED)

    def callback(self, state):
        self.busy = True
        try:
            self.client._session_callback(state)
        finally:
            self.busy = False

    def serve(self):
        c = self.client
        s = self.server
        while c._queue and self.up and not self.broken:
            request, obj = c._queue.popleft()
            if request is ser.CloseInstance:
                s.log.append((self.index, request, True))
                s.end_session(self.session)
                self.broken = "close"
                return
            request.serialize()
            s.submitter = obj.submitter
            try:
                fault = s.fault(self, request) if s.fault else None
            except Violation as v:
                self.rt.violated(v)
                raise
            if fault in ("lost", "expired"):
                c._pending.append((request, obj, 0))
                s.log.append((self.index, request, fault))
                self.drop(expire=fault == "expired")
                return
            if isinstance(fault, Exception):
                result = fault
            elif isinstance(fault, Answer):
                result = fault.result
            else:
                result = s.apply(self, request)
            s.log.append((self.index, request, result))
            if s.on_apply:
                s.on_apply(self, request, result)
            if fault == "lost-applied":
                c._pending.append((request, obj, 0))
                self.drop()
                return
            watcher = getattr(request, "watcher", None)
            if watcher and not c._stopped.is_set() and not (
                    isinstance(result, Exception)):
                if isinstance(request, (ser.GetChildren, ser.GetChildren2)):
                    self.child_watches.add(request.path)
                    c._child_watchers[request.path].add(watcher)
                else:
                    self.data_watches.add(request.path)
                    c._data_watchers[request.path].add(watcher)
            if isinstance(result, Exception):
                obj.set_exception(result)
            else:
                obj.set(result)

    def watch_event(self, kind, path):
        c = self.client
        watchers = []
        if kind != CHILD:
            watchers.extend(c._data_watchers.pop(path, []))
        if kind in (DELETED, CHILD):
            watchers.extend(c._child_watchers.pop(path, []))
        if c._stopped.is_set():
            return
        ev = WatchedEvent(EVENT_TYPE_MAP[kind], c._state, path)
        for w in watchers:
            c.handler.dispatch_callback(Callback("watch", w, (ev,)))

    def drop(self, expire=False):
        """the connection breaks (and the session may end meanwhile)"""
        if not self.up:
            return
        self.broken = "drop"
        self.data_watches.clear()
        self.child_watches.clear()
        if expire:
            self.server.end_session(self.session)
        self.rt.wake()

    def expire(self):
        """the server gives up on this client's session"""
        if self.session is None:
            return
        self.server.end_session(self.session)
        self.drop()


class AsyncResult(object):
    def __init__(self, handler):
        self.rt = handler.rt
        self.submitter = self.rt.whoami()
        self._exception = _NONE
        self.value = None
        self.callbacks = []

    def ready(self):
        return self._exception is not _NONE

    def successful(self):
        return self._exception is None

    @property
    def exception(self):
        return None if self._exception is _NONE else self._exception

    def set(self, value=None):
        self.value = value
        self._exception = None
        self.fire()

    def set_exception(self, e):
        self._exception = e
        self.fire()

    def fire(self):
        cbs, self.callbacks = self.callbacks, []
        for cb in cbs:
            cb(self)

    def get(self, block=True, timeout=None):
        if not self.ready() and block:
            self.rt.block(self.ready, "zk answer", timeout)
        if not self.ready():
            raise KazooTimeoutError()
        if self._exception is not None:
            raise self._exception
        return self.value

    def get_nowait(self):
        return self.get(block=False)

    def wait(self, timeout=None):
        self.rt.block(self.ready, "zk answer", timeout)
        return self.ready()

    def rawlink(self, cb):
        self.callbacks.append(cb)
        if self.ready():
            self.fire()

    def unlink(self, cb):
        if cb in self.callbacks:
            self.callbacks.remove(cb)


class Handler(object):
    """stands in for kazoo's SequentialThreadingHandler"""
    name = "model"
    timeout_exception = KazooTimeoutError

    def __init__(self):
        self.rt = _server.rt
        self.callbacks = []
        self.running = False
        self.worker = None
        self.index = len(_server.conns)

    def sleep_func(self, seconds):
        self.rt.sleep(seconds)

    def start(self):
        if not self.running:
            self.running = True
            self.rt.start_worker(self)

    def stop(self):
        if self.running:
            self.running = False
            self.rt.stop_worker(self)

    def run_callback(self):
        cb = self.callbacks.pop(0)
        try:
            cb.func(*cb.args)
        except Exception as e:
            _server.callback_errors.append(("callback c%d" % self.index, e))

    def dispatch_callback(self, cb):
        self.callbacks.append(cb)
        self.rt.wake()

    def event_object(self):
        return self.rt.Event()

    def lock_object(self):
        return self.rt.Lock()

    def rlock_object(self):
        return self.rt.RLock()

    def async_result(self):
        return AsyncResult(self)

    def spawn(self, fn, *args, **kw):
        name = getattr(fn, "__name__", "fn")

        def run():
            try:
                fn(*args, **kw)
            except Exception as e:
                _server.callback_errors.append(("thread %s" % name, e))
        return self.rt.spawn(run, "c%d.%s" % (self.index, name))


# -- runtime with threads ------------------------------------------------------------
class Threads(object):
    Event, Lock, RLock = threads.QEvent, threads.QLock, threads.QRLock

    def __init__(self, sched):
        self.s = sched

    def point(self, label):
        self.s.point(label)

    def violated(self, v):
        """whichever thread noticed, the execution ends here"""
        self.s._fail(str(v))

    def block(self, pred, label, timeout=None):
        return self.s.block(pred, label, timeout)

    def sleep(self, seconds):
        self.s.sleep(seconds)

    def wake(self):
        pass

    def whoami(self):
        return self.s.current.name

    def spawn(self, fn, name):
        return self.s.spawn(fn, name)

    def run_conn(self, conn):
        def body():
            gen = conn.routine()
            for pred, label in gen:
                self.s.block(pred, label)
        conn.thread = self.s.spawn(body, conn.name + ".conn")

    def start_worker(self, handler):
        def body():
            while True:
                self.s.block(lambda: handler.callbacks or not handler.running, "watch worker")
                if not handler.callbacks:
                    return
                self.s.point("watch callback")
                handler.run_callback()
        handler.worker = self.s.spawn(body, "c%d.watch" % handler.index)

    def stop_worker(self, handler):
        w, handler.worker = handler.worker, None
        w.join()


# -- runtime without threads -----------------------------------------------------------
class Inline(object):
    """What kazoo's threads would do next are items the explorer picks one by
    one; code that waits runs items until it need not wait any longer."""

    def __init__(self):
        self.queues = {}           # key -> list of fns (each queue is sequential)
        self.order = []
        self.busy = set()
        self.on_wake = None
        self.conns = []
        self.handlers = []
        self.depth = 0
        self.ran = 0
        self.focus = None          # client whose items run first when code waits
        rt = self

        class Event(InlineEvent):
            runtime = rt

        class Lock(InlineLock):
            runtime = rt

        class RLock(InlineLock):
            runtime = rt
            reentrant = True
        self.Event, self.Lock, self.RLock = Event, Lock, RLock

    def point(self, label):
        pass

    def violated(self, v):
        self.server.callback_errors.append(("fault", v))

    def whoami(self):
        return None

    def wake(self):
        if self.on_wake:
            self.on_wake()

    def spawn(self, fn, name):
        self.n = getattr(self, "n", 0) + 1
        item = InlineTask(self, "%s#%d" % (name, self.n), fn)
        self.order.append(item)
        self.wake()
        return item

    def run_conn(self, conn):
        conn.gen = conn.routine()
        conn.cond = None
        self.conns.append(conn)
        self.wake()

    def start_worker(self, handler):
        if handler not in self.handlers:
            self.handlers.append(handler)

    def stop_worker(self, handler):
        while handler.callbacks:
            self._as(handler, handler.run_callback)
        if handler in self.handlers:
            self.handlers.remove(handler)

    def runnable(self):
        """[(label, fn)] in default order"""
        out = []
        for c in self.conns:
            if not c.ended and c not in self.busy and (c.cond is None or c.cond()):
                out.append(("%s.conn" % c.name, lambda c=c: self._conn(c)))
        for h in self.handlers:
            if h.callbacks and h not in self.busy:
                out.append(("c%d.watch" % h.index, lambda h=h: self._as(h, h.run_callback)))
        for t in self.order:
            if t not in self.busy:
                out.append((t.name, lambda t=t: self._task(t)))
        return out

    def _as(self, key, fn):
        self.busy.add(key)
        try:
            fn()
        finally:
            self.busy.discard(key)

    def _conn(self, c):
        def step():
            try:
                c.cond = next(c.gen)[0]
            except StopIteration:
                pass
        self._as(c, step)

    def _task(self, t):
        self.order.remove(t)
        t.fn()
        t.done = True

    def pump(self, only_conn=False):
        """run the first pending item, if any"""
        items = self.runnable()
        if not items:
            return False
        self.ran += 1
        if self.ran > 5000:
            raise Violation("kazoo's threads never come to rest")
        conns = [i for i in items if i[0].endswith(".conn")]
        mine = [i for i in conns or items if i[0].startswith("c%s." % self.focus)]
        if only_conn and not conns:
            return False
        (mine or conns or items)[0][1]()
        return True

    def block(self, pred, label, timeout=None):
        while not pred():
            if not self.pump():
                if timeout is not None:
                    return False
                raise Violation("hang: waits forever for %s" % label)
        return True

    def sleep(self, seconds):
        self.pump(only_conn=True)

    def drain(self):
        while self.pump():
            pass


class InlineTask(object):
    def __init__(self, rt, name, fn):
        self.rt, self.name, self.fn, self.done = rt, name, fn, False

    def join(self, timeout=None):
        self.rt.block(lambda: self.done, "join", timeout)

    def is_alive(self):
        return not self.done


class InlineEvent(object):
    runtime = None

    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        return self.runtime.block(lambda: self.flag, "event", timeout)


class InlineLock(object):
    runtime = None
    reentrant = False

    def __init__(self):
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.count and not self.reentrant:
            if not blocking:
                return False
            if not self.runtime.block(lambda: not self.count, "lock",
                                      None if timeout is None or timeout < 0 else timeout):
                return False
        self.count += 1
        return True

    def release(self):
        self.count -= 1

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


# -- installation -------------------------------------------------------------------------
class _UUID(object):
    n = 0

    @classmethod
    def uuid4(cls):
        cls.n += 1
        return uuid.UUID(int=cls.n)


class OrderedSet(dict):
    """kazoo keeps listeners and watchers in sets of bound methods, whose order
    varies from run to run"""

    def __init__(self, items=()):
        dict.__init__(self, ((i, None) for i in items))

    def add(self, x):
        self[x] = None

    def discard(self, x):
        self.pop(x, None)


def install():
    threads.install()
    kclient.set = OrderedSet
    kclient.SequentialThreadingHandler = Handler
    kclient.ConnectionHandler = Connection
    kazoo.recipe.lock.uuid = _UUID


class ensemble(object):
    """context manager: KazooClients created inside talk to this server"""

    def __init__(self, rt):
        self.rt = rt

    def __enter__(self):
        global _server
        if _server is not None:
            raise HarnessError("nested ensembles")
        _UUID.n = 0
        random.seed(1)
        if isinstance(self.rt, Inline):
            threads._override = {"Event": self.rt.Event, "Lock": self.rt.Lock,
                                 "RLock": self.rt.RLock,
                                 "spawn": self.rt.spawn}
        _server = Server(self.rt)
        return _server

    def __exit__(self, *a):
        global _server
        _server = None
        threads._override = None


def killed_ok(e):
    return isinstance(e, threads.Killed)
