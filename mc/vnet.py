"""A virtual network and a controlled asyncio loop.

The real tornado IOStream / IOLoop / asyncio code runs unchanged on top of
virtual non-blocking sockets and a selector which, whenever the program is
quiescent, asks the environment which single event happens next.  All
nondeterminism of a networked single-threaded program (what arrives when, how
it is split, who fails) is therefore a choice of the explorer.
"""
import asyncio
import contextvars
import errno
import selectors
import signal
import socket as real_socket
import struct

from tornado import ioloop

from .core import Violation, HarnessError, CpuHang, _on_cpu

_REAL_SOCKET = real_socket.socket
_current = None          # the World whose program is running
owner = contextvars.ContextVar("owner", default=None)     # whose sockets are opened


class VSocket(object):
    """The client end of a virtual TCP connection."""

    def __init__(self, family=real_socket.AF_INET, type=real_socket.SOCK_STREAM,
                 proto=0, fileno=None):
        w = _current
        if w is None:
            raise HarnessError("virtual socket outside an execution")
        self.world = w
        self.family, self.type, self.proto = family, type, proto
        self.fd = w.new_fd()
        w.socks[self.fd] = self
        w.all_socks.append(self)
        self.index = len(w.all_socks)
        self.addr = None
        self.owner = owner.get()
        self.state = "new"          # new connecting open closed
        self.err = 0
        self.inbuf = bytearray()
        self.eof = False
        self.rst = False
        self.window = None          # bytes the kernel still accepts (None: any)
        self.peer = None
        self.write_errno = 0        # next send fails with this

    # -- api used by IOStream ------------------------------------------------
    def fileno(self):
        return self.fd if self.state != "closed" else -1

    def setblocking(self, flag):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, level, opt, *a):
        if opt == real_socket.SO_ERROR:
            e, self.err = self.err, 0
            return e
        return 0

    def getpeername(self):
        return self.addr

    def getsockname(self):
        return ("client", 40000 + self.fd)

    def connect(self, addr):
        if self.state != "new":
            raise OSError(errno.EISCONN, "already connected")
        host, port = addr[0], addr[1]
        if isinstance(host, bytes):
            host = host.decode()
        if not isinstance(host, str) or not isinstance(port, int) or not 0 < port < 65536:
            raise OSError(errno.EINVAL, "bad address %r" % (addr,))
        self.addr = (host, port)
        self.state = "connecting"
        self.world.guarded(self.world.env.on_connect, self)
        raise BlockingIOError(errno.EINPROGRESS, "in progress")

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno
        return 0

    def send(self, data, flags=0):
        data = bytes(data)
        if self.state != "open":
            raise OSError(errno.ENOTCONN if self.state != "closed" else errno.EBADF, "not connected")
        if self.write_errno:
            raise OSError(self.write_errno, "write failed")
        if self.rst:
            raise ConnectionResetError(errno.ECONNRESET, "reset")
        if self.window is not None:
            if self.window <= 0:
                raise BlockingIOError(errno.EAGAIN, "full")
            data = data[:self.window]
            self.window -= len(data)
        if data:
            self.world.guarded(self.peer.on_bytes, data)
        return len(data)

    def recv_into(self, buf, nbytes=0, flags=0):
        n = nbytes or len(buf)
        if self.state == "closed":
            raise OSError(errno.EBADF, "closed")
        if self.inbuf:
            chunk = self.inbuf[:n]
            buf[:len(chunk)] = chunk
            del self.inbuf[:len(chunk)]
            return len(chunk)
        if self.rst:
            raise ConnectionResetError(errno.ECONNRESET, "reset")
        if self.eof:
            return 0
        raise BlockingIOError(errno.EAGAIN, "empty")

    def recv(self, n, flags=0):
        b = bytearray(n)
        got = self.recv_into(b, n)
        return bytes(b[:got])

    def shutdown(self, how):
        pass

    def close(self):
        if self.state == "closed":
            return
        was = self.state
        self.state = "closed"
        self.world.socks.pop(self.fd, None)
        if was != "new":
            self.world.guarded(self.world.env.on_client_close, self)

    detach = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- readiness -------------------------------------------------------------
    def readable(self):
        return self.state == "open" and bool(self.inbuf or self.eof or self.rst)

    def writable(self):
        if self.state == "connecting":
            return bool(self.err)
        return self.state == "open" and (
            self.window is None or self.window > 0 or self.rst or bool(self.write_errno))


class VSelector(selectors._BaseSelectorImpl):
    def __init__(self, world):
        super().__init__()
        self.world = world

    def poll(self):
        out = []
        for key in list(self._fd_to_key.values()):
            sock = self.world.socks.get(key.fd)
            if sock is None:
                continue
            ev = 0
            if key.events & selectors.EVENT_READ and (sock.readable() or sock.err):
                ev |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and sock.writable():
                ev |= selectors.EVENT_WRITE
            if ev:
                out.append((key, ev))
        return out

    def select(self, timeout=None):
        w = self.world
        w.polls += 1
        if timeout is not None and timeout <= 0:
            if w.mid_steps:
                w.mid_step()
            return self.poll()
        ready = self.poll()
        if ready:
            return ready
        while True:
            w.woke = False
            if w.step():
                ready = self.poll()
                if ready or w.woke:
                    return ready
            elif timeout is not None:
                w.now += timeout + 1e-6
                w.timer_jumps += 1
                if w.timer_jumps > 2000:
                    w.fatal("timers fire forever without progress")
                return []
            else:
                w.on_stuck()
                return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, world):
        self.world = world
        super().__init__(VSelector(world))

    def _make_self_pipe(self):
        self._ssock = self._csock = None

    def _close_self_pipe(self):
        self._ssock = self._csock = None

    def _write_to_self(self):
        pass

    def time(self):
        return self.world.now


class World(object):
    """One execution: a program (coroutines) against an environment (env).

    env provides:
       events(world) -> list of (label, cost, fn) in canonical order; entry 0
                        is the default (cost 0)
       on_connect(sock), on_client_close(sock)
    """

    def __init__(self, env, chooser, max_steps=600, cpu_limit=20.0, mid_steps=False):
        self.env = env
        self.ch = chooser
        self.now = 1000.0
        self.socks = {}
        self.all_socks = []
        self._fd = 1000
        self.steps = 0
        self.max_steps = max_steps
        self.cpu_limit = cpu_limit
        self.mid_steps = mid_steps
        self.woke = False
        self.stuck = False
        self.polls = 0
        self.timer_jumps = 0
        self.fatal_msg = None
        self.verdict = None
        self.tasks = []
        self.loop_errors = []
        self.trace = []
        env.world = self

    def new_fd(self):
        self._fd += 1
        return self._fd

    # -- stepping ---------------------------------------------------------------
    def fatal(self, msg):
        self.fatal_msg = msg
        self.loop.stop()

    def guarded(self, fn, *args):
        """Calls into the environment from the program's own stack: what they
        find must not be caught by the program's error handling."""
        if self.verdict is None:
            try:
                return fn(*args)
            except (Violation, HarnessError) as e:
                self.broken(e)

    def broken(self, e):
        if self.verdict is None:
            self.verdict = e
            self.fatal(str(e))

    def on_stuck(self):
        self.stuck = True
        self.loop.stop()

    def log(self, what):
        self.trace.append(what)

    def step(self):
        if self.fatal_msg:
            self.loop.stop()
            self.woke = True
            return True
        evs = self.env.events()
        if not evs:
            return False
        self.steps += 1
        if self.steps > self.max_steps:
            self.fatal("no progress: more than %d environment steps" % self.max_steps)
            self.woke = True
            return True
        i = self.ch.choose(evs) if len(evs) > 1 else 0
        self.trace.append(evs[i][0])
        evs[i][2]()
        self.env.fingerprint(self.ch)
        return True

    def mid_step(self):
        """An event may arrive before the program is quiescent (cost >= 1)."""
        if self.fatal_msg:
            return
        evs = self.env.events()
        if not evs:
            return
        opts = [("-", 0, None)] + [
            ("early:" + e[0], max(1, e[1]), e[2]) for e in evs]
        i = self.ch.choose(opts)
        if i:
            self.steps += 1
            self.trace.append(opts[i][0])
            opts[i][2]()

    # -- running -----------------------------------------------------------------
    def spawn(self, coro):
        """start a user coroutine (callable from env events)"""
        t = self.loop.create_task(coro)
        self.tasks.append(t)
        self.woke = True
        return t

    def run(self, main):
        """Run coroutine function main() to completion.  Raises Violation on
        hang/livelock.  Returns its result."""
        global _current
        if _current is not None:
            raise HarnessError("nested worlds")
        self.loop = loop = VLoop(self)

        def on_error(loop, context):
            self.loop_errors.append(
                repr(context.get("exception")) + " " + str(context.get("message")))

        loop.set_exception_handler(on_error)

        old = signal.signal(signal.SIGPROF, _on_cpu)
        signal.setitimer(signal.ITIMER_PROF, self.cpu_limit)
        _current = self
        real_socket.socket = VSocket
        try:
            asyncio.set_event_loop(loop)
            task = loop.create_task(main())
            self.tasks.append(task)
            task.add_done_callback(lambda _: loop.stop())
            try:
                loop.run_forever()
            except CpuHang:
                raise Violation("the program spins forever without waiting for anything")
            signal.setitimer(signal.ITIMER_PROF, 0)
            if self.verdict is not None:
                raise self.verdict
            if self.fatal_msg:
                raise Violation(self.fatal_msg)
            if not task.done():
                raise Violation(
                    "hang: nothing left to happen, but still waiting in: %s" % self.waiting())
            return task.result()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
            try:
                for t in self.tasks:
                    if not t.done():
                        t._log_destroy_pending = False
                        t.cancel()
                loop._ready.clear()
                io = ioloop.IOLoop._ioloop_for_asyncio.pop(loop, None)
                if io is not None:
                    io.handlers.clear()
                loop.close()
            finally:
                asyncio.set_event_loop(None)
                real_socket.socket = _REAL_SOCKET
                _current = None

    def settle(self):
        """coroutine: returns once the program is quiescent with no default
        environment event left (used between script phases)."""
        raise NotImplementedError

    def waiting(self):
        return getattr(self.env, "doing", "?")


class Env(object):
    """Base environment: nothing happens; supports waiting for quiescence."""
    world = None

    def __init__(self):
        self.idlers = []

    def on_connect(self, sock):
        raise NotImplementedError

    def on_client_close(self, sock):
        pass

    def things(self):
        """pending environment events in default order"""
        return []

    def events(self):
        evs = self.things()
        if not evs and self.idlers:
            return [("idle", 0, self._wake)]
        return evs

    def _wake(self):
        ws, self.idlers = self.idlers, []
        for f in ws:
            if not f.done():
                f.set_result(None)
        self.world.woke = True

    def idle(self):
        """future done once nothing is left to happen"""
        f = self.world.loop.create_future()
        self.idlers.append(f)
        return f

    def fingerprint(self, ch):
        pass


class Peer(object):
    """The broker end of one connection: frames in, response bytes out."""

    def __init__(self, env, sock, node):
        self.env = env
        self.sock = sock
        sock.peer = self
        self.node = node
        self.buf = bytearray()
        self.pending = []           # undelivered segments [(label, bytes)]
        self.requests = []          # unanswered frames
        self.closed = False         # closed by either side
        self.frames = 0

    def on_bytes(self, data):
        if self.closed:
            return
        self.buf += data
        while len(self.buf) >= 4:
            n = struct.unpack(">i", bytes(self.buf[:4]))[0]
            if n < 0 or n > 1 << 28:
                raise Violation("request frame with size %d" % n)
            if len(self.buf) < 4 + n:
                break
            frame = bytes(self.buf[4:4 + n])
            del self.buf[:4 + n]
            self.frames += 1
            self.env.on_frame(self, frame)

    def deliver(self, data):
        if self.sock.state == "open":
            self.sock.inbuf += data

    def fin(self):
        self.closed = True
        self.requests = []
        self.pending = []
        self.sock.eof = True

    def reset(self):
        self.closed = True
        self.requests = []
        self.pending = []
        self.sock.rst = True
