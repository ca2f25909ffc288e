"""P06, P07: one connection, every order, split and death."""
import errno
import itertools

from .. import kspec, shapes, vnet
from ..core import Violation
from .codec import REQ, SinkEnv, build, view, canon

from kiel import exc
from kiel.connection import Connection
import kiel.protocol.request as request_mod


APIS = ["metadata", "fetch", "produce", "offset", "offset_fetch", "offset_commit", "group_coordinator"]


def make_request(api):
    t = kspec.REQUESTS[api]
    return build(t, shapes._Base((1, 1, 1)).make(t), REQ[api])


def response_for(api, n):
    """a response body carrying the marker n"""
    t = kspec.RESPONSES[api]
    b = shapes._Base((1, 1, 1))
    b.n = 100 * (n + 1)
    return b.make(t)


def wire(api, corr, body):
    from .codec import to_wire
    return kspec.encode_response(api, corr, to_wire(kspec.RESPONSES[api], body))


def force_correlation(value):
    """make the next correlation ids start near value; False if we cannot"""
    probe = request_mod.Request.__subclasses__
    before = {k: v for k, v in vars(request_mod).items() if isinstance(v, int)}
    make_request("metadata")
    for k, v in before.items():
        now = getattr(request_mod, k)
        if now != v and not isinstance(v, bool):
            setattr(request_mod, k, value)
            return True
    for k, v in list(vars(request_mod).items()):
        if isinstance(v, itertools.count):
            setattr(request_mod, k, itertools.count(value))
            return True
    return False


class ConnEnv(SinkEnv):
    """one broker that answers outstanding requests in any order, in pieces"""

    def __init__(self, splits, hold):
        SinkEnv.__init__(self)
        self.out = []            # decoded, unanswered requests (index, api, corr)
        self.segments = []       # bytes waiting to arrive
        self.n = 0
        self.splits = splits
        self.hold = hold         # requests still to be sent by the program
        self.window_step = None

    def on_frame(self, peer, frame):
        self.frames.append(frame)
        try:
            d = kspec.decode_request(frame)
        except kspec.SpecError as e:
            raise Violation("bad frame on the wire: %s" % e)
        self.out.append((self.n, d["api"], d["correlation_id"]))
        self.n += 1

    def things(self):
        if self.waiting:
            return [("accept", 0, self.accept)]
        evs = []
        sock = self.peer.sock if self.peer else None
        later = 0
        if sock is not None and sock.window is not None and sock.window <= 0:
            evs.append(("window+", 0, self.open_window))
            later = 1
        if self.segments:
            evs.append(("seg", 0, self.next_segment))
        else:
            for r in self.out:
                evs.append(("answer%d" % r[0], later, lambda r=r: self.answer(r)))
        if self.hold:
            # sending another request is as likely as an answer: free choice
            evs.append(("send", later, self.send_more))
        return evs

    def open_window(self):
        self.peer.sock.window += self.window_step

    def accept(self):
        SinkEnv.accept(self)
        if self.window_step is not None:
            self.peer.sock.window = self.window_step

    def send_more(self):
        fn = self.hold.pop(0)
        fn()
        self.world.woke = True

    def answer(self, r):
        self.out.remove(r)
        n, api, corr = r
        data = wire(api, corr, response_for(api, n))
        ch = self.world.ch
        if self.splits and self.out:
            # a second response may arrive glued to this one
            j = ch.pick(["alone"] + ["glue%d" % o[0] for o in self.out])
            if j:
                o = self.out.pop(j - 1)
                data += wire(o[1], o[2], response_for(o[1], o[0]))
        cuts = []
        for _ in range(self.splits):
            lo = cuts[-1] if cuts else 0
            k = ch.pick(["whole"] + ["cut%d" % i for i in range(lo + 1, len(data))])
            if not k:
                break
            cuts.append(lo + k)
        segs = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        self.segments = segs[1:]
        self.peer.deliver(segs[0])

    def next_segment(self):
        self.peer.deliver(self.segments.pop(0))


def p06_scenario(ch, apis, late, splits, window, wrap):
    env = ConnEnv(splits, [])
    env.window_step = window
    w = vnet.World(env, ch, max_steps=3000)
    reqs = []
    futures = []
    if wrap is not None and not force_correlation(wrap):
        return "no counter found"

    async def main():
        conn = Connection("broker", 9092)
        await conn.connect()

        def send(api):
            r = make_request(api)
            reqs.append((api, r))
            futures.append(conn.send(r))
        for api in apis[:len(apis) - late]:
            send(api)
        for api in apis[len(apis) - late:]:
            env.hold.append(lambda api=api: send(api))
        await env.idle()
        if len(futures) != len(apis):
            raise Violation("not every request was sent")
        ids = [r.correlation_id for _, r in reqs]
        if len(set(ids)) != len(ids):
            raise Violation("correlation ids repeat: %r" % ids)
        if any(not -2 ** 31 <= i < 2 ** 31 for i in ids):
            raise Violation("correlation id outside int32: %r" % ids)
        if env.n != len(apis):
            raise Violation("%d requests reached the broker, %d sent" % (env.n, len(apis)))
        for i, ((api, r), f) in enumerate(zip(reqs, futures)):
            if not f.done():
                raise Violation("request %d (%s) was answered but is still pending" % (i, api))
            if f.exception():
                raise Violation("request %d (%s) was answered but failed: %r" % (i, api, f.exception()))
            obj = f.result()
            want = canon(kspec.RESPONSES[api], response_for(api, i))
            if obj.api != api or view(kspec.RESPONSES[api], obj) != want:
                raise Violation("request %d (%s) was given another response: %r" % (i, api, obj))
            if obj.correlation_id != r.correlation_id:
                raise Violation("response carries correlation id %r for request %r" % (
                    obj.correlation_id, r.correlation_id))
        return [l for l in w.trace if l.startswith("answer")]
    return w.run(main)


def p06(ctx):
    ctx.rule("1-4 outstanding requests of mixed APIs, some sent while others are outstanding: every "
             "answer order, every single split (bound 1; 2 splits at bound 2) of every response at every byte, glued "
             "responses, short writes; correlation counter started just below 2^31.")
    ctx.assume("one TCP stream per connection: bytes are neither reordered nor duplicated")
    q = not ctx.thorough
    three = [["metadata", "fetch", "produce"], ["fetch", "fetch", "fetch"],
             ["offset", "offset_commit", "offset_fetch"], ["group_coordinator", "metadata", "metadata"]]
    for apis in three:
        for late in (0, 1, 2):
            ctx.explore("orders-%s-%d" % ("+".join(apis), late), p06_scenario, 1 if q else 2, apis=apis, late=late,
                        splits=1 if q else 2, window=None, wrap=None)
    four = ["fetch", "metadata", "offset", "fetch"]
    ctx.explore("orders4", p06_scenario, 0 if q else 1, apis=four, late=2, splits=1, window=None, wrap=None)
    ctx.explore("orders5", p06_scenario, 0, apis=four + ["produce"], late=1, splits=0, window=None, wrap=None)
    for api in APIS:
        ctx.explore("split2-%s" % api, p06_scenario, 2, apis=[api], late=0, splits=2, window=None, wrap=None)
    for win in (3, 7, 30):
        ctx.explore("window%d" % win, p06_scenario, 2, apis=["metadata", "fetch", "produce"], late=1,
                    splits=0, window=win, wrap=None)
    for wrap in (2 ** 31 - 3, 2 ** 31 - 2, 2 ** 31 - 1):
        ctx.explore("wrap%d" % wrap, p06_scenario, 0, apis=["fetch", "metadata", "fetch"], late=0,
                    splits=0, window=None, wrap=wrap)


# ---------------------------------------------------------------------------

def _tail(api):
    """bytes at the end of a fetch response that form its last message set (a
    set cut short is legal there, so cuts must fall before it)"""
    if api != "fetch":
        return 0
    return len(wire("fetch", 0, response_for("fetch", 0))) - len(wire("fetch", 0, {
        "topics": [{"name": "s101", "partitions": [{"partition_id": 1, "error_code": 1,
                    "highwater_mark_offset": 1, "message_set": []}]}]})) + 4


def _cut(api, corr, n, fraction):
    full = wire(api, corr, response_for(api, n))
    body = len(full) - 8 - _tail(api)
    return reframe(full[:8 + int(body * fraction) - (1 if fraction == 1 else 0)])


GARBAGE = {
    "short-payload": lambda api, corr, n: _cut(api, corr, n, 1),
    "half-payload": lambda api, corr, n: _cut(api, corr, n, 0.5),
    "empty-payload": lambda api, corr, n: reframe(wire(api, corr, response_for(api, n))[:8]),
    # an array (or, in a coordinator response, a host name) longer than the frame
    "huge-array": lambda api, corr, n: reframe(
        wire(api, corr, response_for(api, n))[:8] +
        (b"\x00" * 6 + b"\x7f\xff" if api == "group_coordinator" else b"\x7f\xff\xff\xff") + b"\x00" * 20),
    "size-min": lambda api, corr, n: resize(wire(api, corr, response_for(api, n)), -2 ** 31),
    "size-minus-1": lambda api, corr, n: resize(wire(api, corr, response_for(api, n)), -1),
    "size-0": lambda api, corr, n: resize(wire(api, corr, response_for(api, n)), 0),
    "size-3": lambda api, corr, n: resize(wire(api, corr, response_for(api, n)), 3),
    "size-4": lambda api, corr, n: resize(wire(api, corr, response_for(api, n)), 4),
    "size-5": lambda api, corr, n: resize(wire(api, corr, response_for(api, n)), 5),
    "bad-corr": lambda api, corr, n: wire(api, corr ^ 0x40000000, response_for(api, n)),
}


def reframe(data):
    return (len(data) - 4).to_bytes(4, "big") + data[4:]


def resize(data, size):
    return size.to_bytes(4, "big", signed=True) + data[4:]


def p07_scenario(ch, apis, answered, kind):
    """apis: outstanding requests; the first `answered` are answered before."""
    env = SinkEnv()
    w = vnet.World(env, ch, max_steps=3000)

    async def main():
        conn = Connection("broker", 9092)
        await conn.connect()
        done = {}
        reqs, futures = [], []

        def send(api):
            r = make_request(api)
            i = len(reqs)
            reqs.append((api, r))
            f = conn.send(r)
            futures.append(f)
            f.add_done_callback(lambda _: done.__setitem__(i, done.get(i, 0) + 1))
            return f

        sock = w.all_socks[-1]
        if kind.startswith("window"):
            sock.window = ch.pick(["w%d" % i for i in (0, 1, 5, 20)], [0] * 4)
            sock.window = (0, 1, 5, 20)[sock.window]
            env.on_frame = lambda peer, frame: env.frames.append(frame)
        if kind == "write-error":
            at = ch.pick(["send%d" % i for i in range(len(apis))], [0] * len(apis))
            code = (errno.EPIPE, errno.ECONNRESET, errno.EBADF)[ch.pick(["EPIPE", "RESET", "EBADF"], [0] * 3)]
        for i, api in enumerate(apis):
            if kind == "write-error" and i == at:
                sock.write_errno = code
            send(api)
        for i in range(answered):
            env.peer.deliver(wire(apis[i], reqs[i][1].correlation_id, response_for(apis[i], i)))
            await env.idle()
            if not futures[i].done() and kind not in ("write-error",):
                raise Violation("answered request %d is still pending" % i)
        before = {i for i in range(len(apis)) if futures[i].done() and not futures[i].exception()}
        nxt = answered
        together = set()
        if kind in ("fin", "rst"):
            data = b""
            if nxt < len(apis):
                full = wire(apis[nxt], reqs[nxt][1].correlation_id, response_for(apis[nxt], nxt))
                k = ch.pick(["%d bytes first" % i for i in range(len(full) + 1)], [0] * (len(full) + 1))
                data = full[:k]
                if k == len(full):
                    together.add(nxt)
            glued = ch.pick(["then", "at once"], [0, 0])
            env.peer.deliver(data)
            if not glued:
                await env.idle()
                if together:
                    before |= together
            env.peer.fin() if kind == "fin" else env.peer.reset()
        elif kind == "client-close":
            if nxt < len(apis):
                full = wire(apis[nxt], reqs[nxt][1].correlation_id, response_for(apis[nxt], nxt))
                k = ch.pick(["%d bytes first" % i for i in range(len(full))], [0] * len(full))
                env.peer.deliver(full[:k])
                if ch.pick(["wait", "at once"], [0, 0]) == 0:
                    await env.idle()
            conn.close()
            if ch.pick(["once", "twice"], [0, 0]):
                conn.close()
        elif kind.startswith("garbage"):
            g = sorted(GARBAGE)[ch.pick(sorted(GARBAGE), [0] * len(GARBAGE))]
            if nxt >= len(apis):
                return "nothing outstanding"
            api, r = reqs[nxt]
            data = GARBAGE[g](api, r.correlation_id, nxt)
            if kind == "garbage-then-good" and nxt + 1 < len(apis):
                a2, r2 = reqs[nxt + 1]
                data += wire(a2, r2.correlation_id, response_for(a2, nxt + 1))
                together.add(nxt + 1)
            if kind == "garbage-split":
                k = ch.pick(["cut%d" % i for i in range(1, len(data))], [0] * (len(data) - 1))
                env.peer.deliver(data[:k + 1])
                await env.idle()
                env.peer.deliver(data[k + 1:])
            else:
                env.peer.deliver(data)
        elif kind == "again":          # an already answered correlation id
            if not answered:
                return "nothing answered"
            api, r = reqs[0]
            env.peer.deliver(wire(api, r.correlation_id, response_for(api, 0)))
        elif kind == "window-rst":
            env.peer.reset()
        elif kind == "window-fin":
            env.peer.fin()
        elif kind == "window-error":
            sock.write_errno = errno.EPIPE
        await env.idle()
        left = [i for i, f in enumerate(futures) if not f.done()]
        if left:
            raise Violation("connection died (%s) but requests %r are still pending" % (kind, left))
        for i, f in enumerate(futures):
            if done.get(i) != 1:
                raise Violation("request %d completed %r times" % (i, done.get(i)))
            e = f.exception()
            if e is None:
                if i not in before and i not in together:
                    raise Violation("request %d succeeded although it was never answered" % i)
                api = apis[i]
                if view(kspec.RESPONSES[api], f.result()) != canon(kspec.RESPONSES[api], response_for(api, i)):
                    raise Violation("request %d got a wrong result" % i)
            elif i in before:
                raise Violation("request %d lost the result it already had" % i)
            elif not isinstance(e, Exception):
                raise Violation("request %d failed with %r" % (i, e))
        frames = len(env.frames)
        sent = sum(len(b) for b in env.frames) + len(env.peer.buf)
        for api in ("metadata", "fetch"):
            try:
                f = conn.send(make_request(api))
            except Exception as e:
                raise Violation("send on a dead connection raised %r" % (e,))
            if not f.done():
                raise Violation("send on a dead connection does not fail at once")
            e = f.exception()
            if not isinstance(e, exc.BrokerConnectionError):
                raise Violation("send on a dead connection failed with %r" % (e,))
            if (e.host, e.port) != ("broker", 9092):
                raise Violation("the error names %s:%s" % (e.host, e.port))
        await env.idle()
        if len(env.frames) != frames or sum(len(b) for b in env.frames) + len(env.peer.buf) != sent:
            raise Violation("bytes were written after the connection died")
        if sock.state != "closed":
            raise Violation("the socket of the dead connection is never closed")
        if kind == "client-close":
            conn.close()
        return [type(f.exception()).__name__ for f in futures]

    return w.run(main)


def corrupt_scenario(ch, api, values):
    """one byte of the payload is not what it should be"""
    env = SinkEnv()
    w = vnet.World(env, ch, max_steps=3000)

    async def main():
        conn = Connection("broker", 9092)
        await conn.connect()
        first, second = make_request(api), make_request("metadata")
        f, g = conn.send(first), conn.send(second)
        sock = w.all_socks[-1]
        await env.idle()
        data = bytearray(wire(api, first.correlation_id, response_for(api, 0)))
        at = ch.pick(["byte%d" % i for i in range(8, len(data))], [0] * (len(data) - 8)) + 8
        v = ch.pick(["=%d" % v for v in values], [0] * len(values))
        data[at] = values[v] if values[v] >= 0 else data[at] ^ -values[v]
        env.peer.deliver(bytes(data))
        await env.idle()
        if not f.done():
            raise Violation("the request is still pending after its response came in")
        if f.exception() is not None and sock.state != "closed":
            raise Violation("the response can't be decoded (%r), but the connection is kept" % f.exception())
        if sock.state != "closed":
            if g.done():
                raise Violation("the other request is done (%r) before it was answered" % g)
            env.peer.deliver(wire("metadata", second.correlation_id, response_for("metadata", 1)))
            await env.idle()
            if not g.done():
                raise Violation("the other request is still pending after its response came in")
            if g.exception() is None and view(kspec.RESPONSES["metadata"], g.result()) != canon(
                    kspec.RESPONSES["metadata"], response_for("metadata", 1)):
                raise Violation("the other request got a wrong result")
        if not g.done() or sock.state == "closed" and g.exception() is None:
            raise Violation("the connection died, but the other request: %r" % g)
        h = conn.send(make_request("fetch"))
        if h.done() != (sock.state == "closed"):
            raise Violation("a later send: %r, the socket is %s" % (h, sock.state))
        return f.exception() is None, g.exception() is None
    return w.run(main)


def p07(ctx):
    ctx.rule("0-3 outstanding requests of mixed APIs (0..n answered before): FIN or RST after every byte of the next "
             "response, undecodable/unmatched frames and frames of nonsensical size (whole, split, followed by good ones), "
             "duplicate answers, local close, write errors at every send, errors while the send buffer "
             "is full; every byte of a response of each API replaced by 6 (12) other values. Every combination is executed.")
    q = not ctx.thorough
    for api in APIS:
        ctx.explore("corrupt-%s" % api, corrupt_scenario, 0, api=api,
                    values=(0, 0xff, 0x7f, 0x80, -1, -64) if q else (0, 0xff, 0x7f, 0x80, -1, -2, -4, -8, -16, -32, -64, -128))
    combos = [["metadata"], ["metadata", "fetch"], ["fetch", "produce", "offset"]]
    combos += [["offset_fetch", "offset_commit"], ["group_coordinator", "fetch", "fetch", "metadata"]]
    if not q:
        combos += [["produce"] * 6]
    kinds = ["fin", "rst", "client-close", "garbage", "garbage-then-good", "garbage-split", "again",
             "write-error", "window-rst", "window-fin", "window-error"]
    for kind in kinds:
        for apis in [[]] + combos:
            if not apis and kind not in ("fin", "rst", "client-close"):
                continue
            for answered in range(len(apis) + 1):
                if kind.startswith("window") or kind == "write-error":
                    if answered:
                        continue
                ctx.explore("%s-%s-%d" % (kind, "+".join(apis), answered), p07_scenario, 0,
                            apis=apis, answered=answered, kind=kind)
    for api in APIS:
        ctx.explore("garbage-all-%s" % api, p07_scenario, 0, apis=[api, "metadata"], answered=0, kind="garbage")
