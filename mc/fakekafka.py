"""A small Kafka cluster as the environment of one execution.

Every pending connect, request and response segment is a "thing"; the explorer
picks which one happens next (default: oldest first) and, for a connect or a
request, how the broker behaves (default: correctly).
"""
import random
import zlib

from . import kspec, vnet
from .core import Violation, HarnessError

NO_LEADER = -1


def name(b):
    return b.decode("utf-8") if isinstance(b, bytes) else b


class Entry(object):
    """one top-level entry of a partition log"""
    __slots__ = ("raw", "msgs", "first", "last")

    def __init__(self, codec, msgs):
        self.msgs = msgs
        self.first, self.last = msgs[0][0], msgs[-1][0]
        if codec:
            off, m = kspec.compressed_entry(codec, msgs)
        else:
            off, k, v = msgs[0]
            m = kspec.encode_message(k, v)
        self.raw = kspec.encode_entry(off, m)


class Log(object):
    def __init__(self, start=0):
        self.start = start
        self.entries = []
        self.end = start

    def append(self, kvs, codec=0):
        first = self.end
        msgs = [(self.end + i, k, v) for i, (k, v) in enumerate(kvs)]
        self.end += len(msgs)
        if codec:
            self.entries.append(Entry(codec, msgs))
        else:
            for m in msgs:
                self.entries.append(Entry(0, [m]))
        return first

    def messages(self):
        return [m for e in self.entries for m in e.msgs if m[0] >= self.start]

    def values(self, start=0, end=None):
        return [v for o, k, v in self.messages() if o >= start and (end is None or o < end)]

    def read(self, offset, max_bytes):
        raw = b"".join(e.raw for e in self.entries if e.last >= offset)
        return raw[:max(0, max_bytes)]

    def truncate_to(self, start):
        self.start = start
        self.entries = [e for e in self.entries if e.last >= start]


class Kafka(vnet.Env):
    def __init__(self, brokers=(1, 2), topics=None, coordinator=1):
        vnet.Env.__init__(self)
        random.seed(7)
        self.addr = {b: ("k%d" % b, 9092) for b in brokers}
        self.up = set(brokers)
        self.leader = {}
        self.logs = {}
        self.topic_error = {}          # topic-level metadata error
        self.part_error = {}           # (t, p) -> metadata error code
        for t, parts in (topics or {}).items():
            for p, l in parts.items():
                self.leader[(t, p)] = l
                self.logs[(t, p)] = Log()
        self.coordinator = coordinator
        self.committed = {}
        self.metadata_limit = 4096
        self.listed = None             # broker ids in metadata (None: those up)
        self.queue = []
        self.peers = []                # every Peer ever accepted
        self.hist = []                 # what the brokers saw, in order
        self.actions = []              # [label, fn, guard]: optional events
        self.recovery = []             # events that happen once all is quiet
        self.menu_fn = None            # (env, peer, req) -> [(label, cost, fn)]
        self.connect_menu = None       # (env, sock, node) -> [(label, cost, fn)]
        self.reorder_cost = 1
        self.op_cost = 1
        self.ops = []                  # [label, corofn]
        self.running = []              # (label, task)
        self.op_waiter = None
        self.on_event = None
        self.doing = "start"
        self.segment_gap = False
        self.time_offsets = {}         # (t, p, time) -> offset
        self.refused = []
        self.connects = []

    # -- cluster state ---------------------------------------------------------
    def node_at(self, addr):
        for b, a in self.addr.items():
            if a == addr:
                return b
        return None

    def partitions(self, topic):
        return sorted(p for t, p in self.leader if t == topic)

    def topics(self):
        return sorted({t for t, _ in self.leader})

    def live_peers(self, node=None):
        return [p for p in self.peers if p.sock.state == "open" and not p.closed
                and (node is None or p.node == node)]

    def crash(self, node, how="reset", failover=True):
        self.up.discard(node)
        for p in self.live_peers(node):
            self.drop(p, how)
        if failover and self.up:
            new = min(self.up)
            for k, l in self.leader.items():
                if l == node:
                    self.leader[k] = new
            if self.coordinator == node:
                self.coordinator = new

    def restart(self, node):
        self.up.add(node)

    def drop(self, peer, how="reset"):
        self.queue = [q for q in self.queue if q[1] is not peer]
        if how == "reset":
            peer.reset()
        else:
            peer.fin()

    def move_leader(self, t, p, to):
        self.leader[(t, p)] = to

    # -- events -------------------------------------------------------------------
    def on_connect(self, sock):
        self.connects.append(sock.addr)
        self.queue.append(("connect", sock))

    def on_client_close(self, sock):
        self.queue = [q for q in self.queue
                      if not (q[1] is sock or getattr(q[1], "sock", None) is sock)]
        if sock.peer is not None:
            sock.peer.closed = True

    def on_frame(self, peer, frame):
        try:
            req = kspec.decode_request(frame)
        except kspec.SpecError as e:
            raise Violation("a broker cannot read a request: %s" % e)
        if req["api_version"] != 0:
            raise Violation("request with version %d" % req["api_version"])
        if self.on_event:
            self.on_event("request", peer, req)
        self.queue.append(("req", peer, req))

    def label(self, item):
        if item[0] == "connect":
            return "connect %s:%s#%d" % (item[1].addr + (item[1].index,))
        if item[0] == "req":
            return "%s@%s#%d" % (item[2]["api"], item[1].node, item[1].sock.index)
        return "seg@%s#%d" % (item[1].node, item[1].sock.index)

    def things(self):
        evs = []
        seen = set()
        for item in self.queue:
            if id(item[1]) in seen:
                continue
            seen.add(id(item[1]))
            evs.append((self.label(item), self.reorder_cost if evs else 0,
                        lambda item=item: self.handle(item)))
        if self.recovery and not evs:
            lab, fn = self.recovery[0]
            evs.append((lab, 0, lambda: (self.recovery.pop(0), fn())))
        if self.ops and (not evs or self.op_cost is not None):
            if not (self.idlers and not evs):
                evs.append(("start " + self.ops[0][0], self.op_cost if evs else 0, self.start_op))
        return evs

    def events(self):
        evs = vnet.Env.events(self)
        if evs:
            for a in self.actions:
                if a[2] is None or a[2]():
                    evs.append((a[0], 1, lambda a=a: self.act(a)))
        return evs

    def act(self, a):
        self.actions.remove(a)
        a[1]()

    def action(self, label, fn, guard=None):
        self.actions.append([label, fn, guard])

    def handle(self, item):
        self.queue.remove(item)
        if item[0] == "connect":
            self.do_connect(item[1])
        elif item[0] == "req":
            self.do_request(item[1], item[2])
        else:
            item[1].deliver(item[2])

    # -- user operations ------------------------------------------------------------
    def op(self, label, corofn):
        self.ops.append((label, corofn))

    def start_op(self):
        label, corofn = self.ops.pop(0)
        self.doing = label

        async def run():
            return await corofn()
        t = self.world.spawn(run())
        self.running.append((label, t))

        def done(_):
            self.check_ops()
        t.add_done_callback(done)

    def check_ops(self):
        w = self.op_waiter
        if w is not None and not w.done() and not self.ops and all(t.done() for _, t in self.running):
            w.set_result(None)

    async def run_ops(self):
        """run every op; returns [(label, result or exception)]"""
        self.op_waiter = self.world.loop.create_future()
        if self.ops:
            if self.idlers:
                raise HarnessError("run_ops while waiting for idle")
            self.world.woke = True
            await self.op_waiter
        out = []
        for label, t in self.running:
            e = t.exception()
            out.append((label, e if e is not None else t.result()))
        self.running = []
        return out

    # -- connects ----------------------------------------------------------------------
    def do_connect(self, sock):
        node = self.node_at(sock.addr)
        if node is None or node not in self.up:
            return self.refuse(sock)
        opts = [("accept", 0, self.accept)]
        if self.connect_menu:
            opts += self.connect_menu(self, sock, node)
        i = self.world.ch.choose(opts) if len(opts) > 1 else 0
        opts[i][2](sock)

    def accept(self, sock):
        peer = vnet.Peer(self, sock, self.node_at(sock.addr))
        sock.state = "open"
        self.peers.append(peer)
        return peer

    def accept_fin(self, sock):
        self.drop(self.accept(sock), "fin")

    def refuse(self, sock):
        self.refused.append(sock.addr)
        sock.err = 111
        # the connect completes with an error

    # -- requests ----------------------------------------------------------------------
    def do_request(self, peer, req):
        opts = [("ok", 0, lambda: self.answer(peer, req))]
        if self.menu_fn:
            opts += self.menu_fn(self, peer, req)
        i = self.world.ch.choose(opts) if len(opts) > 1 else 0
        if i:
            self.world.log("%s -> %s" % (self.label(("req", peer, req)), opts[i][0]))
        opts[i][2]()

    def answer(self, peer, req, errs=None, **kw):
        body = self.process(peer, req, errs or {}, **kw)
        self.send(peer, req, body)

    def send(self, peer, req, body):
        peer.deliver(kspec.encode_response(req["api"], req["correlation_id"], body))

    def process(self, peer, req, errs, **kw):
        fn = getattr(self, "do_" + req["api"])
        return fn(peer.node, req["body"], errs, **kw)

    # faults --------------------------------------------------------------------------
    def fault_close(self, peer, req, processed, how):
        if processed:
            self.process(peer, req, {})
        self.drop(peer, how)

    def fault_cut(self, peer, req, k, how):
        body = self.process(peer, req, {})
        data = kspec.encode_response(req["api"], req["correlation_id"], body)
        peer.deliver(data[:k if k >= 0 else len(data) + k])
        self.drop(peer, how)

    def fault_garbage(self, peer, req):
        body = req["correlation_id"].to_bytes(4, "big", signed=True) + b"\x7f\xff\xff\xff\x00"
        if req["api"] == "group_coordinator":
            body = req["correlation_id"].to_bytes(4, "big", signed=True) + b"\x00"
        peer.deliver(len(body).to_bytes(4, "big") + body)

    def fault_unmatched(self, peer, req):
        body = self.process(peer, req, {})
        peer.deliver(kspec.encode_response(req["api"], req["correlation_id"] ^ 0x20000000, body))

    # -- apis ---------------------------------------------------------------------------
    def do_metadata(self, node, body, errs):
        asked = [name(t) for t in body["topics"]]
        listed = sorted(self.up if self.listed is None else self.listed)
        topics = []
        for t in asked or sorted(set(self.topics()) | set(self.topic_error)):
            code = self.topic_error.get(t, 0)
            parts = self.partitions(t)
            if not code and not parts:
                code = 3
            ps = []
            if not code:
                for p in parts:
                    l = self.leader[(t, p)]
                    e = self.part_error.get((t, p), 0)
                    if e == 5 or l is None or l not in self.addr:
                        e, l = 5, NO_LEADER
                    e = errs.get((t, p), e)
                    if e == 5:
                        l = NO_LEADER
                    ps.append({"error_code": e, "partition_id": p, "leader": l,
                               "replicas": [b for b in sorted(self.addr)], "isrs": listed})
            topics.append({"error_code": code, "name": t, "partitions": ps})
        out = {"brokers": [{"broker_id": b, "host": self.addr[b][0], "port": self.addr[b][1]}
                           for b in listed], "topics": topics}
        self.hist.append(("metadata", node, tuple(asked)))
        self.last_metadata = out
        return out

    def each(self, body):
        for t in body["topics"]:
            for p in t["partitions"]:
                yield name(t["name"]), (p if isinstance(p, int) else p["partition_id"]), p

    def shaped(self, body, fn):
        return {"topics": [
            {"name": name(t["name"]), "partitions": [
                fn(name(t["name"]), p if isinstance(p, int) else p["partition_id"], p)
                for p in t["partitions"]]}
            for t in body["topics"]]}

    def base_error(self, node, t, p):
        if (t, p) not in self.leader:
            return 3
        if self.leader[(t, p)] != node:
            return 6
        return 0

    APPENDED = (7, 20)       # error codes a broker may give after appending

    def do_produce(self, node, body, errs):
        self.hist.append(("produce-req", node, tuple(
            (t, p) for t, p, _ in self.each(body))))

        def one(t, p, part):
            try:
                kvs = kspec.validate_set(part["message_set"])
            except (kspec.SpecError, zlib.error) as e:
                raise Violation("broker rejects a produced message set: %s" % e)
            real = self.base_error(node, t, p)
            code = real or errs.get((t, p), 0)
            off = -1
            if not code or (not real and code in self.APPENDED):
                off = self.logs[(t, p)].append(kvs)
            self.hist.append(("produce", node, t, p, tuple(v for _, v in kvs), code,
                              off >= 0, tuple(k for k, _ in kvs)))
            return {"partition_id": p, "error_code": code, "offset": off if not code else -1}
        return self.shaped(body, one)

    def do_fetch(self, node, body, errs):
        def one(t, p, part):
            code = self.base_error(node, t, p) or errs.get((t, p), 0)
            data = b""
            hw = -1
            if not code:
                log = self.logs[(t, p)]
                hw = log.end
                if not log.start <= part["offset"] <= log.end:
                    code = 1
                else:
                    data = log.read(part["offset"], part["max_bytes"])
            self.hist.append(("fetch", node, t, p, part["offset"], code))
            return {"partition_id": p, "error_code": code,
                    "highwater_mark_offset": hw, "message_set": data}
        return self.shaped(body, one)

    def do_offset(self, node, body, errs, empty=()):
        def one(t, p, part):
            code = self.base_error(node, t, p) or errs.get((t, p), 0)
            offs = []
            if not code and (t, p) not in empty:
                log = self.logs[(t, p)]
                if part["time"] == -1:
                    offs = [log.end]
                elif part["time"] == -2:
                    offs = [log.start]
                else:
                    offs = [self.time_offset(t, p, part["time"])]
                offs = offs[:part["max_offsets"]]
            self.hist.append(("offset", node, t, p, part["time"], code, tuple(offs)))
            return {"partition_id": p, "error_code": code, "offsets": offs}
        return self.shaped(body, one)

    def time_offset(self, t, p, time):
        log = self.logs[(t, p)]
        return log.start + (log.end - log.start) // 2

    def do_group_coordinator(self, node, body, errs):
        code = errs.get("*", 0)
        c = self.coordinator
        if not code and (c is None or c not in self.up):
            code = 15
        self.hist.append(("coordinator", node, code))
        if code:
            return {"error_code": code, "coordinator_id": -1, "coordinator_host": "", "coordinator_port": -1}
        return {"error_code": 0, "coordinator_id": c,
                "coordinator_host": self.addr[c][0], "coordinator_port": self.addr[c][1]}

    def do_offset_fetch(self, node, body, errs):
        g = name(body["group_name"])

        def one(t, p, part):
            code = errs.get((t, p), 0)
            if node != self.coordinator:
                code = 16
            off = -1
            if not code:
                off = self.committed.get((g, t, p), -1)
                if off < 0:
                    code = 3
            self.hist.append(("offset_fetch", node, t, p, off, code))
            return {"partition_id": p, "offset": off if not code else -1, "metadata": "", "error_code": code}
        return self.shaped(body, one)

    def do_offset_commit(self, node, body, errs):
        g = name(body["group"])

        def one(t, p, part):
            code = errs.get((t, p), 0)
            if node != self.coordinator:
                code = 16
            elif not code and len(part["metadata"] or b"") > self.metadata_limit:
                code = 12
            if not code:
                self.committed[(g, t, p)] = part["offset"]
            self.hist.append(("commit", node, t, p, part["offset"], code))
            return {"partition_id": p, "error_code": code}
        return self.shaped(body, one)

    def fingerprint(self, ch):
        ch.state(zlib.crc32(repr((sorted(self.label(q) for q in self.queue), self.hist[-40:],
                                  len(self.hist), sorted(self.up),
                                  sorted(self.leader.items(), key=repr))).encode()))


# ---------------------------------------------------------------------------
# fault menus

def subsets(keys):
    keys = list(keys)
    if len(keys) <= 1:
        return [keys] if keys else []
    out = [[k] for k in keys]
    if len(keys) == 2:
        return out + [keys]
    return out + [keys[:1] + keys[2:]] + [keys]


def code_menu(codes):
    """codes: api -> list of error codes"""
    def menu(env, peer, req):
        out = []
        api = req["api"]
        cs = codes.get(api, ())
        if not cs:
            return out
        if api == "group_coordinator":
            return [("err%d" % c, 1, lambda c=c: env.answer(peer, req, {"*": c})) for c in cs]
        keys = [(t, p) for t, p, _ in env.each(req["body"])] if api != "metadata" else [
            k for k in sorted(env.leader)]
        for c in cs:
            for s in subsets(keys):
                out.append(("err%d on %s" % (c, ",".join("%s/%d" % k for k in s)), 1,
                            lambda c=c, s=s: env.answer(peer, req, {k: c for k in s})))
        return out
    return menu


def drop_menu(apis=None, kinds=("before", "after", "cut", "garbage")):
    def menu(env, peer, req):
        if apis is not None and req["api"] not in apis:
            return []
        out = []
        if "before" in kinds:
            out.append(("rst before", 1, lambda: env.fault_close(peer, req, False, "reset")))
        if "after" in kinds:
            out.append(("fin after", 1, lambda: env.fault_close(peer, req, True, "fin")))
        if "cut" in kinds:
            out.append(("cut", 1, lambda: env.fault_cut(peer, req, -1, "fin")))
        if "cut2" in kinds:
            out.append(("cut6", 1, lambda: env.fault_cut(peer, req, 6, "reset")))
        if "garbage" in kinds:
            out.append(("garbage", 1, lambda: env.fault_garbage(peer, req)))
        if "unmatched" in kinds:
            out.append(("unmatched", 1, lambda: env.fault_unmatched(peer, req)))
        return out
    return menu


def menus(*ms):
    def menu(env, peer, req):
        return [x for m in ms for x in m(env, peer, req)]
    return menu


def refuse_menu(env, sock, node):
    return [("refuse", 1, env.refuse), ("accept+fin", 1, env.accept_fin)]
