"""P35: clients that live in one process, each with a cluster of its own."""
from .. import fakekafka, kspec, vnet, zk
from ..core import Chooser, Violation
from ..fakekafka import code_menu, drop_menu, menus, refuse_menu
from .cluster import MetaEnv

zk.install()

from kiel import exc
from kiel.clients.grouped import GroupedConsumer
from kiel.clients.producer import Producer
from kiel.clients.single import SingleConsumer

BEGIN = -2
# the same names and numbers everywhere: nothing but the client tells them apart
TOPICS = {"a": {0: 1, 1: 2}, "b": {0: 2}}
KINDS = ("producer", "single", "group")


class Cell(MetaEnv):
    """one of the clusters"""

    def __init__(self, tag, kind):
        MetaEnv.__init__(self, brokers=(1, 2), topics=TOPICS)
        self.tag = tag
        self.addr = {b: ("%s%d" % (tag, b), 9092) for b in self.addr}
        self.seen = {}
        for (t, p), log in sorted(self.logs.items()):
            if kind != "producer":
                for i in range(3 if tag == "x" else 2):
                    log.append([(None, self.value(t, p, i))])
                self.committed[(tag + "g", t, p)] = 0

    def value(self, t, p, i):
        return ("%s|%s%d|%d" % (self.tag, t, p, i)).encode()

    def on_frame(self, peer, frame):
        MetaEnv.on_frame(self, peer, frame)
        req = self.queue[-1][2]
        self.seen.setdefault(peer.node, []).append((req["api"], plain(req["body"])))


def plain(o):
    """a request in comparable form; what names the client is left out"""
    if isinstance(o, dict):
        return tuple(sorted((k, plain(v)) for k, v in o.items() if k != "metadata"))
    if isinstance(o, (list, tuple)):
        return tuple(plain(v) for v in o)
    return o


class Pair(fakekafka.Kafka):
    def __init__(self, cells, rt, turns):
        fakekafka.Kafka.__init__(self, brokers=())
        self.cells, self.rt, self.turns = cells, rt, turns
        self.served = None
        self.op_cost = 1

    def cell(self, sock):
        for c in self.cells:
            if c.node_at(sock.addr) is not None:
                return c
        raise Violation("a connection to %s:%s, which nobody named" % sock.addr)

    def on_connect(self, sock):
        self.cell(sock).on_connect(sock)

    def on_client_close(self, sock):
        if sock.addr:
            self.cell(sock).on_client_close(sock)

    def things(self):
        items = self.rt.runnable()
        if items:
            return [(items[0][0], 0, items[0][1])]
        evs = []
        cells = list(self.cells)
        if self.turns and self.served is cells[0]:
            cells.reverse()
        for c in cells:
            # one cluster's own events come in order, it is the others that interfere
            for label, cost, fn in MetaEnv.things(c)[:1]:
                evs.append((c.tag + ":" + label, 1 if evs else 0, lambda c=c, fn=fn: self.serve(c, fn)))
        if self.ops and (not self.idlers or evs):
            evs.append(("start " + self.ops[0][0], self.op_cost if evs and not self.turns else 0, self.start_op))
            if self.turns:
                evs.insert(0, evs.pop())
                evs[1:] = [(l, 1, f) for l, _, f in evs[1:]]
        return evs

    def serve(self, cell, fn):
        self.served = cell
        fn()

    def fingerprint(self, ch):
        for c in self.cells:
            c.fingerprint(ch)


def client(kind, cell):
    hosts = ["%s%d:9092" % (cell.tag, b) for b in (1, 2)]
    other = cell.tag != "x"

    def mine(v):
        v = v if isinstance(v, bytes) else v.encode()
        if not v.startswith(cell.tag.encode() + b"|"):
            raise SystemExit("the client of cluster %s was given %r" % (cell.tag, v))
        if v.endswith(b"!"):
            raise ValueError(v)
        return v
    if kind == "producer":
        def partitioner(key, parts):
            return sorted(parts)[int(key) % len(parts)]
        return Producer(hosts, serializer=mine, key_maker=lambda m: m[3:4], partitioner=partitioner,
                        batch_size=2 if other else 1, ack_timeout=300 if other else 400, required_acks=1 if other else -1)
    if kind == "single":
        return SingleConsumer(hosts, deserializer=mine, max_bytes=3000 if other else 5000, max_wait_time=70 if other else 90)
    return GroupedConsumer(hosts, cell.tag + "g", ["zk"], deserializer=mine, autocommit=other,
                           max_bytes=3000 if other else 5000, min_bytes=2 if other else 3)


def steps(kind, cell, c):
    """what the program does with the client"""
    yield "connect", c.connect
    if kind == "producer":
        for i, (t, p) in enumerate((("a", 0), ("a", 1), ("b", 0))):
            yield "produce", lambda t=t, p=p, i=i: c.produce(t, cell.value(t, p, i))
        yield "flush", c.flush
    else:
        for t in ("a", "a", "b"):
            yield "consume", (lambda t=t: c.consume(t, BEGIN)) if kind == "single" else (lambda t=t: c.consume(t))
        if kind == "group":
            yield "commit", c.commit_offsets
    yield "close", c.close


async def program(kind, cell, results, lives=1):
    try:
        for i in range(lives):
            c = client(kind, cell)
            for label, fn in steps(kind, cell, c):
                try:
                    r = await fn()
                except exc.KielError as e:
                    r = type(e).__name__
                except SystemExit as e:
                    raise Violation(str(e))
                results.append((label, r))
    finally:
        c = None


def settings(kind):
    return {"producer": {"produce": (6, 10)}, "single": {"fetch": (6, 1), "offset": (6,)},
            "group": {"fetch": (6,), "offset_commit": (16,), "offset_fetch": (14,)}}[kind]


def outage(cell):
    for node in sorted(cell.up):
        cell.crash(node)


def crash2(cell):
    cell.crash(2)


def topics_gone(cell):
    for kp in list(cell.leader):
        if kp[0] == "a":
            del cell.leader[kp]


def leaders_swap(cell):
    for kp, l in cell.leader.items():
        if 3 - l in cell.up:
            cell.leader[kp] = 3 - l
    cell.coordinator = 3 - cell.coordinator


baseline = {}


def run(ch, kinds, turns, faults=None, drops=(), actions=(), refuse=False, lives=1, alone=False):
    """kinds: of the client that gets into trouble, and of the one that must not notice"""
    rt = zk.Inline()
    with zk.ensemble(rt) as srv:
        cells = [Cell("x", kinds[0]), Cell("y", kinds[1])]
        env = Pair(cells, rt, turns)
        w = vnet.World(env, ch, max_steps=2500)
        for c in cells:
            c.world = w
        x, y = cells

        async def main():
            ms = []
            if faults:
                ms.append(code_menu(settings(kinds[0])))
            if drops:
                ms.append(drop_menu({"produce", "fetch", "metadata", "offset_commit"}, drops))
            x.menu_fn = menus(*ms) if ms else None
            if refuse:
                x.connect_menu = refuse_menu
            for a in actions:
                env.action(a.__name__, lambda a=a: a(x))
            got = {"x": [], "y": []}
            if not alone:
                env.op("x", lambda: program(kinds[0], x, got["x"], lives))
            env.op("y", lambda: program(kinds[1], y, got["y"]))
            for label, r in await env.run_ops():
                if isinstance(r, Violation):
                    raise r
                if isinstance(r, BaseException):
                    raise Violation("the program with cluster %s failed after %r: %r" % (label, got[label][-1:], r))
            await env.idle()
            # each cluster has seen its own client only
            for c in cells:
                for kp, log in c.logs.items():
                    for v in log.values():
                        if not v.startswith(c.tag.encode() + b"|"):
                            raise Violation("%r was written to cluster %s" % (v, c.tag))
            if srv.callback_errors:
                raise Violation("%s: unexpected %r" % srv.callback_errors[0])
            return got, y.seen, {kp: log.values() for kp, log in y.logs.items()}
        got, seen, logs = w.run(main)
        if alone:
            return got["y"], seen, logs
        n = len(got["x"]) // 2
        if lives == 2 and kinds[0] == "single" and got["x"][:n] != got["x"][n:]:
            raise Violation("created anew, the client consumed %r; at first it was %r" % (got["x"][n:], got["x"][:n]))
        want = baseline[kinds[1]]
        if got["y"] != want[0]:
            n = [i for i, (a, b) in enumerate(zip(got["y"] + [None], want[0] + [None])) if a != b]
            raise Violation("the other client's call %d gave %r, left alone it gives %r" % (
                n[0], (got["y"] + [None])[n[0]], (want[0] + [None])[n[0]]))
        for node in sorted(set(seen) | set(want[1])):
            a, b = seen.get(node, []), want[1].get(node, [])
            if a != b:
                n = [i for i, (p, q) in enumerate(zip(a + [None], b + [None])) if p != q]
                raise Violation("the other client's request %d to broker %d is %.200r, left alone it is %.200r" % (
                    n[0], node, (a + [None])[n[0]], (b + [None])[n[0]]))
        if logs != want[2]:
            raise Violation("the other cluster's logs are %r, left alone they are %r" % (logs, want[2]))
        return [(l, r if r is None or isinstance(r, str) else len(r)) for l, r in got["x"]]


def p35(ctx):
    ctx.rule("two programs in one process, a producer, single consumer or group member each (all nine pairs), with clusters that use the same topic "
             "names and broker ids: every interleaving of their events with up to the bounded number of switches (run one after the other, and by turns), while one of "
             "them gets up to the same number of error codes, connection failures, refused connects, crashes, an outage, vanishing topics, leader moves, or is "
             "closed and created anew. What the other one is given, sends and writes must be exactly what it is without company.")
    b = 3 if ctx.thorough else 2
    for kind in KINDS:
        got, seen, logs = run(Chooser(), (kind, kind), False, alone=True)
        want = [("a", 0), ("a", 1), ("b", 0)]
        if kind == "producer":
            if [len(logs[kp]) for kp in want] != [1, 1, 1]:
                raise Violation("a producer left alone wrote %r" % logs)
        elif sum(len(r) for l, r in got if l == "consume") != 6:
            raise Violation("a consumer left alone got %r" % got)
        baseline[kind] = (got, seen, logs)
    for kinds in [(k, l) for k in KINDS for l in KINDS]:
        n = "-".join(kinds)
        for turns in (False, True):
            m = n + ("-turns" if turns else "")
            ctx.explore("codes-" + m, run, b, kinds=kinds, turns=turns, faults=True)
            ctx.explore("drops-" + m, run, b, kinds=kinds, turns=turns, drops=("before", "after", "cut", "garbage"), refuse=True)
            ctx.explore("lives-" + m, run, b, kinds=kinds, turns=turns, lives=2)
            for a in (outage, crash2, topics_gone, leaders_swap):
                ctx.explore("%s-%s" % (a.__name__, m), run, b, kinds=kinds, turns=turns, actions=(a,))
