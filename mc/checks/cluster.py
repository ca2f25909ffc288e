"""P08-P11: bootstrap, metadata refresh, overlapping refreshes, fan-out."""
import itertools
import socket

from .. import fakekafka, kspec, vnet
from ..core import Violation
from ..fakekafka import Kafka, NO_LEADER, code_menu, drop_menu, menus, refuse_menu

from kiel import exc
from kiel.cluster import Cluster
from kiel.clients.client import Client
from kiel.clients.producer import Producer
from kiel.protocol import errors as kiel_errors, fetch, offset

errors = kiel_errors.errors if hasattr(kiel_errors, "errors") else kiel_errors


def truth_of(md):
    """(topics, leaders) a metadata response stands for"""
    topics, leaders = {}, {}
    for t in md["topics"]:
        if t["error_code"]:
            continue
        for p in t["partitions"]:
            topics.setdefault(t["name"], set()).add(p["partition_id"])
            leaders[(t["name"], p["partition_id"])] = p["leader"]
    return topics, leaders


def view_of(cluster):
    topics = {t: set(ps) for t, ps in cluster.topics.items() if ps}
    for t, ps in cluster.topics.items():
        if len(set(ps)) != len(ps):
            raise Violation("partition listed twice: %s %r" % (t, ps))
    leaders = {(t, p): cluster.get_leader(t, p) for t in topics for p in topics[t]}
    return topics, leaders


def check_view(env, cluster, when):
    want = truth_of(env.last_metadata)
    got = view_of(cluster)
    if got != want:
        raise Violation("%s: cluster view %r differs from the brokers' %r" % (when, got, want))


def check_conns(env, cluster, when, others=()):
    listed = {b["broker_id"] for b in env.last_metadata["brokers"]}
    if set(cluster) != listed:
        raise Violation("%s: connected to %r, the brokers are %r" % (when, set(cluster), listed))
    want = sorted(env.addr[b] for b in listed)
    live = sorted(p.sock.addr for p in env.live_peers() if p.sock not in others)
    open_ = sorted(s.addr for s in env.world.all_socks
                   if s.state != "closed" and s not in others and s.addr)
    if live != want or open_ != want:
        raise Violation("%s: open connections %r (live %r), expected one to each of %r" % (
            when, open_, live, want))


# ---------------------------------------------------------------------------
# P08

KINDS = ["good", "refuse", "dns", "fin", "rst", "close-on-request", "rst-on-request", "cut0",
         "cut1", "garbage", "unmatched", "negative", "empty"]


class BootEnv(Kafka):
    def __init__(self, hosts, kinds_for):
        Kafka.__init__(self, brokers=(1, 2), topics={"a": {0: 1, 1: 2}, "b": {0: 2}})
        self.addr[2] = ("k2", 9393)
        self.hosts = hosts
        self.kinds_for = kinds_for
        self.tried = []
        self.good = None

    def on_connect(self, sock):
        if self.good is None:
            n = len(self.tried)
            others = [s for s in self.world.all_socks if s is not sock and s.state != "closed"]
            if others:
                raise Violation("bootstrap host %r is tried while another is still connected" % (sock.addr,))
            if n >= len(self.hosts) or sock.addr != self.hosts[n]:
                raise Violation("bootstrap attempt %d goes to %r, configured hosts are %r" % (
                    n, sock.addr, self.hosts))
            sock.kind = self.kinds_for(n, self.world.ch)
            self.tried.append(sock.kind)
            if sock.kind == "dns":
                raise socket.gaierror(-2, "Name or service not known")
        else:
            sock.kind = None
        Kafka.on_connect(self, sock)

    def do_connect(self, sock):
        if sock.kind is None:
            return Kafka.do_connect(self, sock)
        if sock.kind == "refuse":
            return self.refuse(sock)
        self.accept(sock)
        if sock.kind == "fin":
            self.drop(sock.peer, "fin")
        elif sock.kind == "rst":
            self.drop(sock.peer, "reset")

    def accept(self, sock):
        peer = vnet.Peer(self, sock, self.node_at(sock.addr) or 1)
        sock.state = "open"
        self.peers.append(peer)
        return peer

    def do_request(self, peer, req):
        kind = peer.sock.kind
        if kind is None:
            return Kafka.do_request(self, peer, req)
        if req["api"] != "metadata" or req["body"]["topics"]:
            raise Violation("bootstrap host is asked %r" % (req,))
        if kind == "good":
            self.good = peer
            return self.answer(peer, req)
        if kind == "close-on-request":
            return self.drop(peer, "fin")
        if kind == "rst-on-request":
            return self.drop(peer, "reset")
        if kind == "cut0":
            return self.fault_cut(peer, req, self.world.ch.pick(
                ["cut%d" % i for i in range(1, 12)], [0] * 11) + 1, "fin")
        if kind == "cut1":
            return self.fault_cut(peer, req, -1 - self.world.ch.pick(
                ["cut-%d" % i for i in range(1, 12)], [0] * 11), "reset")
        if kind == "garbage":
            return self.fault_garbage(peer, req)
        if kind == "unmatched":
            return self.fault_unmatched(peer, req)
        if kind == "negative":
            return peer.deliver(b"\xff\xff\xff\xf0" + b"\x00" * 8)
        if kind == "empty":
            corr = req["correlation_id"].to_bytes(4, "big", signed=True)
            return peer.deliver(b"\x00\x00\x00\x04" + corr)


def p08_scenario(ch, n, first):
    names = ["b1", "b2:9093", "b3:9999"][:n]
    hosts = [("b1", 9092), ("b2", 9093), ("b3", 9999)][:n]

    def kinds_for(i, ch):
        if i < len(first):
            return first[i]
        return KINDS[ch.pick(KINDS, [0] * len(KINDS))]
    env = BootEnv(hosts, kinds_for)
    w = vnet.World(env, ch, max_steps=2000)

    async def main():
        env.doing = "connect()"
        c = Client(list(names))
        try:
            await c.connect()
            err = None
            # there for the next statement of the program
            check_view(env, c.cluster, "as connect() completes")
            check_conns(env, c.cluster, "as connect() completes")
        except exc.NoBrokersError as e:
            err = e
        await env.idle()
        if env.good is None:
            if err is None:
                raise Violation("connect() succeeded although no host answered: %r" % env.tried)
            if len(env.tried) != n:
                raise Violation("only %d of %d hosts were tried" % (len(env.tried), n))
            left = [s.addr for s in w.all_socks if s.state != "closed"]
            if left:
                raise Violation("connections left open after a failed connect(): %r" % left)
            return env.tried
        if err is not None:
            raise Violation("no-brokers error although a host answered (%r)" % env.tried)
        check_view(env, c.cluster, "after connect()")
        check_conns(env, c.cluster, "after connect()")
        return env.tried
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("connect() raised %r" % e)


def p08_ports(case):
    """host strings and the address they must be reached at"""
    from ..core import Chooser
    names, addrs = case
    env = BootEnv(list(addrs), lambda i, ch: "good" if i == len(addrs) - 1 else "refuse")
    w = vnet.World(env, Chooser())

    async def main():
        c = Client(list(names))
        await c.connect()
        check_conns(env, c.cluster, "as connect() completes")
        await env.idle()
        check_conns(env, c.cluster, "after connect()")
    w.run(main)
    return case


def p08(ctx):
    ctx.rule("1-3 bootstrap hosts, each independently: good, refused, unresolvable, closed/reset on accept or on "
             "request, response cut at each of its first and last 11 bytes, undecodable, wrong correlation id, "
             "negative size, empty. All assignments.")
    ctx.assume("a host that neither answers nor fails stalls connect(): there are no timeouts (not covered)")
    ctx.explore("hosts1", p08_scenario, 0, n=1, first=())
    ctx.explore("hosts2", p08_scenario, 0, n=2, first=())
    if ctx.thorough:
        ctx.explore("hosts3", p08_scenario, 0, n=3, first=())
    else:
        for k in KINDS[1:]:
            if not k.startswith("cut"):
                ctx.explore("hosts3-%s" % k, p08_scenario, 0, n=3, first=(k,))

    def gen():
        opts = [("b1", ("b1", 9092)), ("b1:1", ("b1", 1)), ("10.0.0.1", ("10.0.0.1", 9092)),
                ("kafka.example.com:65535", ("kafka.example.com", 65535))]
        for n in (1, 2):
            for combo in itertools.product(opts, repeat=n):
                yield tuple(c[0] for c in combo), tuple(c[1] for c in combo)
    ctx.cases("ports", gen, p08_ports)


# ---------------------------------------------------------------------------
# P09

class MetaEnv(Kafka):
    """metadata with elections and brokers that are listed but unreachable"""

    def __init__(self, **kw):
        Kafka.__init__(self, **kw)
        self.countdown = []          # [answers left, fn to run then]
        self.in_doubt = False

    def do_metadata(self, node, body, errs):
        out = Kafka.do_metadata(self, node, body, errs)
        self.last_full = not body["topics"]
        for c in list(self.countdown):
            c[0] -= 1
            if c[0] <= 0:
                self.countdown.remove(c)
                c[1]()
        self.in_doubt = any(
            t["error_code"] in (5, 9) or any(p["error_code"] == 5 or p["leader"] not in
                                             {b["broker_id"] for b in out["brokers"]}
                                             for p in t["partitions"])
            for t in out["topics"])
        return out

    def after(self, n, fn):
        self.countdown.append([n, fn])


def new_meta_env():
    env = MetaEnv(brokers=(1, 2, 3), topics={"a": {0: 1, 1: 2}, "b": {0: 2}, "c": {0: 3, 2: 1}})
    return env


def ch_leave(env):
    b = max(env.up)
    if len(env.up) > 1:
        env.crash(b)
        if env.listed is not None:
            env.listed = [x for x in env.listed if x != b] or None


def ch_leave_quiet(env):
    """a broker is decommissioned: gone from metadata, connection still up"""
    b = max(env.up)
    if len(env.up) > 1:
        env.listed = sorted(env.up - {b})
        new = min(env.up)
        for k, l in env.leader.items():
            if l == b:
                env.leader[k] = new


def ch_leave_late(env):
    """crashed but still listed for two answers"""
    b = max(env.up)
    if len(env.up) > 1:
        env.listed = sorted(env.up)
        env.crash(b)
        env.after(2, lambda: setattr(env, "listed", None))


def ch_join(env):
    env.addr[4] = ("k4", 9092)
    env.up.add(4)
    env.listed = None
    env.leader[("a", 0)] = 4


def ch_move(env):
    b = min(env.up)
    for p in env.live_peers(b):
        env.drop(p)
    env.addr[b] = ("moved%d" % b, 9095)


def ch_move_quiet(env):
    """new address announced while the old connection is still up"""
    b = min(env.up)
    env.addr[b] = ("moved%d" % b, 9096)


def ch_restart(env):
    for p in env.live_peers(min(env.up)):
        env.drop(p, "fin")


def ch_restart_all(env):
    for p in env.live_peers():
        env.drop(p, "reset")


def ch_leader(env):
    k = ("b", 0)
    if k in env.leader:
        env.leader[k] = min(env.up)


def ch_election(env):
    env.part_error[("a", 1)] = 5
    env.after(1, lambda: env.part_error.clear())


def ch_election2(env):
    env.part_error[("a", 0)] = 5
    env.part_error[("b", 0)] = 5
    env.after(1, lambda: env.part_error.pop(("a", 0), None))
    env.after(2, lambda: env.part_error.clear())


def ch_topic_election(env):
    env.topic_error["b"] = 5
    env.after(1, lambda: env.topic_error.clear())


def ch_topic_replica(env):
    env.topic_error["c"] = 9
    env.after(2, lambda: env.topic_error.clear())


def ch_stale_leader(env):
    """a leader that is not among the listed brokers for one answer"""
    k = ("c", 0)
    env.addr[9] = ("k9", 9092)
    env.leader[k] = 9
    env.after(1, lambda: (env.leader.__setitem__(k, min(env.up)), env.addr.pop(9)))


def ch_create(env):
    env.leader[("new", 0)] = min(env.up)
    env.leader[("new", 1)] = max(env.up)


def ch_delete(env):
    for k in [k for k in env.leader if k[0] == "b"]:
        del env.leader[k]


def ch_partition(env):
    env.leader[("a", 7)] = max(env.up)


def ch_invalid(env):
    env.topic_error["c"] = 17


def ch_none(env):
    pass


CHANGES = [ch_none, ch_leave, ch_leave_quiet, ch_leave_late, ch_join, ch_move, ch_move_quiet,
           ch_restart, ch_restart_all, ch_leader, ch_election, ch_election2, ch_topic_election,
           ch_topic_replica, ch_stale_leader, ch_create, ch_delete, ch_partition, ch_invalid]


def fix_leaders(env):
    """no leader may be left on a broker that is gone"""
    alive = sorted(env.up if env.listed is None else set(env.listed) & env.up)
    for k, l in env.leader.items():
        if l not in env.up and l != 9:
            env.leader[k] = alive[0]
    if env.listed is not None:
        for k, l in env.leader.items():
            if l not in env.listed and l != 9:
                env.leader[k] = alive[0]


def p09_scenario(ch, steps, faults, first):
    env = new_meta_env()
    w = vnet.World(env, ch, max_steps=1500)

    async def main():
        env.doing = "connect()"
        cluster = Cluster(["k1", "k2", "k3", "k4", "moved1:9095", "moved1:9096"])
        await cluster.start()
        if faults:
            env.menu_fn = drop_menu({"metadata"}, ("before", "after", "cut", "garbage"))
            env.connect_menu = lambda e, s, n: [("refuse", 1, e.refuse), ("accept+fin", 1, e.accept_fin)]
        done = []
        for i in range(steps):
            if i < len(first):
                c = first[i]
            else:
                c = CHANGES[ch.pick([c.__name__ for c in CHANGES], [0] * len(CHANGES))]
            c(env)
            fix_leaders(env)
            done.append(c.__name__)
            early = ch.pick(["noticed", "at once"], [0, 0])
            if not early:
                await env.idle()      # the program notices what it can
            env.doing = "heal() after " + ", ".join(done)
            try:
                await cluster.heal()
            except exc.NoBrokersError:
                if not faults:
                    raise Violation("heal() after %s gave up although brokers are reachable" % ", ".join(done))
                continue
            if env.in_doubt:
                raise Violation("heal() after %s ended with an election in progress" % ", ".join(done))
            check_view(env, cluster, "after " + ", ".join(done))
            if not faults and not early:
                check_conns(env, cluster, "after " + ", ".join(done))
        await env.idle()
        env.menu_fn = env.connect_menu = None
        env.doing = "final heal() after " + ", ".join(done)
        await cluster.heal()
        check_view(env, cluster, env.doing)
        await env.idle()
        check_conns(env, cluster, env.doing)
        cluster.stop()
        await env.idle()
        if [s for s in w.all_socks if s.state != "closed"]:
            raise Violation("connections left open after stop()")
        return done, view_of(cluster)
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def p09(ctx):
    ctx.rule("%d kinds of cluster change, all sequences of 2 (3 in the thorough tier) with a refresh after each, "
             "started before or after the program noticed broken connections; single changes and pairs also with up to 1-2 "
             "faults (dropped, cut or undecodable metadata, refused or dropped new connections) at every point." % len(CHANGES))
    if ctx.thorough:
        for c in CHANGES:
            ctx.explore("changes3-%s" % c.__name__, p09_scenario, 0, steps=3, faults=False, first=(c,))
    else:
        ctx.explore("changes2", p09_scenario, 0, steps=2, faults=False, first=())
    ctx.explore("faults1", p09_scenario, 2 if not ctx.thorough else 3, steps=1, faults=True, first=())
    ctx.explore("faults2", p09_scenario, 1 if not ctx.thorough else 2, steps=2, faults=True, first=())
    from . import scale
    scale.many(ctx, "brokers", scale.cluster_grid, scale.cluster_many)


# ---------------------------------------------------------------------------
# P10

def p10_scenario(ch, change, n, during, faults=False):
    env = new_meta_env()
    w = vnet.World(env, ch, max_steps=1500, mid_steps=False)

    async def main():
        cluster = Cluster(["k1", "k2", "k3", "k4", "moved1:9095", "moved1:9096"])
        await cluster.start()
        await env.idle()
        change(env)
        fix_leaders(env)
        if during is not None:
            def act():
                during(env)
                fix_leaders(env)
            env.action("then " + during.__name__, act)
        if faults:
            env.menu_fn = drop_menu({"metadata"}, ("before", "garbage"))
            env.connect_menu = refuse_menu
        for i in range(n):
            env.op("heal%d" % i, cluster.heal)
        for label, r in await env.run_ops():
            if isinstance(r, BaseException):
                if isinstance(r, exc.NoBrokersError) and ch.cost:
                    continue
                raise Violation("%s (after %s) failed: %r" % (label, change.__name__, r))
        await env.idle()
        if ch.cost == 0 or not (faults or during):
            check_view(env, cluster, "after overlapping refreshes")
        if not during and not faults:
            check_conns(env, cluster, "after overlapping refreshes")
        env.actions = []
        env.menu_fn = env.connect_menu = None
        await cluster.heal()
        await env.idle()
        check_view(env, cluster, "after a further refresh")
        check_conns(env, cluster, "after a further refresh")
        cluster.stop()
        await env.idle()
        if [s for s in w.all_socks if s.state != "closed"]:
            raise Violation("connections left open after stop()")
        return view_of(cluster)
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def p10_ops(ch, batch):
    """overlapping operations of one producer, each of which needs a refresh"""
    env = new_meta_env()
    w = vnet.World(env, ch, max_steps=1500)

    async def main():
        c = Producer(["k1", "k2", "k3"], batch_size=batch, serializer=lambda v: v,
                     partitioner=lambda k, ps: sorted(ps)[0])
        await c.connect()
        await env.idle()
        env.leader[("new", 0)] = 2
        env.leader[("late", 0)] = 3
        for k in env.leader:
            env.logs.setdefault(k, fakekafka.Log())
        ch_join(env)
        env.logs.setdefault(("a", 0), fakekafka.Log())
        env.op("produce new", lambda: c.produce("new", b"1"))
        env.op("produce a", lambda: c.produce("a", b"2"))
        env.op("produce late", lambda: c.produce("late", b"3"))
        for label, r in await env.run_ops():
            if isinstance(r, BaseException):
                raise Violation("%s failed: %r" % (label, r))
        for _ in range(3):
            if not c.unsent_count:
                break
            await c.flush()
        await env.idle()
        for k, v in ((("new", 0), b"1"), (("a", 0), b"2"), (("late", 0), b"3")):
            if env.logs[k].values() != [v]:
                raise Violation("log of %r is %r" % (k, env.logs[k].values()))
        await c.cluster.heal()
        await env.idle()
        check_view(env, c.cluster, "after overlapping operations")
        check_conns(env, c.cluster, "after overlapping operations")
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def once(menu):
    """one fault at most: with every broker's answer lost there is nothing to refresh from"""
    struck = []

    def limited(env, peer, req):
        def strike(fn):
            def go():
                struck.append(1)
                return fn()
            return go
        return [] if struck else [(label, cost, strike(fn)) for label, cost, fn in menu(env, peer, req)]
    return limited


def p10_consuming(ch, change, faults=()):
    """overlapping consume() calls that find their leaders gone or moved"""
    from . import consumer as co
    env = co.build(co.ConsumeEnv(brokers=(1, 2, 3)), ({("a", 0): co.PLAIN, ("a", 1): co.PLAIN, ("b", 0): co.PLAIN}, 0))
    w = vnet.World(env, ch, max_steps=1500)

    async def main():
        c = co.SingleConsumer(["k1", "k2", "k3", "k4", "moved1:9095", "moved1:9096"], deserializer=co.decode, max_bytes=co.tight(env))
        await c.connect()
        env.watch = True
        for t in "ab":
            env.returned(t, await c.consume(t, co.BEGIN))
        await env.idle()
        change(env)
        fix_leaders(env)
        if faults:
            env.menu_fn = once(drop_menu({"metadata", "fetch"}, faults))

        def op(t):
            async def go():
                env.returned(t, await c.consume(t, co.BEGIN))
            return go
        for t in "ab":
            env.op("consume " + t, op(t))
        env.op("heal", c.cluster.heal)
        for label, r in await env.run_ops():
            if isinstance(r, BaseException):
                raise r if isinstance(r, Violation) else Violation("%s (after %s) failed: %r" % (label, change.__name__, r))
        await env.idle()
        await co.drain(env, c, ["a", "b"], co.BEGIN, 30)
        await c.cluster.heal()
        await env.idle()
        check_view(env, c.cluster, "after overlapping consume() calls")
        check_conns(env, c.cluster, "after overlapping consume() calls")
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def p10(ctx):
    ctx.rule("2 overlapping refreshes after each kind of cluster change, and 3 in some: every interleaving of starts and network "
             "events with up to 5 (7) out-of-order steps, further changes striking in between, broker faults; "
             "overlapping produce() calls that need refreshes; overlapping consume() calls after each kind of change, with and without faults.")
    t = ctx.thorough
    for c in CHANGES:
        ctx.explore("two-%s" % c.__name__, p10_scenario, 7 if t else 5, change=c, n=2, during=None)
    for c in (ch_join, ch_leave, ch_move_quiet, ch_restart, ch_restart_all):
        ctx.explore("three-%s" % c.__name__, p10_scenario, 7 if t else 5, change=c, n=3, during=None)
    for c, d in ((ch_join, ch_leave), (ch_none, ch_join), (ch_restart, ch_election), (ch_move, ch_leave_quiet),
                 (ch_election2, ch_leader)):
        ctx.explore("during-%s-%s" % (c.__name__, d.__name__), p10_scenario, 7 if t else 5, change=c, n=2, during=d)
    for c in (ch_none, ch_join, ch_restart, ch_leave):
        ctx.explore("faults-%s" % c.__name__, p10_scenario, 7 if t else 5, change=c, n=2, during=None, faults=True)
    for b in (1, 2):
        ctx.explore("ops-batch%d" % b, p10_ops, 7 if t else 5, batch=b)
    for c in (ch_join, ch_move_quiet, ch_restart, ch_restart_all, ch_leader, ch_election, ch_leave, ch_leave_quiet, ch_move):
        ctx.explore("consuming-%s" % c.__name__, p10_consuming, 6 if t else 5, change=c)
        ctx.explore("consuming-faults-%s" % c.__name__, p10_consuming, 5 if t else 4, change=c, faults=("before", "after"))


# ---------------------------------------------------------------------------
# P11

class Fan(Client):
    def __init__(self, env, brokers, slow):
        Client.__init__(self, brokers)
        self.env = env
        self.slow = slow
        self.handled = []

    def mark(self, response):
        part = response.topics[0].partitions[0]
        m = part.highwater_mark_offset if response.api == "fetch" else (part.offsets or [None])[0]
        self.handled.append((response.api, part.partition_id, m))
        if part.error_code in errors.retriable:
            self.heal_cluster = True
        return ("result", part.partition_id, part.error_code)

    def handle_fetch_response(self, response):
        return self.mark(response)

    async def _slow(self, response):
        f = self.env.world.loop.create_future()
        self.env.queue.append(("wake", f))
        await f
        return self.mark(response)

    def handle_offset_response(self, response):
        if self.slow:
            from tornado import gen
            return gen.convert_yielded(self._slow(response))
        return self.mark(response)

    async def wind_down(self):
        pass


class FanEnv(Kafka):
    def label(self, item):
        return "wake" if item[0] == "wake" else Kafka.label(self, item)

    def handle(self, item):
        if item[0] == "wake":
            self.queue.remove(item)
            item[1].set_result(None)
            self.world.woke = True
            return
        Kafka.handle(self, item)


def p11_scenario(ch, targets, slow, again, codes=(0, 6, 1)):
    """request_by_broker: partition id = broker id, so results tell who answered"""
    env = FanEnv(brokers=(1, 2, 3), topics={"t": {1: 1, 2: 2, 3: 3}})
    env.reorder_cost = 0
    for p in (1, 2, 3):
        env.logs[("t", p)].append([(None, b"x")] * (10 * p))
    w = vnet.World(env, ch, max_steps=1500)
    fate = {}

    def menu(env, peer, req):
        if req["api"] not in ("fetch", "offset"):
            return []
        out = []
        p = req["body"]["topics"][0]["partitions"][0]["partition_id"]

        def setf(k, fn):
            def go():
                fate.setdefault(p, []).append(k)
                fn()
            return go
        for c in codes[1:]:
            out.append(("err%d" % c, 1, setf("err%d" % c, lambda c=c: env.answer(peer, req, {("t", p): c}))))
        for lab, cost, fn in drop_menu()(env, peer, req):
            out.append((lab, 1, setf("dead", fn)))
        return out
    env.menu_fn = menu

    def request(i, b):
        if i % 2 == 0:
            return fetch.FetchRequest(replica_id=-1, max_wait_time=1, min_bytes=1, topics=[
                fetch.TopicRequest(name="t", partitions=[
                    fetch.PartitionRequest(partition_id=b, offset=0, max_bytes=0)])])
        return offset.OffsetRequest(replica_id=-1, topics=[
            offset.TopicRequest(name="t", partitions=[
                offset.PartitionRequest(partition_id=b, time=-1, max_offsets=1)])])

    async def main():
        c = Fan(env, ["k1"], slow)
        await c.connect()
        await env.idle()
        out = []
        for rnd in range(2 if again else 1):
            fate.clear()
            c.handled = []
            before = len([h for h in env.hist if h[0] == "metadata"])
            env.doing = "send()"
            reqs = {b: request(i + rnd, b) for i, b in enumerate(targets)}
            results = await c.send(reqs)
            dead = {p for p, k in fate.items() if "dead" in k}
            gone = {b for b in targets if b not in (1, 2, 3)}
            want = {b: ("result", b, int((fate.get(b) or ["err0"])[0][3:]))
                    for b in targets if b not in dead | gone}
            if results != want:
                raise Violation("results %r, expected %r (failed: %r)" % (results, want, sorted(dead | gone)))
            if sorted(h[1] for h in c.handled) != sorted(want):
                raise Violation("responses handled: %r, expected one of each of %r" % (c.handled, sorted(want)))
            md = len([h for h in env.hist if h[0] == "metadata"]) - before
            need = bool(dead or gone or any(k[2] == 6 for k in want.values()))
            if md != int(need):
                raise Violation("%d metadata refreshes, expected %d (fates %r)" % (md, need, fate))
            left = [q for q in env.queue if q[0] == "req"]
            if left:
                raise Violation("send() ended before everything was answered")
            await env.idle()
            check_view(env, c.cluster, "after send()")
            check_conns(env, c.cluster, "after send()")
            out.append(sorted(results))
        return out
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def p11(ctx):
    ctx.rule("fan-out to 1-3 brokers (and one that is unknown): every order of requests and answers, and per broker: answered, "
             "fatal or retriable code, connection reset before / closed after processing / cut, undecodable response; "
             "handlers synchronous or suspended and resumed in any order; two sends in a row.")
    ctx.assume("handlers themselves do not raise")
    t = ctx.thorough
    for slow in (False, True):
        s = "slow" if slow else "sync"
        ctx.explore("fan1-%s" % s, p11_scenario, 1, targets=(2,), slow=slow, again=False)
        ctx.explore("fan2-%s" % s, p11_scenario, 5 if t else 4, targets=(1, 3), slow=slow, again=False)
        ctx.explore("fan3-%s" % s, p11_scenario, 3, targets=(1, 2, 3), slow=slow, again=False)
        ctx.explore("unknown-%s" % s, p11_scenario, 4 if t else 3, targets=(7, 1, 2), slow=slow, again=False)
    ctx.explore("fan2-twice", p11_scenario, 4 if t else 3, targets=(2, 3), slow=False, again=True)
    ctx.explore("fan0", p11_scenario, 0, targets=(), slow=False, again=False)
