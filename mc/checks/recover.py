"""P36: what a client does once its trouble is over."""
import collections

from .. import fakekafka, vnet, zk
from ..core import Violation
from . import grouped as g
from .cluster import MetaEnv
from .consumer import ConsumeEnv, calm, decode, fill
from .leaks import fault_menus
from .producer import ProduceEnv, crash2, crash2_listed, drop_all, election, leader_moves, make
from .zk import ALLOCATORS, GROUP

from kiel import exc
from kiel.clients.single import SingleConsumer

BEGIN = -2
RECOVERY = 3          # calls a client may need to find its feet again


class Heard(object):
    """remembers the requests the brokers get"""
    heard = ()

    def on_frame(self, peer, frame):
        super(Heard, self).on_frame(peer, frame)
        if isinstance(self.heard, list):
            req = self.queue[-1][2]
            self.heard.append((peer.node, req["api"]))

    def on_connect(self, sock):
        super(Heard, self).on_connect(sock)
        if isinstance(self.heard, list):
            self.heard.append((None, "connection"))

    async def expect(self, what, call, want):
        """a call that causes exactly these requests"""
        self.heard = []
        self.doing = what + " once the trouble was over"
        try:
            r = await call()
        except exc.KielError as e:
            raise Violation("%s failed with %r although nothing is wrong any more" % (what, e))
        await self.idle()
        got, self.heard = collections.Counter(self.heard), ()
        if got != collections.Counter(want):
            raise Violation("once the trouble was over %s made the requests %r, needed are %r" % (
                what, sorted(got.elements(), key=repr), sorted(want)))
        return r


class ProduceHeard(Heard, ProduceEnv):
    pass


class ConsumeHeard(Heard, ConsumeEnv):
    pass


class GroupHeard(Heard, g.SlowEnv):
    pass


async def tried(call):
    try:
        return await call()
    except exc.NoBrokersError:
        return None


def outage(env):
    for node in sorted(env.up):
        env.crash(node)


def resettled(env):
    """all leaders elsewhere, which nobody is told"""
    for kp, l in sorted(env.leader.items()):
        if 3 - l in env.up:
            env.leader[kp] = 3 - l


def relocated(env):
    """a broker is at another address from now on"""
    env.crash(2)
    env.addr[2] = ("elsewhere", 9095)
    env.up.add(2)


def producing(ch, batch=1, codes=None, drops=(), actions=(), refuse=False, compression=None, overlap=False, rounds=1):
    env = ProduceHeard(brokers=(1, 2), topics={"a": {0: 1, 1: 2}, "b": {0: 2}})
    env.op_cost = 1 if overlap else None
    w = vnet.World(env, ch, max_steps=1500)
    parts = {"a0": ("a", 0), "a1": ("a", 1), "b0": ("b", 0)}

    async def main():
        env.doing = "connect()"
        c = make(env, batch_size=batch, compression=compression)
        await c.connect()
        await env.idle()
        fault_menus(env, codes, drops, {"produce", "metadata"}, refuse)
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))

        async def put(name):
            return await tried(lambda: c.produce(name[0], name.encode()))
        env.doing = "produce()"
        if overlap:
            for p in parts:
                env.op(p, lambda p=p: put(p + "x"))
            for label, r in await env.run_ops():
                if isinstance(r, BaseException):
                    raise Violation("%s failed: %r" % (label, r))
        else:
            for i in range(rounds):
                for p in parts:
                    await put(p + "x%d" % i)
        await env.idle()
        calm(env)
        for p in parts:
            await put(p + "r")
        for i in range(RECOVERY):
            await tried(c.flush)
            await env.idle()
        if c.unsent_count:
            raise Violation("%d messages still not sent after %d flushes without faults" % (c.unsent_count, RECOVERY))
        for n in range(2):
            for i, (name, kp) in enumerate(sorted(parts.items())):
                v = (name + "n%d" % n).encode()
                full = (i + 1) % batch == 0
                await env.expect("produce()", lambda name=name, v=v: c.produce(name[0], v), [
                    (l, "produce") for l in ([env.leader[kp]] if batch == 1 else sorted(set(env.leader.values()))) if full])
                if full and v not in env.logs[kp].values():
                    raise Violation("%r was not written at once once the trouble was over" % v)
        await env.expect("flush()", c.flush, [])
        await env.expect("close()", c.close, [])
        return sorted(env.leader.items())
    return w.run(main)


def consuming(ch, codes=None, drops=(), actions=(), refuse=False, overlap=False):
    env = ConsumeHeard(brokers=(1, 2), topics={"a": {0: 1, 1: 2}, "b": {0: 1}})
    env.op_cost = 1 if overlap else None
    for kp in env.leader:
        env.logs[kp] = fakekafka.Log(4)
        fill(env.logs[kp], kp[0], kp[1], [(0, 1), (1, 2)])
    w = vnet.World(env, ch, max_steps=1500)

    async def main():
        env.doing = "connect()"
        c = SingleConsumer(["k1:9092", "k2:9092"], deserializer=decode, max_bytes=4000)
        await c.connect()
        await env.idle()
        fault_menus(env, codes, drops, {"fetch", "offset", "metadata"}, refuse)
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))
        env.doing = "consume()"
        if overlap:
            for t in "ab":
                env.op(t, lambda t=t: tried(lambda: c.consume(t, BEGIN)))
            for label, r in await env.run_ops():
                if isinstance(r, BaseException):
                    raise Violation("%s failed: %r" % (label, r))
        else:
            for t in "aab":
                await tried(lambda: c.consume(t, BEGIN))
        await env.idle()
        calm(env)
        env.doing = "consume()"
        for i in range(RECOVERY):
            for t in "ab":
                await tried(lambda: c.consume(t, BEGIN))
        await env.idle()
        for n in range(2):
            for t in "ab":
                new = []
                for kp, log in sorted(env.logs.items()):
                    if kp[0] == t:
                        fill(log, kp[0], kp[1], [(0, 1)])
                        new += log.values()[-1:]
                want = sorted({(l, "fetch") for kp, l in env.leader.items() if kp[0] == t})
                r = await env.expect("consume()", lambda: c.consume(t, BEGIN), want)
                if sorted(r) != sorted(new):
                    raise Violation("once the trouble was over consume() returned %r instead of %r" % (r, new))
        await env.expect("close()", c.close, [])
        return sorted(env.leader.items())
    return w.run(main)


def member(ch, codes=None, drops=(), actions=(), auto=True, refuse=False, again=False):
    rt = zk.Inline()
    g._ids.reset()
    with zk.ensemble(rt) as srv:
        env = GroupHeard(rt, srv, brokers=(1, 2), coordinator=1)
        env.ghosts, env.parts_now = [], None
        for kp in (("a", 0), ("a", 1)):
            env.leader[kp] = 1 + kp[1]
            env.logs[kp] = fakekafka.Log(4)
            fill(env.logs[kp], kp[0], kp[1], [(0, 1), (0, 1)])
            env.committed[(GROUP,) + kp] = env.first[kp] = 4
        w = vnet.World(env, ch, max_steps=1500)

        async def main():
            env.members.append(g.Member(env, 0, ALLOCATORS["naive"](), auto, max_bytes=400))
            m = env.members[0]
            vnet.owner.set(0)
            rt.focus = m.conn.index
            env.doing = "connect()"
            await m.c.connect()
            env.poll()
            env.parts_now = ["a:0", "a:1"]
            await env.idle()
            fault_menus(env, codes, drops, {"fetch", "offset_fetch", "offset_commit", "group_coordinator", "metadata"}, refuse)
            for a in actions:
                env.action(a.__name__, lambda a=a: (a(env), env.poll()))

            async def round_():
                env.doing = "consume()"
                await env.consume(m, "a")
                if not auto:
                    env.doing = "commit_offsets()"
                    await env.commit(m)
            for i in range(2):
                await round_()
            await env.idle()
            g.calm(env)
            for i in range(RECOVERY + 1):
                await round_()
            await env.idle()
            for n in range(2):
                new = []
                for kp, log in sorted(env.logs.items()):
                    fill(log, kp[0], kp[1], [(0, 1)])
                    new += log.values()[-1:]
                commit = [(env.coordinator, "offset_commit")]
                want = sorted({(l, "fetch") for kp, l in env.leader.items()})
                got = []

                async def consume():
                    got.append(await env.consume(m, "a"))
                await env.expect("consume()", consume, want + (commit if auto else []))
                if got != [len(new)]:
                    raise Violation("once the trouble was over consume() returned %r messages instead of %d" % (got[0], len(new)))
                if not auto:
                    await env.expect("commit_offsets()", lambda: env.commit(m), commit)
                for kp, log in sorted(env.logs.items()):
                    if env.committed.get((GROUP,) + kp) != log.end:
                        raise Violation("once the trouble was over %s/%d is committed at %r, consumed up to %d" % (
                            kp + (env.committed.get((GROUP,) + kp), log.end)))
            await env.expect("close()", m.c.close, [])
            return sorted(env.leader.items()), env.coordinator
        return w.run(main)


def p36(ctx):
    ctx.rule("a producer, a single consumer and a group member work with every placement of up to 3 (4; 2 (3) with faults of several kinds in a group) of: error codes on every subset of partitions, "
             "connections reset before/closed after/cut/garbage, refused reconnects, crashes, an outage of all brokers, leader and coordinator moves, elections, "
             "rebalances, lost sessions. Then all is well again. %d calls later at most, every call has to do its work at once, with the requests it needs "
             "and no others (no metadata, no lookups, no reconnects, no retries)." % RECOVERY)
    t = ctx.thorough
    b = 4 if t else 3
    hard = ("before", "after", "cut", "garbage")
    acts = (crash2, crash2_listed, drop_all, election, leader_moves, outage, resettled, relocated)
    for batch in (1, 3):
        ctx.explore("produce-codes-%d" % batch, producing, b, batch=batch, codes={"produce": (6, 10)})
        ctx.explore("produce-drops-%d" % batch, producing, b, batch=batch, drops=hard, refuse=True)
        for a in acts:
            ctx.explore("produce-%s-%d" % (a.__name__, batch), producing, b, batch=batch, drops=("after",), actions=(a,))
    ctx.explore("produce-overlap", producing, b, codes={"produce": (6,)}, drops=("before",), overlap=True)
    ctx.explore("produce-outage-drops", producing, b, drops=hard, actions=(outage,), refuse=True)
    ctx.explore("consume-codes", consuming, b, codes={"fetch": (6, 1, 2), "offset": (6,)})
    ctx.explore("consume-drops", consuming, b if t else 2, drops=hard, refuse=True)
    ctx.explore("consume-overlap", consuming, b, codes={"fetch": (6, 1), "offset": (6,)}, drops=("before",), overlap=True)
    for a in acts:
        ctx.explore("consume-%s" % a.__name__, consuming, b, drops=("after",), actions=(a,))
    for auto in (True, False):
        n = "auto" if auto else "manual"
        ctx.explore("member-codes-%s" % n, member, b - 1, auto=auto, codes={"offset_commit": (16, 7, 12), "fetch": (6, 3), "offset_fetch": (14,)})
        ctx.explore("member-drops-%s" % n, member, b - 1, auto=auto, drops=hard, refuse=True)
        for a in (g.ghost_before, g.visit, g.fewer, g.session_lost, g.zk_dropped, g.moves, g.dies, g.drop_all, g.outage, resettled, relocated):
            ctx.explore("member-%s-%s" % (a.__name__, n), member, b - 1, auto=auto, drops=("after",), actions=(a,))
    from . import scale
    for name, fn, codes in (("produce", producing, {"produce": (6, 10)}), ("consume", consuming, {"fetch": (6, 1), "offset": (6,)}),
                            ("member", member, {"offset_commit": (16,), "fetch": (6,), "offset_fetch": (14,)})):
        scale.words(ctx, name, ("ok", "err", "err*", "garbage") + scale.LOST, 5 if t else 4, lambda ch, fn=fn, codes=codes: fn(
            ch, codes=codes, drops=("before", "after", "garbage")))
