"""P34: what a client holds on to once its work is done."""
import collections
import gc

from .. import fakekafka, vnet, zk
from ..core import Violation
from ..fakekafka import code_menu, drop_menu, menus, refuse_menu
from . import grouped as g
from .cluster import MetaEnv
from .consumer import ConsumeEnv, calm, decode, fill
from .producer import ProduceEnv, Tracker, crash2, crash2_listed, drop_all, election, leader_moves, make
from .zk import ALLOCATORS, GROUP

from kiel import exc
from kiel.clients.single import SingleConsumer
from kiel.protocol import metadata

BEGIN = -2
LIBRARY = "kiel."
CONTAINERS = (dict, list, tuple, set, frozenset, collections.deque)


def entries(root):
    """number of entries of each container, reachable from a client by way of
    the library's own objects"""
    seen = {}
    total = collections.Counter()
    todo = [(root, type(root).__name__)]
    while todo:
        o, path = todo.pop()
        if id(o) in seen:
            continue
        if isinstance(o, CONTAINERS):
            seen[id(o)] = o
            total[path] += len(o)
            if isinstance(o, dict):
                todo += [(k, path) for k in o] + [(v, path + "[]") for v in o.values()]
            else:
                todo += [(v, path + "[]") for v in o]
        elif type(o).__module__.startswith((LIBRARY, "tornado.locks")):
            seen[id(o)] = o
            todo += [(v, type(o).__name__ + "." + k) for k, v in getattr(o, "__dict__", {}).items()]
    return +total


def instances():
    """objects of the library's classes that are alive"""
    gc.collect()
    return collections.Counter(type(o).__name__ for o in gc.get_objects()
                               if type(o).__module__.startswith(LIBRARY) and not isinstance(o, type))


def compare(when, before, after):
    for what, a, b in (("objects", before[0], after[0]), ("entries", before[1], after[1])):
        more = sorted((k, a[k], b[k]) for k in b if b[k] > a[k])
        if more:
            raise Violation("%s the client holds on to more %s than before: %s" % (
                when, what, ", ".join("%s %d -> %d" % m for m in more)))


def shape(c):
    return instances(), entries(c)


async def level(env, c):
    """the last response on each connection may be kept until the next one
    comes: make them all alike"""
    env.leader.update(env.home)
    env.coordinator = 1
    await c.cluster.heal()
    for b in list(c.cluster):
        await c.cluster[b].send(metadata.MetadataRequest(topics=[]))
    await env.idle()


def fault_menus(env, codes, drops, apis, refuse):
    ms = []
    if codes:
        ms.append(code_menu(codes))
    if drops:
        ms.append(drop_menu(apis, drops))
    env.menu_fn = menus(*ms) if ms else None
    if refuse:
        env.connect_menu = refuse_menu


def producing(ch, batch=1, codes=None, drops=(), actions=(), refuse=False, compression=None, overlap=False):
    gc.freeze()
    env = ProduceEnv(brokers=(1, 2), topics={"a": {0: 1, 1: 2}, "b": {0: 2}})
    env.op_cost = 1 if overlap else None
    env.home = dict(env.leader)
    w = vnet.World(env, ch, max_steps=1200)

    async def main():
        env.doing = "connect()"
        c = make(env, batch_size=batch, compression=compression)
        await c.connect()
        await env.idle()

        async def put(name):
            try:
                await c.produce(name[0], name.encode())
            except exc.NoBrokersError:
                pass

        async def round_(x):
            """one message to every partition, then all that is left"""
            env.doing = "produce()"
            for p in ("a0", "a1", "b0"):
                await put(p + x)
            for i in range(6):
                if not c.unsent_count:
                    break
                env.doing = "flush()"
                try:
                    await c.flush()
                except exc.NoBrokersError:
                    pass
                await env.idle()
            if c.unsent_count:
                raise Violation("%d messages still queued without faults" % c.unsent_count)
            await level(env, c)
        await round_("v")
        await round_("w")
        before = shape(c)
        fault_menus(env, codes, drops, {"produce", "metadata"}, refuse)
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))
        if overlap:
            for p in ("a0x", "b0x", "a1x"):
                env.op(p, lambda p=p: put(p))
            for label, r in await env.run_ops():
                if isinstance(r, BaseException):
                    raise Violation("%s failed: %r" % (label, r))
            del r
        else:
            env.doing = "produce()"
            for p in ("a0x", "a1x", "b0x"):
                await put(p)
        await env.idle()
        calm(env)
        await round_("y")
        await round_("z")
        compare("after everything was written", before, shape(c))
        return sorted(before[0].items())
    try:
        return w.run(main)
    finally:
        gc.unfreeze()


def consuming(ch, codes=None, drops=(), actions=(), refuse=False):
    gc.freeze()
    env = ConsumeEnv(brokers=(1, 2), topics={"a": {0: 1, 1: 2}})
    env.op_cost = None
    for kp in env.leader:
        env.logs[kp] = fakekafka.Log(4)
        fill(env.logs[kp], kp[0], kp[1], [(0, 1), (1, 2)])
    env.home = dict(env.leader)
    w = vnet.World(env, ch, max_steps=1500)

    async def main():
        env.doing = "connect()"
        c = SingleConsumer(["k1:9092", "k2:9092"], deserializer=decode, max_bytes=4000)
        await c.connect()
        await env.idle()

        async def round_(n=1):
            for i in range(n):
                env.doing = "consume()"
                try:
                    await c.consume("a", BEGIN)
                except exc.NoBrokersError:
                    pass

        async def fresh():
            for kp, l in env.logs.items():
                fill(l, kp[0], kp[1], [(0, 1)])
            await round_(4)
            await level(env, c)
        await round_(2)
        await fresh()
        before = shape(c)
        fault_menus(env, codes, drops, {"fetch", "offset", "metadata"}, refuse)
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))
        for kp, l in env.logs.items():
            fill(l, kp[0], kp[1], [(0, 1)])
        await round_(3)
        await env.idle()
        calm(env)
        await fresh()
        await fresh()
        compare("after everything was read", before, shape(c))
        return sorted(before[0].items())
    try:
        return w.run(main)
    finally:
        gc.unfreeze()


def member(ch, codes=None, drops=(), actions=(), auto=True, refuse=False):
    gc.freeze()
    rt = zk.Inline()
    g._ids.reset()
    try:
        with zk.ensemble(rt) as srv:
            env = g.SlowEnv(rt, srv, brokers=(1, 2), coordinator=1)
            env.ghosts, env.parts_now = [], None
            for kp in (("a", 0), ("a", 1)):
                env.leader[kp] = 1 + kp[1]
                env.logs[kp] = fakekafka.Log(4)
                fill(env.logs[kp], kp[0], kp[1], [(0, 1), (0, 1)])
                env.committed[(GROUP,) + kp] = env.first[kp] = 4
            env.home = dict(env.leader)
            w = vnet.World(env, ch, max_steps=1500)

            async def main():
                env.members.append(g.Member(env, 0, ALLOCATORS["naive"](), auto, max_bytes=400))
                m = env.members[0]
                vnet.owner.set(0)
                rt.focus = m.conn.index
                env.doing = "connect()"
                await m.c.connect()
                env.poll()
                env.parts_now = ["a:0", "a:1"]
                await env.idle()

                async def round_(n):
                    for i in range(n):
                        env.doing = "consume()"
                        await env.consume(m, "a")
                        if not auto:
                            env.doing = "commit_offsets()"
                            await env.commit(m)

                async def fresh():
                    for kp, l in env.logs.items():
                        fill(l, kp[0], kp[1], [(0, 1)])
                    await round_(4)
                    await level(env, m.c)
                await fresh()
                await fresh()
                before = shape(m.c)
                fault_menus(env, codes, drops, {"fetch", "offset_fetch", "offset_commit", "group_coordinator"}, refuse)
                for a in actions:
                    env.action(a.__name__, lambda a=a: (a(env), env.poll()))
                for kp, l in env.logs.items():
                    fill(l, kp[0], kp[1], [(0, 1)])
                await round_(2)
                await env.idle()
                g.calm(env)
                await fresh()
                await fresh()
                compare("after everything was read and committed", before, shape(m.c))
                return sorted(before[0].items())
            return w.run(main)
    finally:
        gc.unfreeze()


def p34(ctx):
    ctx.rule("a producer, a single consumer and a group member do a few rounds of work without faults, then some with every placement of up to 2 (3) "
             "of: error codes on every subset of partitions, connections reset before/closed after/cut/garbage, refused reconnects, crashes, "
             "leader and coordinator moves, elections, rebalances; then again without. The number of live objects of the library's classes and of "
             "entries in everything reachable from the client must be what it was before.")
    t = ctx.thorough
    b = 3 if t else 2
    hard = ("before", "after", "cut", "garbage")
    for batch in (1, 3):
        ctx.explore("produce-codes-%d" % batch, producing, b, batch=batch, codes={"produce": (6, 10)})
        ctx.explore("produce-drops-%d" % batch, producing, b, batch=batch, drops=hard, refuse=True)
        for a in (crash2, crash2_listed, drop_all, election, leader_moves):
            ctx.explore("produce-%s-%d" % (a.__name__, batch), producing, b, batch=batch, drops=("after",), actions=(a,))
    ctx.explore("produce-overlap", producing, b, codes={"produce": (6,)}, drops=("before",), overlap=True)
    ctx.explore("produce-gzip", producing, b, batch=3, codes={"produce": (6,)}, compression=1)
    ctx.explore("consume-codes", consuming, b, codes={"fetch": (6, 1, 2), "offset": (6,)})
    ctx.explore("consume-drops", consuming, b, drops=hard, refuse=True)
    for a in (crash2, crash2_listed, drop_all, election, leader_moves):
        ctx.explore("consume-%s" % a.__name__, consuming, b, drops=("after",), actions=(a,))
    for auto in (True, False):
        n = "auto" if auto else "manual"
        ctx.explore("member-codes-%s" % n, member, b, auto=auto, codes={"offset_commit": (16, 7, 12), "fetch": (6, 3), "offset_fetch": (14,)})
        ctx.explore("member-drops-%s" % n, member, b, auto=auto, drops=hard, refuse=True)
        for a in (g.ghost_before, g.visit, g.fewer, g.session_lost, g.zk_dropped, g.moves, g.dies, g.drop_all):
            ctx.explore("member-%s-%s" % (a.__name__, n), member, b - 1, auto=auto, drops=("after",), actions=(a,))
    from . import scale
    for name, fn, codes in (("produce", producing, {"produce": (6, 10)}), ("consume", consuming, {"fetch": (6, 1), "offset": (6,)}),
                            ("member", member, {"offset_commit": (16,), "fetch": (6,), "offset_fetch": (14,)})):
        scale.words(ctx, name, ("ok", "err", "err*", "garbage") + scale.LOST, 5 if t else 4, lambda ch, fn=fn, codes=codes: fn(
            ch, codes=codes, drops=("before", "after", "garbage")))
