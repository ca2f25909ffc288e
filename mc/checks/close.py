"""P15: what close() leaves behind, and what a closed client still does."""
import itertools

from .. import fakekafka, vnet, zk
from ..core import Chooser, HarnessError, Violation
from ..fakekafka import code_menu, drop_menu, menus, refuse_menu
from . import consumer as con, grouped as grp
from .producer import FATAL, ProduceEnv, Tracker, make, msg

from kiel import exc
from kiel.clients.single import SingleConsumer

TOPICS = {"a": {0: 1, 1: 2}, "b": {0: 2}}


def quiet(env, w, when):
    """nothing the client opened is left open"""
    left = [s.addr for s in w.all_socks if s.state != "closed"]
    if left:
        raise Violation("%s: connections to %s are still open" % (when, sorted(map(str, left))))


class Silence(object):
    """what a program does from here on must not reach the network"""

    def __init__(self, env):
        self.env = env
        self.before = self.count()

    def count(self):
        return len(self.env.connects), sum(p.frames for p in self.env.peers)

    def check(self, what):
        if self.count() != self.before:
            raise Violation("%s: connects/frames went from %r to %r on a closed client" % (what, self.before, self.count()))


async def after_close(env, w, what):
    """what: (label, call, allowed results)"""
    await env.idle()
    quiet(env, w, "after close()")
    s = Silence(env)
    for label, call, allowed in what:
        env.doing = label + " after close()"
        try:
            r = await call()
        except Exception as e:
            raise Violation("%s after close() raised %r" % (label, e))
        if r not in allowed:
            raise Violation("%s after close() gave %r" % (label, r))
        await env.idle()
        s.check(label)
    quiet(env, w, "in the end")


# ---------------------------------------------------------------------------

def producer(ch, script, batch, overlap, codes=(), drops=None, actions=(), refuse=False, lossless=True, compression=None):
    """script: messages, 'flush', 'connect', 'close'"""
    env = ProduceEnv(brokers=(1, 2), topics=TOPICS)
    env.op_cost = 1 if overlap else None
    w = vnet.World(env, ch, max_steps=1200)

    async def main():
        c = make(env, batch_size=batch, compression=compression)
        if "connect" not in script:
            env.doing = "connect()"
            await c.connect()
            await env.idle()
        t = Tracker(env)
        ms = []
        if codes:
            ms.append(code_menu({"produce": codes}))
        if drops:
            ms.append(drop_menu({"produce", "metadata"}, drops))
        env.menu_fn = menus(*ms) if ms else None
        if refuse:
            env.connect_menu = refuse_menu
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))
        accepted = []
        state = {"closed": False}

        def serialize(m):
            if state["closed"]:
                env.late = env.late or m
            accepted.append(m)
            return m
        env.late = None
        c.serializer = serialize

        async def close():
            state["closed"] = True
            await c.close()
            # every message that was accepted before or meanwhile
            check(c, "close() is done")

        def check(c, when):
            for m in accepted:
                if m in t.refused:
                    continue
                topic = chr(m[0])
                if topic not in env.topics():
                    continue                # gone from the cluster
                if not any(m in l.values() for l in env.logs.values()):
                    raise Violation("%s, but message %r is in no log" % (when, m))

        def op(s):
            if s == "flush":
                return c.flush
            if s == "connect":
                return c.connect
            if s == "close":
                return close

            async def go():
                m = msg(s)
                await c.produce(chr(m[0]), m)
            return go
        failed = []
        if overlap:
            for s in script:
                env.op(s, op(s))
            res = await env.run_ops()
        else:
            res = []
            for s in script:
                env.doing = s
                try:
                    res.append((s, await op(s)()))
                except exc.NoBrokersError as e:
                    res.append((s, e))
        if env.late:
            raise Violation("message %r was taken although close() had been called" % env.late)
        for label, r in res:
            if isinstance(r, Violation):
                raise r
            if isinstance(r, exc.NoBrokersError) and (not lossless or (label != "close" and "close" in script)):
                failed.append(label)
            elif isinstance(r, BaseException):
                raise Violation("%s failed: %r" % (label, r))
        if "close" in failed:
            # it said so, and has kept what it could not send
            unsettled = [m for m in accepted if m not in t.acked and m not in t.refused]
            if c.unsent_count < len([m for m in unsettled if chr(m[0]) in env.topics()]):
                raise Violation("close() found no brokers, and of %r only %d are still queued" % (unsettled, c.unsent_count))
        elif "close" in script:
            check(c, "in the end")
        await after_close(env, w, [
            ("produce", lambda: c.produce("a", b"a0z"), (None,)),
            ("produce to an unknown topic", lambda: c.produce("zz", b"a0z"), (None,)),
        ] + ([("flush", c.flush, (None,)), ("close", c.close, (None,))] if not failed else []))
        if w.loop_errors:
            raise Violation("unhandled: %s" % w.loop_errors[0])
        return failed, sorted(t.attempts.items()), len(env.hist)
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


# ---------------------------------------------------------------------------

def single(ch, script, overlap, codes=(), lookup=(), drops=(), actions=(), refuse=False):
    """script: topics to consume, 'connect', 'close'"""
    env = con.build(con.ConsumeEnv(brokers=(1, 2)), ({("a", 0): con.PLAIN, ("a", 1): con.GZ, ("b", 0): con.PLAIN}, 0))
    env.op_cost = 1 if overlap else None
    w = vnet.World(env, ch, max_steps=1200)

    async def main():
        c = SingleConsumer(["k1:9092", "k2:9092"], deserializer=con.decode, max_bytes=con.tight(env) + 30)
        if "connect" not in script:
            env.doing = "connect()"
            await c.connect()
            await env.idle()
        env.watch = True
        ms = []
        if codes or lookup:
            ms.append(code_menu({"fetch": codes, "offset": lookup}))
        if drops:
            ms.append(drop_menu({"fetch", "offset", "metadata"}, drops))
        env.menu_fn = menus(*ms) if ms else None
        if refuse:
            env.connect_menu = refuse_menu
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))
        state = {"closed": False}

        async def close():
            state["closed"] = True
            await c.close()

        def op(s):
            if s == "connect":
                return c.connect
            if s == "close":
                return close

            async def go():
                was = state["closed"]
                r = await c.consume(s, con.BEGIN)
                if was and r:
                    raise Violation("consume() on a closed client returned %r" % r)
                if r:
                    env.returned(s, r)
                return r if r is None else len(r)
            return go
        if overlap:
            for s in script:
                env.op(s, op(s))
            res = await env.run_ops()
        else:
            res = []
            for s in script:
                env.doing = s
                try:
                    res.append((s, await op(s)()))
                except exc.NoBrokersError as e:
                    res.append((s, e))
        for label, r in res:
            if isinstance(r, Violation):
                raise r
            if isinstance(r, BaseException) and (label == "close" or not isinstance(r, exc.NoBrokersError)):
                raise Violation("%s failed: %r" % (label, r))
        await after_close(env, w, [
            ("consume", lambda: c.consume("a"), (None, [])),
            ("consume of an unknown topic", lambda: c.consume("zz"), (None, [])),
            ("consume with a start", lambda: c.consume("b", con.BEGIN), (None, [])),
            ("close", c.close, (None,)),
        ])
        if w.loop_errors:
            raise Violation("unhandled: %s" % w.loop_errors[0])
        return [(l, repr(r)) for l, r in res]
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


# ---------------------------------------------------------------------------

def group(ch, script, overlap, auto=True, codes=None, drops=(), actions=(), refuse=False):
    """script: topics to consume, 'commit', 'connect', 'close'"""
    rt = zk.Inline()
    grp._ids.reset()
    with zk.ensemble(rt) as srv:
        env = grp.SlowEnv(rt, srv, brokers=(1, 2), coordinator=1)
        env.ghosts, env.parts_now = [], None
        env.op_cost = 1 if overlap else None
        for kp, entries in sorted({("a", 0): con.PLAIN, ("a", 1): con.GZ, ("b", 0): con.PLAIN}.items()):
            env.leader[kp] = con.LEADERS[kp]
            env.logs[kp] = fakekafka.Log(4)
            con.fill(env.logs[kp], kp[0], kp[1], entries)
            env.committed[(grp.GROUP,) + kp] = env.first[kp] = 4
        w = vnet.World(env, ch, max_steps=1200)

        async def main():
            m = grp.Member(env, 0, grp.ALLOCATORS["naive"](), auto, max_bytes=200)
            env.members.append(m)
            vnet.owner.set(0)
            rt.focus = m.conn.index
            c = m.c

            async def connect():
                await c.connect()
                m.live = True
                env.poll()
            if "connect" not in script:
                env.doing = "connect()"
                await connect()
                await env.idle()
            ms = []
            if codes:
                ms.append(code_menu(codes))
            if drops:
                ms.append(drop_menu({"fetch", "offset_fetch", "offset_commit", "group_coordinator"}, drops))
            env.menu_fn = menus(*ms) if ms else None
            if refuse:
                env.connect_menu = refuse_menu
            for a in actions:
                env.action(a.__name__, lambda a=a: (a(env), env.poll()))
            env.parts_now = ["%s:%d" % kp for kp in sorted(env.logs)]
            state = {"closed": False}

            async def close():
                state["closed"] = True
                await c.close()
                env.poll()

            async def commit():
                await c.commit_offsets()

            def op(s):
                async def mine():
                    vnet.owner.set(0)
                    return await plain(s)()
                return mine

            def plain(s):
                if s == "connect":
                    return connect
                if s == "close":
                    return close
                if s == "commit":
                    return commit

                async def go():
                    was = state["closed"]
                    if m.alloc == {} and not m.live:
                        return None             # not connected yet
                    call = m.now[s] = grp.Call(s)
                    try:
                        r = await c.consume(s)
                    finally:
                        del m.now[s]
                    if was and r:
                        raise Violation("consume() on a closed client returned %r" % r)
                    if r:
                        env.judge(m, call, r)
                    return r if r is None else len(r)
                return go
            if overlap:
                for s in script:
                    env.op(s, op(s))
                res = await env.run_ops()
            else:
                res = []
                for s in script:
                    env.doing = s
                    try:
                        res.append((s, await op(s)()))
                    except exc.NoBrokersError as e:
                        res.append((s, e))
            for label, r in res:
                if isinstance(r, Violation):
                    raise r
                if isinstance(r, BaseException) and (label == "close" or not isinstance(r, exc.NoBrokersError)):
                    raise Violation("%s failed: %r" % (label, r))
            n = grp.MEMBERS + "/" + c.name
            if n in srv.nodes and not any(a in (grp.zk_dropped, grp.session_lost, grp.session_lost_slow) for a in actions):
                raise Violation("the closed member is still listed in the group")
            if m.conn.started:
                raise Violation("the ZooKeeper connection is still there after close()")
            calls = m.calls
            await after_close(env, w, [
                ("consume", lambda: c.consume("a"), (None,)),
                ("consume of an unknown topic", lambda: c.consume("zz"), (None,)),
            ])
            if srv.callback_errors:
                where, e = srv.callback_errors[0]
                raise Violation("%s: unexpected %s: %s" % (where, type(e).__name__, e))
            if w.loop_errors:
                raise Violation("unhandled: %s" % w.loop_errors[0])
            return [(l, repr(r)) for l, r in res], m.calls - calls
        try:
            return w.run(main)
        except exc.KielError as e:
            raise Violation("%s raised %r" % (env.doing, e))


# ---------------------------------------------------------------------------

def crash2(env):
    env.crash(2)


def outage(env):
    for node in sorted(env.up):
        env.crash(node)


def drop_all(env):
    for p in env.live_peers():
        env.drop(p)


def leader_moves(env):
    for kp, to in ((("a", 0), 2), (("b", 0), 1)):
        if to in env.up and kp in env.leader:
            env.leader[kp] = to


def topic_gone(env):
    env.leader.pop(("b", 0), None)


def p15(ctx):
    ctx.rule("histories of produce()/flush()/consume()/commit_offsets()/connect()/close() on each of the three clients, one after another and "
             "overlapping in every order, with up to the bounded number of error codes on every subset of partitions, connection failures, refused "
             "reconnects, crashes, outages, leader moves, rebalances at every point; at the end all sockets must be closed, later calls "
             "must not reach any broker, and whatever a producer accepted must be in a log (or have been refused for good).")
    ctx.assume("messages of a topic that has gone from the cluster have nowhere to go")
    ctx.assume("close() may fail with NoBrokersError if no broker can be reached; the producer then still has the messages")
    T = ctx.thorough
    b = 3 if T else 2
    for script, batch in ((["a0x", "close"], 9), (["a0x", "a1x", "b0x", "a0y", "close"], 9), (["a0x", "a1x", "close"], 1),
                          (["a0x", "a1x", "b0x", "close", "a0z"], 2)):
        name = "+".join(script) + "-batch%d" % batch
        ctx.explore("producer-codes-" + name, producer, b + 1, script=script, batch=batch, overlap=False, codes=(6, 7, 19, 10))
        ctx.explore("producer-drops-" + name, producer, b, script=script, batch=batch, overlap=False, codes=(6,),
                    drops=("before", "after", "cut", "garbage"), refuse=True, lossless=False)
        for act in (crash2, drop_all, leader_moves, topic_gone, outage):
            ctx.explore("producer-%s-%s" % (act.__name__, name), producer, b, script=script, batch=batch, overlap=False, codes=(19,),
                        drops=("after",), actions=(act,), lossless=act is not outage)
    for script, batch in ((["a0x", "close"], 1), (["a0x", "a1x", "close", "b0x"], 2), (["a0x", "b0x", "flush", "close"], 9),
                          (["a0x", "close", "a1x", "close"], 1), (["connect", "close", "a0x"], 1), (["connect", "a0x", "close"], 9)):
        name = "+".join(script) + "-batch%d" % batch
        ctx.explore("producer-overlap-" + name, producer, b + 1, script=script, batch=batch, overlap=True, codes=(6, 10),
                    drops=("before",) if "connect" not in script else (), lossless="connect" not in script)
        ctx.explore("producer-overlap-act-" + name, producer, b, script=script, batch=batch, overlap=True, codes=(7,),
                    drops=("after",), actions=(crash2, drop_all), lossless=False)
    for comp in (1, 2):
        ctx.explore("producer-compressed%d" % comp, producer, b, script=["a0x", "a0y", "b0x", "close"], batch=9, overlap=False,
                    codes=(6, 10), drops=("after",), compression=comp)
    for script in (["a", "close"], ["a", "close", "b"], ["a", "b", "close", "close"], ["connect", "close", "a"], ["close"], ["connect", "close"]):
        name = "+".join(script)
        for over in (False, True):
            n = name + ("-overlap" if over else "")
            ctx.explore("single-" + n, single, b + 1 if over and len(script) < 4 else b, script=script, overlap=over, codes=(6, 1), lookup=(6, 3),
                        drops=("before", "cut"), refuse=True)
            ctx.explore("single-acts-" + n, single, b, script=script, overlap=over, drops=("garbage",), actions=(crash2, drop_all, outage))
    for script in (["a", "close"], ["a", "close", "b"], ["a", "b", "close", "commit"], ["connect", "close", "a"], ["connect", "close"],
                   ["a", "close", "close"]):
        name = "+".join(script)
        for over in (False, True):
            for auto in (True, False):
                n = name + ("-overlap" if over else "") + ("-auto" if auto else "")
                ctx.explore("group-" + n, group, b, script=script, overlap=over, auto=auto, codes={"fetch": (6,), "offset_commit": (16, 7)},
                            drops=("before",), refuse=True)
                ctx.explore("group-acts-" + n, group, b, script=script, overlap=over, auto=auto,
                            actions=(grp.ghost_before, grp.session_lost, grp.moves, drop_all, outage))
