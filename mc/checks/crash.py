"""P31: what a group keeps and repeats when a member dies."""
import json

from .. import fakekafka, vnet, zk
from ..core import Violation
from ..fakekafka import code_menu, drop_menu, menus
from .consumer import LEADERS, fill
from . import grouped as grp
from .zk import GROUP, MEMBERS, PARTS, ALLOCATORS

from kiel import exc

ONE = [(0, 1)]
PLAIN = [(0, 1), (0, 1), (0, 1)]
GZ = [(1, 2), (0, 1)]
LOGS = {("a", 0): PLAIN, ("a", 1): GZ}
TWO = {("a", 0): PLAIN, ("a", 1): ONE, ("b", 0): PLAIN}


class CrashEnv(grp.SlowEnv):
    """members may die: nothing of theirs runs any more, and what they have sent may or may not arrive"""

    def __init__(self, *a, **kw):
        grp.SlowEnv.__init__(self, *a, **kw)
        self.dead = {}                  # member -> what was committed when it died
        self.limbo = []                 # sessions the servers have not given up yet
        self.by = {}                    # (kp, offset) -> [member that returned it]

    def die(self, i, through):
        m = self.members[i]
        for item in list(self.queue):
            peer = item[1]
            if item[0] == "connect":
                if peer.owner == i:
                    self.queue.remove(item)
            elif peer.sock.owner == i:
                if item[0] == "req" and through:
                    self.process(peer, item[2], {})
                self.queue.remove(item)
        m.live, m.gone = False, True
        conn = m.conn
        if conn in self.rt.conns:
            self.rt.conns.remove(conn)
        conn.up = False
        self.rt.handlers = [h for h in self.rt.handlers if h.index != conn.index]
        self.limbo.append(conn.session)
        self.dead[i] = dict(self.committed)
        # what it was being given when it died was never returned
        m.lost = {(kp, o) for call in m.now.values() for kp, msgs in call.got.items() for o, _ in msgs}
        m.alloc, m.pos = {}, {}
        for peer in self.peers:
            if peer.sock.owner == i:
                peer.closed = True      # nothing more comes through to the dead

    def poll(self):
        live = self.members
        self.members = [m for m in live if not getattr(m, "gone", False)]
        try:
            grp.SlowEnv.poll(self)
        finally:
            self.members = live

    def expire(self):
        while self.limbo:
            self.srv.end_session(self.limbo.pop())
        self.rt.drain()
        self.poll()

    def judge(self, m, call, r):
        n = {kp: set(v) for kp, v in self.returned.items()}
        grp.SlowEnv.judge(self, m, call, r)
        for v in r:
            t, rest = v.split(b"/", 1)
            p, o = rest.split(b"|")[0].split(b":")
            kp, o = (t.decode(), int(p)), int(o)
            again = self.by.setdefault((kp, o), [])
            if again:
                self.repeated(m, kp, o, again)
            again.append(m.i)

    def repeated(self, m, kp, o, before):
        for i in before:
            if i in self.dead:
                if o < self.dead[i].get((GROUP,) + kp, -1):
                    raise Violation("member %d returned %s/%d:%d, which member %d had returned and committed before it died" % (
                        (m.i,) + kp + (o, i)))
            elif m.auto and not self.rebalanced:
                raise Violation("member %d returned %s/%d:%d, which member %d had committed and returned" % (
                    (m.i,) + kp + (o, i)))

    rebalanced = False


def crashing(ch, logs=None, auto=False, members=2, rounds=2, budget=400, codes=None, drops=(), actions=(), who=(0,), late=None,
             allocator="naive", commit_each=True):
    logs = logs or LOGS
    rt = zk.Inline()
    grp._ids.reset()
    with zk.ensemble(rt) as srv:
        env = CrashEnv(rt, srv, brokers=(1, 2), coordinator=1)
        env.checks = {"commits"}
        env.ghosts, env.parts_now = [], None
        # whoever had returned something uncommitted when the partition went to another sees it repeated
        env.rebalanced = bool(actions) or late is not None or bool(drops)
        for kp, entries in sorted(logs.items()):
            env.leader[kp] = LEADERS.get(kp, 1)
            env.logs[kp] = fakekafka.Log(4)
            fill(env.logs[kp], kp[0], kp[1], entries)
            env.committed[(GROUP,) + kp] = env.first[kp] = 4
        w = vnet.World(env, ch, max_steps=1500)
        fn = ALLOCATORS[allocator]()
        topics = sorted({t for t, _ in logs})

        async def connect(m):
            vnet.owner.set(m.i)
            rt.focus = m.conn.index
            await m.c.connect()
            m.live = True
            env.poll()

        async def loop(m):
            vnet.owner.set(m.i)
            for i in range(rounds):
                for t in topics:
                    r = await env.consume(m, t)
                    if not m.auto and commit_each and r:
                        await env.commit(m)
                if not m.auto and not commit_each:
                    await env.commit(m)

        async def main():
            for i in range(members):
                env.members.append(grp.Member(env, i, fn, auto, max_bytes=budget))
            env.doing = "connect()"
            for m in env.members:
                if m.i != late:
                    await connect(m)
            env.parts_now = ["%s:%d" % kp for kp in sorted(logs)]
            await env.idle()
            env.poll()
            ms = []
            if codes:
                ms.append(code_menu(codes))
            if drops:
                ms.append(drop_menu({"fetch", "offset_fetch", "offset_commit"}, drops))
            env.menu_fn = menus(*ms) if ms else None
            tasks = {}
            over = {}

            def done(i):
                if not over[i].done():
                    over[i].set_result(None)

            def dies(i, through):
                env.die(i, through)
                done(i)
                w.woke = True

            for i in who:
                for through in (False, True):
                    env.action("member %d dies%s" % (i, ", its requests get through" if through else ""),
                               lambda i=i, through=through: dies(i, through),
                               guard=lambda i=i: i not in env.dead and env.members[i].live and len(env.dead) < members - 1)
            env.action("session ends", env.expire, guard=lambda: bool(env.limbo))
            for a in actions:
                env.action(a.__name__, lambda a=a: (a(env), env.poll()))
            env.doing = "consume()"

            def launch(i):
                over[i] = w.loop.create_future()

                async def life():
                    m = env.members[i]
                    if i == late:
                        await connect(m)
                    await loop(m)
                tasks[i] = w.spawn(life())
                tasks[i].add_done_callback(lambda _: done(i))
            for i in range(members):
                launch(i)
            for i in list(over):
                await over[i]
                if i not in env.dead:
                    await tasks[i]
            # sooner or later the servers notice
            env.actions = []
            env.expire()
            await env.idle()
            for i, m in enumerate(env.members):
                if i in env.dead and auto:
                    # committed, but it died before it could return them
                    env.excused |= {(kp, o) for kp, o in m.lost if o < env.dead[i].get((GROUP,) + kp, -1)}
            await grp.drain(env, topics)
            alive = [m for m in env.members if m.live]
            held = sorted(kp for m in alive for kp in m.pos)
            if sorted(logs) != held:
                raise Violation("after the death of %r the others hold %r" % (sorted(env.dead), held))
            if srv.callback_errors:
                where, e = srv.callback_errors[0]
                raise Violation("%s: unexpected %s: %s" % (where, type(e).__name__, e))
            if w.loop_errors:
                raise Violation("unhandled: %s" % w.loop_errors[0])
            return sorted(env.dead), sorted(env.committed.items()), sorted((k, tuple(v)) for k, v in env.by.items())
        try:
            return w.run(main)
        except exc.KielError as e:
            raise Violation("%s raised %r" % (env.doing, e))


def p31(ctx):
    ctx.rule("2-3 members of a group consume 1-2 topics concurrently; one or two of them die at any network event (what they had just sent arrives or "
             "not), their sessions end then or at any later event; combined with error codes, connection failures, leader and coordinator moves "
             "up to the bound. In the end every message of every partition must have been returned, unless it was committed "
             "automatically just before the death; nothing may be returned again that had been committed.")
    ctx.assume("processing is what happens between consume() returning and commit_offsets() being called")
    ctx.assume("a message may be returned twice if a rebalance or an error came between its being returned and committed")
    T = ctx.thorough
    b = 4 if T else 3
    for auto in (False, True):
        n = "auto" if auto else "manual"
        ctx.explore("one-%s" % n, crashing, b, auto=auto)
        ctx.explore("two-topics-%s" % n, crashing, b, auto=auto, logs=TWO)
        ctx.explore("either-%s" % n, crashing, b - 1, auto=auto, who=(0, 1))
        ctx.explore("three-%s" % n, crashing, b - 1, auto=auto, members=3, who=(0, 1, 2) if T else (0,), logs=TWO)
        ctx.explore("half-%s" % n, crashing, b - 1, auto=auto, allocator="half", who=(0, 1))
        ctx.explore("small-%s" % n, crashing, b - 1, auto=auto, budget=45, rounds=3, logs=TWO)
        ctx.explore("codes-%s" % n, crashing, b - 1, auto=auto, codes={"offset_commit": (16, 7), "fetch": (6,)})
        ctx.explore("drops-%s" % n, crashing, b - 1, auto=auto, drops=("before", "after"))
        for act in (grp.moves, grp.leaders_move, grp.dies, grp.ghost_after):
            ctx.explore("%s-%s" % (act.__name__, n), crashing, b - 1, auto=auto, actions=(act,))
        ctx.explore("late-%s" % n, crashing, b - 1, auto=auto, late=1)
    ctx.explore("commit-later", crashing, b, commit_each=False, logs=TWO)
