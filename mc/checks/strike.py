"""P37: a rebalance that strikes while a group member's own code is running."""
import dis
import json
import os
import sys

from .. import fakekafka, vnet, zk
from ..core import HarnessError, Violation
from ..fakekafka import code_menu
from . import grouped as g
from .consumer import fill
from .zk import ALLOCATORS, GROUP, PARTS

import kiel
from kiel.clients import grouped
from kiel import exc

HOME = os.path.dirname(os.path.abspath(kiel.__file__))
PLACES = (os.path.join(HOME, "clients") + os.sep, os.path.join(HOME, "zookeeper") + os.sep)
# what another thread does is only noticed by instructions that look at objects
LOOKS = {dis.opmap[n] for n in dis.opmap if n.startswith((
    "LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "LOAD_METHOD", "BINARY_", "STORE_SUBSCR", "DELETE_SUBSCR", "CONTAINS_OP", "CALL", "FOR_ITER",
    "GET_ITER", "STORE_SLICE", "TO_BOOL", "POP_JUMP", "UNPACK", "COMPARE", "LIST_EXTEND", "SET_UPDATE", "DICT_", "LOAD_DEREF"))}


class Tracer(object):
    """calls back before each instruction of the clients' code"""

    def __init__(self, before, lines=False):
        self.before = before
        self.inside = False
        self.lines = lines

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PLACES) or self.inside:
            return None
        frame.f_trace_opcodes = not self.lines
        frame.f_trace_lines = self.lines
        return self.local

    def local(self, frame, event, arg):
        if event in ("opcode", "line") and not self.inside:
            if self.lines or frame.f_code.co_code[frame.f_lasti] in LOOKS:
                self.inside = True
                try:
                    self.before(frame)
                finally:
                    self.inside = False
        return self.local


class StrikeEnv(g.SlowEnv):
    """the allocation may change in the middle of a call: what counts is that
    every offset asked for or committed was the right one at some time during it"""

    def __init__(self, *a, **kw):
        g.SlowEnv.__init__(self, *a, **kw)
        self.recent = {}              # kp -> positions since the call began
        self.callbacks = []           # rebalance callbacks that are held up

    def note(self):
        for m in self.members:
            for kp, pos in m.pos.items():
                if pos is not None:
                    self.recent.setdefault(kp, set()).add(pos)

    def begin(self):
        self.recent = {}
        self.poll()
        self.note()

    def poll(self):
        self.note()
        g.SlowEnv.poll(self)
        self.note()

    def right(self, m, kp, offset, what):
        self.note()
        if offset not in self.recent.get(kp, ()):
            raise Violation("member %d %s %s/%d at %d; its position was %s" % (
                (m.i, what) + kp + (offset, sorted(self.recent.get(kp, ())) or "never read")))

    def saw_fetch(self, m, req):
        for t, p, part in self.each(req["body"]):
            call = m.now.get(t)
            if call is None:
                raise Violation("member %d fetches %s/%d, but nobody consumes it" % (m.i, t, p))
            if call.sent is None:
                call.sent = (m.ver.get(t), m.calls)
            self.right(m, (t, p), part["offset"], "fetches")

    def saw_commit(self, m, req):
        if fakekafka.name(req["body"]["group"]) != GROUP:
            raise Violation("offsets of group %r committed" % req["body"]["group"])
        for t, p, part in self.each(req["body"]):
            self.right(m, (t, p), part["offset"], "commits")

    def delivered(self, m, req, kp, p):
        g.SlowEnv.delivered(self, m, req, kp, p)
        if req["api"] == "fetch" and not p["error_code"]:
            call = m.now[kp[0]]
            got = call.got.get(kp)
            if got:
                # its positions while it goes through them
                self.recent.setdefault(kp, set()).update(o + 1 for o, _ in got)
        self.note()

    # -- the callbacks ------------------------------------------------------------
    def things(self):
        held = [("callback", 0, self.let_go)] if self.callbacks else []
        rest = g.SlowEnv.things(self)
        if held:
            # kazoo's thread is busy until then
            rest = [(l, max(c, 1), f) for l, c, f in rest if ".watch" not in l]
        return held + rest

    def let_go(self):
        self.callbacks.pop(0)()
        self.poll()

    def judge(self, m, call, r):
        for v in r:
            t, rest = v.split(b"/", 1)
            p, o = rest.split(b"|")[0].split(b":")
            self.returned.setdefault((t.decode(), int(p)), set()).add(int(o))

    def settled(self, m, when, due):
        pass


def visit(env):
    """somebody joins and leaves again at once"""
    g.ghost_before(env)
    while env.callbacks:
        env.let_go()              # (the allocator's lock is held until then)
    g.ghosts_leave(env)


def strikes(ch, acts, first=(), allocator="naive", auto=True, lines=False, topics="ab", codes=None, fresh=False):
    """first: what happened before; acts: what happens in ZooKeeper, in this
    order, each before some instruction"""
    rt = zk.Inline()
    g._ids.reset()
    with zk.ensemble(rt) as srv:
        env = StrikeEnv(rt, srv, brokers=(1, 2), coordinator=1)
        env.ghosts, env.parts_now = [], None
        for kp, n in ((("a", 0), 2), (("a", 1), 2), (("b", 0), 2)):
            env.leader[kp] = 1 + kp[1]
            env.logs[kp] = fakekafka.Log(4)
            fill(env.logs[kp], kp[0], kp[1], [(0, 1)] * n)
            env.committed[(GROUP,) + kp] = env.first[kp] = 5
        w = vnet.World(env, ch, max_steps=1500)
        todo = []
        armed = [False]
        real = grouped.PartitionAllocator

        def make_allocator(*a, **kw):
            call = kw.get("on_rebalance")
            if call:
                def rebalanced():
                    # the thread that calls back may be held up here
                    if armed[0] and ch.pick(["callback", "held up"], [0, 0]):
                        env.callbacks.append(call)
                    else:
                        call()
                kw["on_rebalance"] = rebalanced
            return real(*a, **kw)

        def before(frame):
            if not armed[0] or w.fatal_msg:
                return
            if env.callbacks:
                if ch.pick(["-", "callback before %s:%d" % (frame.f_code.co_name, frame.f_lasti)]):
                    env.let_go()
            elif todo and ch.pick(["-", "%s before %s:%d" % (todo[0].__name__, frame.f_code.co_name, frame.f_lasti)]):
                todo.pop(0)(env)
                env.poll()

        async def call(what, fn):
            env.begin()
            env.doing = what
            try:
                return await fn()
            except exc.KielError as e:
                if not codes:
                    raise Violation("%s failed with %r" % (what, e))

        async def main():
            env.members.append(g.Member(env, 0, ALLOCATORS[allocator](), auto, max_bytes=4000))
            m = env.members[0]
            vnet.owner.set(0)
            rt.focus = m.conn.index
            env.doing = "connect()"
            await m.c.connect()
            m.live = True
            env.poll()
            env.parts_now = ["a:0", "a:1", "b:0"]
            await env.idle()

            async def round_(topics="ab"):
                for t in topics:
                    await call("consume(%r)" % t, lambda: env.consume(m, t))
                    if not auto:
                        await call("commit_offsets()", lambda: env.commit(m))
            for a in first:
                a(env)
            if not fresh:
                await round_()
                await round_()
            for kp, log in sorted(env.logs.items()):
                fill(log, kp[0], kp[1], [(0, 1)])
            if codes:
                env.menu_fn = code_menu(codes)
            todo.extend(acts)
            armed[0] = True
            sys._getframe().f_trace_opcodes = True     # (the interpreter only looks at this in settrace())
            sys.settrace(Tracer(before, lines))
            await round_(topics)
            sys.settrace(None)
            armed[0] = False
            await env.idle()
            while env.callbacks:
                env.let_go()
            g.calm(env)
            await env.idle()
            for i in range(6):
                if not env.missing():
                    break
                await round_()
            if env.missing():
                raise Violation("messages %r are returned to nobody, the group's offsets are %r" % (
                    env.missing(), sorted(env.committed.items())))
            want = {kp: log.end for kp, log in env.logs.items()}
            for i in range(2):
                await round_()
            got = {kp: env.committed.get((GROUP,) + kp) for kp in want}
            if got != want:
                raise Violation("committed in the end: %r instead of %r" % (got, want))
            if srv.callback_errors:
                where, e = srv.callback_errors[0]
                raise Violation("%s: unexpected %s: %s" % (where, type(e).__name__, e))
            if w.loop_errors:
                raise Violation("unhandled: %s" % w.loop_errors[0])
            return len(todo), sorted(env.committed.items())
        grouped.PartitionAllocator = make_allocator
        try:
            return w.run(main)
        finally:
            sys.settrace(None)
            grouped.PartitionAllocator = real


def p37(ctx):
    ctx.rule("ZooKeeper's notifications come on other threads: a rebalance (a member joining before or after ours, leaving, visiting, partitions taken away and given back) "
             "takes place before every single instruction that looks at an object in the clients' and the allocator's code during a round of consume() (and commit_offsets()), the first one or a later one, "
             "with its callback at once or held up until any later network event (thorough, line by line: two of them, callbacks held up until any later line).")
    T = ctx.thorough
    gh, gone, later, fewer, back = g.ghost_before, g.ghosts_leave, g.ghost_after, g.fewer, g.all_back
    N, H, A, M = "naive", "half", True, False
    for first, acts, ways in (
            ((), (gh,), ((N, A), (N, M), (H, A))), ((gh,), (gone,), ((N, A), (N, M), (H, A), (H, M))), ((), (later,), ((N, A),)),
            ((), (fewer,), ((N, M),)), ((fewer,), (back,), ((N, A), (H, M))), ((), (visit,), ((N, A), (H, A)))):
        for allocator, auto in ways:
            n = "%s-%s-%s" % (acts[0].__name__, allocator, "auto" if auto else "manual")
            kw = dict(first=first, acts=acts, allocator=allocator, auto=auto)
            if T or acts[0] is not visit:
                ctx.explore(n, strikes, 1, **kw)
            # ... before it has determined any offsets
            ctx.explore(n + "-fresh", strikes, 1, topics="ab" if T else "a", fresh=True, **kw)
            if T:
                kw["acts"] += acts
                ctx.explore(n + "-lines", strikes, 2, lines=True, topics="a", **kw)
