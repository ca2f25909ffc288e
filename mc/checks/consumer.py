"""P16-P19: what a single consumer returns, from where, and what it asks for."""
import calendar
import datetime
import itertools
import json
import time

from .. import fakekafka, kspec, vnet
from ..core import Chooser, Violation
from ..fakekafka import code_menu, drop_menu, menus, refuse_menu
from .cluster import MetaEnv

from kiel import exc
from kiel.clients.single import SingleConsumer

BEGIN, END = -2, -1
FETCH_CODES = (6, 3, -1)         # retriable, retriable, fatal
LOOKUP_CODES = (6, 7)


class Poison(Exception):
    pass


def decode(v):
    if isinstance(v, str):            # bytes that are valid UTF-8 arrive as text
        v = v.encode("utf-8")
    if v is None or v.startswith(b"!"):
        raise Poison(v)
    return v


def value(t, p, off, pad=0, bad=False):
    return (b"!" if bad else b"") + b"%s/%d:%d|" % (t.encode(), p, off) + b"." * pad


def fill(log, t, p, entries, bad=()):
    """entries: list of (codec, number of messages); messages pad with their offset"""
    for codec, n in entries:
        kvs = []
        for i in range(n):
            off = log.end + i
            kvs.append((None if off % 2 else b"k", value(t, p, off, (off * 7) % 5, off in bad)))
        log.append(kvs, codec)


class ConsumeEnv(MetaEnv):
    """checks every fetch against what has been returned so far"""

    def __init__(self, **kw):
        MetaEnv.__init__(self, **kw)
        self.pos = {}             # (t, p) -> offset of the last delivered lookup answer
        self.seen = {}            # (t, p) -> values returned since
        self.expect_time = None   # check(time) for lookups
        self.watch = False
        self.fetches = []
        self.told = set()         # topics told out of range in this call
        self.reset = set()        # ... in an earlier one, not looked up since
        self.unfetched = set()
        self.empty = set()        # partitions the brokers know no offset for
        self.lost = set()         # partitions whose log was replaced, not looked up since

    def new_call(self):
        self.reset |= self.told
        self.told = set()

    def start_reading(self, kp, offset):
        self.pos[kp] = offset
        self.seen[kp] = []
        self.lost.discard(kp)

    def todo(self, kp):
        """messages of this partition still to be returned"""
        vals = [(o, v) for o, k, v in self.logs[kp].messages() if o >= self.pos[kp]
                and v is not None and not v.startswith(b"!")]
        return vals[len(self.seen[kp]):]

    def do_offset(self, node, body, errs):
        for t in body["topics"]:
            for p in t["partitions"]:
                if self.expect_time is not None:
                    self.expect_time(p["time"])
                if p["max_offsets"] < 1:
                    raise Violation("offset lookup for %d offsets" % p["max_offsets"])
        return MetaEnv.do_offset(self, node, body, errs, self.empty)

    def send(self, peer, req, body):
        """a response that reaches the client whole"""
        if peer.sock.state == "open" and self.watch:
            for t in body.get("topics", ()) if req["api"] in ("offset", "fetch") else ():
                for p in t["partitions"]:
                    kp = (fakekafka.name(t["name"]), p["partition_id"])
                    if req["api"] == "offset" and not p["error_code"] and p["offsets"]:
                        self.start_reading(kp, p["offsets"][0])
                        self.unfetched.add(kp)
                    if req["api"] == "fetch" and p["error_code"] == 1:
                        self.told.add(kp[0])
        MetaEnv.send(self, peer, req, body)

    def do_fetch(self, node, body, errs):
        if self.watch:
            for t, p, part in self.each(body):
                self.check_fetch((t, p), part["offset"])
        self.fetches.append((node, body))
        return MetaEnv.do_fetch(self, node, body, errs)

    def check_fetch(self, kp, offset):
        if kp[0] in self.reset:
            raise Violation("%s/%d fetched although the topic was out of range and not looked up again" % kp)
        if kp in self.lost:
            return
        if kp not in self.pos:
            raise Violation("%s/%d fetched at %d before its starting offset was known" % (kp + (offset,)))
        if kp in self.unfetched:
            if offset != self.pos[kp]:
                raise Violation("%s/%d first fetched at %d, but reading starts at %d" % (kp + (offset, self.pos[kp])))
            self.unfetched.discard(kp)
            return
        todo = self.todo(kp)
        log = self.logs[kp]
        if todo and offset > todo[0][0]:
            raise Violation("%s/%d fetched at %d: message at %d skipped" % (kp + (offset, todo[0][0])))
        if offset > log.end:
            raise Violation("%s/%d fetched at %d, beyond its end %d" % (kp + (offset, log.end)))
        done = [o for o, _, v in log.messages() if self.pos[kp] <= o and (v in self.seen[kp])]
        if done and offset <= done[-1]:
            raise Violation("%s/%d fetched at %d again after the message at %d was returned" % (
                kp + (offset, done[-1])))
        if offset < self.pos[kp]:
            raise Violation("%s/%d fetched at %d, before its start %d" % (kp + (offset, self.pos[kp])))

    def returned(self, topic, msgs):
        if msgs is None:
            raise Violation("consume(%r) returned None" % topic)
        for v in msgs:
            if not isinstance(v, bytes) or b"/" not in v:
                raise Violation("consume() returned %r" % (v,))
            t, rest = v.split(b"/", 1)
            p = int(rest.split(b":")[0])
            kp = (t.decode(), p)
            if kp[0] != topic:
                raise Violation("consume(%r) returned %r" % (topic, v))
            if kp not in self.pos:
                raise Violation("consume() returned %r of a partition whose start is unknown" % v)
            todo = self.todo(kp)
            if not todo or todo[0][1] != v:
                if v in self.seen[kp]:
                    raise Violation("message %r returned a second time" % v)
                raise Violation("consume() returned %r, the next message of %s/%d is %r" % (
                    (v,) + kp + (todo[0] if todo else None,)))
            self.seen[kp].append(v)


def calm(env):
    env.menu_fn = env.connect_menu = None
    env.actions = []
    for due in list(env.countdown):
        due[1]()
    env.countdown = []
    env.listed = None
    env.up |= set(env.addr)
    env.part_error.clear()
    env.topic_error.clear()
    for k, l in env.leader.items():
        if l not in env.up:
            env.leader[k] = min(env.up)


async def drain(env, c, topics, start, rounds):
    """no more faults: everything must come out"""
    calm(env)
    idle = 0
    for i in range(rounds):
        before = (len(env.hist), sum(len(v) for v in env.seen.values()), env.pos.copy())
        for t in topics:
            env.doing = "consume(%r) once the faults are over" % t
            env.new_call()
            try:
                env.returned(t, await c.consume(t, start))
            except exc.NoBrokersError:
                # a broker that is back is only noticed by the next refresh
                if i > 1:
                    raise Violation("no brokers although all of them are back")
        left = {kp: len(env.todo(kp)) for kp in env.leader if kp[0] in topics and kp in env.pos and env.todo(kp)}
        missing = [kp for kp in env.leader if kp[0] in topics and kp not in env.pos]
        if not left and not missing:
            break
        idle = 0 if sum(len(v) for v in env.seen.values()) > before[1] else idle + 1
        if idle > 4:
            break
    if left or missing:
        raise Violation("%r messages never returned, %r never read once the faults are over" % (left, missing))
    for t in topics:
        env.doing = "consume(%r) at the end of the log" % t
        r = await c.consume(t, start)
        env.returned(t, r)


# ---------------------------------------------------------------------------
# P16

def crash2(env):
    env.crash(2)


def crash2_listed(env):
    env.listed = sorted(env.up)
    env.crash(2)
    env.after(2, lambda: setattr(env, "listed", None))


def leader_moves(env):
    for kp in (("a", 0), ("a", 1)):
        to = 3 - env.leader[kp] if 3 - env.leader[kp] in env.up else env.leader[kp]
        env.leader[kp] = to


def drop_all(env):
    for p in env.live_peers():
        env.drop(p)


def election(env):
    env.part_error[("a", 1)] = 5
    env.after(2, env.part_error.clear)


def append(env):
    for kp, l in sorted(env.logs.items()):
        fill(l, kp[0], kp[1], [(0, 1), (1, 2)])


PLAIN = [(0, 1), (0, 1), (0, 1)]
GZ = [(1, 3), (1, 1), (1, 2)]
MIX = [(0, 1), (2, 2), (1, 2)]
LAYOUTS = {
    "plain": ({("a", 0): PLAIN, ("a", 1): PLAIN + PLAIN}, 0),
    "gzip": ({("a", 0): GZ, ("a", 1): MIX}, 0),
    "mixed": ({("a", 0): MIX, ("a", 1): [(2, 2), (2, 2)], ("a", 4): PLAIN}, 0),
    "midset": ({("a", 0): GZ, ("a", 1): [(2, 3), (0, 1)]}, 1),     # retention cuts into a set
    "empty": ({("a", 0): [], ("a", 1): PLAIN}, 0),
}
LEADERS = {("a", 0): 1, ("a", 1): 2, ("a", 4): 1, ("b", 0): 2}


def build(env, layout, first=0):
    parts, begin = LAYOUTS[layout] if isinstance(layout, str) else layout
    for kp, entries in sorted(parts.items()):
        env.leader[kp] = LEADERS.get(kp, 1)
        env.logs[kp] = fakekafka.Log(first)
        fill(env.logs[kp], kp[0], kp[1], entries)
        if begin:
            env.logs[kp].start += begin
    return env


def tight(env):
    """the smallest budget with which every entry can be fetched"""
    big = max([len(e.raw) for l in env.logs.values() for e in l.entries] or [1])
    return max(1, len(env.leader)) * big


def p16_scenario(ch, layout, slack, codes=(), lookup=(), drops=(), actions=(), rounds=2, refuse=False,
                 first=0, overlap=False, vary=False):
    env = build(ConsumeEnv(brokers=(1, 2)), layout, first)
    w = vnet.World(env, ch, max_steps=1500)
    env.op_cost = 1 if overlap else None

    async def main():
        env.doing = "connect()"
        room = 60 if append in actions else 0         # what append adds is bigger
        m = tight(env) + slack + room * len(env.leader)
        c = SingleConsumer(["k1:9092", "k2:9092"], deserializer=decode, max_bytes=m)
        await c.connect()
        await env.idle()
        env.watch = True
        ms = []
        if codes or lookup:
            ms.append(code_menu({"fetch": codes, "offset": lookup}))
        if drops:
            ms.append(drop_menu({"fetch", "offset", "metadata"}, drops))
        env.menu_fn = menus(*ms)
        if refuse:
            env.connect_menu = refuse_menu
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))
        topics = sorted({t for t, _ in env.leader})

        def op(t):
            async def go():
                try:
                    env.returned(t, await c.consume(t, BEGIN))
                except exc.NoBrokersError:
                    return "no brokers"
            return go
        for i in range(rounds):
            if overlap:
                for t in topics:
                    env.op("consume " + t, op(t))
                for label, r in await env.run_ops():
                    if isinstance(r, BaseException):
                        raise r if isinstance(r, Violation) else Violation("%s failed: %r" % (label, r))
            else:
                for t in topics:
                    env.doing = "consume(%r)" % t
                    await op(t)()
        await env.idle()
        got = sorted((kp, len(v)) for kp, v in env.seen.items())
        for a in actions:
            if a is append and any(x[0] == "append" for x in env.actions):
                append(env)
        await drain(env, c, topics, BEGIN, 40)
        return got, env.hist[-6:]
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def p16(ctx):
    ctx.rule("consume() loops over 2-3 partitions on 2 brokers with plain, gzip, snappy and mixed logs (also beginning inside a "
             "compressed set, at large offsets, empty, growing), fetch budgets from one entry upwards in steps that cut entries at every byte of "
             "the last one; up to 2 (3) of: error codes on every subset of partitions, connections reset before/closed after/cut/garbage, "
             "refused reconnects, broker crashes, leader moves, elections, at every point; consumption of two topics overlapping.")
    ctx.assume("one consume() per topic at a time")
    ctx.assume("max_bytes leaves every partition of a request room for its largest (compressed) message")
    ctx.assume("an out-of-range error (retention overtaking the consumer) makes the topic start over, as documented: see P17")
    t = ctx.thorough
    b = 3 if t else 2
    for lay in LAYOUTS:
        for slack in (0, 40):
            ctx.explore("codes-%s-%d" % (lay, slack), p16_scenario, b, layout=lay, slack=slack,
                        codes=FETCH_CODES, lookup=(6,))
        ctx.explore("drops-%s" % lay, p16_scenario, b, layout=lay, slack=15, codes=(6,), lookup=(),
                    drops=("before", "after", "cut", "garbage"), refuse=True)
    for act in (crash2, crash2_listed, leader_moves, drop_all, election, append):
        for lay in ("plain", "mixed"):
            ctx.explore("%s-%s" % (act.__name__, lay), p16_scenario, b, layout=lay, slack=7, codes=(6,), drops=("after",),
                        actions=(act,), rounds=3)
    ctx.explore("crash-append", p16_scenario, b, layout="gzip", slack=0, codes=(), drops=("cut",),
                actions=(append, crash2), rounds=3)
    ctx.explore("late-offsets", p16_scenario, b, layout="mixed", slack=3, codes=(6,), drops=("cut",), first=(1 << 40))
    two = ({("a", 0): MIX, ("a", 1): PLAIN, ("b", 0): GZ}, 0)
    ctx.explore("overlap", p16_scenario, b, layout=two, slack=0, codes=(6,), drops=("before", "after"), overlap=True)
    ctx.explore("overlap-moves", p16_scenario, b, layout=two, slack=0, drops=("garbage",), overlap=True,
                actions=(leader_moves, crash2))
    for lay in LAYOUTS:
        ctx.cases("budgets-%s" % lay, lambda: range(0, 400 if not t else 900), lambda s, lay=lay: p16_scenario(
            Chooser(), lay, s, rounds=1))
    ctx.cases("logs", lambda: logs_gen(t), logs_case)
    from . import scale
    scale.many(ctx, "messages", scale.consume_grid, scale.consume_many)
    for lay in ("mixed", "plain"):
        scale.words(ctx, lay, ("ok", "err6", "err6*", "err-1", "cut") + scale.LOST, 6 if t else 5, lambda ch, lay=lay: p16_scenario(
            ch, lay, 40, codes=(6, -1), lookup=(6,), drops=("before", "after", "cut"), rounds=6))


def logs_gen(t):
    kinds = [(0, 1), (1, 1), (1, 2), (2, 2), (1, 3)]
    for n in range(1, 5 if t else 4):
        for es in itertools.product(kinds, repeat=n):
            for begin in (0, 1):
                for slack in (0, 13, 60):
                    yield es, begin, slack


def logs_case(case):
    es, begin, slack = case
    if sum(n for _, n in es) <= begin:
        return None
    return p16_scenario(Chooser(), ({("a", 0): list(es)}, begin), slack, rounds=1)


# ---------------------------------------------------------------------------
# P17

def utc(secs):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=secs)


class Start(object):
    def __init__(self, kind):
        self.kind = kind
        self.t0 = time.time()

    def arg(self):
        return {"begin": BEGIN, "end": END, "none": None,
                "date": utc(1455753600), "fraction": utc(1455753600.75),
                "age": datetime.timedelta(days=2), "age-s": datetime.timedelta(seconds=90)}[self.kind]

    def ok(self, wire):
        k = self.kind
        if k == "begin":
            return wire == BEGIN
        if k in ("end", "none"):
            return wire == END
        if k in ("date", "fraction"):
            want = [1455753600 + (0.75 if k == "fraction" else 0)] * 2
        else:
            age = 2 * 86400 if k == "age" else 90
            want = [self.t0 - age - 1, time.time() - age + 1]
        # epoch seconds, as the existing tests demand (Kafka itself counts
        # milliseconds: either is accepted here, see the scenario time-units)
        return any(int(want[0] * f) <= wire <= int(want[1] * f) + 1 for f in (1, 1000))


def truncate(env):
    """retention overtakes the reader"""
    for l in env.logs.values():
        l.truncate_to(l.end - 1)


def truncate_all(env):
    """everything is deleted and the log goes on further up"""
    for kp, l in sorted(env.logs.items()):
        l.append([(None, b"gone")] * 3)
        l.start = l.end
        l.entries = []
        fill(l, kp[0], kp[1], [(0, 1), (0, 1)])


def recreate_all(env):
    """the topic is deleted and created again: its logs start over at 0"""
    for n, (kp, l) in enumerate(sorted(env.logs.items())):
        l.start = l.end = 0
        l.entries = []
        env.lost.add(kp)
        if n % 2:
            fill(l, kp[0], kp[1], [(0, 1)])


def p17_scenario(ch, start, codes=(), fetch_codes=(), drops=(), actions=(), refuse=False, late=None, second=None, rounds=2,
                 runaway=truncate_all):
    env = build(ConsumeEnv(brokers=(1, 2)), "mixed")
    w = vnet.World(env, ch, max_steps=1500)
    env.op_cost = None
    s = [Start(start)]

    def expect(t):
        if not s[0].ok(t):
            raise Violation("starting position %s looked up as time %r" % (s[0].kind, t))
        env.reset.discard("a")
    env.expect_time = expect
    if late:
        hidden = {kp: env.leader.pop(kp) for kp in list(env.leader)}

    async def main():
        env.doing = "connect()"
        c = SingleConsumer(["k1:9092", "k2:9092"], deserializer=decode, max_bytes=4000)
        await c.connect()
        await env.idle()
        env.watch = True
        if late:
            env.doing = "consume() of an unknown topic"
            n = len([h for h in env.hist if h[0] == "metadata"])
            if await c.consume("a", s[0].arg()) != []:
                raise Violation("consume() of an unknown topic returned something")
            if len([h for h in env.hist if h[0] == "metadata"]) == n:
                raise Violation("the topic is unknown, but the brokers were not asked about it")
            env.leader.update(hidden)
        ms = []
        if codes or fetch_codes:
            ms.append(code_menu({"offset": codes, "fetch": fetch_codes}))
        if drops:
            ms.append(drop_menu({"fetch", "offset", "metadata"}, drops))
        env.menu_fn = menus(*ms)
        if refuse:
            env.connect_menu = refuse_menu
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))
        outs = []

        async def once(arg):
            env.doing = "consume()"
            n = len([h for h in env.hist if h[0] == "offset"])
            env.new_call()
            was_reset = "a" in env.reset
            was_read = bool(env.fetches)
            try:
                r = await c.consume("a", arg)
            except exc.NoBrokersError:
                outs.append("no brokers")
                return
            env.returned("a", r)
            outs.append(len(r))
            looked = len([h for h in env.hist if h[0] == "offset"]) > n
            if looked and was_read and not was_reset:
                raise Violation("the starting position was looked up again without an out-of-range error")
        for i in range(rounds):
            await once(s[0].arg())
        if second:
            # the reader falls off the log
            runaway(env)
            await env.idle()
            before = env.pos.copy()
            kind = s[0].kind
            await once(s[0].arg())          # finds out
            s[0] = Start(second)
            await once(s[0].arg())          # starts over where asked now
            if not ch.cost:
                for kp in env.leader:
                    l = env.logs[kp]
                    want = {"begin": l.start, "end": l.end, "none": l.end}.get(
                        second, l.start + (l.end - l.start) // 2)
                    if env.pos[kp] != want:
                        raise Violation("%s/%d starts over at %d, expected %d" % (kp + (env.pos[kp], want)))
        # the rest of the log, with new messages at its end
        await env.idle()
        calm(env)
        await once(s[0].arg())
        await once(s[0].arg())
        if "no brokers" in outs[-1:]:
            await once(s[0].arg())
        for kp in env.leader:
            l = env.logs[kp]
            fill(l, kp[0], kp[1], [(0, 1)])
        await drain(env, c, ["a"], s[0].arg(), 30)
        return outs, sorted(env.pos.items())
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def p17_fatal(case):
    """a fatal error or an empty answer for any subset: nothing is read, and the next call asks again"""
    start, code, subset = case
    env = build(ConsumeEnv(brokers=(1, 2)), "mixed")
    w = vnet.World(env, Chooser())
    s = Start(start)

    def expect(t):
        if not s.ok(t):
            raise Violation("starting position %s looked up as time %r" % (s.kind, t))
    env.expect_time = expect
    env.watch = True

    async def main():
        c = SingleConsumer(["k1:9092", "k2:9092"], deserializer=decode, max_bytes=4000)
        await c.connect()
        await env.idle()
        env.doing = "consume()"
        if code is None:
            env.empty = set(subset)
        else:
            real = env.answer
            env.answer = lambda peer, req, errs=None: real(
                peer, req, {kp: code for kp in subset} if req["api"] == "offset" else errs)
        r = await c.consume("a", s.arg())
        if r != []:
            raise Violation("consume() returned %r although no starting offset was known for %r" % (r, subset))
        if env.fetches:
            raise Violation("fetched although no starting offset was known for %r" % (subset,))
        env.empty = set()
        if code is not None:
            env.answer = real
        env.pos.clear()
        n = len(env.hist)
        env.returned("a", await c.consume("a", s.arg()))
        asked = {h[2:4] for h in env.hist[n:] if h[0] == "offset"}
        if asked != set(env.leader):
            raise Violation("positions of %r looked up again, expected all" % sorted(asked))
        return sorted(env.pos.items())
    return w.run(main)


def time_units(ch):
    """Kafka's offset API counts milliseconds"""
    env = build(ConsumeEnv(brokers=(1, 2)), "plain")
    w = vnet.World(env, ch)
    times = []
    env.expect_time = times.append

    async def main():
        c = SingleConsumer(["k1:9092"], deserializer=decode)
        await c.connect()
        env.doing = "consume()"
        await c.consume("a", utc(1455753600))
        if set(times) != {1455753600000}:
            raise Violation("a start date is sent as %r, Kafka expects milliseconds" % sorted(set(times)),
                            "datetime start in seconds" if set(times) == {1455753600} else None)
        return True
    return w.run(main)


def p17(ctx):
    ctx.rule("7 kinds of starting position x topics known or unknown at first x up to 2 (3) of: retriable codes on every subset of partitions of a lookup, "
             "fetch errors, connections reset before/closed after/cut/garbage, refusals, crashes, leader moves, elections at every "
             "point of the lookup and the first fetches; logs that run away from the reader, forwards (retention) or back to 0 (topic created anew), with every pair of starts; "
             "every fatal code and empty answer on every subset.")
    ctx.assume("the set of partitions of a topic does not change while it is consumed")
    ctx.assume("the unit of a time (epoch seconds) is left to the existing tests; Kafka's unit is reported by the scenario time-units")
    t = ctx.thorough
    b = 3 if t else 2
    kinds = ("begin", "end", "none", "date", "fraction", "age", "age-s")
    for k in kinds:
        ctx.explore("codes-%s" % k, p17_scenario, b if k in ("begin", "end", "date") else 1, start=k, codes=LOOKUP_CODES,
                    fetch_codes=(6, 10))
    for k in ("begin", "end", "age"):
        ctx.explore("drops-%s" % k, p17_scenario, b, start=k, codes=(6,), drops=("before", "after", "cut", "garbage"), refuse=True)
        ctx.explore("late-%s" % k, p17_scenario, b, start=k, codes=(6,), drops=("after",), late=True)
        for act in (crash2, crash2_listed, leader_moves, drop_all, election, append):
            ctx.explore("%s-%s" % (act.__name__, k), p17_scenario, b, start=k, codes=(6,), drops=("after",), actions=(act,))
    for k, k2 in itertools.product(("begin", "end", "none", "date"), repeat=2):
        ctx.explore("out-of-range-%s-%s" % (k, k2), p17_scenario, 1 if not t else 2, start=k, second=k2, codes=(6,),
                    fetch_codes=(6,), drops=("after",))
        ctx.explore("recreated-%s-%s" % (k, k2), p17_scenario, 1 if not t else 2, start=k, second=k2, codes=(6,),
                    fetch_codes=(6,), drops=("after",), runaway=recreate_all)
    ctx.explore("time-units", time_units, 0)
    kps = [("a", 0), ("a", 1), ("a", 4)]
    subs = [s for n in (1, 2, 3) for s in itertools.combinations(kps, n)]
    fatal = (None, -1, 1, 4, 8, 10, 12, 17, 29, 31, 99)
    ctx.cases("fatal", lambda: itertools.product(kinds, fatal, subs), p17_fatal)


# ---------------------------------------------------------------------------
# P18

def p18_case(case):
    codec, n, bad, slack, nullish = case
    env = ConsumeEnv(brokers=(1, 2))
    for kp, l in ((("a", 0), 1), (("a", 1), 2)):
        env.leader[kp] = l
        env.logs[kp] = fakekafka.Log(5)
    b0 = {5 + i for i in range(n) if bad >> i & 1}
    entries = [(0, 1)] * n if codec == 0 else [(codec, n)] if codec < 3 else [(1, 2), (2, n - 2)] if n > 2 else [(1, n)]
    fill(env.logs[("a", 0)], "a", 0, entries, b0)
    # the other partition: bad where this one is good
    b1 = {5 + i for i in range(n) if not bad >> i & 1} if nullish else ()
    fill(env.logs[("a", 1)], "a", 1, entries, b1)
    w = vnet.World(env, Chooser(), max_steps=1500)
    w.ch = Chooser()

    async def main():
        kinds = [ValueError("no"), KeyError("k"), UnicodeDecodeError("utf-8", b"x", 0, 1, "bad"), AssertionError()]
        count = [0]

        def deserializer(v):
            try:
                return decode(v)
            except Poison:
                count[0] += 1
                raise kinds[count[0] % 4]
        c = SingleConsumer(["k1:9092", "k2:9092"], deserializer=deserializer, max_bytes=tight(env) + slack)
        await c.connect()
        env.watch = True
        env.doing = "consume()"
        # every round must get past at least one entry of each partition
        for i in range(2 * n + 2):
            env.returned("a", await c.consume("a", BEGIN))
        left = {kp: env.todo(kp) for kp in env.leader if env.todo(kp)}
        if left:
            raise Violation("after %d calls %r was still not returned" % (2 * n + 2, left))
        node, body = env.fetches[-1]
        last = {}
        for node, body in env.fetches[-2:]:
            for t, p, part in env.each(body):
                last[(t, p)] = part["offset"]
        for kp, l in env.logs.items():
            if last.get(kp) != l.end:
                raise Violation("%s/%d is still fetched at %r instead of its end %d: stuck on undecodable messages" % (
                    kp + (last.get(kp), l.end)))
        return count[0], sorted(env.seen)
    return w.run(main)


JSONS = [b"1", b"0", b"null", b"\"\"", b"[]", b"{}", b"false", b"\"x\"", b"{bad", b"", b"\xff\xfe", None, b"[1, {\"a\": null}]", b"nul"]


def p18_json(case):
    """the default (JSON) deserializer"""
    vals, codec = case
    env = ConsumeEnv(brokers=(1,))
    env.leader[("a", 0)] = 1
    env.logs[("a", 0)] = l = fakekafka.Log()
    if codec:
        l.append([(None, v) for v in vals], codec)
    else:
        for v in vals:
            l.append([(None, v)])
    w = vnet.World(env, Chooser())

    async def main():
        c = SingleConsumer(["k1"])
        await c.connect()
        env.doing = "consume()"
        out = []
        for i in range(3):
            out += await c.consume("a", BEGIN)
        want = []
        for v in vals:
            try:
                x = json.loads(v)
            except Exception:
                continue
            if x is not None:
                want.append(x)
        if repr(out) != repr(want):
            raise Violation("log %r: consume() returned %r, expected %r" % (vals, out, want))
        return want
    return w.run(main)


def p18(ctx):
    ctx.rule("every subset of undecodable messages in logs of 1-6 (7) messages in two partitions, plain or in one or several compressed sets, "
             "fetch budgets of one entry and more; every pair and triple of 14 JSON and non-JSON values with the default deserializer.")
    ctx.assume("a message that decodes to None (JSON null) is left out, as consume() documents")
    t = ctx.thorough

    def gen():
        for n in range(1, 8 if t else 7):
            for codec in (0, 1, 2, 3):
                for bad in range(1 << n):
                    for slack in (0, 17, 200) if not t else (0, 9, 17, 33, 200):
                        for other in (0, 1):
                            yield codec, n, bad, slack, other
    ctx.cases("subsets", gen, p18_case)

    def jgen():
        for n in (1, 2) + ((3,) if t else ()):
            for vals in itertools.product(JSONS, repeat=n):
                for codec in (0, 1):
                    yield vals, codec
    ctx.cases("json", jgen, p18_json)


# ---------------------------------------------------------------------------
# P19

def check_round(env, fetches, topic, leaders, positions, max_bytes, wait, minb):
    asked = {}
    for node, body in fetches:
        if body["max_wait_time"] != wait or body["min_bytes"] != minb:
            raise Violation("fetch with wait %r and minimum %r, configured %r and %r" % (
                body["max_wait_time"], body["min_bytes"], wait, minb))
        if body["replica_id"] != -1:
            raise Violation("fetch as replica %r" % body["replica_id"])
        limits = []
        for t, p, part in env.each(body):
            kp = (t, p)
            if kp in asked:
                raise Violation("%s/%d asked for twice in one round" % kp)
            asked[kp] = node
            limits.append(part["max_bytes"])
            if kp not in leaders:
                raise Violation("%s/%d asked for, but not allocated" % kp)
            if leaders[kp] != node:
                raise Violation("%s/%d asked from broker %d, its leader is %d" % (kp + (node, leaders[kp])))
            if part["offset"] != positions[kp]:
                raise Violation("%s/%d asked from offset %d, next unread is %d" % (kp + (part["offset"], positions[kp])))
        if len(set(limits)) > 1:
            raise Violation("unequal byte limits %r" % limits)
        if any(x <= 0 for x in limits):
            raise Violation("byte limits %r for a budget of %d" % (limits, max_bytes))
        if sum(limits) > max_bytes or sum(limits) <= max_bytes - len(limits):
            raise Violation("byte limits %r do not add up to the budget %d" % (limits, max_bytes))
    if len({n for n, _ in fetches}) != len(fetches):
        raise Violation("several fetches to one broker in a round: %r" % [n for n, _ in fetches])
    if set(asked) != set(leaders):
        raise Violation("asked for %r, allocated %r" % (sorted(asked), sorted(leaders)))


def p19_case(case):
    layout, max_bytes, wait, minb = case
    n = len(layout)
    env = ConsumeEnv(brokers=(1, 2, 3))
    for i, l in enumerate(layout):
        kp = ("a", i * 3 % 7)
        env.leader[kp] = l
        env.logs[kp] = fakekafka.Log(10 * i)
        fill(env.logs[kp], "a", kp[1], [(0, 1)] * 3)
    env.leader[("other", 0)] = 2
    env.logs[("other", 0)] = fakekafka.Log()
    w = vnet.World(env, Chooser())

    async def main():
        c = SingleConsumer(["k1"], deserializer=decode, max_bytes=max_bytes, max_wait_time=wait, min_bytes=minb)
        await c.connect()
        pos = {}
        leaders = {kp: l for kp, l in env.leader.items() if kp[0] == "a"}
        for kp in leaders:
            env.start_reading(kp, env.logs[kp].start)
            pos[kp] = env.logs[kp].start
        for rnd in range(4):
            env.fetches = []
            env.doing = "consume()"
            r = await c.consume("a", BEGIN)
            check_round(env, env.fetches, "a", leaders, pos, max_bytes, wait, minb)
            env.returned("a", r)
            for kp in leaders:
                pos[kp] = env.pos[kp] + len(env.seen[kp])
            if rnd == 1:
                # every leader moves on
                for kp in leaders:
                    env.leader[kp] = env.leader[kp] % 3 + 1
                leaders = {kp: l for kp, l in env.leader.items() if kp[0] == "a"}
                await c.cluster.heal()
        return n, max_bytes
    return w.run(main)


def p19(ctx):
    ctx.rule("every assignment of 1-5 (6) partitions to 3 leaders, budgets from the number of partitions up to beyond 32 KiB with every remainder, "
             "wait/minimum limits; 4 rounds with all leaders moving after the second; every fetch of each round inspected.")
    ctx.assume("max_bytes is at least the number of partitions in a request")
    t = ctx.thorough

    def gen():
        for n in range(1, 7 if t else 6):
            for layout in itertools.product((1, 2, 3), repeat=n):
                for mb in (n, n + 1, 2 * n - 1, 100, 101, 1000003):
                    yield layout, mb, 1000, 1
        for wait, minb in itertools.product((0, 1, 500, 2 ** 31 - 1), (0, 1, 65536, 2 ** 31 - 1)):
            for layout in ((1,), (1, 2, 2)):
                yield layout, 1 << 20, wait, minb
        for mb in range(5, 200 if not t else 2000):
            yield (1, 1, 1, 1, 1), mb, 10, 5
            yield (1, 1, 2, 1, 3), mb, 10, 5
    ctx.cases("layouts", gen, p19_case)
    from . import scale
    scale.many(ctx, "messages", scale.consume_grid, scale.consume_many)
