"""P12-P14: producing without loss, to the right place, in batches."""
import itertools

from .. import fakekafka, kspec, vnet
from ..core import Violation
from ..fakekafka import Kafka, code_menu, drop_menu, menus, refuse_menu
from .cluster import MetaEnv

from kiel import exc
from kiel.clients.producer import Producer

FATAL = (10, 17, 29)


def part_of(key, parts):
    """the partition a message with this key belongs to (key: b'<n>...')"""
    return sorted(parts)[int(key[:1]) % len(parts)]


class Tracker(object):
    """what the program has been told about each message"""

    def __init__(self, env):
        self.env = env
        self.acked = set()
        self.refused = set()
        self.attempts = {}
        self.appended = {}
        self.lossy = False
        self.check_repeat = True
        env.tracker = self


class ProduceEnv(MetaEnv):
    tracker = None

    def __init__(self, **kw):
        MetaEnv.__init__(self, **kw)
        self.acks0 = False

    def process(self, peer, req, errs, **kw):
        n = len(self.hist)
        body = MetaEnv.process(self, peer, req, errs, **kw)
        if self.tracker and req["api"] == "produce":
            t = self.tracker
            peer.outcome = out = {}
            for h in self.hist[n:]:
                if h[0] != "produce":
                    continue
                _, node, topic, p, values, code, app, keys = h
                for v in values:
                    if t.check_repeat and v in t.acked:
                        raise Violation("message %r was written again after it had been acknowledged" % v)
                    if v in t.refused:
                        raise Violation("message %r was sent again after a fatal error" % v)
                    t.attempts[v] = t.attempts.get(v, 0) + 1
                    if app:
                        t.appended[v] = t.appended.get(v, 0) + 1
                    out[v] = code
        return body

    def send(self, peer, req, body):
        t = self.tracker
        if t and req["api"] == "produce" and peer.sock.state == "open":
            for v, code in peer.outcome.items():
                if code == 0:
                    t.acked.add(v)
                elif code in FATAL or code == 777:
                    t.refused.add(v)
        MetaEnv.send(self, peer, req, body)


TOPICS = {"a": {0: 1, 1: 2}, "b": {0: 2}}
# a message "a0x": topic a, key 0 -> partition by key, x makes it unique


def make(env, **kw):
    kw.setdefault("serializer", lambda m: m)
    kw.setdefault("key_maker", lambda m: m[1:2])
    chooser = kw.get("partitioner", part_of)
    env.choices = {}

    def partitioner(key, parts):
        p = chooser(key, parts)
        env.choices.setdefault(key, set()).add(p)
        return p
    kw["partitioner"] = partitioner
    return Producer(["k1:9092", "k2:9092"], **kw)


def msg(s):
    return s.encode()


async def drain_faultless(env, c, accepted, t, limit=4):
    """the faults are over: a flush or two must get everything out"""
    env.menu_fn = env.connect_menu = None
    env.actions = []
    for b in list(env.addr):
        if b in (1, 2):
            env.up.add(b)
    for due in env.countdown:
        due[1]()
    env.countdown = []
    env.listed = None
    env.part_error.clear()
    env.topic_error.clear()
    for k, l in env.leader.items():
        if l not in env.up:
            env.leader[k] = min(env.up)
    for i in range(limit):
        if not c.unsent_count:
            break
        env.doing = "flush() once the faults are over"
        try:
            await c.flush()
        except exc.NoBrokersError:
            pass
        await env.idle()
    if c.unsent_count:
        raise Violation("%d messages still queued after %d flushes without faults" % (c.unsent_count, limit))
    for m in accepted:
        if m in t.refused:
            continue
        topic = chr(m[0])
        # (while a partition has no leader the partitioner is not offered it)
        where = [kp for kp, l in env.logs.items() if m in l.values()]
        if not where:
            raise Violation("message %r is in no log: lost" % m)
        for kp in where:
            if kp[0] != topic or kp[1] not in env.choices[m[1:2]]:
                raise Violation("message %r is in the log of %s/%d" % ((m,) + kp))


def check_settled(c, t, accepted, when):
    unsettled = [m for m in accepted if m not in t.acked and m not in t.refused]
    if c.unsent_count != len(unsettled):
        raise Violation("%s: %d messages queued, but %r are neither acknowledged nor refused" % (
            when, c.unsent_count, unsettled))


def p12_scenario(ch, script, batch, overlap, codes, drops, actions=(), compression=None, refuse=False,
                 topics=None):
    env = ProduceEnv(brokers=(1, 2), topics=topics or TOPICS)
    if overlap:
        env.op_cost = 1
    else:
        env.op_cost = None
    w = vnet.World(env, ch, max_steps=1200)

    async def main():
        env.doing = "connect()"
        c = make(env, batch_size=batch, compression=compression)
        await c.connect()
        await env.idle()
        t = Tracker(env)
        ms = []
        if codes:
            ms.append(code_menu({"produce": codes}))
        if drops:
            ms.append(drop_menu({"produce", "metadata"}, drops))
        env.menu_fn = menus(*ms)
        if refuse:
            env.connect_menu = refuse_menu
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))
        offered = []
        # a message is accepted unless its topic is unknown to the client
        # after a refresh; the serializer is only called for accepted ones
        accepted = []

        def serialize(m):
            accepted.append(m)
            return m
        c.serializer = serialize

        def op(s):
            if s == "flush":
                return c.flush

            async def go():
                m = msg(s)
                offered.append(m)
                try:
                    await c.produce(chr(m[0]), m)
                except exc.NoBrokersError:
                    if m not in accepted:
                        offered.remove(m)        # it said so
                    return "no brokers"
            return go
        if overlap:
            for s in script:
                env.op(s, op(s))
            res = await env.run_ops()
        else:
            res = []
            for s in script:
                env.doing = "produce " + s
                try:
                    res.append((s, await op(s)()))
                except exc.NoBrokersError:
                    res.append((s, "no brokers"))
        for label, r in res:
            if isinstance(r, BaseException) and not isinstance(r, exc.NoBrokersError):
                raise Violation("%s failed: %r" % (label, r))
        env.doing = "idle"
        await env.idle()
        if topic_gone not in actions and sorted(accepted) != sorted(offered):
            raise Violation("produce() took %r of %r" % (accepted, offered))
        check_settled(c, t, accepted, "idle")
        left = c.unsent_count
        await drain_faultless(env, c, accepted, t)
        check_settled(c, t, accepted, "after the last flush")
        for m, n in t.appended.items():
            if n > t.attempts[m]:
                raise Violation("message %r appended %d times in %d attempts" % (m, n, t.attempts[m]))
        return left, sorted(t.refused), sorted(t.attempts.items())
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def crash2(env):
    env.crash(2)


def crash1(env):
    env.crash(1)


def crash2_listed(env):
    """dies, but metadata lists it for two more answers"""
    env.listed = sorted(env.up)
    env.crash(2)
    env.after(2, lambda: setattr(env, "listed", None))


def leader_moves(env):
    for kp, to in ((("a", 0), 2), (("b", 0), 1)):
        if to in env.up and kp in env.leader:
            env.leader[kp] = to


def drop_all(env):
    for p in env.live_peers():
        env.drop(p)


def election(env):
    if 2 in env.up:
        env.leader[("a", 0)] = 2
    env.part_error[("a", 0)] = 5
    env.after(2, env.part_error.clear)


def election_slow(env):
    """the old leader still thinks it leads while the election is on"""
    env.part_error[("a", 1)] = 5
    env.after(3, env.part_error.clear)


def topic_gone(env):
    """b is missing from the metadata for a while"""
    l = env.leader.pop(("b", 0), None)
    if l:
        env.after(2, lambda: env.leader.setdefault(("b", 0), l))
        env.logs.setdefault(("b", 0), fakekafka.Log())


def acks0_scenario(ch):
    env = ProduceEnv(brokers=(1, 2), topics=TOPICS)
    env.op_cost = None
    w = vnet.World(env, ch, max_steps=1200)
    real = env.do_request

    def do_request(peer, req):
        if req["api"] == "produce" and req["body"]["required_acks"] == 0:
            env.process(peer, req, {})        # and no answer
            return
        real(peer, req)
    env.do_request = do_request

    async def main():
        c = make(env, batch_size=1, required_acks=0)
        await c.connect()
        await env.idle()
        env.doing = "produce() with required_acks=0"
        await c.produce("a", b"a0x")
        if env.logs[("a", 0)].values() != [b"a0x"]:
            raise Violation("message not written")
        return True
    try:
        return w.run(main)
    except Violation as v:
        v.sig = "produce() with required_acks=0 never completes" if v.msg.startswith("hang") else None
        raise


def twins(ch, script, batch, overlap, codes, drops, compression=None):
    """messages that do not differ at all are still so many messages"""
    env = ProduceEnv(brokers=(1, 2), topics=TOPICS)
    env.op_cost = 1 if overlap else None
    w = vnet.World(env, ch, max_steps=1200)

    async def main():
        env.doing = "connect()"
        c = make(env, batch_size=batch, compression=compression)
        await c.connect()
        await env.idle()
        env.menu_fn = menus(code_menu({"produce": codes}), drop_menu({"produce"}, drops))

        def op(s):
            return lambda: c.produce(s[0], msg(s))
        if overlap:
            for i, s in enumerate(script):
                env.op("%d:%s" % (i, s), op(s))
            for label, r in await env.run_ops():
                if isinstance(r, BaseException) and not isinstance(r, exc.NoBrokersError):
                    raise Violation("%s failed: %r" % (label, r))
        else:
            for s in script:
                env.doing = "produce " + s
                try:
                    await op(s)()
                except exc.NoBrokersError:
                    pass
        await env.idle()
        accepted = [msg(s) for s in script]
        t = Tracker(env)
        t.check_repeat = False
        await drain_faultless(env, c, accepted, t)
        sizes = []
        for m in sorted(set(accepted)):
            n = sum(l.values().count(m) for l in env.logs.values())
            if n < accepted.count(m):
                raise Violation("%d messages %r were produced, %d are in the logs" % (accepted.count(m), m, n))
            sizes.append(n)
        return sizes
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


SCRIPTS = [["a0x"], ["a0x", "a1x"], ["a0x", "a1x", "b0x"], ["b0x", "a0x", "a0y"]]


def p12(ctx):
    ctx.rule("scripts of 1-4 produce()/flush() calls over 3 partitions on 2 brokers, batch sizes 1-4, run one after another and overlapping; "
             "up to 3 (4) of: error codes on every subset of a request's partitions, connections reset before/closed "
             "after processing/cut/undecodable, refused reconnects, broker crashes, leader moves, elections, vanishing topics, at every point.")
    ctx.assume("at least one broker becomes reachable again once the faults are over")
    ctx.assume("the serializer, key maker and partitioner do not raise (a partitioner that does is covered by partitioner-raises)")
    t = ctx.thorough
    b2 = 4 if t else 3
    codes = (6, 7, 19, 10)
    for i, script in enumerate(SCRIPTS):
        for batch in sorted({1, len(script)}):
            ctx.explore("codes-%d-batch%d" % (i, batch), p12_scenario, b2, script=script, batch=batch,
                        overlap=False, codes=codes, drops=None)
            ctx.explore("drops-%d-batch%d" % (i, batch), p12_scenario, b2, script=script, batch=batch,
                        overlap=False, codes=(6,), drops=("before", "after", "cut", "garbage"), refuse=True)
    for act in (crash1, crash2, crash2_listed, leader_moves, drop_all, election, election_slow, topic_gone):
        for script, batch in ((["a0x", "a1x", "b0x"], 1), (["a0x", "a1x", "b0x", "a0y"], 3), (["b0x", "flush", "a0x", "b0y"], 2)):
            ctx.explore("%s-%s-batch%d" % (act.__name__, "+".join(script), batch), p12_scenario, b2, script=script,
                        batch=batch, overlap=False, codes=(19,), drops=("after",), actions=(act,))
    for script, batch in ((["a0x", "a1x"], 1), (["a0x", "b0x", "a0y"], 2), (["a0x", "b0x", "flush"], 4),
                          (["a0x", "a0y", "a1x"], 1)):
        ctx.explore("overlap-%s-batch%d" % ("+".join(script), batch), p12_scenario, b2, script=script, batch=batch,
                    overlap=True, codes=(6, 10), drops=("before", "after"))
        ctx.explore("overlap-acts-%s-batch%d" % ("+".join(script), batch), p12_scenario, b2, script=script, batch=batch,
                    overlap=True, codes=(), drops=("garbage",), actions=(crash2, leader_moves))
    for script, batch in ((["a0x", "a0x"], 1), (["a0x", "a0x", "a0x"], 3), (["a0x", "b0x", "a0x", "b0x"], 4), (["a0x", "a0x", "a1x"], 2)):
        for over in (False, True):
            ctx.explore("twins-%s-batch%d%s" % ("+".join(script), batch, "-overlap" if over else ""), twins, b2 - 1, script=script,
                        batch=batch, overlap=over, codes=(6, 19), drops=("before", "after", "cut"))
    for comp in (1, 2):
        ctx.explore("twins-compressed%d" % comp, twins, 2, script=["a0x", "a0x", "a0x"], batch=3, overlap=False, codes=(6,),
                    drops=("after",), compression=comp)
    for comp in (1, 2):
        ctx.explore("compressed%d" % comp, p12_scenario, 1, script=["a0x", "a0y", "a1x"], batch=3,
                    overlap=False, codes=codes, drops=("after", "cut"), compression=comp)
    ctx.explore("one-broker", p12_scenario, b2, script=["a0x", "a1x"], batch=1, overlap=False, codes=(19,),
                drops=("before", "after", "cut", "garbage"), refuse=True, topics={"a": {0: 1, 1: 1}})
    ctx.explore("acks0", acks0_scenario, 0)
    ctx.cases("partitioner-raises", lambda: itertools.product(range(4), (1, 2, 4)), partitioner_raises)
    from . import scale
    script = ["a0x", "a1x", "b0x", "a0y", "b0y", "a1y"]
    for batch in (1, 2):
        scale.words(ctx, "batch%d" % batch, ("ok", "err6", "err6*", "err10", "garbage") + scale.LOST, 6 if t else 5,
                    lambda ch, batch=batch: p12_scenario(ch, script, batch, False, (6, 10), ("before", "after", "garbage")))


def partitioner_raises(case):
    """a partitioner that fails on one message must not lose the others"""
    from ..core import Chooser
    bad, batch = case
    env = ProduceEnv(brokers=(1, 2), topics=TOPICS)
    env.op_cost = None
    w = vnet.World(env, Chooser())
    broken = [True]

    def part(key, parts):
        if broken[0] and seen["cur"] >= bad and key == b"%d" % (bad % 2):
            raise ValueError("no partition today")
        return part_of(key, parts)
    seen = {"cur": 0}

    async def main():
        c = make(env, batch_size=batch, partitioner=part)
        await c.connect()
        t = Tracker(env)
        script = ["a0x", "a1x", "a0y", "a1y"]
        for i, s in enumerate(script):
            seen["cur"] = i
            try:
                await c.produce("a", msg(s))
            except ValueError:
                pass
        broken[0] = False
        await env.idle()
        await drain_faultless(env, c, [msg(s) for s in script], t)
        return sorted(t.attempts.items())
    return w.run(main)


# ---------------------------------------------------------------------------
# P13

def p13_scenario(ch, depth, batch, compression, topics, values=None, default_part=False, acks=1, timeout=500):
    env = ProduceEnv(brokers=(1, 2, 3), topics=topics)
    env.op_cost = None
    w = vnet.World(env, ch, max_steps=1200)
    alphabet = [(t, k) for t in sorted(topics) for k in range(len(topics[t]))]
    seen_parts = []
    on_wire = []

    def note(kind, peer, req):
        if req["api"] == "produce":
            on_wire.append((peer.node, req["body"]))
    env.on_event = note

    def partitioner(key, parts):
        seen_parts.append((key, list(parts)))
        return part_of(key, parts)

    async def main():
        kw = {} if default_part else {"partitioner": partitioner}
        c = Producer(["k1:9092"], serializer=lambda m: m[1], key_maker=lambda m: m[0], batch_size=batch,
                     compression=compression, required_acks=acks, ack_timeout=timeout, **kw)
        await c.connect()
        sent = []
        for i in range(depth):
            t, k = alphabet[ch.pick(["%s%d" % a for a in alphabet], [0] * len(alphabet))]
            v = values[i] if values else b"%d-%d" % (i, i)
            key = b"%d" % k
            sent.append((t, key, v))
            env.doing = "produce %r" % (sent,)
            await c.produce(t, (key, v))
        env.doing = "flush()"
        await c.flush()
        await env.idle()
        want = {}
        for t, key, v in sent:
            want.setdefault((t, part_of(key, topics[t])), []).append((key, v))
        got = {kp: [(k, v) for _, k, v in l.messages()] for kp, l in env.logs.items() if l.entries}
        if default_part:
            flat = sorted((t, k, v) for (t, _), ms in got.items() for k, v in ms)
            if flat != sorted(sent):
                raise Violation("produced %r, the logs hold %r" % (sent, got))
            for kp, ms in got.items():
                order = [i for m in ms for i, s in enumerate(sent) if s == (kp[0],) + m]
                if order != sorted(order):
                    raise Violation("messages of %r out of order: %r" % (kp, ms))
        elif got != want:
            raise Violation("produced %r: the logs hold %r, expected %r" % (sent, got, want))
        for key, parts in seen_parts:
            if not any(sorted(parts) == sorted(topics[t]) for t in topics):
                raise Violation("the partitioner was offered %r" % (parts,))
        for node, body in on_wire:
            if body["required_acks"] != acks or body["timeout"] != timeout:
                raise Violation("request asks for acks=%r timeout=%r, configured %r %r" % (
                    body["required_acks"], body["timeout"], acks, timeout))
            for t in body["topics"]:
                for p in t["partitions"]:
                    if topics[fakekafka.name(t["name"])].get(p["partition_id"]) != node:
                        raise Violation("%r/%r sent to broker %d" % (t["name"], p["partition_id"], node))
        if c.unsent_count:
            raise Violation("%d messages still queued after flush()" % c.unsent_count)
        return sorted(got.items())
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


LAYOUTS = [
    {"a": {0: 1, 1: 2}, "b": {0: 2}},
    {"a": {0: 1, 1: 1, 5: 3}},
    {"a": {3: 2}, "b": {0: 2, 1: 3}, "c": {7: 1}},
]
VALUES = [
    [b"", b"\x00", b"x" * 40, b"\xff\xfe"],
    [b"\x82SNAPPY\x00", b"\x1f\x8b\x08", b"a" * 70000, b"end"],
    [b"same", b"same", b"same", b"same"],
]


def p13_bigkey(case):
    """default key maker, serializer and partitioner; JSON values"""
    import json
    from ..core import Chooser
    values, batch, comp = case
    env = ProduceEnv(brokers=(1, 2), topics=TOPICS)
    w = vnet.World(env, Chooser())

    async def main():
        c = Producer(["k1"], batch_size=batch, compression=comp)
        await c.connect()
        for v in values:
            await c.produce("a", v)
        await c.flush()
        got = []
        for p in (0, 1):
            for o, k, v in env.logs[("a", p)].messages():
                if k is not None:
                    raise Violation("key %r without a key maker" % (k,))
                got.append(json.loads(v.decode("utf-8")))
        order = sorted(json.dumps(x, sort_keys=True) for x in got)
        want = sorted(json.dumps(x, sort_keys=True) for x in values)
        if order != want:
            raise Violation("produced %r, brokers hold %r" % (values, got))
        if env.logs[("b", 0)].entries:
            raise Violation("written to another topic")
        return len(env.hist)
    return w.run(main)


def p13(ctx):
    ctx.rule("every sequence of up to 5 (6) produce calls over 3-4 topic/partitions in 3 leader layouts, batch sizes 1-5, "
             "no/gzip/snappy compression, several value sets, default and custom partitioners, acks and timeouts; no faults.")
    t = ctx.thorough
    for li, topics in enumerate(LAYOUTS):
        for batch in (1, 2, 4) if not t else (1, 2, 3, 4, 5):
            for comp in (None, 1, 2):
                ctx.explore("layout%d-batch%d-%s" % (li, batch, comp), p13_scenario, 0, depth=6 if t else 5,
                            batch=batch, compression=comp, topics=topics)
    for vi, values in enumerate(VALUES):
        for comp in (None, 1, 2):
            for batch in (1, 4):
                ctx.explore("values%d-batch%d-%s" % (vi, batch, comp), p13_scenario, 0, depth=4, batch=batch,
                            compression=comp, topics=LAYOUTS[0], values=values)
    for acks, timeout in ((-1, 1), (1, 30000), (2, 500)):
        ctx.explore("acks%d" % acks, p13_scenario, 0, depth=2, batch=1, compression=None, topics=LAYOUTS[0],
                    acks=acks, timeout=timeout)
    ctx.explore("default-partitioner", p13_scenario, 0, depth=4, batch=3, compression=None, topics=LAYOUTS[1],
                default_part=True)
    js = [[1, 2.5, "x"], [None, True, {"b": 1, "a": [1]}], ["\u00e9\u4e2d", "", 0], [{"k": "v" * 300}] * 4]
    ctx.cases("defaults", lambda: itertools.product(js, (1, 2, 10), (None, 1, 2)), p13_bigkey)
    from . import scale
    scale.many(ctx, "messages", scale.produce_grid, scale.produce_many)


# ---------------------------------------------------------------------------
# P14

def p14_scenario(ch, depth, batch, topics):
    env = ProduceEnv(brokers=(1, 2), topics=topics)
    env.op_cost = None
    w = vnet.World(env, ch, max_steps=1200)
    ops = ["flush"] + ["produce " + t for t in sorted(topics)] + ["produce unknown"]

    async def main():
        c = make(env, batch_size=batch)
        await c.connect()
        await env.idle()
        t = Tracker(env)
        queued, sent = [], []
        did = []
        for i in range(depth):
            op = ops[ch.pick(ops, [0] * len(ops))]
            did.append(op)
            env.doing = " / ".join(did)
            n = len(env.hist)
            if op == "flush":
                await c.flush()
                new, queued = queued, []
            elif op == "produce unknown":
                await c.produce("zz", b"z0x")
                new = []
            else:
                m = msg("%s%d-%d" % (op.split()[1], i % 2, i))
                queued.append(m)
                await c.produce(op.split()[1], m)
                new = []
                if not batch or len(queued) >= batch:
                    new, queued = queued, []
            wrote = sorted(v for h in env.hist[n:] if h[0] == "produce" for v in h[4])
            if wrote != sorted(new):
                raise Violation("%s: transmitted %r, expected %r (batch size %r)" % (
                    env.doing, wrote, sorted(new), batch))
            sent += new
            if c.unsent_count != len(queued):
                raise Violation("%s: queue length %r reported, %d messages queued" % (
                    env.doing, c.unsent_count, len(queued)))
            await env.idle()
            late = [h for h in env.hist[n:] if h[0] == "produce"]
            if sorted(v for h in late for v in h[4]) != sorted(new):
                raise Violation("%s: more was transmitted later" % env.doing)
        env.doing += " / close"
        await c.close()
        logged = sorted(v for l in env.logs.values() for v in l.values())
        if logged != sorted(sent + queued):
            raise Violation("%s: %r written, expected %r" % (env.doing, logged, sorted(sent + queued)))
        return did, len(sent)
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def p14_overlap(ch, batch, n):
    """overlapping produce calls: the one reaching the batch size transmits"""
    env = ProduceEnv(brokers=(1, 2), topics=TOPICS)
    env.op_cost = 0
    env.reorder_cost = 0
    w = vnet.World(env, ch, max_steps=1200)
    begun = []

    async def main():
        c = make(env, batch_size=batch)
        await c.connect()
        await env.idle()
        names = ["a0x", "b0x", "a1x", "b0y", "a0y"][:n]

        def op(s):
            async def go():
                begun.append(msg(s))
                await c.produce(s[0], msg(s))
            return go
        for s in names:
            env.op(s, op(s))

        def check(kind, peer, req):
            # a request may only carry whole batches: nothing left early
            wrote = sum(len(h[4]) for h in env.hist if h[0] == "produce")
            if req["api"] == "produce" and batch and len(begun) < batch:
                raise Violation("transmitted with %d of %d messages queued" % (len(begun), batch))
        env.on_event = check
        for label, r in await env.run_ops():
            if isinstance(r, BaseException):
                raise Violation("%s failed: %r" % (label, r))
        left = n % batch if batch > 1 else 0
        if c.unsent_count != left:
            raise Violation("queue length %r after %d overlapping calls with batch size %d" % (c.unsent_count, n, batch))
        wrote = sorted(v for h in env.hist if h[0] == "produce" for v in h[4])
        if wrote != sorted(begun[:n - left]):
            raise Violation("transmitted %r of %r with batch size %d" % (wrote, begun, batch))
        return wrote
    return w.run(main)


def p14(ctx):
    ctx.rule("every sequence of 6 (7) produce/flush calls over 2 topics and an unknown one for batch sizes 0-4, followed by "
             "close(); overlapping produce calls in every interleaving with the answers.")
    t = ctx.thorough
    for batch in (0, 1, 2, 3, 4):
        ctx.explore("sequences-batch%d" % batch, p14_scenario, 0, depth=7 if t else 6, batch=batch, topics=TOPICS)
    for batch in (0, 1, 2, 3):
        for n in (2, 3, 4) + ((5,)):
            ctx.explore("overlap-batch%d-%d" % (batch, n), p14_overlap, 0, batch=batch, n=n)
    from . import scale
    scale.many(ctx, "messages", scale.produce_grid, scale.produce_many)
