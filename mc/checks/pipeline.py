"""P32, P33: from produce() to consume(), and the program's own functions failing on the way."""
import itertools
import json

from .. import fakekafka, kspec, vnet
from ..core import Chooser, Violation
from ..fakekafka import code_menu, drop_menu, menus, refuse_menu
from .cluster import MetaEnv
from .consumer import calm

from kiel import exc
from kiel.clients.producer import Producer
from kiel.clients.single import SingleConsumer

BEGIN, END = -2, -1
HOSTS = ["k1:9092", "k2:9092"]

# ---------------------------------------------------------------------------
# P32: values

VALUES = [
    0, 1, -1, 1.5, 1e300, -0.0, 2 ** 70, True, False, None, "", "x", "null", "\x00", "\u00e9", "\u2028\U0001f600", "\ud800",
    "a\"b\\", [], [None], [[], {}], {}, {"a": 1, "b": [None, {"c": "\u00e9"}]}, {"": ""}, {"z": 1, "a": 2},
]
BIG = ["y" * 40000, ["\u00e9" * 30, 7] * 900, list(range(30000)), "z" * 131072]
KEYS = [None, b"", b"k", "k", "\u00e9", b"\xff\xfe", 7, "1f\u00e9" * 400]


def key_bytes(k):
    """what a key looks like in the log"""
    return k if k is None or isinstance(k, bytes) else str(k).encode("utf-8")


def text_dumps(m):
    return json.dumps(m, ensure_ascii=False)


def bytes_dumps(m):
    return json.dumps(m).encode("ascii")


def utf16_dumps(m):
    """bytes that are hardly ever valid UTF-8"""
    return b"\xff\xfe" + json.dumps(m).encode("utf-16-le")


def utf16_loads(v):
    return json.loads(v[2:].decode("utf-16-le"))


SERIAL = {"default": (None, None), "text": (text_dumps, json.loads), "bytes": (bytes_dumps, json.loads),
          "utf16": (utf16_dumps, utf16_loads)}


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True) and type(a) is type(b)


def round_trip(case):
    msgs, codec, batch, nparts, serial, key, where = case
    env = MetaEnv(brokers=(1, 2))
    for p in range(nparts):
        env.leader[("a", p)] = 1 + p % 2
        env.logs[("a", p)] = fakekafka.Log(3)
    w = vnet.World(env, Chooser(), max_steps=1500)
    ser, de = SERIAL[serial]
    told = []

    def partitioner(k, parts):
        if where is None:
            raise Violation("asked to choose")
        if sorted(parts) != list(range(nparts)):
            raise Violation("the partitioner was offered %r" % (parts,))
        if k is not key:
            raise Violation("the partitioner was given the key %r instead of %r" % (k, key))
        told.append(where[len(told)])
        return told[-1]

    async def main():
        env.doing = "produce()"
        p = Producer(HOSTS, compression=codec, batch_size=batch, serializer=ser,
                     key_maker=None if key is None else (lambda m: key),
                     partitioner=partitioner if where is not None else None)
        await p.connect()
        for m in msgs:
            await p.produce("a", m)
        env.doing = "close()"
        await p.close()
        total = sum(len(l.messages()) for l in env.logs.values())
        if total != len(msgs):
            raise Violation("%d messages produced, %d written" % (len(msgs), total))
        for kp, l in env.logs.items():
            for o, k, v in l.messages():
                if k != key_bytes(key):
                    raise Violation("written with the key %r instead of %r" % (k, key_bytes(key)))
        if where is not None:
            # grouped by partition, in the order of production
            for kp, l in env.logs.items():
                want = [m for m, q in zip(msgs, where) if q == kp[1]]
                if len(want) != len(l.messages()):
                    raise Violation("partition %d has %d messages, %d were sent there" % (kp[1], len(l.messages()), len(want)))
        env.doing = "consume()"
        c = SingleConsumer(HOSTS, deserializer=de)
        await c.connect()
        out = []
        for i in range(3):
            out += await c.consume("a", BEGIN)
        want = [m for m in msgs if m is not None]          # None is left out
        if nparts == 1:
            ok = len(out) == len(want) and all(same(a, b) for a, b in zip(out, want))
        else:
            left = list(out)
            for m in want:
                for i, x in enumerate(left):
                    if same(m, x):
                        del left[i]
                        break
                else:
                    break
            else:
                want = None
            ok = want is None and not left
            if ok and where is not None:
                # in order within each partition, if the values can be told apart
                for q in range(nparts):
                    mine = [m for m, x in zip(msgs, where) if x == q and m is not None]
                    got = [m for m in out if any(same(m, x) for x in mine)]
                    if len(got) == len(mine) and not all(same(a, b) for a, b in zip(got, mine)):
                        ok = False
        if not ok:
            raise Violation("produced %.300r, consumed %.300r" % (msgs, out))
        await c.close()
        open_ = [s for s in w.all_socks if s.state == "open"]
        if open_:
            raise Violation("%d connections left open" % len(open_))
        return len(out)
    return w.run(main)


# ---------------------------------------------------------------------------
# P32: schedules

TOPICS = {"a": {0: 1, 1: 2}, "b": {0: 2}}


def part_of(key, parts):
    return sorted(parts)[int(key) % len(parts)]


def crash2(env):
    env.crash(2)


def crash1_listed(env):
    env.listed = sorted(env.up)
    env.crash(1)
    env.after(2, lambda: setattr(env, "listed", None))


def leader_moves(env):
    for kp in env.leader:
        if 3 - env.leader[kp] in env.up:
            env.leader[kp] = 3 - env.leader[kp]


def drop_all(env):
    for p in env.live_peers():
        env.drop(p)


def election(env):
    env.part_error[("a", 1)] = 5
    env.after(2, env.part_error.clear)


def partition_added(env):
    env.leader[("a", 2)] = 1
    env.logs[("a", 2)] = fakekafka.Log()


def pipe(ch, script, start, batch=1, codec=None, codes=(), drops=(), actions=(), refuse=False, max_bytes=4000):
    """script: 'a0x' produces that message, 'c:a' consumes"""
    env = MetaEnv(brokers=(1, 2), topics=TOPICS)
    env.op_cost = 1
    w = vnet.World(env, ch, max_steps=1500)
    out = {"a": [], "b": []}
    accepted = []

    async def main():
        env.doing = "connect()"
        p = Producer(HOSTS, batch_size=batch, compression=codec, key_maker=lambda m: m["k"][1], partitioner=part_of)
        c = SingleConsumer(HOSTS, max_bytes=max_bytes)
        await p.connect()
        await c.connect()
        topics = sorted({s[-1] for s in script if s.startswith("c:")})
        if start == END:
            for t in topics:
                r = await c.consume(t, END)
                if r:
                    raise Violation("an empty topic gave %r" % r)
        await env.idle()
        ms = []
        if codes:
            ms.append(code_menu(codes))
        if drops:
            ms.append(drop_menu({"produce", "fetch", "offset", "metadata"}, drops))
        env.menu_fn = menus(*ms) if ms else None
        if refuse:
            env.connect_menu = refuse_menu
        for a in actions:
            env.action(a.__name__, lambda a=a: a(env))

        def produce(s):
            async def go():
                try:
                    await p.produce(s[0], {"k": s})
                except exc.NoBrokersError:
                    pass
                accepted.append(s)
            return go

        async def take(t):
            r = await c.consume(t, start)
            if r is None:
                raise Violation("consume() returned None")
            out[t].extend(x["k"] for x in r)

        def consume(t):
            async def go():
                while t in busy:            # one at a time per topic
                    await busy[t]
                busy[t] = w.loop.create_future()
                try:
                    await take(t)
                except exc.NoBrokersError:
                    pass
                finally:
                    busy.pop(t).set_result(None)
            return go
        busy = {}
        for s in script:
            env.op(s, consume(s[2:]) if s.startswith("c:") else produce(s))
        for label, r in await env.run_ops():
            if isinstance(r, BaseException):
                raise r if isinstance(r, Violation) else Violation("%s failed: %r" % (label, r))
        await env.idle()
        early = sum(map(len, out.values()))
        calm(env)
        for i in range(4):
            if not p.unsent_count:
                break
            env.doing = "flush() once the faults are over"
            try:
                await p.flush()
            except exc.NoBrokersError:
                pass
        if p.unsent_count:
            raise Violation("%d messages still queued once the faults are over" % p.unsent_count)
        logs = {t: [(kp, [json.loads(v)["k"] for _, _, v in l.messages()])
                    for kp, l in sorted(env.logs.items()) if kp[0] == t] for t in out}
        for i in range(12):
            env.doing = "consume() once the faults are over"
            for t in topics:
                try:
                    await take(t)
                except exc.NoBrokersError:
                    if i > 1:
                        raise Violation("no brokers although all of them are back")
            if all(len(out[t]) >= sum(len(v) for _, v in logs[t]) for t in topics):
                break
        for s in script:
            if s.startswith("c:"):
                continue
            if not any(s in v for _, v in logs[s[0]]):
                raise Violation("message %r is in no log" % s)
        for t in topics:
            written = [m for _, v in logs[t] for m in v]
            if sorted(written) != sorted(out[t]):
                raise Violation("topic %s holds %r, consumed were %r" % (t, logs[t], out[t]))
            for kp, v in logs[t]:
                alone = [m for m in v if written.count(m) == 1]
                got = [m for m in out[t] if m in alone]
                if got != alone:
                    raise Violation("partition %s/%d holds %r, consumed as %r" % (kp + (v, got)))
        env.doing = "close()"
        await p.close()
        await c.close()
        await env.idle()
        if w.loop_errors:
            raise Violation("unhandled: %s" % w.loop_errors[0])
        open_ = [s for s in w.all_socks if s.state == "open"]
        if open_:
            raise Violation("%d connections left open after close()" % len(open_))
        return early, sorted((k, tuple(map(repr, v))) for k, v in logs.items())
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def p32(ctx):
    ctx.rule("values: every JSON value of a 25-value alphabet (numbers, unicode, lone surrogates, nested, null) alone and every pair (thorough: triples), large ones "
             "beyond the snappy block size, with each compression, 4 serializer pairs, 8 keys, 1-2 partitions, every choice of partitions or the default "
             "random one: written by Producer, read back by SingleConsumer. schedules: a producer and a consumer sharing a cluster, calls overlapping, "
             "under error codes, dropped connections, leader moves, crashes and added partitions up to the bound.")
    ctx.assume("None (JSON null) is left out by consume(), as it documents")
    ctx.assume("a message whose acknowledgement was lost may be written, and so consumed, twice")
    T = ctx.thorough
    CODECS = (None, 1, 2)

    def singles():
        for v in VALUES + BIG:
            for codec in CODECS:
                for serial in SERIAL:
                    if serial == "text" and v == "\ud800":
                        continue            # not text at all
                    yield [v], codec, 1, 1, serial, None, None
        for key in KEYS:
            for codec in CODECS:
                for serial in SERIAL:
                    yield [{"a": "\u00e9"}, 3], codec, 2, 2, serial, key, (1, 0)

    def pairs():
        for vs in itertools.product(VALUES, repeat=2):
            for codec in CODECS:
                yield list(vs), codec, 2, 1, "default", None, None
        for vs in itertools.product(BIG + ["s"], repeat=2):
            for codec in CODECS:
                yield list(vs), codec, 2, 1, "default", None, None

    def spread():
        small = VALUES if T else [0, False, "", None, {"a": [1]}, "\u00e9"]
        for n in (2, 3) + ((4,) if T else ()):
            some = small if n < 3 else [0, "", {"a": [1]}, None] if T or n < 3 else ["", {"a": [1]}, None]
            for vs in itertools.product(some, repeat=n):
                for where in itertools.chain([None], itertools.product((0, 1), repeat=n)):
                    for batch in (1, n):
                        for codec in CODECS if T else (None, 1 + (n + batch) % 2):
                            yield list(vs), codec, batch, 2, "default", None, where

    def triples():
        for vs in itertools.product(VALUES, repeat=3):
            yield list(vs), 1, 3, 1, "default", None, None
    ctx.cases("singles", singles, round_trip)
    ctx.cases("pairs", pairs, round_trip)
    ctx.cases("spread", spread, round_trip)
    if T:
        ctx.cases("triples", triples, round_trip)
    b = 4 if T else 3
    script = ["c:a", "a0x", "a1y", "c:a", "a0z", "c:a"]
    two = ["a0x", "c:a", "b0x", "c:b", "a1y", "c:a"]
    codes = {"produce": (6, 7), "fetch": (6,), "offset": (6,)}
    for start in (BEGIN, END):
        n = "begin" if start == BEGIN else "end"
        a = b if start == BEGIN else b - 1
        ctx.explore("codes-%s" % n, pipe, a, script=script, start=start, codes=codes)
        ctx.explore("drops-%s" % n, pipe, b - 1, script=script, start=start, drops=("before", "after", "cut"))
        ctx.explore("two-topics-%s" % n, pipe, b - 1, script=two, start=start, codes={"produce": (6,), "fetch": (3,)}, drops=("after",))
        for act in (crash2, crash1_listed, leader_moves, drop_all, election, partition_added):
            ctx.explore("%s-%s" % (act.__name__, n), pipe, a, script=script, start=start, actions=(act,),
                        codec=1 if act in (crash2, election) else None, batch=2 if act is leader_moves else 1)
    ctx.explore("snappy-batch", pipe, b - 1, script=script + ["a1w", "c:a"], start=BEGIN, codec=2, batch=2, drops=("after",), codes={"fetch": (6,)})
    ctx.explore("tight", pipe, b, script=["a0x", "a0y", "a1z", "c:a", "c:a"], start=BEGIN, max_bytes=90, drops=("cut",), codes=codes)
    ctx.explore("refused", pipe, b - 1, script=script, start=END, actions=(drop_all,), refuse=True)


# ---------------------------------------------------------------------------
# P33: the program's own functions fail

class Broken(Exception):
    pass


class NoText(object):
    def __str__(self):
        raise Broken("no text")


# what goes wrong with a message -> the function that is to blame
WRONG = ("serializer raises", "serializer gives half a surrogate", "serializer gives something without text",
         "key_maker raises", "key_maker gives half a surrogate", "partitioner raises", "partitioner chooses an unknown partition")
LASTING = WRONG[:5]                 # the message can never be sent


def failing(ch, script, wrong, batch, codec=None, overlap=False, codes=(), drops=(), closing=True):
    """script: messages 'a0x' or 'flush'; wrong: message -> what is wrong with it"""
    env = MetaEnv(brokers=(1, 2), topics=TOPICS)
    env.op_cost = 1 if overlap else None
    w = vnet.World(env, ch, max_steps=1500)
    raised = {}
    once = set()

    def blame(m, kinds, result):
        k = wrong.get(m)
        if k not in kinds:
            return result
        if k.endswith("raises"):
            raise Broken(k)
        return NoText() if "without" in k else "\ud800"

    def serializer(m):
        return blame(m, WRONG[:3], m)

    def key_maker(m):
        return blame(m, WRONG[3:5], m[1:])

    def partitioner(key, parts):
        for m, k in wrong.items():
            if m[1:] == key and k in WRONG[5:] and m not in once:
                once.add(m)
                if k == WRONG[5]:
                    raise Broken(k)
                return 77
        return part_of(key[:1], parts)

    async def main():
        env.doing = "connect()"
        p = Producer(HOSTS, batch_size=batch, compression=codec, serializer=serializer, key_maker=key_maker, partitioner=partitioner)
        await p.connect()
        await env.idle()
        ms = []
        if codes:
            ms.append(code_menu({"produce": codes}))
        if drops:
            ms.append(drop_menu({"produce", "metadata"}, drops))
        env.menu_fn = menus(*ms) if ms else None

        def op(s):
            async def go():
                env.doing = s
                try:
                    if s == "flush":
                        await p.flush()
                    else:
                        await p.produce(s[0], s)
                except exc.NoBrokersError:
                    pass
                except Exception as e:
                    raised[s] = e
            return go
        if overlap:
            for s in script:
                env.op(s, op(s))
            for label, r in await env.run_ops():
                if isinstance(r, BaseException):
                    raise r
        else:
            for s in script:
                await op(s)()
        await env.idle()
        calm(env)
        transient = [m for m, k in wrong.items() if k not in LASTING]
        for m, k in wrong.items():
            if k in LASTING and m not in raised:
                raise Violation("produce() of a message whose %s succeeded" % k)
        for s, e in raised.items():
            if wrong.get(s) in LASTING:
                if isinstance(wrong[s], str) and wrong[s].endswith("raises") and not isinstance(e, Broken):
                    raise Violation("the %s, but produce() raised %r" % (wrong[s], e))
                continue
            if not transient:
                raise Violation("%s raised %r, which another message is to blame for" % (s, e))
        # once the functions work, everything goes out
        for i in range(4):
            if not p.unsent_count:
                break
            try:
                await p.flush()
            except exc.NoBrokersError:
                pass
            except Exception as e:
                if not transient:
                    raise Violation("flush() raised %r" % e)
        if p.unsent_count:
            raise Violation("%d messages are stuck in the queue" % p.unsent_count)
        if closing:
            env.doing = "close()"
            await p.close()
        sent = [s for s in script if s != "flush" and wrong.get(s) not in LASTING]
        for kp, l in env.logs.items():
            vals = [v.decode() for _, _, v in l.messages()]
            want = [s for s in sent if s[0] == kp[0] and part_of(s[1], TOPICS[kp[0]]) == kp[1]]
            if sorted(set(vals)) != sorted(want):
                raise Violation("partition %s/%d holds %r, produced were %r" % (kp + (vals, want)))
            if not codes and not drops and vals != want:
                raise Violation("partition %s/%d holds %r, produced were %r, in this order" % (kp + (vals, want)))
        if w.loop_errors:
            raise Violation("unhandled: %s" % w.loop_errors[0])
        return sorted(raised), sorted((k, len(l.messages())) for k, l in env.logs.items())
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def failing_case(case):
    return failing(Chooser(), *case)


def no_codec(case):
    """the compression does not work (snappy is not installed, say) until it does"""
    script, batch, codec, upto = case
    from kiel.protocol import messages
    env = MetaEnv(brokers=(1, 2), topics=TOPICS)
    w = vnet.World(env, Chooser(), max_steps=1500)
    mod = messages.gzip if codec == 1 else messages.snappy
    real, count = mod.compress, [0]

    def compress(data):
        count[0] += 1
        if count[0] <= upto:
            raise RuntimeError("compression unavailable")
        return real(data)

    async def main():
        p = Producer(HOSTS, batch_size=batch, compression=codec, serializer=lambda m: m, key_maker=lambda m: m[1:2], partitioner=part_of)
        await p.connect()
        for s in script:
            try:
                await p.produce(s[0], s)
            except RuntimeError:
                pass
        for i in range(upto + 2):
            if p.unsent_count:
                try:
                    await p.flush()
                except RuntimeError:
                    pass
        await p.close()
        for kp, l in env.logs.items():
            vals = [v.decode() for _, _, v in l.messages()]
            want = [s for s in script if s[0] == kp[0] and part_of(s[1], TOPICS[kp[0]]) == kp[1]]
            if vals != want:
                raise Violation("the first %d compressions failed: partition %s/%d holds %r, produced were %r" % (
                    (upto,) + kp + (vals, want)))
        return count[0]
    mod.compress = compress
    try:
        return w.run(main)
    finally:
        mod.compress = real


def p33(ctx):
    ctx.rule("scripts of 2-4 messages over 3 partitions of 2 topics and flushes; one or two of the messages have a serializer, key maker or partitioner that "
             "raises or gives what cannot be encoded, in each position; every batch size and compression; calls one after the other or overlapping, with "
             "error codes and dropped connections up to the bound; compression failing the first 1-3 times.")
    T = ctx.thorough
    MS = ["a0w", "a1x", "b0y", "a0z"]

    def singles():
        for n in (1, 2, 3, 4):
            for i in range(n):
                for k in WRONG:
                    for batch in (0, 1, 2, 3, 9):
                        for codec in (None, 1, 2):
                            for flush in range(n + 1):
                                s = MS[:n]
                                yield s[:flush] + ["flush"] + s[flush:], {MS[i]: k}, batch, codec

    def pairs():
        for i, j in itertools.combinations(range(4), 2):
            for k in WRONG:
                for k2 in WRONG:
                    for batch in (1, 2, 3, 9):
                        for codec in (None, 1):
                            yield MS, {MS[i]: k, MS[j]: k2}, batch, codec

    def codecs():
        for n in (1, 2, 3, 4):
            for s in itertools.permutations(MS, n) if T else [MS[:n], MS[::-1][:n]]:
                for batch in (1, 2, 3, 9):
                    for codec in (1, 2):
                        for upto in (1, 2, 3):
                            yield s, batch, codec, upto
    ctx.cases("one", singles, failing_case)
    ctx.cases("two", pairs, failing_case)
    ctx.cases("compression", codecs, no_codec)
    b = 5 if T else 4
    for k in WRONG:
        for batch in (1, 2, 3):
            n = "%s-%d" % (k.replace(" ", "-"), batch)
            ctx.explore("overlap-%s" % n, failing, b, script=MS + ["flush"], wrong={MS[1]: k}, batch=batch, overlap=True)
            if k in LASTING:
                ctx.explore("faults-%s" % n, failing, b, script=MS, wrong={MS[1]: k}, batch=batch, codes=(6,), drops=("before", "after"))
