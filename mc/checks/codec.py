"""P01-P05: exhaustive bounded enumeration of wire values and byte cuts."""
import itertools
import struct
import zlib

from tornado import gen

from .. import kspec, shapes, vnet
from ..core import Violation

import kiel.protocol.produce as produce
import kiel.protocol.fetch as fetch
import kiel.protocol.offset as offset
import kiel.protocol.metadata as metadata
import kiel.protocol.offset_commit as offset_commit
import kiel.protocol.offset_fetch as offset_fetch
import kiel.protocol.coordinator as coordinator
import kiel.protocol.join_group as join_group
import kiel.protocol.leave_group as leave_group
import kiel.protocol.sync_group as sync_group
import kiel.protocol.describe_groups as describe_groups
import kiel.protocol.list_groups as list_groups
import kiel.protocol.heartbeat as heartbeat
from kiel.protocol.messages import Message, MessageSet
from kiel.compression import gzip as kgzip, snappy as ksnappy
from kiel.connection import Connection


# schema key -> {path of the struct: class}
REQ = {
    "metadata": {"": metadata.MetadataRequest},
    "produce": {"": produce.ProduceRequest, "topics": produce.TopicRequest,
                "topics.partitions": produce.PartitionRequest},
    "fetch": {"": fetch.FetchRequest, "topics": fetch.TopicRequest,
              "topics.partitions": fetch.PartitionRequest},
    "offset": {"": offset.OffsetRequest, "topics": offset.TopicRequest,
               "topics.partitions": offset.PartitionRequest},
    "offset_commit": {"": offset_commit.OffsetCommitV0Request,
                      "topics": offset_commit.TopicRequest,
                      "topics.partitions": offset_commit.PartitionRequest},
    "offset_commit_v1": {"": offset_commit.OffsetCommitV1Request,
                         "topics": offset_commit.TopicV1Request,
                         "topics.partitions": offset_commit.PartitionV1Request},
    "offset_commit_v2": {"": offset_commit.OffsetCommitV2Request,
                         "topics": offset_commit.TopicRequest,
                         "topics.partitions": offset_commit.PartitionRequest},
    "offset_fetch": {"": offset_fetch.OffsetFetchRequest,
                     "topics": offset_fetch.TopicRequest},
    "group_coordinator": {"": coordinator.GroupCoordinatorRequest},
    "join_group": {"": join_group.JoinGroupRequest,
                   "group_protocols": join_group.GroupProtocol},
    "leave_group": {"": leave_group.LeaveGroupRequest},
    "heartbeat": {"": heartbeat.HeartbeatRequest},
    "sync_group": {"": sync_group.SyncGroupRequest,
                   "assignments": sync_group.MemberAssignment,
                   "assignments.assignment": sync_group.Assignment,
                   "assignments.assignment.topics": sync_group.TopicAssignment},
    "describe_groups": {"": describe_groups.DescribeGroupsRequest},
    "list_groups": {"": list_groups.ListGroupsRequest},
}
RESP = {
    "metadata": metadata.MetadataResponse,
    "produce": produce.ProduceResponse,
    "fetch": fetch.FetchResponse,
    "offset": offset.OffsetResponse,
    "offset_commit": offset_commit.OffsetCommitResponse,
    "offset_fetch": offset_fetch.OffsetFetchResponse,
    "group_coordinator": coordinator.GroupCoordinatorResponse,
    "join_group": join_group.JoinGroupResponse,
    "leave_group": leave_group.LeaveGroupResponse,
    "heartbeat": heartbeat.HeartbeatResponse,
    "sync_group": sync_group.SyncGroupResponse,
    "describe_groups": describe_groups.DescribeGroupsResponse,
    "list_groups": list_groups.ListGroupsResponse,
}
# responses the client library receives on a live connection
LIVE = ["metadata", "produce", "fetch", "offset", "offset_commit",
        "offset_fetch", "group_coordinator"]


def build(t, value, classes, path=""):
    """kiel object for a schema value"""
    if isinstance(t, str):
        if t == "mset":
            return MessageSet([
                (off, Message(magic=0, attributes=0, key=k, value=v))
                for off, k, v in value])
        return value
    if t[0] == "arr":
        if value is None:
            return None
        return [build(t[1], v, classes, path) for v in value]
    kw = {name: build(ft, value[name], classes, (path + "." + name).lstrip("."))
          for name, ft in t[1]}
    return classes[path](**kw)


def canon(t, value):
    """what an exact decoder must read back: bytes for str/bytes, [] for a
    null array, [(offset, key, value)] for a message set"""
    if isinstance(t, str):
        if t in ("str", "bytes"):
            return kspec._b(value)
        if t == "mset":
            return [(o, kspec._b(k), kspec._b(v)) for o, k, v in value]
        return value
    if t[0] == "arr":
        return [canon(t[1], v) for v in value or []]
    return {name: canon(ft, value[name]) for name, ft in t[1]}


def parse_set(raw):
    out = []
    pos = 0
    while pos < len(raw):
        off, size = struct.unpack(">qi", raw[pos:pos + 12])
        msg = raw[pos + 12:pos + 12 + size]
        pos += 12 + size
        got = kspec.validate_set(struct.pack(">qi", off, size) + msg)
        if len(got) != 1:
            raise kspec.SpecError("not a single message")
        out.append((off,) + got[0])
    return out


def unset(t, value):
    """decoded request: message-set bytes -> entries"""
    if isinstance(t, str):
        return parse_set(value) if t == "mset" else value
    if t[0] == "arr":
        return [unset(t[1], v) for v in value]
    return {name: unset(ft, value[name]) for name, ft in t[1]}


def view(t, obj):
    """fields of a decoded kiel response in schema form"""
    if isinstance(t, str):
        if t == "mset":
            return [(o, _bin(m.key), _bin(m.value)) for o, m in obj.messages]
        if t in ("str", "bytes"):
            return _bin(obj)
        return obj
    if t[0] == "arr":
        return [view(t[1], v) for v in obj]
    return {name: view(ft, getattr(obj, name)) for name, ft in t[1]}


def _bin(v):
    if v is None or isinstance(v, bytes):
        return v
    if isinstance(v, str):
        return v.encode("utf-8")
    raise Violation("decoded %r where text or bytes belong" % (v,))


# ---------------------------------------------------------------------------

class SinkEnv(vnet.Env):
    """accepts the connection, collects frames, sends what it is told to"""

    def __init__(self):
        vnet.Env.__init__(self)
        self.frames = []
        self.waiting = []
        self.peer = None

    def on_connect(self, sock):
        self.waiting.append(sock)

    def things(self):
        if self.waiting:
            return [("accept", 0, self.accept)]
        return []

    def accept(self):
        s = self.waiting.pop(0)
        self.peer = vnet.Peer(self, s, None)
        s.state = "open"

    def on_frame(self, peer, frame):
        self.frames.append(frame)


class NoChoice(object):
    def choose(self, opts):
        return 0

    def state(self, fp):
        pass


def with_connection(body):
    """run coroutine function body(conn, env) over one virtual connection"""
    env = SinkEnv()
    w = vnet.World(env, NoChoice(), max_steps=100000)

    @gen.coroutine
    def main():
        conn = Connection("broker", 9092)
        yield conn.connect()
        yield body(conn, env)

    async def amain():
        await main()
    return w.run(amain)


def check_frame(name, t, value, req, frame, seen):
    try:
        got = kspec.decode_request(frame, schema=name)
    except kspec.SpecError as e:
        raise Violation("%s: not a valid frame: %s" % (name, e))
    api = name.split("_v")[0]
    if got["api_key"] != kspec.API_KEYS[api]:
        raise Violation("%s sent with api key %d" % (name, got["api_key"]))
    if got["api_version"] != 0:
        raise Violation("%s sent with version %d" % (name, got["api_version"]))
    if got["correlation_id"] != req.correlation_id:
        raise Violation("frame carries another correlation id than the request")
    if got["correlation_id"] in seen:
        raise Violation("correlation id used twice")
    seen.add(got["correlation_id"])
    if got["client_id"] != b"kiel":
        raise Violation("client id %r" % (got["client_id"],))
    try:
        body = unset(t, got["body"])
    except kspec.SpecError as e:
        raise Violation("%s: bad message set: %s" % (name, e))
    want = canon(t, value)
    if body != want:
        raise Violation("%s: a broker reads %s, given %s" % (
            name, repr(body)[:400], repr(want)[:400]))


def p01(ctx):
    ctx.rule("Every request class x every array-length shape (0..2 per level, 0..3 thorough) x every "
             "replacement of one leaf (two leaves where <=9; <=14 thorough) by its alphabet "
             "(0, -1, extremes; null, empty, non-ASCII, NUL, long); sent through a Connection on a "
             "virtual socket and read back by an independent decoder. Distinct by value.")
    ctx.assume("offset_commit V1/V2 and the group-membership requests use the layouts documented in "
               "kiel's own docstrings (e.g. consumer_id is Int32), always with api version 0")
    maxlen = 3 if ctx.thorough else 2
    pairs = 14 if ctx.thorough else 9
    batch = 40

    def gen_cases():
        for name in sorted(REQ):
            t = kspec.REQUESTS[name]
            it = shapes.values(t, maxlen, 2, pairs)
            while True:
                chunk = list(itertools.islice(it, batch))
                if not chunk:
                    break
                yield (name, chunk)

    def one(case):
        name, chunk = case
        t = kspec.REQUESTS[name]
        seen = set()

        @gen.coroutine
        def body(conn, env):
            for value in chunk:
                req = build(t, value, REQ[name])
                n = len(env.frames)
                conn.send(req)
                for _ in range(200):
                    if len(env.frames) > n:
                        break
                    yield gen.moment
                if len(env.frames) != n + 1 or env.peer.buf:
                    raise Violation("%s: %d frames and %d stray bytes on the wire for %r" % (
                        name, len(env.frames) - n, len(env.peer.buf), value))
                check_frame(name, t, value, req, env.frames[-1], seen)
        with_connection(body)
        return (name, repr(chunk))

    ctx.cases("requests", gen_cases, one)

    # several requests handed over back to back still make whole frames
    def gen_burst():
        names = sorted(REQ)
        for a in names:
            for b in names:
                yield (a, b)

    def burst(case):
        @gen.coroutine
        def body(conn, env):
            reqs = []
            for name in case + case:
                t = kspec.REQUESTS[name]
                value = shapes._Base((1, 1, 1, 1)).make(t)
                req = build(t, value, REQ[name])
                reqs.append((name, t, value, req))
                conn.send(req)
            for _ in range(50):
                yield gen.moment
            if len(env.frames) != len(reqs) or env.peer.buf:
                raise Violation("%d frames for %d requests" % (len(env.frames), len(reqs)))
            seen = set()
            for (name, t, value, req), frame in zip(reqs, env.frames):
                check_frame(name, t, value, req, frame, seen)
        with_connection(body)
    ctx.cases("bursts", gen_burst, burst)


def p02(ctx):
    ctx.rule("Every response class x every array-length shape x every replacement of one or two leaves by "
             "its alphabet, encoded by an independent encoder, decoded by the library (and, for the APIs "
             "the client uses, received through a Connection). Distinct by value.")
    ctx.assume("a null array in a response reads as an empty list; textual and binary fields are "
               "compared as bytes (the library hands out text when the bytes are UTF-8)")
    maxlen = 3 if ctx.thorough else 2
    pairs = 14 if ctx.thorough else 9

    def gen_cases():
        for name in sorted(RESP):
            t = kspec.RESPONSES[name]
            it = shapes.values(t, maxlen, 2, pairs)
            while True:
                chunk = list(itertools.islice(it, 60))
                if not chunk:
                    break
                yield (name, chunk)

    def encode(t, value):
        return kspec.encode(t, to_wire(t, value))

    def compare(name, t, value, obj):
        want = canon(t, value)
        try:
            got = view(t, obj)
        except AttributeError as e:
            raise Violation("%s: decoded object lacks a field: %s" % (name, e))
        if got != want:
            raise Violation("%s: decoded %s, broker sent %s" % (
                name, repr(got)[:400], repr(want)[:400]))

    def one(case):
        name, chunk = case
        t = kspec.RESPONSES[name]
        for value in chunk:
            compare(name, t, value, RESP[name].deserialize(encode(t, value)))
        if name in LIVE:
            @gen.coroutine
            def body(conn, env):
                for value in chunk:
                    req = build(kspec.REQUESTS[name],
                                shapes._Base((0,)).make(kspec.REQUESTS[name]), REQ[name])
                    f = conn.send(req)
                    env.peer.deliver(kspec.encode_response(name, req.correlation_id, to_wire(t, value)))
                    obj = yield f
                    if obj.correlation_id != req.correlation_id:
                        raise Violation("correlation id not echoed")
                    if obj.api != name:
                        raise Violation("%s answered with a %s object" % (name, obj.api))
                    compare(name, t, value, obj)
            with_connection(body)
        return (name, repr(chunk))
    ctx.cases("responses", gen_cases, one)

    # null arrays, everywhere an array occurs
    def null_arrays():
        for name in sorted(RESP):
            t = kspec.RESPONSES[name]
            base = shapes._Base((2, 2, 2, 2)).make(t)
            for path in array_paths(t, base):
                yield (name, shapes.replace(base, path, None))

    def one_null(case):
        name, value = case
        t = kspec.RESPONSES[name]
        compare(name, t, value, RESP[name].deserialize(encode(t, value)))
    ctx.cases("null-arrays", null_arrays, one_null)

    # many elements
    def sizes():
        for name in sorted(RESP):
            for n in ([3, 10, 100] if not ctx.thorough else [3, 4, 5, 10, 100, 300]):
                if shapes.depth_of(kspec.RESPONSES[name]):
                    for d in range(shapes.depth_of(kspec.RESPONSES[name])):
                        yield (name, n, d)

    def one_size(case):
        name, n, d = case
        t = kspec.RESPONSES[name]
        lengths = [1] * shapes.depth_of(t)
        lengths[d] = n
        value = shapes._Base(lengths).make(t)
        compare(name, t, value, RESP[name].deserialize(encode(t, value)))
    ctx.cases("long-arrays", sizes, one_size)


def array_paths(t, value, path=()):
    if isinstance(t, str):
        return
    if t[0] == "arr":
        yield path
        for i, v in enumerate(value):
            for p in array_paths(t[1], v, path + (i,)):
                yield p
        return
    for name, ft in t[1]:
        for p in array_paths(ft, value[name], path + (name,)):
            yield p


def to_wire(t, value):
    if isinstance(t, str):
        if t == "mset" and not isinstance(value, bytes):
            return kspec.plain_set(value)
        return value
    if t[0] == "arr":
        return None if value is None else [to_wire(t[1], v) for v in value]
    return {name: to_wire(ft, value[name]) for name, ft in t[1]}


# ---------------------------------------------------------------------------
# P03

def entries_for(comp, start, tag):
    """comp: list of ('p' | 1 | 2, n) groups -> list of (entry bytes, [msgs])"""
    out = []
    off = start
    for codec, n in comp:
        msgs = []
        for i in range(n):
            key = [None, "k%d" % off, b"\xff%d" % off][off % 3]
            val = ["%s-%d" % (tag, off), b"\x00\xfe" + b"b" * (off % 5), ""][(off // 2) % 3]
            msgs.append((off, key, val))
            off += 1
        if codec == "p":
            for o, k, v in msgs:
                out.append((kspec.encode_entry(o, kspec.encode_message(k, v)), [(o, k, v)]))
        else:
            o, raw = kspec.compressed_entry(codec, msgs)
            out.append((kspec.encode_entry(o, raw), msgs))
    return out


def p03(ctx):
    ctx.rule("Fetch responses of 1-3 partitions over 1-2 topics; one partition's set, built from every "
             "sequence of up to 3 plain/gzip/snappy entries, is cut at every byte; the others are whole. "
             "Non-trivial: the cut falls inside the set. Distinct by (layout, cut).")
    groups = [("p", 1), (1, 2), (2, 2)]
    comps = []
    for n in range(0, 4 if not ctx.thorough else 5):
        comps += list(itertools.product(groups, repeat=n))
    comps = [c for c in comps if ctx.thorough or len(c) < 3 or len(set(g[0] for g in c)) != 1 or c[0][0] == "p"]
    t = kspec.RESPONSES["fetch"]
    # layouts: list of topics, each a list of partitions; "*" is the cut one
    layouts = [["*"], ["*", "w"], ["w", "*"], ["w", "*", "w"]]
    tlayouts = [[l] for l in layouts] + [[["*"], ["w"]], [["w"], ["*"]], [["w", "*"], ["w"]],
                                         [["*", "w"], ["e", "w"]], [["e", "*", "e"], ["w"]]]
    if ctx.thorough:
        tlayouts += [[["*", "e", "w"], ["w", "w"]], [["w"], ["*"], ["w"]]]

    def gen_cases():
        for ci, comp in enumerate(comps):
            for li in range(len(tlayouts)):
                yield (ci, li)

    def one(case):
        ci, li = case
        comp = comps[ci]
        ents = entries_for(comp, 5, "c")
        raw = b"".join(e for e, _ in ents)
        ends = list(itertools.accumulate(len(e) for e, _ in ents))
        wents = entries_for([("p", 2), (1, 2)], 900, "w")
        wraw = b"".join(e for e, _ in wents)
        wmsgs = [m for _, ms in wents for m in ms]
        for cut in range(len(raw) + 1):
            whole = [m for end, (_, ms) in zip(ends, ents) if end <= cut for m in ms]
            topics, want = [], []
            pid = 0
            for ti, parts in enumerate(tlayouts[li]):
                ps, ws = [], []
                for kind in parts:
                    data, msgs = {"*": (raw[:cut], whole), "w": (wraw, wmsgs), "e": (b"", [])}[kind]
                    ps.append({"partition_id": pid, "error_code": pid % 2 * 6,
                               "highwater_mark_offset": 1000 + pid, "message_set": data})
                    ws.append({"partition_id": pid, "error_code": pid % 2 * 6,
                               "highwater_mark_offset": 1000 + pid,
                               "message_set": canon("mset", msgs)})
                    pid += 1
                topics.append({"name": "t%d" % ti, "partitions": ps})
                want.append({"name": b"t%d" % ti, "partitions": ws})
            body = kspec.encode(t, {"topics": topics})
            try:
                got = view(t, fetch.FetchResponse.deserialize(body))
            except Violation:
                raise
            except Exception as e:
                raise Violation("set %r cut at byte %d of %d: decoding raises %s: %s" % (
                    comp, cut, len(raw), type(e).__name__, e))
            if got != {"topics": want}:
                raise Violation("set %r cut at byte %d of %d in layout %r: decoded %s, want %s" % (
                    comp, cut, len(raw), tlayouts[li], repr(got)[:600], repr({"topics": want})[:600]))
        return (case, len(raw))
    ctx.cases("cuts", gen_cases, one)
    ctx.cov["cuts_per_layout"] = "every byte"

    # through a live connection: the next response must still be readable
    def live():
        for ci in range(len(comps)):
            if len(comps[ci]) == 2:
                yield ci

    def one_live(ci):
        ents = entries_for(comps[ci], 5, "c")
        raw = b"".join(e for e, _ in ents)
        ends = list(itertools.accumulate(len(e) for e, _ in ents))

        @gen.coroutine
        def body(conn, env):
            for cut in range(len(raw) + 1):
                whole = [m for end, (_, ms) in zip(ends, ents) if end <= cut for m in ms]
                r = build(kspec.REQUESTS["fetch"], shapes._Base((0,)).make(kspec.REQUESTS["fetch"]), REQ["fetch"])
                f = conn.send(r)
                env.peer.deliver(kspec.encode_response("fetch", r.correlation_id, {"topics": [
                    {"name": "t", "partitions": [{"partition_id": 0, "error_code": 0,
                                                  "highwater_mark_offset": 9, "message_set": raw[:cut]}]}]}))
                obj = yield f
                got = view("mset", obj.topics[0].partitions[0].message_set)
                if got != canon("mset", whole):
                    raise Violation("cut at %d over a connection: %r" % (cut, got))
        with_connection(body)
    ctx.cases("cuts-live", live, one_live)


# ---------------------------------------------------------------------------
# P04

def payload(kind, n):
    if kind == "zero":
        return b"\x00" * n
    if kind == "text":
        return (b"The quick brown fox jumps over the lazy dog. " * (n // 45 + 1))[:n]
    if kind == "noise":           # incompressible, deterministic
        out = bytearray()
        x = 12345
        while len(out) < n:
            x = (x * 1103515245 + 12345) & 0x7fffffff
            out.append((x >> 16) & 0xff)
        return bytes(out)
    if kind == "mix":
        return (b"\xff\x00SNAPPY\x82" + b"a" * 30) * (n // 39) + b"q" * (n % 39)
    raise ValueError(kind)


def compositions(n):
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def p04(ctx):
    ctx.rule("compress/decompress for every size 0..%d and within +-%d of 1..4 x 32 KiB, 4 contents; "
             "decompress of independently encoded streams: every composition of 0..%d bytes into snappy "
             "blocks, literal and copy elements, gzip levels/members/header fields." % (
                 (1200, 40, 9) if not ctx.thorough else (5000, 300, 12)))
    BLOCK = 32 * 1024
    top, win, comp_n = (1200, 40, 9) if not ctx.thorough else (5000, 300, 12)
    kinds = ["zero", "text", "noise", "mix"]

    def sizes():
        s = set(range(0, top + 1))
        for k in range(1, 5):
            s |= set(range(max(0, k * BLOCK - win), k * BLOCK + win + 1))
        s |= {65535, 65536, 65537, 200000, 1 << 20}
        return sorted(s)
    size_list = sizes()

    def rt():
        for n in size_list:
            for kind in kinds:
                yield (kind, n)

    def one_rt(case):
        kind, n = case
        data = payload(kind, n)
        z = kgzip.compress(data)
        if kgzip.decompress(z) != data:
            raise Violation("gzip does not round-trip %r" % (case,))
        try:
            if kspec.gzip_decompress(z) != data:
                raise Violation("gzip output of %r reads back differently elsewhere" % (case,))
        except (kspec.SpecError, zlib.error) as e:
            raise Violation("gzip output of %r is not readable: %s" % (case, e))
        s = ksnappy.compress(data)
        if ksnappy.decompress(s) != data:
            raise Violation("snappy does not round-trip %r (%d of %d bytes)" % (
                case, len(ksnappy.decompress(s)), n))
        try:
            if kspec.xerial_decompress(s) != data:
                raise Violation("snappy output of %r reads back differently elsewhere" % (case,))
        except (kspec.SpecError, IndexError) as e:
            raise Violation("snappy output of %r is not readable: %s" % (case, e))
    ctx.cases("round-trip", rt, one_rt)

    def splits():
        for n in range(0, comp_n + 1):
            for c in compositions(n):
                for kind in ("zero", "noise"):
                    for runs in (False, True):
                        yield (kind, n, c, runs)
        for n in (100, 1000, 32768, 40000, 65536, 70000, 100000):
            for c in ((n,), (1, n - 1), (n - 1, 1), (n // 2, n - n // 2), (1, n - 2, 1),
                      (3,) * 5 + (n - 15,), (n - 15,) + (3,) * 5, (n - 40, 20, 20), (n - 7, 7)):
                for kind in ("zero", "noise", "text"):
                    for runs in (False, True):
                        yield (kind, n, c, runs)

    def one_split(case):
        kind, n, c, runs = case
        data = payload(kind, n)
        got = ksnappy.decompress(kspec.xerial_compress(data, c, runs))
        if got != data:
            raise Violation("snappy stream of blocks %r (%s) decompresses to %d of %d bytes" % (
                c, kind, len(got), n))
    ctx.cases("snappy-blocks", splits, one_split)

    def gz():
        for n in [0, 1, 2, 3, 10, 255, 256, 1000, 32768, 65535, 65536, 100000]:
            for kind in kinds:
                for level in range(0, 10):
                    yield (kind, n, ("level", level))
                for cut in (0, 1, n // 2, n):
                    yield (kind, n, ("members", min(cut, n)))
                for flags in range(0, 16):
                    yield (kind, n, ("header", flags))

    def one_gz(case):
        kind, n, (how, arg) = case
        data = payload(kind, n)
        if how == "level":
            z = kspec.gzip_compress(data, arg)
        elif how == "members":
            z = kspec.gzip_compress(data[:arg]) + kspec.gzip_compress(data[arg:])
        else:
            flg = (1 if arg & 1 else 0) | (2 if arg & 2 else 0) | (4 if arg & 4 else 0) | \
                (8 if arg & 8 else 0)
            head = b"\x1f\x8b\x08" + bytes([flg]) + b"\x01\x02\x03\x04\x00\xff"
            if flg & 4:
                head += struct.pack("<H", 3) + b"ext"
            if flg & 8:
                head += b"name\x00"
            if flg & 2:
                head += struct.pack("<H", zlib.crc32(head) & 0xffff)
            c = zlib.compressobj(6, zlib.DEFLATED, -15)
            z = head + c.compress(data) + c.flush() + struct.pack(
                "<II", zlib.crc32(data) & 0xffffffff, len(data) & 0xffffffff)
        if kgzip.decompress(z) != data:
            raise Violation("standard gzip stream %r decompresses differently" % (case,))
    ctx.cases("gzip-streams", gz, one_gz)


# ---------------------------------------------------------------------------
# P05

def p05(ctx):
    ctx.rule("Message sets of 0-3 messages (0-4 thorough) over keys/values {null, empty, text, non-ASCII, binary, "
             "large} x {none, gzip, snappy}, plus contents forged so the CRC32 hits 0, 2^31-1, 2^31, "
             "2^31+1, 2^32-1 and every single-bit value; encoded by the library inside produce requests "
             "with 1-2 topics x 1-2 partitions, checked by an independent broker-side validator.")
    vals = [None, "", "text", "\u00e9\u2713", b"\x00\xff\x80", b"\xff" * 5, "L" * 40000]
    targets = sorted({0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 0x7ffffffe} |
                     {1 << b for b in range(32)} | {(2 ** 32 - 1) ^ (1 << b) for b in range(32)})

    def forged(key, head, target):
        prefix = struct.pack(">bb", 0, 0) + kspec.encode("bytes", key) + \
            struct.pack(">i", len(head) + 4) + head
        return head + kspec.forge_crc(prefix, target)

    def gen_cases():
        for comp in (None, 1, 2):
            for n in range(1, 3):
                for ms in itertools.product(itertools.product(vals, vals), repeat=n):
                    if n == 2 and not ctx.thorough and any(
                            isinstance(v, str) and len(v) > 1000 for m in ms for v in m):
                        continue
                    yield (comp, ms)
            small = [(None, "a"), ("k", None), ("", ""), (b"\xfe", b"\xfd\x00"), (None, None)]
            for n in range(3, 4 if not ctx.thorough else 5):
                for ms in itertools.product(small, repeat=n):
                    yield (comp, ms)
            for tgt in targets:
                for key in (None, "", b"k"):
                    for head in (b"", b"payload"):
                        v = forged(key, head, tgt)
                        yield (comp, ((key, v),))
                        yield (comp, ((None, "before"), (key, v), (None, "after")))
            for n in (10, 100, 1000):
                yield (comp, tuple((("k%d" % i), "v%d" % i) for i in range(n)))

    t = kspec.REQUESTS["produce"]

    def one(case):
        comp, ms = case
        want = [(kspec._b(k), kspec._b(v)) for k, v in ms]

        def mset(msgs):
            return MessageSet.compressed(comp, [
                Message(magic=0, attributes=0, key=k, value=v) for k, v in msgs])
        layout = [("t", [(0, ms)])]
        if len(ms) > 1:
            layout = [("t", [(3, ms), (1, ms[:1])]), ("u\u00e9", [(0, ms[1:])])]
        req = produce.ProduceRequest(required_acks=-1, timeout=500, topics=[
            produce.TopicRequest(name=name, partitions=[
                produce.PartitionRequest(partition_id=pid, message_set=mset(m)) for pid, m in parts])
            for name, parts in layout])
        try:
            raw = req.serialize()
        except Exception as e:
            raise Violation("message set %s (compression %r) cannot be encoded: %s: %s" % (
                repr(ms)[:300], comp, type(e).__name__, e))
        try:
            body = kspec.decode_request(raw)["body"]
            for (name, parts), tt in zip(layout, body["topics"]):
                for (pid, m), pp in zip(parts, tt["partitions"]):
                    got = kspec.validate_set(pp["message_set"])
                    w = [(kspec._b(k), kspec._b(v)) for k, v in m]
                    if got != w:
                        raise Violation("broker unwraps %s, given %s" % (repr(got)[:300], repr(w)[:300]))
                    codec = max([e[0] for e in codecs(pp["message_set"])] or [0])
                    if codec != (comp or 0):
                        raise Violation("codec %r on the wire, configured %r" % (codec, comp))
        except (kspec.SpecError, zlib.error) as e:
            raise Violation("broker rejects the set of %s (compression %r): %s" % (
                repr(ms)[:300], comp, e))
        return (comp, want if len(repr(want)) < 2000 else zlib.crc32(repr(want).encode()))
    ctx.cases("sets", gen_cases, one)


def codecs(raw):
    pos = 0
    while pos < len(raw):
        _, size = struct.unpack(">qi", raw[pos:pos + 12])
        yield (raw[pos + 17] & 3,)
        pos += 12 + size
