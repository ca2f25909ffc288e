"""Independent Kafka v0 wire codec (the oracle's side; imports nothing of kiel).

Types:  "i8" "i16" "i32" "i64" "str" "bytes" "mset"
        ("arr", T)        [T]
        ("st", [(name, T), ...])
"""
import struct
import zlib

INT = {"i8": ">b", "i16": ">h", "i32": ">i", "i64": ">q"}
LIMITS = {"i8": 7, "i16": 15, "i32": 31, "i64": 63}


class SpecError(Exception):
    pass


def arr(t):
    return ("arr", t)


def st(*fields):
    return ("st", list(fields))


API_KEYS = {
    "produce": 0, "fetch": 1, "offset": 2, "metadata": 3, "offset_commit": 8,
    "offset_fetch": 9, "group_coordinator": 10, "join_group": 11,
    "heartbeat": 12, "leave_group": 13, "sync_group": 14,
    "describe_groups": 15, "list_groups": 16,
}
API_NAMES = {v: k for k, v in API_KEYS.items()}

_assignment = st(
    ("version", "i16"),
    ("topics", arr(st(("name", "str"), ("partitions", arr("i32"))))),
    ("user_data", "bytes"),
)

REQUESTS = {
    "metadata": st(("topics", arr("str"))),
    "produce": st(
        ("required_acks", "i16"), ("timeout", "i32"),
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(("partition_id", "i32"), ("message_set", "mset")))),
        ))),
    ),
    "fetch": st(
        ("replica_id", "i32"), ("max_wait_time", "i32"), ("min_bytes", "i32"),
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(
                ("partition_id", "i32"), ("offset", "i64"), ("max_bytes", "i32")))),
        ))),
    ),
    "offset": st(
        ("replica_id", "i32"),
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(
                ("partition_id", "i32"), ("time", "i64"), ("max_offsets", "i32")))),
        ))),
    ),
    "offset_commit": st(
        ("group", "str"),
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(
                ("partition_id", "i32"), ("offset", "i64"), ("metadata", "str")))),
        ))),
    ),
    "offset_commit_v1": st(
        ("group", "str"), ("generation", "i32"), ("consumer_id", "i32"),
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(
                ("partition_id", "i32"), ("offset", "i64"),
                ("timestamp", "i64"), ("metadata", "str")))),
        ))),
    ),
    "offset_commit_v2": st(
        ("group", "str"), ("generation", "i32"), ("consumer_id", "i32"),
        ("retention_time", "i64"),
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(
                ("partition_id", "i32"), ("offset", "i64"), ("metadata", "str")))),
        ))),
    ),
    "offset_fetch": st(
        ("group_name", "str"),
        ("topics", arr(st(("name", "str"), ("partitions", arr("i32"))))),
    ),
    "group_coordinator": st(("group", "str")),
    "join_group": st(
        ("group_id", "str"), ("session_timeout", "i32"), ("member_id", "str"),
        ("protocol_type", "str"),
        ("group_protocols", arr(st(
            ("name", "str"), ("version", "i16"),
            ("subscription", arr("str")), ("user_data", "bytes")))),
    ),
    "heartbeat": st(("group_id", "str"), ("generation_id", "i32"), ("member_id", "str")),
    "leave_group": st(("group_id", "str"), ("member_id", "str")),
    "sync_group": st(
        ("group_id", "str"), ("generation_id", "i32"), ("member_id", "str"),
        ("assignments", arr(st(("member_id", "str"), ("assignment", _assignment)))),
    ),
    "describe_groups": st(("groups", arr("str"))),
    "list_groups": st(),
}

RESPONSES = {
    "metadata": st(
        ("brokers", arr(st(("broker_id", "i32"), ("host", "str"), ("port", "i32")))),
        ("topics", arr(st(
            ("error_code", "i16"), ("name", "str"),
            ("partitions", arr(st(
                ("error_code", "i16"), ("partition_id", "i32"), ("leader", "i32"),
                ("replicas", arr("i32")), ("isrs", arr("i32"))))),
        ))),
    ),
    "produce": st(
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(
                ("partition_id", "i32"), ("error_code", "i16"), ("offset", "i64")))),
        ))),
    ),
    "fetch": st(
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(
                ("partition_id", "i32"), ("error_code", "i16"),
                ("highwater_mark_offset", "i64"), ("message_set", "mset")))),
        ))),
    ),
    "offset": st(
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(
                ("partition_id", "i32"), ("error_code", "i16"),
                ("offsets", arr("i64"))))),
        ))),
    ),
    "offset_commit": st(
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(("partition_id", "i32"), ("error_code", "i16")))),
        ))),
    ),
    "offset_fetch": st(
        ("topics", arr(st(
            ("name", "str"),
            ("partitions", arr(st(
                ("partition_id", "i32"), ("offset", "i64"),
                ("metadata", "str"), ("error_code", "i16")))),
        ))),
    ),
    "group_coordinator": st(
        ("error_code", "i16"), ("coordinator_id", "i32"),
        ("coordinator_host", "str"), ("coordinator_port", "i32")),
    "join_group": st(
        ("error_code", "i16"), ("generation_id", "i32"), ("protocol", "str"),
        ("leader_id", "str"), ("member_id", "str"),
        ("members", arr(st(("member_id", "str"), ("metadata", "bytes")))),
    ),
    "heartbeat": st(("error_code", "i16")),
    "leave_group": st(("error_code", "i16")),
    "sync_group": st(
        ("error_code", "i16"),
        ("assignments", arr(st(("member_id", "str"), ("assignment", _assignment)))),
    ),
    "describe_groups": st(
        ("groups", arr(st(
            ("error_code", "i16"), ("group_id", "str"), ("state", "str"),
            ("protocol_type", "str"), ("protocol", "str"),
            ("members", arr(st(
                ("member_id", "str"), ("client_id", "str"), ("client_host", "str"),
                ("metadata", "bytes"), ("assignment", _assignment)))),
        ))),
    ),
    "list_groups": st(
        ("error_code", "i16"),
        ("groups", arr(st(("group_id", "str"), ("protocol_type", "str")))),
    ),
}


# --------------------------------------------------------------------------
# generic encode / decode

def _b(value):
    if value is None or isinstance(value, bytes):
        return value
    return value.encode("utf-8")


def encode(t, value):
    if isinstance(t, str):
        if t in INT:
            return struct.pack(INT[t], value)
        if t == "str":
            v = _b(value)
            return struct.pack(">h", -1) if v is None else struct.pack(">h", len(v)) + v
        if t == "bytes":
            v = _b(value)
            return struct.pack(">i", -1) if v is None else struct.pack(">i", len(v)) + v
        if t == "mset":          # value: raw bytes, or list of (offset, msg)
            raw = value if isinstance(value, bytes) else encode_set(value)
            return struct.pack(">i", len(raw)) + raw
        raise SpecError(t)
    if t[0] == "arr":
        if value is None:
            return struct.pack(">i", -1)
        return struct.pack(">i", len(value)) + b"".join(encode(t[1], v) for v in value)
    return b"".join(encode(ft, value[name]) for name, ft in t[1])


def _take(buf, pos, n):
    if n < 0 or pos + n > len(buf):
        raise SpecError("frame too short at %d (+%d of %d)" % (pos, n, len(buf)))
    return buf[pos:pos + n], pos + n


def decode(t, buf, pos=0):
    if isinstance(t, str):
        if t in INT:
            raw, pos = _take(buf, pos, struct.calcsize(INT[t]))
            return struct.unpack(INT[t], raw)[0], pos
        if t in ("str", "bytes"):
            raw, pos = _take(buf, pos, 2 if t == "str" else 4)
            n = struct.unpack(">h" if t == "str" else ">i", raw)[0]
            if n == -1:
                return None, pos
            return _take(buf, pos, n)
        if t == "mset":
            raw, pos = _take(buf, pos, 4)
            n = struct.unpack(">i", raw)[0]
            return _take(buf, pos, n)
        raise SpecError(t)
    if t[0] == "arr":
        raw, pos = _take(buf, pos, 4)
        n = struct.unpack(">i", raw)[0]
        if n < 0 or n > len(buf):
            raise SpecError("bad array length %d" % n)
        out = []
        for _ in range(n):
            v, pos = decode(t[1], buf, pos)
            out.append(v)
        return out, pos
    out = {}
    for name, ft in t[1]:
        out[name], pos = decode(ft, buf, pos)
    return out, pos


def decode_request(frame, schema=None):
    """frame: the bytes after the 4-byte size.  Returns a dict with api,
    api_key, api_version, correlation_id, client_id, body."""
    key, ver, corr = struct.unpack(">hhi", _take(frame, 0, 8)[0])
    client, pos = decode("str", frame, 8)
    if key not in API_NAMES:
        raise SpecError("unknown api key %d" % key)
    api = API_NAMES[key]
    body, pos = decode(REQUESTS[schema or api], frame, pos)
    if pos != len(frame):
        raise SpecError("%d trailing bytes in %s request" % (len(frame) - pos, api))
    return {"api": api, "api_key": key, "api_version": ver,
            "correlation_id": corr, "client_id": client, "body": body}


def encode_response(api, correlation_id, body):
    payload = struct.pack(">i", correlation_id) + encode(RESPONSES[api], body)
    return struct.pack(">i", len(payload)) + payload


# --------------------------------------------------------------------------
# message sets

def encode_message(key, value, attributes=0, magic=0, crc=None):
    body = struct.pack(">bb", magic, attributes) + encode("bytes", key) + encode("bytes", value)
    if crc is None:
        crc = zlib.crc32(body) & 0xffffffff
    return struct.pack(">I", crc) + body


def encode_entry(offset, message):
    return struct.pack(">qi", offset, len(message)) + message


def encode_set(entries):
    """entries: list of (offset, message-bytes)"""
    return b"".join(encode_entry(o, m) for o, m in entries)


def plain_set(msgs):
    """msgs: list of (offset, key, value)"""
    return encode_set([(o, encode_message(k, v)) for o, k, v in msgs])


def gzip_compress(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def gzip_decompress(data):
    out = b""
    while data:
        d = zlib.decompressobj(31)
        out += d.decompress(data) + d.flush()
        if not d.eof:
            raise SpecError("truncated gzip stream")
        data = d.unused_data
    return out


def compressed_entry(codec, msgs, key=None, inner_raw=None):
    """one wrapper entry holding msgs [(offset, key, value)]"""
    inner = plain_set(msgs) if inner_raw is None else inner_raw
    comp = gzip_compress(inner) if codec == 1 else xerial_compress(inner)
    return (msgs[-1][0], encode_message(key, comp, attributes=codec))


def validate_set(raw, depth=0):
    """What a broker checks.  Returns [(key, value)] unwrapped, in order."""
    out = []
    pos = 0
    while pos < len(raw):
        head, p = _take(raw, pos, 12)
        _, size = struct.unpack(">qi", head)
        msg, pos = _take(raw, p, size)
        if len(msg) < 14:
            raise SpecError("message of %d bytes" % len(msg))
        crc = struct.unpack(">I", msg[:4])[0]
        if zlib.crc32(msg[4:]) & 0xffffffff != crc:
            raise SpecError("bad CRC %08x" % crc)
        magic, attr = struct.unpack(">bb", msg[4:6])
        if magic != 0:
            raise SpecError("bad magic %d" % magic)
        key, q = decode("bytes", msg, 6)
        value, q = decode("bytes", msg, q)
        if q != len(msg):
            raise SpecError("message size %d but content ends at %d" % (len(msg), q))
        codec = attr & 3
        if attr & ~3:
            raise SpecError("bad attributes %d" % attr)
        if codec == 0:
            out.append((key, value))
        else:
            if codec == 3:
                raise SpecError("unknown codec 3")
            if depth:
                raise SpecError("nested compression")
            if value is None:
                raise SpecError("compressed message without value")
            inner = gzip_decompress(value) if codec == 1 else xerial_decompress(value)
            got = validate_set(inner, depth + 1)
            if not got:
                raise SpecError("empty compressed message set")
            out.extend(got)
    return out


# --------------------------------------------------------------------------
# snappy: pure-python raw format + xerial (snappy-java) framing

XERIAL = b"\x82SNAPPY\x00" + struct.pack(">ii", 1, 1)


def snappy_raw_decompress(data):
    n = shift = pos = 0
    while True:
        if pos >= len(data):
            raise SpecError("snappy: no preamble")
        b = data[pos]
        pos += 1
        n |= (b & 0x7f) << shift
        shift += 7
        if not b & 0x80:
            break
    out = bytearray()
    while pos < len(data):
        tag = data[pos]
        pos += 1
        kind = tag & 3
        if kind == 0:
            ln = tag >> 2
            if ln >= 60:
                nb = ln - 59
                if pos + nb > len(data):
                    raise SpecError("snappy: short literal")
                ln = int.from_bytes(data[pos:pos + nb], "little")
                pos += nb
            ln += 1
            if pos + ln > len(data):
                raise SpecError("snappy: short literal")
            out += data[pos:pos + ln]
            pos += ln
            continue
        if kind == 1:
            ln = ((tag >> 2) & 7) + 4
            off = ((tag >> 5) << 8) | data[pos]
            pos += 1
        elif kind == 2:
            ln = (tag >> 2) + 1
            off = int.from_bytes(data[pos:pos + 2], "little")
            pos += 2
        else:
            ln = (tag >> 2) + 1
            off = int.from_bytes(data[pos:pos + 4], "little")
            pos += 4
        if off == 0 or off > len(out):
            raise SpecError("snappy: bad offset")
        if off >= ln:
            start = len(out) - off
            out += out[start:start + ln]
        else:
            pat = bytes(out[-off:])
            out += (pat * (ln // off + 1))[:ln]
    if len(out) != n:
        raise SpecError("snappy: length mismatch")
    return bytes(out)


def _varint(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def snappy_raw_compress(data, runs=False):
    """Valid raw snappy: literals, and (runs=True) copies for byte runs."""
    out = bytearray(_varint(len(data)))

    def literal(chunk):
        n = len(chunk) - 1
        if n < 60:
            out.append(n << 2)
        elif n < 256:
            out.append(60 << 2)
            out.append(n)
        else:
            out.append(61 << 2)
            out.extend(n.to_bytes(2, "little"))
        out.extend(chunk)

    i = 0
    while i < len(data):
        if runs:
            j = i + 1
            while j < len(data) and data[j] == data[i]:
                j += 1
            if j - i >= 6:
                literal(data[i:i + 1])
                left = j - i - 1
                while left:
                    n = min(64, left)
                    out.append(((n - 1) << 2) | 2)
                    out.extend((1).to_bytes(2, "little"))
                    left -= n
                i = j
                continue
            k = i
            while k < len(data) and k - i < 65536:
                if data[k:k + 6] == data[k:k + 1] * 6:
                    break
                k += 1
            k = max(k, i + 1)
            literal(data[i:k])
            i = k
        else:
            literal(data[i:i + 65536])
            i += 65536
    return bytes(out)


def xerial_compress(data, splits=None, runs=True):
    out = bytearray(XERIAL)
    if splits is None:
        splits = [min(32768, len(data) - i) for i in range(0, len(data), 32768)]
    pos = 0
    for n in splits:
        comp = snappy_raw_compress(data[pos:pos + n], runs)
        pos += n
        out += struct.pack(">i", len(comp)) + comp
    assert pos == len(data)
    return bytes(out)


def xerial_decompress(data):
    if data[:8] != XERIAL[:8]:
        raise SpecError("not a block-framed snappy stream")
    if len(data) < 16:
        raise SpecError("short snappy header")
    ver, compat = struct.unpack(">ii", data[8:16])
    if ver < 1 or compat != 1:
        raise SpecError("bad snappy version %d/%d" % (ver, compat))
    pos = 16
    out = b""
    while pos < len(data):
        raw, pos = _take(data, pos, 4)
        n = struct.unpack(">i", raw)[0]
        block, pos = _take(data, pos, n)
        out += snappy_raw_decompress(block)
    return out


# --------------------------------------------------------------------------
# CRC forging: choose 4 trailing bytes so that crc32(prefix + x) == target

def _crc_table():
    t = []
    for n in range(256):
        c = n
        for _ in range(8):
            c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
        t.append(c)
    return t


_T = _crc_table()
_REV = {t >> 24: i for i, t in enumerate(_T)}


def forge_crc(prefix, target):
    state = (zlib.crc32(prefix) & 0xffffffff) ^ 0xffffffff
    want = (target & 0xffffffff) ^ 0xffffffff
    # walk the register backwards over 4 unknown bytes
    idx = []
    w = want
    for _ in range(4):
        i = _REV[w >> 24]
        idx.append(i)
        w = ((w ^ _T[i]) << 8) & 0xffffffff
    out = bytearray()
    for i in reversed(idx):
        out.append((state ^ i) & 0xff)
        state = (state >> 8) ^ _T[i]
    assert zlib.crc32(prefix + bytes(out)) & 0xffffffff == target
    return bytes(out)
