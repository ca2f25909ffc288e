"""Bounded-exhaustive values of a wire schema.

A shape fixes the length of every array; the base value gives every leaf a
value of its own (so that swapped fields show); the cases are the base value
with every choice of <= depth leaves replaced by every value of the leaf's
alphabet.
"""
import itertools

ALPHA = {
    "i8": [0, -1, 127, -128],
    "i16": [0, -1, 255, 256, 32767, -32768],
    "i32": [0, -1, 65536, 2 ** 31 - 1, -2 ** 31],
    "i64": [0, -1, 2 ** 32, 2 ** 63 - 1, -2 ** 63],
    "str": [None, "", "\u00e9\u2713\U0001d11e", "n\x00l", "y" * 300],
    "bytes": [None, "", b"\x00\xff\xfe", "\u00e9", b"\x80", "z" * 70000],
}
LIMIT = {"i8": 100, "i16": 30000, "i32": 10 ** 9, "i64": 10 ** 15}


def leaves(t, value, path=()):
    """yield (path, leaf-type) of value"""
    if isinstance(t, str):
        if t == "mset":
            for i, (off, key, val) in enumerate(value):
                yield path + (i, 0), "i64"
                yield path + (i, 1), "bytes"
                yield path + (i, 2), "bytes"
            return
        yield path, t
        return
    if t[0] == "arr":
        for i, v in enumerate(value):
            for x in leaves(t[1], v, path + (i,)):
                yield x
        return
    for name, ft in t[1]:
        for x in leaves(ft, value[name], path + (name,)):
            yield x


class _Base(object):
    def __init__(self, lengths):
        self.lengths = list(lengths)
        self.n = 0

    def make(self, t, depth=0, i=0):
        if isinstance(t, str):
            self.n += 1
            if t == "mset":
                k = self.lengths[min(depth, len(self.lengths) - 1)]
                out = []
                for j in range(k):
                    self.n += 3
                    out.append((10 + self.n, "k%d" % self.n, "v%d" % self.n))
                return out
            if t in LIMIT:
                return self.n * 7919 % LIMIT[t] + 2
            return "%s%d" % (t[0], self.n)
        if t[0] == "arr":
            k = self.lengths[min(depth, len(self.lengths) - 1)]
            return [self.make(t[1], depth + 1) for _ in range(k)]
        return {name: self.make(ft, depth) for name, ft in t[1]}


def depth_of(t):
    if isinstance(t, str):
        return 1 if t == "mset" else 0
    if t[0] == "arr":
        return 1 + depth_of(t[1])
    return max([depth_of(ft) for _, ft in t[1]] or [0])


def replace(value, path, new):
    if not path:
        return new
    if isinstance(value, dict):
        out = dict(value)
        out[path[0]] = replace(value[path[0]], path[1:], new)
        return out
    out = list(value)
    out[path[0]] = replace(value[path[0]], path[1:], new)
    return tuple(out) if isinstance(value, tuple) else out


def shapes(t, maxlen):
    d = depth_of(t)
    if d == 0:
        return [()]
    return list(itertools.product(range(maxlen + 1), repeat=d))


def values(t, maxlen=2, depth=1, pair_leaves=9):
    """all cases; pairs of deviations only where there are few leaves"""
    seen = set()
    for shape in shapes(t, maxlen):
        base = _Base(shape or (0,)).make(t)
        key = repr(base)
        if key in seen:
            continue
        seen.add(key)
        yield base
        ls = list(leaves(t, base))
        for path, lt in ls:
            for a in ALPHA[lt]:
                yield replace(base, path, a)
        if depth >= 2 and len(ls) <= pair_leaves:
            for (p1, t1), (p2, t2) in itertools.combinations(ls, 2):
                for a in ALPHA[t1]:
                    for b in ALPHA[t2]:
                        if isinstance(a, (str, bytes)) and len(a) > 1000:
                            continue
                        if isinstance(b, (str, bytes)) and len(b) > 1000:
                            continue
                        yield replace(replace(base, p1, a), p2, b)
