"""What the other scenarios do in small, in large: many messages, partitions,
topics, brokers; late offsets.  Every combination of a grid, one run of the real
code each."""
import itertools

from .. import fakekafka, vnet, zk
from ..core import Chooser, Violation
from . import cluster as cl
from . import grouped as g
from .consumer import BEGIN, ConsumeEnv, build, decode, tight
from .producer import ProduceEnv
from .zk import ALLOCATORS, GROUP

from kiel.clients.producer import Producer
from kiel.clients.single import SingleConsumer

NAMES = "abcdefghijklmnopqrst"
LATE = (0, 2 ** 31 - 3, 2 ** 32 - 3, 2 ** 62)


# -- producing -------------------------------------------------------------------
def produce_grid(thorough):
    for n, batch, comp, parts, brokers in itertools.product(
            (17, 130, 300, 1100, 2500), (1, 16, 100, 257, 1024), (None, 1, 2), (1, 3, 40, 110), (1, 3, 12, 33)):
        if batch > n or n // batch > 140 or brokers > parts * 4 or not thorough and n > 2000 and parts != 3:
            continue
        yield n, batch, comp, parts, brokers


def produce_many(case):
    n, batch, comp, parts, brokers = case
    nodes = tuple(range(1, brokers + 1))
    topics = {"a": {p * 3: nodes[p % brokers] for p in range(parts)}, "b" * 200: {0: nodes[-1]}}
    env = ProduceEnv(brokers=nodes, topics=topics)
    env.op_cost = None
    w = vnet.World(env, Chooser(), max_steps=100000)
    offered = []

    def partitioner(key, ps):
        offered.append(sorted(ps))
        return sorted(ps)[int(key) % len(ps)]

    async def main():
        c = Producer(["k1"], serializer=lambda m: m[1], key_maker=lambda m: m[0], batch_size=batch, compression=comp,
                     partitioner=partitioner)
        await c.connect()
        want = {}
        for i in range(n):
            t = "a" if i % 5 else "b" * 200
            key = b"%d" % (i * 7 % 43)
            v = b"%d:" % i + b"." * (i * i % 600) if i % 50 else bytes(range(256)) * 150
            ps = sorted(topics[t])
            want.setdefault((t, ps[int(key) % len(ps)]), []).append((key, v))
            env.doing = "produce() number %d" % (i + 1)
            await c.produce(t, (key, v))
            held = sum(len(l.messages()) for l in env.logs.values())
            if held != (i + 1) // batch * batch:
                raise Violation("%d messages produced with batch size %d: the brokers hold %d" % (i + 1, batch, held))
            if c.unsent_count != i + 1 - held:
                raise Violation("%d messages queued, the queue length is %r" % (i + 1 - held, c.unsent_count))
        env.doing = "flush()"
        await c.flush()
        await env.idle()
        got = {kp: [(k, v) for _, k, v in l.messages()] for kp, l in env.logs.items() if l.entries}
        for kp in sorted(set(want) | set(got)):
            if want.get(kp) != got.get(kp):
                a, b = want.get(kp, []), got.get(kp, [])
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                raise Violation("%s/%d: %d messages written instead of %d, message %d differs" % (kp[0][:9], kp[1], len(b), len(a), i))
        if any(o not in (sorted(topics["a"]), [0]) for o in offered):
            raise Violation("the partitioner was offered %r" % [o for o in offered if o not in (sorted(topics["a"]), [0])][:1])
        return len(got)
    return w.run(main)


# -- consuming -------------------------------------------------------------------
def consume_grid(thorough):
    for first, parts, entries, slack in itertools.product(
            LATE, (1, 7, 40, 120), ([(0, 1)] * 60, [(1, 50), (2, 50)], [(1, 130), (0, 1), (2, 3)] * (3 if thorough else 1)), (0, 100, 10 ** 6)):
        yield first, parts, tuple(entries), slack


def consume_many(case):
    first, parts, entries, slack = case
    env = build(ConsumeEnv(brokers=(1, 2, 3)), ({("a", p * 5): list(entries) for p in range(parts)}, 0), first)
    for i, kp in enumerate(sorted(env.leader)):
        env.leader[kp] = 1 + i % 3
    w = vnet.World(env, Chooser(), max_steps=100000)

    async def main():
        m = tight(env) + slack * parts
        c = SingleConsumer(["k1"], deserializer=decode, max_bytes=m)
        await c.connect()
        env.watch = True
        for i in range(80 if not slack else 60):
            env.new_call()
            env.doing = "consume() number %d" % (i + 1)
            before = sum(len(v) for v in env.seen.values())
            env.fetches = []
            env.returned("a", await c.consume("a", BEGIN))
            check_asked(env, sorted(env.leader), m)
            if not any(env.todo(kp) for kp in env.leader if kp in env.pos):
                break
            if sum(len(v) for v in env.seen.values()) == before:
                raise Violation("consume() returned nothing although there are messages left")
        left = {kp: len(env.todo(kp)) for kp in env.leader if env.todo(kp)}
        if left:
            raise Violation("messages %r never returned" % left)
        return i
    return w.run(main)


def check_asked(env, kps, most):
    asked = []
    for node, body in env.fetches:
        total = 0
        for t, p, part in env.each(body):
            asked.append((t, p))
            total += part["max_bytes"]
            if env.leader[(t, p)] != node:
                raise Violation("%s/%d fetched from broker %d" % (t, p, node))
        if not most - 64 <= total <= most:
            raise Violation("a fetch asks for %d bytes, max_bytes is %d" % (total, most))
    if sorted(asked) != kps:
        raise Violation("fetched %r of the partitions %r" % (sorted(asked), kps))


# -- group members ---------------------------------------------------------------
def group_grid(thorough):
    for first, parts, topics, auto in itertools.product(LATE, (1, 9, 33, 120), (1, 4, 20), (True, False)):
        if parts * topics > (700 if thorough else 200):
            continue
        yield first, parts, topics, auto


def group_many(case):
    first, parts, topics, auto = case
    rt = zk.Inline()
    g._ids.reset()
    with zk.ensemble(rt) as srv:
        env = g.GroupEnv(rt, srv, brokers=(1, 2, 3), coordinator=3)
        env.checks.add("commits")
        env.ghosts, env.parts_now = [], None
        for t in NAMES[:topics]:
            for p in range(parts):
                kp = (t, p)
                env.leader[kp] = 1 + p % 3
                env.logs[kp] = fakekafka.Log(first)
                g.fill(env.logs[kp], t, p, [(0, 1), (1, 4), (0, 1)])
                env.committed[(GROUP,) + kp] = env.first[kp] = first + p % 3
        w = vnet.World(env, Chooser(), max_steps=100000)

        async def main():
            env.members.append(g.Member(env, 0, ALLOCATORS["naive"](), auto, max_bytes=200 * parts))
            m = env.members[0]
            vnet.owner.set(0)
            rt.focus = m.conn.index
            env.doing = "connect()"
            await m.c.connect()
            m.live = True
            env.poll()
            env.parts_now = ["%s:%d" % kp for kp in sorted(env.logs)]
            await env.idle()
            for i in range(5):
                for t in NAMES[:topics]:
                    env.doing = "consume(%r)" % t
                    await env.consume(m, t)
                if not auto:
                    env.doing = "commit_offsets()"
                    await env.commit(m)
            if env.missing():
                raise Violation("messages never returned: %r" % env.missing()[:5])
            bad = [(kp, env.committed[(GROUP,) + kp], l.end) for kp, l in env.logs.items() if env.committed[(GROUP,) + kp] != l.end]
            if bad:
                raise Violation("%s/%d: committed %d instead of %d" % (bad[0][0] + bad[0][1:]))
            return len(env.hist)
        return w.run(main)


# -- the cluster -----------------------------------------------------------------
def cluster_grid(thorough):
    names = sorted(c.__name__ for c in cl.CHANGES)
    for brokers, topics, parts in itertools.product((3, 12, 30, 101), (3, 40, 150), (1, 25, 60)):
        for change in names:
            yield brokers, topics, parts, change


def cluster_many(case):
    brokers, topics, parts, change = case
    change = getattr(cl, change)
    nodes = tuple(i for i in range(1, brokers + 2) if i != 9)        # (9 is made up by one of the changes)
    layout = {"t%d" % i: {p: nodes[(i + p) % brokers] for p in range(parts)} for i in range(topics)}
    layout.update({"a": {0: 1, 1: 2}, "b": {0: 2}, "c": {0: 3, 2: 1}})
    env = cl.MetaEnv(brokers=nodes, topics=layout)
    w = vnet.World(env, Chooser(), max_steps=100000)

    async def main():
        c = cl.Cluster(["k1", "k2", "k3", "moved1:9095", "moved1:9096"])
        env.doing = "start()"
        await c.start()
        cl.check_view(env, c, "after start()")
        cl.check_conns(env, c, "after start()")
        change(env)
        cl.fix_leaders(env)
        await env.idle()
        env.doing = "heal() after " + change.__name__
        await c.heal()
        await env.idle()
        cl.check_view(env, c, env.doing)
        cl.check_conns(env, c, env.doing)
        c.stop()
        await env.idle()
        if [s for s in w.all_socks if s.state != "closed"]:
            raise Violation("connections left open after stop()")
        return len(c.topics)
    return w.run(main)


# -- long runs of faults ----------------------------------------------------------
class Word(Chooser):
    """the outcomes of the first requests that could fail, one letter each;
    everything else as usual"""

    def __init__(self, word):
        Chooser.__init__(self)
        self.word = list(word)

    def choose(self, options):
        k = 0
        if self.word and len(options) > 1 and options[0][0] == "ok":
            letter = self.word.pop(0)
            start, last = letter.rstrip("*"), letter.endswith("*")
            fits = [i for i, o in enumerate(options) if i and o[0].startswith(start)]
            if fits:
                k = fits[-1] if last else fits[0]
        self.prefix = self.choices + [k]
        return Chooser.choose(self, options)


def words(ctx, name, letters, length, fn):
    """fn(chooser) for every word of this length"""
    ctx.rule("words: every sequence of outcomes (%s) of the first %d requests." % (", ".join(letters), length))
    ctx.cases("words-" + name, lambda: itertools.product(letters, repeat=length), lambda word: fn(Word(word)))


LOST = ("rst before", "fin after")


def many(ctx, name, gen, fn):
    ctx.rule("many: every point of a grid of numbers of messages, partitions, topics, brokers and first offsets (up to beyond 2**62).")
    ctx.cases("many-" + name, lambda: gen(ctx.thorough), fn)
