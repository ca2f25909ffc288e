"""P30: every error code, known or not, in every place a broker can put one."""
from .. import fakekafka, vnet, zk
from ..core import Violation
from . import consumer as con, grouped as grp
from .producer import ProduceEnv, Tracker, make, msg

from kiel import exc
from kiel.clients.single import SingleConsumer

# Kafka's table; 9 and 13 are marked differently by different releases
RETRIABLE = {2, 3, 5, 6, 7, 14, 15, 16, 19, 20}
EITHER = {9, 13}
ALL = [c for c in range(-1, 90) if c] + [777, 32767, -2, -32768]
SOME = [-1, 1, 2, 3, 5, 6, 7, 10, 12, 14, 15, 16, 17, 19, 20, 22, 27, 29, 30, 31, 32, 58, 777, -32768]
FEW = [6, 15, 12, 17, 777, -1]


def sort(code, special=()):
    if code in special:
        return "special"
    return "retriable" if code in RETRIABLE else "either" if code in EITHER else "fatal"


class Sends(object):
    """groups the responses of one api into the rounds the client sent them in"""

    def __init__(self, env, api):
        self.env, self.api = env, api
        self.mark()

    def mark(self):
        self.at = len(self.env.hist)

    def refreshes(self):
        return sum(h[0] == "metadata" for h in self.env.hist[self.at:])

    def rounds(self, topic=None):
        """[{(t, p): code}] since the last mark; a partition asked again opens a new round"""
        out = []
        for h in self.env.hist[self.at:]:
            if h[0] != self.api:
                continue
            if self.api == "coordinator":
                out.append({"*": h[2]})
                continue
            kp, code = (h[2], h[3]), h[5]
            if topic not in (None, kp[0]):
                continue                # of an operation that gave up on it
            if self.api in ("commit", "produce", "fetch", "offset", "offset_fetch") and (not out or kp in out[-1]):
                out.append({})
            out[-1][kp] = code
        return out


def run(w, env, main):
    try:
        return w.run(main)
    except exc.KielError as e:
        raise Violation("%s raised %r" % (env.doing, e))


def menu(codes):
    return fakekafka.code_menu(codes)


# ---------------------------------------------------------------------------

def produce(ch, codes, compression=None):
    env = ProduceEnv(brokers=(1, 2), topics={"a": {0: 1, 1: 1}, "b": {0: 1, 1: 2}})
    env.op_cost = None
    w = vnet.World(env, ch, max_steps=900)

    async def main():
        env.doing = "connect()"
        c = make(env, batch_size=99, compression=compression)
        await c.connect()
        await env.idle()
        t = Tracker(env)
        t.check_repeat = True
        env.menu_fn = menu({"produce": codes})
        s = Sends(env, "produce")
        waiting = []                    # what has to go out next, per partition
        for batch in (("a0x", "a1x", "b0x", "b1x", "a0y"), ("b0y",), ()):
            for m in batch:
                env.doing = "produce(%s)" % m
                await c.produce(m[0], msg(m))
            waiting = waiting + [msg(m) for m in batch]
            s.mark()
            env.doing = "flush()"
            await c.flush()
            rounds = s.rounds()
            if len(rounds) > 1:
                raise Violation("one flush() wrote a partition twice")
            sent = sorted(v for h in env.hist[s.at:] if h[0] == "produce" for v in h[4])
            if sent != sorted(waiting):
                raise Violation("flush() sent %r, what was due is %r" % (sent, sorted(waiting)))
            again, unsure, refresh = [], [], False
            for h in env.hist[s.at:]:
                if h[0] == "produce" and h[5]:
                    how = sort(h[5])
                    if how == "retriable":
                        again += h[4]
                        refresh = True
                    elif how == "either":
                        unsure += h[4]
            if refresh and not s.refreshes():
                raise Violation("retriable error, but no metadata refresh")
            if c.unsent_count == len(again) + len(unsure):
                waiting = again + unsure
            elif c.unsent_count == len(again):
                waiting = again
            else:
                raise Violation("%d messages queued for another attempt instead of %r" % (c.unsent_count, again))
        env.menu_fn = None
        await env.idle()
        return sorted(t.attempts.items())
    return run(w, env, main)


# ---------------------------------------------------------------------------

LAYOUT = {("a", 0): [(0, 1), (1, 2)], ("a", 1): [(0, 1)], ("a", 2): [(2, 2)], ("b", 0): [(0, 1)]}
WHERE = {("a", 0): 1, ("a", 1): 1, ("a", 2): 2, ("b", 0): 2}


class CodesEnv(con.ConsumeEnv):
    def do_offset(self, node, body, errs):
        self.reset -= {fakekafka.name(t["name"]) for t in body["topics"]}
        return con.ConsumeEnv.do_offset(self, node, body, errs)


def fetch(ch, codes, lookup=()):
    env = con.build(CodesEnv(brokers=(1, 2)), (LAYOUT, 0))
    env.leader.update(WHERE)
    w = vnet.World(env, ch, max_steps=900)

    async def main():
        env.doing = "connect()"
        c = SingleConsumer(["k1:9092", "k2:9092"], deserializer=con.decode, max_bytes=4000)
        await c.connect()
        await env.idle()
        env.watch = True
        env.menu_fn = menu({"fetch": codes, "offset": lookup})
        fetches, lookups = Sends(env, "fetch"), Sends(env, "offset")
        synced = {}
        for i in range(3):
            for t in ("a", "b"):
                mine = {kp for kp in env.leader if kp[0] == t}
                fetches.mark(), lookups.mark()
                env.doing = "consume(%r)" % t
                env.new_call()
                left = {kp: len(env.todo(kp)) if kp in env.pos else None for kp in mine}
                r = await c.consume(t, con.BEGIN)
                env.returned(t, r)
                asked, looked = fetches.rounds(t), lookups.rounds(t)
                seen = [set(l.values()) for l in looked]
                fatal = any(sort(x) == "fatal" for s in seen for x in s if x)
                unsure = any(x in EITHER for s in seen for x in s)
                again = 0
                for n, s in enumerate(seen):
                    bad = {sort(x) for x in s if x}
                    last = n == len(seen) - 1
                    if last and bad == {"retriable"}:
                        raise Violation("offset lookup of %r not repeated after %r" % (t, looked[n]))
                    if not last and "retriable" not in bad and "either" not in bad:
                        raise Violation("offset lookup of %r repeated after %r" % (t, looked[n]))
                    if not last and "fatal" in bad:
                        raise Violation("offset lookup of %r repeated in spite of the fatal error in %r" % (t, looked[n]))
                    again += bad == {"retriable"}
                if synced.get(t) and looked:
                    raise Violation("%r looked up again without need: %r" % (t, looked))
                if not synced.get(t) and not looked:
                    raise Violation("%r not looked up although nothing is known about its offsets" % t)
                if fatal:
                    if asked or r:
                        raise Violation("%r fetched although its offsets could not be looked up" % t)
                    synced[t] = False
                    continue
                if unsure and not asked:
                    synced[t] = False
                    continue
                if len(asked) != 1 or set(asked[0]) != mine:
                    raise Violation("consume(%r) fetched %r" % (t, asked))
                synced[t] = 1 not in asked[0].values()
                again += any(sort(x) == "retriable" for x in asked[0].values() if x)
                if fetches.refreshes() < again:
                    raise Violation("%d retriable errors, but %d metadata refreshes" % (again, fetches.refreshes()))
                for kp, code in asked[0].items():
                    if not code and env.todo(kp):
                        raise Violation("consume(%r) left %d messages of %s/%d behind" % ((t, len(env.todo(kp))) + kp))
                    if code and left[kp] is not None and not looked and len(env.todo(kp)) != left[kp]:
                        raise Violation("%s/%d gave an error, but messages" % kp)
        await con.drain(env, c, ["a", "b"], con.BEGIN, 8)
        return sorted((kp, len(v)) for kp, v in env.seen.items())
    return run(w, env, main)


# ---------------------------------------------------------------------------

def group(ch, codes, brokers=(1, 2)):
    """coordinator discovery, offset lookups, fetches and commits of a group of one"""
    rt = zk.Inline()
    grp._ids.reset()
    with zk.ensemble(rt) as srv:
        env = grp.SlowEnv(rt, srv, brokers=brokers, coordinator=1)
        env.ghosts, env.parts_now = [], None
        env.op_cost = None
        for kp, entries in sorted(LAYOUT.items()):
            env.leader[kp] = WHERE[kp]
            env.logs[kp] = fakekafka.Log(4)
            con.fill(env.logs[kp], kp[0], kp[1], entries)
            env.committed[(grp.GROUP,) + kp] = env.first[kp] = 4
        w = vnet.World(env, ch, max_steps=1200)

        async def main():
            m = grp.Member(env, 0, grp.ALLOCATORS["naive"](), False, max_bytes=4000)
            env.members.append(m)
            vnet.owner.set(0)
            rt.focus = m.conn.index
            env.menu_fn = menu(codes)
            finds = Sends(env, "coordinator")
            lookups, fetches, commits = Sends(env, "offset_fetch"), Sends(env, "fetch"), Sends(env, "commit")
            every = (finds, lookups, fetches, commits)
            state = {"known": False}

            def mark():
                for s in every:
                    s.mark()

            def discovery(lost=False):
                """what the last operation found out about the coordinator"""
                f = [r["*"] for r in finds.rounds()]
                for n, code in enumerate(f):
                    last = n == len(f) - 1
                    how = sort(code) if code else "ok"
                    if not last and how not in ("retriable", "either") and not lost:
                        raise Violation("the coordinator was asked for again after answer %r" % code)
                    if last and how == "retriable":
                        raise Violation("gave up on the coordinator after the retriable error %r" % code)
                if f:
                    state["known"] = not f[-1]
                if sum(sort(c) == "retriable" for c in f if c) > finds.refreshes():
                    raise Violation("retriable discovery errors without metadata refresh")
                return f

            mark()
            env.doing = "connect()"
            await m.c.connect()
            m.live = True
            env.poll()
            await env.idle()
            if not discovery():
                raise Violation("connect() did not ask for the coordinator")
            env.parts_now = ["%s:%d" % kp for kp in sorted(env.logs)]
            synced, dirty = {}, set()
            for i in range(2):
                for t in ("a", "b"):
                    mine = {kp for kp in env.leader if kp[0] == t}
                    mark()
                    known = state["known"]
                    env.doing = "consume(%r)" % t
                    r = await env.consume(m, t)
                    looked, asked = lookups.rounds(t), fetches.rounds(t)
                    lost = any(c in (15, 16) for l in looked for c in l.values())
                    f = discovery(lost)
                    if not known and not synced.get(t) and not f:
                        raise Violation("no coordinator known, and none was asked for")
                    if known and f and not lost:
                        raise Violation("the coordinator was asked for again without need")
                    stuck = not state["known"]
                    seen = [{sort(x) for x in l.values() if x} for l in looked]
                    fatal = any("fatal" in s for s in seen)
                    for n, s in enumerate(seen):
                        if n < len(seen) - 1 and ("fatal" in s or not s):
                            raise Violation("offset lookup repeated after %r" % looked[n])
                        if n == len(seen) - 1 and s == {"retriable"} and not stuck:
                            raise Violation("offset lookup not repeated after %r" % looked[n])
                        if set(looked[n]) != mine:
                            raise Violation("offsets of %r looked up for %r" % (sorted(looked[n]), t))
                    if synced.get(t) and looked:
                        raise Violation("%r looked up again without need" % t)
                    if not synced.get(t) and not looked and not stuck:
                        raise Violation("%r not looked up" % t)
                    if not asked and (fatal or stuck or any("either" in s for s in seen)):
                        if r:
                            raise Violation("messages %r out of nowhere" % r)
                        synced[t] = False
                        continue
                    if fatal and not synced.get(t):
                        raise Violation("%r fetched although its offsets could not be looked up" % t)
                    if len(asked) != 1 or set(asked[0]) != mine:
                        raise Violation("consume(%r) fetched %r" % (t, asked))
                    synced[t] = 1 not in asked[0].values()
                    if any(sort(x) == "retriable" for x in asked[0].values() if x) and not fetches.refreshes():
                        raise Violation("retriable fetch error without metadata refresh")
                    dirty.add(t)
                mark()
                known = state["known"]
                due = {kp for kp in m.pos if kp[0] in dirty and synced.get(kp[0])}
                env.doing = "commit_offsets()"
                await env.commit(m, b"note")
                tries = commits.rounds()
                lost = any(c in (15, 16) for l in tries for c in l.values())
                f = discovery(lost)
                if not known and not f:
                    raise Violation("no coordinator known, and none was asked for")
                if not state["known"]:
                    if tries and not lost:
                        raise Violation("commit sent to nobody's coordinator")
                    continue
                if due and not tries:
                    raise Violation("nothing was committed of %r" % sorted(due))
                for n, l in enumerate(tries):
                    how = {sort(x, (12,)) for x in l.values() if x}
                    last = n == len(tries) - 1
                    if set(l) != due:
                        raise Violation("commit of %r, what was due is %r" % (sorted(l), sorted(due)))
                    if last and how & {"retriable", "special"}:
                        raise Violation("commit not repeated after %r" % l)
                    if not last and not how & {"retriable", "special", "either"}:
                        raise Violation("commit repeated after %r" % l)
                for kp in due:
                    code = tries[-1][kp]
                    if not code and env.committed[(grp.GROUP,) + kp] != m.pos[kp]:
                        raise Violation("%s/%d is not committed" % kp)
                dirty -= {kp[0] for kp in due}
            env.menu_fn = None
            await grp.drain(env, ["a", "b"], 8)
            return len(env.hist), sorted(env.committed.items())
        return run(w, env, main)


# ---------------------------------------------------------------------------

def metadata(ch, codes, lasting):
    """error codes on topics and partitions of metadata responses, for `lasting` responses"""
    env = con.ConsumeEnv(brokers=(1, 2))
    env.leader.update(WHERE)
    for kp, entries in sorted(LAYOUT.items()):
        env.logs[kp] = fakekafka.Log(0)
        con.fill(env.logs[kp], kp[0], kp[1], entries)
    w = vnet.World(env, ch, max_steps=900)

    async def main():
        opts = [("no error", 0, None)]
        for code in codes:
            opts.append(("topic b: %d" % code, 1, ("topic", code)))
            opts.append(("partition a/1: %d" % code, 1, ("part", code)))
        which = opts[ch.choose(opts)][2]

        def over():
            env.topic_error.pop("b", None)
            env.part_error.pop(("a", 1), None)
        if which:
            kind, code = which
            if kind == "topic":
                env.topic_error["b"] = code
            else:
                env.part_error[("a", 1)] = code
            if lasting:
                env.after(lasting, over)
        env.doing = "connect()"
        c = SingleConsumer(["k1:9092", "k2:9092"], deserializer=con.decode, max_bytes=4000)
        await c.connect()
        await env.idle()
        last = env.last_metadata
        good = {}
        for t in last["topics"]:
            for p in t["partitions"]:
                if not t["error_code"] and p["leader"] >= 0 and p["error_code"] in (0, 9):
                    good.setdefault(t["name"], []).append(p["partition_id"])
        have = {t: sorted(ps) for t, ps in c.cluster.topics.items() if ps}
        shaky = which and which[0] == "part" and which[1] not in (0, 5, 9)
        for t, ps in good.items():
            if t not in have or not set(ps) <= set(have[t]):
                raise Violation("the brokers report %s with partitions %r, the client knows %r" % (t, ps, have))
        for t, ps in have.items():
            extra = set(ps) - set(good.get(t, ()))
            if extra and not (shaky and extra == {1}):
                raise Violation("the client knows partitions %r of %s, the brokers do not" % (sorted(extra), t))
        if which and which[0] == "topic" and lasting and which[1] in (5,) and "b" not in have:
            raise Violation("topic b has no leader yet, and is not waited for")
        env.watch = True
        for t in ("a", "b"):
            env.doing = "consume(%r)" % t
            env.new_call()
            env.returned(t, await c.consume(t, con.BEGIN))
        over()
        await con.drain(env, c, ["a", "b"], con.BEGIN, 8)
        return have
    return run(w, env, main)


def p30(ctx):
    ctx.rule("every error code from -1 to 89, 777, the extremes of int16 (104 codes in all) on every subset of the partitions of every response "
             "of produce, offset, fetch, group-coordinator, offset-fetch, offset-commit and on topics and partitions of metadata, at every "
             "response of a history that reaches each of them twice; pairs of codes from a list of %d." % len(SOME if ctx.thorough else FEW))
    ctx.assume("codes 9 and 13 may count as retriable or not (Kafka's own table changed)")
    ctx.assume("an out-of-range partition takes its whole topic back to the offsets looked up anew (documented); what a group member fetched "
               "of it in that call is fetched again")
    ctx.assume("an error on a partition of a metadata response other than leader-not-available and replica-not-available is not "
               "something brokers send; the partition may be used or not")
    T = ctx.thorough
    for comp in (None, 1) if not T else (None, 1, 2):
        ctx.explore("produce-%s" % comp, produce, 1, codes=ALL, compression=comp)
    ctx.explore("fetch", fetch, 1, codes=ALL)
    ctx.explore("lookup", fetch, 1, codes=(), lookup=ALL)
    for api in ("fetch", "offset_fetch", "offset_commit", "group_coordinator"):
        # (out of range sends the whole topic back to the group's offsets)
        ctx.explore("group-" + api, group, 1, codes={api: [c for c in ALL if api != "fetch" or c != 1]})
    ctx.explore("discovery-3", group, 2, codes={"group_coordinator": SOME if not T else ALL}, brokers=(1, 2, 3))
    two = SOME if T else FEW
    ctx.explore("produce-two", produce, 2, codes=two)
    ctx.explore("fetch-two", fetch, 2, codes=two, lookup=())
    ctx.explore("lookup-two", fetch, 2, codes=(), lookup=two)
    ctx.explore("both-two", fetch, 2, codes=FEW, lookup=FEW)
    for api in ("offset_fetch", "offset_commit"):
        ctx.explore("group-%s-two" % api, group, 2, codes={api: two})
    ctx.explore("group-mixed-two", group, 2, codes={a: FEW for a in ("offset_fetch", "offset_commit", "group_coordinator")})
    for lasting in (0, 1, 2, 3):
        ctx.explore("metadata-%d" % lasting, metadata, 1, codes=[c for c in ALL if lasting or c not in (5, 9)], lasting=lasting)
