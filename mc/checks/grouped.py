"""P20-P23: what grouped consumers return, commit and look up while partitions
move between members, brokers fail and the coordinator changes."""
import itertools
import json

from .. import fakekafka, kspec, vnet, zk
from ..core import Chooser, HarnessError, Violation
from ..fakekafka import code_menu, drop_menu, menus, refuse_menu
from .cluster import MetaEnv
from .consumer import LEADERS, decode, fill, value
from .zk import GROUP, MEMBERS, PARTS, ALLOCATORS

from kiel import exc
from kiel.clients import consumer as consumer_module, grouped

RETRIABLE = {2, 3, 5, 6, 7, 14, 15, 16, 19, 20}
TOO_LARGE = 12
PLAIN = [(0, 1), (0, 1), (0, 1)]
ONE = [(0, 1)]
GZ = [(1, 2), (0, 1)]


class _Ids(object):
    """consumers name themselves after their id(): make that repeatable"""
    n = 0

    def __call__(self, obj):
        return self.names.setdefault(id(obj), 500 + len(self.names))

    def reset(self):
        self.names = {}


_ids = _Ids()
_ids.reset()
consumer_module.id = _ids


class Call(object):
    """one consume() in progress"""

    def __init__(self, topic):
        self.topic = topic
        self.sent = None             # (allocation version, rebalances) when the fetch was sent
        self.got = {}                # kp -> [(offset, value)] delivered
        self.late = False            # something was delivered after the allocation changed
        self.before = False


class Member(object):
    def __init__(self, env, i, fn, autocommit, **kw):
        self.env, self.i = env, i
        self.calls = 0                # rebalances
        self.names = set()

        def allocate(members, partitions):
            self.calls += 1
            return fn(members, partitions)
        self.c = grouped.GroupedConsumer(
            ["k1:9092", "k2:9092"], GROUP, ["zk"], deserializer=decode, autocommit=autocommit,
            partition_allocator=allocate, **kw)
        self.conn = env.srv.conns[-1]
        self.auto = autocommit
        self.live = False
        self.alloc = {}               # topic -> ids
        self.ver = {}                 # topic -> times its allocation changed
        self.period = {}              # kp -> times it was gained
        self.pos = {}                 # kp -> next offset (None: not read since it was gained)
        self.read = {}                # kp -> rebalances when its position was read
        self.now = {}                 # topic -> Call
        self.dirty = {}               # topic -> (rebalances, positions) when it was last consumed
        self.outcome = {}             # kp -> (offset, code) of its last commit
        self.metadata = None          # what the next commits should carry
        self.blank_ok = False
        self.trouble = False


class GroupEnv(MetaEnv):
    def __init__(self, rt, srv, **kw):
        MetaEnv.__init__(self, **kw)
        self.rt, self.srv = rt, srv
        self.members = []
        self.by_conn = {}
        self.on_event = self.saw
        self.returned = {}             # kp -> offsets returned to somebody
        self.excused = set()           # (kp, offset) that went down with an operation that failed
        self.first = {}                # kp -> offset committed at the start
        self.current = None
        self.checks = set()
        self.fn = None
        self.lookups = 0

    # -- what may happen next -------------------------------------------------------
    def things(self):
        items = [(label, 1 if k else 0, lambda go=go: self.zk_item(go))
                 for k, (label, go) in enumerate(self.rt.runnable())]
        rest = MetaEnv.things(self)
        return items + [(l, max(c, 1) if items else c, f) for l, c, f in rest]

    def zk_item(self, go):
        go()
        self.poll()

    def poll(self):
        """notice what the members have been allocated meanwhile"""
        for m in self.members:
            new = {t: tuple(sorted(ids)) for t, ids in m.c.allocation.items() if ids}
            if new == m.alloc:
                continue
            old, m.alloc = m.alloc, new
            for t in set(old) | set(new):
                a, b = set(old.get(t, ())), set(new.get(t, ()))
                if a == b:
                    continue
                m.ver[t] = m.ver.get(t, 0) + 1
                for p in a - b:
                    m.pos.pop((t, p), None)
                for p in b - a:
                    m.period[(t, p)] = m.period.get((t, p), 0) + 1
                    m.pos[(t, p)] = None

    def member(self, peer):
        i = peer.sock.owner
        if i is None:
            raise HarnessError("a connection that belongs to no member")
        return self.members[i]

    # -- requests as they are sent ---------------------------------------------------
    def saw(self, what, peer, req):
        self.poll()
        m = self.member(peer)
        api = req["api"]
        if api == "offset_fetch":
            req["periods"] = {(t, p): m.period.get((t, p)) for t, p, _ in self.each(req["body"])
                              if (t, p) in m.pos}
            req["calls"] = m.calls
            if fakekafka.name(req["body"]["group_name"]) != GROUP:
                raise Violation("offsets of group %r looked up" % req["body"]["group_name"])
        elif api == "fetch":
            self.saw_fetch(m, req)
        elif api == "offset_commit":
            self.saw_commit(m, req)

    def saw_fetch(self, m, req):
        for t, p, part in self.each(req["body"]):
            kp = (t, p)
            call = m.now.get(t)
            if call is None:
                raise Violation("member %d fetches %s/%d, but nobody consumes it" % (m.i, t, p))
            if call.sent is None:
                call.sent = (m.ver.get(t), m.calls)
            if kp not in m.pos:
                raise Violation("member %d fetches %s/%d, which it is not allocated" % (m.i, t, p))
            if m.pos[kp] is None:
                raise Violation("member %d fetches %s/%d at %d without having read its position since it got it" % (
                    m.i, t, p, part["offset"]))
            if part["offset"] != m.pos[kp]:
                raise Violation("member %d fetches %s/%d at %d, its position is %d" % (
                    m.i, t, p, part["offset"], m.pos[kp]))

    def saw_commit(self, m, req):
        if fakekafka.name(req["body"]["group"]) != GROUP:
            raise Violation("offsets of group %r committed" % req["body"]["group"])
        for t, p, part in self.each(req["body"]):
            kp = (t, p)
            if kp not in m.pos:
                raise Violation("member %d commits %d for %s/%d, which it is not allocated" % (
                    m.i, part["offset"], t, p))
            if m.pos[kp] is None:
                raise Violation("member %d commits %d for %s/%d, whose position it has not read since it got it" % (
                    m.i, part["offset"], t, p))
            if part["offset"] != m.pos[kp]:
                raise Violation("member %d commits %d for %s/%d, the next message to consume is %d" % (
                    m.i, part["offset"], t, p, m.pos[kp]))
            meta = part["metadata"]
            meta = meta.encode("utf-8") if isinstance(meta, str) else meta or b""
            if m.metadata is not None and meta != m.metadata and not (m.blank_ok and not meta):
                raise Violation("commit with metadata %r instead of %r" % (meta, m.metadata))

    # -- responses --------------------------------------------------------------------
    def process(self, peer, req, errs, **kw):
        self.current = self.member(peer)
        self.lookups += req["api"] == "offset_fetch"
        return MetaEnv.process(self, peer, req, errs, **kw)

    def do_offset_commit(self, node, body, errs):
        out = MetaEnv.do_offset_commit(self, node, body, errs)
        m = self.current
        sent = {(t, p): part["offset"] for t, p, part in self.each(body)}
        for t in out["topics"]:
            for p in t["partitions"]:
                kp = (t["name"], p["partition_id"])
                m.outcome[kp] = (sent[kp], p["error_code"])
        return out

    def send(self, peer, req, body):
        """a response reaches its member whole"""
        self.poll()
        m = self.member(peer)
        if peer.sock.state == "open":
            for t in body.get("topics", ()) if req["api"] != "metadata" else ():
                for p in t["partitions"]:
                    self.delivered(m, req, (fakekafka.name(t["name"]), p["partition_id"]), p)
        MetaEnv.send(self, peer, req, body)

    def delivered(self, m, req, kp, p):
        api, code = req["api"], p["error_code"]
        if api == "offset_commit" and code == TOO_LARGE:
            m.blank_ok = True
        if code:
            return
        if api == "offset_fetch":
            if kp in m.pos and req["periods"].get(kp) == m.period[kp]:
                m.pos[kp] = p["offset"]
                m.read[kp] = req["calls"]
        elif api == "fetch":
            asked = [part["offset"] for t, q, part in self.each(req["body"]) if (t, q) == kp][0]
            call = m.now[kp[0]]
            msgs, room = [], len(p["message_set"])
            for e in self.logs[kp].entries:
                if e.last < asked:
                    continue
                room -= len(e.raw)
                if room < 0:
                    break
                msgs += [(o, v) for o, k, v in e.msgs if o >= asked]
            call.got.setdefault(kp, []).extend(msgs)
            if m.ver.get(kp[0]) != call.sent[0]:
                call.late = True
            if msgs and kp in m.pos and m.pos[kp] == asked:
                m.pos[kp] = msgs[-1][0] + 1

    # -- operations ---------------------------------------------------------------------
    async def consume(self, m, topic):
        self.poll()
        m.now[topic] = call = Call(topic)
        due = dict(m.dirty)
        m.metadata = None
        try:
            r = await m.c.consume(topic)
        except exc.NoBrokersError:
            m.trouble = True
            # ... whose commit may have come through all the same
            self.excused |= {(kp, o) for kp, msgs in call.got.items() for o, _ in msgs
                             if self.committed.get((GROUP,) + kp, -1) > o}
            return "no brokers"
        finally:
            del m.now[topic]
            self.poll()
        if r is None:
            if not m.c.closing:
                raise Violation("consume(%r) returned None" % topic)
            return None
        self.judge(m, call, r)
        if call.sent and call.sent[1] == m.calls:
            m.dirty[topic] = due[topic] = (m.calls, {
                kp: m.pos[kp] for kp in m.pos if kp[0] == topic and m.pos[kp] is not None})
        if m.auto and r:
            self.settled(m, "consume(%r) returned messages" % topic, due)
        return len(r)

    def judge(self, m, call, r):
        got = {}
        for v in r:
            if not isinstance(v, bytes) or b"/" not in v:
                raise Violation("consume() returned %r" % (v,))
            t, rest = v.split(b"/", 1)
            p, o = rest.split(b"|")[0].split(b":")
            got.setdefault((t.decode(), int(p)), []).append(int(o))
        want = {kp: [o for o, _ in msgs] for kp, msgs in call.got.items() if msgs}
        if call.sent is not None and got and call.late:
            raise Violation("member %d returned messages %r fetched under an allocation that changed before they came" % (
                m.i, got))
        if got != want:
            if got:
                raise Violation("member %d returned %r of the fetched %r" % (m.i, got, want))
            if m.calls == call.sent[1] and not m.trouble:
                raise Violation("member %d returned nothing of the fetched %r" % (m.i, want))
        for kp, offs in got.items():
            self.returned.setdefault(kp, set()).update(offs)

    async def commit(self, m, metadata=None):
        self.poll()
        due = dict(m.dirty)
        m.metadata = metadata
        m.blank_ok = False
        try:
            if metadata is None:
                await m.c.commit_offsets()
            else:
                await m.c.commit_offsets(metadata.decode())
        except exc.NoBrokersError:
            m.trouble = True
            return "no brokers"
        finally:
            self.poll()
        self.settled(m, "commit_offsets() was done", due)

    def settled(self, m, when, due):
        """due: topic -> (rebalances, positions) of what was consumed before the commit began"""
        if "commits" not in self.checks:
            return
        if m.c.coordinator_id is None and self.no_coordinator:
            return
        for t, (calls, positions) in sorted(due.items()):
            if calls != m.calls:
                continue
            for kp, pos in positions.items():
                if kp not in m.pos or self.committed.get((GROUP,) + kp, -1) >= pos:
                    continue
                o, code = m.outcome.get(kp, (None, None))
                if o is not None and o >= pos and code and code not in RETRIABLE and code != TOO_LARGE:
                    continue
                raise Violation("%s, but the offset %d of %s/%d is not committed (last attempt: %r)" % (
                    (when, pos) + kp + ((o, code),)))
        for t in due:
            if m.dirty.get(t) is due[t]:
                del m.dirty[t]

    no_coordinator = False

    # -- in the end ----------------------------------------------------------------------
    def missing(self):
        out = []
        for kp, log in sorted(self.logs.items()):
            seen = self.returned.get(kp, set())
            for o, k, v in log.messages():
                if o >= self.first.get(kp, 0) and o not in seen and (kp, o) not in self.excused:
                    out.append("%s/%d:%d" % (kp + (o,)))
        return out

    def fingerprint(self, ch):
        import zlib
        ch.state(zlib.crc32(repr((sorted(self.label(q) for q in self.queue), self.hist[-12:],
                                  [(sorted(m.pos.items()), m.calls) for m in self.members])).encode()))


def calm(env):
    env.menu_fn = env.connect_menu = None
    env.actions = []
    for due in list(env.countdown):
        due[1]()
    env.countdown = []
    env.listed = None
    env.up |= set(env.addr)
    env.part_error.clear()
    env.topic_error.clear()
    env.metadata_limit = max(env.metadata_limit, 4096)
    for k, l in env.leader.items():
        if l not in env.up:
            env.leader[k] = min(env.up)
    if env.coordinator not in env.up:
        env.coordinator = min(env.up)
    srv = env.srv
    for g in env.ghosts:
        if g in srv.nodes:
            srv.delete(g)
    if env.parts_now is not None:
        srv.set(PARTS, json.dumps(env.parts_now).encode())
    env.rt.drain()
    env.poll()


async def drain(env, topics, rounds=30):
    calm(env)
    idle = 0
    for i in range(rounds):
        n = len(env.missing())
        for m in env.members:
            if not m.live:
                continue
            tok = vnet.owner.set(m.i)
            for t in topics:
                env.doing = "consume(%r) of member %d once all is quiet" % (t, m.i)
                r = await env.consume(m, t)
                if r == "no brokers" and i > 1:
                    raise Violation("no brokers although all of them are back")
                if r and not m.auto:
                    env.doing = "commit_offsets() once all is quiet"
                    await env.commit(m)
            vnet.owner.reset(tok)
        left = env.missing()
        if not left:
            break
        idle = 0 if len(left) < n else idle + 1
        if idle > 4:
            break
    left = env.missing()
    if left:
        raise Violation("messages %s were returned to nobody, although the group's offsets are %r" % (
            left[:6], sorted(env.committed.items())))


# ---------------------------------------------------------------------------
# things that may strike at any point

def ghost_before(env):
    """another member joins, sorted before ours"""
    n = MEMBERS + "/aaa"
    env.srv.put(n, b"", env.srv.new_session())
    tell(env, n)


def ghost_after(env):
    n = MEMBERS + "/zzz"
    env.srv.put(n, b"", env.srv.new_session())
    tell(env, n)


def tell(env, node):
    env.ghosts.append(node)
    env.srv.trigger([(zk.CREATED, node), (zk.CHILD, MEMBERS)])
    env.rt.drain()
    env.poll()


def ghosts_leave(env):
    for g in env.ghosts:
        if g in env.srv.nodes:
            env.srv.delete(g)
    env.rt.drain()
    env.poll()


def visit(env):
    """somebody joins and leaves again at once"""
    ghost_before(env)
    ghosts_leave(env)


def fewer(env):
    """the group stops dealing with a partition"""
    env.srv.set(PARTS, json.dumps([p for p in env.parts_now if not p.endswith(":1")]).encode())
    env.rt.drain()
    env.poll()


def all_back(env):
    env.srv.set(PARTS, json.dumps(env.parts_now).encode())
    env.rt.drain()
    env.poll()


def session_lost(env):
    env.members[0].conn.expire()
    env.rt.drain()
    env.poll()


def session_lost_slow(env):
    env.members[0].conn.expire()


def zk_dropped(env):
    env.members[0].conn.drop()
    env.rt.drain()
    env.poll()


def moves(env):
    """the group gets another coordinator"""
    other = 3 - (env.coordinator or 1)
    if other in env.up:
        env.coordinator = other


def moves_slow(env):
    """... which at first nobody knows"""
    other = 3 - (env.coordinator or 1)
    if other in env.up:
        env.coordinator, env.coming = None, other
        env.after_lookups = 2


def dies(env):
    env.crash(env.coordinator or 1)


def dies_listed(env):
    env.listed = sorted(env.up)
    env.crash(env.coordinator or 1)
    env.after(2, lambda: setattr(env, "listed", None))


def outage(env):
    for node in sorted(env.up):
        env.crash(node)


def back(env):
    env.up |= set(env.addr)


def leaders_move(env):
    for kp in sorted(env.leader):
        if 3 - env.leader[kp] in env.up:
            env.leader[kp] = 3 - env.leader[kp]


def append(env):
    for kp, l in sorted(env.logs.items()):
        fill(l, kp[0], kp[1], [(0, 1)])


def drop_all(env):
    for p in env.live_peers():
        env.drop(p)


class SlowEnv(GroupEnv):
    coming = None
    after_lookups = 0

    def do_group_coordinator(self, node, body, errs):
        if fakekafka.name(body["group"]) != GROUP:
            raise Violation("coordinator of group %r asked for" % body["group"])
        out = GroupEnv.do_group_coordinator(self, node, body, errs)
        if self.coming is not None:
            self.after_lookups -= 1
            if self.after_lookups <= 0:
                self.coordinator, self.coming = self.coming, None
        return out


TOPICS = {("a", 0): PLAIN, ("a", 1): GZ}
TWO = {("a", 0): PLAIN, ("a", 1): ONE, ("b", 0): PLAIN}


def group(ch, logs=None, members=1, allocator="naive", auto=True, rounds=2, codes=None, drops=(), drop_apis=None,
          refuse=False, actions=(), connect_faults=False, budget=400, metadata_limit=4096, metadata=None,
          initial=1, checks=("commits",), overlap=False, late_join=False, coordinator=1, commit_every=1,
          fatal=False, commit_apart=False):
    logs = logs or TOPICS
    rt = zk.Inline()
    _ids.reset()
    with zk.ensemble(rt) as srv:
        env = SlowEnv(rt, srv, brokers=(1, 2), coordinator=coordinator)
        env.checks = set(checks)
        env.no_coordinator = fatal
        env.ghosts, env.parts_now = [], None
        env.metadata_limit = metadata_limit
        for kp, entries in sorted(logs.items()):
            env.leader[kp] = LEADERS.get(kp, 1)
            env.logs[kp] = fakekafka.Log(4)
            fill(env.logs[kp], kp[0], kp[1], entries)
            # the group has consumed `initial` messages already
            env.committed[(GROUP,) + kp] = env.first[kp] = 4 + min(initial, env.logs[kp].end - 4)
        w = vnet.World(env, ch, max_steps=1200)
        fn = ALLOCATORS[allocator]()
        topics = sorted({t for t, _ in logs})

        def faults():
            ms = []
            if codes:
                ms.append(code_menu(codes))
            if drops:
                ms.append(drop_menu(drop_apis or {"fetch", "offset_fetch", "offset_commit",
                                                  "group_coordinator"}, drops))
            env.menu_fn = menus(*ms) if ms else None
            if refuse:
                env.connect_menu = refuse_menu

        async def connect(m):
            try:
                await m.c.connect()
            except exc.NoBrokersError:
                return False
            m.live = True
            env.poll()
            return True

        async def loop(m, n, mine=topics):
            vnet.owner.set(m.i)
            for i in range(n):
                for t in mine:
                    r = await env.consume(m, t)
                    if not m.auto and commit_apart and r:
                        await env.commit(m, metadata)
                if not m.auto and not commit_apart and i % commit_every == 0:
                    await env.commit(m, metadata)

        async def main():
            for i in range(members):
                env.members.append(Member(env, i, fn, auto, max_bytes=budget))
            env.doing = "connect()"
            if connect_faults:
                faults()
            for m in env.members[:1] if late_join else env.members:
                vnet.owner.set(m.i)
                rt.focus = m.conn.index
                if not await connect(m):
                    if not connect_faults:
                        raise Violation("connect() found no brokers")
                    calm(env)
                    await env.idle()
                    # tries once more with a new consumer: this one did not join
                    return "no brokers"
            env.parts_now = ["%s:%d" % kp for kp in sorted(logs)]
            await env.idle()
            env.poll()
            if not connect_faults:
                faults()
            for a in actions:
                env.action(a.__name__, lambda a=a: (a(env), env.poll()))
            env.doing = "consume()"
            if late_join:
                async def join():
                    m = env.members[1]
                    vnet.owner.set(1)
                    rt.focus = m.conn.index
                    if await connect(m):
                        await loop(m, rounds)

                def begin():
                    env.joiner = w.spawn(join())
                env.joiner = None
                env.action("second member joins", begin)
            if members == 1 and not overlap:
                await loop(env.members[0], rounds)
            elif overlap:
                tasks = [w.spawn(loop(m, rounds, [t])) for m in env.members for t in topics]
                for t in tasks:
                    await t
            else:
                tasks = [w.spawn(loop(m, rounds)) for m in (env.members[:1] if late_join else env.members)]
                for t in tasks:
                    await t
            if late_join and env.joiner is not None:
                await env.joiner
            await env.idle()
            if any(a is append for a in actions) and [x for x in env.actions if x[0] == "append"]:
                append(env)
            await drain(env, topics)
            if srv.callback_errors:
                where, e = srv.callback_errors[0]
                raise Violation("%s: unexpected %s: %s" % (where, type(e).__name__, e))
            if w.loop_errors:
                raise Violation("unhandled: %s" % w.loop_errors[0])
            return sorted(env.committed.items()), [m.calls for m in env.members], env.hist[-5:]
        try:
            return w.run(main)
        except exc.KielError as e:
            raise Violation("%s raised %r" % (env.doing, e))


REBALANCES = (ghost_before, ghost_after, visit, fewer, session_lost, session_lost_slow, zk_dropped)


def p20(ctx):
    ctx.rule("grouped consumers (real client, allocator and kazoo over modelled brokers and ZooKeeper) consume 1-2 topics, with automatic and with "
             "explicit commits: every placement of up to the bounded number of rebalances (members joining, leaving, sessions lost, partitions "
             "added and removed), error codes on every subset of partitions, connection failures and broker events over all network events; "
             "every offset in every commit request is compared with the consumer's next unread message.")
    assumptions(ctx)
    T = ctx.thorough
    b = 3 if T else 2
    for act in REBALANCES:
        ctx.explore("auto-%s" % act.__name__, group, b, actions=(act,), codes={"offset_commit": (16, 7), "fetch": (6,)})
        ctx.explore("manual-%s" % act.__name__, group, b, actions=(act,), auto=False, logs=TWO, codes={"offset_commit": (14,)})
    ctx.explore("twice", group, b, actions=(ghost_before, ghosts_leave), logs=TWO)
    ctx.explore("partitions-back", group, b, actions=(fewer, all_back), drops=("after",), drop_apis={"offset_commit"})
    ctx.explore("half", group, b, allocator="half", actions=(ghost_before, ghosts_leave), auto=False)
    ctx.explore("members2", group, b, members=2, actions=(ghost_before,), drops=("before",), drop_apis={"fetch"})
    ctx.explore("late-join", group, b, members=2, late_join=True, codes={"offset_commit": (7,)})
    overlapping(ctx, {"acts": ((ghost_before, ghosts_leave), (visit,))}, b)
    ctx.explore("errors", group, b, codes={"offset_commit": (16, 14, 1), "offset_fetch": (14, 16), "fetch": (6, 3)}, logs=TWO)
    ctx.explore("drops", group, b, drops=("before", "after", "cut", "garbage"))
    from . import scale
    scale.many(ctx, "partitions", scale.group_grid, scale.group_many)
    scale.words(ctx, "auto", ("ok", "err", "err*") + scale.LOST, 6 if T else 5, lambda ch: group(
        ch, codes={"offset_commit": (16,), "fetch": (6,), "offset_fetch": (14,)}, drops=("before", "after"), rounds=4, logs=TWO))


def assumptions(ctx):
    ctx.assume("the group has committed an offset within the log for every partition (see the known finding for new groups)")
    ctx.assume("one consume() per topic at a time")
    ctx.assume("messages of an operation that failed for want of brokers are not judged")



def p21(ctx):
    ctx.rule("automatic commits (inside consume()) and explicit ones, of 1-2 topics with 1-3 partitions: every sequence of up to the bounded number of "
             "outcomes (each retriable code, several fatal codes, connection failures before and after the commit took effect, refused "
             "reconnects) for every subset of the partitions of every attempt, metadata limits, coordinator moves and deaths, rebalances; whenever "
             "an operation completes normally the coordinator's offsets are compared with the consumer's.")
    assumptions(ctx)
    ctx.assume("partitions no longer owned, and topics whose positions a rebalance has reset, need no commit")
    T = ctx.thorough
    b = 4 if T else 3
    retriable, fatal = (16, 7, 14), (1, 28, -1)
    three = {("a", 0): ONE, ("a", 1): PLAIN, ("a", 4): ONE}
    for name, kw in (("auto", dict()), ("manual", dict(auto=False)), ("apart", dict(auto=False, commit_apart=True)),
                     ("rarely", dict(auto=False, commit_every=2, rounds=3))):
        few = dict(dict(rounds=1), **kw)
        ctx.explore("retriable-%s" % name, group, b, codes={"offset_commit": retriable}, logs=TOPICS, **few)
        ctx.explore("mixed-%s" % name, group, b - 1, codes={"offset_commit": (16, 3) + fatal}, logs=TWO, **few)
        ctx.explore("three-%s" % name, group, b - 1, codes={"offset_commit": (5, 1)}, logs=three, **few)
        ctx.explore("drops-%s" % name, group, b - 1, drops=("before", "after", "cut", "garbage"), drop_apis={"offset_commit"},
                    codes={"offset_commit": (16,)}, refuse=True, **kw)
        for act in (moves, moves_slow, dies, dies_listed, ghost_before, visit, drop_all):
            ctx.explore("%s-%s" % (act.__name__, name), group, b - 1, actions=(act,), codes={"offset_commit": (7,)},
                        drops=("after",), drop_apis={"offset_commit"}, **kw)
    overlapping(ctx, {"codes": 1, "drops": 1}, 3)
    for limit in (0, 10):
        ctx.explore("metadata-auto-%d" % limit, group, b - 1, metadata_limit=limit, codes={"offset_commit": (16, 1)}, logs=TWO)
        ctx.explore("metadata-manual-%d" % limit, group, b - 1, metadata_limit=limit, auto=False, metadata=b"m" * 11,
                    codes={"offset_commit": (16, 12, 1)}, logs=TWO, drops=("after",), drop_apis={"offset_commit"})
    ctx.explore("metadata-fits", group, b - 1, metadata_limit=11, auto=False, metadata=b"m" * 11, codes={"offset_commit": (16, 12)})
    codes = [c for c in range(-1, 36) if c not in (0, 12)] + [99]

    def gen():
        for c in codes:
            for c2 in (0, 16, 1):
                for auto in (True, False):
                    yield c, c2, auto
    ctx.cases("all-codes", gen, commit_codes)
    from . import scale
    scale.many(ctx, "partitions", scale.group_grid, scale.group_many)
    for auto in (True, False):
        scale.words(ctx, "auto" if auto else "manual", ("ok", "err16", "err1 ", "err16*") + scale.LOST, 6 if T else 5, lambda ch, auto=auto: group(
            ch, codes={"offset_commit": (16, 1)}, drops=("before", "after"), drop_apis={"offset_commit"}, rounds=3, auto=auto))


def overlapping(ctx, which, b):
    """two topics consumed by two coroutines of one member"""
    logs = {("a", 0): PLAIN, ("b", 0): PLAIN}
    kw = dict(logs=logs, overlap=True, budget=45, rounds=3, initial=0)
    for auto in (True, False):
        n = "auto" if auto else "manual"
        if "codes" in which:
            ctx.explore("overlap-codes-" + n, group, b, auto=auto,
                        codes={"offset_commit": (16, 7) if ctx.thorough else (16,)}, **kw)
        if "drops" in which:
            ctx.explore("overlap-drops-" + n, group, b, auto=auto, drops=("before", "after"), drop_apis={"offset_commit"}, **kw)
        for acts in which.get("acts", ()):
            ctx.explore("overlap-%s-%s" % ("-".join(a.__name__ for a in acts), n), group, b, auto=auto, actions=acts, **kw)


def commit_codes(case):
    """the first commit of one partition gets this code, another's another"""
    c, c2, auto = case

    class Fixed(Chooser):
        used = False

        def choose(self, options):
            want = "err%d on a/0" % c
            if not self.used:
                for i, o in enumerate(options):
                    if o[0] == want:
                        self.used = True
                        return i
            return 0
    return group(Fixed(), codes={"offset_commit": (c,)}, auto=auto, logs=TWO, rounds=2, budget=300,
                 coordinator=2 if c2 else 1)


def p22(ctx):
    ctx.rule("one member with rebalances striking at any network event, and two real members consuming concurrently (both from the start, or the "
             "second joining at any point), over 1-2 topics, with the default allocation and one that leaves members idle; combined with error "
             "codes, connection failures, crashes and coordinator moves; every fetch must continue at the committed offset looked up after the "
             "partition was gained; in the end every message must have been returned to somebody.")
    assumptions(ctx)
    ctx.assume("a message may be returned again after a rebalance that came before its offset was committed")
    T = ctx.thorough
    b = 3 if T else 2
    for act in REBALANCES:
        ctx.explore("auto-%s" % act.__name__, group, b, actions=(act,), logs=TWO, codes={"fetch": (6,)},
                    drops=("before",), drop_apis={"fetch", "offset_fetch"})
        ctx.explore("manual-%s" % act.__name__, group, b, actions=(act, append), auto=False, commit_apart=True)
    for acts in ((ghost_before, ghosts_leave), (ghost_after, ghosts_leave), (visit, ghost_before, ghosts_leave), (fewer, all_back),
                 (session_lost, append), (ghost_after, leaders_move), (ghost_before, dies), (ghost_after, moves)):
        name = "-".join(a.__name__ for a in acts)
        ctx.explore(name, group, b + 1 if len(acts) < 3 else b, actions=acts, rounds=3)
        ctx.explore(name + "-manual", group, b, actions=acts, auto=False, logs=TWO)
    ctx.explore("half", group, b + 1, allocator="half", actions=(ghost_before, ghosts_leave, append))
    ctx.explore("members2", group, b, members=2, codes={"fetch": (6,)})
    ctx.explore("members2-append", group, b, members=2, actions=(append,), drops=("after",), drop_apis={"offset_commit", "fetch"})
    ctx.explore("members2-two", group, b, members=2, logs=TWO, actions=(session_lost,))
    ctx.explore("members2-manual", group, b, members=2, auto=False, actions=(zk_dropped, session_lost_slow))
    ctx.explore("late-join", group, b, members=2, late_join=True, logs=TWO)
    ctx.explore("late-join-manual", group, b, members=2, late_join=True, auto=False, commit_apart=True)
    ctx.explore("late-join-half", group, b, members=2, late_join=True, allocator="half")
    overlapping(ctx, {"codes": 1, "drops": 1, "acts": ((ghost_before, ghosts_leave), (visit,))}, b)
    for auto in (True, False):
        ctx.explore("no-brokers-%s" % ("auto" if auto else "manual"), group, b, auto=auto, logs=TWO, actions=(outage, back),
                    rounds=3, drops=("after",), drop_apis={"offset_commit"})
    ctx.explore("fresh-group", fresh_group, 0)
    ctx.explore("overtaken", overtaken, 0)
    from . import scale
    scale.many(ctx, "partitions", scale.group_grid, scale.group_many)
    scale.words(ctx, "members2", ("ok", "err", "err*") + scale.LOST, 6 if T else 5, lambda ch: group(
        ch, members=2, codes={"offset_commit": (16,), "fetch": (6,), "offset_fetch": (14,)}, drops=("before", "after"), rounds=3))


def fresh_group(ch):
    """a group that has never committed anything"""
    rt = zk.Inline()
    _ids.reset()
    with zk.ensemble(rt) as srv:
        env = SlowEnv(rt, srv, brokers=(1,))
        env.leader[("a", 0)] = 1
        env.logs[("a", 0)] = fakekafka.Log()
        fill(env.logs[("a", 0)], "a", 0, PLAIN)
        w = vnet.World(env, ch, max_steps=300)

        async def main():
            m = Member(env, 0, grouped.naive_allocator, True)
            env.members.append(m)
            vnet.owner.set(0)
            env.doing = "connect()"
            await m.c.connect()
            env.poll()
            env.doing = "consume()"
            return await m.c.consume("a")
        try:
            return w.run(main)
        except Violation as v:
            if env.lookups > 10 and "no progress" in v.msg:
                raise Violation("a group without committed offsets repeats its offset lookup forever and consumes nothing",
                                "offset lookup repeated forever")
            raise


def overtaken(ch):
    """retention has removed what the group's offset points at"""
    rt = zk.Inline()
    _ids.reset()
    with zk.ensemble(rt) as srv:
        env = SlowEnv(rt, srv, brokers=(1,))
        env.leader[("a", 0)] = 1
        env.logs[("a", 0)] = fakekafka.Log(4)
        fill(env.logs[("a", 0)], "a", 0, PLAIN)
        env.committed[(GROUP, "a", 0)] = 2
        w = vnet.World(env, ch, max_steps=400)

        async def main():
            m = Member(env, 0, grouped.naive_allocator, True)
            env.members.append(m)
            vnet.owner.set(0)
            env.doing = "connect()"
            await m.c.connect()
            await env.idle()
            env.poll()
            out = []
            for i in range(8):
                env.doing = "consume()"
                m.now["a"] = Call("a")
                out += await m.c.consume("a")
                env.poll()
            if not out:
                asked = sorted({h[4] for h in env.hist if h[0] == "fetch"})
                raise Violation("a group whose offset is out of range fetches at %r over and over and consumes nothing" % asked,
                                "stuck out of range")
            return len(out)
        return w.run(main)


def p23(ctx):
    ctx.rule("connect(): every assignment of up to the bounded number of failures (refused, dropped, cut, garbled, each retriable coordinator code) to "
             "the coordinator requests; afterwards the coordinator moves or dies (at once, or unknown to all for a while, or still listed) at "
             "every point of consume/commit loops, combined with error codes and connection failures; everything must be consumed and "
             "committed in the end. Fatal codes: every known one.")
    assumptions(ctx)
    T = ctx.thorough
    b = 3 if T else 2
    kinds = ("before", "after", "cut", "cut2", "garbage", "unmatched")
    for co in (1, 2):
        ctx.explore("connect-%d" % co, group, b, connect_faults=True, coordinator=co, codes={"group_coordinator": (15, 14, 16, 3)},
                    drops=tuple(k for k in kinds if k != "unmatched"), drop_apis={"group_coordinator"}, refuse=True, rounds=1)
        ctx.explore("connect-metadata-%d" % co, group, b, connect_faults=True, coordinator=co, codes={"group_coordinator": (15,)},
                    drops=("before", "after"), drop_apis={"group_coordinator", "metadata"}, rounds=1)
        for act in (moves, moves_slow, dies, dies_listed, drop_all):
            for auto in (True, False):
                ctx.explore("%s-%d-%s" % (act.__name__, co, "auto" if auto else "manual"), group, b, coordinator=co, actions=(act,), auto=auto,
                            codes={"group_coordinator": (15,), "offset_fetch": (14, 16), "offset_commit": (15,)}, drops=("before",))
    for acts in ((moves, dies), (dies, back, dies), (moves_slow, moves), (moves, ghost_before), (dies_listed, visit)):
        ctx.explore("-".join(a.__name__ for a in acts), group, b + 1, actions=acts, rounds=3)
        ctx.explore("-".join(a.__name__ for a in acts) + "-drops", group, b, actions=acts, drops=("after", "cut"))
    ctx.explore("lookups", group, b, codes={"offset_fetch": (14, 15, 16, 3, 5, 7), "group_coordinator": (15,)}, logs=TWO)
    ctx.cases("discovery", discovery_gen, discovery)
    from . import scale
    scale.words(ctx, "connect", ("ok", "err14", "err15", "err3") + scale.LOST, 6 if T else 5, lambda ch: group(
        ch, connect_faults=True, codes={"group_coordinator": (14, 15, 3)}, drops=("before", "after"), drop_apis={"group_coordinator"}))
    scale.words(ctx, "coordinator", ("ok", "err14", "err16") + scale.LOST, 6 if T else 5, lambda ch: group(
        ch, codes={"group_coordinator": (14,), "offset_commit": (16,), "offset_fetch": (16,)}, drops=("before", "after"),
        drop_apis={"group_coordinator", "offset_fetch", "offset_commit"}, rounds=3))


MODES = ["ok", "refuse", "rst", "fin", "cut", "garbage", "err15", "err14", "err16", "err5", "err30", "err-1", "err99"]
DEAD = ("refuse", "rst", "fin", "cut", "garbage")


def discovery_gen():
    for n in (1, 2, 3):
        for modes in itertools.product(MODES, repeat=n):
            for lasting in (False, True):
                yield modes, lasting


def discovery(case):
    """each broker meets coordinator requests in its own way, once or always"""
    modes, lasting = case
    n = len(modes)
    if lasting and "ok" not in modes and not any(m.startswith("err") and int(m[3:]) not in RETRIABLE for m in modes):
        return None                     # nothing could ever come of it
    rt = zk.Inline()
    _ids.reset()
    with zk.ensemble(rt) as srv:
        env = SlowEnv(rt, srv, brokers=tuple(range(1, n + 1)), coordinator=1)
        env.ghosts, env.parts_now = [], None
        env.leader[("a", 0)] = 1
        env.logs[("a", 0)] = fakekafka.Log()
        w = vnet.World(env, Chooser(), max_steps=2500)
        asked = []
        left = dict(enumerate(modes, 1))
        answers = []

        def menu(e, peer, req):
            return []

        real = env.do_request

        def do_request(peer, req):
            if req["api"] != "group_coordinator":
                return real(peer, req)
            mode = left[peer.node]
            asked.append((peer.node, mode))
            if not lasting:
                left[peer.node] = "ok"
            if mode in ("refuse", "rst"):
                if mode == "refuse":
                    env.crash(peer.node)            # ... and stays away
                    if not lasting:
                        env.after(1, lambda: env.up.add(peer.node))
                return env.fault_close(peer, req, False, "reset")
            if mode == "fin":
                return env.fault_close(peer, req, True, "fin")
            if mode == "cut":
                return env.fault_cut(peer, req, -1, "fin")
            if mode == "garbage":
                return env.fault_garbage(peer, req)
            code = 0 if mode == "ok" else int(mode[3:])
            answers.append(code)
            return env.answer(peer, req, {"*": code})
        env.do_request = do_request

        async def main():
            m = Member(env, 0, grouped.naive_allocator, True)
            env.members.append(m)
            vnet.owner.set(0)
            env.doing = "connect()"
            try:
                await m.c.connect()
            except exc.NoBrokersError:
                if any(x == "ok" or x.startswith("err") for x in left.values()) and env.up and n > 1 and not any(
                        x in DEAD for x in modes):
                    raise Violation("connect() found no brokers although %r answered" % (left,))
                return "no brokers"
            final = answers[-1] if answers else None
            if final is None or final in RETRIABLE:
                raise Violation("connect() was done although the last answer about the coordinator was %r (asked %r)" % (
                    final, asked))
            if final == 0 and [a for a in answers[:-1] if a not in RETRIABLE]:
                raise Violation("connect() asked on after a fatal answer: %r" % (asked,))
            if final and m.c.coordinator_id is not None:
                raise Violation("a coordinator is known after the fatal answer %d" % final)
            if not final and m.c.coordinator_id != env.coordinator:
                raise Violation("coordinator is broker %r, not %r" % (m.c.coordinator_id, env.coordinator))
            return asked, final
        try:
            return w.run(main)
        except exc.KielError as e:
            raise Violation("%s raised %r" % (env.doing, e))
