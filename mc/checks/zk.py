"""P24-P29: default allocation, convergence, shared set, party, threads, start/stop."""
import itertools
import json
import os
import subprocess
import sys

from .. import threads, zk
from ..core import Violation

zk.install()

from kazoo import client as kclient, exceptions as kexc          # noqa: E402
from kiel.clients import grouped                                  # noqa: E402
from kiel.zookeeper import Party, SharedSet                       # noqa: E402
from kiel.zookeeper.allocator import PartitionAllocator           # noqa: E402

GROUP = "g"
BASE = "/kiel/groups/" + GROUP
MEMBERS, PARTS, LOCK = BASE + "/members", BASE + "/partitions", BASE + "/partitions/lock"


def flat(allocation):
    """{topic: ids} as a sorted list of "topic:id" (an allocation in comparable form)"""
    return sorted("%s:%d" % (t, p) for t, ids in allocation.items() for p in ids)


def stored(srv):
    n = srv.nodes.get(PARTS)
    if n is None:
        return None
    return parse(n.data)


def parse(data):
    if not data:
        return set()
    try:
        v = json.loads(data.decode("utf-8"))
    except Exception:
        raise Violation("partition set stored as %r" % (data,))
    if not isinstance(v, list) or not all(isinstance(x, str) for x in v):
        raise Violation("partition set stored as %r" % (data,))
    if len(set(v)) != len(v):
        raise Violation("partition set stored with duplicates: %r" % (v,))
    return set(v)


def quiet(srv, sched=None):
    if srv.callback_errors:
        where, e = srv.callback_errors[0]
        raise Violation("%s: unexpected %s: %s" % (where, type(e).__name__, e))
    if sched is not None and sched.errors:
        where, e = sched.errors[0]
        if isinstance(e, Violation):
            raise e
        raise Violation("thread %s: unexpected %s: %s" % (where, type(e).__name__, e))


# -- P24 ------------------------------------------------------------------------------
def default_allocator(srv_ctx, name):
    """the allocator of a grouped consumer built without a custom function"""
    c = grouped.GroupedConsumer(["kafka"], GROUP, ["zk"])
    a = c.allocator
    a.consumer_name = name
    return a


NAMES = ["h1:140", "h1:9", "h2:140", "a", "Z"]


def p24_sets(tier):
    shapes = []
    top = 6 if tier else 5
    for n1 in range(0, top):
        for n2 in range(0, 4):
            shapes.append({"t": range(n1), "t-2.x_y": range(0, 2 * n2, 2)})
    shapes.append({"t": range(12)})
    shapes.append({"t": [2, 10, 1, 100], "u": [7]})
    shapes.append({"10": range(3), "9": range(3)})
    for shape in shapes:
        parts = ["%s:%d" % (t, p) for t, ids in sorted(shape.items()) for p in ids]
        for n in range(0, (6 if tier else 5)):
            yield NAMES[:n], parts


def p24_table(thorough):
    """the allocation each member computes, for every listed set of members and partitions"""
    res = []
    for members, parts in p24_sets(thorough):
        with zk.ensemble(zk.Inline()):
            got = []
            for me in members:
                a = default_allocator(None, me)
                a.on_group_members_change(list(members))
                a.on_partition_change(set(parts))
                got.append((me, flat(a.allocation)))
        res.append((members, parts, got))
    return res


def p24(ctx):
    ctx.rule("every member count up to the bound x every topic/partition shape x every order of arrival: "
             "members one by one in every permutation, partitions before, between and after them; the allocation of "
             "each member is read from a real PartitionAllocator of a GroupedConsumer built with the defaults; every "
             "set again in processes with other string hashes (other orders of sets).")

    def gen():
        for members, parts in p24_sets(ctx.thorough):
            perms = list(itertools.permutations(members))
            for perm in perms:
                for at in range(len(perm) + 1):
                    for order in (0, 1, 2):
                        yield members, parts, perm, at, order

    def run(case):
        members, parts, perm, at, order = case
        arrivals = [list(parts), list(parts)[::-1], sorted(parts, key=lambda x: x[::-1])][order]
        with zk.ensemble(zk.Inline()):
            got = {}
            for me in members:
                a = default_allocator(None, me)
                for i in range(len(perm) + 1):
                    if i == at:
                        half = arrivals[:len(arrivals) // 2]
                        a.on_partition_change(set(half))
                        a.on_partition_change(set(arrivals))
                    if i < len(perm):
                        known = list(perm[:i + 1])
                        a.on_group_members_change(known if order else known[::-1])
                got[me] = a.allocation
            want = set(parts)
            seen = []
            counts = []
            for me in members:
                for t, ids in got[me].items():
                    if not isinstance(t, str) or any(not isinstance(p, int) for p in ids):
                        raise Violation("allocation %r of %s" % (got[me], me))
                mine = flat(got[me])
                seen += mine
                counts.append(len(mine))
            if members:
                if sorted(seen) != sorted(want):
                    dup = sorted(x for x in set(seen) if seen.count(x) > 1)
                    raise Violation("members %r and partitions %r: %s" % (
                        members, parts, "partitions %r given to several members" % dup if dup else
                        "missing %r, invented %r" % (sorted(want - set(seen)), sorted(set(seen) - want))))
                if max(counts) - min(counts) > 1:
                    raise Violation("members %r and %d partitions: uneven counts %r" % (
                        members, len(parts), counts))
            key = (tuple(members), tuple(parts))
            res = tuple((m, tuple(flat(got[m]))) for m in members)
            base = memo.setdefault(key, res)
            if base != res:
                raise Violation("members %r and partitions %r: order of arrival changes the allocation: %r or %r" % (
                    members, parts, base, res))
            return res
    memo = {}
    # what each order must agree with: the first order of the same sets
    for members, parts, res in p24_table(ctx.thorough):
        memo[(tuple(members), tuple(parts))] = tuple((m, tuple(p)) for m, p in res)
    ctx.cases("arrival", gen, run)

    def seeds():
        return iter(range(1, 65 if ctx.thorough else 25))

    def process(seed):
        """another process: sets and dicts of strings come in another order"""
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        repo = os.environ.get("VERIF_REPO", "/repo")
        r = subprocess.run([sys.executable, os.path.join(here, "mc", "hashmain.py"), here, repo,
                            "thorough" if ctx.thorough else "quick"],
                           env=dict(os.environ, PYTHONHASHSEED=str(seed)),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if r.returncode:
            raise Violation("in a process with hash seed %d: %s" % (seed, r.stderr.decode()[-300:]))
        for members, parts, res in json.loads(r.stdout.decode()):
            got = tuple((m, tuple(p)) for m, p in res)
            if got != memo[(tuple(members), tuple(parts))]:
                raise Violation("members %r and partitions %r: members in different processes compute different "
                                "allocations: %r or %r (hash seeds 0 and %d)" % (
                                    members, parts, memo[(tuple(members), tuple(parts))], got, seed))
        return seed
    ctx.cases("processes", seeds, process)


# -- P25 ------------------------------------------------------------------------------
def half_allocator(members, partitions):
    """gives everything to the first member, and does not mention the others"""
    mapping = {}
    for p in partitions:
        if members:
            t, i = p.split(":")
            mapping.setdefault(members[0], {}).setdefault(t, []).append(int(i))
    return mapping


ALLOCATORS = {"naive": lambda: grouped.naive_allocator, "half": lambda: half_allocator}


class Member(object):
    def __init__(self, srv, name, fn):
        self.srv = srv
        self.name = name
        self.calls = 0
        self.seen_mapping = None
        self.a = PartitionAllocator(["zk1", "zk2"], GROUP, name, allocator_fn=fn,
                                    on_rebalance=self.rebalanced)
        self.conn = self.a.conn._connection
        self.live = False

    def rebalanced(self):
        self.calls += 1
        self.seen_mapping = flat(self.a.allocation)


def converged(srv, members, fn, parts=None):
    """every live member holds what the allocation function gives for all of them"""
    live = sorted(m.name for m in members if m.live)
    data = stored(srv) or set()
    if parts is not None and data != parts:
        raise Violation("the stored partition set is %r, not %r" % (sorted(data), sorted(parts)))
    nodes = srv.children(MEMBERS) if MEMBERS in srv.nodes else []
    if nodes != live:
        raise Violation("listed members %r, live members %r" % (nodes, live))
    want = fn(live, sorted(data))
    union = []
    for m in members:
        if not m.live:
            continue
        mine = flat(m.a.allocation)
        expected = flat(want.get(m.name, {}))
        if mine != expected:
            raise Violation("member %s of %r holds %r instead of %r (it knows members %r, partitions %r)" % (
                m.name, live, mine, expected, sorted(m.a.members), sorted(m.a.partitions)))
        if m.seen_mapping is not None and m.seen_mapping != mine:
            raise Violation("member %s was told of a rebalance only before its allocation became %r (it was %r)" % (
                m.name, mine, m.seen_mapping))
        if m.seen_mapping is None and mine:
            raise Violation("member %s got %r without its rebalance callback being called" % (m.name, mine))
        union += mine
    if live and sorted(union) != sorted(data):
        raise Violation("allocations %r do not cover the partitions %r exactly once" % (
            sorted(union), sorted(data)))
    return tuple((m.name, tuple(flat(m.a.allocation)), tuple(sorted(m.a.members))) for m in members)


SEED = {"t": [0, 1, 2]}


def histories(ch, allocator, length, n, seeds=None):
    """all operation histories of this length x bounded reorderings of deliveries"""
    rt = zk.Inline()
    fn = ALLOCATORS[allocator]()
    with zk.ensemble(rt) as srv:
        members = []
        for i in range(n):
            members.append(Member(srv, "m%d" % i, fn))
        parts = set()
        state = ["new"] * n

        def start(i):
            def go():
                seed = dict(SEED) if i == 0 else {"t": [0, 1, 2], "u": [0]} if i == 1 else {"t": [3]}
                rt.focus = i
                f = members[i].a.start(seed)
                if f.exception():
                    raise Violation("start() of m%d failed: %r" % (i, f.exception()))
                state[i] = "live"
                members[i].live = True
                parts.update("%s:%d" % (t, p) for t, ids in seed.items() for p in ids)
            return go

        def stop(i):
            def go():
                rt.focus = i
                conn = members[i].conn
                healthy, session = conn.up and not conn.broken, conn.session
                f = members[i].a.stop()
                if f.exception() and healthy:
                    raise Violation("stop() of m%d failed: %r" % (i, f.exception()))
                if not conn.ended:
                    raise Violation("stop() of m%d left its connection open" % i)
                if healthy and srv.sessions.get(session):
                    raise Violation("stop() of m%d left its session open" % i)
                srv.end_session(session)      # times out
                state[i] = "gone"
                members[i].live = False
            return go

        def crash(i):
            def go():
                # the process is gone: nothing of it runs any more
                c = members[i].conn
                if c in rt.conns:
                    rt.conns.remove(c)
                rt.handlers = [h for h in rt.handlers if h.index != c.index]
                rt.order = [t for t in rt.order if not t.name.startswith("c%d." % c.index)]
                c.up = False
                srv.end_session(c.session)
                state[i] = "gone"
                members[i].live = False
            return go

        def expire(i):
            def go():
                members[i].conn.expire()
            return go

        def drop(i):
            def go():
                members[i].conn.drop()
            return go

        def add(i, what):
            def go():
                rt.focus = i
                members[i].a.add_partitions(what)
                parts.update("%s:%d" % (t, p) for t, ids in what.items() for p in ids)
            return go

        def remove(i, what):
            def go():
                rt.focus = i
                members[i].a.remove_partitions(what)
                parts.difference_update("%s:%d" % (t, p) for t, ids in what.items() for p in ids)
            return go

        ops = 0
        while True:
            items = rt.runnable()
            menu = []
            if ops < length:
                fresh = [i for i in range(n) if state[i] == "new"]
                if fresh:
                    menu.append(("start m%d" % fresh[0], start(fresh[0])))
                for i in range(n):
                    if state[i] != "live":
                        continue
                    menu += [("stop m%d" % i, stop(i)), ("crash m%d" % i, crash(i)),
                             ("expire m%d" % i, expire(i)), ("drop m%d" % i, drop(i))]
                live = [i for i in range(n) if state[i] == "live"]
                if live:
                    i = live[-1]
                    menu.append(("m%d adds v" % i, add(i, {"v": [0, 1]})))
                    menu.append(("m%d removes t" % i, remove(i, {"t": [0, 2], "w": [1]})))
            if not items and not menu:
                break
            # deliveries first (in order); an operation before them, or another
            # order of delivery, is a deviation; with nothing to deliver every
            # next operation is explored
            opts = [(label, 0 if k == 0 else 1, go) for k, (label, go) in enumerate(items)]
            opts += [(label, 1 if items else 0, go) for label, go in menu]
            k = ch.choose(opts) if len(opts) > 1 else 0
            opts[k][2]()
            if k >= len(items):
                ops += 1
        quiet(srv)
        for i in range(n):
            if state[i] == "new":
                members[i].live = False
        return converged(srv, members, fn, parts)


def together(ch, n, ops, allocator="naive", switch_cost=1, background=True):
    """members start, stop and lose sessions at the same time, in real threads"""
    s = threads.Sched(ch, switch_cost=switch_cost)
    fn = ALLOCATORS[allocator]()
    with zk.ensemble(zk.Threads(s)) as srv:
        def main():
            members = [Member(srv, "m%d" % i, fn) for i in range(n)]
            parts = set()

            def member(i):
                m = members[i]

                def go():
                    for op in ops[i]:
                        if op[0] == "start":
                            seed = op[1]
                            f = m.a.start(dict(seed))
                            if f.exception():
                                raise Violation("start() of m%d failed: %r" % (i, f.exception()))
                            m.live = True
                        elif op[0] == "stop":
                            f = m.a.stop()
                            if f.exception():
                                raise Violation("stop() of m%d failed: %r" % (i, f.exception()))
                            m.live = False
                        elif op[0] == "add":
                            m.a.add_partitions(op[1])
                        elif op[0] == "expire":
                            m.conn.expire()
                return go
            for prog in ops:
                for op in prog:
                    if op[0] in ("start", "add"):
                        parts.update("%s:%d" % (t, p) for t, ids in op[1].items() for p in ids)
            ts = [s.spawn(member(i), "m%d" % i) for i in range(n)]
            for t in ts:
                t.join()
            s.quiesce()
            quiet(srv, s)
            return converged(srv, members, fn, parts)
        return s.run(main)


def p25(ctx):
    ctx.rule("histories: every sequence of start/stop/crash/session loss/connection loss/add/remove operations of this "
             "length over the members, with deliveries in order, plus every reordering of deliveries among members and "
             "every operation overtaking deliveries up to the bound; together: the members' start(), stop() and session "
             "losses run in concurrent threads, every interleaving of ZooKeeper operations and watch callbacks with up "
             "to the bounded number of preemptions.")
    ctx.assume("the ensemble is a model (mc/zk.py) under the real kazoo client: linearizable operations, one-shot watches, ephemeral nodes end with their session")
    T = ctx.thorough
    ctx.explore("histories2", histories, 3 if T else 2, allocator="naive", length=4, n=2)
    ctx.explore("histories3", histories, 1 if T else 0, allocator="naive", length=5 if T else 4, n=3)
    ctx.explore("histories-half", histories, 1, allocator="half", length=4 if T else 3, n=2)
    st = [("start", {"t": [0, 1]})]
    ctx.explore("start2", together, 3 if T else 2, n=2, ops=[st, [("start", {"t": [0, 1], "u": [0]})]])
    ctx.explore("start3", together, 1, n=3, ops=[st, [("start", {"u": [0]})], st])
    ctx.explore("start-stop", together, 3 if T else 2, n=2,
                ops=[st + [("stop",)], st])
    ctx.explore("start-expire", together, 3 if T else 2, n=2,
                ops=[st, st + [("expire",)]])
    ctx.explore("start-add", together, 3 if T else 2, n=2,
                ops=[st + [("add", {"v": [0]})], st])


# -- faults -----------------------------------------------------------------------------
def fault_menu(ch, srv, kinds, only=None, limit=2, users=None):
    """every request may fail in one of these ways (one deviation each); errors
    of the server itself only strike requests of the threads named"""
    left = [limit]

    def direct(request):
        return srv.submitter in users and not (
            isinstance(request, zk.ser.Delete) and "__lock__" in request.path)

    def fault(conn, request):
        if not left[0] or only is not None and not only(conn, request):
            return None
        opts = ["ok"] + [k for k in kinds if k != "noauth" or direct(request)]
        k = ch.pick(["%s:%s" % (zk.opname(request), o) for o in opts])
        if not k:
            return None
        left[0] -= 1
        kind = opts[k]
        if kind == "noauth" and isinstance(request, zk.ser.Transaction):
            # a failed transaction is answered with a list: any of its parts may be the one refused
            n = len(request.operations)
            i = ch.pick(["refused part %d" % i for i in range(n)], [0] * n)
            return zk.Answer([kexc.RolledBackError()] * i + [kexc.NoAuthError()] + [kexc.RuntimeInconsistency()] * (n - i - 1))
        if kind == "noauth":
            return kexc.NoAuthError()
        if kind == "closed":
            return kexc.ConnectionClosedError()
        return kind
    srv.fault = fault


def new_client(srv):
    c = kclient.KazooClient(hosts="zk:2181")
    c.start_async()
    return c


# -- P26 ------------------------------------------------------------------------------
def apply_update(content, update):
    kind, items = update
    return content | set(items) if kind == "add" else content - set(items)


def linearizations(initial, programs, maybe):
    """every content reachable by running the programs' updates one at a time;
    updates in `maybe` (which failed) may or may not have happened"""
    out = set()

    def go(content, at):
        if all(i == len(p) for i, p in zip(at, programs)):
            out.add(frozenset(content))
            return
        for k, p in enumerate(programs):
            if at[k] < len(p):
                nxt = at[:k] + (at[k] + 1,) + at[k + 1:]
                go(apply_update(content, p[at[k]]), nxt)
                if (k, at[k]) in maybe:
                    go(content, nxt)
    go(frozenset(initial), tuple(0 for _ in programs))
    return out


def sharers(ch, programs, initial, faults=(), limit=1, chaos=None, switch_cost=1):
    """programs: per sharer a list of ("add"|"remove", items)"""
    s = threads.Sched(ch, switch_cost=switch_cost)
    with zk.ensemble(zk.Threads(s)) as srv:
        def main():
            if initial is not None:
                srv.put(PARTS, json.dumps(list(initial)).encode() if initial else b"")
            clients, sets, told, running = [], [], [], {}
            for i in range(len(programs)):
                c = new_client(srv)
                told.append([])
                sets.append(SharedSet(c, PARTS, on_change=told[i].append))
                clients.append(c)
            s.quiesce()
            for x in sets:
                x.start()
            s.quiesce()
            done, failed = [], {}

            def before(conn, request):
                """every write is exactly the update it belongs to, applied to what is stored"""
                if not isinstance(request, zk.ser.SetData) or request.path != PARTS:
                    return
                update = running.get(conn.index)
                if update is None:
                    raise Violation("c%d writes the set outside of an update" % conn.index)
                now = stored(srv)
                want = apply_update(now, update)
                if request.version != -1 and request.version != srv.nodes[PARTS].version:
                    return                       # refused by the server
                if parse(request.data) != want:
                    raise Violation("the set is %r and %s of %r is written as %r" % (
                        sorted(now), update[0], sorted(update[1]), sorted(parse(request.data))))
                if want == now:
                    raise Violation("%s of %r changes nothing in %r, but is written" % (
                        update[0], sorted(update[1]), sorted(now)))

            fault_menu(ch, srv, faults, limit=limit, users=("s0", "s1", "s2"),
                       only=lambda c, r: "lock" not in r.path.rsplit("/", 1)[0])
            inner = srv.fault

            def fault(conn, request):
                before(conn, request)
                return inner(conn, request) if faults else None
            srv.fault = fault

            def sharer(i):
                def go():
                    for n, (kind, items) in enumerate(programs[i]):
                        running[i] = (kind, items)
                        try:
                            if kind == "add":
                                sets[i].add_items(set(items))
                            else:
                                sets[i].remove_items(set(items))
                        except kexc.KazooException as e:
                            failed[(i, n)] = e
                        running[i] = None
                return go
            ts = [s.spawn(sharer(i), "s%d" % i) for i in range(len(programs))]
            if chaos:
                def upset():
                    for i in chaos:
                        s.point("expire c%d" % i)
                        clients[i]._connection.expire()
                ts.append(s.spawn(upset, "chaos"))
            for t in ts:
                t.join()
            s.quiesce()
            srv.fault = None
            if failed and not faults and not chaos:
                raise Violation("updates failed: %r" % (failed,))
            final = stored(srv)
            start = set(initial or ())
            ok = linearizations(start, programs, set(failed))
            if frozenset(final) not in ok:
                raise Violation("stored set %r is not the result of the updates %r (failed: %r) in any order" % (
                    sorted(final), programs, failed))
            left = [n for n in (srv.children(LOCK) if LOCK in srv.nodes else [])]
            if left:
                raise Violation("lock nodes left behind: %r" % (left,))
            for i in range(len(programs)):
                last = told[i][-1] if told[i] else None
                if (last or set()) != final:
                    raise Violation("sharer %d was last told of %r, the set is %r" % (i, last, sorted(final)))
            # the lock is free: anybody can still update
            running[0] = ("add", ["probe"])
            sets[0].add_items({"probe"})
            if stored(srv) != final | {"probe"}:
                raise Violation("update after the others stored %r" % (stored(srv),))
            if not failed:
                quiet(srv, s)
            for where, e in s.errors:
                if isinstance(e, Violation):
                    raise e
                raise Violation("%s: %s: %s" % (where, type(e).__name__, e))
            return tuple(sorted(final)), tuple(sorted(failed))
        return s.run(main)


def p26(ctx):
    ctx.rule("every interleaving, with up to the bounded number of preemptions, of the ZooKeeper operations (lock recipe "
             "included) and watch callbacks of 2-3 sharers' updates in real threads; plus every placement of the bounded "
             "number of failures (connection loss before or after the operation, session expiry, server error) over "
             "their operations on the set. At every write the written set is compared with the stored one.")
    T = ctx.thorough
    two = [
        ("add-add", [[("add", ["a", "b"])], [("add", ["b", "c"])]], ["x"]),
        ("add-remove", [[("add", ["a", "x"])], [("remove", ["x", "y"])]], ["x"]),
        ("first-use", [[("add", ["a"])], [("add", ["b"])]], []),
        ("no-op", [[("add", ["x"]), ("remove", ["q"])], [("add", ["y"])]], ["x"]),
        ("seq", [[("add", ["a"]), ("remove", ["a", "x"])], [("add", ["x", "a"])]], ["x"]),
    ]
    for name, programs, initial in two:
        ctx.explore(name, sharers, 2 if not T else 3 if name in ("add-add",) else 2, programs=programs, initial=initial)
    three = [[("add", ["a"])], [("remove", ["x"])], [("add", ["x", "b"])]]
    ctx.explore("three", sharers, 2 if T else 1, programs=three, initial=["x"])
    kinds = ["lost", "lost-applied", "expired", "noauth"]
    ctx.explore("faults", sharers, 2, programs=two[0][1], initial=["x"], faults=kinds, limit=2 if T else 1)
    ctx.explore("faults-remove", sharers, 2 if T else 1, programs=two[1][1], initial=["x"], faults=kinds, limit=2 if T else 1)
    ctx.explore("expiry", sharers, 3 if T else 2, programs=two[0][1], initial=["x"], chaos=[0])


# -- P27 ------------------------------------------------------------------------------
def memberships(ch, length, clients=3, faults=()):
    """histories of joins, leaves, crashes, session losses, with names reused"""
    rt = zk.Inline()
    with zk.ensemble(rt) as srv:
        zks, told, parties = [], [], []
        owner = {}                  # name -> session that should own it
        names = ["n0", "n0", "n1"][:clients]
        state = ["on"] * clients
        for i in range(clients):
            c = new_client(srv)
            rt.drain()
            told.append([])
            parties.append(Party(c, names[i], MEMBERS, on_change=lambda m, i=i: told[i].append(list(m))))
            zks.append(c)

        started = [False] * clients

        def start(i):
            rt.focus = i
            parties[i].start()
            started[i] = True

        def join(i):
            rt.focus = i
            srv.fault = None
            parties[i].join()
            owner[names[i]] = zks[i]._connection.session

        def leave(i):
            rt.focus = i
            parties[i].leave()
            owner.pop(names[i], None)

        def ended(sid):
            for n in [n for n, o in owner.items() if o == sid]:
                del owner[n]

        def expire(i):
            conn = zks[i]._connection
            ended(conn.session)
            conn.expire()
            rt.drain()

        def vanish(i):
            """the process dies; the server has not noticed yet"""
            conn = zks[i]._connection
            rt.conns.remove(conn)
            conn.up = False
            state[i] = "vanished"

        def timeout(i):
            sid = zks[i]._connection.session
            ended(sid)
            srv.end_session(sid)
            state[i] = "off"

        def drop(i):
            zks[i]._connection.drop()
            rt.drain()

        def check():
            rt.drain()
            quiet(srv)
            nodes = {n: srv.nodes[MEMBERS + "/" + n].owner for n in (
                srv.children(MEMBERS) if MEMBERS in srv.nodes else [])}
            if nodes != owner:
                raise Violation("members listed (with owning sessions) %r, should be %r" % (nodes, owner))
            for i in range(clients):
                if started[i] and state[i] == "on":
                    last = sorted(told[i][-1]) if told[i] else None
                    if last != sorted(owner):
                        raise Violation("member %d was last told of %r, members are %r" % (i, last, sorted(owner)))

        for step in range(length):
            menu = []
            for i in range(clients):
                if state[i] == "on":
                    if not started[i]:
                        menu.append(("start %d" % i, start, i))
                    else:
                        menu.append(("join %d" % i, join, i))
                        menu.append(("leave %d" % i, leave, i))
                        menu.append(("expire %d" % i, expire, i))
                        menu.append(("drop %d" % i, drop, i))
                        menu.append(("vanish %d" % i, vanish, i))
                elif state[i] == "vanished":
                    menu.append(("timeout %d" % i, timeout, i))
            if not menu:
                break
            k = ch.choose([(m[0], 0) for m in menu]) if len(menu) > 1 else 0
            menu[k][1](menu[k][2])
            check()
        return tuple(sorted(owner)), tuple(state)


def racing(ch, programs, stale=False, faults=(), limit=1):
    """joins and leaves in concurrent threads, stale sessions ending meanwhile"""
    s = threads.Sched(ch)
    with zk.ensemble(zk.Threads(s)) as srv:
        def main():
            cs, told, ps = [], [], []
            names = [p[0] for p in programs]
            old = None
            if stale:
                old = srv.new_session()
                srv.put(MEMBERS)
                srv.put(MEMBERS + "/" + names[0], b"", old)
            for i, prog in enumerate(programs):
                c = new_client(srv)
                cs.append(c)
                told.append([])
                ps.append(Party(c, names[i], MEMBERS, on_change=lambda m, i=i: told[i].append(list(m))))
            s.quiesce()
            for p in ps:
                p.start()
            s.quiesce()
            failed = set()
            if faults:
                fault_menu(ch, srv, faults, limit=limit, users=names)

            def go(i):
                def body():
                    for op in programs[i][1:]:
                        try:
                            getattr(ps[i], op)()
                            failed.discard(i)
                        except kexc.KazooException as e:
                            failed.add(i)
                            if not faults:
                                raise Violation("%s of %s failed: %r" % (op, names[i], e))
                return body
            ts = [s.spawn(go(i), names[i]) for i in range(len(programs))]
            if stale:
                def end():
                    s.point("old session ends")
                    srv.end_session(old)
                ts.append(s.spawn(end, "server"))
            for t in ts:
                t.join()
            s.quiesce()
            srv.fault = None
            for where, e in s.errors:
                if isinstance(e, Violation):
                    raise e
                raise Violation("%s: %s: %s" % (where, type(e).__name__, e))
            nodes = {n: srv.nodes[MEMBERS + "/" + n].owner for n in srv.children(MEMBERS)}
            live = set(c._connection.session for c in cs)
            for n, o in nodes.items():
                if not o or not srv.sessions.get(o):
                    raise Violation("entry of %s belongs to no live session" % n)
                if o not in live:
                    raise Violation("entry of %s belongs to the old session" % n)
            expired = any(x[2] == "expired" for x in srv.log)
            for i, prog in enumerate(programs):
                if i in failed or expired:
                    continue
                others = [q for j, q in enumerate(programs) if j != i and q[0] == names[i]]
                want = prog[-1] == "join"
                if (names[i] in nodes) != want and not others:
                    raise Violation("after %r, %s is %s" % (
                        prog[1:], names[i], "listed" if names[i] in nodes else "not listed"))
            for i in range(len(programs)):
                if not told[i] or sorted(told[i][-1]) != sorted(nodes):
                    raise Violation("%s was last told of %r, members are %r" % (
                        names[i], told[i][-1:], sorted(nodes)))
            return tuple(sorted(nodes)), tuple(sorted(failed))
        return s.run(main)


def p27(ctx):
    ctx.rule("memberships: every sequence of start/join/leave/session loss/connection loss/process death/late timeout of "
             "this length by up to 3 clients, two of which share a name, with the entries, their owners and what members "
             "were told checked after each; racing: joins and leaves in concurrent threads while a stale session ends, every "
             "interleaving of ZooKeeper operations up to the preemption bound, with a bounded number of failures.")
    T = ctx.thorough
    ctx.explore("memberships2", memberships, 0, length=8 if T else 7, clients=2)
    ctx.explore("memberships3", memberships, 0, length=6 if T else 5, clients=3)
    b = 4 if T else 3
    ctx.explore("stale-join", racing, b, programs=[["n0", "join"]], stale=True)
    ctx.explore("stale-join-other", racing, b, programs=[["n0", "join"], ["n1", "join"]], stale=True)
    ctx.explore("join-leave", racing, b, programs=[["n0", "join", "leave"], ["n1", "join"]])
    ctx.explore("rejoin", racing, b, programs=[["n0", "join", "leave", "leave", "join"], ["n1", "join", "leave"]])
    ctx.explore("faults", racing, b, programs=[["n0", "join", "leave"]],
                faults=["lost", "lost-applied", "expired", "noauth"], limit=b)
    ctx.explore("faults-stale", racing, b, programs=[["n0", "join"]], stale=True,
                faults=["lost", "lost-applied", "expired", "noauth"], limit=b)


# -- P28 ------------------------------------------------------------------------------
def notified(ch, members, partitions, opcodes=False, reader=True, allocator="naive", clear=False):
    """membership and partition notifications in different threads, line by line"""
    s = threads.Sched(ch, trace=("/kiel/zookeeper/allocator.py", "/kiel/clients/grouped.py"), opcodes=opcodes)
    fn = ALLOCATORS[allocator]()
    with zk.ensemble(zk.Threads(s)) as srv:
        def main():
            produced = []            # every mapping the allocation function gave
            seen = []

            def allocate(ms, ps):
                if list(ms) != sorted(ms) or list(ps) != sorted(ps):
                    raise Violation("allocation function given %r, %r: not sorted" % (ms, ps))
                out = fn(ms, ps)
                produced.append((out, flat(out.get("me", {}))))
                return out

            def rebalanced():
                seen.append(flat(a.allocation))

            a = PartitionAllocator(["zk"], GROUP, "me", allocator_fn=allocate, on_rebalance=rebalanced)
            bad = []

            def guarded(f):
                def body():
                    try:
                        f()
                    except Exception as e:
                        bad.append(e)
                return body

            def m():
                for x in members:
                    a.on_group_members_change(list(x))

            def p():
                for x in partitions:
                    a.on_partition_change(set(x))

            def r():
                for _ in range(2):
                    got = flat(a.allocation)
                    if got and got not in [f for _, f in produced]:
                        raise Violation("a reader sees allocation %r, which was never computed" % (got,))
            ts = [s.spawn(guarded(m), "members"), s.spawn(guarded(p), "partitions")]
            if reader:
                ts.append(s.spawn(guarded(r), "reader"))
            for t in ts:
                t.join()
            quiet(srv, s)
            for e in bad:
                if isinstance(e, Violation):
                    raise e
                raise Violation("a notification or reader failed with %s: %s" % (type(e).__name__, e))
            final = flat(a.allocation)
            want = flat(fn(sorted(members[-1]), sorted(partitions[-1])).get("me", {}))
            if final != want:
                raise Violation("members %r and partitions %r notified at the same time leave %r instead of %r" % (
                    members[-1], partitions[-1], final, want))
            if (seen[-1] if seen else []) != final:
                raise Violation("allocation is %r but the rebalance callback last saw %r" % (final, seen[-1:]))
            return tuple(final), len(seen)
        return s.run(main)


def p28(ctx):
    ctx.rule("one thread delivers membership changes, another partition changes, a third reads the allocation: every "
             "interleaving of their source lines (of bytecode instructions in the opcode scenarios) in allocator.py and "
             "grouped.py with up to the bounded number of preemptions.")
    T = ctx.thorough
    one = dict(members=[["me", "you"]], partitions=[["t:0", "t:1"]])
    two = dict(members=[["me"], ["me", "you"]], partitions=[["t:0"], ["t:0", "t:1", "t:2"]])
    ctx.explore("lines", notified, 4 if T else 3, **one)
    ctx.explore("lines-no-reader", notified, 4 if T else 3, reader=False, **one)
    ctx.explore("lines-two", notified, 4 if T else 3, reader=False, **two)
    ctx.explore("lines-half", notified, 2, allocator="half", **one)
    ctx.explore("opcodes", notified, 3 if T else 2, opcodes=True, reader=False, **one)
    ctx.explore("opcodes-reader", notified, 2 if T else 1, opcodes=True, **one)


# -- P29 ------------------------------------------------------------------------------
def refused_by_server(outcome):
    return isinstance(outcome, (kexc.NoAuthError, kexc.ConnectionClosedError)) or isinstance(outcome, list) and any(
        isinstance(o, kexc.NoAuthError) for o in outcome)


def starting(ch, faults=(), limit=1, hold=False, upset=(), peer=False, stop=True, only=None,
             preexisting=False, switch_cost=1, stale=False):
    """start() and stop() with ZooKeeper failing at every step"""
    s = threads.Sched(ch, switch_cost=switch_cost)
    fn = grouped.naive_allocator
    with zk.ensemble(zk.Threads(s)) as srv:
        def main():
            if preexisting:
                srv.put(MEMBERS)
                srv.put(PARTS, b'["t:0", "old:1"]')
            if stale:
                # left by an earlier session of this member's
                srv.put(MEMBERS)
                srv.put(MEMBERS + "/me", owner=7)
            if hold:
                srv.hold.add(0)
            m = Member(srv, "me", fn)
            other = Member(srv, "you", fn) if peer else None
            conn = m.conn
            if faults:
                fault_menu(ch, srv, faults, limit=limit, only=lambda c, r: c is conn,
                           users=("starter", "stopper"))
            inner = srv.fault
            out = {}

            def watch_writes(c, r):
                if isinstance(r, zk.ser.SetData) and c is conn and not m.a.connected.is_set() and not upset:
                    raise Violation("partitions written while not connected")
                return inner(c, r) if inner else None
            srv.fault = watch_writes
            seed = {"t": [0, 1], "u": [0]}
            n1 = []

            def go():
                f = m.a.start(dict(seed))
                n1.append(len(srv.log))
                if not f.done():
                    raise Violation("start() returned before it was finished")
                out["start"] = f.exception()
                out["started"] = True
                if not f.exception():
                    if not (m.a.members_collected.is_set() and m.a.partitions_collected.is_set()):
                        raise Violation("start() completed before members and partitions were seen")

            def chaos():
                for what in upset:
                    s.point("chaos " + what)
                    if what == "release":
                        srv.hold.discard(0)
                    elif what == "hold":
                        srv.hold.add(0)
                        conn.drop()
                    elif what == "drop":
                        conn.drop()
                    elif what == "expire":
                        conn.expire()
                srv.hold.discard(0)
            t = s.spawn(go, "starter")
            ts = [t]
            if upset:
                ts.append(s.spawn(chaos, "chaos"))
            if peer:
                ts.append(s.spawn(lambda: other.a.start({"t": [5]}), "peer"))
            if hold and not upset:
                s.quiesce()
                if out:
                    raise Violation("start() completed although the connection was never made")
                if srv.log:
                    raise Violation("requests before the connection was made")
                srv.hold.discard(0)
            for t in ts:
                t.join()
            s.quiesce()
            for where, e in s.errors:
                if isinstance(e, Violation):
                    raise e
                raise Violation("%s: %s: %s" % (where, type(e).__name__, e))
            e = out["start"]
            disturbed = [x for x in srv.log if x[2] in ("lost", "expired") or refused_by_server(x[2])] or upset or len(ch_faults(ch))
            if e is not None:
                if not disturbed:
                    raise Violation("start() failed with %r although nothing was wrong" % (e,))
                if not isinstance(e, kexc.KazooException):
                    raise Violation("start() failed with %r, which is no ZooKeeper error" % (e,))
                if not upset:
                    mine = [x for x in srv.log[:n1[0]] if x[0] == conn.index]
                    bad = [i for i, x in enumerate(mine) if x[2] in ("lost", "expired") or refused_by_server(x[2])]
                    joins = [i for i, x in enumerate(mine) if isinstance(x[1], zk.ser.Create)
                             and x[1].path == MEMBERS + "/me"]
                    if bad and mine[bad[-1]][2] != "expired" and joins and joins[0] > bad[-1]:
                        raise Violation("start() failed with %r, but joined the group after that" % (e,))
            else:
                nodes = srv.children(MEMBERS)
                if "me" not in nodes:
                    raise Violation("start() succeeded but the member is not listed (%r)" % (nodes,))
                if srv.nodes[MEMBERS + "/me"].owner != conn.session:
                    raise Violation("start() succeeded but the entry is not owned by this member's session")
                want = {"t:0", "t:1", "u:0"} | ({"t:5"} if peer else set()) | (
                    {"old:1"} if preexisting else set())
                if stored(srv) != want:
                    raise Violation("start() succeeded but the partition set is %r, not %r" % (
                        sorted(stored(srv)), sorted(want)))
                m.live = True
                live = ["me"] + (["you"] if peer else [])
                mine = flat(m.a.allocation)
                expected = flat(fn(sorted(live), sorted(want))["me"])
                if mine != expected:
                    raise Violation("start() succeeded but the allocation is %r instead of %r" % (mine, expected))
            if not stop:
                return type(e).__name__
            # leave
            n0 = len(srv.log)
            session = conn.session
            healthy = conn.up

            def leave():
                f = m.a.stop()
                if not f.done():
                    raise Violation("stop() returned before it was finished")
                out["stop"] = f.exception()
            t = s.spawn(leave, "stopper")
            t.join()
            s.quiesce()
            for where, x in s.errors:
                if isinstance(x, Violation):
                    raise x
                raise Violation("%s: %s: %s" % (where, type(x).__name__, x))
            if not conn.ended or conn._write_sock is not None:
                raise Violation("stop() left the connection open")
            mylog = [x for x in srv.log[n0:] if x[0] == conn.index]
            failed = [x for x in mylog if x[2] in ("lost", "expired") or refused_by_server(x[2])]
            withdrawn = [i for i, x in enumerate(mylog) if isinstance(x[1], zk.ser.Delete)
                         and x[1].path == MEMBERS + "/me"]
            closed = [i for i, x in enumerate(mylog) if x[1] is zk.ser.CloseInstance]
            if healthy:
                if not withdrawn:
                    raise Violation("stop() never withdrew the membership")
                if closed and withdrawn[0] > closed[0]:
                    raise Violation("stop() closed the connection before withdrawing the membership")
            refused = [x for x in failed if isinstance(x[1], zk.ser.Delete)]
            if out["stop"] is None and refused:
                raise Violation("stop() reports success although withdrawing failed")
            if out["stop"] is not None and not disturbed and not failed and not len(ch_faults(ch)):
                raise Violation("stop() failed with %r although nothing was wrong" % (out["stop"],))
            if not failed and healthy and MEMBERS in srv.nodes and "me" in srv.children(MEMBERS):
                raise Violation("stop() left the member listed")
            if closed and srv.sessions.get(session):
                raise Violation("stop() left the session open")
            return type(e).__name__, type(out["stop"]).__name__
        return s.run(main)


def ch_faults(ch):
    """labels of the faults chosen so far"""
    return [l for l in (ls[c] for ls, c in zip(ch.labels, ch.choices))
            if l.rsplit(":", 1)[-1] in ("lost", "lost-applied", "expired", "noauth", "closed")]


def updating(ch, op, upset):
    """partitions added or removed while the connection comes and goes"""
    s = threads.Sched(ch)
    with zk.ensemble(zk.Threads(s)) as srv:
        def main():
            m = Member(srv, "me", grouped.naive_allocator)
            f = m.a.start({"t": [0, 1]})
            if f.exception():
                raise Violation("start() failed: %r" % (f.exception(),))
            s.quiesce()
            conn = m.conn
            out = {}
            entered = []

            def watch(c, r):
                entered.append((zk.opname(r), m.a.connected.is_set()))
            srv.fault = watch

            def go():
                try:
                    if op == "add":
                        m.a.add_partitions({"t": [7], "u": [0]})
                    else:
                        m.a.remove_partitions({"t": [0], "z": [3]})
                    out["ok"] = True
                except kexc.KazooException as e:
                    out["err"] = e

            if upset == "down":
                srv.hold.add(0)
                conn.drop()
                s.quiesce()
                if m.a.connected.is_set():
                    raise Violation("considered connected while the connection is suspended")
                before = len(m.a.conn._queue)       # watches being set again
                t = s.spawn(go, "updater")
                s.quiesce()
                if len(m.a.conn._queue) != before or entered or out:
                    raise Violation("partitions updated while not connected: %r %r" % (
                        [zk.opname(q[0]) for q in m.a.conn._queue][before:], out))
                if ch.pick(["reconnects", "session lost meanwhile"], [0, 0]):
                    srv.end_session(conn.session)
                srv.hold.discard(0)
                t.join()
            else:
                t = s.spawn(go, "updater")

                def chaos():
                    s.point("chaos")
                    if upset == "drop":
                        conn.drop()
                    else:
                        conn.expire()
                c = s.spawn(chaos, "chaos")
                t.join()
                c.join()
            s.quiesce()
            for where, x in s.errors:
                if isinstance(x, Violation):
                    raise x
                raise Violation("%s: %s: %s" % (where, type(x).__name__, x))
            if not m.a.connected.is_set():
                raise Violation("not considered connected after reconnecting")
            if "err" in out and upset == "down":
                raise Violation("update failed with %r" % (out["err"],))
            want = {"t:0", "t:1", "t:7", "u:0"} if op == "add" else {"t:1"}
            got = stored(srv)
            if "ok" in out and got != want:
                raise Violation("update done but the set is %r" % (sorted(got),))
            if "err" in out and got not in (want, {"t:0", "t:1"}):
                raise Violation("update failed and the set is %r" % (sorted(got),))
            m.live = True
            return converged(srv, [m], grouped.naive_allocator), sorted(out)
        return s.run(main)


def p29(ctx):
    ctx.rule("every ZooKeeper operation issued during start() and stop() (retries and recipes included) fails in every listed way, "
             "up to the bounded number of failures, combined with up to the bounded number of preemptions; connection histories: "
             "not connected at first, dropped, held down or expired at any operation; updates while suspended.")
    ctx.assume("the ensemble becomes reachable again eventually: an operation waiting for a suspended connection is not a hang")
    T = ctx.thorough
    kinds = ["lost", "lost-applied", "expired", "noauth"]
    ctx.explore("start", starting, 1, hold=False)
    ctx.explore("start-held", starting, 1, hold=True)
    ctx.explore("faults", starting, 2, faults=kinds, limit=2 if T else 1)
    ctx.explore("faults-existing", starting, 2 if T else 1, faults=kinds, limit=2, preexisting=True)
    ctx.explore("faults-stale", starting, 3 if T else 2, faults=kinds, limit=2 if T else 1, stale=True)
    ctx.explore("faults-peer", starting, 2 if T else 1, faults=kinds, limit=1, peer=True)
    for what in (["drop"], ["expire"], ["hold", "release"], ["drop", "expire"]):
        ctx.explore("upset-" + "-".join(what), starting, 2 if T else 1, upset=what)
    for op in ("add", "remove"):
        for upset in ("down", "drop", "expire"):
            ctx.explore("%s-%s" % (op, upset), updating, 2 if T else 1, op=op, upset=upset)
