"""Explorer, enumerator, evidence and verdicts (shared by every check)."""
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")


class Violation(Exception):
    """The property is broken on this execution."""

    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.sig = sig


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code."""


class CpuHang(KeyboardInterrupt):
    """raised by the CPU-time watchdog (passes through 'except Exception')"""


def _on_cpu(sig, frame):
    raise CpuHang()


class Chooser(object):
    """Answers the choice points of one execution: a prefix, then defaults."""

    def __init__(self, prefix=(), crcs=None):
        self.prefix = list(prefix)
        self.choices = []
        self.ns = []              # per point: list of costs
        self.labels = []
        self.crc = 0
        self.crcs = []
        self.want_crc = crcs
        self.diverged = False
        self.states = set()
        self.cost = 0

    def choose(self, options):
        """options: list of (label, cost, ...); [0] is the default."""
        i = len(self.choices)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(options):
            self.diverged = True
            k = 0
        label = options[k][0]
        self.crc = zlib.crc32(repr(label).encode(), self.crc)
        if self.want_crc is not None and i == len(self.prefix) - 1 \
                and self.crc != self.want_crc:
            self.diverged = True
        self.choices.append(k)
        self.ns.append([o[1] for o in options])
        self.labels.append([o[0] for o in options])
        self.cost += options[k][1]
        return k

    def pick(self, labels, costs=None):
        """choose among plain labels; default cost of alternatives is 1"""
        if costs is None:
            costs = [0] + [1] * (len(labels) - 1)
        return self.choose(list(zip(labels, costs)))

    def state(self, fp):
        self.states.add(fp)


def _classify(exc):
    """An exception that escaped a scenario.  One raised inside kiel (or in
    library code called by it) without the harness expecting it is a violation;
    one raised by the harness itself is a machinery error."""
    tb = exc.__traceback__
    last_kiel = last_harness = -1
    frames = traceback.extract_tb(tb)
    for i, f in enumerate(frames):
        if "/kiel/" in f.filename and "/verif/" not in f.filename:
            last_kiel = i
        if f.filename.startswith(os.path.join(VERIF, "mc")):
            last_harness = i
    if last_kiel > last_harness:
        return True
    return False


def run_one(fn, prefix, params, crcs=None):
    ch = Chooser(prefix, crcs)
    viol = None
    out = None
    trace = None
    try:
        out = fn(ch, **params)
    except Violation as v:
        viol = {"msg": v.msg, "sig": v.sig}
        trace = getattr(v, "trace", None)
    except HarnessError:
        raise
    except Exception as e:       # noqa
        if not _classify(e):
            raise
        viol = {"msg": "unexpected %s: %s at %s" % (
            type(e).__name__, e, _where(e)), "sig": None}
    return ch, out, viol, trace


def _where(e):
    frames = [f for f in traceback.extract_tb(e.__traceback__) if "/kiel/" in f.filename]
    f = frames[-1]
    return "%s:%s" % (f.filename.split("/kiel/", 1)[1], f.name)


# -- worker side ---------------------------------------------------------------
_FN = None
_PARAMS = None


def _explore_chunk(args):
    """Run a chunk of prefixes; return children + statistics."""
    prefixes, maxbound, deadline = args
    children = []
    stats = {"exec": 0, "trans": 0, "diverged": 0, "skipped": 0, "nodes": 0}
    outcomes = set()
    states = set()
    viols = []
    samples = []
    for prefix, crc in prefixes:
        if time.time() > deadline:
            stats["skipped"] += 1
            continue
        try:
            ch, out, viol, trace = run_one(_FN, prefix, _PARAMS, crc)
        except BaseException as e:   # machinery error: report, do not hang the pool
            return {"error": "%s\n%s" % (
                "scenario=%s params=%r prefix=%r" % (_FN.__name__, _PARAMS, prefix),
                "".join(traceback.format_exception(type(e), e, e.__traceback__)))}
        stats["exec"] += 1
        stats["trans"] += len(ch.choices)
        stats["nodes"] += max(1, len(ch.choices) - max(0, len(prefix) - 1))
        if ch.diverged:
            stats["diverged"] += 1
        outcomes.add(zlib.crc32(repr(out).encode()))
        states |= ch.states
        if len(samples) < 2:
            samples.append({"choices": ch.choices[:], "steps": [
                l[c] for l, c in zip(ch.labels, ch.choices)][:40], "outcome": repr(out)[:300]})
        if viol:
            viol["choices"] = ch.choices[:]
            viol["steps"] = [l[c] for l, c in zip(ch.labels, ch.choices)]
            viols.append(viol)
            continue
        # children: deviate at each later point
        crc_at = 0
        base = 0
        for i, k in enumerate(ch.choices):
            costs = ch.ns[i]
            if i >= len(prefix):
                for alt in range(1, len(costs)):
                    c = base + costs[alt]
                    if c <= maxbound:
                        ccrc = zlib.crc32(repr(ch.labels[i][alt]).encode(), crc_at)
                        children.append((c, ch.choices[:i] + [alt], ccrc))
            base += costs[k]
            crc_at = zlib.crc32(repr(ch.labels[i][k]).encode(), crc_at)
    return {"children": children, "stats": stats, "outcomes": outcomes,
            "states": states, "viols": viols, "samples": samples}


_CASES = None
_CASEFN = None


def _cases_chunk(args):
    worker, nworkers, deadline = args
    n = 0
    distinct = set()
    viols = []
    samples = []
    skipped = 0
    signal.signal(signal.SIGPROF, _on_cpu)
    for i, case in enumerate(_CASES()):
        if i % nworkers != worker:
            continue
        if time.time() > deadline:
            skipped += 1
            continue
        try:
            signal.setitimer(signal.ITIMER_PROF, 60)
            try:
                out = _CASEFN(case)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            n += 1
            distinct.add(zlib.crc32(repr(out if out is not None else case).encode()))
            if len(samples) < 2:
                samples.append(repr(case)[:300])
        except Violation as v:
            n += 1
            viols.append({"msg": v.msg, "sig": v.sig, "case": i, "repr": repr(case)[:2000]})
        except CpuHang:
            n += 1
            viols.append({"msg": "runs forever", "sig": None, "case": i, "repr": repr(case)[:2000]})
        except Exception as e:      # noqa
            if isinstance(e, HarnessError) or not _classify(e):
                return {"error": "case %d %r\n%s" % (i, case, traceback.format_exc())}
            n += 1
            viols.append({"msg": "unexpected %s: %s at %s" % (type(e).__name__, e, _where(e)),
                          "sig": None, "case": i, "repr": repr(case)[:2000]})
        if len(viols) >= 20:
            break
    return {"n": n, "distinct": distinct, "viols": viols, "samples": samples, "skipped": skipped}


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.cap = float(os.environ.get("VERIF_CAP", "420" if tier == "quick" else "3000"))
        self.deadline = self.t0 + self.cap
        self.jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
        self.violations = []
        self.cov = {
            "executions": 0, "transitions": 0, "tree_nodes": 0, "cases": 0,
            "distinct_outcomes": 0, "diverged": 0, "skipped": 0,
        }
        self.state_set = set()
        self.case_set = 0
        self.scenarios = []
        self.samples = []
        self.assumptions = []
        self.rules = []
        self.scale = 1 if tier == "quick" else 2
        self.known = load_known(pid)
        self.known_hits = {}

    @property
    def stop(self):
        """a violation decides the verdict: no need to go on"""
        return bool(self.violations) and not os.environ.get("VERIF_ALL")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    # -- schedule / fault exploration ------------------------------------------
    def explore(self, name, fn, bound, max_exec=None, **params):
        """Every execution of fn(ch, **params) with total deviation cost <= bound."""
        global _FN, _PARAMS
        if self.replaying is not None:
            self._replay_execution(name, fn, params)
            return 0
        if not name.startswith(os.environ.get("VERIF_ONLY", "")):
            return 0                    # (for development)
        if self.stop:
            return 0
        _FN, _PARAMS = fn, params
        t0 = time.time()
        # determinism: the default execution twice
        a = run_one(fn, [], params)
        b = run_one(fn, [], params)
        if a[0].labels != b[0].labels or repr(a[1]) != repr(b[1]):
            raise HarnessError("%s: two default executions differ:\n%r\n%r" % (
                name, (a[0].labels, a[1]), (b[0].labels, b[1])))
        levels = {0: [([], None)]}
        total = 0
        nviol = 0
        outcomes = set()
        completed = -1
        max_exec = max_exec or 10 ** 9
        truncated = False
        pool = None
        skipped0 = self.cov["skipped"]
        try:
            for level in range(bound + 1):
                queue = levels.pop(level, [])
                while queue:
                    if total + len(queue) > max_exec:
                        queue = queue[:max(0, max_exec - total)]
                        truncated = True
                        if not queue:
                            break
                    size = max(1, min(200, len(queue) // (self.jobs * 4) + 1))
                    chunks = [(queue[i:i + size], bound, self.deadline)
                              for i in range(0, len(queue), size)]
                    queue = []
                    if len(chunks) == 1 or self.jobs == 1:
                        results = map(_explore_chunk, chunks)
                    else:
                        if pool is None:
                            pool = multiprocessing.get_context("fork").Pool(self.jobs)
                        results = pool.imap_unordered(_explore_chunk, chunks)
                    for r in results:
                        if "error" in r:
                            raise HarnessError(r["error"])
                        s = r["stats"]
                        total += s["exec"]
                        self.cov["executions"] += s["exec"]
                        self.cov["transitions"] += s["trans"]
                        self.cov["tree_nodes"] += s["nodes"]
                        self.cov["diverged"] += s["diverged"]
                        self.cov["skipped"] += s["skipped"]
                        outcomes |= r["outcomes"]
                        self.state_set |= {(name, x) for x in r["states"]} \
                            if len(self.state_set) < 2000000 else set()
                        if len(self.samples) < 6 and r["samples"]:
                            self.samples.append(dict(r["samples"][-1], scenario=name))
                        for v in r["viols"]:
                            if self._violation(name, params, v):
                                nviol += 1
                        for c, p, crc in r["children"]:
                            if c <= level:
                                queue.append((p, crc))
                            else:
                                levels.setdefault(c, []).append((p, crc))
                    if nviol >= 3:
                        break
                if nviol or self.cov["skipped"] > skipped0 or truncated:
                    break
                completed = level
        finally:
            if pool is not None:
                pool.terminate()
                pool.join()
        self.cov["distinct_outcomes"] += len(outcomes)
        self.scenarios.append({
            "scenario": name, "executions": total, "bound": bound,
            "bound_completed": completed, "distinct_outcomes": len(outcomes),
            "wall_s": round(time.time() - t0, 2)})
        if os.environ.get("VERIF_VERBOSE"):
            print("  %-40s exec=%d bound=%d/%d outcomes=%d %.1fs" % (
                name, total, completed, bound, len(outcomes), time.time() - t0), flush=True)
        return nviol

    # -- input enumeration --------------------------------------------------------
    def cases(self, name, gen, fn):
        """fn(case) for every case of the finite generator gen()."""
        global _CASES, _CASEFN
        if self.replaying is not None:
            self._replay_case(name, gen, fn)
            return 0
        if not name.startswith(os.environ.get("VERIF_ONLY", "")):
            return 0
        if self.stop:
            return 0
        _CASES, _CASEFN = gen, fn
        t0 = time.time()
        n = 0
        distinct = set()
        nviol = 0
        args = [(w, self.jobs, self.deadline) for w in range(self.jobs)]
        with multiprocessing.get_context("fork").Pool(self.jobs) as pool:
            for r in pool.imap_unordered(_cases_chunk, args):
                if "error" in r:
                    raise HarnessError(r["error"])
                n += r["n"]
                distinct |= r["distinct"]
                self.cov["skipped"] += r["skipped"]
                for s in r["samples"][:1]:
                    if len([x for x in self.samples if x.get("scenario") == name]) < 2:
                        self.samples.append({"scenario": name, "case": s})
                for v in sorted(r["viols"], key=lambda v: v["case"]):
                    if self._violation(name, {"case": v["case"]}, v):
                        nviol += 1
        self.cov["cases"] += n
        self.case_set += len(distinct)
        self.scenarios.append({"scenario": name, "cases": n, "distinct": len(distinct),
                               "wall_s": round(time.time() - t0, 2)})
        if os.environ.get("VERIF_VERBOSE"):
            print("  %-40s cases=%d distinct=%d %.1fs" % (
                name, n, len(distinct), time.time() - t0), flush=True)
        return nviol

    # -- verdicts -------------------------------------------------------------------
    def _violation(self, name, params, v):
        sig = "%s:%s" % (name, v.get("sig") or re.sub(r"0x[0-9a-f]+", "0x", v["msg"]))
        for k in self.known:
            if k["signature"] == sig:
                self.known_hits.setdefault(sig, k["what"])
                return False
        self.violations.append(dict(v, scenario=name, params=repr(params), signature=sig))
        return True

    # -- replay ----------------------------------------------------------------------
    replaying = None             # [(scenario, choices or case number)]

    def _replay_execution(self, name, fn, params):
        for v in self.replaying:
            if v["scenario"] == name and v.get("choices") is not None:
                ch, out, viol, _ = run_one(fn, v["choices"], params)
                self._replayed(v, viol["msg"] if viol else None, [
                    l[c] for l, c in zip(ch.labels, ch.choices)])

    def _replay_case(self, name, gen, fn):
        for v in self.replaying:
            if v["scenario"] == name and v.get("case") is not None:
                for i, case in enumerate(gen()):
                    if i == v["case"]:
                        msg = None
                        try:
                            fn(case)
                        except Violation as e:
                            msg = e.msg
                        except Exception as e:     # noqa
                            if not _classify(e):
                                raise
                            msg = "unexpected %s: %s at %s" % (type(e).__name__, e, _where(e))
                        self._replayed(v, msg, [repr(case)[:2000]])

    def _replayed(self, v, msg, steps):
        v["seen"] = msg
        print("scenario %s" % v["scenario"])
        for s in steps:
            print("    %s" % s)
        print("  recorded: %s" % v["msg"])
        print("  now:      %s" % (msg or "holds"))

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = dict(self.cov)
        exhaustive = not cov["skipped"] and not cov["diverged"] and all(
            s.get("bound_completed", 0) == s.get("bound", 0) for s in self.scenarios) \
            and not self.violations
        cov.update({
            "scenarios": self.scenarios,
            "samples": self.samples[:8] or ["none"],
            "exhaustive": exhaustive,
            "rule": " ".join(self.rules) or "see DESIGN.md",
        })
        if self.level == "model_checking":
            cov["states"] = len(self.state_set) if self.state_set else cov["tree_nodes"]
            cov["traces_validated_against_impl"] = cov["executions"] + cov["cases"]
        cov["evaluations"] = cov["executions"] + cov["cases"]
        cov["distinct_nontrivial"] = cov["distinct_outcomes"] + self.case_set
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for sig, what in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if self.violations:
            best = sorted(self.violations, key=lambda v: len(v.get("steps", ())))
            path = os.path.join(EVIDENCE, "replay-%s.json" % self.pid)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "violations": best[:5]},
                          f, indent=1, default=repr)
            for v in best[:3]:
                print("  [%s %s] %s" % (v["scenario"], v["params"][:400], v["msg"]))
                if v.get("steps"):
                    print("     steps: %s" % (v["steps"][:60],))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s tier=%s executions=%d cases=%d exhaustive=%s wall=%.1fs" % (
            self.pid, self.tier, cov["executions"], cov["cases"], exhaustive, ev["wall_s"]))
        return 0


def replay(ctx, fn):
    """run the recorded executions again, one by one"""
    fn(ctx)
    bad = [v for v in ctx.replaying if v.get("seen")]
    gone = [v for v in ctx.replaying if "seen" not in v]
    for v in gone:
        print("scenario %s no longer exists" % v["scenario"])
    if bad:
        print("VIOLATION property=%s replay=%s" % (ctx.pid, ctx.replay_path))
    return 1 if bad else 0


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]
