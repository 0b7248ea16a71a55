"""Monitor infrastructure: loading the code under test from /repo's working
tree, observing calls, recording violations, running workloads in parallel,
deciding the verdict and writing evidence."""
import ast
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "urlstd")
QUICK_WALL = 500         # seconds of wall time / CPU time per worker after
QUICK_CPU = 300          # which a quick run ends its workload
ALARM_GRACE = 20         # seconds a worker goes on after another saw a violation
MAX_VIOL = 4          # violations kept per worker before it stops
CASE_CPU = 20         # CPU seconds after which a case is suspected to hang
HANG_CPU = 60         # CPU seconds a suspected case gets when it is run again
CASE_WALL = 150       # seconds without an end and without CPU use: inconclusive
HANG_MAX_LEN = 200000 # inputs above this size are never called hangs by time

_lib = None


def load():
    """Import urlstd from the working tree (never from stale bytecode)."""
    global _lib
    if _lib is None:
        sys.dont_write_bytecode = True
        sys.pycache_prefix = "/nonexistent-pycache"
        if SRC not in sys.path:
            sys.path.insert(0, SRC)
        import urlstd.parse as P
        import urlstd.error as E
        if not os.path.realpath(P.__file__).startswith(os.path.realpath(PKG) + os.sep):
            raise RuntimeError("urlstd imported from %s" % P.__file__)
        _lib = (P, E)
    return _lib


class StopWork(BaseException):
    pass


class HangSuspect(BaseException):
    pass


class StepLimit(BaseException):
    pass


def short(x, n=400):
    r = ascii(x)
    return r if len(r) <= n else r[: n // 2] + "...(%d chars)..." % len(r) + r[-n // 2:]


# ----------------------------------------------------------- line coverage
class LineCov:
    """Which source lines of the code under test have executed (sys.monitoring,
    each line reports once).  Used as workload feedback and as evidence."""

    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.fresh = False
        m = self.m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "verif-cov")
        except ValueError:
            pass
        m.register_callback(self.TOOL, m.events.LINE, self._cb)
        m.set_events(self.TOOL, m.events.LINE)

    def _cb(self, code, line):
        fn = code.co_filename
        if fn.startswith(SRC):
            self.lines.add((os.path.basename(fn), line))
            self.fresh = True
        return self.m.DISABLE

    def take_fresh(self):
        f, self.fresh = self.fresh, False
        return f


class Steps:
    """Counts interpreter steps (line events, and jumps, for loops within one
    line) taken inside the code under test while active; raises StepLimit
    beyond the bound."""

    TOOL = 4

    def __init__(self, limit=None):
        self.limit = limit
        self.n = 0

    def __enter__(self):
        m = sys.monitoring
        self.m = m
        try:
            m.use_tool_id(self.TOOL, "verif-steps")
        except ValueError:
            pass
        m.register_callback(self.TOOL, m.events.LINE, self._cb)
        m.register_callback(self.TOOL, m.events.JUMP, self._cb)
        m.set_events(self.TOOL, m.events.LINE | m.events.JUMP)
        m.restart_events()
        return self

    def _cb(self, code, *where):
        if not code.co_filename.startswith(SRC):
            return self.m.DISABLE
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            self.m.set_events(self.TOOL, 0)
            raise StepLimit(self.n)

    def __exit__(self, *a):
        self.m.set_events(self.TOOL, 0)
        self.m.register_callback(self.TOOL, self.m.events.LINE, None)
        self.m.register_callback(self.TOOL, self.m.events.JUMP, None)
        self.m.free_tool_id(self.TOOL)
        return False


def step_bound(total_len):
    """Generous linear bound on line events for one API call on inputs of the
    given total length (measured maximum on the pinned tree is ~25 per char)."""
    return 20000 + 400 * total_len


def total_len(x, depth=0):
    if isinstance(x, (str, bytes)):
        return len(x)
    if isinstance(x, (list, tuple)) and depth < 6:
        return 4 + sum(total_len(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return 4 + sum(total_len(k) + total_len(v, depth + 1) for k, v in x.items())
    return 4


# ----------------------------------------------------------- monitor
class Mon:
    """Per-worker monitor state."""

    def __init__(self, pid, rng, cases, shard=0, nshard=1, tier="quick", cov=None):
        self.pid = pid
        self.rng = rng
        self.cases = cases
        self.shard, self.nshard, self.tier = shard, nshard, tier
        self.cov = cov
        self.evaluations = 0
        self.counts = {}
        self.features = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.known = {}
        self.cur = None
        self.corpus = []
        self.cut = False      # stopped before the end of its workload
        self.alarm = None     # shared by the workers: somebody saw a violation
        self.t0, self.seen = time.time(), None

    # -- counters / evidence
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def feature(self, *f):
        self.features.add(hash_feature(f))

    def _budget(self):
        """End the workload early when it takes far longer than planned (a
        slow machine, or a tree whose constants lead to long inputs), or when
        another worker has seen a violation a while ago."""
        now = time.time()
        if self.tier == "quick" and (now - self.t0 > QUICK_WALL or time.process_time() > QUICK_CPU):
            self.cut = True
            raise StopWork
        if self.alarm is not None and self.alarm.is_set():
            self.seen = self.seen or now
            if now - self.seen > ALARM_GRACE:
                self.cut = True
                raise StopWork

    # -- verdicts
    def violate(self, what, **detail):
        kind, args = self.cur
        self.violations.append({
            "property": self.pid, "kind": kind, "what": what,
            "case_repr": repr(args), "detail": {k: short(v) for k, v in detail.items()},
        })
        if self.alarm is not None:
            self.alarm.set()
        if len(self.violations) >= MAX_VIOL:
            raise StopWork

    def case(self, kind, *args):
        """Run one monitored execution."""
        self.evaluations += 1
        if self.evaluations % 32 == 0:
            self._budget()
        self.cur = (kind, args)
        _timers(CASE_CPU, CASE_WALL)
        try:
            self.cases[kind](self, *args)
        except HangSuspect:
            _timers(0, 0)
            self._confirm_hang(kind, args)
        except (StopWork, KeyboardInterrupt):
            raise
        except Exception as e:
            tb, inside = e.__traceback__, False
            while tb is not None:
                inside = inside or tb.tb_frame.f_code.co_filename.startswith(SRC)
                tb = tb.tb_next
            if not inside:
                raise
            _timers(0, 0)
            self.violate("unexpected exception escapes", exception=repr(e))
        finally:
            _timers(0, 0)
        if self.cov is not None and self.cov.take_fresh():
            self.count("cases_reaching_new_code")
            return True
        return False

    def _confirm_hang(self, kind, args):
        """Run the case again, counting interpreter steps: a step count beyond
        any plausible bound, or again no end within a CPU time some 100 times
        what the slowest case needs, is a violation."""
        bound = 50 * step_bound(total_len(args))
        t0 = time.process_time()
        _timers(HANG_CPU, CASE_WALL)
        try:
            with Steps(bound):
                self.cases[kind](self, *args)
        except StepLimit as e:
            _timers(0, 0)
            self.violate("does not terminate: %s interpreter steps exceed the bound %d" % (e, bound))
            raise StopWork
        except HangSuspect:
            _timers(0, 0)
            used = time.process_time() - t0
            if used > HANG_CPU * 0.9 and total_len(args) <= HANG_MAX_LEN:
                self.violate("does not terminate within %d s of CPU time" % HANG_CPU, input_size=total_len(args))
                raise StopWork
        self.inconclusive.append("slow case %s%s" % (kind, short(args)))


def _timers(cpu, wall):
    signal.setitimer(signal.ITIMER_PROF, cpu)
    signal.setitimer(signal.ITIMER_REAL, wall)


def hash_feature(f):
    return hashlib.blake2b(repr(f).encode("utf-8", "backslashreplace"), digest_size=8).digest()


def _on_alarm(sig, frame):
    raise HangSuspect


# ----------------------------------------------------------- observation
def observe(E, f, *a, **k):
    """('ok', value) | ('fail', exception) for the documented error family |
    ('exc', exception) for anything else."""
    try:
        return "ok", f(*a, **k)
    except E.URLParseError as e:
        return "fail", e
    except Exception as e:
        return "exc", e


def rec_tuple(r):
    """Snapshot of a public URLRecord."""
    p = r.path
    return (r.scheme, r.username, r.password,
            tuple(r.host) if isinstance(r.host, (list, tuple)) else r.host,
            r.port, tuple(p) if isinstance(p, list) else p, r.query, r.fragment)


def typed(h):
    return (type(h).__name__, h)


GETTERS = ("href", "origin", "protocol", "username", "password", "host",
           "hostname", "port", "pathname", "search", "hash")


def getters(u):
    return {k: getattr(u, k) for k in GETTERS}


# ----------------------------------------------------------- known findings
def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("fixed:") or line.startswith("#"):
                    continue
                d = json.loads(line)
                if d["property"] == pid:
                    out.append(d)
    return out


# ----------------------------------------------------------- runner
def _worker(check, seed, tier, shard, nshard, q, alarm=None):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except Exception:
        pass
    try:
        load()
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.signal(signal.SIGPROF, _on_alarm)
        rng = random.Random("%s/%s/%d/%d" % (check.ID, tier, seed, shard))
        cov = LineCov()
        m = Mon(check.ID, rng, check.CASES, shard, nshard, tier, cov)
        m.alarm = alarm
        err = None
        try:
            check.work(m)
        except StopWork:
            pass
        except HangSuspect:
            m.inconclusive.append("alarm outside a case")
        except BaseException:
            err = "while running %s%s\n%s" % (
                m.cur[0] if m.cur else None, short(m.cur[1]) if m.cur else "", traceback.format_exc())
        q.put({
            "shard": shard, "evaluations": m.evaluations, "counts": m.counts,
            "features": m.features, "samples": m.samples[:4], "violations": m.violations,
            "inconclusive": m.inconclusive, "lines": cov.lines, "error": err, "cut": m.cut,
        })
    except BaseException:
        q.put({"shard": shard, "evaluations": 0, "counts": {}, "features": set(), "samples": [],
               "violations": [], "inconclusive": [], "lines": set(), "error": traceback.format_exc(), "cut": False})


def executable_lines():
    n = 0
    for fn in sorted(os.listdir(PKG)):
        if not fn.endswith(".py"):
            continue
        with open(os.path.join(PKG, fn), encoding="utf-8") as f:
            code = compile(f.read(), fn, "exec")
        stack, seen = [code], set()
        while stack:
            c = stack.pop()
            seen.update(l for _, _, l in c.co_lines() if l)
            stack.extend(k for k in c.co_consts if hasattr(k, "co_lines"))
        n += len(seen)
    return n


def run_check(check, tier, seed, nworkers=None):
    t0 = time.time()
    pid = check.ID
    nshard = nworkers or int(os.environ.get("VERIF_WORKERS", "8"))
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    alarm = ctx.Event()
    procs = []
    for i in range(nshard):
        p = ctx.Process(target=_worker, args=(check, seed, tier, i, nshard, q, alarm), daemon=True)
        p.start()
        procs.append(p)
    results, missing = [], []
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    while len(results) < nshard:
        try:
            results.append(q.get(timeout=5))
        except Exception:
            dead = [p for p in procs if not p.is_alive()]
            if len(dead) == nshard and q.empty():
                missing.append("worker died: " + ",".join(str(p.exitcode) for p in dead))
                break
            if time.time() > deadline:
                missing.append("watchdog: %d of %d workers unfinished" % (nshard - len(results), nshard))
                break
            if any(p.exitcode not in (None, 0) for p in dead):
                # a worker was killed (memory): give the others a chance, then stop
                alive = [p for p in procs if p.is_alive()]
                if not alive:
                    break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
    if len(results) < nshard and not missing:
        missing.append("%d workers gave no result" % (nshard - len(results)))

    counts, feats, viol, incon, errors, samples, lines = {}, set(), [], list(missing), [], [], set()
    evals = 0
    cut = sum(r["cut"] for r in results)
    for r in sorted(results, key=lambda r: r["shard"]):
        evals += r["evaluations"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        feats |= r["features"]
        viol += r["violations"]
        incon += r["inconclusive"]
        lines |= r["lines"]
        if r["error"]:
            errors.append(r["error"])
        samples += r["samples"]

    known = load_known(pid)
    seen_known = {}
    fresh = []
    for v in viol:
        k = next((k for k in known if check.matches_known(k, v)), None) if known else None
        if k is not None:
            seen_known[k["id"]] = k
        else:
            fresh.append(v)
    for k in known:
        # a listed finding is re-observed on every run, by its own fixed input
        if k["id"] not in seen_known and check.reproduce_known(k):
            seen_known[k["id"]] = k
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    for name, minimum in getattr(check, "REQUIRED", {}).items():
        if counts.get(name, 0) < minimum and not fresh and not cut:
            incon.append("monitor %r observed %d events, needs %d" % (name, counts.get(name, 0), minimum))

    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": len(feats),
        "rule": check.RULE,
        "samples": samples[:12] or ["(none)"],
        "observed": dict(sorted(counts.items())),
        "lines_executed_in_urlstd": len(lines),
        "executable_lines_in_urlstd": executable_lines(),
        "workers": nshard,
        "workers_stopped_by_time_budget": cut,
        "inconclusive": incon[:10],
    }
    if hasattr(check, "extra_coverage"):
        coverage.update(check.extra_coverage(counts))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")

    print("%s %s seed=%d: %d monitored executions, %d distinct, %d/%d lines, %.1fs" % (
        pid, tier, seed, evals, len(feats), len(lines), coverage["executable_lines_in_urlstd"], ev["wall_s"]))
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for v in fresh:
            key = (v["kind"], v["what"])
            if key in shown:
                continue
            shown.add(key)
            name = "%s-%s.json" % (pid, hashlib.sha1((v["kind"] + v["case_repr"]).encode("utf-8", "backslashreplace")).hexdigest()[:12])
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=True)
            print("  %s: %s %s" % (v["kind"], v["what"], short(v["case_repr"], 300)))
            for k, d in v["detail"].items():
                print("      %s = %s" % (k, d))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            if len(shown) >= 8:
                break
        return 1
    if errors:
        print("CHECK ERROR\n" + errors[0], file=sys.stderr)
        return 3
    if incon:
        print("INCONCLUSIVE: " + "; ".join(incon[:5]), file=sys.stderr)
        return 2
    return 0


def replay(check, path):
    with open(path) as f:
        v = json.load(f)
    load()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    m = Mon(check.ID, random.Random(0), check.CASES)
    try:
        m.case(v["kind"], *ast.literal_eval(v["case_repr"]))
    except StopWork:
        pass
    for x in m.violations:
        print(json.dumps(x, indent=1))
    if m.violations:
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    print("no violation on replay")
    return 0
