"""Simulation core: seeded runs in forked children, fault traces, minimisation,
replay files and evidence.

One integer (VERIF_SEED) decides everything.  Run number i of property P draws every
choice from random.Random(f"{seed}:{P}:{i}"), produces a JSON scenario, and executes it in
a child forked from a pristine "zygote" (a process that has imported the code under test
and done nothing else), so no run sees what another left behind.
"""
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

REPO = os.environ.get("GGG_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STALL_NESTED = 12.0   # seconds without any CPU use before a child counts as stuck
STALL_TOP = 30.0
RUN_WALL = 240.0      # wall limit of one run


class Violation(Exception):
    """The property is broken.  cls names the kind (kept while minimising)."""

    def __init__(self, cls, detail):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the property."""


# ------------------------------------------------------------------ forked execution
def _tree_cpu(pid):
    """(cpu ticks, any running) over pid and its descendants."""
    ticks, running = 0, False
    todo = [pid]
    while todo:
        p = todo.pop()
        try:
            with open(f"/proc/{p}/stat") as f:
                s = f.read()
            rest = s[s.rindex(")") + 2:].split()
            ticks += int(rest[11]) + int(rest[12])
            if rest[0] in "RD":
                running = True
            for tid in os.listdir(f"/proc/{p}/task"):
                try:
                    with open(f"/proc/{p}/task/{tid}/children") as f:
                        todo.extend(int(x) for x in f.read().split())
                except OSError:
                    pass
        except (OSError, ValueError):
            pass
    return ticks, running


def run_forked(fn, stall=STALL_NESTED, wall=RUN_WALL, new_group=False):
    """Run fn() in a forked child.  Returns (status, value):
    ("ok", result) | ("exc", text) | ("violation", (cls, detail)) |
    ("stall", secs) | ("wall", secs) | ("crash", signal or exit code)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if new_group:
                os.setpgid(0, 0)
            try:
                out = ("ok", fn())
            except Violation as v:
                out = ("violation", (v.cls, v.detail))
            except BaseException:
                out = ("exc", traceback.format_exc())
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    t0 = time.monotonic()
    last_progress = t0
    last_ticks = -1
    why = None
    try:
        while True:
            ready, _, _ = select.select([r], [], [], 1.0)
            if ready:
                chunk = os.read(r, 1 << 20)
                if not chunk:
                    break
                buf += chunk
                continue
            now = time.monotonic()
            ticks, running = _tree_cpu(pid)
            if running or ticks > last_ticks + 1:
                last_progress = now
                last_ticks = ticks
            if now - last_progress > stall:
                why = ("stall", round(now - last_progress))
                break
            if now - t0 > wall:
                why = ("wall", round(now - t0))
                break
    finally:
        os.close(r)
        if why is not None:
            try:
                if new_group:
                    os.killpg(pid, signal.SIGKILL)
                else:
                    os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
    if why is not None:
        return why
    if os.WIFSIGNALED(st):
        return ("crash", os.WTERMSIG(st))
    if os.WEXITSTATUS(st) != 0 or not buf:
        return ("crash", -os.WEXITSTATUS(st))
    return pickle.loads(bytes(buf))


def in_fork(fn, stall=STALL_NESTED):
    """Value of fn() computed in a fork of the current state (which stays untouched)."""
    st, val = run_forked(fn, stall=stall)
    if st == "ok":
        return val
    if st == "violation":
        raise Violation(*val)
    if st in ("stall", "wall"):
        raise Violation("hang", f"an operation never returned ({st}, {val} s)")
    if st == "crash":
        raise Violation("process-died", f"process died during an operation ({val})")
    raise HarnessError("reference run failed:\n" + val)


# ------------------------------------------------------------------ comparing values
def diff(a, b, rtol=1e-9, atol=1e-9, path=""):
    """First difference between two plain values (None if equal within tolerance)."""
    import numpy as np

    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a_, b_ = np.asarray(a), np.asarray(b)
        except Exception:
            return f"{path}: {short(a)} vs {short(b)}"
        if a_.shape != b_.shape:
            return f"{path}: shape {a_.shape} vs {b_.shape}"
        if a_.dtype.kind in "fiubc" and b_.dtype.kind in "fiubc":
            ok = np.isclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True)
            if ok.all():
                return None
            i = tuple(int(k) for k in np.argwhere(~ok)[0])
            return f"{path}{list(i)}: {a_[i]!r} vs {b_[i]!r}"
        return None if a_.tolist() == b_.tolist() else f"{path}: {short(a)} vs {short(b)}"
    if isinstance(a, bool) or isinstance(b, bool):
        return None if bool(a) == bool(b) and type(a) in (bool, int, float) and type(b) in (
            bool, int, float) else f"{path}: {a!r} vs {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return f"{path}: {a!r} vs {b!r}"
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(map(str, set(a) ^ set(b)))}"
        for k in a:
            d = diff(a[k], b[k], rtol, atol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if type(a) == type(b) and a == b else f"{path}: {short(a)} vs {short(b)}"


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


class Stats:
    """What a run covered: counters and sets of hashes."""

    def __init__(self):
        self.n = {}
        self.sets = {}

    def inc(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def add(self, k, item):
        h = hashlib.blake2b(json.dumps(item, sort_keys=True, default=str).encode(),
                            digest_size=8).hexdigest()
        self.sets.setdefault(k, set()).add(h)

    def merge(self, other):
        for k, v in other.n.items():
            self.inc(k, v)
        for k, s in other.sets.items():
            self.sets.setdefault(k, set()).update(s)


# ------------------------------------------------------------------ running scenarios
class Check:
    """One property.  Subclasses define gen(rng, tier, i) -> scenario (JSON) and
    execute(scenario, stats) (raises Violation; may make abstract faults concrete in the
    scenario it was given)."""

    id = None
    level = "exploration"
    runs = {"quick": 100, "thorough": 1000}
    rule = ""
    real = []
    stubs = []
    assumptions = []

    def setup(self):
        pass

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def execute(self, sc, stats):
        raise NotImplementedError

    def simpler(self, sc):
        """Candidate simplifications of a failing scenario (beyond dropping ops)."""
        return []

    def signature(self, sc):
        return sc


def execute_isolated(check, sc):
    """Execute a scenario in a fresh child; returns dict(status, violation, sc, stats)."""

    def job():
        sc2 = json.loads(json.dumps(sc))
        stats = Stats()
        t = time.process_time()
        try:
            check.execute(sc2, stats)
            v = None
        except Violation as e:
            v = (e.cls, e.detail)
        return {"violation": v, "sc": sc2, "stats": stats, "cpu": time.process_time() - t}

    st, val = run_forked(job, stall=STALL_TOP, new_group=True)
    if st == "ok":
        val["status"] = "ok"
        return val
    if st in ("stall", "wall"):
        return {"status": st, "violation": ("hang", f"the run never finished ({st} {val} s)"),
                "sc": sc, "stats": Stats(), "cpu": 0}
    if st == "crash":
        return {"status": st, "violation": ("process-died", f"the process died ({val})"),
                "sc": sc, "stats": Stats(), "cpu": 0}
    return {"status": "harness", "violation": None, "error": val, "sc": sc, "stats": Stats(),
            "cpu": 0}


def make_scenario(check, seed, tier, i):
    rng = random.Random(f"{seed}:{check.id}:{i}")
    sc = check.gen(rng, tier, i)
    sc = json.loads(json.dumps(sc))
    sc["property"] = check.id
    sc["seed"] = seed
    sc["run"] = i
    return sc


def run_batch(check, seed, tier, n_runs, workers, deadline, stop_on_violation=True):
    """Run scenarios 0..n_runs-1 on worker processes."""
    task_r, task_w = os.pipe()
    res = []
    pids = []
    gc.collect()
    gc.freeze()
    for k in range(workers):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(task_w)
                for rr, _ in res:
                    os.close(rr)
                out = os.fdopen(w, "wb")
                while True:
                    b = os.read(task_r, 4)
                    if len(b) < 4:
                        break
                    i = struct.unpack("<I", b)[0]
                    try:
                        sc = make_scenario(check, seed, tier, i)
                        rec = execute_isolated(check, sc)
                    except BaseException:
                        rec = {"status": "harness", "violation": None,
                               "error": traceback.format_exc(), "sc": None,
                               "stats": Stats(), "cpu": 0}
                    data = pickle.dumps((i, rec))
                    out.write(struct.pack("<I", len(data)) + data)
                    out.flush()
                out.close()
            finally:
                os._exit(0)
        os.close(w)
        res.append((r, pid))
        pids.append(pid)
    os.close(task_r)
    results = {}
    bufs = {r: bytearray() for r, _ in res}
    open_r = set(bufs)
    nxt = 0
    stop = False
    late = False
    inflight = 0
    n_bad = 0
    # keep a small number of tasks queued, so that we can stop early
    while open_r:
        while nxt < n_runs and inflight < workers * 2 and not stop:
            os.write(task_w, struct.pack("<I", nxt))
            nxt += 1
            inflight += 1
        if (nxt >= n_runs or stop) and task_w is not None:
            os.close(task_w)
            task_w = None
        ready, _, _ = select.select(list(open_r), [], [], 1.0)
        if time.monotonic() > deadline and not stop:
            stop = True
            late = True
        if late and time.monotonic() > deadline + 120:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                open_r.discard(r)
                os.close(r)
                continue
            b = bufs[r]
            b += chunk
            while len(b) >= 4:
                ln = struct.unpack("<I", b[:4])[0]
                if len(b) < 4 + ln:
                    break
                i, rec = pickle.loads(bytes(b[4:4 + ln]))
                del b[:4 + ln]
                inflight -= 1
                results[i] = rec
                if rec.get("violation"):
                    n_bad += 1
                    if stop_on_violation and n_bad >= 1:
                        stop = True
                if rec["status"] == "harness":
                    n_bad += 1
                    if n_bad >= 3:
                        stop = True
    for p in pids:
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    return results, late


# ------------------------------------------------------------------ minimisation
def _fails_same(check, sc, cls):
    rec = execute_isolated(check, sc)
    if rec.get("violation") and rec["violation"][0] == cls:
        return rec
    return None


def minimise(check, sc, cls, budget_s=90.0, max_tries=150):
    """Greedy ddmin over every list named in sc['_lists'] (default: ops), then the
    check's own simplifications."""
    t_end = time.monotonic() + budget_s
    tries = 0
    best = sc

    def attempt(cand):
        nonlocal tries, best
        if tries >= max_tries or time.monotonic() > t_end:
            return False
        tries += 1
        try:
            rec = _fails_same(check, cand, cls)
        except Exception:
            return False
        if rec:
            best = rec["sc"]
            return True
        return False

    progress = True
    while progress and tries < max_tries and time.monotonic() < t_end:
        progress = False
        for name in best.get("_lists", ["ops"]):
            items = best.get(name)
            if not items:
                continue
            size = max(1, len(items) // 2)
            while size >= 1:
                k = 0
                while k < len(best[name]):
                    cand = json.loads(json.dumps(best))
                    del cand[name][k:k + size]
                    if attempt(cand):
                        progress = True
                    else:
                        k += size
                    if tries >= max_tries or time.monotonic() > t_end:
                        break
                size //= 2
        for cand in check.simpler(best):
            if attempt(json.loads(json.dumps(cand))):
                progress = True
            if tries >= max_tries or time.monotonic() > t_end:
                break
    return best, tries


def known_findings():
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    try:
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    d = {}
                    for tok in line[len("finding:"):].split():
                        if "=" in tok:
                            k, v = tok.split("=", 1)
                            d.setdefault(k, v)
                    d["text"] = line
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def write_evidence(check, tier, seed, results, wall, violations, extra=None):
    total = Stats()
    sigs = set()
    nontriv = 0
    for i, rec in sorted(results.items()):
        total.merge(rec["stats"])
        if rec["sc"] is not None and rec["stats"].n.get("nontrivial"):
            h = hashlib.blake2b(
                json.dumps(check.signature(rec["sc"]), sort_keys=True, default=str).encode(),
                digest_size=8).hexdigest()
            if h not in sigs:
                sigs.add(h)
                nontriv += 1
    n = len(results)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": nontriv,
        "rule": check.rule,
        "samples": [results[i]["sc"] for i in sorted(results)[:2] if results[i]["sc"]],
        "runs_per_hour": round(n / max(wall, 1e-6) * 3600),
        "seeds_per_hour": round(n / max(wall, 1e-6) * 3600),
        "cpu_s": round(sum(r["cpu"] for r in results.values()), 1),
        "simulated_time": getattr(check, "sim_time", None) or
        "none: the code under test has no clocks or timers; progress is counted in operations",
        "faults_fired": {k[6:]: v for k, v in sorted(total.n.items()) if k.startswith("fault:")},
        "operations": {k[3:]: v for k, v in sorted(total.n.items()) if k.startswith("op:")},
        "probes": {k[6:]: v for k, v in sorted(total.n.items()) if k.startswith("probe:")},
        "oracle_comparisons": total.n.get("cmp", 0),
        "distinct": {k: len(s) for k, s in sorted(total.sets.items())},
        "real_code": check.real,
        "stubs": check.stubs,
    }
    if extra:
        cov.update(extra)
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level,
          "coverage": cov, "assumptions": check.assumptions, "wall_s": round(wall, 2),
          "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{check.id}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, path)
    return cov


def main_check(check, tier, seed, workers, n_runs=None, stop=True):
    t0 = time.monotonic()
    deadline = t0 + (720 if tier == "quick" else 6 * 3600)
    n = n_runs or check.runs[tier]
    print(f"property {check.id}: seed={seed} tier={tier} runs={n} workers={workers}", flush=True)
    results, late = run_batch(check, seed, tier, n, workers, deadline, stop)
    errors = [(i, r) for i, r in sorted(results.items()) if r["status"] == "harness"]
    bad = [(i, r) for i, r in sorted(results.items()) if r.get("violation")]
    known = [k for k in known_findings() if k.get("property") == check.id]
    for k in known:
        print(f"KNOWN-FINDING: property={check.id} {k['text']}")
    if bad:
        # a stuck or dead child must show again before it is believed
        for i, r in bad:
            if r["status"] in ("stall", "wall", "crash"):
                again = execute_isolated(check, r["sc"])
                if not again.get("violation"):
                    print(f"note: run {i} ended with {r['status']} once and not again",
                          flush=True)
                    r["violation"] = None
        bad = [(i, r) for i, r in bad if r["violation"]]
    wall = time.monotonic() - t0
    if bad:
        i, r = bad[0]
        path, ok = report(check, seed, i, r)
        write_evidence(check, tier, seed, results, time.monotonic() - t0, len(bad))
        print(f"VIOLATION property={check.id} replay={path}", flush=True)
        return 1
    cov = write_evidence(check, tier, seed, results, wall, 0)
    if errors:
        print(f"HARNESS ERROR in {len(errors)} runs; first (run {errors[0][0]}):\n"
              f"{errors[0][1].get('error')}", flush=True)
        return 2
    if late or len(results) < n:
        print(f"INCOMPLETE: {len(results)} of {n} runs before the deadline", flush=True)
        return 3
    print(f"ok: {len(results)} runs, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"faults {cov['faults_fired']}, {wall:.1f} s", flush=True)
    return 0


def report(check, seed, i, rec):
    cls, detail = rec["violation"]
    print(f"run {i}: {cls}: {detail}", flush=True)
    sc = rec["sc"]
    hang = rec["status"] in ("stall", "wall")
    small, tries = minimise(check, sc, cls, budget_s=60 if not hang else 40)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{check.id}-seed{seed}-run{i}.json")

    def write(s):
        fin = execute_isolated(check, s)
        v = fin.get("violation") or (cls, detail)
        doc = {"property": check.id, "violation": {"class": v[0], "detail": v[1]},
               "minimisation_runs": tries, "scenario": s}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1, default=str)

    def replay():
        env = dict(os.environ)
        env.pop("GGG_NO_REEXEC", None)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "sim", "run.py"), "replay", path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        return p.returncode == 1, p.stdout

    ok = False
    for cand in ([small, sc] if small is not sc else [sc]):
        write(cand)
        for _ in range(2):
            ok, out = replay()
            if ok:
                break
        if ok:
            break
    print(f"minimised after {tries} executions; replay in a fresh process "
          f"{'reproduces the violation' if ok else 'did NOT reproduce the violation'}")
    with open(path) as f:
        doc = json.load(f)
    print("scenario: " + short(doc["scenario"], 2000))
    print(f"{doc['violation']['class']}: {doc['violation']['detail']}", flush=True)
    return path, ok
