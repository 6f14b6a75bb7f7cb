"""C12: the same design gives the same gear whatever happened before."""
import json
import os
import random
import subprocess
import sys
import tempfile
import threading
import time

import world as W
from core import VERIF, Check, HarnessError, Violation, diff, in_fork
from world import World, design, do_faulty, gen_fault, pick, rack_design
from checks.common import REAL, kind, mesh_op, move_op, simpler_specs


def run_script(ops):
    """Values of a design script; failures are values too."""
    w = World()
    out = []
    for op in ops:
        if not W.usable(w, op):
            out.append("unusable")
            continue
        out.append(list(do_faulty(w, op)))
    for k, o in w.objs.items():
        out.append(W.snap(o, 1))
    return out


def diff_script(a, b):
    if len(a) != len(b):
        return "different length"
    for n, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, list) and isinstance(y, list) and len(x) == 2 and len(y) == 2 \
                and isinstance(x[1], dict) and "verts" in x[1] and isinstance(y[1], dict) \
                and "verts" in y[1] and x[0] == y[0]:
            d = W.diff_parts(x[1], y[1], rel=1e-8)
        else:
            d = diff(x, y)
        if d:
            return f"step {n}: {d}"
    return None


class Clock:
    """The wall clock seen by the code under test jumps around."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.saved = {}
        self.t = 1.7e9
        self.reads = 0

    def __enter__(self):
        for n in ("time", "monotonic", "perf_counter", "process_time"):
            self.saved[n] = getattr(time, n)
            setattr(time, n, self.now)
        for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
            self.saved[n] = getattr(time, n)
            setattr(time, n, lambda: int(self.now() * 1e9))
        return self

    def now(self):
        self.reads += 1
        self.t += self.r.choice([1e-6, 0.5, 3600.0, -7200.0, 86400.0 * 30])
        return self.t

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)


def twin(rng, spec):
    """Almost the same design: one parameter differs."""
    s = json.loads(json.dumps(spec))
    a = s["args"]
    rack = kind(spec) == "rack"
    opts = ["number_of_teeth", "module", "height", "backlash"]
    if not rack:
        opts += ["angle", "center", "z_anchor", "addendum_coefficient", "dedendum_coefficient",
                 "tip_truncation"]
        if s["cls"] in ("SpurGear", "InvoluteGear", "HelicalGear"):
            opts += ["profile_shift", "crowning", "pressure_angle", "enable_undercut", "root_fillet",
                     "tip_fillet"]
        if s["cls"] == "CycloidGear":
            opts += ["inside_cycloid_coefficient", "outside_cycloid_coefficient", "crowning"]
        if s["cls"] in ("HelicalGear", "HelicalRingGear"):
            opts += ["helix_angle", "herringbone"]
        if s["cls"] == "BevelGear":
            opts += ["cone_angle", "helix_angle"]
        if s["cls"] == "SpurRingGear":
            opts += ["outside_ring_coefficient"]
    else:
        opts += ["pressure_angle", "offset", "root_fillet", "position"]
    k = pick(rng, *opts)
    if k == "number_of_teeth":
        a[k] = a.get(k, 16) + 1
    elif k in ("center", "position"):
        a[k] = W.rvec(rng)
    elif k in ("enable_undercut", "herringbone"):
        dflt = k == "enable_undercut"
        a[k] = not a.get(k, dflt)
    else:
        dflt = {"module": 1.0, "height": 1.0, "addendum_coefficient": 1.0,
                "dedendum_coefficient": 1.2, "tip_truncation": 0.1, "pressure_angle": 0.349,
                "inside_cycloid_coefficient": 0.5, "outside_cycloid_coefficient": 0.5,
                "helix_angle": 0.5, "outside_ring_coefficient": 2.5, "cone_angle": 1.3}
        delta = {"module": 0.5, "height": 0.5, "angle": 0.3, "z_anchor": 0.25, "profile_shift": 0.1,
                 "crowning": 15.0, "helix_angle": -0.1, "offset": 0.3, "root_fillet": 0.08,
                 "tip_fillet": 0.04, "backlash": 0.01, "inside_cycloid_coefficient": -0.1,
                 "outside_cycloid_coefficient": -0.1, "pressure_angle": 0.04,
                 "outside_ring_coefficient": 0.3, "addendum_coefficient": -0.05,
                 "dedendum_coefficient": 0.05, "tip_truncation": 0.03, "cone_angle": 0.1}
        a[k] = round(a.get(k, dflt.get(k, 0)) + delta[k], 6)
    return s


class C12(Check):
    id = "C12"
    runs = {"quick": 200, "thorough": 5000}
    real = REAL
    stubs = ["wall clock (jumps forwards and backwards at every read)",
             "random state of random and numpy.random (scrambled)",
             "failures of calls made by the package are injected as exceptions before the call"]
    sim_time = "clock reads by the package, if any, jump by up to 30 days; see probes clock_reads"
    rule = ("Each run is a design script (create one or two gears or a rack, mesh, read dimensions, "
            "outline, boundary, build) whose results in a pristine process are the reference; the "
            "same script is then run again after a history of other work: near twins differing in "
            "one parameter, copies, failed builds, discarded gears, with a jumping clock, scrambled "
            "random state, optionally in a worker thread, and repeated; every 25th run uses fresh "
            "interpreters with other hash seeds instead. Non-trivial: the script produced at least "
            "three successful results and the history at least two operations.")

    def setup(self):
        W.load()

    def script(self, rng, pfx="s", build=0.35):
        if rng.random() < 0.1:
            s = rack_design(rng)
        else:
            s = design(rng)
        fam = s.pop("fam")
        ops = [{"op": "new", "id": pfx + "a", "spec": s}]
        conic = fam in ("bevel", "cyccone")
        s2 = None
        if rng.random() < 0.5:
            s2 = design(rng, fam if fam != "rack" else "spur") if rng.random() < 0.5 else \
                W.mate(rng, s)
            s2.pop("fam")
            ops.append({"op": "new", "id": pfx + "b", "spec": s2})
            for _ in range(rng.randint(0, 2)):
                ops.append(move_op(rng, pfx + "b", []))
            m = mesh_op(rng, pfx + "a", pfx + "b", s, s2)
            ops.append(m)
            if kind(s) == "cyc" and rng.random() < 0.5:
                ops.append({"op": "adapt", "g": pfx + "a", "o": pfx + "b"})
        if kind(s) != "rack":
            for _ in range(rng.randint(2, 5)):
                ops.append({"op": "read", "g": pfx + "a", "name": pick(rng, *W.READS)})
            ops.append({"op": "read", "g": pfx + "a", "name": pick(rng, "profile", "profile", "wire0")})
        if rng.random() < (build if not conic else build / 4) or fam == "rack":
            ops.append({"op": pick(rng, "build", "update"), "g": pfx + "a"})
        return ops

    def gen(self, rng, tier, i):
        if i % 25 == 7:
            return {"mode": "process", "hashseed": rng.randrange(1, 10 ** 6),
                    "ops": [], "_lists": ["scripts"],
                    "scripts": [self.script(rng, f"s{k}", 0.25) for k in range(4)]}
        script = self.script(rng)
        hist = []
        specs = [o["spec"] for o in script if o["op"] == "new"]
        n = rng.randint(2, 7)
        ids = []
        build_budget = 2 if any(o["op"] in ("build", "update") for o in script) else 1
        for k in range(n):
            r = rng.random()
            if r < 0.6 or not ids:
                base = pick(rng, *specs)
                s = twin(rng, base) if rng.random() < 0.75 else (
                    json.loads(json.dumps(base)) if rng.random() < 0.5 else
                    {q: v for q, v in design(rng).items() if q != "fam"})
                g = f"h{k}"
                hist.append({"op": "new", "id": g, "spec": s})
                ids.append((g, s))
                mesh = [o for o in script if o["op"] == "mesh"]
                if mesh and rng.random() < 0.6:
                    # a pair like the script's, one of them a little different
                    s2 = json.loads(json.dumps(specs[1] if base is specs[0] else specs[0]))
                    hist.append({"op": "new", "id": g + "p", "spec": s2})
                    m = dict(mesh[0])
                    m["g"], m["o"] = (g, g + "p") if base is specs[0] else (g + "p", g)
                    hist.append(m)
                # use it the same way as the script does
                for o in script:
                    if o.get("g") == "sa" and o["op"] == "read" and kind(s) != "rack":
                        hist.append({"op": "read", "g": g, "name": o["name"]})
                    elif o["op"] in ("build", "update") and o.get("g") == "sa" and build_budget > 0 \
                            and s["cls"] != "BevelGear" and rng.random() < 0.6:
                        build_budget -= 1
                        b = {"op": o["op"], "g": g}
                        if rng.random() < 0.3:
                            b["fault"] = gen_fault(rng)
                        hist.append(b)
            elif r < 0.7:
                g, s = pick(rng, *ids)
                hist.append(move_op(rng, g, [x for x, _ in ids]))
            elif r < 0.8:
                g, s = pick(rng, *ids)
                ps = [(o, so) for o, so in ids if o != g and kind(so) == kind(s) and kind(s) != "rack"]
                if ps:
                    o, so = pick(rng, *ps)
                    hist.append({"op": "mesh", "g": g, "o": o, "dir": W.rdir_xy(rng)})
                    if rng.random() < 0.3:
                        hist[-1]["fault"] = gen_fault(rng)
            elif r < 0.9:
                g, s = ids.pop(rng.randrange(len(ids)))
                hist.append({"op": "discard", "g": g})
            else:
                g, s = pick(rng, *ids)
                hist.append({"op": "copy", "g": g, "id": f"h{k}"})
                ids.append((f"h{k}", s))
        if rng.random() < 0.35:
            b = [s for s in specs if kind(s) != "rack"]
            if b:
                base = pick(rng, *b)
                ch = {"op": "churn", "n": pick(rng, 8, 16, 30), "gc": rng.random() < 0.5,
                      "specs": [twin(rng, base) for _ in range(2)]
                      + [dict(base, args=dict(base["args"], number_of_teeth=base["args"][
                          "number_of_teeth"] + 2))],
                      "reads": [pick(rng, *W.CHEAP_READS) for _ in range(2)]
                      + [o["name"] for o in script if o["op"] == "read" and o["name"] in W.CHEAP_READS]}
                if rng.random() < 0.3:
                    ch["hold"] = rng.randint(1, 4)
                hist.append(ch)
        return {"mode": "history", "script": script, "ops": hist,
                "env": {"clock": rng.random() < 0.5, "rand": rng.random() < 0.5,
                        "thread": rng.random() < 0.3, "twice": rng.random() < 0.3,
                        "keep": rng.random() < 0.5, "seed": rng.randrange(10 ** 6)},
                "_lists": ["ops", "script"]}

    def signature(self, sc):
        return [sc.get("script") or sc.get("scripts"), len(sc["ops"]), sc.get("env")]

    def execute(self, sc, st):
        if sc["mode"] == "process":
            return self.execute_process(sc, st)
        script = sc["script"]
        ref = in_fork(lambda: run_script(script))
        w = World(st)
        done = 0
        for op in sc["ops"]:
            if W.usable(w, op):
                do_faulty(w, op, st)
                done += 1
        env = sc["env"]
        if not env["keep"]:
            w = None
            import gc
            gc.collect()
        if env["rand"]:
            random.seed(env["seed"])
            W.np.random.seed(env["seed"] % 2 ** 31)
            st.inc("fault:random_state")
        box = {}

        def body():
            if env["clock"]:
                with Clock(env["seed"]) as c:
                    box["v"] = run_script(script)
                    if env["twice"]:
                        box["v2"] = run_script(script)
                st.inc("probe:clock_reads", c.reads)
                st.inc("fault:clock_jumps")
            else:
                box["v"] = run_script(script)
                if env["twice"]:
                    box["v2"] = run_script(script)

        if env["thread"]:
            t = threading.Thread(target=body)
            t.start()
            t.join()
            st.inc("probe:worker_thread")
        else:
            body()
        if "v" not in box:
            raise Violation("differs", "the script failed in a thread")
        for k in ("v", "v2"):
            if k in box:
                st.inc("cmp", len(ref))
                d = diff_script(ref, box[k])
                if d:
                    raise Violation("history-dependent",
                                    f"the design gives another result after the history: {d}")
        ok = sum(1 for x in ref if isinstance(x, list) and x and x[0] == "ok")
        if ok >= 3 and done >= 2:
            st.inc("nontrivial")

    def execute_process(self, sc, st):
        ref = [in_fork(lambda: run_script(s)) for s in sc["scripts"]]
        for hs in (sc["hashseed"], "random"):
            with tempfile.TemporaryDirectory() as d:
                job = os.path.join(d, "job.json")
                with open(job, "w") as f:
                    json.dump(sc["scripts"], f)
                env = dict(os.environ)
                env["SIM_HASHSEED"] = str(hs)
                env["PYTHONHASHSEED"] = str(hs)
                env["TZ"] = "Pacific/Kiritimati"
                env["LC_ALL"] = "C"
                code = ("import sys,json,pickle;sys.path.insert(0,sys.argv[1]);"
                        "import world as W;W.load();from checks.repro import run_script;"
                        "S=json.load(open(sys.argv[2]));"
                        "pickle.dump([run_script(s) for s in S],open(sys.argv[3],'wb'))")
                out = os.path.join(d, "out.pkl")
                p = subprocess.run([sys.executable, "-c", code, os.path.join(VERIF, "sim"), job, out],
                                   env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True)
                if p.returncode != 0:
                    raise HarnessError(p.stdout[-2000:])
                import pickle
                with open(out, "rb") as f:
                    vals = pickle.load(f)
            st.inc("fault:fresh_process_other_hashseed")
            for k, (a, b) in enumerate(zip(ref, vals)):
                st.inc("cmp", len(a))
                d = diff_script(a, b)
                if d:
                    raise Violation("process-dependent", f"script {k} differs in a fresh process "
                                    f"(hash seed {hs}): {d}")
        st.inc("nontrivial")

    def simpler(self, sc):
        if sc["mode"] == "history":
            for k in ("clock", "rand", "thread", "twice"):
                if sc["env"][k]:
                    c = json.loads(json.dumps(sc))
                    c["env"][k] = False
                    yield c
            yield from simpler_specs(sc, "ops")
