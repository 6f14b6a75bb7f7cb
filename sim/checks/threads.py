"""C05 (independent gears in threads) and C06 (one gear shared by threads)."""
import json
import random

import inject
import world as W
from core import Check, Violation, diff, in_fork
from world import World, design, do_faulty, pick, rack_design, snap, usable
from checks.common import REAL, kind, mesh_op, move_op, simpler_specs

SCHED = 3       # schedules per set of scripts
HOT = 40        # occurrences of a hot line used
EXACT = dict(rtol=1e-12, atol=1e-12)
SMALL = {"ring": (12, 14), "cycring": (12, 14), "helring": (14, 16), "bevel": (8, 9)}


def small_design(rng, fam):
    lo, hi = SMALL.get(fam, (6, 9))
    s = design(rng, fam, teeth=rng.randint(lo, hi))
    if s["args"].get("inside_teeth") and fam == "involute":
        s["args"]["number_of_teeth"] = rng.randint(14, 16)
    s.pop("fam")
    return s


def small_mate(rng, s):
    m = W.mate(rng, s)
    lo, hi = SMALL.get(m.pop("fam"), (6, 9))
    if m["args"].get("inside_teeth"):
        lo, hi = 14, 16
    n = m["args"]["number_of_teeth"]
    m["args"]["number_of_teeth"] = (-1 if n < 0 else 1) * min(max(abs(n), lo), hi)
    return m


def watch_rounds(w, ops):
    """Repeat the same operations, handing control back to thread 0 after each round, until
    that one has finished; the results of the rounds."""
    out = []
    while True:
        out.append(run_ops(w, ops))
        if not inject.hand_over(0):
            return out


def run_ops(w, ops):
    out = []
    for op in ops:
        if not usable(w, op):
            out.append("unusable")
            continue
        out.append(list(do_faulty(w, op)))
    return out


def diff_results(a, b):
    if len(a) != len(b):
        return "different number of results"
    for n, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, list) and isinstance(y, list) and x[0] == y[0] == "ok" \
                and isinstance(x[1], dict) and "faces" in x[1] and isinstance(y[1], dict) \
                and "faces" in y[1]:
            d = W.diff_parts(x[1], y[1])
        else:
            d = diff(x, y)
        if d:
            return f"step {n}: {d}"
    return None


class Threads(Check):
    real = REAL
    stubs = ["thread scheduling: real threads, but only one runs at a time and control changes hands "
             "only at the source lines of the package the schedule names",
             "locks created by the package (a blocked thread hands control on)",
             "failures of calls made by the package are injected as exceptions before the call"]

    def setup(self):
        W.load()

    def signature(self, sc):
        return [sc.get("pre"), sc["threads"], sc.get("schedules") or sc.get("switches"), sc.get("fault")]

    def simpler(self, sc):
        for t in range(len(sc["threads"])):
            for i in range(len(sc["threads"][t]) - 1, -1, -1):
                c = json.loads(json.dumps(sc))
                del c["threads"][t][i]
                yield c
        if sc.get("fault"):
            c = json.loads(json.dumps(sc))
            c["fault"] = None
            yield c

    def gen_schedule(self, rng, n, k):
        """k-th schedule of a run: single switches at chosen lines, every occurrence of a few
        chosen lines ("hot"), or switches anywhere ("dense")."""
        if k % 3 == 0:
            return self.gen_switches(rng, n)
        return {"mode": "hot" if k % 3 == 1 else "dense", "seed": rng.randrange(1 << 30),
                "m": pick(rng, 3, 6, 12) if k % 3 == 1 else pick(rng, 30, 80, 200)}

    def points_for(self, rec, sch, i, t, n, common=()):
        """Concrete switch points [[event number, to]] of thread t for an abstract schedule."""
        if isinstance(sch, list):
            return [[inject.choose_point(rec, x[1], x[2]), x[3]] for x in sch if x[0] == t]
        r = random.Random(f"{sch['seed']}:{t}")
        if sch["mode"] == "watch":
            if t != 0:
                return []
            occ = {}
            for k, s in enumerate(rec.sites, 1):
                occ.setdefault(s, []).append(k)
            # by line, by function, and by function the other thread executes as well
            fns, both = {}, {}
            for s in sorted(occ):
                c = rec.names[s][0]
                q = f"{c.co_filename}:{c.co_qualname}"
                fns.setdefault(q, []).append(s)
                if q in common:
                    both.setdefault(q, []).append(s)
            lines = sorted(occ)
            ks = set()
            for _ in range(3 * sch["m"]):
                if len(ks) >= min(sch["m"], len(rec.sites)):
                    break
                d = r.choice([None, fns, both, both])
                s = r.choice(d[r.choice(sorted(d))] if d else lines)
                u = r.random()
                ks.add(occ[s][0 if u < 0.3 else -1 if u < 0.5 else r.randrange(len(occ[s]))])
            return [[k, 1] for k in sorted(ks)]
        others = [x for x in range(n) if x != t]
        if sch["mode"] == "dense":
            ks = sorted(r.sample(range(1, len(rec.sites) + 1), min(sch["m"], len(rec.sites))))
        else:
            occ = {}
            for k, s in enumerate(rec.sites, 1):
                occ.setdefault(s, []).append(k)
            ks = []
            for s in r.sample(sorted(occ), min(sch["m"], len(occ))):
                o = occ[s]
                ks += o if len(o) <= HOT else o[:HOT // 2] + r.sample(o[HOT // 2:], HOT // 2)
            ks.sort()
        return [[k, r.choice(others)] for k in ks]

    def gen_switches(self, rng, n):
        m = pick(rng, 1, 1, 2, 2, 3, 4, 6, 10, 20)
        out = []
        for _ in range(m):
            t = rng.randrange(n)
            to = pick(rng, *[x for x in range(n) if x != t])
            out.append([t, round(rng.random(), 6), round(rng.random(), 6), to])
        if all(s[0] != 0 for s in out):
            out[0][0], out[0][3] = 0, 1
        return out

    def watch(self, rng, sc, conic=False, k=2):
        """Thread 0 works; the other thread does the same round of operations each time
        thread 0 is stopped, which is at up to m lines per schedule."""
        cost = 3
        for op in sc["threads"][1]:
            if op["op"] == "read":
                cost += 1 if op["name"] in W.CHEAP_READS else 60 * (3 if conic else 1)
            else:
                cost += {"mesh": 25, "view": 12, "build": 600, "update": 70, "new": 1, "copy": 2,
                         "adapt": 5}.get(op["op"], 1)
        m = max(4, min(90, 1600 // cost))
        sc["watch"] = True
        sc["fault"] = None
        sc["schedules_u"] = [{"mode": "watch", "seed": rng.randrange(1 << 30), "m": m}
                             for _ in range(k)]
        return sc

    def scripts(self, sc):
        """[(function, world)] per thread; called in each process that runs them."""
        raise NotImplementedError

    def execute(self, sc, st):
        self.prepare(sc, st)
        n = len(sc["threads"])
        fault = sc.get("fault")

        def solo(t, common=()):
            def job():
                fl = None
                if fault and fault["t"] == t:
                    fl = {0: self.fault_arg(fault)}
                s = inject.Scheduler([], fl, record=True)
                r = s.run([self.script(sc, t, True)])[0]
                rec = s.recorded()
                ks = [self.points_for(rec, sch, i, t, n, common)
                      for i, sch in enumerate(sc.get("schedules_u", []))]
                fns = {f"{c.co_filename}:{c.co_qualname}" for c, _ in rec.names} \
                    if sc.get("watch") else ()
                return r, ks, len(rec.sites), sorted(fns)
            return in_fork(job)

        if fault and "n" not in fault:
            def count():
                s = inject.Scheduler([], {0: {"flt": None, "n": 0, "target": -1, "exc": "ValueError",
                                              "record": []}})
                s.run([self.script(sc, fault["t"], True)])
                rec = inject.Recorded(s.faults[0]["record"])
                return inject.choose_point(rec, *fault["u"])
            fault["n"] = in_fork(count) or 0
        refs, points = [None] * n, [[] for _ in sc.get("schedules_u", [])]
        fns = ()
        for t in (range(n) if not sc.get("watch") else (1, 0)):
            r, ks, ev, fns = solo(t, fns)
            refs[t] = r
            for i, pts in enumerate(ks):
                points[i] += [[t, k, to] for k, to in pts if k]
            st.inc("probe:line_events", ev)
        for t, r in enumerate(refs):
            if r[0] != "ok":
                raise Violation("solo-failed", f"thread {t} alone: {r}")
        if "schedules_u" in sc:
            del sc["schedules_u"]
            sc["schedules"] = points
        schedules = sc.get("schedules") or [sc["switches"]]
        for sch in schedules:
            vio, log, fired = in_fork(lambda: self.run_schedule(sc, sch, refs))
            st.inc("probe:schedules")
            st.inc("fault:thread_switch", len(log))
            st.add("interleavings", log)
            for x in set(log):
                st.add("switch_sites", x[1])
            if fired:
                st.inc(f"fault:call:{fault['exc']}")
            for t in range(n):
                st.inc("cmp", len(sc["threads"][t]))
                for op in sc["threads"][t]:
                    st.inc("op:" + op["op"])
            if sc.get("watch"):
                st.inc("probe:watch_rounds", len(log))
            if vio:
                sc["switches"] = sch
                sc.pop("schedules", None)
                sc["_lists"] = ["switches"]
                raise Violation(*vio)
            if len(log) and all(any(isinstance(x, list) and x[0] == "ok" for x in r[1])
                                for r in refs):
                st.inc("nontrivial")

    def run_schedule(self, sc, sch, refs):
        n = len(sc["threads"])
        fault = sc.get("fault")
        fl = {fault["t"]: self.fault_arg(fault)} if fault else None
        consts = W.consts_snapshot()
        before = self.shared_state(sc)
        s = inject.Scheduler(sch, fl)
        res = s.run([self.script(sc, t) for t in range(n)])
        fired = bool(fl and fl[fault["t"]].get("fired"))

        def verdict():
            for t in range(n):
                if res[t][0] != "ok":
                    return "thread-failed", f"thread {t}: {res[t]}; {len(s.log)} switches {s.log[:4]}"
                rounds = [res[t][1]]
                if sc.get("watch") and t == 1:
                    rounds = res[t][1]
                for k, x in enumerate(rounds):
                    d = diff_results(refs[t][1], x)
                    if d:
                        at = s.log[k:k + 1] if len(rounds) > 1 else s.log[:4]
                        return "interference", f"thread {t}, {d}; {len(s.log)} switches {at}"
            for name, v in W.CONSTS:
                if diff(consts[name], v, **EXACT):
                    return "constant-changed", f"{name} is {v.tolist()} afterwards"
            d = diff(before, self.shared_state(sc), **EXACT)
            if d:
                return "shared-gear-changed", f"{d}; {len(s.log)} switches {s.log[:4]}"
            return None
        return verdict(), s.log, fired

    def fault_arg(self, f):
        return {"flt": None, "n": 0, "target": f["n"], "exc": f["exc"]}

    def prepare(self, sc, st):
        pass

    def shared_state(self, sc):
        return None


class C05(Threads):
    id = "C05"
    runs = {"quick": 100, "thorough": 4000}
    rule = ("Each run gives two or three threads each a script of its own (create gears, move, mesh, "
            "read, copy, build; the scripts often use the same gear family with other parameters), "
            "and three schedules of thread switches at source lines of the package: single switches at "
            "distinct lines (first, last or any occurrence), every occurrence of a few lines, or "
            "switches anywhere; one thread may additionally suffer a failing call. In under half of the "
            "runs the second thread instead repeats its whole script at each of 4-90 lines at which "
            "the first is stopped. Reference: each script alone in a fresh "
            "process. Non-trivial: a switch happened and every thread produced a result.")

    def gen(self, rng, tier, i):
        watch = rng.random() < 0.45
        n = 2 if watch else pick(rng, 2, 2, 2, 3)
        fams = ["spur", "spur", "cycloid", "helical", "ring", "crowned", "involute", "cycring", "herring",
                "helring", "rack", "bevel"]
        f0 = pick(rng, *fams)
        builds = rng.random() < 0.35
        threads = []
        for t in range(n):
            fam = f0 if rng.random() < 0.7 else pick(rng, *fams)
            p = f"t{t}"
            ops = []
            s = small_design(rng, fam) if fam != "rack" else {k: v for k, v in
                                                              rack_design(rng).items() if k != "fam"}
            ops.append({"op": "new", "id": p + "a", "spec": s})
            if rng.random() < 0.7 and fam != "rack" or not builds:
                fb = fam if fam != "rack" else "spur"
                s2 = small_mate(rng, s) if rng.random() < 0.5 else small_design(rng, fb)
                ops.append({"op": "new", "id": p + "b", "spec": s2})
                for _ in range(rng.randint(0, 2)):
                    ops.append(move_op(rng, p + "b", []))
                ops.append(mesh_op(rng, p + "a", p + "b", s, s2))
                if kind(s) == "cyc" and rng.random() < 0.4:
                    ops.append({"op": "adapt", "g": p + "a", "o": p + "b"})
                elif rng.random() < 0.3:
                    ops.append({"op": "reset", "g": p + "b"})
            if fam != "rack":
                for _ in range(rng.randint(1, 4)):
                    ops.append({"op": "read", "g": p + "a", "name": pick(
                        rng, *(W.CHEAP_READS if watch and t and rng.random() < 0.7 else W.READS))})
            if rng.random() < 0.2:
                ops.append({"op": "copy", "g": p + "a", "id": p + "c"})
            if (builds and fam != "bevel" and not (watch and t)) or fam == "rack":
                ops.append({"op": pick(rng, "build", "update"), "g": p + "a"})
            elif fam != "bevel" and not (watch and rng.random() < 0.35):
                ops.append({"op": "read", "g": p + "a", "name": pick(rng, "wire0", "wire1", "profile", "boundary")})
            threads.append(ops)
        sc = {"threads": threads, "fault": None,
              "schedules_u": [self.gen_schedule(rng, n, k) for k in range(SCHED)]}
        if watch:
            return self.watch(rng, sc, f0 == "bevel")
        if rng.random() < 0.25:
            sc["fault"] = {"t": rng.randrange(n), "exc": pick(rng, "RuntimeError", "MemoryError"),
                           "u": [round(rng.random(), 6), round(rng.random(), 6)]}
        return sc

    def script(self, sc, t, solo=False):
        if sc.get("watch") and t == 1 and not solo:
            return lambda: watch_rounds(World(), sc["threads"][t])
        return lambda: run_ops(World(), sc["threads"][t])


class C06(Threads):
    id = "C06"
    runs = {"quick": 100, "thorough": 4000}
    rule = ("Each run places one gear or rack, then two or three threads use it at the same time: read "
            "dimensions, locations, outlines, wires, copy it, build or update it, mesh gears of their "
            "own to it; schedules as in C05 decide the interleaving, "
            "and one thread may suffer a failing call. Reference: each script alone. Non-trivial: a "
            "switch happened and every thread produced a result.")

    def gen(self, rng, tier, i):
        n = pick(rng, 2, 2, 2, 3)
        fams = ["spur", "cycloid", "helical", "ring", "crowned", "involute", "herring", "helring", "rack",
                "bevel", "bevel", "cyccone", "cycring"]
        fam = pick(rng, *fams)
        rack = fam == "rack"
        s = small_design(rng, fam) if not rack else {k: v for k, v in rack_design(rng).items()
                                                     if k != "fam"}
        pre = [{"op": "new", "id": "g", "spec": s}]
        for _ in range(rng.randint(0, 3)):
            pre.append(move_op(rng, "g", []))
        conic = fam in ("bevel", "cyccone")
        prebuilt = rng.random() < (0.35 if not conic else 0.1)
        if prebuilt:
            pre.append({"op": "build", "g": "g"})
            if rng.random() < 0.6:
                pre.append(move_op(rng, "g", []))
        if rng.random() < 0.4:
            return self.gen_watch(rng, s, pre, prebuilt, rack, conic, fam)
        updates = 0
        if prebuilt and not conic and rng.random() < 0.5:
            updates = rng.randint(1, n)     # nothing but the part; who may also build it
        threads = []
        nb = 1 if rng.random() < (0.7 if not conic else 0.35) else 0
        nb += rng.random() < (0.25 if not prebuilt or conic else 0.6)
        for t in range(n):
            ops = []
            p = f"t{t}"
            if rack:
                ops = [{"op": pick(rng, "build", "copy"), "g": "g", "id": p + "c"}
                       for _ in range(rng.randint(1, 3))]
                threads.append(ops)
                continue
            if updates:
                ops = [{"op": "update", "g": "g"} for _ in range(rng.randint(2, 4))]
                if t == updates - 1 and rng.random() < 0.7:
                    ops[rng.randrange(len(ops))]["op"] = "build"
                threads.append(ops)
                continue
            for _ in range(rng.randint(1, 4)):
                r = rng.random()
                if r < 0.6:
                    ops.append({"op": "read", "g": "g", "name": pick(rng, *W.READS)})
                elif r < 0.75:
                    ops.append({"op": "copy", "g": "g", "id": p + "c"})
                else:
                    ops.append({"op": "read", "g": "g", "name": pick(
                        rng, "wire0", "wire1", "boundary", "profile", "radii_data_array")})
            if rng.random() < 0.4:
                s2 = small_mate(rng, s) if rng.random() < 0.5 else small_design(rng, fam)
                ops.append({"op": "new", "id": p + "a", "spec": s2})
                ops.append(mesh_op(rng, p + "a", "g", s2, s))
            if nb > 0:
                nb -= 1
                ops.insert(rng.randrange(len(ops) + 1),
                           {"op": pick(rng, "build", "update", "update") if prebuilt and not conic
                            else "update" if prebuilt else pick(rng, "build", "update"), "g": "g"})
            threads.append(ops)
        sc = {"pre": pre, "threads": threads, "fault": None,
              "schedules_u": [self.gen_schedule(rng, n, k) for k in range(SCHED)]}
        if rng.random() < 0.2:
            sc["fault"] = {"t": rng.randrange(n), "exc": pick(rng, "RuntimeError", "MemoryError"),
                           "u": [round(rng.random(), 6), round(rng.random(), 6)]}
        return sc

    def gen_watch(self, rng, s, pre, prebuilt, rack, conic, fam):
        def heavy():
            r = rng.random()
            if rack:
                return [{"op": pick(rng, "build", "copy"), "g": "g", "id": "c"}]
            if r < 0.35 and not conic:
                return [{"op": pick(rng, "build", "update"), "g": "g"}]
            if r < 0.55:
                return [{"op": "copy", "g": "g", "id": "c"}]
            if r < 0.8:
                return [{"op": "read", "g": "g", "name": pick(
                    rng, "wire0", "wire1", "boundary", "profile", "radii_data_array",
                    "face_location_top", "max_outside_radius")}]
            s2 = small_mate(rng, s) if rng.random() < 0.7 else small_design(rng, fam)
            return [{"op": "new", "id": "a", "spec": s2}, mesh_op(rng, "a", "g", s2, s)]

        if not rack and rng.random() < 0.3:
            pre.insert(1, {"op": "attr", "g": "g", "what": "tooth_param", "d": 0})
        ops = heavy()
        if not rack:
            if rng.random() < 0.6:
                ops.append({"op": "copy", "g": "g", "id": "c2"})
            for _ in range(rng.randint(1, 8 if not conic else 3)):
                ops.append({"op": "read", "g": "g", "name": pick(rng, *W.READS)})
            if rng.random() < 0.5:
                ops.append({"op": "read", "g": "g", "name": pick(rng, "wire0", "wire1", "boundary")})
            if rng.random() < 0.4:
                ops += heavy()
        look = []
        if not rack and rng.random() < 0.8:
            look.append({"op": "view", "g": "g", "cheap": True})
        if prebuilt and not rack and rng.random() < 0.6:
            look.append({"op": "update", "g": "g"})
        elif not look or rng.random() < 0.5:
            look += heavy()
            if look[-1]["op"] == "update" and not prebuilt:
                look[-1]["op"] = "build"
        sc = {"pre": pre, "threads": [ops, look]}
        return self.watch(rng, sc, conic)

    def simpler(self, sc):
        for i in range(len(sc["pre"]) - 1, 0, -1):
            c = json.loads(json.dumps(sc))
            del c["pre"][i]
            yield c
        yield from super().simpler(sc)

    def prepare(self, sc, st):
        self.w = World()
        for op in sc["pre"]:
            do_faulty(self.w, op, st)
        self.g = self.w.objs["g"]

    def shared_state(self, sc):
        parts = []
        for _, p, s in self.w.parts:
            parts.append([W.diff_parts(s, W.part_sig(p)), bool(p.is_valid)])
        return [snap(self.g, 2), parts]

    def script(self, sc, t, solo=False):
        g = self.g

        def fn():
            w = World()
            w.objs["g"] = g
            w.specs["g"] = None
            if sc.get("watch") and t == 1 and not solo:
                return watch_rounds(w, sc["threads"][t])
            return run_ops(w, sc["threads"][t])
        return fn
