"""C03 (a failed build leaves the gear intact) and C04 (a failed placement changes nothing)."""
import json

import inject
import world as W
from core import Check, Violation, diff, in_fork
from world import FAILED, World, design, do_faulty, gen_fault, pick, rack_design, snap, usable
from checks.common import REAL, degenerate, kind, mesh_op, move_op, simpler_specs

EXACT = dict(rtol=1e-12, atol=1e-12)
BAD_KW = [{"n_vert": 1}, {"n_vert": 0}, {"n_vert": "x"}, {"nonsense": 1}]


class Failing(Check):
    real = REAL

    def setup(self):
        W.load()

    def simpler(self, sc):
        for i in range(len(sc["pre"]) - 1, 0, -1):
            c = json.loads(json.dumps(sc))
            del c["pre"][i]
            yield c
        yield from simpler_specs(sc, "pre")


class C03(Failing):
    id = "C03"
    runs = {"quick": 190, "thorough": 4000}
    stubs = ["failures: an exception raised before a chosen call made by the package (any call site), "
             "or KeyboardInterrupt before a chosen source line"]
    rule = ("Each run places one gear or rack (every family), optionally builds it, then makes 1-4 "
            "build, update or wire attempts that fail at a chosen call site or source line (distinct "
            "sites chosen uniformly among those the clean build executes, first, last or any "
            "occurrence) or because of unusable build arguments, possibly moving the gear in between; "
            "finally it builds or updates successfully. Non-trivial: at least one injected failure "
            "aborted a build.")

    def gen(self, rng, tier, i):
        rack = rng.random() < 0.28
        fams = ["spur", "ring", "helical", "herring", "helring", "bevel", "bevel", "cycloid", "cycring",
                "involute", "crowned", "cyccone"]
        fam = pick(rng, *fams)
        s = rack_design(rng) if rack else design(rng, fam)
        conic = fam in ("bevel", "cyccone") and not rack
        if conic:
            s["args"]["number_of_teeth"] = rng.randint(8, 10)
        elif fam in ("ring", "helring", "cycring") or s["args"].get("inside_teeth"):
            s["args"]["number_of_teeth"] = rng.randint(12, 16)
        elif not rack:
            s["args"]["number_of_teeth"] = rng.randint(6, 9)
        s.pop("fam")
        pre = [{"op": "new", "id": "a", "spec": s}]
        for _ in range(rng.randint(0, 3)):
            pre.append(move_op(rng, "a", []))
        if rng.random() < (0.35 if not conic else 0.2):
            pre.append({"op": "build", "g": "a"})
            if rng.random() < 0.5:
                pre.append(move_op(rng, "a", []))
        kinds = pick(rng, "call", "call", "line")
        ops = []
        for _ in range(rng.randint(4, 9) if rack else pick(rng, 2, 3, 4, 5) if not conic
                       else pick(rng, 1, 2, 3)):
            r = rng.random()
            if r < 0.1 and ops:
                ops.append(move_op(rng, "a", []))
            elif r < 0.15 and not rack:
                ops.append({"op": "build", "g": "a", "kw": pick(rng, *BAD_KW)})
            elif r < 0.25 and not rack:
                op = {"op": "sread", "g": "a", "name": pick(rng, "wire0", "wire1", "boundary",
                                                           "max_outside_radius"),
                      "fault": gen_fault(rng)}
                ops.append(op)
            else:
                op = {"op": pick(rng, "build", "build", "update"), "g": "a",
                      "fault": gen_fault(rng, kinds)}
                ops.append(op)
        fin = pick(rng, "build", "update", "update")
        if rng.random() < 0.3:
            ops.append(move_op(rng, "a", []))
        return {"pre": pre, "ops": ops, "final": fin, "kind": kinds}

    def signature(self, sc):
        return [sc["pre"], [[o["op"], o.get("name"), (o.get("fault") or {}).get("site"),
                             (o.get("fault") or {}).get("n")] for o in sc["ops"]], sc["final"]]

    def execute(self, sc, st):
        w = World(st)
        for op in sc["pre"]:
            if usable(w, op):
                do_faulty(w, op, st)
        if "a" not in w.objs:
            return
        a = w.objs["a"]
        built = bool(w.parts)
        moves = [op for op in sc["ops"] if op["op"] in W.PLACE_OPS]

        def reference():
            """One clean, observed build; then the gear moved as the run will move it."""
            m = inject.Monitor(sc["kind"], record=True)
            try:
                with m:
                    a.build_part()
            except Exception as e:
                return "EXC " + type(e).__name__, None, [], 0, 0
            pts = []
            for op in sc["ops"]:
                f = op.get("fault")
                if f and "n" not in f and f["kind"] == sc["kind"] and (
                        op["op"] == "build" or op["op"] == "update" and not built):
                    pts.append(inject.choose_point(m, *f["u"]))
                else:
                    pts.append(None)
            for op in moves:
                w.do(op)
            p = a.build_part() if W.is_rack(a) else a.update_part()
            return "ok", W.part_sig(p), pts, len(set(m.sites)), len(m.sites)

        status, ref, pts, nsites, nev = in_fork(reference)
        st.inc("probe:events_seen", nev)
        for op, n in zip(sc["ops"], pts):
            if n is not None:
                op["fault"]["n"] = n
        base = snap(a, 1)
        outline = in_fork(lambda: W.profile_sig(a, 2))
        failed = 0
        for n, op in enumerate(sc["ops"]):
            s, v = do_faulty(w, op, st)
            where = f"after op {n} ({op['op']} {s} {v if s == FAILED else ''})"
            if op["op"] in W.PLACE_OPS:
                base = snap(a, 1)
                continue
            if s == FAILED:
                failed += 1
            st.inc("cmp")
            d = diff(base, snap(a, 1), **EXACT)
            if d:
                raise Violation("gear-changed", f"{where}: {d}")
            for g, p, s0 in w.parts:
                st.inc("cmp")
                d = W.diff_parts(s0, W.part_sig(p))
                if d or not p.is_valid:
                    raise Violation("part-changed", f"{where}: a part obtained earlier changed: {d}")
            if not op.get("fault") and not op.get("kw") and s == FAILED and status == "ok" \
                    and op["op"] in ("build", "update"):
                raise Violation("not-rebuildable", f"{where}: cannot be built any more")
        st.inc("cmp")
        d = diff(outline, W.profile_sig(a, 2))
        if d:
            raise Violation("shape-changed", f"tooth outline after the failed attempts: {d}")
        s, v = do_faulty(w, {"op": sc["final"], "g": "a"}, st)
        st.inc("cmp")
        if status == "ok":
            if s != "ok":
                raise Violation("not-rebuildable", f"{sc['final']} after {failed} failed attempts: {v}")
            d = W.diff_parts(ref, v)
            if d:
                raise Violation("rebuilt-differs", f"{sc['final']} after {failed} failed attempts "
                                f"gives another part: {d}")
        elif s == "ok" and not W.is_rack(a):
            raise Violation("rebuilt-differs", f"without failed attempts the build gives {status}")
        if failed and any((o.get("fault") or {}).get("site") for o in sc["ops"]):
            st.inc("nontrivial")


# ------------------------------------------------------------------ C04
class Flaky:
    """A partner one of whose attributes cannot be read."""

    def __init__(self, real, left):
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_left", left)

    def __getattr__(self, name):
        n = object.__getattribute__(self, "_left")
        if n <= 0:
            raise AttributeError(f"injected: no attribute {name!r}")
        object.__setattr__(self, "_left", n - 1)
        return getattr(object.__getattribute__(self, "_real"), name)


BAD_ARGS = [{"dir": [1.0, 0.0]}, {"dir": "east"}, {"backlash": "wide"}, {"angle_bias": "left"},
            {"offset": "far"}, {"dir": [0.0, 1.0, 0.0, 2.0]}]


class C04(Failing):
    id = "C04"
    runs = {"quick": 2000, "thorough": 60000}
    stubs = ["failures inside placement: an exception raised before a chosen call to a solver, linear "
             "algebra, rotation or geometry function",
             "a partner whose k-th attribute access fails, partners of the wrong kind, unusable "
             "arguments"]
    rule = ("Each run places two to three gears/racks (all families, core gears) at random "
            "placements, then makes 1-4 failing meshing attempts (failing solver/geometry call, "
            "partner of the wrong kind, partner missing an attribute, unusable arguments), then one "
            "that works. Non-trivial: at least one attempt failed.")

    def gen(self, rng, tier, i):
        fam = pick(rng, *W.FAMILIES, "rack", "rack", "core", "core")
        pre = []

        def new(k, fam):
            if fam == "core":
                s = {"cls": "Gear", "args": {"number_of_teeth": rng.randint(8, 20),
                                             "module": pick(rng, 1.0, 2.0),
                                             "inside_teeth": rng.random() < 0.2,
                                             "cone_angle": pick(rng, 0, 0, 1.2)}}
            elif fam == "rack":
                s = rack_design(rng)
            else:
                s = design(rng, fam)
            s.pop("fam", None)
            pre.append({"op": "new", "id": k, "spec": s})
            return s

        sa = new("a", fam)
        fb = {"rack": pick(rng, "spur", "helical", "involute"),
              "ring": "spur", "helring": "helical"}.get(fam, fam)
        if fb == "core":
            sa["args"]["inside_teeth"] = False
        if fam in ("spur", "helical") and rng.random() < 0.2:
            fb = {"spur": "ring", "helical": "helring"}[fam]
        if fb in ("ring", "helring"):
            pass
        sb = new("b", fb)
        if fam != "core" and rng.random() < 0.5:
            sb = W.mate(rng, sa)
            sb.pop("fam", None)
            pre[-1]["spec"] = sb
        if fb == "core":
            sb["args"]["cone_angle"] = sa["args"]["cone_angle"]
        bad_fam = pick(rng, "cycloid", "spur", "bevel", "core", "rack")
        new("x", bad_fam)
        for _ in range(rng.randint(0, 5)):
            pre.append(move_op(rng, pick(rng, "a", "a", "b"), ["a", "b"]))
        if rng.random() < 0.4:
            pre.append({"op": "mesh", "g": "a", "o": "b", "dir": W.rdir_xy(rng)})
            pre.append(move_op(rng, pick(rng, "a", "b"), ["a", "b"]))
        good = mesh_op(rng, "a", "b", sa, sb)
        if fam == "core":
            good = {"op": "mesh", "g": "a", "o": "b", "dir": W.rdir_xy(rng)}
        ops = []
        for _ in range(pick(rng, 1, 1, 2, 3, 4)):
            op = dict(good) if rng.random() < 0.5 else {"op": "mesh", "g": "a", "o": "b",
                                                        "dir": W.rdir_xy(rng)}
            r = rng.random()
            if r < 0.6:
                op["fault"] = gen_fault(rng, "call", "fallible")
            elif r < 0.72:
                op["flaky"] = rng.randint(0, 24)
            elif r < 0.86:
                op["o"] = "x"
            else:
                op.update(pick(rng, *BAD_ARGS))
            ops.append(op)
        return {"pre": pre, "ops": ops, "good": good}

    def signature(self, sc):
        return [sc["pre"], [[(o.get("fault") or {}).get("site"), o.get("flaky"), o["o"]]
                            for o in sc["ops"]]]

    def execute(self, sc, st):
        w = World(st)
        for op in sc["pre"]:
            if usable(w, op):
                do_faulty(w, op, st)
        if not all(k in w.objs for k in ("a", "b", "x")):
            return
        ids = ["a", "b", "x"]
        good = sc["good"]
        ref = in_fork(lambda: do_faulty(w, good))
        failed = 0
        base = {k: snap(w.objs[k], 1) for k in ids}
        for n, op in enumerate(sc["ops"]):
            real_b = w.objs["b"]
            if "flaky" in op:
                w.objs["b"] = Flaky(real_b, op["flaky"])
            args0 = len(w.args)
            try:
                s, v = do_faulty_args(w, op, st)
            finally:
                w.objs["b"] = real_b
            where = f"attempt {n} ({s} {v if s == FAILED else ''} at {(op.get('fault') or {}).get('site')})"
            if s != FAILED:
                # the attempt succeeded after all: put everything on record again
                if degenerate(W.placement(w.objs["a"]), real_b) or \
                        op["o"] == "x" and degenerate(W.placement(w.objs["a"]), w.objs["x"]):
                    return      # an incompatible partner accepted with a meaningless result
                base = {k: snap(w.objs[k], 1) for k in ids}
                continue
            failed += 1
            if "flaky" in op:
                st.inc("fault:partner_attribute")
            elif op["o"] == "x":
                st.inc("fault:wrong_partner")
            elif not op.get("fault"):
                st.inc("fault:bad_argument")
            st.inc("cmp")
            for k in ids:
                d = diff(base[k], snap(w.objs[k], 1), **EXACT)
                if d:
                    raise Violation("moved-by-failure", f"{where}: {k} changed: {d}")
            for v0 in w.args[args0:]:
                lit = op.get("dir")
                if isinstance(lit, list) and diff(W.np.array(lit, float), v0, **EXACT):
                    raise Violation("argument-changed", f"{where}: direction changed")
        s, v = do_faulty(w, good, st)
        st.inc("cmp")
        if s != ref[0]:
            raise Violation("retry-differs", f"retry gives {s} {v}, a first call gives {ref}")
        if s == "ok" and degenerate(ref[1], w.objs["b"]) and degenerate(v, w.objs["b"]):
            return
        if s == "ok":
            # a successful call earlier must not matter either, so compare in any case
            d = diff(ref[1], v, rtol=1e-8, atol=1e-8)
            if d:
                raise Violation("retry-differs", f"after {failed} failed attempts the placement is "
                                f"different: {d}")
        if failed:
            st.inc("nontrivial")


def do_faulty_args(w, op, st):
    """do_faulty, allowing unusable argument values."""
    if isinstance(op.get("dir"), str):
        op2 = dict(op)
        val = op2.pop("dir")
        real = w.vec
        w.vec = lambda v, keep=True: val if v == "!" else real(v, keep)
        op2["dir"] = "!"
        try:
            return do_faulty(w, op2, st)
        finally:
            w.vec = real
    return do_faulty(w, op, st)
