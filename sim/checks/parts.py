"""C09: a gear's part always follows the gear."""
import json

import world as W
from core import Check, Violation, diff, in_fork
from world import FAILED, World, design, do_faulty, gen_fault, pick, rack_design, usable
from checks.common import REAL, drop_unused, kind, mesh_op, move_op, simpler_specs
from checks.threads import small_mate

SMALL = {"ring": (12, 15), "cycring": (12, 15), "helring": (14, 16), "bevel": (8, 9)}
PLACE_ARGS = ("center", "angle", "position", "orientation", "offset")


def unplaced(spec):
    """Signature of the design's part, built from scratch at the origin."""
    s = {"cls": spec["cls"], "args": {k: v for k, v in spec["args"].items() if k not in PLACE_ARGS}}
    return W.part_sig(W.make(s).build_part())


def rack_sig(sig, place, module):
    R = place["orientation"]
    shift = W.np.array([0.0, place["offset"] * W.np.pi * module, 0.0])
    out = dict(sig)
    out["com"] = place["position"] + R @ (sig["com"] + shift)
    out["verts"] = place["position"] + (sig["verts"] + shift) @ R.T
    return out


class C09(Check):
    id = "C09"
    runs = {"quick": 120, "thorough": 6000}
    real = REAL
    stubs = ["failures of calls made by the package are injected as exceptions before the call"]
    rule = ("Each run creates one or two gears or racks (every family) and applies 6-16 operations: "
            "moves, turns, re-orientation (also quarter turns), meshing, copying, adapting tooth "
            "curves, changing a parameter and recalculating, building, updating, failing builds and "
            "updates, and moving a returned part itself. Every part returned is compared with the "
            "design's part built from scratch at the origin and moved by an independent placement "
            "formula; some updates are also compared with a fresh build, and all parts returned "
            "earlier are re-inspected. Non-trivial: at least two parts were returned for different "
            "placements.")
    assumptions = ["part identity is judged by volume, area, centre of mass, vertex positions and "
                   "face/edge counts (tolerance 1e-6 relative)"]

    def setup(self):
        W.load()

    def gen(self, rng, tier, i):
        fams = ["spur", "ring", "helical", "herring", "helring", "cycloid", "cycloid", "cycring",
                "involute", "crowned", "rack", "rack", "rack", "bevel", "cyccone"]
        fam = pick(rng, *fams)
        ops, ids, specs = [], [], {}

        def new(fam):
            k = f"g{len(specs)}"
            if fam == "rack":
                s = rack_design(rng)
            elif specs and rng.random() < 0.5:
                s = small_mate(rng, specs[ids[0]])
            else:
                lo, hi = SMALL.get(fam, (6, 10))
                s = design(rng, fam, teeth=rng.randint(lo, hi))
                if s["args"].get("inside_teeth") and fam == "involute":
                    s["args"]["number_of_teeth"] = rng.randint(14, 16)
            s.pop("fam", None)
            specs[k] = s
            ids.append(k)
            ops.append({"op": "new", "id": k, "spec": s})
            return k

        a = new(fam)
        pair = rng.random() < 0.5
        if pair:
            new({"rack": "spur", "ring": "spur", "helring": "helical", "cycring": "cycloid"}.get(fam, fam))
        conic = fam in ("bevel", "cyccone")
        part_ids = [a] if not pair or conic else ids[:]
        built = 0
        for _ in range(rng.randint(6, 16)):
            r = rng.random()
            g = a if rng.random() < 0.6 else pick(rng, *ids)
            sp = specs[g]
            op = None
            if r < 0.35:
                op = move_op(rng, g, ids)
            elif r < 0.43 and len(ids) > 1:
                o = pick(rng, *[x for x in ids if x != g])
                if kind(specs[o]) != "rack":
                    op = mesh_op(rng, g, o, sp, specs[o])
            elif r < 0.48 and kind(sp) == "cyc" and pair and not conic:
                o = pick(rng, *[x for x in ids if x != g])
                op = {"op": "adapt", "g": g, "o": o}
            elif r < 0.51 and kind(sp) in ("inv", "cyc") and not conic:
                name, val = pick(rng, ("height", 2.2), ("backlash", 0.03), ("module", 1.3),
                                 ("z_anchor", 0.4), ("tip_truncation", 0.15))
                op = {"op": "param", "g": g, "name": name, "value": val}
            elif r < 0.56 and len(specs) < 4 and not conic:
                k = f"g{len(specs)}"
                op = {"op": "copy", "g": g, "id": k}
                specs[k] = sp
                ids.append(k)
                part_ids.append(k)
            elif r < 0.62:
                op = {"op": "shove", "k": rng.randrange(9), "v": W.rvec(rng)}
            elif r < 0.65 and kind(sp) != "rack":
                op = {"op": "reset", "g": g}
            elif g in part_ids:
                op = {"op": pick(rng, "update", "update", "update", "build"), "g": g}
                if op["op"] == "build":
                    built += 1
                    if built > (2 if not conic else 0) and kind(sp) != "rack":
                        op["op"] = "update"
                if rng.random() < (0.2 if not conic else 0.1):
                    op["fault"] = gen_fault(rng)
                else:
                    op["fresh"] = rng.random() < (0.12 if not conic else 0.03)
            if op:
                ops.append(op)
        ops.append({"op": "update", "g": a})
        return {"ops": ops}

    def simpler(self, sc):
        yield from drop_unused(sc)
        yield from simpler_specs(sc)
        for i, op in enumerate(sc["ops"]):
            if op.get("fresh"):
                c = json.loads(json.dumps(sc))
                c["ops"][i]["fresh"] = False
                yield c

    def signature(self, sc):
        return [[o["op"], o.get("g"), o.get("o"), o.get("spec"), (o.get("fault") or {}).get("site")]
                for o in sc["ops"]]

    def execute(self, sc, st):
        w = World(st)
        ref = {}        # id -> unplaced signature of its present shape, or "EXC .."
        stale = set()   # ids whose shape no longer is that of their spec
        seen = set()
        moved_parts = set()

        def reference(k):
            if k not in ref:
                o = w.objs[k]
                if k in stale:
                    def f():
                        if W.is_rack(o):
                            raise AssertionError
                        t = W.tf(o)
                        t.center = W.np.zeros(3)
                        t.orientation = W.np.eye(3)
                        t.angle = 0.0
                        o.builder = None
                        return try_sig(o.build_part)
                else:
                    def f():
                        return try_sig(lambda: None, w.specs[k])
                ref[k] = in_fork(f)
            return ref[k]

        for n, op in enumerate(sc["ops"]):
            if op["op"] == "new" and op["id"] in w.objs or not usable(w, op):
                continue
            if op["op"] == "shove":
                if w.parts:
                    j = op["k"] % len(w.parts)
                    g, p, s = w.parts[j]
                    p.location = W.bd.Location(W.bd.Vector(*op["v"])) * p.location
                    w.parts[j] = (g, p, W.part_sig(p))
                    st.inc("op:shove")
                continue
            before = w.specs.get(op.get("g"))
            status, val = do_faulty(w, op, st)
            where = f"op {n} ({op['op']} {op.get('g')})"
            if op["op"] == "mesh" and status == "ok" and not all(
                    W.np.isfinite(x).all() for x in W.placement(w.objs[op["g"]]).values()):
                return      # a pair that cannot mesh: there is no placement to follow
            if op["op"] in ("adapt", "param"):
                for k in W.World.affects(op):
                    stale.add(k)
                    ref.pop(k, None)
            if op["op"] == "copy" and status == "ok":
                if op["g"] in stale:
                    stale.add(op["id"])
                if op["g"] in ref:
                    ref[op["id"]] = ref[op["g"]]
            if op["op"] in ("build", "update"):
                k = op["g"]
                r = reference(k)
                if status == "ok":
                    st.inc("cmp")
                    if isinstance(r, str):
                        raise Violation("part-wrong", f"{where}: a fresh build fails with {r}")
                    o = w.objs[k]
                    pl = W.placement(o)
                    if W.is_rack(o):
                        want = rack_sig(r, pl, o.module)
                    else:
                        # the solid is scaled by the transform; the reference has it already
                        want = W.move_sig(r, pl)
                    d = W.diff_parts(want, val)
                    if d:
                        raise Violation("part-not-current", f"{where}: not the gear's solid at its "
                                        f"placement: {d}")
                    seen.add(json.dumps([k, [x.tolist() if hasattr(x, "tolist") else x
                                             for x in pl.values()]]))
                    if op.get("fresh") and not W.is_rack(o):
                        st.inc("cmp")
                        st.inc("probe:update_vs_build")
                        d = W.diff_parts(in_fork(lambda: W.part_sig(o.build_part())), val)
                        if d:
                            raise Violation("update-differs", f"{where}: a fresh build differs: {d}")
                elif not op.get("fault") and not isinstance(r, str):
                    raise Violation("cannot-build", f"{where}: {val}")
            if op["op"] not in ("update", "build"):
                parts = w.parts[-3:]
            else:
                parts = w.parts[:-1][-3:]
            for g, p, s in parts:
                st.inc("cmp")
                d = W.diff_parts(s, W.part_sig(p), rel=1e-9)
                if d:
                    raise Violation("old-part-changed", f"{where}: a part of {g} returned earlier "
                                    f"changed: {d}")
        for g, p, s in w.parts:
            st.inc("cmp")
            d = W.diff_parts(s, W.part_sig(p), rel=1e-9)
            if d:
                raise Violation("old-part-changed", f"at the end: a part of {g} changed: {d}")
        if len(seen) >= 2:
            st.inc("nontrivial")
        st.add("histories", [o["op"] + str(o.get("g")) for o in sc["ops"]])


def try_sig(fn, spec=None):
    try:
        if spec is not None:
            return unplaced(spec)
        return W.part_sig(fn())
    except Exception as e:
        return "EXC " + type(e).__name__
