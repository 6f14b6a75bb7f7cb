"""C01 (nothing leaks between objects) and C07 (copies are identical and independent)."""
import json

import world as W
from core import Check, Violation, diff, in_fork
from world import FAILED, World, design, do_faulty, gen_fault, pick, rack_design, snap, usable
from checks.common import (REAL, drop_unused, kind, mesh_op, move_op, partner_ids, simpler_specs,
                           vector)

EXACT = dict(rtol=1e-12, atol=1e-12)
DEFAULTS = [{"cls": c, "args": a} for c, a in [
    ("SpurGear", {"number_of_teeth": 9}), ("SpurRingGear", {"number_of_teeth": 17}),
    ("HelicalGear", {"number_of_teeth": 9}), ("HelicalRingGear", {"number_of_teeth": 17}),
    ("BevelGear", {"number_of_teeth": 9}), ("CycloidGear", {"number_of_teeth": 9}),
    ("InvoluteGear", {"number_of_teeth": 9}), ("InvoluteRack", {}), ("HelicalRack", {}),
    ("Gear", {"number_of_teeth": 9})]]


def default_snaps():
    return [snap(W.make(s), 1) for s in DEFAULTS]


def fresh_mesh():
    """Placement of a freshly created default pair (uses every default direction)."""
    out = []
    for c in ("SpurGear", "CycloidGear", "HelicalGear"):
        a = W.make({"cls": c, "args": {"number_of_teeth": 9}})
        b = W.make({"cls": c, "args": {"number_of_teeth": 11}})
        a.mesh_to(b)
        out.append(W.placement(a))
    r = W.make({"cls": "InvoluteRack", "args": {}})
    r.mesh_to(W.make(DEFAULTS[0]))
    out.append(W.placement(r))
    return out


class Isolation(Check):
    real = REAL
    stubs = ["failures of calls made by the package are injected as exceptions before the call"]

    def setup(self):
        W.load()

    def simpler(self, sc):
        yield from drop_unused(sc)
        yield from simpler_specs(sc)

    def signature(self, sc):
        return [[o["op"], o.get("g"), o.get("o"), o.get("spec", {}).get("args"),
                 (o.get("fault") or {}).get("site")] for o in sc["ops"]]


class C01(Isolation):
    id = "C01"
    runs = {"quick": 750, "thorough": 20000}
    rule = ("Each run draws 3-5 gears/racks of random design (some constructed from library "
            "constants or from another gear's own centre array) and 8-18 operations (move, edit in "
            "place, re-orient, mesh, reset, adapt, copy, build, read, edit a previously passed "
            "array, discard), about a fifth of them failing at a chosen call or line. Non-trivial: "
            "at least two objects coexist and at least three state-changing operations ran.")
    assumptions = ["rack.position and transform.orientation are plain attributes: assigning one "
                   "array to two objects oneself is not counted as leaking"]

    def gen(self, rng, tier, i):
        ops, ids, specs = [], [], {}
        cores = rng.random() < 0.15     # a run mostly about core gears

        def new():
            k = f"g{len(specs)}"
            r = rng.random()
            if r < 0.17:
                s = rack_design(rng)
            elif r < 0.32 or cores and r < 0.8:
                s = W.core_design(rng, ids)
            elif r < 0.45:
                s = design(rng, pick(rng, "cycloid", "cycloid", "cycring"))
            elif r < 0.75 and [x for x in ids if kind(specs[x]) != "core"]:
                # meshes properly with one of those there are
                s = W.mate(rng, specs[pick(rng, *[x for x in ids if kind(specs[x]) != "core"])])
            else:
                s = design(rng)
            s.pop("fam")
            key = "position" if kind(s) == "rack" else "center"
            if ids and kind(s) != "core" and rng.random() < 0.4:
                v = vector(rng, ids)
                if isinstance(v, dict):
                    s["args"][key] = v
            ops.append({"op": "new", "id": k, "spec": s})
            ids.append(k)
            specs[k] = s

        for _ in range(rng.randint(2, 3)):
            new()
        n = rng.randint(8, 16)
        built = 0
        for _ in range(n):
            r = rng.random()
            g = ids[rng.randrange(len(ids))]
            sp = specs[g]
            op = None
            if r < 0.1 and len(ids) < 5:
                new()
                continue
            if r < 0.45:
                op = move_op(rng, g, ids)
            elif r < 0.65:
                ps = partner_ids(ids, specs, g, 0.1, rng)
                if not ps:
                    continue
                o = ps[rng.randrange(len(ps))]
                op = mesh_op(rng, g, o, sp, specs[o], anylen=True)
            elif r < 0.7 and kind(sp) == "core":
                op = {"op": "swap", "g": g, "tooth": pick(rng, "InvoluteTooth", "CycloidTooth")}
            elif r < 0.7 and kind(sp) != "rack":
                op = {"op": "reset", "g": g}
            elif r < 0.76 and kind(sp) == "cyc":
                ps = [o for o in partner_ids(ids, specs, g) if kind(specs[o]) == "cyc"]
                if not ps:
                    continue
                op = {"op": "adapt", "g": g, "o": ps[rng.randrange(len(ps))]}
            elif r < 0.82 and len(specs) < 7:
                k = f"g{len(specs)}"
                op = {"op": "copy", "g": g, "id": k}
                ids.append(k)
                specs[k] = sp
            elif r < 0.88 and "core" in [kind(x) for x in specs.values()] and rng.random() < 0.6:
                op = {"op": "edit_pool", "k": rng.randrange(9), "d": round(rng.uniform(0.3, 1), 3)}
            elif r < 0.88:
                op = {"op": "edit_arg", "k": rng.randrange(20), "d": round(rng.uniform(0.5, 3), 3)}
            elif r < 0.92 and kind(sp) != "rack":
                op = {"op": "read", "g": g, "name": pick(rng, *W.READS)}
            elif r < 0.945 and built < 1 and kind(sp) not in ("bevel", "core"):
                op = {"op": pick(rng, "build", "update"), "g": g}
                built += 1
            elif r < 0.97 and kind(sp) != "rack":
                op = {"op": "attr", "g": g, "d": round(rng.uniform(0.05, 0.3), 3),
                      "what": pick(rng, "z_vals", "h_o", "fillet", "scale", "module")}
            elif len(ids) > 2:
                op = {"op": "discard", "g": g}
                ids.remove(g)
            if op is None:
                continue
            if rng.random() < 0.2 and op["op"] in ("mesh", "build", "update", "read", "copy", "adapt",
                                                   "reset"):
                op["fault"] = gen_fault(rng)
            ops.append(op)
        return {"ops": ops}

    def execute(self, sc, st):
        consts0 = W.consts_snapshot()
        ref = in_fork(lambda: (default_snaps(), fresh_mesh()))
        w = World(st)
        last = {}
        args = []
        pool = {}
        outline = {}
        dirty = set()
        changes = 0
        for n, op in enumerate(sc["ops"]):
            if op["op"] == "new" and (op["id"] in w.objs) or not usable(w, op):
                continue
            status, _ = do_faulty(w, op, st)
            aff = W.World.affects(op)
            changes += bool(aff)
            where = f"after op {n} ({op['op']} {status})"
            # bystanders
            for k, o in list(w.objs.items()):
                s = snap(o, 1)
                if k not in aff and k in last:
                    st.inc("cmp")
                    d = diff(last[k], s, **EXACT)
                    if d:
                        raise Violation("bystander-changed", f"{where}: {k} changed: {d}")
                last[k] = s
            for k in list(last):
                if k not in w.objs:
                    del last[k]
            # constants and the caller's arrays
            for name, v in W.CONSTS:
                st.inc("cmp")
                if diff(consts0[name], v, **EXACT):
                    raise Violation("constant-changed", f"{where}: {name} is now {v.tolist()}")
            for j, v in enumerate(w.args):
                if j < len(args):
                    if op["op"] == "edit_arg" and j == op["k"] % len(args):
                        args[j] = v.copy()
                    elif diff(args[j], v, **EXACT):
                        raise Violation("argument-changed", f"{where}: an array passed earlier "
                                        f"changed from {args[j].tolist()} to {v.tolist()}")
                else:
                    args.append(v.copy())
                    # an array handed over by this very call must come back unchanged
                    lit = op.get("v") or op.get("dir") if op["op"] != "new" else None
                    if isinstance(lit, list) and op["op"] in ("mesh", "set_center", "iadd"):
                        if diff(W.np.array(lit, float), v, **EXACT):
                            raise Violation("argument-changed", f"{where}: argument {lit} became "
                                            f"{v.tolist()}")
            # the caller's parameter objects
            for k, x in w.pool.items():
                s = W._walk(x, 0)
                if k in pool and op["op"] != "edit_pool":
                    st.inc("cmp")
                    d = diff(pool[k], s, **EXACT)
                    if d:
                        raise Violation("argument-changed", f"{where}: the caller's {k} changed: {d}")
                elif k not in pool:
                    # handed over by this very call: must be as a new one is
                    d = diff(W._walk(pool_ref(k, op), 0), s, **EXACT)
                    if d and op["op"] in ("new", "swap"):
                        raise Violation("argument-changed", f"{where}: the {k} handed over was "
                                        f"changed: {d}")
                pool[k] = s
            if op["op"] in ("adapt", "attr", "param", "swap"):
                dirty.update(aff)
            if op["op"] in ("new", "copy") and status == "ok" and n % 3 == 0:
                k = op["id"]
                if op["op"] == "copy" and op["g"] in dirty:
                    dirty.add(k)
                elif kind_obj(w.objs[k]) != "rack":
                    outline[k] = in_fork(lambda: W.profile_sig(w.objs[k], 1))
        for k, s0 in outline.items():
            if k in w.objs and k not in dirty:
                st.inc("cmp")
                d = diff(s0, W.profile_sig(w.objs[k], 1))
                if d:
                    raise Violation("shape-changed", f"tooth outline of {k} changed: {d}")
        now = (default_snaps(), fresh_mesh())
        st.inc("cmp")
        d = diff(ref, now, **EXACT)
        if d:
            raise Violation("defaults-changed", f"gears created later differ: {d}")
        if changes >= 3 and len(w.objs) >= 2:
            st.inc("nontrivial")
        st.add("histories", [o["op"] + str(o.get("g")) for o in sc["ops"]])


def pool_ref(key, op):
    kind_, name = key.split(":")
    args = op.get("spec", {}).get("args", {})
    return W.pool_object({}, kind_, name, args)


def kind_obj(o):
    return "rack" if W.is_rack(o) else "gear"


CHEAP = ["spur", "ring", "cycloid", "cycring", "crowned", "involute", "helical"]


class C07(Isolation):
    id = "C07"
    runs = {"quick": 230, "thorough": 9000}
    rule = ("Each run creates one or two gears (every family, racks, core gears), works on them "
            "(moves, meshes, builds), copies one (also copies of copies), then applies 4-9 further "
            "operations to originals and copies: moves, meshing, adapting, parameter edits with "
            "recalculation, in-place edits, builds, failing builds, discarding the original and "
            "creating others in its place. Non-trivial: something was done to a gear that has a "
            "live copy or original.")

    def gen(self, rng, tier, i):
        fam = pick(rng, *W.FAMILIES, "cycloid", "cycloid", "core")
        ops, ids, specs = [], [], {}

        def new(fam):
            k = f"g{len(specs)}"
            if fam == "core":
                s = {"cls": "Gear", "args": {"number_of_teeth": rng.randint(8, 20),
                                             "module": pick(rng, 1.0, 2.0),
                                             "cone_angle": pick(rng, 0, 0, 1.2)}}
            elif fam == "rack":
                s = rack_design(rng)
            else:
                s = design(rng, fam)
            s.pop("fam", None)
            ops.append({"op": "new", "id": k, "spec": s})
            ids.append(k)
            specs[k] = s
            return k

        a = new(fam)
        b = None
        if rng.random() < 0.6:
            b = new(fam)
        cheap = fam in CHEAP
        for _ in range(rng.randint(0, 3)):
            ops.append(move_op(rng, pick(rng, *ids), ids))
        if b and rng.random() < 0.5:
            m = mesh_op(rng, a, b, specs[a], specs[b])
            if fam == "core":
                m = {"op": "mesh", "g": a, "o": b, "dir": W.rdir_xy(rng)}
            ops.append(m)
        if fam == "cycloid" and b and rng.random() < 0.5:
            ops.append({"op": "adapt", "g": a, "o": b})
        prebuilt = cheap and rng.random() < 0.3
        if prebuilt:
            ops.append({"op": "build", "g": a})
        k = f"g{len(specs)}"
        ops.append({"op": "copy", "g": a, "id": k, "deep": rng.random() < 0.2,
                    "checkbuild": cheap and rng.random() < 0.15})
        ids.append(k)
        specs[k] = specs[a]
        fail_copy = rng.random() < 0.1
        if fail_copy:
            ops.insert(-1, {"op": "copy", "g": a, "id": "gx", "fault": gen_fault(rng, "call")})
        if rng.random() < 0.3:
            k2 = f"g{len(specs)}"
            ops.append({"op": "copy", "g": k, "id": k2})
            ids.append(k2)
            specs[k2] = specs[a]
        for _ in range(rng.randint(3, 8)):
            g = pick(rng, *ids)
            r = rng.random()
            if r < 0.3:
                op = move_op(rng, g, ids)
            elif r < 0.42:
                ps = [o for o in ids if o != g]
                o = pick(rng, *ps)
                op = {"op": "mesh", "g": g, "o": o, "dir": W.rdir_xy(rng)}
            elif r < 0.5 and kind(specs[g]) == "cyc" and fam != "core":
                ps = [o for o in ids if o != g]
                op = {"op": "adapt", "g": g, "o": pick(rng, *ps)}
            elif r < 0.64 and fam not in ("core", "rack"):
                name, val = pick(rng, ("height", 3.3), ("crowning", 40.0), ("backlash", 0.04),
                                 ("module", 1.7), ("z_anchor", 0.6), ("number_of_teeth", 13),
                                 ("root_fillet", 0.12), ("tip_truncation", 0.2),
                                 ("dedendum_coefficient", 1.15), ("angle", 0.7))
                op = {"op": "param", "g": g, "name": name, "value": val}
                if kind(specs[g]) != "bevel" and rng.random() < 0.2:
                    op["name"], op["value"] = "helix_angle", 0.25
            elif r < 0.82 and fam != "rack":
                opts = ["z_vals", "h_o", "fillet", "tooth_param", "scale"]
                if fam != "core":
                    opts += ["module", "input"]
                if kind(specs[g]) == "cyc" and fam != "core":
                    opts += ["coeff", "coeff"]
                op = {"op": "attr", "g": g, "d": round(rng.uniform(0.05, 0.3), 3),
                      "what": pick(rng, *opts)}
            elif r < 0.88 and cheap:
                op = {"op": pick(rng, "build", "update"), "g": g}
                if rng.random() < 0.4:
                    op["fault"] = gen_fault(rng)
            elif r < 0.95 and len(ids) > 2:
                ids.remove(g)
                ops.append({"op": "discard", "g": g})
                s = json.loads(json.dumps(specs[g]))
                s["args"]["number_of_teeth"] = s["args"].get("number_of_teeth", 9) + 1
                k3 = f"g{len(specs)}"
                specs[k3] = s
                op = {"op": "new", "id": k3, "spec": s}
                ids.append(k3)
            elif fam not in ("core", "rack"):
                op = {"op": "read", "g": g, "name": pick(rng, *W.READS)}
            else:
                op = move_op(rng, g, ids)
            ops.append(op)
        return {"ops": ops, "final": rng.random() < (0.22 if cheap else 0.03)}

    def execute(self, sc, st):
        w = World(st)
        last = {}
        level2 = {}     # tooth outline, refreshed when the object itself is changed
        builds = {}     # copy -> part signature at copy time, while untouched
        group = set()   # objects that are a copy or have one
        touched = 0
        for n, op in enumerate(sc["ops"]):
            if op["op"] == "new" and op["id"] in w.objs or not usable(w, op):
                continue
            if op["op"] == "copy":
                ref = in_fork(lambda: snap(w.objs[op["g"]], 2))
            status, _ = do_faulty(w, op, st)
            aff = W.World.affects(op)
            where = f"after op {n} ({op['op']} {op.get('g')} {status})"
            if aff & group:
                touched += 1
            if op["op"] == "copy" and status == "ok":
                k = op["id"]
                group.update((k, op["g"]))
                st.inc("cmp")
                d = diff(ref, in_fork(lambda: snap(w.objs[k], 2)), **EXACT)
                if d:
                    raise Violation("copy-differs", f"{where}: the copy is not identical: {d}")
                for rd in ("r_base", "max_outside_radius", "center_location_top", "z_height"):
                    if hasattr(w.objs[k], "gearcore"):
                        d = diff(W.try_read(w.objs[op["g"]], rd), W.try_read(w.objs[k], rd), **EXACT)
                        if d:
                            raise Violation("copy-differs", f"{where}: {rd}: {d}")
                if hasattr(w.objs[k], "update_part") and (op.get("checkbuild") or sc.get("final")):
                    sig = in_fork(lambda: _sig(w.objs[k].update_part))
                    builds[k] = sig
                    if op.get("checkbuild"):
                        d = _dsig(in_fork(lambda: _sig(w.objs[op["g"]].build_part)), sig)
                        st.inc("cmp")
                        if d:
                            raise Violation("copy-builds-differently", f"{where}: {d}")
                    builds.setdefault(op["g"], in_fork(lambda: _sig(w.objs[op["g"]].update_part)))
            for k, o in list(w.objs.items()):
                s = snap(o, 1)
                if k not in aff and k in last:
                    st.inc("cmp")
                    d = diff(last[k], s, **EXACT)
                    if d:
                        raise Violation("shows-in-other", f"{where}: {k} changed: {d}")
                last[k] = s
            for k in aff:
                if k not in (op.get("id") if op["op"] == "copy" else None,):
                    builds.pop(k, None)
            for k in list(last):
                if k not in w.objs:
                    del last[k]
                    level2.pop(k, None)
            for k in aff:
                if k in w.objs and (op["op"] in ("new", "copy", "attr", "param", "adapt")):
                    level2[k] = in_fork(lambda: W.profile_sig(w.objs[k], 1))
        for k, o in w.objs.items():
            if k in level2:
                st.inc("cmp")
                d = diff(level2[k], W.profile_sig(o, 1))
                if d:
                    raise Violation("shows-in-other", f"tooth outline of {k} changed although "
                                    f"nothing was done to it: {d}")
        if sc.get("final"):
            for k, sig in builds.items():
                if k in w.objs:
                    st.inc("cmp")
                    st.inc("probe:final_build")
                    d = _dsig(sig, _sig(w.objs[k].update_part))
                    if d:
                        raise Violation("shows-in-other", f"the part of {k} changed although nothing "
                                        f"was done to {k}: {d}")
        if touched:
            st.inc("nontrivial")
        st.add("histories", [o["op"] + str(o.get("g")) for o in sc["ops"]])


def _sig(fn):
    try:
        return W.part_sig(fn())
    except Exception as e:
        return "EXC " + type(e).__name__


def _dsig(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else f"{W.short(a)} vs {W.short(b)}"
    return W.diff_parts(a, b)
