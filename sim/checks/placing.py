"""C10 (placement is free of history) and C11 (a gear just meshed really meshes)."""
import json
import math

import world as W
from core import Check, Violation, diff, in_fork
from world import FAILED, World, design, do_faulty, gen_fault, pick, rack_design, snap, usable
from checks.common import (REAL, degenerate, drop_unused, kind, mesh_op, move_op, orientation, partner_ids,
                           simpler_specs)

PLACE_ARGS = ("center", "angle", "position", "orientation", "offset")


def strip_place(spec):
    return {"cls": spec["cls"], "args": {k: v for k, v in spec["args"].items() if k not in PLACE_ARGS}}


def put(o, place):
    """Put a fresh object at a placement."""
    if W.is_rack(o):
        o.position = place["position"].copy()
        o.orientation = place["orientation"].copy()
        o.offset = place["offset"]
    else:
        t = W.tf(o)
        t.center = place["center"].copy()
        t.orientation = place["orientation"].copy()
        t.angle = place["angle"]


class C10(Check):
    id = "C10"
    runs = {"quick": 1200, "thorough": 30000}
    real = REAL
    stubs = ["failures of calls made by the package are injected as exceptions before the call"]
    rule = ("Each run creates 2-4 gears/racks of one family and applies 6-16 operations (moves, turns, "
            "re-orientation, meshing to each other, failed meshing, resets, adapting, reads, copies, "
            "seldom builds). The result of every successful meshing, reset and adapt is compared with "
            "the same operation on freshly created gears (the target put at its current placement), "
            "then repeated. Non-trivial: a gear with a history of at least two operations was placed.")

    def setup(self):
        W.load()

    def gen(self, rng, tier, i):
        fam = pick(rng, *W.FAMILIES, "rack", "rack", "core", "cycloid", "bevel", "helical")
        ops, ids, specs = [], [], {}

        def new(fam):
            k = f"g{len(specs)}"
            if fam == "core":
                s = {"cls": "Gear", "args": {"number_of_teeth": rng.randint(8, 20),
                                             "module": pick(rng, 1.0, 2.0),
                                             "inside_teeth": rng.random() < 0.15,
                                             "cone_angle": core_cone}}
            elif fam == "rack":
                s = rack_design(rng)
            elif specs and rng.random() < 0.5:
                s = W.mate(rng, specs[ids[0]])
            else:
                s = design(rng, fam)
            s.pop("fam", None)
            specs[k] = s
            ids.append(k)
            ops.append({"op": "new", "id": k, "spec": s})

        core_cone = pick(rng, 0, 0, 1.2)
        mate = {"rack": pick(rng, "spur", "helical", "involute"), "ring": "spur", "helring": "helical",
                "cycring": "cycloid"}.get(fam, fam)
        new(fam)
        for _ in range(rng.randint(1, 3)):
            new(mate if rng.random() < 0.85 or fam == "rack" else fam)
        nb = 0
        for _ in range(rng.randint(6, 16)):
            g = ids[0] if rng.random() < 0.5 else pick(rng, *ids)
            sp = specs[g]
            r = rng.random()
            op = None
            if r < 0.42:
                op = move_op(rng, g, ids)
            elif r < 0.75:
                ps = [o for o in ids if o != g and kind(specs[o]) != "rack"]
                if not ps:
                    continue
                o = pick(rng, *ps)
                op = mesh_op(rng, g, o, sp, specs[o])
                if fam == "core":
                    op = {"op": "mesh", "g": g, "o": o, "dir": W.rdir_xy(rng)}
                if rng.random() < 0.25:
                    op["dir"] = {"local": o, "a": round(rng.uniform(-3.1, 3.1), 4)}
                if rng.random() < 0.2:
                    op["fault"] = gen_fault(rng, "call", "fallible")
                elif rng.random() < 0.2:
                    op["twice"] = True
            elif r < 0.81 and kind(sp) not in ("rack", "cyc") and fam != "core":
                op = {"op": "reset", "g": g}
            elif r < 0.88 and kind(sp) == "cyc":
                ps = [o for o in ids if o != g and kind(specs[o]) == "cyc"]
                if ps:
                    op = {"op": "adapt", "g": g, "o": pick(rng, *ps)}
            elif r < 0.95 and kind(sp) != "rack" and fam != "core":
                op = {"op": "read", "g": g, "name": pick(rng, *W.READS)}
            elif nb < 1 and kind(sp) != "bevel" and fam != "core" and rng.random() < 0.15:
                op = {"op": "build", "g": g}
                nb += 1
            if op:
                ops.append(op)
        return {"ops": ops}

    def simpler(self, sc):
        yield from drop_unused(sc)
        yield from simpler_specs(sc)

    def signature(self, sc):
        return [[o["op"], o.get("g"), o.get("o"), o.get("spec"), o.get("dir"),
                 (o.get("fault") or {}).get("site")] for o in sc["ops"]]

    def execute(self, sc, st):
        w = World(st)
        hist = {}
        good = 0
        for n, op in enumerate(sc["ops"]):
            if op["op"] == "new" and op["id"] in w.objs or not usable(w, op):
                continue
            ref = None
            g = op.get("g")
            where = f"op {n} ({op['op']} {g} {op.get('o', '')})"
            if op["op"] == "mesh" and not op.get("fault"):
                ref = in_fork(lambda: self.fresh_mesh(w, op))
            elif op["op"] == "adapt":
                ref = in_fork(lambda: self.fresh_adapt(w, op))
                before = [W.placement(w.objs[k]) for k in (g, op["o"])]
            status, val = do_faulty(w, op, st)
            if op["op"] == "mesh" and ref is not None:
                st.inc("cmp")
                if status != ref[0]:
                    if bad_place(w.objs[g]) or bad_place(w.objs[op["o"]]):
                        return
                    raise Violation("history-dependent", f"{where}: {status} {W.short(val)}, with fresh "
                                    f"gears {ref[0]} {W.short(ref[1])}")
                if status == "ok":
                    if degenerate(ref[1], w.objs[op["o"]]) and degenerate(val, w.objs[op["o"]]):
                        return
                    d = diff(ref[1], val, rtol=1e-7, atol=1e-7)
                    if d:
                        raise Violation("history-dependent", f"{where}: fresh gears are placed "
                                        f"differently: {d}")
                    if hist.get(g, 0) >= 2:
                        good += 1
                    if op.get("twice"):
                        st.inc("cmp")
                        _, v2 = do_faulty(w, op, st)
                        d = diff(val, v2, rtol=1e-7, atol=1e-7)
                        if d:
                            raise Violation("not-repeatable", f"{where}: repeating it gives {d}")
                if bad_place(w.objs[g]):
                    return      # degenerate input (e.g. concentric, incompatible): nothing to follow
            if op["op"] == "reset" and status == "ok":
                st.inc("cmp")
                p = W.placement(w.objs[g])
                d = diff({"c": W.np.zeros(3), "o": W.np.eye(3), "a": 0.0},
                         {"c": p["center"], "o": p["orientation"], "a": p["angle"]},
                         rtol=1e-12, atol=1e-12)
                if d:
                    raise Violation("reset-wrong", f"{where}: {d}")
                good += 1
            if op["op"] == "adapt" and status == "ok":
                st.inc("cmp")
                after = [W.placement(w.objs[k]) for k in (g, op["o"])]
                d = diff(before, after, rtol=1e-12, atol=1e-12)
                if d:
                    raise Violation("adapt-moved", f"{where}: {d}")
                d = diff(ref, [shape_only(w.objs[k]) for k in (g, op["o"])], rtol=1e-9, atol=1e-9)
                if d:
                    raise Violation("history-dependent", f"{where}: fresh gears are adapted "
                                    f"differently: {d}")
                good += 1
            if g:
                hist[g] = hist.get(g, 0) + 1
        if good:
            st.inc("nontrivial")
        st.add("histories", [o["op"] + str(o.get("g")) for o in sc["ops"]])

    def fresh_mesh(self, w, op):
        """The same meshing between newly created gears, the target put where it is now."""
        v = World()
        v.objs = dict(w.objs)
        args = w.args
        v.args = []
        real_o = w.objs[op["o"]]
        d = op.get("dir")
        if isinstance(d, dict):
            op = dict(op)
            op["dir"] = [float(x) for x in w.vec(d)]
        g = W.make(strip_place(w.specs[op["g"]]))
        o = W.make(strip_place(w.specs[op["o"]]))
        put(o, W.placement(real_o))
        v.objs = {op["g"]: g, op["o"]: o}
        return do_faulty(v, op)

    def fresh_adapt(self, w, op):
        out = {}
        v = World()
        for k in (op["g"], op["o"]):
            s = strip_place(w.specs[k])
            o = w.objs[k]
            s["args"]["inside_cycloid_coefficient"] = o.inside_cycloid_coefficient
            s["args"]["outside_cycloid_coefficient"] = o.outside_cycloid_coefficient
            v.objs[k] = W.make(s)
        do_faulty(v, op)
        return [shape_only(v.objs[k]) for k in (op["g"], op["o"])]


def shape_only(o):
    s = snap(o, 1)
    s.pop("place")
    s["params"].get("input", {}).pop("center", None)
    s["params"].get("input", {}).pop("angle", None)
    return s


def bad_place(o):
    p = W.placement(o)
    return not all(W.np.isfinite(x).all() for x in p.values()) or (
        abs(W.np.linalg.det(p["orientation"]) - 1) > 1e-6)


# ------------------------------------------------------------------ C11
def inv(a):
    return math.tan(a) - a


def inv_inverse(y):
    """Angle whose involute is y (y > 0)."""
    lo, hi = 0.0, 1.5
    for _ in range(200):
        mid = (lo + hi) / 2
        if inv(mid) < y:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


DEFAULTS = {"SpurGear": {}, "SpurRingGear": {}, "HelicalGear": {"helix_angle": math.pi / 6},
            "HelicalRingGear": {"helix_angle": math.pi / 6}, "InvoluteGear": {}, "BevelGear": {},
            "CycloidGear": {}}


class Geo:
    """Tooth geometry of a design from textbook formulas (transverse section)."""

    def __init__(self, spec):
        a = spec["args"]
        d = dict(DEFAULTS.get(spec["cls"], {}))
        d.update(a)
        self.z = a["number_of_teeth"]
        self.cls = spec["cls"]
        m = d.get("module", 1.0)
        al = d.get("pressure_angle", math.radians(20))
        x = d.get("profile_shift", 0.0)
        self.beta = d.get("helix_angle", 0.0)
        self.ring = self.cls in ("SpurRingGear", "HelicalRingGear") or d.get("inside_teeth", False)
        if self.cls in ("HelicalGear", "HelicalRingGear"):
            cb = math.cos(self.beta)
            m, al, x = m / cb, math.atan(math.tan(al) / cb), x * cb
        self.m = m
        self.x = x
        self.rp = m * self.z / 2
        self.rb = self.rp * math.cos(al)
        rp1 = self.z / 2
        self.half = math.pi / (2 * self.z) + x * math.tan(al) / rp1 - d.get("backlash", 0.0) / rp1
        self.half_base = self.half + inv(al)
        self.pitch = 2 * math.pi / self.z
        self.cone = d.get("cone_angle", 0.0)
        self.crowned = d.get("crowning", 0) != 0


def working_distance(g1, g2, backlash):
    """Centre distance of two involute gears (None: no such distance)."""
    if g1.ring or g2.ring:
        r, p = (g1, g2) if g1.ring else (g2, g1)
        y = (r.rb * r.half_base - p.rb * p.half_base - backlash / 2) / (r.rb - p.rb)
        if y <= 1e-6:
            return None
        return (r.rb - p.rb) / math.cos(inv_inverse(y))
    y = (g1.rb * g1.half_base + g2.rb * g2.half_base - g2.rb * math.pi / g2.z + backlash / 2) / (
        g1.rb + g2.rb)
    if y <= 1e-6:
        return None
    return (g1.rb + g2.rb) / math.cos(inv_inverse(y))


def local_angle(v, R):
    u = W.np.asarray(v) @ R
    return math.atan2(u[1], u[0])


def frac_dist(x, target):
    d = (x - target) % 1.0
    return min(d, 1 - d)


def check_pair(op, sa, sb, a, b, dirv, st):
    """The oracle for one pair just meshed."""
    np = W.np
    g1, g2 = Geo(sa) if kind(sa) != "rack" else None, Geo(sb)
    pb = W.placement(b)
    zb = pb["orientation"][:, 2]
    u = dirv / np.linalg.norm(dirv)
    backlash = op.get("backlash") or 0.0
    if kind(sa) == "rack":
        return check_rack(op, sa, a, g2, pb, u, st)
    pa = W.placement(a)
    za = pa["orientation"][:, 2]
    if np.abs(pa["orientation"] @ pa["orientation"].T - np.eye(3)).max() > 1e-9 or \
            np.linalg.det(pa["orientation"]) < 0:
        raise Violation("orientation", f"not a rotation: {pa['orientation'].tolist()}")
    cd = pa["center"] - pb["center"]
    size = max(g1.rp, g2.rp)
    st.inc("cmp", 3)
    ring = g1.ring or g2.ring
    if g1.cone or g2.cone:
        R1 = g1.rp / math.sin(g1.cone / 2)
        R2 = g2.rp / math.sin(g2.cone / 2)
        apex1 = pa["center"] + za * R1 * math.cos(g1.cone / 2)
        apex2 = pb["center"] + zb * R2 * math.cos(g2.cone / 2)
        if np.linalg.norm(apex1 - apex2) > 1e-6 * max(R1, R2):
            raise Violation("distance", f"the cone apexes are {np.linalg.norm(apex1 - apex2):.4g} apart")
        ang = math.acos(max(-1, min(1, float(za @ zb))))
        want = (g1.cone + g2.cone) / 2 if not ring else abs(g1.cone - g2.cone) / 2
        if abs(ang - want) > 1e-7:
            raise Violation("axes", f"axis angle {ang:.6f}, should be {want:.6f}")
        # both pitch cones touch along the line towards the target direction
        c = u * math.sin(g2.cone / 2) - zb * math.cos(g2.cone / 2)
        if abs(float(c @ -za) - math.cos(g1.cone / 2)) > 1e-7:
            raise Violation("distance", "the pitch cones do not touch on the target side")
        if abs(cd @ np.cross(zb, u)) > 1e-6 * R1:
            raise Violation("axes", "the gear is off the plane through axis and target direction")
    else:
        if kind(sa) == "cyc":
            want = abs(g1.rp - g2.rp) if ring else g1.rp + g2.rp
        else:
            want = working_distance(g1, g2, backlash)
            if g1.crowned or g2.crowned:
                want = None
        dist = float(np.linalg.norm(cd))
        if want is not None and abs(dist - want) > 2e-6 * size:
            raise Violation("distance", f"centre distance {dist!r}, should be {want!r}")
        if abs(cd @ zb) > 1e-7 * size:
            raise Violation("distance", "the centres are not in one plane")
        along = float(cd @ u)
        inside = g2.ring and not g1.ring and g2.rp - g1.rp > 0.1 * g2.rp
        if abs(abs(along) - dist) > 1e-6 * size or (along < 0 and (not ring or inside)):
            raise Violation("distance", "the gear is not in the target direction")
        bsum = g1.beta + g2.beta if sa["cls"] == "HelicalGear" else 0.0
        ang = math.acos(max(-1, min(1, float(za @ zb))))
        if abs(abs(ang) - min(abs(bsum), 2 * math.pi - abs(bsum))) > 2e-7:
            raise Violation("axes", f"axis angle {ang!r}, should be {abs(bsum)!r}")
        if abs(za @ cd) > 1e-7 * size:
            raise Violation("axes", "the axis is not perpendicular to the centre line")
        if bsum:
            # sense of the crossing: the teeth must run in the same direction at the contact
            t1 = tooth_direction(g1, pa, -cd / dist)
            t2 = tooth_direction(g2, pb, cd / dist)
            if np.linalg.norm(np.cross(t1, t2)) > 1e-6:
                raise Violation("axes", "the tooth directions differ at the contact")
    # phase
    n = np.linalg.norm(cd)
    if n < 1e-9 * size:
        return
    c12 = -cd / n       # from a to b
    if ring:
        c = c12 if g1.ring else -c12
        f1 = (local_angle(c, pa["orientation"]) - pa["angle"]) / g1.pitch
        f2 = (local_angle(c, pb["orientation"]) - pb["angle"]) / g2.pitch
        bias = bias_phase(op, g1)
        miss = frac_dist(f1 + bias - f2, 0.0)
    else:
        f1 = (local_angle(c12, pa["orientation"]) - pa["angle"]) / g1.pitch
        f2 = (local_angle(-c12, pb["orientation"]) - pb["angle"]) / g2.pitch
        miss = frac_dist(f1 + bias_phase(op, g1) + f2, 0.5)
    st.inc("cmp")
    if miss > 1e-6:
        raise Violation("phase", f"teeth are {miss:.6f} of a pitch away from the gaps")


def bias_phase(op, g1):
    """Turn within the backlash, as a fraction of the pitch."""
    return (op.get("angle_bias") or 0.0) / 2 * (op.get("backlash") or 0.0) / g1.rb / g1.pitch


def tooth_direction(g, place, c):
    """Direction of the tooth flank line at the contact point (unit vector)."""
    np = W.np
    z = place["orientation"][:, 2]
    t = np.cross(z, c)
    v = math.cos(g.beta) * z + math.sin(g.beta) * t
    return v / np.linalg.norm(v)


def check_rack(op, sa, rack, g2, pb, u, st):
    np = W.np
    p = W.placement(rack)
    z = pb["orientation"][:, 2]
    st.inc("cmp", 4)
    want = pb["center"] + u * (g2.rp + g2.x * g2.m)
    if np.linalg.norm(p["position"] - want) > 1e-7 * g2.rp:
        raise Violation("distance", f"rack at {p['position'].tolist()}, should be at {want.tolist()}")
    R = p["orientation"]
    if np.linalg.norm(R[:, 0] + u) > 1e-7 or np.linalg.norm(R[:, 2] - z) > 1e-7 or \
            np.linalg.norm(R[:, 1] + np.cross(z, u)) > 1e-7:
        raise Violation("axes", f"rack orientation {R.tolist()}")
    f = (local_angle(u, pb["orientation"]) - pb["angle"]) / g2.pitch
    miss = frac_dist(f - p["offset"], 0.5)
    if miss > 1e-6:
        raise Violation("phase", f"rack teeth are {miss:.6f} of a pitch away from the gaps")


def compatible(rng, fam, n):
    """n designs that can mesh with each other."""
    m = pick(rng, 1.0, 1.0, 0.5, 2.0, 3.0)
    out = []
    if fam in ("bevel", "cyccone"):
        while True:
            z = [rng.randint(9, 30) for _ in range(2)]
            sig = pick(rng, math.pi / 2, math.pi / 2, 1.2, 1.9)
            g1 = math.atan2(math.sin(sig), z[1] / z[0] + math.cos(sig))
            gam = [g1, sig - g1]
            if max(gam) < 1.5:
                break
        beta = pick(rng, 0.0, 0.0, 0.0, 0.3)
        for k in range(n):
            s = {"cls": "BevelGear" if fam == "bevel" else "CycloidGear",
                 "args": {"number_of_teeth": z[k % 2], "module": m, "height": m,
                          "cone_angle": 2 * gam[k % 2]}}
            if beta:
                s["args"]["helix_angle"] = beta * (1 if k % 2 else -1)
            W.placement_args(rng, s["args"])
            out.append(s)
        return out
    al = pick(rng, None, None, math.radians(14.5), math.radians(25))
    beta = pick(rng, 0.3, 0.5, -0.4)
    for k in range(n):
        a = {"number_of_teeth": rng.randint(8, 40), "module": m, "height": m}
        cls = {"spur": "SpurGear", "ring": "SpurGear", "helical": "HelicalGear",
               "crossed": "HelicalGear", "helring": "HelicalGear", "involute": "InvoluteGear",
               "cycloid": "CycloidGear", "cycring": "CycloidGear", "rack": "SpurGear",
               "helrack": "HelicalGear", "herring": "HelicalGear"}[fam]
        ring = fam in ("ring", "helring", "cycring") and k == 0
        if ring:
            cls = {"ring": "SpurRingGear", "helring": "HelicalRingGear", "cycring": "CycloidGear"}[fam]
            a["number_of_teeth"] = rng.randint(50, 70)
            if fam == "cycring":
                a["inside_teeth"] = True
        if cls in ("HelicalGear", "HelicalRingGear"):
            a["helix_angle"] = beta * (1 if k % 2 else -1)
            if fam == "helring":
                a["helix_angle"] = beta
            if fam == "crossed":
                a["helix_angle"] = pick(rng, 0.3, 0.5, -0.2, 0.7)
            if fam == "herring":
                a["herringbone"] = True
        if cls != "CycloidGear":
            if al:
                a["pressure_angle"] = al
            if rng.random() < 0.4:
                a["profile_shift"] = pick(rng, 0.1, 0.2, 0.3, -0.1, -0.2)
            if rng.random() < 0.3 and not ring:
                a["addendum_coefficient"] = 0.9
        if rng.random() < 0.2:
            a["backlash"] = pick(rng, 0.02, 0.04)
        W.placement_args(rng, a)
        if fam == "herring":
            a.pop("z_anchor", None)
        out.append({"cls": cls, "args": a})
    if fam in ("rack", "helrack"):
        r = {"cls": "InvoluteRack", "args": {"number_of_teeth": rng.randint(4, 9), "module": m,
                                             "height": m}}
        if al:
            r["args"]["pressure_angle"] = al
        if fam == "helrack":
            r["cls"] = "HelicalRack"
            r["args"]["helix_angle"] = -out[0]["args"]["helix_angle"]
        if rng.random() < 0.5:
            r["args"]["position"] = W.rvec(rng)
        if rng.random() < 0.5:
            r["args"]["offset"] = round(rng.uniform(-2, 2), 3)
        out.append(r)
    return out


class C11(Check):
    id = "C11"
    runs = {"quick": 1200, "thorough": 50000}
    real = REAL
    stubs = ["failures of calls made by the package are injected as exceptions before the call"]
    rule = ("Each run creates a train of 2-5 compatible gears (external, internal, helical parallel and "
            "crossed, herringbone, bevel, conic and plain cycloid, racks; common module and pressure "
            "angle, own tooth numbers, profile shifts and backlash) at random placements and applies "
            "6-18 operations: move, turn, re-orient any gear, mesh one gear to another in a direction "
            "in the partner's plane (with backlash and bias where supported), failing meshes, reset, "
            "re-meshing the whole train link by link. After every successful meshing the pair is checked "
            "against textbook gear geometry (centre distance from the involute equation, axis relation, "
            "tooth phase); in part of the runs also by intersecting the actual outlines. Non-trivial: "
            "at least two meshes were checked.")
    assumptions = ["direction perpendicular to the partner's axis", "crowned gears: phase and axes only",
                   "pairs whose involute equation has no solution (too thin teeth) are skipped"]

    FAMS = ["spur", "spur", "ring", "helical", "crossed", "helring", "involute", "cycloid", "cycring",
            "rack", "helrack", "herring", "bevel", "bevel", "cyccone"]

    def setup(self):
        W.load()

    def gen(self, rng, tier, i):
        fam = pick(rng, *self.FAMS)
        n = rng.randint(2, 5)
        specs = compatible(rng, fam, n)
        ids = [f"g{k}" for k in range(len(specs))]
        ops = [{"op": "new", "id": k, "spec": s} for k, s in zip(ids, specs)]
        sp = dict(zip(ids, specs))

        def links():
            """Pairs (moved, target) that can mesh."""
            out = []
            for x in ids:
                for y in ids:
                    if x == y or kind(sp[y]) == "rack":
                        continue
                    gx = sp[x]
                    gy = sp[y]
                    rx = gx["cls"] in ("SpurRingGear", "HelicalRingGear") or gx["args"].get("inside_teeth")
                    ry = gy["cls"] in ("SpurRingGear", "HelicalRingGear") or gy["args"].get("inside_teeth")
                    if rx and ry:
                        continue
                    if kind(gx) == "rack" and fam == "helrack" and \
                            abs(gx["args"]["helix_angle"] + gy["args"]["helix_angle"]) > 1e-9:
                        continue
                    if fam in ("bevel", "cyccone") and ids.index(x) % 2 == ids.index(y) % 2:
                        continue
                    if fam in ("helical", "herring") and gx["args"]["helix_angle"] * \
                            gy["args"]["helix_angle"] > 0 and rng.random() < 0.5:
                        continue
                    out.append((x, y))
            return out

        def mesh(x, y):
            op = {"op": "mesh", "g": x, "o": y, "dir": {"local": y, "a": round(rng.uniform(-3.14, 3.14), 4)}}
            if rng.random() < 0.2:
                op["dir"]["a"] = pick(rng, 0.0, math.pi / 2, math.pi, -math.pi / 2)
            if kind(sp[x]) == "inv" and sp[x]["cls"] != "HelicalGear" and rng.random() < 0.3:
                op["backlash"] = pick(rng, 0.05, 0.1, 0.02)
                if rng.random() < 0.5:
                    op["angle_bias"] = pick(rng, 1.0, -1.0, 0.5)
            if kind(sp[x]) == "rack" and rng.random() < 0.4:
                op["offset"] = pick(rng, 1, -2, 3)
            return op

        ls = links()
        for _ in range(rng.randint(6, 14)):
            r = rng.random()
            g = pick(rng, *ids)
            if r < 0.45 and ls:
                op = mesh(*pick(rng, *ls))
                if rng.random() < 0.15:
                    op["fault"] = gen_fault(rng, "call", "fallible")
                ops.append(op)
            elif r < 0.85:
                ops.append(move_op(rng, g, ids))
            elif r < 0.9 and kind(sp[g]) == "inv":
                ops.append({"op": "reset", "g": g})
            elif r < 0.93 and kind(sp[g]) == "cyc" and fam == "cycloid" and len(ids) > 1:
                ops.append({"op": "adapt", "g": g, "o": pick(rng, *[x for x in ids if x != g])})
            elif ls:
                # the whole train, link by link
                chain = [ids[0]]
                rest = ids[1:]
                for x in rest:
                    c = [y for y in chain if (x, y) in ls]
                    if c:
                        ops.append(mesh(x, c[-1]))
                        chain.append(x)
        return {"ops": ops, "fam": fam, "overlap": rng.random() < 0.08}

    def simpler(self, sc):
        yield from drop_unused(sc)
        yield from simpler_specs(sc, keep=("module", "pressure_angle", "inside_teeth", "herringbone"))

    def signature(self, sc):
        return [[o["op"], o.get("g"), o.get("o"), o.get("spec"), o.get("dir"),
                 (o.get("fault") or {}).get("site")] for o in sc["ops"]]

    def execute(self, sc, st):
        w = World(st)
        good = 0
        last = None
        for n, op in enumerate(sc["ops"]):
            if op["op"] == "new" and op["id"] in w.objs or not usable(w, op):
                continue
            dirv = None
            if op["op"] == "mesh":
                dirv = w.vec(op["dir"]).copy()
            status, val = do_faulty(w, op, st)
            if op["op"] == "mesh":
                if status != "ok":
                    if not op.get("fault"):
                        raise Violation("cannot-mesh", f"op {n}: {op['g']} to {op['o']}: {val}")
                    continue
                try:
                    check_pair(op, w.specs[op["g"]], w.specs[op["o"]], w.objs[op["g"]], w.objs[op["o"]],
                               dirv, st)
                except Violation as v:
                    raise Violation(v.cls, f"op {n} ({op['g']} to {op['o']}): {v.detail}")
                good += 1
                last = op
            elif last and op.get("g") in (last["g"], last["o"]) or op["op"] == "adapt":
                last = None
        if sc.get("overlap") and last:
            # only meaningful while both are where the last meshing put them
            self.overlap(w, last, st)
        if good >= 2:
            st.inc("nontrivial")
        st.add("histories", [o["op"] + str(o.get("g")) for o in sc["ops"]])

    def overlap(self, w, op, st):
        """The actual outlines of the pair must not overlap (half a pitch away they must)."""
        import shapely
        np = W.np
        sa, sb = w.specs[op["g"]], w.specs[op["o"]]
        a, b = w.objs[op["g"]], w.objs[op["o"]]
        pb = W.placement(b)
        za = W.placement(a)["orientation"][:, 2]
        if abs(abs(float(za @ pb["orientation"][:, 2])) - 1) > 1e-9 or sa["args"].get("cone_angle") or \
                sa["cls"] == "HelicalRack":
            return

        def flat(pts):
            return shapely.Polygon(((pts - pb["center"]) @ pb["orientation"])[:, :2])

        def outline(g, turn=0.0):
            g = g.copy()
            g.angle += turn
            c = g.gearcore.boundary_at_z(0.0)
            n = g.gearcore.tooth_param.num_teeth * 40
            return flat(np.array([c(float(s)) for s in np.linspace(0, 1, n, endpoint=False)]))

        m = sb["args"].get("module", 1.0)
        pitch = 2 * math.pi / sb["args"]["number_of_teeth"]

        if kind(sa) == "rack":
            part = a.build_part()
            R = W.placement(a)["orientation"]
            face = min(part.faces(), key=lambda f: np.array(tuple(f.center())) @ R[:, 2])
            pts = [tuple(face.outer_wire().position_at(u)) for u in np.linspace(0, 1, 1500)[:-1]]
            A = flat(np.array(pts))
        else:
            A = outline(a)

        def common(B):
            if Geo(sb).ring:
                return A.difference(B).area
            if kind(sa) != "rack" and Geo(sa).ring:
                return B.difference(A).area
            return A.intersection(B).area

        now, off = common(outline(b)), common(outline(b, pitch / 2))
        st.inc("cmp")
        st.inc("probe:overlap")
        if off < 0.5 * m * m:
            st.inc("probe:overlap_vacuous")
        if now > max(0.1 * m * m, 0.06 * off):
            raise Violation("overlap", f"the outlines of {op['g']} and {op['o']} overlap by {now:.4g} "
                            f"(half a pitch away: {off:.4g})")
