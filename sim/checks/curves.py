"""C08: copied, cut, converted or filleted curves are independent of their source."""
import json
import math

import world as W
import inject
from core import Check, Violation, diff, in_fork
from world import gen_fault, pick, rvec
from checks.common import REAL

S = (0.0, 0.13, 0.37, 0.5, 0.71, 0.94, 1.0)
BASIC = ["line", "arc", "arc2", "arc3", "arc4", "arc5", "involute", "sphinv", "octoid", "cycloid", "cyccone", "nurb", "func",
         "tooth"]
PLAIN = ("line", "arc", "arc2", "arc3", "arc4", "arc5", "involute", "sphinv", "octoid", "cycloid",
         "cyccone", "rotated", "mirrored")
VIEWS = ["rotated", "mirrored", "transformed", "gtransform"]
PRODUCE = ("copy", "cut", "fillet", "fillet_at", "convert", "transform")


class Ctx:
    def __init__(self, st):
        self.c = {}
        self.parent = {}      # id -> ids it is a view of / made of
        self.type = {}        # basic | view | chain
        self.st = st


def plus(t, a=1.0, b=2.0):
    return W.np.array([a * t, b * t * t, t])


class Shift:
    """A transform with state of its own."""

    def __init__(self, v):
        self.v = W.np.array(v, float)

    def __call__(self, p):
        return p + self.v


def rot90(p):
    p = W.np.asarray(p)
    return p @ W.np.array([[0.0, 1, 0], [-1, 0, 0], [0, 0, 1]]) + W.np.array([1.0, 2.0, 0.5])


def method(op):
    """The transform of a "transform" operation."""
    m = op.get("by", "rot90")
    if m == "same":
        return W.np.array
    if m == "shift":
        return Shift([0.0, 0.0, 1.5])
    if m == "gear":
        return W.gg.GearTransform(center=W.np.array([0.0, 1.0, 0.0]))
    if m == "gear0":
        return W.gg.GearTransform()
    return rot90


def make(ctx, op):
    gg, np = W.gg, W.np
    a = op["a"]
    k = op["kind"]
    act = op.get("active", True)
    if op.get("plain"):      # as many defaults as possible
        return {"line": lambda: gg.LineCurve(p1=np.array(a["p1"])),
                "arc": lambda: gg.ArcCurve(radius=a["r"], angle=a["ang"]),
                "arc2": lambda: gg.ArcCurve(),
                "arc3": lambda: gg.ArcCurve.from_point_center_angle(),
                "arc4": lambda: gg.ArcCurve.from_2_point_center(),
                "arc5": lambda: gg.ArcCurve.from_radius_center_angle(),
                "involute": lambda: gg.InvoluteCurve(),
                "sphinv": lambda: gg.SphericalInvoluteCurve(r=a["r"], c_sphere=0.2),
                "octoid": lambda: gg.OctoidCurve(r=a["r"], c_sphere=0.2),
                "cycloid": lambda: gg.CycloidCurve(rb=a["r"]),
                "cyccone": lambda: gg.CycloidConicCurve(rb=a["r"], C=0.1),
                "rotated": lambda: gg.RotatedCurve(ctx.c[op["of"][0]], angle=a["x"]),
                "mirrored": lambda: gg.MirroredCurve(ctx.c[op["of"][0]])}[k]()
    if k == "line":
        return gg.LineCurve(np.array(a["p0"]), np.array(a["p1"]), active=act)
    if k == "arc":
        return gg.ArcCurve(radius=a["r"], angle=a["ang"], center=np.array(a["p0"]), yaw=a["x"],
                           pitch=a["y"], active=act)
    if k == "arc2":
        return gg.ArcCurve.from_2_point_curvature(np.array(a["p0"]), np.array(a["p1"]), 0.1, active=act)
    if k == "arc3":
        return gg.ArcCurve.from_point_center_angle(np.array(a["p0"]), np.array(a["p1"]), a["ang"],
                                                   active=act)
    if k == "arc4":
        return gg.ArcCurve.from_2_point_center(np.array(a["p0"]), np.array(a["p1"]),
                                               np.array(a["pts"][0]), active=act)
    if k == "arc5":
        return gg.ArcCurve.from_radius_center_angle(a["r"], np.array(a["p0"]), a["x"],
                                                    a["x"] + a["ang"],
                                                    axis=np.array([0.0, 0.6, 0.8]), active=act)
    if k == "involute":
        return gg.InvoluteCurve(r=a["r"], t0=0.1, t1=0.1 + a["ang"], angle=a["x"],
                                v_offs=np.array(a["p0"]), active=act)
    if k == "sphinv":
        return gg.SphericalInvoluteCurve(r=a["r"], t0=0.1, t1=0.1 + a["ang"] / 3, angle=a["x"],
                                         c_sphere=0.5 / a["r"], active=act)
    if k == "octoid":
        return gg.OctoidCurve(r=a["r"], t0=0.05, t1=0.05 + a["ang"] / 4, angle=a["x"],
                              c_sphere=0.5 / a["r"], active=act)
    if k == "cycloid":
        return gg.CycloidCurve(rb=a["r"], rc=a["r"] / 3, angle=a["x"], t0=0.0, t1=a["ang"] / 3,
                               v_offs=np.array(a["p0"]), active=act)
    if k == "cyccone":
        return gg.CycloidConicCurve(rb=a["r"], rc=a["r"] / 3, angle=a["x"], C=0.5 / a["r"], t0=0.0,
                                    t1=a["ang"] / 3, active=act)
    if k == "nurb":
        return gg.NurbCurve(np.array(a["pts"], float), np.array([1.0, 0.8, 1.2, 1.0]), active=act)
    if k == "func":
        return gg.Curve(plus, params={"a": a["r"], "b": a["ang"]}, t0=0.1, t1=1.3, active=act)
    if k == "tooth":
        g = gg.SpurGear(9 if a["x"] > 0 else 12)
        return g.gearcore.curve_gen_at_z(0.0).profile
    if k == "nurbs":
        pts = np.array(a["pts"] + [rv for rv in a["pts2"]], float)
        return gg.NURBSCurve.from_points(pts, knots=np.array([0, 3, 6]))
    m = [ctx.c[i] for i in op["of"]]
    if k == "chain":
        return gg.CurveChain(*m)
    if k == "joined":       # lines joined end to end: something that can be filleted
        p = [np.array(x) for x in a["path"]]
        return gg.CurveChain(*[gg.LineCurve(p[i], p[i + 1]) for i in range(len(p) - 1)])
    if k == "rotated":
        return gg.RotatedCurve(m[0], angle=a["x"], axis=np.array([0.0, 0.3, 1.0]),
                               center=np.array(a["p0"]))
    if k == "mirrored":
        return gg.MirroredCurve(m[0], plane_normal=np.array([1.0, 0.4, 0.0]), center=np.array(a["p0"]))
    if k == "transformed":
        return gg.TransformedCurve(Shift(a["p0"]), m[0])
    if k == "gtransform":
        t = gg.GearTransform(center=np.array(a["p0"]), angle=a["x"])
        return gg.TransformedCurve(t, m[0])
    if k == "sum":
        return m[0] + m[1]
    if k == "difference":
        return m[0] - m[1]
    if k == "scaled":
        return m[0] * a["r"]
    if k == "divided":
        return m[0] / a["r"]
    raise AssertionError(k)


def obs(c):
    """What can be seen of a curve."""
    out = {"type": type(c).__name__}
    try:
        out["active"] = bool(c.active)
        out["length"] = float(c.length)
    except Exception as e:
        out["length"] = "EXC " + type(e).__name__
    pts = []
    for s in S:
        try:
            with W.np.errstate(all="ignore"):
                pts.append(W.np.asarray(c(s), float).copy())
        except Exception as e:
            pts.append("EXC " + type(e).__name__)
    out["pts"] = pts
    return out


EDITS = {
    "LineCurve": ["p0", "p1", "p0[]", "p1[]"], "ArcCurve": ["radius", "center", "center[]", "rotmat"],
    "InvoluteCurve": ["r", "angle", "v_offs", "v_offs[]", "z_offs"],
    "SphericalInvoluteCurve": ["r", "angle", "z_offs", "c_sphere"],
    "OctoidCurve": ["r", "angle", "alpha", "z_offs"],
    "CycloidCurve": ["rb", "rc", "angle", "v_offs", "v_offs[]"],
    "CycloidConicCurve": ["rb", "rc", "angle"],
    "NurbCurve": ["points", "points[]", "weights[]", "apply"],
    "NURBSCurve": ["apply", "setpoints", "continuity"],
    "RotatedCurve": ["angle", "axis", "center", "center[]"],
    "MirroredCurve": ["plane_normal", "center", "center[]"],
    "TransformedCurve": ["tm"], "Curve": ["params"],
    "CurveChain": ["append", "pop", "delinactive", "member", "deactivate", "setitem", "extend",
                   "insert", "clear"],
}


def edit(c, u, d):
    """Re-parameterise a curve (which parameter: u in 0..1)."""
    np = W.np
    names = EDITS[type(c).__name__]
    n = names[min(int(u * len(names)), len(names) - 1)]
    if n.endswith("[]"):
        arr = getattr(c, n[:-2])
        if n == "weights[]":
            arr[1] += d
        elif n == "points[]":
            arr[1] += d
        else:
            arr[0] += d
    elif n == "apply":
        c.apply_transform(Shift([d, 2 * d, 0]))
    elif n == "setpoints":
        p = c.points.copy()
        p[:, 1] += d
        c.points = p
    elif n == "continuity":
        # (pieces made from one array share their joint point: edit by assignment)
        for m in c.curves:
            m.points = m.points * (1 + d / 10)
            d = -d
        c.enforce_continuity()
    elif n == "tm":
        t = c.transform_method
        if isinstance(t, Shift):
            t.v += d
        else:
            t.center += d
            t.angle += d
    elif n == "params":
        for k in sorted(c.params):
            if isinstance(c.params[k], float):
                c.params[k] += d
                break
    elif n == "rotmat":
        c.rotmat = W.rotmat([0.1, d, 0.2])
    elif n == "points":
        c.points = c.points + d
    elif n in ("p0", "p1", "center", "v_offs"):
        setattr(c, n, getattr(c, n) + np.array([d, -d, 0.0]))
    elif n == "axis":
        c.axis = np.array([0.0, 0.0, 1.0]) if d > 0 else np.array([1.0, 0.0, 0.0])
    elif n == "plane_normal":
        c.plane_normal = np.array([0.0, 1.0, 0.0]) if d > 0 else np.array([1.0, 0.0, 0.0])
    elif n == "append":
        c.append(W.gg.LineCurve(np.array([d, 0.0, 0.0]), np.array([0.0, 1.0, d])))
    elif n == "setitem":
        c[0] = W.gg.LineCurve(np.array([d, 0.0, 0.0]), np.array([0.0, 1.0, d]))
    elif n == "extend":
        c.extend([W.gg.LineCurve(np.array([d, 0.0, 0.0]), np.array([0.0, 1.0, d]))])
    elif n == "insert":
        c.insert(0, W.gg.LineCurve(np.array([d, 0.0, 0.0]), np.array([0.0, 1.0, d])))
    elif n == "clear":
        if d > 0.6:
            c.clear()
    elif n == "pop":
        if len(c) > 1:
            c.pop()
    elif n == "delinactive":
        c.del_inactive_curves()
    elif n == "deactivate":
        if len(c) > 1:
            c.curves[0].active = False
    elif n == "member":
        m = c.curves[len(c) - 1]
        edit(m, (u * 7.3) % 1, d)
    else:
        setattr(c, n, getattr(c, n) * (1 + abs(d) / 3))
    c.update_lengths()


def mutate(c, op):
    k = op["op"]
    if k == "start":
        c.set_start_on(op["s"])
    elif k == "end":
        c.set_end_on(op["s"])
    elif k == "both":
        c.set_start_and_end_on(op["s"], op["s2"])
    elif k == "reverse":
        c.reverse()
    elif k == "edit":
        edit(c, op["u"], op["d"])
    elif k == "keep":
        if hasattr(c, "curves"):
            c.set_end_on(op["s"], preserve_inactive_curves=True)
        else:
            c.set_end_on(op["s"])
    else:
        raise AssertionError(k)


MUTATE = ("start", "end", "both", "reverse", "edit", "keep")


def produce(ctx, op):
    """New curves from one; returns them in order."""
    c = ctx.c[op["g"]]
    k = op["op"]
    if k == "copy":
        import copy
        return [copy.deepcopy(c) if op.get("deep") else c.copy()]
    if k == "cut":
        return list(c.cut(op["s"]))
    if k == "fillet":
        return [c.fillet(op["r"], op["s"])]
    if k == "fillet_at":
        return [c.fillet_at_index(op["r"], op["i"])]
    if k == "convert":
        return [W.gg.convert_curve_nurbezier(c, n_points=4)]
    if k == "transform":
        return [c.transform(method(op))]
    raise AssertionError(k)


class C08(Check):
    id = "C08"
    runs = {"quick": 1500, "thorough": 60000}
    real = REAL
    stubs = ["failures of calls made by the package are injected as exceptions before the call"]
    rule = ("Each run creates 2-5 curves (every curve class, real tooth profiles, nested chains, mirrored, "
            "rotated and transformed curves, sums, spline chains; some inactive) and applies 6-16 "
            "operations: copy, cut, fillet, spline conversion, line/arc transformation (a fifth of them "
            "failing at a chosen call), trimming, reversing, re-parameterising by assignment or in place, "
            "chain editing. After every operation all unrelated curves are evaluated at fixed parameters; "
            "every second mutation is also applied to a fresh copy, which must end up the same. "
            "Non-trivial: a curve with a derived or source curve alive was changed.")
    assumptions = ["chains and transformed/mirrored/rotated curves are views of the curves they are made "
                   "of; changes to a part may show in the whole and the other way round for chains"]

    def setup(self):
        W.load()

    def gen(self, rng, tier, i):
        ops, ids, kinds = [], [], {}

        def args():
            return {"p0": rvec(rng, 3.0), "p1": rvec(rng, 3.0), "r": round(rng.uniform(1, 4), 3),
                    "ang": round(rng.uniform(0.5, 2.5), 3), "x": round(rng.uniform(-2, 2), 3),
                    "y": round(rng.uniform(-1, 1), 3), "pts": [rvec(rng, 3.0) for _ in range(4)]}

        def add(kind, of=None, typ="basic"):
            k = f"c{len(kinds)}"
            op = {"op": "new", "id": k, "kind": kind, "a": args()}
            if of is not None:
                op["of"] = of
            if kind == "nurbs":
                op["a"]["pts2"] = [rvec(rng, 3.0) for _ in range(3)]
            if kind == "joined":
                op["of"] = []
                x = 0.0
                path = []
                for j in range(rng.randint(3, 4)):
                    path.append([x, pick(rng, 0.0, 2.0, 3.0) if j % 2 else -1.0, 0.0])
                    x += round(rng.uniform(2, 4), 3)
                op["a"]["path"] = path
            if typ == "basic" and kind not in ("tooth", "joined", "nurbs") and rng.random() < 0.08:
                op["active"] = False
            elif kind in PLAIN and rng.random() < 0.12:
                op["plain"] = True
            ops.append(op)
            ids.append(k)
            kinds[k] = kind
            return k

        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.62:
                add(pick(rng, *BASIC[:-1]))
            elif r < 0.7 and rng.random() < 0.4:
                add("tooth")
            elif r < 0.85:
                add("joined", typ="chain")
            else:
                add("nurbs", typ="chain")
        for _ in range(rng.randint(0, 3)):
            r = rng.random()
            if r < 0.5:
                add(pick(rng, *VIEWS), [pick(rng, *ids)], "view")
            elif r < 0.85:
                add("chain", [pick(rng, *ids) for _ in range(rng.randint(1, 3))], "chain")
            elif len(ids) > 1:
                add(pick(rng, "sum", "difference"), [pick(rng, *ids), pick(rng, *ids)], "view")
            else:
                add(pick(rng, "scaled", "divided"), [pick(rng, *ids)], "view")
        n0 = 0
        for _ in range(rng.randint(6, 14)):
            g = pick(rng, *ids)
            r = rng.random()
            if r < 0.42:
                o = pick(rng, "copy", "copy", "cut", "cut", "fillet", "convert", "transform")
                op = {"op": o, "g": g, "id": f"d{n0}"}
                ids.append(f"d{n0}")
                n0 += 1
                if o == "transform":
                    op["by"] = pick(rng, "rot90", "same", "shift", "gear", "gear0")
                    flat = [k for k in ids if kinds.get(k, "")[:3] in ("lin", "arc")]
                    if flat:
                        op["g"] = pick(rng, *flat)
                if o == "copy":
                    op["deep"] = rng.random() < 0.2
                if o == "cut":
                    op["s"] = round(rng.uniform(0.1, 0.9), 3)
                    op["id2"] = f"d{n0}"
                    ids.append(op["id2"])
                    n0 += 1
                if o == "fillet":
                    jo = [k for k in ids if kinds.get(k) == "joined"]
                    if jo:
                        op["g"] = pick(rng, *jo)
                    op["r"] = pick(rng, 0.1, 0.3)
                    op["s"] = round(rng.uniform(0.3, 0.6), 3)
                    if rng.random() < 0.6:
                        op["op"], op["i"] = "fillet_at", pick(rng, 0, 0, 1)
                if rng.random() < 0.2:
                    op["fault"] = gen_fault(rng, "call")
            else:
                o = pick(rng, "start", "end", "both", "reverse", "edit", "edit", "edit", "keep")
                op = {"op": o, "g": g, "twin": rng.random() < 0.5}
                if o == "edit":
                    op["u"] = round(rng.random(), 4)
                    op["d"] = round(rng.uniform(0.1, 0.8), 3) * pick(rng, 1, -1)
                elif o == "both":
                    op["s"], op["s2"] = round(rng.uniform(0, 0.4), 3), round(rng.uniform(0.5, 1), 3)
                elif o != "reverse":
                    op["s"] = round(rng.uniform(0.2, 0.8), 3)
            ops.append(op)
        return {"ops": ops}

    def simpler(self, sc):
        for i, op in enumerate(sc["ops"]):
            for key in ("fault", "twin", "active"):
                if op.get(key):
                    c = json.loads(json.dumps(sc))
                    del c["ops"][i][key]
                    yield c

    def signature(self, sc):
        return [[o["op"], o.get("g"), o.get("kind"), o.get("u"), o.get("s"),
                 (o.get("fault") or {}).get("site")] for o in sc["ops"]]

    def affected(self, ctx, k):
        """Curves that may change when curve k is changed."""
        out = set()
        todo = [k]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo.extend(y for y, ps in ctx.parent.items() if x in ps)
            if ctx.type.get(x) == "chain":
                todo.extend(ctx.parent.get(x, ()))
        return out

    def execute(self, sc, st):
        ctx = Ctx(st)
        last = {}
        touched = 0
        rel = set()
        consts0 = W.consts_snapshot()
        for n, op in enumerate(sc["ops"]):
            k = op["op"]
            if k == "new":
                if op["id"] in ctx.c or any(x not in ctx.c for x in op.get("of", ())):
                    continue
                try:
                    ctx.c[op["id"]] = make(ctx, op)
                except Exception:
                    continue
                ctx.parent[op["id"]] = tuple(op.get("of", ()))
                ctx.type[op["id"]] = ("chain" if op["kind"] in ("chain", "joined", "nurbs", "tooth") else
                                      "view" if op.get("of") else "basic")
                # a new chain refreshes the lengths of its members
                aff = self.affected(ctx, op["id"])
                where = f"op {n} (new {op['kind']})"
                st.inc("op:new")
            elif op["g"] not in ctx.c:
                continue
            elif k in PRODUCE:
                c = ctx.c[op["g"]]
                if k == "transform" and not hasattr(c, "transform") or \
                        k.startswith("fillet") and not hasattr(c, "fillet") or \
                        k == "fillet_at" and not 0 <= op["i"] < len(c.curves):
                    continue
                aff = set()
                where = f"op {n} ({k} of {op['g']})"
                new = self.produce_faulty(ctx, op, st)
                if new is not None:
                    names = [op["id"]] + ([op["id2"]] if k == "cut" else [])
                    for nm, x in zip(names, new):
                        if nm in ctx.c:
                            continue
                        ctx.c[nm] = x
                        ctx.parent[nm] = ()
                        ctx.type[nm] = "basic"
                        rel.update((nm, op["g"]))
                    if k == "copy":
                        st.inc("cmp")
                        d = diff(last[op["g"]], obs(new[0]), rtol=1e-12, atol=1e-12)
                        if d:
                            raise Violation("copy-differs", f"{where}: {d}")
            else:
                c = ctx.c[op["g"]]
                aff = self.affected(ctx, op["g"])
                where = f"op {n} ({k} on {op['g']})"
                twin = c.copy() if op.get("twin") else None
                st.inc("op:" + k)
                touched += op["g"] in rel
                ok = True
                try:
                    with W.np.errstate(all="ignore"):
                        mutate(c, op)
                except Exception as e:
                    ok = type(e).__name__
                if twin is not None:
                    ok2 = True
                    try:
                        with W.np.errstate(all="ignore"):
                            mutate(twin, op)
                    except Exception as e:
                        ok2 = type(e).__name__
                    st.inc("cmp")
                    d = diff(ok, ok2) if ok is not True or ok2 is not True else diff(
                        obs(c), obs(twin), rtol=1e-9, atol=1e-9)
                    if d and not self.shared_member(ctx, op["g"]):
                        raise Violation("copy-behaves-differently", f"{where}: a copy ends up "
                                        f"different: {d}")
            for x, c in ctx.c.items():
                o = obs(c)
                if x in last and x not in aff:
                    st.inc("cmp")
                    d = diff(last[x], o, rtol=1e-12, atol=1e-12)
                    if d:
                        raise Violation("shows-in-other", f"{where}: curve {x} changed: {d}")
                last[x] = o
            for name, v in W.CONSTS:
                if diff(consts0[name], v, rtol=0, atol=0):
                    raise Violation("constant-changed", f"{where}: {name} is now {v.tolist()}")
        if touched:
            st.inc("nontrivial")
        st.add("histories", [o["op"] + str(o.get("g")) for o in sc["ops"]])

    def shared_member(self, ctx, k):
        return False

    def produce_faulty(self, ctx, op, st):
        f = op.get("fault")
        if f and "n" not in f:
            def count():
                m = inject.Monitor(f["kind"], flt=None, record=True)
                try:
                    with m:
                        produce(ctx, op)
                except Exception:
                    pass
                return inject.choose_point(m, *f["u"])
            f["n"] = in_fork(count)
        st.inc("op:" + op["op"])
        try:
            with W.np.errstate(all="ignore"):
                if f and f.get("n"):
                    m = inject.Monitor(f["kind"], target=f["n"], exc=f["exc"])
                    try:
                        with m:
                            return produce(ctx, op)
                    finally:
                        if m.fired:
                            f["site"] = m.fired
                            st.inc(f"fault:{f['kind']}:{f['exc']}")
                            st.add("fault_sites", m.fired)
                return produce(ctx, op)
        except (Exception, KeyboardInterrupt):
            if not f:
                st.inc("probe:natural_failure")
            return None
