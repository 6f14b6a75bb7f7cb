"""The simulated workshop: gears, racks, the operations users perform on them, what can be
observed of them, and how operations are made to fail."""
import copy
import dataclasses
import gc
import math
import os
import sys

from core import REPO, HarnessError, Violation, diff, in_fork, run_forked, short
import inject

gg = None
np = None
bd = None
CONSTS = []


def load():
    """Import the code under test (once, in the zygote)."""
    global gg, np, bd, CONSTS
    if gg is not None:
        return
    import warnings

    warnings.simplefilter("ignore")
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    inject.install_lock_seam(REPO)
    import numpy
    import build123d
    import gggears

    if not os.path.abspath(gggears.__file__).startswith(src):
        raise HarnessError(f"imported {gggears.__file__}, not {src}")
    # the CAD kernel's own worker pool: no helper threads (determinism, and forks stay usable)
    from OCP.OSD import OSD_Parallel, OSD_ThreadPool

    OSD_Parallel.SetUseOcctThreads_s(True)
    OSD_ThreadPool.DefaultPool_s(1).Init(1)
    gg, np, bd = gggears, numpy, build123d
    inject.collect_codes([os.path.join(src, "gggears")])
    seen = set()
    CONSTS = []
    for mname in sorted(m for m in sys.modules if m == "gggears" or m.startswith("gggears.")):
        m = sys.modules[mname]
        for k in sorted(vars(m)):
            v = vars(m)[k]
            if isinstance(v, np.ndarray) and id(v) not in seen:
                seen.add(id(v))
                CONSTS.append((f"{mname}.{k}", v))
    from scipy.spatial.transform import Rotation  # noqa: F401
    import scipy.optimize  # noqa: F401


def consts_snapshot():
    return {n: v.copy() for n, v in CONSTS}


# ------------------------------------------------------------------ designs
def pick(rng, *opts):
    return opts[rng.randrange(len(opts))]


def rvec(rng, r=10.0):
    return [round(rng.uniform(-r, r), 3) for _ in range(3)]


def rdir_xy(rng):
    a = rng.uniform(-math.pi, math.pi)
    return [math.cos(a), math.sin(a), 0.0]


def placement_args(rng, a):
    if rng.random() < 0.5:
        a["center"] = rvec(rng)
    if rng.random() < 0.5:
        a["angle"] = round(rng.uniform(-4, 4), 3)
    if rng.random() < 0.4:
        a["z_anchor"] = pick(rng, 0.5, 1.0, 0.3)


def tooth_args(rng, a, fillets=True):
    if rng.random() < 0.25:
        a["profile_shift"] = pick(rng, 0.2, -0.1, 0.3, 0.1, 0.8)
    if rng.random() < 0.25:
        a["backlash"] = pick(rng, 0.02, 0.05)
    if rng.random() < 0.2:
        a["pressure_angle"] = pick(rng, 14.5, 25.0, 22.0, 34.0) * math.pi / 180
    if rng.random() < 0.15:
        a["addendum_coefficient"] = pick(rng, 0.9, 1.1, 1.4)
    if rng.random() < 0.15:
        a["dedendum_coefficient"] = pick(rng, 1.1, 1.25)
    if fillets and rng.random() < 0.25:
        a["enable_undercut"] = False
        if rng.random() < 0.7:
            a["root_fillet"] = pick(rng, 0.1, 0.2, 0.6)
    if rng.random() < 0.12:
        a["tip_fillet"] = pick(rng, 0.05, 0.1, 0.4)
    if rng.random() < 0.1:
        a["tip_truncation"] = pick(rng, 0.05, 0.2)


FAMILIES = ["spur", "ring", "helical", "herring", "helring", "bevel", "cycloid", "cycring",
            "involute", "crowned", "cyccone"]


def design(rng, family=None, teeth=None, module=None):
    """A random gear design: {"cls", "args"}."""
    fam = family or FAMILIES[rng.randrange(len(FAMILIES))]
    n = teeth or rng.randint(6, 15)
    m = module or pick(rng, 1.0, 1.0, 0.5, 2.0, 1.5, round(rng.uniform(0.4, 2.5), 4))
    h = round(m * pick(rng, 0.8, 1.0, 2.0, rng.uniform(0.7, 2.2)), 5)
    a = {"number_of_teeth": n, "module": m, "height": h}
    if fam == "spur":
        tooth_args(rng, a)
        cls = "SpurGear"
    elif fam == "crowned":
        tooth_args(rng, a, fillets=False)
        a["crowning"] = pick(rng, 20.0, 50.0)
        cls = pick(rng, "SpurGear", "InvoluteGear")
    elif fam == "ring":
        cls = "SpurRingGear"
        a["number_of_teeth"] = teeth or rng.randint(12, 24)
        if rng.random() < 0.3:
            a["backlash"] = 0.02
        if rng.random() < 0.3:
            a["profile_shift"] = pick(rng, 0.1, 0.2)
        if rng.random() < 0.3:
            a["outside_ring_coefficient"] = pick(rng, 2.2, 3.0)
    elif fam == "helical":
        cls = "HelicalGear"
        a["helix_angle"] = pick(rng, 0.3, -0.3, 0.5, -0.2)
        tooth_args(rng, a)
    elif fam == "herring":
        cls = "HelicalGear"
        a["helix_angle"] = pick(rng, 0.3, -0.3, 0.4)
        a["herringbone"] = True
    elif fam == "helring":
        cls = "HelicalRingGear"
        a["number_of_teeth"] = teeth or rng.randint(14, 22)
        a["helix_angle"] = pick(rng, 0.3, -0.3, 0.2)
        if rng.random() < 0.4:
            a["herringbone"] = True
    elif fam == "bevel":
        cls = "BevelGear"
        a["cone_angle"] = pick(rng, 1.0, 1.2, 0.8, 0.6)
        a["number_of_teeth"] = teeth or rng.randint(8, 13)
        if rng.random() < 0.3:
            a["cone_angle"] = pick(rng, math.pi / 2, 1.8)
            if rng.random() < 0.8:
                a["enable_undercut"] = False
        if rng.random() < 0.2:
            a["helix_angle"] = pick(rng, 0.2, -0.3)
    elif fam == "cyccone":
        cls = "CycloidGear"
        a["cone_angle"] = pick(rng, 1.0, 1.2, 0.8)
    elif fam == "cycloid":
        cls = "CycloidGear"
        if rng.random() < 0.4:
            a["inside_cycloid_coefficient"] = pick(rng, 0.4, 0.45)
        if rng.random() < 0.4:
            a["outside_cycloid_coefficient"] = pick(rng, 0.4, 0.3)
        if rng.random() < 0.2:
            a["helix_angle"] = pick(rng, 0.2, -0.2)
        if rng.random() < 0.2:
            a["backlash"] = 0.02
        if rng.random() < 0.15:
            a["crowning"] = 20.0
    elif fam == "cycring":
        cls = "CycloidGear"
        a["number_of_teeth"] = teeth or rng.randint(12, 24)
        a["inside_teeth"] = True
    else:
        cls = "InvoluteGear"
        tooth_args(rng, a)
        if rng.random() < 0.3:
            a["helix_angle"] = pick(rng, 0.2, -0.3)
        if rng.random() < 0.25:
            a["inside_teeth"] = True
            a["enable_undercut"] = False
            a["number_of_teeth"] = teeth or rng.randint(14, 22)
    if fam in ("ring", "helring", "cycring", "cycloid") and rng.random() < 0.15:
        a[pick(rng, "root_fillet", "tip_fillet")] = pick(rng, 0.1, 0.4)
    if fam in ("helical", "helring", "cycloid") and a.get("helix_angle") and rng.random() < 0.08:
        # a long gear: the teeth wind by a large angle
        a["height"] = round(m * pick(rng, 5.0, 7.0), 5)
    if fam == "ring" and rng.random() < 0.1:
        # a negative number of teeth is another way to ask for an involute ring
        cls = "SpurGear"
        a.pop("outside_ring_coefficient", None)
        a["number_of_teeth"] *= -1
        a["enable_undercut"] = False
    placement_args(rng, a)
    return {"cls": cls, "args": a, "fam": fam}


def mate(rng, spec, fam=None):
    """A design that really meshes with another one: same module, opposite (or, inside a ring,
    equal) helix, external against internal teeth."""
    a = spec["args"]
    c = spec["cls"]
    m = a.get("module", 1.0)
    if c in ("InvoluteRack", "HelicalRack"):
        s = design(rng, pick(rng, "spur", "helical", "involute"), module=m)
        if s["cls"] == "HelicalGear":
            s["args"]["helix_angle"] = -a.get("helix_angle", 0.3)
            s["args"]["herringbone"] = a.get("herringbone", False)
        return s
    n = a["number_of_teeth"]
    ring = "Ring" in c or bool(a.get("inside_teeth")) or n < 0
    if c == "CycloidGear":
        s = design(rng, "cycloid" if ring or not rng.random() < 0.2 else "cycring", module=m)
        for k in ("cone_angle", "helix_angle"):
            s["args"].pop(k, None)
            if a.get(k):
                s["args"][k] = a[k] if k == "cone_angle" or ring or s["args"].get(
                    "inside_teeth") else -a[k]
    elif c == "BevelGear":
        s = design(rng, "bevel", module=m)
        s["args"].pop("helix_angle", None)
        s["args"]["cone_angle"] = pick(rng, a.get("cone_angle", math.pi / 2),
                                       math.pi - a.get("cone_angle", math.pi / 2))
        if a.get("helix_angle"):
            s["args"]["helix_angle"] = -a["helix_angle"]
    elif "Helical" in c:
        s = design(rng, "helical" if ring or not rng.random() < 0.2 else "helring", module=m)
        s["args"]["helix_angle"] = a["helix_angle"] if ring or "Ring" in s["cls"] \
            else -a["helix_angle"]
        if a.get("herringbone"):
            s["args"]["herringbone"] = True
    else:
        s = design(rng, pick(rng, "spur", "spur", "involute")
                   if ring or not rng.random() < 0.2 else "ring", module=m)
        if s["cls"] == "InvoluteGear":
            s["args"].pop("helix_angle", None)
            if a.get("helix_angle"):
                s["args"]["helix_angle"] = -a["helix_angle"]
        if ring and (s["args"].get("inside_teeth") or "Ring" in s["cls"]):
            s["args"].pop("inside_teeth", None)
    if ring and s["cls"] != "SpurRingGear":
        s["args"]["number_of_teeth"] = rng.randint(6, max(6, abs(n) - 4))
    return s


def core_design(rng, ids=()):
    """A gear of the core (no wrapper); its parameter objects come from a pool the caller
    keeps and may use for several gears."""
    a = {"number_of_teeth": rng.randint(8, 20), "module": pick(rng, 1.0, 2.0),
         "inside_teeth": rng.random() < 0.2, "cone_angle": pick(rng, 0, 0, 1.2)}
    sh = {}
    if rng.random() < 0.6:
        sh["tooth_generator"] = pick(rng, "InvoluteTooth", "CycloidTooth", "GearToothConicGenerator")
    for k in ("cone", "transform", "tooth_param", "z_vals"):
        if rng.random() < 0.4:
            sh[k] = pick(rng, "p0", "p1")
    if ids and rng.random() < 0.15:
        sh["shape_recipe"] = pick(rng, *ids)
    if sh:
        a["shared"] = sh
    return {"cls": "Gear", "args": a, "fam": "core"}


def rack_design(rng, module=None):
    m = module or pick(rng, 1.0, 2.0, 0.5)
    a = {"number_of_teeth": rng.randint(3, 9), "module": m, "height": m * pick(rng, 1.0, 2.0)}
    cls = "InvoluteRack"
    if rng.random() < 0.55:
        cls = "HelicalRack"
        a["helix_angle"] = pick(rng, 0.0, 0.3, -0.4)
        if rng.random() < 0.45:
            a["herringbone"] = True
    if rng.random() < 0.3:
        a["backlash"] = 0.02
    if rng.random() < 0.45:
        a["root_fillet"] = 0.15
        if rng.random() < 0.5:
            a["tip_fillet"] = 0.05
    if rng.random() < 0.5:
        a["position"] = rvec(rng)
    if rng.random() < 0.3:
        a["offset"] = pick(rng, 0.25, -0.5, 1.0)
    if rng.random() < 0.3:
        a["orientation"] = {"rotvec": rvec(rng, 2.0)}
    return {"cls": cls, "args": a, "fam": "rack"}


def rotmat(rotvec):
    v = np.asarray(rotvec, float)
    th = float(np.linalg.norm(v))
    if th < 1e-15:
        return np.eye(3)
    k = v / th
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * (K @ K)


ARRAY_ARGS = ("center", "position", "orientation")


def make(spec, args_out=None, overrides=None, pool=None, objs=None):
    """Create the object of a design; arrays handed over are recorded in args_out."""
    a = dict(spec["args"])
    for k in ARRAY_ARGS:
        if k in a:
            v = a[k]
            v = rotmat(v["rotvec"]) if isinstance(v, dict) else np.array(v, float)
            a[k] = v
            if args_out is not None:
                args_out.append(v)
    if overrides:
        a.update(overrides)
    if spec["cls"] == "Gear":
        return make_core(a, pool, objs)
    return getattr(gg, spec["cls"])(**a)


def pool_object(pool, kind, name, a):
    """The caller's own parameter object of that name (made when first used)."""
    if pool is None:
        pool = {}
    key = f"{kind}:{name}"
    if key not in pool:
        if kind == "tooth_generator":
            pool[key] = getattr(gg, name)()
        elif kind == "cone":
            pool[key] = gg.ConicData(cone_angle=a.get("cone_angle", 0))
        elif kind == "transform":
            pool[key] = gg.GearTransform(center=np.array([1.0, 2.0, 0.5]), angle=0.3,
                                         scale=a.get("module", 1.0))
        elif kind == "tooth_param":
            pool[key] = gg.GearToothParam(num_teeth=a["number_of_teeth"])
        else:
            pool[key] = np.array([0.0, 1.0])
    return pool[key]


def make_core(a, pool=None, objs=None):
    kw = {"z_vals": np.array([0.0, 1.0]), "module": a.get("module", 1.0),
          "tooth_param": gg.GearToothParam(num_teeth=a["number_of_teeth"],
                                           inside_teeth=a.get("inside_teeth", False)),
          "cone": gg.ConicData(cone_angle=a.get("cone_angle", 0))}
    for k, name in (a.get("shared") or {}).items():
        if k == "shape_recipe":
            o = (objs or {}).get(name)
            if o is not None and not is_rack(o):
                kw[k] = (o if is_core(o) else o.gearcore).shape_recipe
        else:
            kw[k] = pool_object(pool, k, name, a)
    return gg.Gear(**kw)


def is_rack(o):
    return hasattr(o, "position") and not hasattr(o, "gearcore")


def is_core(o):
    return not is_rack(o) and not hasattr(o, "gearcore")


def tf(o):
    return o.transform if is_core(o) else o.gearcore.transform


# ------------------------------------------------------------------ observations
def _num(x):
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.astype(float).copy() if x.dtype.kind in "fiub" else x.tolist()
    if isinstance(x, (list, tuple)):
        return [_num(y) for y in x]
    if isinstance(x, bd.Vector):
        return np.array([x.X, x.Y, x.Z])
    if isinstance(x, bd.Location):
        t = x.wrapped.Transformation()
        return np.array([[t.Value(r, c) for c in range(1, 5)] for r in range(1, 4)])
    if isinstance(x, gg.ArcCurve):
        return {"r": float(x.radius), "c": np.array(x.center, float), "pts": curve_pts(x, 5)}
    if isinstance(x, gg.GearRefCircles):
        return {k: _num(getattr(x, k)) for k in
                ("r_a_curve", "r_p_curve", "r_d_curve", "r_o_curve")}
    if isinstance(x, gg.Curve):
        return curve_pts(x, 9)
    if dataclasses.is_dataclass(x):
        return {f.name: _num(getattr(x, f.name)) for f in dataclasses.fields(x)}
    if callable(x):
        return "callable"
    return type(x).__name__


def curve_pts(c, n=9):
    return np.array([np.asarray(c(float(s)), float) for s in np.linspace(0.02, 0.98, n)])


def placement(o):
    if is_rack(o):
        return {"position": np.array(o.position, float), "orientation": np.array(o.orientation, float),
                "offset": float(o.offset)}
    t = tf(o)
    return {"center": np.array(t.center, float), "orientation": np.array(t.orientation, float),
            "angle": float(t.angle), "scale": float(t.scale)}


RACK_FIELDS = ("number_of_teeth", "height", "pressure_angle", "module", "root_fillet", "tip_fillet",
               "addendum_coefficient", "dedendum_coefficient", "beta_angle", "backlash",
               "herringbone")


def params(o):
    if is_rack(o):
        return {k: _num(getattr(o, k, None)) for k in RACK_FIELDS}
    core = o if is_core(o) else o.gearcore
    d = {"module": core.module, "z_vals": np.array(core.z_vals, float),
         "teeth": core.tooth_param.num_teeth, "inside": core.tooth_param.inside_teeth,
         "cutout": core.tooth_param.num_cutout_teeth}
    if not is_core(o):
        ip = getattr(o, "inputparam", None)
        if ip is not None and dataclasses.is_dataclass(ip):
            d["input"] = {f.name: _num(getattr(ip, f.name)) for f in dataclasses.fields(ip)}
    return d


def recipe_sig(o):
    """The shape recipe evaluated at a few heights (cheap stand-in for the shape)."""
    if is_rack(o):
        return None
    core = o if is_core(o) else o.gearcore
    z = core.z_vals
    out = []
    for q in (z[0], 0.37 * z[0] + 0.63 * z[-1], z[-1]):
        out.append(_walk(core.shape_recipe(float(q)), 0))
    return out


def _walk(x, depth):
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [_walk(y, depth + 1) for y in x]
    if depth > 5 or callable(x) and not hasattr(x, "__dict__"):
        return type(x).__name__
    if isinstance(x, type) or hasattr(x, "__code__"):
        return "callable"
    if isinstance(x, dict):
        return {str(k): _walk(v, depth + 1) for k, v in x.items()}
    if hasattr(x, "__dict__"):
        return {k: _walk(v, depth + 1) for k, v in vars(x).items()}
    return type(x).__name__


def profile_sig(o, n_z=2):
    """Tooth outline in gear coordinates."""
    if is_rack(o):
        return None
    core = o if is_core(o) else o.gearcore
    zs = [core.z_vals[0], core.z_vals[-1]][:n_z]
    out = []
    for z in zs:
        try:
            p = core.curve_gen_at_z(float(z))
            out.append({"pts": curve_pts(p.profile, 13), "ra": float(p.ra_curve.radius),
                        "rd": float(p.rd_curve.radius), "ro": float(p.ro_curve.radius),
                        "tf": {"c": np.array(p.transform.center, float), "a": float(p.transform.angle),
                               "s": float(p.transform.scale)}})
        except Exception as e:  # a design that cannot be generated: same every time
            out.append("EXC " + type(e).__name__)
    return out


def snap(o, level=1):
    """Everything observable without building; level 0 placement and parameters, 1 adds the
    recipe, 2 adds the tooth outline."""
    d = {"place": placement(o), "params": params(o)}
    if level >= 1:
        d["recipe"] = recipe_sig(o)
    if level >= 2:
        d["outline"] = profile_sig(o)
    return d


def part_sig(part):
    """Signature of a built part that is independent of any mesh stored on it."""
    vs = np.array([[v.X, v.Y, v.Z] for v in part.vertices()], float).reshape(-1, 3)
    c = part.center(bd.CenterOf.MASS)
    return {"volume": float(part.volume), "area": float(part.area),
            "com": np.array([c.X, c.Y, c.Z]), "verts": vs, "faces": len(part.faces()),
            "edges": len(part.edges())}


def sort_verts(v, q=1e-5):
    v = np.asarray(v, float)
    if not len(v):
        return v
    k = np.round(v / q).astype(np.int64)
    return v[np.lexsort((k[:, 2], k[:, 1], k[:, 0]))]


def diff_parts(a, b, rel=1e-6):
    """First difference of two part signatures."""
    size = max(1e-6, float(np.abs(a["verts"] - a["com"]).max()) if len(a["verts"]) else 1.0)
    for k in ("faces", "edges"):
        if a[k] != b[k]:
            return f"{k}: {a[k]} vs {b[k]}"
    for k, sc in (("volume", max(abs(a["volume"]), size ** 3 * 1e-3)),
                  ("area", max(abs(a["area"]), size ** 2 * 1e-3))):
        if not abs(a[k] - b[k]) <= rel * sc:
            return f"{k}: {a[k]!r} vs {b[k]!r}"
    if not np.abs(a["com"] - b["com"]).max() <= rel * 10 * size:
        return f"centre of mass: {a['com']} vs {b['com']}"
    d = verts_distance(a["verts"], b["verts"])
    if not d <= rel * 10 * size:
        return f"vertices differ by {d:.3g} (size {size:.3g})"
    return None


def verts_distance(a, b):
    """Hausdorff distance of two vertex sets."""
    if len(a) != len(b):
        return float("inf")
    if not len(a):
        return 0.0
    from scipy.spatial import cKDTree

    return max(float(cKDTree(a).query(b)[0].max()), float(cKDTree(b).query(a)[0].max()))


def move_sig(sig, place):
    """Signature of an unplaced part moved to a placement (independent formula)."""
    R = place["orientation"] @ rotmat([0, 0, place["angle"]])
    out = dict(sig)
    out["com"] = place["center"] + R @ sig["com"]
    out["verts"] = place["center"] + sig["verts"] @ R.T
    return out


# ------------------------------------------------------------------ reads
def _wire_sig(w):
    vs = np.array([[v.X, v.Y, v.Z] for v in w.vertices()], float)
    return {"len": float(w.length), "verts": vs, "edges": len(w.edges())}


READS = {
    "center": lambda g: g.center, "angle": lambda g: g.angle, "module": lambda g: g.module,
    "pitch_radius": lambda g: g.pitch_radius, "rp": lambda g: g.rp,
    "number_of_teeth": lambda g: g.number_of_teeth, "inside_teeth": lambda g: g.inside_teeth,
    "pitch_angle": lambda g: g.pitch_angle, "cone_angle": lambda g: g.cone_angle,
    "gamma": lambda g: g.gamma, "beta": lambda g: g.beta, "r_base": lambda g: g.r_base,
    "angle_base": lambda g: g.angle_base,
    "radius_spherical": lambda g: g.radius_spherical,
    "center_spherical": lambda g: g.center_spherical,
    "cone_data": lambda g: [g.cone_data.R, g.cone_data.center, g.cone_data.gamma],
    "center_point_bottom": lambda g: g.center_point_bottom,
    "center_point_middle": lambda g: g.center_point_middle,
    "center_point_top": lambda g: g.center_point_top,
    "center_location_bottom": lambda g: g.center_location_bottom,
    "center_location_middle": lambda g: g.center_location_middle,
    "center_location_top": lambda g: g.center_location_top,
    "face_location_top": lambda g: g.face_location_top,
    "face_location_bottom": lambda g: g.face_location_bottom,
    "z_height": lambda g: g.z_height,
    "addendum_radius": lambda g: g.addendum_radius,
    "dedendum_radius": lambda g: g.dedendum_radius,
    "max_outside_radius": lambda g: g.max_outside_radius,
    "cone_angle_limits_bottom": lambda g: g.cone_angle_limits_bottom,
    "cone_angle_limits_top": lambda g: g.cone_angle_limits_top,
    "radii_data_top": lambda g: g.radii_data_top,
    "radii_data_bottom": lambda g: g.radii_data_bottom,
    "radii_data_array": lambda g: g.radii_data_array,
    "radii_mid": lambda g: g.radii_data_gen(g.p2z(0.4)),
    "p2z": lambda g: g.p2z(0.3),
    "base_circle": lambda g: g.circle_involute_base(0.7),
    "profile": lambda g: g.gearcore.curve_gen_at_z(g.p2z(0.2)).profile,
    "boundary": lambda g: g.gearcore.boundary_at_z(g.p2z(0.6)),
    "boundary_chain": lambda g: g.gearcore.boundary_at_z(g.p2z(0.1), continuous=False),
    "wire0": lambda g: _wire_sig(g.build_boundary_wire()),
    "wire1": lambda g: _wire_sig(g.build_boundary_wire(z_ratio=0.8)),
    "core_R": lambda g: g.gearcore.R, "core_rp": lambda g: g.gearcore.rp,
    "core_center_sphere": lambda g: g.gearcore.center_sphere,
    "sphere_at_z": lambda g: list(g.gearcore.sphere_data_at_z(g.p2z(0.5))),
    "cone_at_z": lambda g: [g.gearcore.cone_at_z(g.p2z(0.5)).R,
                            g.gearcore.cone_at_z(g.p2z(0.5)).center],
}
CHEAP_READS = ["center", "angle", "module", "pitch_radius", "pitch_angle", "cone_angle", "gamma",
               "beta", "r_base", "angle_base", "radius_spherical", "center_spherical", "cone_data",
               "center_point_bottom", "center_point_middle", "center_point_top",
               "center_location_bottom", "center_location_top", "center_location_middle",
               "z_height", "p2z", "base_circle", "core_R", "core_center_sphere", "sphere_at_z",
               "cone_at_z"]

VIEW_READS = CHEAP_READS + ["face_location_top", "radii_data_bottom"]


def read(o, name):
    return _num(READS[name](o))


def try_read(o, name):
    try:
        return read(o, name)
    except Exception as e:
        return "EXC " + type(e).__name__


# ------------------------------------------------------------------ the world
class World:
    def __init__(self, stats=None):
        self.objs = {}
        self.specs = {}
        self.args = []       # arrays the caller handed over (list of [array])
        self.pool = {}       # parameter objects the caller hands to several gears
        self.parts = []      # (array of parts returned, signature at that time)
        self.stats = stats

    def vec(self, v, keep=True):
        """A vector argument: literal, a library constant, or another object's own array."""
        if isinstance(v, dict):
            if "const" in v:
                return getattr(gg, v["const"])
            if "local" in v:
                # in the plane of an object, at an angle
                o = self.objs[v["local"]]
                R = o.orientation if is_rack(o) else tf(o).orientation
                return np.array(R, float) @ np.array([math.cos(v["a"]), math.sin(v["a"]), 0.0])
            if "center_of" in v:
                o = self.objs[v["center_of"]]
                return o.position if is_rack(o) else o.center
            raise HarnessError(str(v))
        arr = np.array(v, float)
        if keep:
            self.args.append(arr)
        return arr

    # -- one operation; returns the value a user would look at
    def do(self, op):
        k = op["op"]
        f = getattr(self, "op_" + k)
        return f(op)

    def op_new(self, op):
        ov = {}
        spec = op["spec"]
        for key in ("center", "position"):
            v = spec["args"].get(key)
            if isinstance(v, dict) and "rotvec" not in v:
                spec = {"cls": spec["cls"], "args": dict(spec["args"])}
                ov[key] = self.vec(v)
                del spec["args"][key]
        self.objs[op["id"]] = make(spec, self.args, ov, self.pool, self.objs)
        self.specs[op["id"]] = op["spec"]
        return snap(self.objs[op["id"]], 0)

    def op_set_center(self, op):
        o = self.objs[op["g"]]
        v = self.vec(op["v"])
        if is_rack(o):
            o.position = np.array(v, float)
        else:
            o.center = v

    def op_move_inplace(self, op):
        o = self.objs[op["g"]]
        c = o.position if is_rack(o) else o.center
        c[op["axis"]] += op["d"]

    def op_iadd(self, op):
        o = self.objs[op["g"]]
        v = self.vec(op["v"])
        if is_rack(o):
            o.position += v
        else:
            o.center += v

    def op_set_angle(self, op):
        o = self.objs[op["g"]]
        if is_rack(o):
            o.offset = op["a"]
        elif is_core(o):
            o.transform.angle = op["a"]
        else:
            o.angle = op["a"]

    def op_add_angle(self, op):
        o = self.objs[op["g"]]
        if is_rack(o):
            o.offset += op["a"]
        elif is_core(o):
            o.transform.angle += op["a"]
        else:
            o.angle += op["a"]

    def op_orient(self, op):
        o = self.objs[op["g"]]
        R = rotmat(op["rotvec"])
        t = o if is_rack(o) else tf(o)
        if op.get("inplace"):
            t.orientation[:] = R
        else:
            t.orientation = R

    def op_mesh(self, op):
        o, p = self.objs[op["g"]], self.objs[op["o"]]
        kw = {}
        if op.get("dir") is not None:
            kw["target_dir"] = self.vec(op["dir"])
        for q in ("backlash", "angle_bias", "offset"):
            if op.get(q) is not None:
                kw[q] = op[q]
        o.mesh_to(p, **kw)
        return placement(o)

    def op_reset(self, op):
        o = self.objs[op["g"]]
        o.reset_location()
        return placement(o)

    def op_adapt(self, op):
        o, p = self.objs[op["g"]], self.objs[op["o"]]
        o.adapt_cycloid_radii(p)
        return [snap(o, 1), snap(p, 1)]

    def op_copy(self, op):
        o = self.objs[op["g"]]
        c = copy.deepcopy(o) if is_rack(o) or op.get("deep") else o.copy()
        self.objs[op["id"]] = c
        self.specs[op["id"]] = self.specs.get(op["g"])
        return snap(c, 1)

    def op_build(self, op):
        o = self.objs[op["g"]]
        p = o.build_part(**(op.get("kw") or {}))
        s = part_sig(p)
        self.parts.append((op["g"], p, s))
        return s

    def op_update(self, op):
        o = self.objs[op["g"]]
        p = o.build_part() if is_rack(o) else o.update_part()
        s = part_sig(p)
        self.parts.append((op["g"], p, s))
        return s

    def op_read(self, op):
        return try_read(self.objs[op["g"]], op["name"])

    def op_sread(self, op):
        """Strict read: failures propagate."""
        return read(self.objs[op["g"]], op["name"])

    def op_view(self, op):
        """Everything that can be read at little cost."""
        names = CHEAP_READS if op.get("cheap") else VIEW_READS
        out = {n: try_read(self.objs[op["g"]], n) for n in names + op.get("names", [])}
        if op.get("cheap"):
            out["state"] = snap(self.objs[op["g"]], 1)
        return out

    def op_loa(self, op):
        """The line of action of two gears."""
        pair = gg.LineOfAction(self.objs[op["g"]], self.objs[op["o"]], z_ratio=op.get("z", 0))
        return [_num(pair.centerdiff), [_num(c) for c in pair.LOA_gen()]]

    def op_swap(self, op):
        """Give a core gear another tooth form."""
        o = self.objs[op["g"]]
        core = o if is_core(o) else o.gearcore
        core.swap_tooth_generator(pool_object(self.pool, "tooth_generator", op["tooth"], {}))

    def op_edit_pool(self, op):
        """The caller changes a parameter object it handed over earlier."""
        keys = sorted(self.pool)
        if not keys:
            return
        x = self.pool[keys[op["k"] % len(keys)]]
        if isinstance(x, np.ndarray):
            x[-1] += op["d"]
        elif isinstance(x, gg.GearTransform):
            x.center += op["d"]
            x.angle += op["d"]
            x.orientation[:] = rotmat([0, op["d"], 0])
        elif isinstance(x, gg.ConicData):
            x.base_radius += op["d"]
            x.cone_angle += op["d"]
        elif isinstance(x, gg.GearToothParam):
            x.num_teeth += 1
        else:
            x.pitch_radius = op["d"] + 3
            x.pitch_intersect_angle = 0.2
            x.cone_angle = 0.4

    def op_churn(self, op):
        """Many short-lived gears: created, looked at, thrown away."""
        keep = []
        for k in range(op["n"]):
            o = make(op["specs"][k % len(op["specs"])])
            for n in op["reads"]:
                if not is_rack(o):
                    try_read(o, n)
            if op.get("hold"):
                keep.append(o)
                if len(keep) >= op["hold"]:
                    keep.pop(0)
            o = None
            if op.get("gc"):
                gc.collect()
        keep = None
        gc.collect()

    def op_discard(self, op):
        self.objs.pop(op["g"], None)
        gc.collect()

    def op_edit_arg(self, op):
        if self.args:
            a = self.args[op["k"] % len(self.args)]
            a += op["d"]
            return True
        return False

    def op_param(self, op):
        """Change a design parameter and recompute the gear (the documented way)."""
        o = self.objs[op["g"]]
        setattr(o.inputparam, op["name"], op["value"])
        o.calc_params()
        return snap(o, 1)

    def op_attr(self, op):
        """In-place edits of a gear's own data."""
        o = self.objs[op["g"]]
        core = o if is_core(o) else o.gearcore
        what = op["what"]
        if what == "z_vals":
            core.z_vals[-1] += op["d"]
        elif what == "h_o":
            core.shape_recipe.limits.h_o = op["d"] + 2.3 * (
                -1 if core.tooth_param.inside_teeth else 1)
        elif what == "tooth_param":
            core.tooth_param.num_cutout_teeth = 1
        elif what == "fillet":
            core.shape_recipe.fillet.tip_reduction = abs(op["d"])
        elif what == "coeff":
            o.inside_cycloid_coefficient = 0.5 - abs(op["d"]) / 10
            o.outside_cycloid_coefficient = 0.5 - abs(op["d"]) / 10
            t = o.gearcore.transform
            o.calc_params()
            o.gearcore.transform = t
        elif what == "module":
            o.module = o.module * (1 + abs(op["d"]))
        elif what == "scale":
            tf(o).scale = tf(o).scale * (1 + abs(op["d"]))
        elif what == "input":
            o.inputparam.height = o.inputparam.height + abs(op["d"])
        else:
            raise HarnessError(what)

    # -- which objects an operation may change
    @staticmethod
    def affects(op):
        k = op["op"]
        if k in ("set_center", "move_inplace", "iadd", "set_angle", "add_angle", "orient", "mesh",
                 "reset", "param", "attr", "swap"):
            return {op["g"]}
        if k == "adapt":
            return {op["g"], op["o"]}
        if k in ("new", "copy"):
            return {op["id"]}
        if k == "discard":
            return {op["g"]}
        return set()


FAILED = "FAILED"
PLACE_OPS = ("set_center", "move_inplace", "iadd", "set_angle", "add_angle", "orient", "reset", "mesh")


def refs(op):
    """Object ids an operation needs."""
    r = [op[k] for k in ("g", "o") if k in op]
    for key in ("v", "dir"):
        v = op.get(key)
        if isinstance(v, dict) and "center_of" in v:
            r.append(v["center_of"])
        if isinstance(v, dict) and "local" in v:
            r.append(v["local"])
    if op["op"] == "new":
        for key in ("center", "position"):
            v = op["spec"]["args"].get(key)
            if isinstance(v, dict) and "center_of" in v:
                r.append(v["center_of"])
    return r


def usable(world, op):
    return all(r in world.objs for r in refs(op))


def concretise(world, op, stats=None, runner=None):
    """Turn an abstract fault {"u": [site, occurrence], ...} of an operation into a concrete
    event number by counting the events of a clean execution in a fork."""
    f = op.get("fault")
    if not f or "n" in f:
        return f

    def count():
        m = inject.Monitor(f["kind"], flt=inject.FILTERS[f.get("flt", "any")], record=True)
        try:
            with m:
                (runner or world.do)(op)
        except Exception:
            pass
        n = inject.choose_point(m, *f["u"])
        return n, len(set(m.sites)), len(m.sites)

    n, sites, total = in_fork(count)
    f["n"] = n
    f["of"] = [sites, total]
    return f


def do_faulty(world, op, stats=None):
    """Perform an operation, failing as its fault says.  Returns (status, value) with status
    "ok" or FAILED (value: exception name)."""
    f = op.get("fault")
    if f:
        concretise(world, op, stats)
    try:
        if f and f.get("n"):
            m = inject.Monitor(f["kind"], target=f["n"], exc=f["exc"],
                               flt=inject.FILTERS[f.get("flt", "any")])
            try:
                with m:
                    v = world.do(op)
            finally:
                if m.fired:
                    f["site"] = m.fired
                    if stats:
                        stats.inc(f"fault:{f['kind']}:{f['exc']}")
                        stats.add("fault_sites", m.fired)
        else:
            v = world.do(op)
        if stats:
            stats.inc("op:" + op["op"])
        return "ok", v
    except HarnessError:
        raise
    except (Exception, KeyboardInterrupt) as e:
        if stats:
            stats.inc("op:" + op["op"])
            if not f:
                stats.inc("probe:natural_failure")
        return FAILED, type(e).__name__


def gen_fault(rng, kind=None, flt="any"):
    kind = kind or pick(rng, "call", "call", "line")
    if kind == "line":
        exc = "KeyboardInterrupt"
    else:
        exc = pick(rng, "RuntimeError", "MemoryError", "ValueError", "KeyboardInterrupt")
    return {"kind": kind, "exc": exc, "flt": flt,
            "u": [round(rng.random(), 6), round(rng.random(), 6)]}
