"""Generators shared by the checks."""
import math

import world as W
from core import Violation, diff
from world import pick, rvec, rdir_xy

REAL = ["all of src/gggears (imported from /repo/src)", "build123d and OCP (CAD kernel)",
        "numpy and scipy"]

INV = ("SpurGear", "SpurRingGear", "HelicalGear", "HelicalRingGear", "InvoluteGear")


def kind(spec):
    c = spec["cls"]
    if c in ("InvoluteRack", "HelicalRack"):
        return "rack"
    if c == "CycloidGear":
        return "cyc"
    if c == "BevelGear":
        return "bevel"
    if c == "Gear":
        return "core"
    return "inv"


def is_helical_cls(spec):
    return spec["cls"] == "HelicalGear"


def direction(rng, ids=(), consts=True):
    r = rng.random()
    if consts and r < 0.35:
        return {"const": pick(rng, "RIGHT", "UP", "LEFT", "DOWN")}
    if r < 0.5:
        return None
    return rdir_xy(rng)


def vector(rng, ids):
    r = rng.random()
    if r < 0.15:
        return {"const": pick(rng, "ORIGIN", "UP", "RIGHT", "OUT", "LEFT", "IN")}
    if r < 0.35 and ids:
        return {"center_of": ids[rng.randrange(len(ids))]}
    return rvec(rng)


def move_op(rng, g, ids):
    k = pick(rng, "set_center", "set_center", "move_inplace", "move_inplace", "iadd", "set_angle",
             "add_angle", "orient", "orient")
    if k == "set_center":
        return {"op": k, "g": g, "v": vector(rng, ids)}
    if k == "move_inplace":
        return {"op": k, "g": g, "axis": rng.randrange(3), "d": round(rng.uniform(-5, 5), 3) + 0.01}
    if k == "iadd":
        return {"op": k, "g": g, "v": rvec(rng)}
    if k in ("set_angle", "add_angle"):
        return {"op": k, "g": g, "a": round(rng.uniform(-3, 3), 4)}
    return {"op": "orient", "g": g, "rotvec": orientation(rng), "inplace": rng.random() < 0.4}


def orientation(rng):
    """Arbitrary, or one of the quarter turns people use."""
    if rng.random() < 0.3:
        h = math.pi / 2
        return pick(rng, [h, 0, 0], [-h, 0, 0], [0, h, 0], [0, -h, 0], [0, 0, h], [2 * h, 0, 0],
                    [0, 2 * h, 0], [0, 0, 0])
    return rvec(rng, 1.8)


def mesh_op(rng, g, o, sg, so, anylen=False):
    """Mesh g to o, arguments allowed by the classes (anylen: directions of any length also
    where a unit vector is asked for)."""
    op = {"op": "mesh", "g": g, "o": o, "dir": direction(rng)}
    if (anylen or kind(sg) in ("inv", "bevel")) and rng.random() < 0.3:
        f = pick(rng, 0.25, 2.5, 7.0)
        op["dir"] = [f * x for x in rdir_xy(rng)]
    if kind(sg) == "core":
        op["dir"] = op["dir"] or rdir_xy(rng)
    if kind(sg) == "rack":
        if rng.random() < 0.3:
            op["offset"] = pick(rng, 1, -2, 0.5)
    elif kind(sg) == "inv" and not is_helical_cls(sg) and rng.random() < 0.35:
        op["backlash"] = pick(rng, 0.05, 0.1)
        if rng.random() < 0.5:
            op["angle_bias"] = pick(rng, 1.0, -1.0, 0.5)
    return op


def partner_ids(ids, specs, g, allow_bad=0.0, rng=None):
    """Objects g can be meshed to."""
    out = []
    for o in ids:
        if o == g:
            continue
        a, b = kind(specs[g]), kind(specs[o])
        ok = (a == b and a != "rack") or (a == "rack" and b == "inv")
        if ok or (rng is not None and rng.random() < allow_bad and b != "rack"):
            out.append(o)
    return out


def drop_unused(sc):
    """Remove 'new' operations nothing refers to any more."""
    used = set()
    for op in sc["ops"]:
        used.update(W.refs(op))
    ops = [op for op in sc["ops"] if op["op"] != "new" or op["id"] in used]
    if len(ops) < len(sc["ops"]):
        c = dict(sc)
        c["ops"] = ops
        yield c


def simpler_specs(sc, key="ops", keep=()):
    """Drop optional design parameters one at a time."""
    import json
    for i, op in enumerate(sc[key]):
        if op.get("op") == "new":
            for a in list(op["spec"]["args"]):
                if a in ("number_of_teeth", "helix_angle", "cone_angle") or a in keep:
                    continue
                c = json.loads(json.dumps(sc))
                del c[key][i]["spec"]["args"][a]
                yield c
        if op.get("fault"):
            c = json.loads(json.dumps(sc))
            del c[key][i]["fault"]
            yield c


def degenerate(place, partner):
    """A meaningless meshing result: not a number, or (like a pinion in a ring of its own size)
    concentric with the partner, so that rounding decides the direction."""
    if not all(W.np.isfinite(x).all() for x in place.values()):
        return True
    q = W.placement(partner)
    if "center" not in place or "center" not in q:
        return False
    return bool(W.np.linalg.norm(place["center"] - q["center"]) < 1e-6)
