"""C02: looking at or building a gear never changes it."""
import world as W
from core import Check, Violation, diff, in_fork
from world import World, design, do_faulty, gen_fault, pick, rack_design, snap, usable
from checks.common import REAL, degenerate, kind, mesh_op, move_op, orientation, simpler_specs

EXACT = dict(rtol=1e-12, atol=1e-12)


class C02(Check):
    id = "C02"
    runs = {"quick": 190, "thorough": 9000}
    real = REAL
    stubs = ["failures of calls made by the package are injected as exceptions before the call"]
    rule = ("Each run places one gear or rack of random design (moves, re-orientation, meshing, "
            "adapting), then performs 8-20 looks at it in random order with repetition: every public "
            "dimension, location, circle, outline, boundary and wire, copies, builds, updates and use "
            "as meshing target, some of them failing at a chosen call or line, some changes (moves, "
            "meshing, adapting, parameters) in between. Every value is compared with the value a "
            "pristine process gets that performs the changes and this look only. Non-trivial: at least four "
            "successful looks.")

    def setup(self):
        W.load()

    def gen(self, rng, tier, i):
        rack = rng.random() < 0.08
        s = rack_design(rng) if rack else design(rng)
        fam = s.pop("fam")
        s2 = W.mate(rng, s) if rng.random() < 0.5 else design(rng, "spur" if rack else fam)
        s2.pop("fam")
        pre = [{"op": "new", "id": "a", "spec": s}, {"op": "new", "id": "b", "spec": s2}]
        for _ in range(rng.randint(0, 4)):
            pre.append(move_op(rng, pick(rng, "a", "b"), ["a", "b"]))
        if rng.random() < 0.4:
            pre.append(mesh_op(rng, "a", "b", s, s2))
            if rng.random() < 0.5:
                pre.append(move_op(rng, "a", ["b"]))
        if kind(s) == "inv":
            s3 = W.mate(rng, s) if rng.random() < 0.5 else design(rng, fam)
            s3.pop("fam")
            pre.append({"op": "new", "id": "p", "spec": s3})
            pre.append(mesh_op(rng, "p", "a", s3, s))
        # changes in between refer to a gear that is not looked at
        pre.append({"op": "new", "id": "q", "spec": s2})
        if rng.random() < 0.5:
            pre.append(move_op(rng, "q", []))
        if kind(s) == "cyc" and rng.random() < 0.3:
            pre.append({"op": "adapt", "g": "a", "o": "b"})
        ops = []
        more = [pick(rng, *W.READS) for _ in range(2)] + [pick(rng, "max_outside_radius", "addendum_radius",
                                                               "cone_angle_limits_top")]
        conic = fam in ("bevel", "cyccone")
        budget = 1 if rng.random() < (0.3 if not conic else 0.12) else 0
        if rack:
            budget = 3
        for _ in range(rng.randint(6, 15)):
            r = rng.random()
            if rack:
                op = {"op": pick(rng, "build", "copy", "copy"), "g": "a"}
                if op["op"] == "build" and budget <= 0:
                    continue
                if op["op"] == "copy":
                    op["id"] = "c"
                budget -= op["op"] == "build"
            elif r < 0.5:
                op = {"op": "sread", "g": "a", "name": pick(rng, *W.CHEAP_READS)}
            elif r < 0.72:
                op = {"op": "sread", "g": "a", "name": pick(rng, *W.READS)}
            elif r < 0.8:
                op = {"op": "sread", "g": "a", "name": pick(rng, "wire0", "wire1", "boundary", "profile",
                                                           "radii_data_array", "max_outside_radius")}
            elif r < 0.84 and kind(s) == "inv":
                op = {"op": "loa", "g": "a", "o": "p", "z": pick(rng, 0, 0.5, 1)}
                if rng.random() < 0.4:
                    op["g"], op["o"] = "p", "a"
            elif r < 0.87:
                op = {"op": "copy", "g": "a", "id": "c"}
            elif r < 0.95:
                op = mesh_op(rng, "b", "a", s2, s)
            elif budget > 0:
                op = {"op": pick(rng, "build", "update"), "g": "a"}
                budget -= 1
            else:
                op = {"op": "sread", "g": "a", "name": pick(rng, *W.CHEAP_READS)}
            if rng.random() < 0.15:
                op["fault"] = gen_fault(rng)
            ops.append(op)
            if rng.random() < 0.15:
                if not rack and rng.random() < 0.7:
                    ops.append({"op": "view", "g": "a", "names": more})
                ops.append(self.change(rng, s, s2))
                if not rack:
                    ops.append({"op": "view", "g": "a", "names": more})
        if budget > 0 and not rack:
            op = {"op": pick(rng, "build", "update"), "g": "a"}
            if rng.random() < 0.3:
                op["fault"] = gen_fault(rng)
            ops.insert(rng.randrange(len(ops)), op)
        return {"pre": pre, "ops": ops}

    def change(self, rng, s, s2):
        """Something that does change the gear, in between looks."""
        r = rng.random()
        if r < 0.25:
            op = {"op": "orient", "g": "a", "rotvec": orientation(rng), "inplace": rng.random() < 0.4}
        elif r < 0.6:
            op = move_op(rng, "a", ["q"])
        elif r < 0.75:
            op = mesh_op(rng, "a", "q", s, s2)
        elif kind(s) == "cyc" and r < 0.9:
            op = {"op": "adapt", "g": "a", "o": "q"}
        elif kind(s) in ("inv", "cyc"):
            name, val = pick(rng, ("height", 2.2), ("backlash", 0.03), ("module", 1.3),
                             ("z_anchor", 0.4), ("tip_truncation", 0.15))
            op = {"op": "param", "g": "a", "name": name, "value": val}
        else:
            op = move_op(rng, "a", ["q"])
        return dict(op, change=True)

    def simpler(self, sc):
        import json
        for i in range(len(sc["pre"]) - 1, 0, -1):
            c = json.loads(json.dumps(sc))
            del c["pre"][i]
            yield c
        yield from simpler_specs(sc, "pre")
        yield from simpler_specs(sc, "ops")

    def signature(self, sc):
        return [sc["pre"], [[o["op"], o.get("name"), (o.get("fault") or {}).get("site")]
                            for o in sc["ops"]]]

    def execute(self, sc, st):
        w = World(st)
        for op in sc["pre"]:
            if usable(w, op):
                do_faulty(w, op, st)
        a = w.objs["a"]
        base = snap(a, 1)
        refs = {}
        good = 0
        done = []       # changes made so far
        for n, op in enumerate(sc["ops"]):
            if not usable(w, op):
                continue
            if op.get("change"):
                # from here on compared with a gear changed the same way and never looked at
                s0, v0 = do_faulty(w, op, st)
                if op["op"] == "mesh" and (s0 != "ok" or degenerate(v0, w.objs["q"])):
                    return
                done.append(op)
                refs = {}
                base = in_fork(lambda: snap(w0(sc, done).objs["a"], 1))
                st.inc("cmp")
                d = diff(base, snap(a, 1), rtol=1e-10, atol=1e-10)
                if d:
                    raise Violation("look-shows-later", f"op {n} ({op['op']} {s0}): without the looks "
                                    f"before it, the gear is different: {d}")
                base = snap(a, 1)
                continue
            clean = {k: v for k, v in op.items() if k != "fault"}
            key = W.gg and repr(sorted(clean.items(), key=str))
            if key not in refs:
                refs[key] = in_fork(lambda: do_faulty(w0(sc, done), clean))
            status, val = do_faulty(w, op, st)
            where = f"op {n} ({op['op']} {op.get('name', '')} {status})"
            d = diff(base, snap(a, 1), **EXACT)
            st.inc("cmp")
            if d:
                raise Violation("gear-changed", f"{where} changed the gear: {d}")
            fired = (op.get("fault") or {}).get("site")
            if op["op"] == "mesh" and (
                    status == "ok" and degenerate(val, a)
                    or refs[key][0] == "ok" and degenerate(refs[key][1], a)):
                # a pair that cannot mesh got a meaningless placement: not used any further
                w.objs.pop("b", None)
                continue
            if fired is None:
                st.inc("cmp")
                rs, rv = refs[key]
                if rs != status:
                    raise Violation("result-changed", f"{where}: alone it gives {rs} {W.short(rv)}, "
                                    f"now {status} {W.short(val)}")
                if op["op"] in ("build", "update") and status == "ok":
                    d = W.diff_parts(rv, val)
                else:
                    d = diff(rv, val)
                if d:
                    raise Violation("result-changed", f"{where} differs from the first look: {d}")
                good += status == "ok"
        base2 = in_fork(lambda: snap(w0(sc, done).objs["a"], 2))
        d = diff(base2, snap(a, 2), rtol=1e-10, atol=1e-10)
        st.inc("cmp")
        if d:
            raise Violation("gear-changed", f"after all looks: {d}")
        for g, p, s in w.parts:
            d = W.diff_parts(s, W.part_sig(p))
            if d:
                raise Violation("part-changed", f"a part returned earlier changed: {d}")
        if good >= 4:
            st.inc("nontrivial")
        st.add("look_orders", [[o["op"], o.get("name")] for o in sc["ops"]])


def w0(sc, changes=()):
    """A second, untouched world prepared the same way (references never share it)."""
    w = World()
    for op in list(sc["pre"]) + list(changes):
        if usable(w, op):
            do_faulty(w, {k: v for k, v in op.items()})
    return w
