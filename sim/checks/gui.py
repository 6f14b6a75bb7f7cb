"""C13-C16: the GUI script, run for real against a stand-in for Qt, the viewer and the dialogs."""
import functools
import inspect
import json
import math
import os
import random
import shutil
import struct
import sys
import tempfile
import types

import inject
import qtstub as Q
import world as W
from core import REPO, Check, Violation, diff, in_fork
from world import pick, snap

TYPES = ["SpurGear", "SpurRingGear", "HelicalGear", "HelicalRingGear", "BevelGear", "CycloidGear"]
STUBS = ["PyQt6 (not installed): sim/qtstub.py", "ocp_vscode viewer client: records what is shown, fails on "
         "demand", "subprocess.Popen: records start and stop"]
GUI = os.path.join(REPO, "gui", "gggui.py")


class Fault(Exception):
    pass


class Sim:
    """One run of the GUI."""

    def __init__(self, st, mode="fake"):
        self.st = st
        self.mode = mode
        self.procs = []
        self.shown = None            # list of parts currently displayed (None: nothing yet)
        self.ctor = []               # gears created, outermost constructor calls
        self.built = []              # (gear, part, signature)
        self.events = []             # seam events of the current action
        self.fail = {}               # seam -> exception name, for the current action
        self.anim = None
        self.exports = None          # list to record exports instead of writing, or None
        self.export_fail = None
        self.depth = 0
        self.n = 0
        self.atexit = []
        self.monitor = None

    # -- seams
    def seam(self, name, when="before"):
        key = f"{name}:{when}"
        self.events.append(key)
        e = self.fail.pop(key, None)
        if e:
            self.events.append("FAILED " + key)
            self.st.inc(f"fault:{key}:{e}")
            raise inject.make_exc(e)

    def install(self):
        gg, bd = W.gg, W.bd
        sim = self
        viewer = types.ModuleType("ocp_vscode")

        def show(*objs, **kw):
            sim.seam("show")
            o = objs[0] if len(objs) == 1 else list(objs)
            sim.shown = list(o) if isinstance(o, (list, tuple)) else [o]
            sim.events.append("shown")
            sim.seam("show", "after")

        class Camera:
            RESET, KEEP, CENTER = "reset", "keep", "center"

        class Animation:
            def __init__(self, assembly, *a):
                sim.seam("animation")
                self.assembly = assembly
                self.tracks = []

            def add_track(self, path, action, times, values):
                sim.seam("track")
                self.tracks.append((path, action, list(times), list(values)))

            def animate(self, *a, **k):
                sim.seam("animate")
                sim.anim = self
                sim.events.append("animated")

        viewer.show = viewer.show_object = show
        viewer.Camera, viewer.Animation = Camera, Animation
        viewer.set_port = lambda *a, **k: sim.seam("set_port")
        viewer.set_defaults = lambda *a, **k: sim.seam("set_defaults")
        viewer.__getattr__ = lambda name: Q.Any() if not name.startswith("__") else (_ for _ in ()).throw(
            AttributeError(name))
        self.S = Q.install({"ocp_vscode": viewer})

        class Proc:
            def __init__(self, *a, **k):
                sim.seam("popen")
                self.args = a
                self.alive = True
                self.pid = 40000000 + len(sim.procs)
                self.returncode = None
                sim.procs.append(self)
                sim.seam("popen", "after")

            def kill(self):
                self.alive = False
                self.returncode = -9

            def terminate(self):
                self.alive = False
                self.returncode = -15

            def poll(self):
                return self.returncode

            def wait(self, timeout=None):
                if self.alive:
                    import subprocess
                    raise subprocess.TimeoutExpired("viewer", timeout)
                return self.returncode

            communicate = wait

            def send_signal(self, s):
                self.kill()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()

        import subprocess
        import atexit
        subprocess.Popen = Proc
        atexit.register = lambda f, *a, **k: sim.atexit.append((f, a, k)) or f
        # gears: note the outermost constructor call, and the part of each gear
        for name in sorted(vars(gg)):
            c = getattr(gg, name)
            if isinstance(c, type) and c.__module__.endswith("gggears_wrapper") and \
                    "__init__" in vars(c) and "Gear" in name:
                self.wrap_init(c)
                for m in ("build_part", "update_part"):
                    if m in vars(c):
                        self.wrap_build(c, m)
                if "mesh_to" in vars(c):
                    self.wrap_mesh(c)
        for f in ("export_stl", "export_step", "export_gltf"):
            self.wrap_export(f)

    def wrap_init(self, c):
        sim = self
        orig = c.__init__

        @functools.wraps(orig)
        def __init__(self, *a, **k):
            if sim.depth:
                return orig(self, *a, **k)
            sim.seam("create")
            sim.depth += 1
            try:
                orig(self, *a, **k)
            except Exception:
                sim.events.append("FAILED create")
                raise
            finally:
                sim.depth -= 1
            sim.ctor.append(self)
            sim.seam("create", "after")

        c.__init__ = __init__

    def wrap_build(self, c, m):
        sim = self
        orig = getattr(c, m)

        @functools.wraps(orig)
        def build(self, *a, **k):
            if sim.depth:
                return orig(self, *a, **k)
            sim.seam("build")
            sim.depth += 1
            try:
                if sim.mode == "fake":
                    part = sim.fake_part(self)
                else:
                    part = orig(self, *a, **k)
            except Exception:
                sim.events.append("FAILED build")
                raise
            finally:
                sim.depth -= 1
            sim.built.append((self, part, W.part_sig(part)))
            sim.seam("build", "after")
            return part

        setattr(c, m, build)

    def wrap_mesh(self, c):
        sim = self
        orig = c.mesh_to

        @functools.wraps(orig)
        def mesh_to(self, *a, **k):
            if sim.depth:
                return orig(self, *a, **k)
            sim.seam("mesh")
            sim.depth += 1
            try:
                orig(self, *a, **k)
            except Exception:
                sim.events.append("FAILED mesh")
                raise
            finally:
                sim.depth -= 1
            sim.seam("mesh", "after")

        c.mesh_to = mesh_to

    def wrap_export(self, f):
        sim = self
        orig = getattr(W.bd, f)

        @functools.wraps(orig)
        def export(part, path, *a, **k):
            sim.events.append("export")
            if sim.exports is not None:
                sim.exports.append((f, str(path), W.part_sig(part)))
                return True
            mode = sim.export_fail
            if mode == "raise":
                sim.st.inc("fault:export:OSError")
                sim.events.append("FAILED export")
                raise OSError(28, "No space left on device")
            if mode == "false":
                sim.st.inc("fault:export:returns_false")
                sim.events.append("FAILED export")
                return False
            try:
                ok = orig(part, path, *a, **k)
            except Exception:
                sim.events.append("FAILED export")
                raise
            if not ok:
                sim.events.append("FAILED export")
            return ok

        setattr(W.bd, f, export)

    def fake_part(self, gear):
        """A cheap stand-in solid of unique size at the gear's place."""
        self.n += 1
        k = self.n
        p = W.bd.Part() + W.bd.Box(1 + 0.1 * k, 2 + 0.07 * k, 1.5 + 0.03 * k)
        try:
            return p.moved(gear.center_location_bottom)
        except Exception:               # a placement that is no placement (NaN)
            return p

    # -- running the script
    def run(self, loop):
        self.install()
        self.S.loop = loop
        with open(GUI) as f:
            src = f.read()
        code = compile(src, GUI, "exec")
        if self.monitor is not None:
            inject._codes = []          # only calls made by the script itself
        inject.add_codes(code)
        mod = types.ModuleType("__main__")
        mod.__file__ = GUI
        old_main, old_argv = sys.modules["__main__"], sys.argv
        err = io_silence()
        try:
            sys.modules["__main__"] = mod
            sys.argv = [GUI]
            try:
                if self.monitor is not None:
                    with self.monitor:
                        exec(code, mod.__dict__)
                else:
                    exec(code, mod.__dict__)
                out = ("end", None)
            except Q.Aborted:
                out = ("aborted", self.S.aborted)
            except BaseException as e:
                out = ("error", e)
        finally:
            sys.modules["__main__"], sys.argv = old_main, old_argv
            err()
        if out[0] != "aborted":
            for f, a, k in reversed(self.atexit):
                try:
                    f(*a, **k)
                except Exception:
                    pass
        return out

    # -- the window, as a user sees it
    @property
    def win(self):
        return self.S.windows[-1]

    def button(self, text):
        for b in Q.find(self.win, Q.QPushButton):
            if b.text().startswith(text):
                return b
        raise Violation("no-button", f"there is no button {text!r}")

    def combo(self, side):
        return Q.find(self.win, Q.QComboBox)[side]

    def fields(self, side):
        """Parameter name -> widgets, in the column of that side."""
        c = self.combo(side)
        other = self.combo(1 - side)
        col = None
        for x in reversed(Q.path_to(self.win, c)):
            if other in list(Q.walk(x)):
                break
            col = x
        out = {}
        name = None
        for w in Q.walk(col):
            if isinstance(w, Q.QLabel):
                t = w.text()
                name = t[:-1].strip() if t.endswith(":") else None
                if name:
                    out[name] = []
            elif name and isinstance(w, (Q.QSpinBox, Q.QCheckBox)):
                out[name].append(w)
            elif isinstance(w, Q.QPushButton):
                name = None
        return out

    def values(self, side):
        """What the fields show."""
        out = {}
        for k, ws in self.fields(side).items():
            vs = [w.isChecked() if isinstance(w, Q.QCheckBox) else w.value() for w in ws]
            out[k] = vs[0] if len(vs) == 1 else vs
        return out


def io_silence():
    """Errors are printed by the GUI's own hook: keep the check's output readable."""
    import io
    old = sys.stderr
    sys.stderr = io.StringIO()

    def undo():
        sys.stderr = old

    return undo


def signature(cls):
    return inspect.signature(getattr(W.gg, cls)).parameters


def reference(sim, side, left=None):
    """The gear described by the fields of a side (independent of the GUI's code)."""
    cls = sim.combo(side).currentText()
    shown = sim.values(side)
    args = {}
    for k, p in signature(cls).items():
        if k not in shown or shown[k] == []:
            raise Violation("missing-field", f"{cls} has no field for {k}")
        v = shown[k]
        if isinstance(v, list):
            v = W.np.array(v, float)
        elif "angle" in k and not isinstance(v, bool):
            v = v * math.pi / 180
        args[k] = v
    sim.depth += 1
    try:
        g = getattr(W.gg, cls)(**args)
        if left is not None:
            g.mesh_to(left)
    finally:
        sim.depth -= 1
    return g


class GuiCheck(Check):
    real = ["gui/gggui.py (executed as the main script)", "src/gggears (gear creation and meshing)",
            "build123d exporters where files are written"]
    stubs = STUBS

    def setup(self):
        W.load()

    def signature(self, sc):
        return [[o["op"], o.get("side"), o.get("key"), o.get("type"), o.get("fail"), o.get("fmt")]
                for o in sc["ops"]]

    def simpler(self, sc):
        for i, op in enumerate(sc["ops"]):
            if op.get("fail"):
                c = json.loads(json.dumps(sc))
                del c["ops"][i]["fail"]
                yield c
        if sc.get("mode") == "real":
            c = json.loads(json.dumps(sc))
            c["mode"] = "fake"
            yield c

    # -- performing user actions
    def act(self, sim, op):
        k = op["op"]
        sim.events = []
        sim.st.inc("op:" + k)
        if k == "type":
            sim.combo(op["side"]).user_select(op["type"])
        elif k == "edit":
            f = sim.fields(op["side"])
            ks = sorted(f)
            if not ks:
                return
            key = op["key"] if op.get("key") in f else ks[int(op.get("u", 0) * len(ks)) % len(ks)]
            op["key"] = key
            ws = f[key]
            if not ws:
                return
            w = ws[op.get("idx", 0) % len(ws)]
            if isinstance(w, Q.QCheckBox):
                w.user_set(not w.isChecked())
            elif isinstance(w, Q.QDoubleSpinBox):
                w.user_set(op["v"])
            else:
                w.user_set(int(op["v"]))
        elif k in ("generate", "save"):
            sim.button({"generate": "Generate", "save": "Save"}[k] + str(op["side"] + 1)).click()
        elif k == "clear":
            sim.button("Clear").click()
        elif k == "animate":
            sim.button("Animate").click()

    def run_gui(self, sim, sc, body):
        """Run the script; body(sim) is the user's session."""
        box = []

        def loop():
            try:
                body(sim)
            except Q.Aborted:
                raise
            except BaseException as v:     # a violation, or trouble in the harness
                box.append(v)
            return 0

        out = sim.run(loop)
        if box:
            raise box[0]
        if out[0] == "aborted":
            raise Violation("gui-died", f"an error in an action aborts the GUI: {out[1]!r}")
        if out[0] == "error":
            raise Violation("gui-died", f"the GUI ended with {type(out[1]).__name__}: {out[1]}")
        return out


EXC = ("RuntimeError", "MemoryError", "ValueError", "OSError")


class C13(GuiCheck):
    id = "C13"
    runs = {"quick": 500, "thorough": 20000}
    rule = ("Each run starts the GUI script and performs 5-14 user actions (generate either side, clear, "
            "change gear type, edit a field, animate, save), about a third of them failing at a seam "
            "(gear creation, meshing, build, viewer, animation, export; before or after the work) or by "
            "invalid input. After every action the state is probed through the user interface in a fork: "
            "what either save button would write, whether animation is enabled and what it would "
            "animate; compared with a model. 6 % of runs build real solids, the rest unique boxes. "
            "Non-trivial: an action failed and a later one succeeded.")

    def gen(self, rng, tier, i):
        real = rng.random() < 0.06
        ops = []
        seams = ["create:before", "create:after", "build:before", "build:after", "show:before"]
        gens = 0
        for _ in range(rng.randint(5, 14)):
            r = rng.random()
            side = rng.randrange(2)
            if r < 0.5:
                if real and gens >= 4:
                    continue
                gens += 1
                op = {"op": "generate", "side": side}
                if rng.random() < 0.35:
                    s = list(seams)
                    if side == 1:
                        s += ["mesh:before", "mesh:after"]
                    op["fail"] = {pick(rng, *s): pick(rng, *EXC)}
                elif rng.random() < 0.1:
                    op["bad"] = True        # a field value no gear can be made of
            elif r < 0.6:
                op = {"op": "clear"}
                if rng.random() < 0.4:
                    op["fail"] = {"show:before": pick(rng, *EXC)}
            elif r < 0.7:
                op = {"op": "type", "side": side, "type": pick(rng, *TYPES)}
                if real:
                    continue
            elif r < 0.78:
                op = {"op": "edit", "side": side, "key": pick(rng, "number_of_teeth", "module", "height",
                                                              "angle"), "v": rng.randint(5, 30)}
                if real:
                    op["key"], op["v"] = "number_of_teeth", rng.randint(6, 12)
            elif r < 0.9:
                op = {"op": "animate"}
                if rng.random() < 0.4:
                    op["fail"] = {pick(rng, "animation:before", "track:before", "show:before",
                                       "animate:before"): pick(rng, *EXC)}
            else:
                op = {"op": "save", "side": side, "fmt": pick(rng, "STL", "STEP", "GLTF"),
                      "fail": pick(rng, None, "raise", "false")}
            ops.append(op)
        return {"ops": ops, "mode": "real" if real else "fake"}

    def execute(self, sc, st):
        sim = Sim(st, sc.get("mode", "fake"))
        self.model = [None, None]      # per side: (gear, signature of its part)
        self.run_gui(sim, sc, lambda sim: self.session(sim, sc, st))

    def session(self, sim, sc, st):
        m = [None, None]
        failed = good_after = 0
        self.probe(sim, m, "at start", st)
        for n, op in enumerate(sc["ops"]):
            where = f"after op {n} ({op['op']} {op.get('side', '')})"
            sim.fail = dict(op["fail"]) if isinstance(op.get("fail"), dict) else {}
            undo = None
            if op["op"] == "save":
                fmt, fl = op["fmt"], op.get("fail")
                sim.S.dialog = lambda filters: ("/nonexistent-dir/out", find_filter(filters, fmt))
                sim.export_fail = fl or "false"
            if op["op"] == "generate" and op.get("bad"):
                w = sim.fields(op["side"])["number_of_teeth"][0]
                undo = (w, w.value())
                w.user_set(0)
            nb = len(sim.built)
            was = sim.button("Animate").isEnabled()
            sim.S.reported.clear()
            self.act(sim, op)
            sim.fail = {}
            ev = list(sim.events)
            if undo:
                undo[0].user_set(undo[1])
            bad = [e for e in ev if e.startswith("FAILED")]
            failed += bool(bad)
            if bad:
                where += f" [{', '.join(bad)}]"
            if op["op"] == "generate" and not bad:
                if "shown" not in ev or len(sim.built) == nb:
                    raise Violation("nothing-generated", f"{where}: nothing failed, but nothing was "
                                    f"built and shown ({sim.S.reported or ''})")
                g, part, sig = sim.built[-1]
                if not finite(g):
                    return      # a meaningless pair (e.g. equal ring and pinion): nothing to follow
                m[op["side"]] = (g, sig)
                good_after += bool(failed)
                self.check_shown(sim, m, where)
            elif op["op"] == "clear" and not bad:
                if "shown" not in ev:
                    raise Violation("nothing-cleared", f"{where}: nothing was shown")
                m = [None, None]
                good_after += bool(failed)
                self.check_shown(sim, m, where)
            elif op["op"] == "animate":
                if was and not bad and "animated" not in ev:
                    raise Violation("no-animation", f"{where}: enabled, nothing failed, no animation "
                                    f"({sim.S.reported or ''})")
            self.probe(sim, m, where, st)
        if failed and good_after:
            st.inc("nontrivial")
        st.add("histories", [[o["op"], o.get("side"), o.get("fail")] for o in sc["ops"]])

    def check_shown(self, sim, m, where):
        """The viewer shows exactly the parts of the sides."""
        sigs = [W.part_sig(p) for p in sim.shown if not empty(p)]
        want = [x[1] for x in m if x]
        sim.st.inc("cmp")
        if len(sigs) != len(want):
            raise Violation("shown-differs", f"{where}: {len(sigs)} parts are shown, should be {len(want)}")
        for s in want:
            if not any(W.diff_parts(s, t) is None for t in sigs):
                raise Violation("shown-differs", f"{where}: a part of the sides is not shown")

    def probe(self, sim, m, where, st):
        def look():
            sim.fail = {}
            out = {"animate": sim.button("Animate").isEnabled(), "saved": []}
            for side in (0, 1):
                sim.exports = []
                sim.S.dialog = lambda filters: ("/probe", find_filter(filters, "STL"))
                sim.S.reported.clear()
                self.act(sim, {"op": "save", "side": side})
                out["saved"].append([x[2] for x in sim.exports])
                if sim.S.reported:
                    out["err"] = repr(sim.S.reported)
            if out["animate"]:
                sim.anim = None
                sim.S.reported.clear()
                self.act(sim, {"op": "animate"})
                if sim.anim is None:
                    out["anim"] = repr(sim.S.reported)
                else:
                    out["anim"] = [W.part_sig(s) for s in sim.anim.assembly.solids()]
                    out["tracks"] = len(sim.anim.tracks)
            return out

        p = in_fork(look)
        st.inc("cmp", 3)
        want = bool(m[0] and m[1])
        if p["animate"] != want:
            raise Violation("animate-button", f"{where}: animation is {'en' if p['animate'] else 'dis'}abled "
                            f"with left {'full' if m[0] else 'empty'}, right {'full' if m[1] else 'empty'}")
        for side in (0, 1):
            got = p["saved"][side]
            if m[side] is None:
                if got:
                    raise Violation("side-not-empty", f"{where}: side {side + 1} should be empty, save "
                                    f"writes something")
            elif len(got) != 1:
                raise Violation("side-lost", f"{where}: side {side + 1} holds a gear, but saving writes "
                                f"{len(got)} parts {p.get('err', '')}")
            else:
                d = W.diff_parts(m[side][1], got[0])
                if d:
                    raise Violation("wrong-part", f"{where}: side {side + 1} holds another part than the "
                                    f"last successful generate: {d}")
        if want:
            a = p.get("anim")
            st.inc("cmp")
            if isinstance(a, str):
                raise Violation("cannot-animate", f"{where}: animation is enabled but fails: {a}")
            if len(a) != 2:
                raise Violation("wrong-animation", f"{where}: {len(a)} solids are animated")
            for side in (0, 1):
                if not any(W.diff_parts(m[side][1], x) is None for x in a):
                    raise Violation("wrong-animation", f"{where}: the part of side {side + 1} is not among "
                                    f"the animated ones (or not at its place)")


def finite(gear):
    return all(W.np.isfinite(x).all() for x in W.placement(gear).values())


def empty(p):
    try:
        return not p.solids()
    except Exception:
        return True


def find_filter(filters, fmt):
    for f in filters.split(";;"):
        if fmt.lower() in f.lower():
            return f.strip()
    raise Violation("no-format", f"the dialog does not offer {fmt}")


# ------------------------------------------------------------------ C14
class C14(GuiCheck):
    id = "C14"
    runs = {"quick": 1000, "thorough": 15000}
    rule = ("Each run starts the GUI script, performs 4-10 actions (generate with and without failures, "
            "clear, type change, animate, edit) interleaved with 2-5 saves of either side with the real "
            "exporters into a scratch directory: STL, STEP, GLTF, new and existing paths, names without "
            "suffix, cancelled dialogs, missing directories, a directory as path, a full disk, exporters "
            "raising or returning failure. The written file is read back and compared with the part of "
            "that side; nothing else may appear. Non-trivial: a file was written and compared.")

    def gen(self, rng, tier, i):
        real = rng.random() < 0.04
        ops = []
        gens = 0
        for _ in range(rng.randint(6, 14)):
            r = rng.random()
            side = rng.randrange(2)
            if r < 0.4:
                if real and gens >= 3:
                    continue
                gens += 1
                op = {"op": "generate", "side": side}
                if rng.random() < 0.25:
                    op["fail"] = {pick(rng, "create:before", "build:before", "build:after",
                                       "show:before"): pick(rng, *EXC)}
            elif r < 0.45:
                op = {"op": "clear"}
                if rng.random() < 0.4:
                    op["fail"] = {"show:before": "RuntimeError"}
            elif r < 0.5 and not real:
                op = {"op": "type", "side": side, "type": pick(rng, *TYPES)}
            elif r < 0.55:
                op = {"op": "animate"}
            else:
                op = {"op": "save", "side": side, "fmt": pick(rng, "STL", "STEP", "GLTF"),
                      "name": pick(rng, "a", "b", "a.stl", "b.step", "c.stp", "d.gltf", "odd name.x")}
                if rng.random() < 0.4:
                    op["how"] = pick(rng, "cancel", "nodir", "isdir", "full", "raise", "false")
            ops.append(op)
        return {"ops": ops, "mode": "real" if real else "fake"}

    def execute(self, sc, st):
        sim = Sim(st, sc.get("mode", "fake"))
        tmp = tempfile.mkdtemp(prefix="ggsim")
        try:
            self.run_gui(sim, sc, lambda sim: self.session(sim, sc, st, tmp))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def session(self, sim, sc, st, tmp):
        m = [None, None]
        wrote = 0
        os.mkdir(os.path.join(tmp, "somedir"))
        os.symlink("/dev/full", os.path.join(tmp, "fulldisk"))
        for n, op in enumerate(sc["ops"]):
            where = f"op {n} ({op['op']} {op.get('side', '')})"
            sim.fail = dict(op["fail"]) if isinstance(op.get("fail"), dict) else {}
            if op["op"] != "save":
                nb = len(sim.built)
                self.act(sim, op)
                sim.fail = {}
                bad = [e for e in sim.events if e.startswith("FAILED")]
                if op["op"] == "generate" and not bad and len(sim.built) > nb:
                    m[op["side"]] = sim.built[-1]
                    if not finite(sim.built[-1][0]):
                        return
                if op["op"] == "clear" and not bad:
                    m = [None, None]
                continue
            how = op.get("how")
            fmt = op["fmt"]
            if how == "full" and fmt == "STL":
                how = "isdir"     # the STL writer of the CAD library itself ignores a full disk
            path = {"nodir": os.path.join(tmp, "missing", op["name"]), "isdir": os.path.join(tmp, "somedir"),
                    "full": os.path.join(tmp, "fulldisk")}.get(how, os.path.join(tmp, op["name"]))
            if how in ("nodir", "isdir", "full"):
                st.inc("fault:disk:" + how)
            if how == "cancel":
                st.inc("fault:dialog:cancel")
                sim.S.dialog = lambda filters: ("", "")
            else:
                sim.S.dialog = lambda filters: (path, find_filter(filters, fmt))
            sim.export_fail = how if how in ("raise", "false") else None
            before = listing(tmp)
            gears = [gsnap(x[0]) if x else None for x in m]
            sigs = [W.part_sig(x[1]) if x else None for x in m]
            labels = [str(x[1].label) if x else None for x in m]
            cwd = os.getcwd()
            nexp = 0
            sim.S.reported.clear()
            try:
                os.chdir(os.path.join(tmp, "somedir"))
                with quiet_fd():
                    self.act(sim, op)
            finally:
                os.chdir(cwd)
            after = listing(tmp)
            changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
            side = m[op["side"]]
            st.inc("cmp", 2)
            for i in (0, 1):
                if m[i]:
                    d = diff(gears[i], gsnap(m[i][0])) or W.diff_parts(sigs[i], W.part_sig(m[i][1]))
                    if d:
                        raise Violation("save-changed-gear", f"{where}: side {i + 1}: {d}")
            if side is None or how == "cancel":
                if changed:
                    raise Violation("wrote-something", f"{where}: {'cancelled' if side else 'empty side'}, "
                                    f"but {sorted(changed)} appeared")
                continue
            stem = os.path.splitext(path)[0]
            allowed = {path, path + ".bin", stem + ".bin"}
            extra = {os.path.join(tmp, c) for c in changed} - allowed
            if extra:
                raise Violation("wrote-elsewhere", f"{where}: {sorted(extra)} changed")
            if how in ("nodir", "isdir", "full", "raise", "false"):
                if "export" in sim.events and "FAILED export" not in sim.events:
                    raise Violation("wrote-elsewhere", f"{where}: writing to {path} succeeded?")
                if not sim.S.reported:
                    raise Violation("silent-failure", f"{where}: writing failed ({how}, {fmt}), nothing "
                                    "was reported")
                st.inc("probe:failed_saves")
                continue
            if sim.S.reported:
                raise Violation("save-failed", f"{where}: {sim.S.reported!r}")
            if not os.path.isfile(path):
                raise Violation("not-written", f"{where}: {path} was not written")
            d = compare_file(path, fmt, side[2], sim.mode)
            st.inc("cmp")
            wrote += 1
            if d:
                raise Violation("wrong-content", f"{where}: {fmt} file: {d}")
        if wrote:
            st.inc("nontrivial")
        st.add("histories", [[o["op"], o.get("side"), o.get("how"), o.get("fmt")] for o in sc["ops"]])


class quiet_fd:
    """The CAD library prints to file descriptor 1."""

    def __enter__(self):
        sys.stdout.flush()
        self.old = os.dup(1)
        n = os.open("/dev/null", os.O_WRONLY)
        os.dup2(n, 1)
        os.close(n)

    def __exit__(self, *a):
        os.dup2(self.old, 1)
        os.close(self.old)


def listing(tmp):
    out = {}
    for root, dirs, files in os.walk(tmp):
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p):
                continue
            with open(p, "rb") as h:
                out[os.path.relpath(p, tmp)] = hash(h.read()) ^ os.stat(p).st_mtime_ns
    return out


def compare_file(path, fmt, sig, mode):
    """Does the file hold the part with that signature?"""
    np = W.np
    with open(path, "rb") as f:
        data = f.read()
    lo, hi = sig["verts"].min(axis=0), sig["verts"].max(axis=0)
    size = float((hi - lo).max())
    if fmt == "STEP":
        if not data.lstrip().startswith(b"ISO-10303-21"):
            return "not a STEP file"
        with quiet_fd():
            c = W.bd.import_step(path)
        vol = sum(s.volume for s in c.solids())
        com = c.center(W.bd.CenterOf.MASS)
        if abs(vol - sig["volume"]) > 1e-4 * sig["volume"]:
            return f"volume {vol} instead of {sig['volume']}"
        if np.abs(np.array(tuple(com)) - sig["com"]).max() > 1e-3 * size:
            return f"centre {tuple(com)} instead of {sig['com']}"
        return None
    if fmt == "STL":
        if data[:5] == b"solid" and b"facet" in data[:400]:
            pts = np.array([[float(x) for x in l.split()[1:4]] for l in data.decode().splitlines()
                            if l.strip().startswith("vertex")])
        else:
            n = struct.unpack("<I", data[80:84])[0]
            if len(data) != 84 + 50 * n:
                return "not an STL file"
            rec = np.frombuffer(data, dtype=np.dtype([("f", "<f4", 12), ("a", "<u2")]), count=n, offset=84)
            pts = rec["f"][:, 3:].reshape(-1, 3).astype(float)
        if not len(pts):
            return "no triangles"
        tri = pts.reshape(-1, 3, 3)
        vol = float(np.einsum("ij,ij->i", tri[:, 0], np.cross(tri[:, 1], tri[:, 2])).sum() / 6)
        tol = 1e-3 if mode == "fake" else 2e-2
        if abs(vol - sig["volume"]) > tol * sig["volume"]:
            return f"volume {vol} instead of {sig['volume']}"
        if np.abs(pts.min(axis=0) - lo).max() > 0.02 * size + 1e-3 or \
                np.abs(pts.max(axis=0) - hi).max() > 0.02 * size + 1e-3:
            return "it is at another place or of another size"
        return None
    try:
        doc = json.loads(data)
    except ValueError:
        if data[:4] == b"glTF":
            return None
        return "not a GLTF file"
    if "asset" not in doc:
        return "not a GLTF file"
    a, b = None, None
    for mesh in doc.get("meshes", ()):
        for p in mesh["primitives"]:
            acc = doc["accessors"][p["attributes"]["POSITION"]]
            a = acc["min"] if a is None else np.minimum(a, acc["min"])
            b = acc["max"] if b is None else np.maximum(b, acc["max"])
    if a is None:
        return "no mesh"
    if mode == "fake":
        # box edges, in any unit and frame
        e = np.sort(np.array(b) - np.array(a))
        v = sig["verts"]
        d = np.sort(np.linalg.norm(v - v[0], axis=1))
        want = np.sort([d[1], d[2], sig["volume"] / d[1] / d[2]])
        r = e / want
        if r.max() - r.min() > 1e-2 * r.max():
            return f"edges {e} instead of {want}"
    return None


# ------------------------------------------------------------------ C15
class C15(GuiCheck):
    id = "C15"
    runs = {"quick": 1500, "thorough": 60000}
    rule = ("Each run starts the GUI script and performs 6-20 actions: edits of any field of either side "
            "(spin boxes, check boxes, centre components, out-of-range values), type changes, generates, "
            "clear. Every successful generate is compared with the gear created independently from the "
            "values shown in the fields (angles in degrees), placed in mesh with the left gear if there "
            "is one; a failing generate must fail for the shown values, too. After every action the "
            "fields of the other side, the gears generated so far and the library constants must be "
            "unchanged and fresh panels must show the defaults. Non-trivial: a generate after an edit.")

    def gen(self, rng, tier, i):
        ops = []
        pt = pick(rng, 0.1, 0.25)
        same = rng.random() < 0.4
        for _ in range(rng.randint(6, 20)):
            r = rng.random()
            side = rng.randrange(2)
            if r < pt:
                op = {"op": "type", "side": side, "type": pick(rng, *TYPES)}
                if same:
                    ops.append(op)
                    op = {"op": "type", "side": 1 - side, "type": op["type"]}
            elif r < 0.7:
                op = {"op": "edit", "side": side, "u": round(rng.random(), 4), "idx": rng.randrange(3)}
                q = rng.random()
                if q < 0.35:
                    op["key"] = pick(rng, "center", "angle", "number_of_teeth", "helix_angle", "cone_angle",
                                     "inside_teeth", "crowning", "module", "height", "enable_undercut",
                                     "pressure_angle", "backlash", "z_anchor")
                op["v"] = pick(rng, round(rng.uniform(0, 3), 3), round(rng.uniform(0, 3), 3),
                               round(rng.uniform(-5, 40), 2), rng.randint(6, 30), 0.0, 150.0, 1.0)
            elif r < 0.97:
                op = {"op": "generate", "side": side}
            else:
                op = {"op": "clear"}
            ops.append(op)
        return {"ops": ops, "mode": "fake"}

    def execute(self, sc, st):
        sim = Sim(st, "fake")
        self.run_gui(sim, sc, lambda sim: self.session(sim, sc, st))

    def session(self, sim, sc, st):
        gears = [None, None]
        kept = []           # (gear, snapshot)
        edited = [False, False]
        consts0 = W.consts_snapshot()
        good = 0
        for side in (0, 1):
            self.check_defaults(sim, side, "at start", st)
        for n, op in enumerate(sc["ops"]):
            where = f"op {n} ({op['op']} {op.get('side', '')})"
            side = op.get("side")
            shown = [sim.values(0), sim.values(1)]
            types_ = [sim.combo(0).currentText(), sim.combo(1).currentText()]
            if op["op"] == "generate":
                left = gears[0] if side == 1 else None
                ref = in_fork(lambda: self.ref_snap(sim, side, left))
                nc = len(sim.ctor)
                sim.S.reported.clear()
                self.act(sim, op)
                if ref[0] == "nonsense":
                    return      # a meaningless pair (e.g. equal ring and pinion): nothing to follow
                bad = [e for e in sim.events if e.startswith("FAILED")] or sim.S.reported
                if bad:
                    st.inc("probe:natural_failure")
                    if ref[0] == "ok":
                        raise Violation("cannot-generate", f"{where}: failed ({sim.S.reported!r}) although "
                                        "the shown values describe a gear")
                else:
                    if ref[0] != "ok":
                        raise Violation("wrong-gear", f"{where}: generated a gear, but the shown values "
                                        f"cannot be built ({ref[1]})")
                    if len(sim.ctor) == nc:
                        raise Violation("nothing-generated", where)
                    g = sim.ctor[-1]
                    st.inc("cmp")
                    if type(g).__name__ != types_[side]:
                        raise Violation("wrong-gear", f"{where}: a {type(g).__name__} was created, "
                                        f"{types_[side]} is selected")
                    s = gsnap(g)
                    d = diff(ref[1], s, rtol=1e-9, atol=1e-9)
                    if d:
                        raise Violation("wrong-gear", f"{where}: differs from the gear the fields "
                                        f"describe: {d}")
                    gears[side] = g
                    kept.append((g, gsnap(g)))
                    good += edited[side]
            else:
                self.act(sim, op)
                if op["op"] == "edit":
                    edited[side] = True
                    self.check_edit(sim, op, shown, where)
                elif op["op"] == "type" and types_[side] != op["type"]:
                    edited[side] = False
                    self.check_defaults(sim, side, where, st)
                elif op["op"] == "clear" and "shown" in sim.events:
                    gears = [None, None]
            # nobody else changed
            now = [sim.values(0), sim.values(1)]
            for i in (0, 1):
                if i == side and op["op"] in ("edit", "type"):
                    continue
                st.inc("cmp")
                d = diff(shown[i], now[i])
                if d:
                    raise Violation("fields-changed", f"{where}: fields of side {i + 1} changed: {d}")
            for g, s in kept:
                d = diff(s, gsnap(g), rtol=1e-12, atol=1e-12)
                st.inc("cmp")
                if d:
                    raise Violation("gear-changed", f"{where}: a gear generated earlier changed: {d}")
            for name, v in W.CONSTS:
                if diff(consts0[name], v, rtol=0, atol=0):
                    raise Violation("constant-changed", f"{where}: {name} is now {v.tolist()}")
        if good:
            st.inc("nontrivial")
        st.add("histories", [[o["op"], o.get("side"), o.get("key"), o.get("type")] for o in sc["ops"]])

    def ref_snap(self, sim, side, left):
        try:
            g = reference(sim, side, left.copy() if left is not None else None)
            if not finite(g):
                return "nonsense", None
            return "ok", gsnap(g)
        except Violation:
            raise
        except Exception as e:
            return "bad", f"{type(e).__name__}: {e}"

    def check_edit(self, sim, op, shown, where):
        """Only the edited field shows something else."""
        now = sim.values(op["side"])
        old = shown[op["side"]]
        for k in old:
            if k != op.get("key") and diff(old[k], now.get(k)):
                raise Violation("fields-changed", f"{where}: editing {op.get('key')} changed {k}")

    def check_defaults(self, sim, side, where, st):
        cls = sim.combo(side).currentText()
        vals = sim.values(side)
        f = sim.fields(side)
        st.inc("cmp")
        for k, p in signature(cls).items():
            if k not in vals or vals[k] == []:
                raise Violation("missing-field", f"{where}: {cls} has no field for {k}")
            if k == "number_of_teeth" or p.default is inspect.Parameter.empty:
                continue
            want = p.default
            got = vals[k]
            if isinstance(want, W.np.ndarray) or isinstance(want, (list, tuple)):
                ok = W.np.allclose(want, got, atol=0.006)
            elif isinstance(want, bool):
                ok = bool(got) == want
            else:
                if "angle" in k:
                    want = want * 180 / math.pi
                dec = getattr(f[k][0], "_dec", 0)
                ok = abs(want - got) <= 0.51 * 10 ** -dec
            if not ok:
                raise Violation("wrong-default", f"{where}: a fresh panel shows {k} = {got}, the default "
                                f"is {want}")


def gsnap(g):
    """Snapshot of a gear, also of a nonsensical one (e.g. no height)."""
    try:
        return snap(g, 1)
    except Exception as e:
        s = snap(g, 0)
        s["recipe"] = "EXC " + type(e).__name__
        return s


# ------------------------------------------------------------------ C16
class C16(GuiCheck):
    id = "C16"
    runs = {"quick": 1500, "thorough": 8000}
    rule = ("Each run starts the GUI script with a fault: one of the calls it makes during start-up fails "
            "(RuntimeError, OSError, MemoryError, KeyboardInterrupt, SystemExit), the viewer cannot be "
            "started, has died already, a user action in the event loop fails or is interrupted, the "
            "event loop itself fails, or nothing fails and the window is closed. At the end the viewer "
            "process must be stopped and only one may have been started. Non-trivial: the viewer was "
            "started and a fault fired after that.")
    assumptions = ["interrupts after the event loop has ended, i.e. during clean-up, are not simulated"]

    def gen(self, rng, tier, i):
        kind = pick(rng, "call", "call", "call", "slot", "slotcall", "loop", "none", "popen", "dead")
        sc = {"kind": kind, "ops": [], "u": [round(rng.random(), 6), round(rng.random(), 6)],
              "exc": pick(rng, "RuntimeError", "OSError", "MemoryError", "KeyboardInterrupt", "SystemExit")}
        for _ in range(rng.randint(0, 4)):
            sc["ops"].append({"op": "generate", "side": rng.randrange(2)})
        if rng.random() < 0.3:
            sc["ops"].append({"op": pick(rng, "animate", "clear")})
        if kind in ("slot", "slotcall") and not sc["ops"]:
            sc["ops"].append({"op": "generate", "side": 0})
        if kind in ("slot", "slotcall"):
            if sc["exc"] == "SystemExit":
                sc["exc"] = "RuntimeError"
            sc["ops"][rng.randrange(len(sc["ops"]))]["fail"] = {
                pick(rng, "create:before", "build:before", "show:before"): sc["exc"]}
        return sc

    def signature(self, sc):
        return [sc["kind"], sc["exc"], sc.get("site"), [[o["op"], o.get("side"), o.get("fail")]
                                                        for o in sc["ops"]]]

    def execute(self, sc, st):
        import inject as I
        I.EXCS.setdefault("SystemExit", SystemExit)
        sc.setdefault("n", None)
        if sc["kind"] == "call" and sc["n"] is None:
            sc["n"] = in_fork(lambda: self.count(sc, st))
        sim = Sim(st, "fake")
        out, fired = self.go(sim, sc, st, sc["n"])
        if fired:
            sc["site"] = fired
            st.add("fault_sites", fired)
        st.inc("cmp")
        if len(sim.procs) > 1:
            raise Violation("several-viewers", f"{len(sim.procs)} viewer processes were started")
        if any(p.alive for p in sim.procs):
            raise Violation("viewer-left", f"the GUI ended ({out[0]}: {out[1]!r}; fault {fired or sc['kind']}) "
                            "and its viewer process still runs")
        if sc["kind"] in ("none", "dead") and out[0] != "end":
            raise Violation("gui-died", f"{out}")
        if not sim.procs and sc["kind"] in ("none", "dead"):
            raise Violation("no-viewer", "no viewer was started")
        if sim.procs and sc["kind"] != "none":
            st.inc("nontrivial")
        st.add("histories", [sc["kind"], sc["exc"], fired])

    def count(self, sc, st):
        """Number the calls the script makes up to the end of the event loop."""
        sim = Sim(st, "fake")
        m = inject.Monitor("call", record=True)
        seen = []

        def body(sim):
            self.user(sim, sc)
            seen.append(m.n)

        sim.monitor = m
        sim.run(lambda: body(sim))
        n = seen[0] if seen else m.n
        m.sites = m.sites[:n]
        return inject.choose_point(m, *sc["u"])

    def user(self, sim, sc):
        for op in sc["ops"]:
            sim.fail = dict(op.get("fail") or {})
            self.act(sim, op)
            sim.fail = {}

    def go(self, sim, sc, st, n):
        m = None
        if sc["kind"] == "call" and n:
            m = inject.Monitor("call", target=n, exc=sc["exc"])
        if sc["kind"] == "popen":
            sim.fail = {"popen:before": "OSError"}

        def loop():
            if sc["kind"] == "dead" and sim.procs:
                sim.procs[0].alive = False
                sim.procs[0].returncode = 1
            self.user(sim, sc)
            if sc["kind"] == "loop":
                st.inc(f"fault:loop:{sc['exc']}")
                raise inject.make_exc(sc["exc"])
            return 0

        sim.monitor = m
        out = sim.run(loop)
        if m is not None and m.fired:
            st.inc(f"fault:call:{sc['exc']}")
        return out, (m.fired if m else None)

