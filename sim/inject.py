"""The simulator's seams inside one Python process, built on sys.monitoring (no change to
/repo): an event before every call made by the code under test (fault point), and an event
before every source line of it (interrupt point and thread switch point)."""
import gc
import os
import sys
import threading
import types
from bisect import bisect_left  # noqa: F401

mon = sys.monitoring
TOOL = 4
_codes = None
_code_prefixes = []


# ---------------------------------------------------------------- sim-aware locks
_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real_Semaphore = threading.Semaphore
_current_sched = None
_prefix = None


class SimLock:
    """Lock created by the code under test.  Outside the scheduler it is an ordinary lock;
    inside, a blocked thread hands control on instead of blocking the simulation."""

    def __init__(self, reentrant=False):
        self._l = _real_RLock() if reentrant else _real_Lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current_sched
        if s is None or s.current() is None:
            return self._l.acquire(blocking, timeout)
        while True:
            if self._l.acquire(False):
                return True
            if not blocking or timeout >= 0:
                return False
            s.blocked(self)

    def release(self):
        self._l.release()
        s = _current_sched
        if s is not None:
            s.unblock(self)

    def locked(self):
        if self._l.acquire(False):
            self._l.release()
            return False
        return True

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_lock_seam(prefix):
    """Locks created by files under prefix become sim-aware (call before importing it)."""
    global _prefix
    _prefix = prefix

    def Lock():
        if sys._getframe(1).f_code.co_filename.startswith(_prefix):
            return SimLock()
        return _real_Lock()

    def RLock(*a, **k):
        if sys._getframe(1).f_code.co_filename.startswith(_prefix):
            return SimLock(True)
        return _real_RLock(*a, **k)

    threading.Lock = Lock
    threading.RLock = RLock


# ---------------------------------------------------------------- code under test
def collect_codes(prefixes):
    """Every code object of the code under test, in a fixed order."""
    global _codes, _code_prefixes
    _code_prefixes = list(prefixes)
    seen = {}

    def walk(c):
        if id(c) in seen or not any(c.co_filename.startswith(p) for p in _code_prefixes):
            return
        seen[id(c)] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            walk(o.__code__)
    _codes = sorted(seen.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return _codes


def add_codes(code):
    """Register a code object (and everything nested in it), e.g. of an exec'd script."""
    def walk(c):
        if c not in _codes:
            _codes.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)
    walk(code)


def _on(events):
    for c in _codes:
        mon.set_local_events(TOOL, c, events)


def _off():
    for c in _codes:
        mon.set_local_events(TOOL, c, 0)


def site_name(code, offset):
    line = None
    for s, e, l in code.co_lines():
        if s <= offset < e:
            line = l
            break
    return f"{os.path.basename(code.co_filename)}:{code.co_qualname}:{line}"


EXCS = {"MemoryError": MemoryError, "RuntimeError": RuntimeError, "ValueError": ValueError,
        "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError,
        "LinAlgError": ValueError, "ZeroDivisionError": ZeroDivisionError}


class InjectedMixin:
    pass


def make_exc(name):
    base = EXCS[name]
    return base(f"injected {name}")


def _fallible(fn, arg0):
    """Calls that can really fail during a placement: solvers, rotations, linear algebra,
    the CAD kernel, and the package's own geometry functions."""
    mod = getattr(fn, "__module__", None) or ""
    if not isinstance(mod, str):
        mod = ""
    if mod in ("", "builtins"):
        for o in (getattr(fn, "__self__", None), arg0):
            if isinstance(o, type):
                mod = o.__module__ or ""
            elif o is not None and o is not mon.MISSING and not isinstance(o, types.ModuleType):
                mod = type(o).__module__ or ""
            if mod not in ("", "builtins"):
                break
    if mod.startswith(("scipy", "numpy.linalg", "build123d", "OCP")):
        return True
    if isinstance(fn, types.FunctionType) and mod.startswith("gggears."):
        tail = mod.split(".")[-1]
        q = fn.__qualname__
        return tail in ("gearmath", "function_generators") and "." not in q
    return False


class Monitor:
    """Counts events of one kind and optionally raises at one of them."""

    def __init__(self, kind="call", target=None, exc="RuntimeError", flt=None, record=False,
                 thread=None):
        self.kind = kind
        self.target = target
        self.exc = exc
        self.flt = flt
        self.record = record
        self.n = 0
        self.fired = None
        self.sites = []          # site per event, when recording
        self._ids = {}
        self.names = []

    def _hit(self, code, offset):
        self.n += 1
        if self.record:
            k = (code, offset)
            i = self._ids.get(k)
            if i is None:
                i = len(self.names)
                self._ids[k] = i
                self.names.append(k)
            self.sites.append(i)
        if self.target is not None and self.n == self.target:
            self.target = None
            if self.kind == "call":
                self.fired = site_name(code, offset)
            else:
                self.fired = (f"{os.path.basename(code.co_filename)}:{code.co_qualname}:"
                              f"{offset}")
            raise make_exc(self.exc)

    def _call(self, code, offset, fn, arg0):
        if self.flt is not None and not self.flt(fn, arg0):
            return
        self._hit(code, offset)

    def _line(self, code, line):
        self._hit(code, line)

    def __enter__(self):
        mon.use_tool_id(TOOL, "sim")
        if self.kind == "call":
            mon.register_callback(TOOL, mon.events.CALL, self._call)
            _on(mon.events.CALL)
        else:
            mon.register_callback(TOOL, mon.events.LINE, self._line)
            _on(mon.events.LINE)
        return self

    def __exit__(self, *a):
        _off()
        mon.register_callback(TOOL, mon.events.CALL if self.kind == "call" else mon.events.LINE,
                              None)
        mon.free_tool_id(TOOL)
        return False


FILTERS = {"any": None, "fallible": _fallible}


def choose_point(mon_rec, u_site, u_occ):
    """Pick an event index (1-based): a distinct site uniformly, then first / last / random
    occurrence of it."""
    if not mon_rec.sites:
        return None
    occ = {}
    for n, s in enumerate(mon_rec.sites, 1):
        occ.setdefault(s, []).append(n)
    keys = sorted(occ)
    s = keys[min(int(u_site * len(keys)), len(keys) - 1)]
    lst = occ[s]
    if u_occ < 0.35:
        return lst[0]
    if u_occ < 0.55:
        return lst[-1]
    return lst[min(int((u_occ - 0.55) / 0.45 * len(lst)), len(lst) - 1)]


# ---------------------------------------------------------------- thread scheduler
class Deadlock(Exception):
    pass


def hand_over(to):
    s = _current_sched
    return s.hand_over(to) if s is not None else False


class Recorded:
    """Site per event, as Monitor(record=True) gives it, from raw (code, position) keys."""

    def __init__(self, keys):
        ids = {}
        self.sites = [ids.setdefault(k, len(ids)) for k in keys]
        self.names = list(ids)


class Scheduler:
    """Runs real threads one at a time; control changes hands only at chosen source lines of
    the code under test (and at thread end, or when a lock blocks).

    switches: list of [thread, k, to]: when `thread` is about to execute its k-th line event,
    control goes to `to` (or to the next runnable thread if that one cannot run)."""

    def __init__(self, switches, faults=None, record=False):
        self.rec = [] if record else None
        self.switch = {}
        for t, k, to in switches:
            self.switch.setdefault((t, k), to)
        self.faults = faults or {}
        self.sems = []
        self.count = []
        self.done = []
        self.wait_on = {}
        self.ids = {}
        self.log = []
        self.deadlock = None
        self.running = None

    def recorded(self):
        return Recorded(self.rec)

    def current(self):
        return self.ids.get(threading.get_ident())

    def _runnable(self):
        return [i for i in range(len(self.done)) if not self.done[i] and i not in self.wait_on]

    def _transfer(self, me, to):
        self.running = to
        self.sems[to].release()
        self.sems[me].acquire()
        if self.deadlock:
            raise Deadlock(self.deadlock)

    def _line(self, code, line):
        t = self.ids.get(threading.get_ident())
        if t is None or t != self.running:
            return
        k = self.count[t] = self.count[t] + 1
        if self.rec is not None:
            self.rec.append((code, line))
        to = self.switch.get((t, k))
        if to is not None:
            run = [i for i in self._runnable() if i != t]
            if run:
                if to not in run:
                    to = run[to % len(run)]
                self.log.append((t, f"{os.path.basename(code.co_filename)}:{code.co_qualname}:"
                                    f"{line}", to))
                self._transfer(t, to)

    def _call(self, code, offset, fn, arg0):
        t = self.ids.get(threading.get_ident())
        if t is None:
            return
        f = self.faults.get(t)
        if f is None:
            return
        if f["flt"] is not None and not f["flt"](fn, arg0):
            return
        f["n"] += 1
        if "record" in f:
            f["record"].append((code, offset))
        if f["n"] == f["target"]:
            f["fired"] = site_name(code, offset)
            raise make_exc(f["exc"])

    def hand_over(self, to):
        """Called by a script between two of its operations: let thread `to` run.  False if
        that one has finished (or there is no other thread)."""
        me = self.current()
        if me is None or len(self.done) < 2 or self.done[to]:
            return False
        if to not in self.wait_on:
            self._transfer(me, to)
        else:
            run = [i for i in self._runnable() if i != me]
            if not run:
                return False
            self._transfer(me, run[0])
        return not self.done[to]

    # locks
    def blocked(self, lock):
        me = self.current()
        self.wait_on[me] = lock
        run = self._runnable()
        if not run:
            self.deadlock = "all threads wait for locks"
            for i, d in enumerate(self.done):
                if not d and i != me:
                    self.wait_on.pop(i, None)
                    self.sems[i].release()
            raise Deadlock(self.deadlock)
        self.log.append((me, "lock", run[0]))
        self._transfer(me, run[0])

    def unblock(self, lock):
        for i in [i for i, l in self.wait_on.items() if l is lock]:
            del self.wait_on[i]

    def run(self, fns):
        global _current_sched
        n = len(fns)
        self.sems = [_real_Semaphore(0) for _ in fns]
        self.count = [0] * n
        self.done = [False] * n
        results = [None] * n
        finished = _real_Semaphore(0)

        def body(i):
            self.sems[i].acquire()
            self.ids[threading.get_ident()] = i
            try:
                results[i] = ("ok", fns[i]())
            except Deadlock as e:
                results[i] = ("deadlock", str(e))
            except BaseException as e:
                import traceback
                results[i] = ("exc", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
            self.done[i] = True
            self.ids.pop(threading.get_ident(), None)
            run = self._runnable()
            if run:
                to = run[0]
                self.running = to
                self.sems[to].release()
            elif not all(self.done):
                self.deadlock = "the remaining threads wait for locks nobody will release"
                self.wait_on.clear()
                for j, d in enumerate(self.done):
                    if not d:
                        self.sems[j].release()
                        break
            else:
                finished.release()

        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        ev = mon.events.LINE
        if self.faults:
            mon.register_callback(TOOL, mon.events.CALL, self._call)
            ev |= mon.events.CALL
        _on(ev)
        _current_sched = self
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        old = threading.stack_size()
        try:
            threading.stack_size(64 * 1024 * 1024)
            for t in threads:
                t.start()
        finally:
            threading.stack_size(old)
        self.running = 0
        self.sems[0].release()
        finished.acquire()
        for t in threads:
            t.join()
        _current_sched = None
        _off()
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.register_callback(TOOL, mon.events.CALL, None)
        mon.free_tool_id(TOOL)
        return results
