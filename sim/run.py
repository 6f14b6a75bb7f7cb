#!/usr/bin/env python3
"""Entry point.

run.py check <property> [--tier quick|thorough] [--runs N] [--workers N] [--no-stop]
run.py replay <file>          exit 1 if the recorded violation shows again, else 0
run.py determinism <property> [--runs N]   run every scenario twice and compare results
run.py one <property> <i>     run a single scenario and print it
"""
import argparse
import hashlib
import json
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "QT_QPA_PLATFORM": "offscreen",
       "OCP_VSCODE_PYTEST": "1"}


def reexec():
    """Fixed environment and the project's interpreter, so that a seed is one execution."""
    py = "/opt/venv/bin/python"
    want = dict(ENV)
    if os.environ.get("SIM_HASHSEED"):
        want["PYTHONHASHSEED"] = os.environ["SIM_HASHSEED"]
    if any(os.environ.get(k) != v for k, v in want.items()) or (
            os.path.exists(py) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv")):
        if os.environ.get("SIM_REEXECED") == "1":
            return
        os.environ.update(want)
        os.environ["SIM_REEXECED"] = "1"
        exe = py if os.path.exists(py) else sys.executable
        os.execv(exe, [exe] + [os.path.abspath(sys.argv[0])] + sys.argv[1:])


def main():
    reexec()
    os.environ.pop("SIM_REEXECED", None)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("arg")
    ap.add_argument("arg2", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--no-stop", action="store_true")
    a = ap.parse_args()
    import core
    import checks
    if a.cmd == "replay":
        with open(a.arg) as f:
            doc = json.load(f)
        check = checks.get(doc["property"])
        check.setup()
        rec = core.execute_isolated(check, doc["scenario"])
        if rec["status"] == "harness":
            print(rec["error"])
            return 2
        if rec["violation"]:
            print(f"{rec['violation'][0]}: {rec['violation'][1]}")
            same = rec["violation"][0] == doc["violation"]["class"]
            print("same kind of violation as recorded" if same else "DIFFERENT violation")
            print(f"VIOLATION property={check.id} replay={os.path.abspath(a.arg)}")
            return 1
        print("no violation")
        return 0
    check = checks.get(a.arg)
    check.setup()
    if a.cmd == "check":
        return core.main_check(check, a.tier, a.seed, a.workers, a.runs, not a.no_stop)
    if a.cmd == "one":
        sc = core.make_scenario(check, a.seed, a.tier, int(a.arg2))
        rec = core.execute_isolated(check, sc)
        print(json.dumps(rec["sc"], indent=1))
        print({k: v for k, v in rec.items() if k not in ("sc", "stats")})
        print(rec["stats"].n)
        return 0
    if a.cmd == "determinism":
        n = a.runs or 50
        res, _ = core.run_batch(check, a.seed, a.tier, n, a.workers, 1e18, False)
        h = hashlib.sha256()
        for i in sorted(res):
            r = res[i]
            line = json.dumps([i, r["status"], r["violation"], r["sc"], sorted(r["stats"].n.items()),
                               sorted((k, sorted(s)) for k, s in r["stats"].sets.items())],
                              sort_keys=True, default=str)
            h.update(line.encode())
            if os.environ.get("SIM_LOG"):
                print(i, hashlib.sha256(line.encode()).hexdigest()[:16])
        print(f"{check.id} seed={a.seed} runs={n} workers={a.workers} "
              f"hashseed={os.environ.get('PYTHONHASHSEED')} digest={h.hexdigest()[:32]}")
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
