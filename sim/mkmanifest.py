"""Writes MANIFEST.json from the checks and properties.jsonl."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PURE = {
 "P01": "Conjugacy of two tooth profiles is a pure function of the parameters and the angle: no schedule, clock, fault, I/O or history can change it, so a simulator has nothing to control; it needs input generation or proof instead. (The part of it that depends on histories, namely that a pair just placed in mesh has its teeth in gaps, is claimed as C11.)",
 "P02": "Validity of a solid is a pure function of the design parameters and the CAD kernel; simulated schedules and faults add nothing over plain input generation. (That a build is repeatable, uninterrupted state or not, is claimed as C03, C09 and C12.)",
 "P03": "Approximation error of a spline fit is a pure numerical function of its input curve; no nondeterminism to simulate.",
 "P04": "Transform algebra is pure arithmetic on its inputs; no schedule, fault, I/O or history to simulate.",
 "P05": "Arc-length parameterisation is a pure function of the curve; no schedule, fault, I/O or history to simulate. (That curves do not influence each other over histories is claimed as C08.)",
 "P06": "Two pure formulas being inverse to each other; no schedule, fault, I/O or history to simulate.",
}
NOTE = {
 "C01": "Seeded search over operation histories with injected faults and in-place edits on several coexisting gears and racks; every bystander, constant and caller array is compared exactly after every step.",
 "C02": "Seeded search over orders of read-only operations with injected faults; state compared after every step, values compared with a fresh process.",
 "C03": "Seeded search over failure points inside real builds (every call the library or CAD wrapper makes is a possible point; line-level interrupts) for all gear families; state and rebuilt solid compared with a clean process.",
 "C04": "Seeded search over failure points inside real placements, all kinds of pairs and prior placements; exact comparison with state before and with a clean first call.",
 "C05": "Seeded search over line-level interleavings of real threads with disjoint gears (one runs at a time, the scheduler decides), incl. failing neighbours; every result compared with the thread running alone.",
 "C06": "Seeded search over line-level interleavings of real threads sharing a gear; every result compared with a single thread's.",
 "C07": "Seeded search over histories before and after copying, with faults; original and copies compared with independent reference executions.",
 "C08": "Seeded search over histories of curve operations with faults; every live curve compared with an independent replay of its own lineage.",
 "C09": "Seeded search over histories of placements, builds, failed builds and updates; real solids compared with the unplaced solid under an independent model of the placement.",
 "C10": "Seeded search over prior histories (with faults) of both partners; result compared with the first call on fresh gears at the same target placement.",
 "C11": "Seeded search over histories of trains of gears; independent formulas for distance and axes, tooth-in-gap and outline overlap checked on the real outlines.",
 "C12": "Seeded search over preceding process histories and environments (clock jumps, hash seed, random state, thread); compared with a fresh process.",
 "C13": "The real GUI script runs against stand-ins for Qt, viewer and dialogs; seeded search over user actions with seams failing; state probed through the user interface and compared with a model.",
 "C14": "As C13; real exports into a scratch folder, with failing writes; files re-read and compared.",
 "C15": "As C13; generated gears compared with gears created independently from the values shown.",
 "C16": "As C13; failures and interrupts injected at every call of start-up and in the event loop; the viewer process is a stand-in that records being stopped.",
}
FAULTY = {"C15": False}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in PURE:
            na.append({"property": i, "reason": PURE[i]})
            continue
        checks.append({
            "property": i,
            "quick_cmd": f"python3 sim/run.py check {i}",
            "thorough_cmd": f"python3 sim/run.py check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over "
                         + (", ".join(x.replace("_", " ") for x in p["quantifier"]["over"])),
            "level": "exploration",
            "level_note": NOTE[i] + " Sampling, not proof: what no seed reached is not covered."})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: all seams are Python-level (sys.monitoring call/line events, wrapped "
                  "constructors, stub modules), installed by the checks at run time. All commits in /repo "
                  "are fixes of genuine defects, listed in known-findings.txt."}
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
