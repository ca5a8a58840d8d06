#!/usr/bin/env python3
"Writes /verif/MANIFEST.json from the registry of worlds."
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from worlds.registry import WORLDS
PURE = "pure function of its arguments: no schedule, clock, I/O, fault or shared state for a simulator to decide, so generating inputs would only be property-based testing under another name"
NA = {
    "N01": PURE, "N02": PURE, "N03": PURE, "N04": PURE, "N05": PURE, "N06": PURE, "N07": PURE, "N08": PURE,
    "N09": PURE + " (the parts of these functions that read the clock are C30)",
    "N10": PURE,
}
TECH = {
    "default": "deterministic simulation with fault injection: seeded random search over histories and faults against a reference model",
    "threads": "deterministic simulation: seeded search over thread interleavings (bytecode level) and virtual time",
}
THREADS = {"C02": "linearizability check", "C03": "no-missed-wake-up invariant at every time jump", "C04": "regulator fault injection, linearizability check", "C05": "contract-checking regulator",
           "C18": "state dispatch model", "C22": "non-interference against solo runs", "C33": "non-interference against solo runs, interrupts, time zone changes", "C31": "identity invariants"}
NOTES = {}
def main():
    checks, na = [], []
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)["id"]
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
            continue
        mod = WORLDS.get(p)
        if mod is None or not os.path.exists(os.path.join(HERE, "worlds", mod[0] + ".py")):
            na.append({"property": p, "reason": "its simulated world is not built yet"})
            continue
        t = TECH["threads"] + ", " + THREADS[p] if p in THREADS else TECH["default"]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "technique": t, "level": "exploration",
                       "level_note": NOTES.get(p, "Seeded search over many simulated executions of the real code: a clean run is evidence, not proof. Trusts the simulator's seams and the reference model; see DESIGN.md.")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "hooks": {"guard": "BIG_SIMULATION (unused: no hooks were needed in /repo)", "enable": "nothing to enable: the checks import /repo/big with simulated threading, time, datetime, os and io modules in place", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "All machinery is Python in /verif (sim/ is the simulator, worlds/ one module per simulated world). known_findings.txt lists repaired defects; it suppresses nothing."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")
main()
