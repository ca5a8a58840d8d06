#!/usr/bin/env python3
"""
Determinism self-test: runs the same seeds of a check in many fresh processes,
with different numbers of workers and different PYTHONHASHSEEDs, and compares
the full event log, schedule and verdict of every execution.

  determinism.py [--runs N] [--procs N] ID...
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

CHILD = r"""
import sys, os, json, gc
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from worlds import registry
from sim import runner
cid, seed, lo, hi, step, skip = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
check = registry.get(cid)
gc.disable()
if getattr(check, "needs_scratch", False):
    import tempfile
    # (the parent's scratch directory: names of different lengths must not matter)
    check.scratch = tempfile.mkdtemp(prefix="d" * int(sys.argv[6]), dir=os.path.dirname(sys.argv[7]))
    os.chmod(check.scratch, 0o777)
out_file = open(sys.argv[7], "w")
check.setup()
out = {}
for i in range(lo, hi, step):
    case = check.case_for(seed, i, "quick")
    o = runner.guarded_run(check, case)
    out[i] = runner.sig((o.violation, o.switches, o.log, o.sim_time, sorted(o.faults.items()), o.signature))
json.dump(out, out_file); out_file.close()
os._exit(0)
""" % HERE

def main():
    import argparse, tempfile
    ap = argparse.ArgumentParser()
    ap.add_argument("--runs", type=int, default=300)
    ap.add_argument("--procs", type=int, default=10)
    ap.add_argument("ids", nargs="+")
    a = ap.parse_args()
    bad = 0
    with tempfile.TemporaryDirectory(dir="/dev/shm") as tmp:
        os.chmod(tmp, 0o777)
        for cid in a.ids:
            logs = []
            jobs = []
            for p in range(a.procs):
                hashseed = ["0", "1", "12345", "random"][p % 4]
                # configurations: all in one process / strided over 3 or 8 processes
                stride = [1, 3, 8][p % 3]
                parts = []
                for s in range(stride):
                    f = os.path.join(tmp, f"{cid}.{p}.{s}")
                    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LC_ALL="C.UTF-8")
                    parts.append((subprocess.Popen([PY, "-s", "-c", CHILD, cid, "1", str(s), str(a.runs), str(stride), str(1 + p), f], env=env), f))
                merged = {}
                for pr, f in parts:
                    if pr.wait() != 0:
                        print(cid, "child failed", pr.returncode); bad += 1; continue
                    merged.update(json.load(open(f)))
                logs.append((hashseed, stride, merged))
            ref = logs[0][2]
            diffs = [(h, s, [i for i in ref if m.get(i) != ref[i]][:5]) for h, s, m in logs if m != ref]
            print(f"{cid}: {len(ref)} seeds x {len(logs)} process configurations: {'identical' if not diffs else 'DIFFER ' + str(diffs[:4])}", flush=True)
            bad += bool(diffs)
    return 1 if bad else 0

sys.exit(main())
