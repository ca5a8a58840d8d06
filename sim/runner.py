"""
Runs a check: many simulated executions from derived seeds, over several
processes, with coverage accounting, minimisation, replay files and evidence.

Outcomes (exit codes):  0 the property held on everything explored;
1 a VIOLATION line was printed;  anything else: an error of the check itself.
"""

import gc
import hashlib
import json
import mmap
import os
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import kernel as K

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.environ.get("VERIF_REPLAYS") or os.path.join(VERIF, "replays")
PY = sys.executable

HANG_SECONDS = 25          # real seconds a single execution may take before it is re-run under a step count
RUN_CAP_SECONDS = float(os.environ.get("VERIF_WALL_CAP", 800))


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Outcome:
    """What one simulated execution produced."""
    __slots__ = ("violation", "stats", "faults", "probes", "signature", "sim_time", "switches", "log", "nontrivial", "steps")

    def __init__(self):
        self.violation = None         # (kind, detail)
        self.stats = Counter()
        self.faults = Counter()       # fault kind -> times it actually fired
        self.probes = Counter()       # rare situation -> times it was reached
        self.signature = 0
        self.sim_time = 0.0
        self.switches = None
        self.log = []
        self.nontrivial = False
        self.steps = 0


def sig(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


class Check:
    """
    One property's world.  Subclasses give: id, title, technique note, runs per
    tier, gen(rng, index, tier) -> case dict, run(case) -> Outcome, lists
    (paths of shrinkable lists in the case), rule, real (components that run
    real code), stubs (simulated components), assumptions.
    """
    id = None
    runs = {"quick": 1000, "thorough": 20000}
    lists = ()
    rule = ""
    real = ()
    stubs = ()
    assumptions = ()
    required_probes = ()          # probes that must be reached for the run to count as coverage
    time_unit = "simulated seconds"
    alarm = True                  # use SIGALRM to notice real hangs
    level = "exploration"

    def setup(self):
        "Called once per worker process."

    def gen(self, rng, index, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def simplify(self, case):
        "Yield simpler variants of the case (beyond deleting list elements)."
        return ()

    # -- helpers ---------------------------------------------------------

    def case_for(self, seed, index, tier):
        rng = random.Random(derive(seed, self.id, index))
        case = self.gen(rng, index, tier)
        case["index"] = index
        return json.loads(json.dumps(case))


class _Hang(BaseException):
    pass


def _on_alarm(sig, frame):
    raise _Hang()


class _StepCap(BaseException):
    pass


def guarded_run(check, case, line_cap=None):
    """
    Run one case.  A run that takes too long in real time is run again with a
    cap on executed lines of the code under test; exceeding that cap is a
    deterministic 'no-progress' violation.
    """
    if line_cap is None and check.alarm:
        old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, HANG_SECONDS)
        try:
            return check.run(case)
        except _Hang:
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return guarded_run(check, case, line_cap=3_000_000)
    if line_cap is None:
        return check.run(case)
    from . import seams
    count = [0]
    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] > line_cap:
                raise _StepCap()
        return local
    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(seams.BIG):
            return local
        return None
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 240)
    sys.settrace(tracer)
    try:
        return check.run(case)
    except _StepCap:
        o = Outcome()
        o.violation = ("no-progress", f"more than {line_cap} lines executed without finishing")
        o.switches = []
        return o
    except _Hang:
        raise K.HarnessError("execution hung outside the reach of the line counter")
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------------------
# Worker
# ---------------------------------------------------------------------------

def _worker(check, seed, tier, w, nworkers, total, shared, out_fd, deadline):
    res = {"w": w, "runs": 0, "stats": Counter(), "faults": Counter(), "probes": Counter(), "sigs": set(), "nsigs": set(),
           "sim_time": 0.0, "steps": 0, "switches": 0, "violation": None, "error": None, "samples": [], "timeout": False,
           "fault_runs": 0, "preempted": 0}
    try:
        gc.disable()
        check.setup()
        for n, i in enumerate(range(w, total, nworkers)):
            best = struct.unpack("q", shared[0:8])[0]
            if i > best:
                break
            if time.monotonic() > deadline:
                res["timeout"] = True
                break
            if n % 50 == 0:
                gc.collect()
            case = check.case_for(seed, i, tier)
            o = guarded_run(check, case)
            res["runs"] += 1
            res["stats"].update(o.stats)
            res["faults"].update(o.faults)
            res["probes"].update(o.probes)
            res["sim_time"] += float(o.sim_time)
            res["steps"] += o.steps
            res["switches"] += len(o.switches or ())
            if o.switches:
                res["preempted"] += 1
            if o.faults:
                res["fault_runs"] += 1
            res["sigs"].add(o.signature)
            if o.nontrivial:
                res["nsigs"].add(o.signature)
            if len(res["samples"]) < 2 and o.nontrivial and w == 0:
                res["samples"].append({"case": case, "switches": (o.switches or [])[:40], "log": [repr(e)[:160] for e in o.log[:25]]})
            if o.violation:
                res["violation"] = {"index": i, "kind": o.violation[0], "detail": o.violation[1], "switches": o.switches}
                # publish the index so that workers past it stop
                if i < struct.unpack("q", shared[0:8])[0]:
                    shared[0:8] = struct.pack("q", i)
                break
    except BaseException:
        res["error"] = traceback.format_exc()
        shared[0:8] = struct.pack("q", -1)
    for k in ("stats", "faults", "probes"):
        res[k] = dict(res[k])
    for k in ("sigs", "nsigs"):
        res[k] = sorted(res[k])
    data = json.dumps(res).encode()
    with os.fdopen(out_fd, "wb") as f:
        f.write(data)


def explore(check, seed, tier, total, nworkers, wall_cap):
    shared = mmap.mmap(-1, 8)
    shared[0:8] = struct.pack("q", 1 << 60)
    deadline = time.monotonic() + wall_cap
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nworkers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                for fd in procs:
                    os.close(fd)
                _worker(check, seed, tier, w, nworkers, total, shared, wr, deadline)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        procs[r] = [pid, bytearray(), w]
    results, errors = [], []
    open_fds = set(procs)
    hard = deadline + 60
    while open_fds:
        left = hard - time.monotonic()
        if left <= 0:
            errors.append("workers did not finish in time")
            break
        rd, _, _ = select.select(list(open_fds), [], [], min(left, 5))
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if b:
                procs[fd][1] += b
            else:
                open_fds.discard(fd)
    for fd, (pid, buf, w) in procs.items():
        if fd in open_fds:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(fd)
        _, st = os.waitpid(pid, 0)
        if fd in open_fds:
            continue
        if not buf:
            errors.append(f"worker {w} died (status {st})")
        else:
            results.append(json.loads(bytes(buf).decode()))
    return results, errors


# ---------------------------------------------------------------------------
# Minimisation: each candidate runs in a forked child, so a violating run's
# parked threads never accumulate and candidates cannot influence each other.
# ---------------------------------------------------------------------------

def run_isolated(check, case, timeout=120):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            gc.disable()
            check.setup()
            try:
                o = guarded_run(check, case)
                d = {"violation": o.violation, "switches": o.switches, "log": [repr(e) for e in o.log]}
            except BaseException:
                d = {"error": traceback.format_exc()}
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(d).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    ok = True
    while True:
        rd, _, _ = select.select([r], [], [], max(0, end - time.monotonic()))
        if not rd:
            ok = False
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not ok or not buf:
        return {"error": "no result"}
    return json.loads(bytes(buf).decode())


def _get(case, path):
    x = case
    for p in path:
        if isinstance(x, dict):
            x = x.get(p)
        elif isinstance(x, list) and isinstance(p, int) and p < len(x):
            x = x[p]
        else:
            return None
        if x is None:
            return None
    return x


def _expand(case, path):
    "Expand '*' components of a path."
    out = [()]
    for p in path:
        nxt = []
        for pre in out:
            if p == "*":
                x = _get(case, pre)
                if isinstance(x, list):
                    nxt += [pre + (i,) for i in range(len(x))]
                elif isinstance(x, dict):
                    nxt += [pre + (k,) for k in x]
            else:
                nxt.append(pre + (p,))
        out = nxt
    return out


def minimise(check, case, kind, switches, budget_s=60, log=lambda s: None):
    """
    Shrink the workload and then the schedule while the same kind of violation
    persists.  A shrunk workload is first tried with the recorded schedule,
    then with a few random ones.
    """
    end = time.monotonic() + budget_s
    best = json.loads(json.dumps(case))
    if switches is not None and "sched" in best:
        rep = json.loads(json.dumps(best))
        rep["sched"] = {"mode": "replay", "switches": switches, "opcodes": best["sched"].get("opcodes", False)}
        d = run_isolated(check, rep)
        if d.get("violation") and d["violation"][0] == kind:
            best = rep
        else:
            return best, None, "recorded schedule did not replay"
    tries = 0

    def attempt(cand):
        nonlocal tries
        tries += 1
        d = run_isolated(check, cand)
        if d.get("violation") and d["violation"][0] == kind:
            if "sched" in cand and d.get("switches") is not None:
                cand["sched"] = {"mode": "replay", "switches": d["switches"], "opcodes": cand["sched"].get("opcodes", False)}
            return cand
        return None

    def attempt_any(cand):
        got = attempt(json.loads(json.dumps(cand)))
        if got or "sched" not in cand:
            return got
        for s in range(6):
            if time.monotonic() > end:
                return None
            c = json.loads(json.dumps(cand))
            c["sched"] = {"mode": "rw", "seed": s, "p": (0.3, 0.05, 0.6, 0.15, 0.02, 0.9)[s], "opcodes": cand["sched"].get("opcodes", False)}
            got = attempt(c)
            if got:
                return got
        return None

    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for path in check.lists:
            for full in _expand(best, path):
                lst = _get(best, full)
                if not isinstance(lst, list):
                    continue
                n = max(1, len(lst) // 2)
                while n >= 1 and time.monotonic() < end:
                    i = 0
                    while time.monotonic() < end:
                        lst = _get(best, full)
                        if lst is None or i >= len(lst):
                            break
                        cand = json.loads(json.dumps(best))
                        del _get(cand, full)[i:i + n]
                        got = attempt_any(cand)
                        if got:
                            best = got
                            changed = True
                        else:
                            i += n
                    n //= 2
        for cand in check.simplify(json.loads(json.dumps(best))):
            if time.monotonic() > end:
                break
            got = attempt_any(cand)
            if got:
                best = got
                changed = True
                break
        # the schedule
        if "sched" in best and best["sched"].get("mode") == "replay":
            sw = best["sched"]["switches"]
            n = max(1, len(sw) // 2)
            while n >= 1 and time.monotonic() < end:
                i = 0
                while i < len(best["sched"]["switches"]) and time.monotonic() < end:
                    cand = json.loads(json.dumps(best))
                    del cand["sched"]["switches"][i:i + n]
                    before = len(best["sched"]["switches"])
                    got = attempt(cand)
                    if got and len(got["sched"]["switches"]) < before:
                        best = got
                        changed = True
                    else:
                        i += n
                n //= 2
    d = run_isolated(check, best)
    return best, d, f"{tries} candidates"


# ---------------------------------------------------------------------------
# Entry points
# ---------------------------------------------------------------------------

def replay_file(check, path):
    with open(path) as f:
        r = json.load(f)
    d = run_isolated(check, r["case"])
    if d.get("error"):
        print(d["error"])
        return 2
    same = bool(d.get("violation")) and d["violation"][0] == r["violation"]["kind"] and d["log"] == r["log"]
    if d.get("violation"):
        for e in d["log"]:
            print("   ", e)
        print(f"replayed {path}: {d['violation'][0]}: {d['violation'][1]}")
        print("identical to the recorded execution" if same else "DIFFERS from the recorded execution")
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    print(f"replayed {path}: no violation")
    return 0


def main(check, tier, seed, *, runs=None, workers=None, quiet=False, write=True):
    t0 = time.monotonic()
    total = runs or check.runs[tier]
    nworkers = workers or min(8, os.cpu_count() or 1)
    print(f"{check.id}: VERIF_SEED={seed} tier={tier} runs={total} workers={nworkers}", flush=True)
    results, errors = explore(check, seed, tier, total, nworkers, RUN_CAP_SECONDS if tier == "quick" else float(os.environ.get("VERIF_WALL_CAP", 7200)))
    errors += [r["error"] for r in results if r["error"]]
    wall = time.monotonic() - t0
    done = sum(r["runs"] for r in results)
    agg = {k: Counter() for k in ("stats", "faults", "probes")}
    sigs, nsigs = set(), set()
    for r in results:
        for k in agg:
            agg[k].update(r[k])
        sigs.update(r["sigs"])
        nsigs.update(r["nsigs"])
    viols = [r["violation"] for r in results if r["violation"]]
    samples = [s for r in results for s in r["samples"]][:3]
    simt = sum(r["sim_time"] for r in results)
    if not samples:
        samples = [{"case": check.case_for(seed, 0, tier)}]
    missing = [p for p in check.required_probes if not agg["probes"].get(p)]
    if missing:
        print(f"{check.id}: note: probes never reached: {missing}")
    evidence = {
        "property": check.id, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(nsigs),
            "rule": check.rule,
            "samples": samples,
            "distinct_executions": len(sigs),
            "runs_per_hour": round(done / wall * 3600) if wall else 0,
            "seeds": f"seed i = sha256(VERIF_SEED, property, i), i in 0..{total - 1}; one seed is one execution",
            "simulated_time": round(simt, 3), "simulated_time_unit": check.time_unit,
            "scheduling_points": sum(r["steps"] for r in results),
            "schedule_deviations": sum(r["switches"] for r in results),
            "runs_with_preemption": sum(r["preempted"] for r in results),
            "runs_with_faults": sum(r["fault_runs"] for r in results),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "operations": dict(sorted(agg["stats"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "probes_never_reached": missing,
            "real_components": list(check.real),
            "stubbed_components": list(check.stubs),
            "workers": nworkers,
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(wall, 3),
        "violations": len(viols),
    }
    status = 0
    if errors:
        status = 2
        for e in errors:
            print(f"{check.id}: ERROR of the check (no verdict): {e}", file=sys.stderr)
    elif viols:
        status = 1
    elif any(r["timeout"] for r in results) or done < total:
        status = 3
        print(f"{check.id}: ERROR: only {done} of {total} runs done before the wall clock cap", file=sys.stderr)
    if viols:
        v = min(viols, key=lambda v: v["index"])
        case = check.case_for(seed, v["index"], tier)
        best, d, note = minimise(check, case, v["kind"], v["switches"])
        if d is None or not d.get("violation"):
            # fall back to the unminimised case
            best = case
            d = run_isolated(check, best)
        if not d.get("violation"):
            print(f"{check.id}: ERROR of the check: violation {v} did not repeat in a fresh process {d.get('error') or '' if d else ''}", file=sys.stderr)
            status = 2
        else:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{check.id}.json")
            with open(path, "w") as f:
                json.dump({"property": check.id, "seed": seed, "index": v["index"], "case": best,
                           "violation": {"kind": d["violation"][0], "detail": d["violation"][1]}, "log": d["log"]}, f, indent=1)
            p = subprocess.run([PY, os.path.join(VERIF, "check.py"), check.id, "--replay", path], capture_output=True, text=True)
            exact = p.returncode == 1 and "identical to the recorded execution" in p.stdout
            print(f"{check.id}: seed {seed} index {v['index']}: {d['violation'][0]}: {d['violation'][1]}")
            print(f"{check.id}: minimised ({note}); replay in a fresh process: {'identical' if exact else 'NOT identical'}")
            if exact:
                status = 1
                evidence["coverage"]["violation"] = {"kind": d["violation"][0], "detail": d["violation"][1], "index": v["index"], "replay": path}
                print(f"VIOLATION property={check.id} replay={path}", flush=True)
            else:
                # keep the unminimised case
                d2 = run_isolated(check, case)
                with open(path, "w") as f:
                    json.dump({"property": check.id, "seed": seed, "index": v["index"], "case": case,
                               "violation": {"kind": v["kind"], "detail": v["detail"]}, "log": d2.get("log", [])}, f, indent=1)
                p2 = subprocess.run([PY, os.path.join(VERIF, "check.py"), check.id, "--replay", path], capture_output=True, text=True)
                if p2.returncode == 1:
                    status = 1
                    print(f"VIOLATION property={check.id} replay={path}", flush=True)
                else:
                    status = 2
                    print(p.stdout, p.stderr, file=sys.stderr)
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    if status == 0:
        print(f"{check.id}: held on {done} simulated runs ({len(nsigs)} distinct non-trivial), {simt:.0f} {check.time_unit}, "
              f"{sum(agg['faults'].values())} faults, {wall:.1f} s")
    return status
