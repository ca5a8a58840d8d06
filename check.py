#!/usr/bin/env python3
"""
check.py ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--replay FILE] [--log INDEX]

Decides one property by deterministic simulation.  See DESIGN.md.
"""
import argparse, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") is None or (os.path.exists(VENV) and os.path.realpath(sys.prefix) != "/opt/venv"):
    env = dict(os.environ)
    env.setdefault("PYTHONHASHSEED", "0")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    exe = VENV if os.path.exists(VENV) else sys.executable
    if env.get("VERIF_REEXEC") != "1":
        env["VERIF_REEXEC"] = "1"
        os.execve(exe, [exe, "-s", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--log", type=int, help="run one index and print its event log")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    from worlds import registry
    from sim import runner
    check = registry.get(a.id)
    if not getattr(check, "needs_scratch", False):
        return act(a, check, runner)
    # everything the code under test may create or destroy lives here
    import shutil, tempfile
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    check.scratch = tempfile.mkdtemp(prefix="verif-", dir=base)
    os.chmod(check.scratch, 0o777)
    try:
        return act(a, check, runner)
    finally:
        shutil.rmtree(check.scratch, ignore_errors=True)

def act(a, check, runner):
    if a.replay:
        return runner.replay_file(check, a.replay)
    if a.log is not None:
        import json
        case = check.case_for(a.seed, a.log, a.tier)
        print(json.dumps(case))
        d = runner.run_isolated(check, case)
        for e in d.get("log", []):
            print("   ", e)
        print({k: v for k, v in d.items() if k != "log"})
        return 0
    return runner.main(check, a.tier, a.seed, runs=a.runs, workers=a.workers, write=not a.no_evidence)

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
