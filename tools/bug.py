#!/usr/bin/env python3
"""
Makes and tries planted bugs (development only; no check reads seeded/).

  bug.py make SPEC.py...     make /verif/seeded/<id>/ from a specification and try it
  bug.py try ID...           try it again: applies, builds, tests, demo, check
  bug.py check [ID...]       only run the property's check against each planted bug

A specification sets id, prop, needs, breaks, edits = [(file, old, new)], demo (python) and
optionally files = {name: text}.
"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
WORK = "/tmp/bugs"
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$D" LC_ALL=C.UTF-8 TZ=UTC
exec timeout 120 /opt/venv/bin/python -s "$D/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def copy(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    sh(f"cp -a /repo {d}")
    return d

def test_script(d):
    f = d + ".test.sh"
    s = open("/opt/vp/test.sh").read().replace("/repo", d).replace("/opt/vp/run_pytest.py", d + ".pytest.py")
    open(f, "w").write(s)
    open(d + ".pytest.py", "w").write(open("/opt/vp/run_pytest.py").read().replace("/repo", d))
    return f

def run_tests(d):
    out = d + ".json"
    r = sh(f"bash {test_script(d)} {out}")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try:
        res = json.load(open(out))
    except OSError:
        return r.stdout[-800:]
    passed = set(res.get("passed", []))
    bad = sorted(stable - passed)
    for x in (out, f"{d}.test.sh", f"{d}.pytest.py"):
        if os.path.exists(x):
            os.unlink(x)
    return ", ".join(bad[:4])

def attempt(bid, tests=True, ids=None, quiet=False):
    sd = os.path.join(SEEDED, bid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    d = copy(bid)
    res = {}
    try:
        r = sh(f"git -C {d} apply {sd}/patch.diff")
        if r.returncode:
            return {"apply": r.stdout}
        if tests:
            res["tests"] = run_tests(d) or "pass"
            a = sh(f"bash {sd}/demo.sh", cwd="/repo")
            b = sh(f"bash {sd}/demo.sh", cwd=d)
            res["demo"] = f"{a.returncode}/{b.returncode}"
            if a.returncode != 0 or b.returncode == 0:
                res["demo_out"] = (a.stdout if a.returncode else b.stdout)[-1500:]
            else:
                res["demo_says"] = b.stdout.strip()[-160:]
        for c in ids or [meta["property"]]:
            t = time.time()
            r = sh(f"VERIF_REPO={d} {PY} -s check.py {c} --no-evidence", cwd=HERE)
            last = [x for x in r.stdout.splitlines() if x.strip()]
            why = next((x for x in last if f"{c}: seed" in x), "")
            res[c] = f"{'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'ERROR'} {time.time() - t:.0f}s {why[:200] if r.returncode == 1 else ' '.join(last[-2:])[-200:]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res

def make(spec):
    g = {}
    exec(compile(open(spec).read(), spec, "exec"), g)
    d = copy("make")
    for f, old, new in g["edits"]:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (g["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {d} diff").stdout
    sd = os.path.join(SEEDED, g["id"])
    shutil.rmtree(sd, ignore_errors=True)
    os.makedirs(sd)
    open(os.path.join(sd, "patch.diff"), "w").write(diff)
    open(os.path.join(sd, "demo.sh"), "w").write(DEMO_SH)
    open(os.path.join(sd, "demo.py"), "w").write(g["demo"].lstrip())
    for n, t in g.get("files", {}).items():
        open(os.path.join(sd, n), "w").write(t.lstrip())
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
    shutil.rmtree(d)
    return g["id"]

def show(bid, res):
    print(bid, json.dumps(res, indent=None), flush=True)

def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for s in args:
            bid = make(s)
            show(bid, attempt(bid))
    else:
        ids = args or sorted(os.listdir(SEEDED))
        for b in ids:
            show(b, attempt(b, tests=cmd == "try"))

if __name__ == "__main__":
    main()
