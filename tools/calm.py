#!/usr/bin/env python3
"""
False-alarm controls (development only): edits of the code that keep its behaviour, on which
every check has to stay quiet.

  calm.py [NAME...]     apply tools/calm/NAME.py (edits = [(file, old, new)]) to a copy of /repo,
                        run the stable tests and the checks of the files it touches
"""
import concurrent.futures as cf, os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import bug

R = lambda a, b: [f"C{n:02d}" for n in range(a, b + 1)]
CHECKS = {"scheduler": R(1, 6) + ["C35"], "heap": R(1, 8) + ["C35"], "graph": R(9, 14) + ["C35"], "itertools": ["C15", "C35"], "state": R(16, 18) + ["C35"], "text": R(19, 22) + ["C33", "C34", "C35"], "file": R(23, 27) + ["C32", "C33"], "version": ["C33", "C34"], "builtin": ["C33", "C34"], "deprecated": ["C33", "C34"], "all": ["C34"],
          "log": ["C28", "C29", "C35"], "time": ["C30", "C33", "C34"], "boundinnerclass": ["C31", "C35"]}

def one(name):
    ns = {}
    exec(open(os.path.join(HERE, "tools", "calm", name + ".py")).read(), ns)
    d = bug.copy("calm-" + name)
    out = []
    try:
        ids = set()
        for f, old, new in ns["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{name}: text found {s.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
            ids |= set(CHECKS[os.path.basename(f)[:-3]])
        t = bug.run_tests(d)
        out.append(f"{name}: tests {t or 'pass'}")
        for c in ns.get("checks", sorted(ids)):
            r = bug.sh(f"VERIF_REPO={d} {bug.PY} -s check.py {c} --no-evidence --workers 8", cwd=HERE)
            if r.returncode:
                why = [x for x in r.stdout.splitlines() if f"{c}: seed" in x] or r.stdout.splitlines()[-3:]
                out.append(f"   ALARM {c} rc={r.returncode} {' '.join(why)[:700]}")
                rp = os.path.join(HERE, "replays", c + ".json")
                if os.path.exists(rp):
                    shutil.copy(rp, f"/tmp/bugs/calm-{name}-{c}.json")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)

names = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "tools", "calm")) if f.endswith(".py"))
for n in names:
    print(one(n), flush=True)
