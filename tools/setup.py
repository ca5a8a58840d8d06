#!/usr/bin/env python3
"Nothing is compiled or installed: checks that the interpreter and the repository are there and the worlds import."
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
code = """
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from worlds import registry
for i in sorted(registry.WORLDS):
    if os.path.exists(os.path.join(%r, 'worlds', registry.WORLDS[i][0] + '.py')):
        registry.get(i)
print('worlds import')
os._exit(0)
""" % (HERE, HERE)
r = subprocess.run([PY, "-s", "-c", code], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, text=True)
print(r.stdout, end="")
sys.exit(r.returncode or 0 if "worlds import" in r.stdout else 1)
