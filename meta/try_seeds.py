#!/usr/bin/env python3
"""Run the property's check against every planted bug in a scratch copy; write seed_results.json."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
rp = os.path.join(HERE, "seed_results.json")
res = json.load(open(rp)) if os.path.exists(rp) else {}
for i in sys.argv[1:] or sorted(os.listdir(SEEDED)):
    d = os.path.join(SEEDED, i)
    w = tempfile.mkdtemp()
    try:
        for x in ("src", "app", "doc", "CMakeLists.txt", "README.md"):
            s = os.path.join("/repo", x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(w, x))
        subprocess.run(["patch", "-sp1", "-i", os.path.join(d, "patch.diff")], cwd=w, check=True)
        p = json.load(open(os.path.join(d, "meta.json")))["property"]
        r = subprocess.run([sys.executable, "check.py", p], cwd=VERIF, env=dict(os.environ, MILO_REPO=w), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        res[i] = p if r.returncode == 1 else "**missed**" if r.returncode == 0 else "**no answer**"
        line = [x for x in r.stdout.splitlines() if x.startswith("  [") or "BROKEN" in x]
        print(i, p, "rc=%d" % r.returncode, line[0][:250] if line else "", flush=True)
    finally:
        shutil.rmtree(w)
res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(SEEDED, k))}
json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
