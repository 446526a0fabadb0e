#!/usr/bin/env python3
"""seed.py SPEC.py [id ...]: confirm planted changes in a scratch copy of /repo and store them
under /verif/seeded.  SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, what, demo)];
demo is a Python program, exit status nonzero / exception = broken."""
import json, os, re, shutil, subprocess, sys
V = "/verif"; W = "/tmp/seedwt"
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PRE = '''import os, sys, tempfile, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
import meshio
from meshio import Mesh
_d = tempfile.TemporaryDirectory()
def tmp(n): return os.path.join(_d.name, n)
def rt(mesh, name, **kw):
    meshio.write(tmp(name), mesh, **kw)
    return meshio.read(tmp(name))
'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def demo(d, cwd):
    return subprocess.run(["timeout", "200", "bash", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True, timeout=300, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
for s in ns["SEEDS"]:
    if want and s["id"] not in want: continue
    fresh()
    for f, old, new in s["edits"]:
        p = f"{W}/src/meshio/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "EDIT does not match uniquely:", f, t.count(old)); break
        open(p, "w").write(t.replace(old, new))
    else:
        diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
        d = f"{V}/seeded/{s['id']}"
        new = not os.path.isdir(d)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(PRE + s["demo"])
        open(d + "/demo.sh", "w").write(SH)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        r = demo(d, "/repo")
        if r.returncode != 0: print(s["id"], "demo fails on clean tree", r.stderr[-600:]); ok = False
        r = demo(d, W)
        if r.returncode == 0: print(s["id"], "demo passes with the patch"); ok = False
        r = subprocess.run(["bash", "-c", f"cd {W} && PYTHONPATH={W}/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --basetemp=/tmp/seedpt --timeout=60 --continue-on-collection-errors --codeblocks --tb=no -o junit_family=xunit2 --junitxml=/tmp/seedj.xml; python3 /opt/vp/results.py /tmp/seedo.json junit:/tmp/seedj.xml"], capture_output=True, text=True)
        try:
            miss = base - set(json.load(open("/tmp/seedo.json"))["passed"])
        except Exception as e:
            miss = {str(e), r.stdout[-300:] + r.stderr[-300:]}
        if miss: print(s["id"], "TESTS catch it:", len(miss), sorted(miss)[:3]); ok = False
        if not ok and new: shutil.rmtree(d)
        print(s["id"], "OK" if ok else "REJECTED")
shutil.rmtree(W, ignore_errors=True)
