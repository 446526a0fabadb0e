#!/usr/bin/env python3
"""probe.py SPEC.py [id ...]: for each edit set, run the stable tests and the property's check on a scratch copy.
SPEC: SEEDS = [dict(id, property, edits=[(file, old, new)], ...)] (demo not needed)."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run(s):
    d = f"/dev/shm/probe_{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    try:
        for f, old, new in s["edits"]:
            p = f"{d}/src/meshio/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], f"EDIT does not match uniquely: {f} {t.count(old)}: {old[:60]!r}", ""
            open(p, "w").write(t.replace(old, new))
        subprocess.run(["bash", "-c", f"cd {d} && PYTHONPATH={d}/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --basetemp={d}/pt --timeout=60 --continue-on-collection-errors --codeblocks --tb=no -o junit_family=xunit2 --junitxml={d}/j.xml; python3 /opt/vp/results.py {d}/o.json junit:{d}/j.xml"], capture_output=True, text=True)
        try:
            miss = sorted(base - set(json.load(open(d + "/o.json"))["passed"]))
        except Exception as e:
            miss = ["no test result " + str(e)]
        os.makedirs(d + "/ev", exist_ok=True)
        q = subprocess.run(["/verif/check.sh", s["property"], "quick"], cwd="/verif", capture_output=True, text=True, timeout=1800,
                           env={**os.environ, "VP_REPO_SRC": d + "/src", "VP_JOBS": "2", "VP_FAILFAST": "1", "VP_EVIDENCE": d + "/ev"})
        c = "caught" if q.returncode == 1 and "VIOLATION" in q.stdout else f"MISSED rc={q.returncode}"
        notes = [l[:160] for l in q.stdout.splitlines() if l.startswith(("INCON", "UNDEC", "MISM", "ERROR"))]
        return s["id"], c, ("TESTS " + str(len(miss)) + " " + str(miss[:2]) if miss else "") + ((" " + notes[0]) if notes and c != "caught" else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get("PJOBS", "4"))) as ex:
    for f in cf.as_completed([ex.submit(run, s) for s in ns["SEEDS"] if not want or s["id"] in want]):
        print(*f.result(), flush=True)
