#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/proptext.py and props/index.json"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from proptext import PROPS, NOT_APPLICABLE
idx = json.load(open(V + "/props/index.json"))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        if p["id"] not in idx and p["id"] not in NOT_APPLICABLE:
            continue
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("note",)}) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in idx:
        continue
    checks.append(dict(
        property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique="symbolic execution of meshio's Python source, obligations decided by z3, counterexamples replayed on the real code",
        level="model_checking",
        level_note=p.get("note") or "Bounded: every value of the symbolic inputs (coordinates, connectivity, data, tags) within the mesh shapes, cell types, dtypes and options listed as scenarios; sizes and structures are enumerated, values are not. Trusts numpy/h5py/zlib/expat/printf-style number formatting as documented; each explored path's witness is replayed on the unmodified package."))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks,
     not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
     notes="No hooks: /repo is executed unmodified (the symbolic interpreter substitutes numpy, open and the file libraries on import)."),
     open(V + "/MANIFEST.json", "w"), indent=1)
