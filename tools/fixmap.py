"""map fix: commits without an entry to a property: fixmap.py Cxx"""
import json, subprocess, sys
p="/verif/tools/fixprops.json"; m=json.load(open(p))
for s in subprocess.run(["git","-C","/repo","log","--reverse","--format=%s"],capture_output=True,text=True).stdout.splitlines():
    if s.startswith("fix:") and s not in m:
        m[s]=sys.argv[1]; print(sys.argv[1], s)
json.dump(m,open(p,"w"),indent=1)
