"""regenerate the fixed entries of known_findings.json from /repo's fix: commits (tools/fixprops.json maps subject -> property)"""
import json, subprocess
V="/verif"
m=json.load(open(V+"/tools/fixprops.json"))
try: old=json.load(open(V+"/known_findings.json"))["findings"]
except FileNotFoundError: old=[]
opn=[x for x in old if x["status"]=="open"]
out=[]
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    p=m.get(s)
    if p is None: print("no property for",s); continue
    out.append({"id":h,"property":p,"status":"fixed","entry":f"fixed: property={p} {h} {s[5:]}"})
json.dump({"findings":opn+out},open(V+"/known_findings.json","w"),indent=1)
