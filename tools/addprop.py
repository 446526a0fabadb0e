import json,sys
p='/verif/props/index.json';d=json.load(open(p));d[sys.argv[1]]=sys.argv[2];json.dump(dict(sorted(d.items())),open(p,'w'),indent=0)
