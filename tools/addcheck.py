import json,sys
d=json.load(open('/verif/checks.json'))
for u in sys.argv[1:]:
    d[u.upper()]={"units":[u],"replay":u}
json.dump(dict(sorted(d.items())),open('/verif/checks.json','w'),indent=1)
