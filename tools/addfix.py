import json, sys
prop, key, commit, what = sys.argv[1:5]
p = "/verif/known_findings.json"
k = json.load(open(p))
if commit == "open":
    k.append(dict(key=key, property=prop, status="open", what=what))
else:
    k.append(dict(key=key, property=prop, status="fixed", commit=commit, what=f"fixed: property={prop} {commit} {what}"))
json.dump(k, open(p, "w"), indent=1)
