"""fixed.py P0x HASH... : records fix commits in known_findings.json"""
import json, subprocess, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
prop = sys.argv[1]
for h in sys.argv[2:]:
    l = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], text=True).strip()
    h, m = l.split(" ", 1)
    e = "fixed: property=%s %s %s" % (prop, h, m[5:])
    if e not in d["fixed"]:
        d["fixed"].append(e)
json.dump(d, open(p, "w"), indent=1)
