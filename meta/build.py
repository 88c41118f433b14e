import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "meta")); sys.path.insert(0, os.path.join(V, "sa"))
from props import PROPS
from checks import TABLE
try:
    from props import NA
except ImportError:
    NA = {}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in TABLE:
        checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                       "technique": p["_technique"], "level": "other", "level_note": p["_note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"]) or p["_note"]})
m = {"version": 1, "setup_cmd": "bash extractor/build.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: a libTooling extractor (extractor/) parses every source of /repo, and rules in sa/checks decide each property from the resolved AST, CFG and call graph."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
