"""writes levels.json (what check.py needs per property) and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na, lv = [], [], []
for p in props:
    if p in NA or p not in LEVELS:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
        continue
    l = LEVELS[p]
    lv.append(dict(property=p, **l))
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} --tier quick", thorough_cmd=f"python3 check.py {p} --tier thorough",
                       technique=l.get("technique", TECH), level=l["level"], level_note=l["note"]))
json.dump(lv, open(os.path.join(HERE, "levels.json"), "w"), indent=1)
doc = dict(version=1, setup_cmd="mkdir -p evidence && python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import numpy'", checks=checks, not_applicable=na,
           notes="Contracts in contracts/, verifier in pyvc/, runs on the real code in harness/. See DESIGN.md.")
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
