"""writes DESIGN.md from design/*.md, the contracts, levels, findings and planted bugs."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda f: open(os.path.join(HERE, f)).read()
exec(R("tools/levels.py"))
exec(R("design/properties.py"))
props = [json.loads(l) for l in R("properties.jsonl").splitlines() if l.strip()]
state = json.loads(R("design/proved.json")) if os.path.exists(os.path.join(HERE, "design/proved.json")) else {}
out = [R("design/intro.md")]
out.append("## The properties\n")
for p in props:
    i = p["id"]
    l = LEVELS.get(i)
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Level*: {l['level']}. {l['note']}\n")
    if i in TEXT:
        out.append(TEXT[i].strip() + "\n")
    s = state.get(i)
    if s:
        out.append(f"Contracts ({s['obligations']} obligations on {len(s['functions'])} functions, {s['wall']:.0f} s):\n")
        for c in s["contracts"]:
            out.append(f"* {c['name']}: {c['status']} ({', '.join(c['functions'])})")
        out.append("")
out.append("## Findings\n\nDefects of the pinned commit found by the checks and repaired (`fix:` commits in /repo; `known_findings.json`):\n")
for f in json.loads(R("known_findings.json"))["fixed"]:
    out.append(f"* {f}")
k = json.loads(R("known_findings.json"))["known"]
out.append(f"\nRecorded without repair: {len(k) or 'none'}.\n")
for f in k:
    out.append(f"* {f}")
out.append("## Planted bugs\n\nEach was written from the property and the code, confirmed to pass the stable tests, and run against its check.\n")
caught = json.loads(R("design/caught.json"))
out.append("| id | breaks | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    out.append(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {caught.get(n, 'not yet run')} |")
out.append("")
out.append(R("design/outro.md"))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
