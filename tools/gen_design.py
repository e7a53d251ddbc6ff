"""Writes DESIGN.md from tools/design_notes.json, properties.jsonl, known_findings.json, seeded/ and (for the counts) a
snapshot of the quick evidence kept in tools/space_counts.json (refresh with --counts after running all quick checks)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *p: os.path.join(R, *p)
sc = J("tools", "space_counts.json")
if "--counts" in sys.argv:
    out = {}
    for f in sorted(os.listdir(J("evidence"))):
        if f.count(".") == 1:
            d = json.load(open(J("evidence", f)))
            out[d["property"]] = {"spaces": {k: [v["cases_in_space"], v["operations_compared"]] for k, v in d["coverage"]["spaces"].items()}, "wall": round(d["wall_s"])}
    json.dump(out, open(sc, "w"), indent=0, sort_keys=True)
counts = json.load(open(sc))
notes = json.load(open(J("tools", "design_notes.json")))
props = [json.loads(l) for l in open(J("properties.jsonl"))]
kf = json.load(open(J("known_findings.json")))
o = [notes["intro"]]
for p in props:
    i = p["id"]
    n = notes["props"][i]
    c = counts.get(i, {"spaces": {}, "wall": "?"})
    o.append(f"### {i} {p['title']}\n")
    o.append(f"*Model / oracle.* {n['oracle']}\n")
    o.append("*Spaces enumerated completely (quick; cases, operations compared):* " + "; ".join(f"{k} ({a:,}, {b:,})" for k, (a, b) in c["spaces"].items()) + f".  About {c['wall']} s on 8 cores; thorough: {n['thorough']}\n")
    o.append(f"*Beyond the tests.* {n['why']}\n")
    if n.get("limits"):
        o.append(f"*Not claimed / domain limits* (behaviour of the external kernels, documented refusals, or readings found to be too strong while triaging): {n['limits']}\n")
o.append("## Genuine defects found\n")
o.append("Recorded, not repaired:\n")
for f in kf["findings"]:
    o.append(f"* {f['id']} ({f['property']}): {f['what']}")
o.append(f"\nRepaired ({len(kf['fixed'])} `fix:` commits in /repo, the unedited test suite passes; a fixed entry suppresses nothing):\n")
for f in kf["fixed"]:
    o.append("* " + f[len("fixed: property="):])
o.append("\n" + notes["seeded_intro"] + "\n")
o.append("| change | property | needs | caught by |\n|---|---|---|---|")
for s in sorted(os.listdir(J("seeded"))):
    m = json.load(open(J("seeded", s, "meta.json")))
    o.append(f"| {s} | {m['property']} | {m['needs']} | {notes['caught'].get(s, m['property'])} |")
o.append("\n" + notes["mutation"])
open(J("DESIGN.md"), "w").write("\n".join(o) + "\n")
