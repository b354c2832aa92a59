#!/usr/bin/env python3
"""Regenerates the generated part of DESIGN.md (per-property table) from props.py's output."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
meta = json.load(open(V + "/harness/meta.json"))["properties"]
kf = json.load(open(V + "/known_findings.json"))
man = json.load(open(V + "/MANIFEST.json"))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
out = ["## Properties\n"]
for p in props:
    m = meta.get(p["id"], {})
    hs = []
    d = f"{V}/harness/{p['id']}"
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            t = open(f"{d}/{f}").read().split("\n")
            for i, l in enumerate(t):
                if l.startswith("func Verif"):
                    c = []
                    j = i - 1
                    while j >= 0 and t[j].startswith("//"):
                        c.insert(0, t[j][3:]); j -= 1
                    n = l.split("(")[0][5:]
                    hs.append("* " + (" ".join(c) if c and c[0].startswith(n) else n))
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\nQuantified: {p['quantifier']['text']}. Tests cannot settle it: {p['why_tests_cant']}.\n")
    out.append("Harnesses (oracle in the assertions):\n" + "\n".join(hs) + "\n")
    out.append("Bounds: " + "; ".join(m.get("bounds", [])) + ".\n")
if man["not_applicable"]:
    out.append("## Not applicable\n\n" + "\n".join(f"* {x['property']}: {x['reason']}" for x in man["not_applicable"]) + "\n")
out.append("## Assumptions shared by the checks\n")
seen = []
for m in meta.values():
    for a in m["assumptions"]:
        if a not in seen: seen.append(a)
out.append("\n".join("* " + a for a in seen) + "\n")
out.append("## Genuine defects found\n")
for k in kf:
    out.append(f"* {k['property']} ({k['status']}{' ' + k['commit'] if k.get('commit') else ''}): {k['what']}")
out.append("\n## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|")
sd = V + "/seeded"
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    j = json.load(open(f"{sd}/{s}/meta.json"))
    out.append(f"| {s} | {j['property']} | {j['needs']} | {caught.get(s, '?')} |")
d = open(V + "/DESIGN.md").read().split("\n<!-- generated below by tools/design_tail.py -->")[0]
open(V + "/DESIGN.md", "w").write(d + "\n<!-- generated below by tools/design_tail.py -->\n\n" + "\n".join(out) + "\n")
