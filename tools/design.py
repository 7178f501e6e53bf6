#!/usr/bin/env python3
"""Puts DESIGN.md together from its parts; run after tools/gen.py (not part of any check)."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import design_notes as N

out = [open(os.path.join(V, "tools/design_head.md")).read()]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]} if man["not_applicable"] else {}
tech = {c["property"]: c["technique"] for c in man["checks"]}
find = open(os.path.join(V, "known_findings.jsonl")).read().splitlines()
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
for p in props:
    i = p["id"]
    if i in na:
        continue
    out.append("### %s — %s\n" % (i, p["title"]))
    src = open(os.path.join(V, "checks/%s.py" % i.lower())).read()
    rule = ""
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULE":
            rule = eval(compile(ast.Expression(n.value), "", "eval"))
    out.append("*Method:* %s (`checks/%s.py`).\n" % (tech[i], i.lower()))
    out.append("*Rule:* %s.\n" % rule.strip().rstrip("."))
    if i in N.NOTES:
        out.append(N.NOTES[i].strip() + "\n")
    fx = [l.split(" ", 3)[2:] for l in find if l.startswith("fixed: property=%s " % i)]
    kn = [json.loads(l) for l in find if l.startswith("{") and json.loads(l)["property"] == i]
    if fx:
        out.append("*Defects found and repaired:* " + "; ".join("%s (%s)" % (w, h) for h, w in fx) + ".\n")
    if kn:
        out.append("*Known findings (not repaired):* " + "; ".join(k["what"] for k in kn) + ".\n")
out.append("## 3. Properties static analysis does not reach here\n")
for p in props:
    if p["id"] in na:
        out.append("* **%s — %s.** %s" % (p["id"], p["title"], na[p["id"]]))
out.append("")
out.append(N.TAIL.strip() + "\n")
out.append("## 6. Planted changes and the checks that catch them\n")
out.append(N.SEEDS.strip() + "\n")
out.append("| change | property | needs | what breaks | caught by |\n|---|---|---|---|---|")
for i in sorted(seeds):
    for n, d in seeds[i]:
        out.append("| %s | %s | %s | %s | %s%s |" % (n, i, d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/"), i, N.MISSED.get(n, "")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
