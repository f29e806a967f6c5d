#!/usr/bin/env python3
"""Writes DESIGN.md from its hand-written head and tail, the properties, the rules and the planted bugs."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import props

rd = lambda n: open(os.path.join(V, "tools", n)).read().rstrip() + "\n"
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
kf = json.load(open(os.path.join(V, "known_findings.json")))
fixed = {}
for l in kf["fixed"]:
    fixed.setdefault(l.split("property=")[1].split()[0], []).append(l.split(" ", 2)[2])
out = [rd("design.head.md"), "\n## The properties and how each is decided\n"]
na = []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    if "na" in p:
        na.append(p)
        continue
    m = importlib.import_module("hbsa.rules." + p["id"].lower())
    out.append("\n### %s %s\n\n" % (p["id"], p["title"]))
    out.append("*Technique:* %s.\n\n*Specified and analysed:* %s\n\n" % (p["technique"], m.RULE))
    out.append("*Over:* %s. *Beyond tests because* %s.\n\n" % (p["quantifier"]["text"], p["why_tests_cant"]))
    out.append("*Bounds and trust:* %s\n\n" % p["level_note"])
    if getattr(m, "ASSUME", None):
        out.append("*Assumed:* %s.\n\n" % "; ".join(m.ASSUME))
    if p["id"] in seeds:
        out.append("*Planted bugs caught:* %s.\n\n" % "; ".join("`%s` (%s)" % (n, d["what_it_breaks"]) for n, d in seeds[p["id"]]))
    if p["id"] in fixed:
        out.append("*Defects found and repaired:* %s.\n\n" % "; ".join(fixed[p["id"]]))
out.append("\n## Not applicable\n\n")
for p in na:
    out.append("- **%s %s**: %s\n" % (p["id"], p["title"], p["na"]))
out.append("\n" + rd("design.tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
