#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, re, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, VERIF + "/tools"]
from checks import CHECKS, NOT_APPLICABLE
import design_notes as N

seeds = []
for f in sorted(glob.glob(VERIF + "/seeded/*/meta.json")):
    d = json.load(open(f))
    d["id"] = os.path.basename(os.path.dirname(f))
    seeds.append(d)
caught = {}
p = VERIF + "/tools/seed_results.tsv"
if os.path.exists(p):
    for l in open(p):
        a = l.rstrip("\n").split("\t")
        caught[a[0]] = a[1]
known = [l.rstrip("\n") for l in open(VERIF + "/known_findings.txt") if not l.startswith("#")]
cost = {}
out = [N.INTRO]
out.append("## Properties\n")
for line in open(VERIF + "/properties.jsonl"):
    d = json.loads(line)
    c = CHECKS.get(d["id"])
    out.append("### %s %s\n" % (d["id"], d["title"]))
    if not c:
        out.append("Not claimed: %s\n" % NOT_APPLICABLE.get(d["id"], ""))
        continue
    out.append("*Decided by:* %s.\n" % c["technique"])
    out.append("*Bound:* %s.\n" % c["bound"])
    out.append("*Tests cannot:* %s\n" % d["why_tests_cant"])
    if d["id"] in N.NOTES:
        out.append(N.NOTES[d["id"]] + " " + c["note"] + "\n")
    out.append("Suites:\n")
    for s in c["sources"]:
        for m in re.finditer(r'MC_(HISTORIES|INPUTS)\((\w+),[^"]*"([^"]*)"', open(VERIF + "/harness/" + s).read()):
            out.append("- `%s` (%s): %s" % (m.group(2), m.group(1).lower(), m.group(3)))
    k = [l for l in known if "property=%s " % d["id"] in l]
    if k:
        out.append("\nDefects of libswoc found: " + "; ".join(re.sub(r"^(fixed|finding): property=\w+ ", lambda m: "(recorded) " if m.group(1) == "finding" else "", x) for x in k) + ".")
    b = [s for s in seeds if s["property"] == d["id"]]
    if b:
        out.append("\nPlanted bugs: " + "; ".join("%s (%s; %s)" % (s["id"], s["needs"], caught.get(s["id"], "not run")) for s in b) + ".")
    out.append("")
out.append(open(VERIF + "/tools/design_tail.md").read())
open(VERIF + "/DESIGN.md", "w").write("\n".join(out) + "\n")
