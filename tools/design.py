#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written parts (below) + per-property bounds from tools/checks.py and titles from tools/props.py."""
import os, sys, json, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, here)
import checks
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
HEAD = open(os.path.join(here, "design_head.md")).read(); TAIL = open(os.path.join(here, "design_tail.md")).read()
NOTE = {}
for blk in re.split(r"(?m)^## ", open(os.path.join(here, "design_notes.md")).read())[1:]:
    k, t = blk.split("\n", 1); NOTE[k.strip()] = t.strip()
out = [HEAD.rstrip(), "", "# Per property", ""]
for p in props:
    c = checks.CHECKS[p["id"]]; kinds = sorted({u["variant"] for u in c["units"]})
    out += ["## %s - %s" % (p["id"], p["title"]), "", "*Statement.* " + p["statement"], "",
            "*Deciding method.* " + c["technique"] + ". Engine %s, %d harness unit%s (`src/checks/%s`)." % ("1 (choice trees)" if "sched" not in kinds else "2 (interleavings)" if kinds == ["sched"] else "1 and 2", len(c["units"]), "s" if len(c["units"]) > 1 else "", ", ".join(sorted({u["src"][0].replace("checks/", "") for u in c["units"]}))), "",
            "*Enumerated, quick.* " + c["bounds"]["quick"] + ".", "", "*Enumerated, thorough.* " + c["bounds"]["thorough"] + ".", ""]
    if c["note"]: out += ["*Domain.* " + c["note"] + ".", ""]
    out += [NOTE.get(p["id"], ""), "", "*Why tests cannot settle it.* " + p["why_tests_cant"] + ".", ""]
seeds = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json"))); seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
out += [TAIL.replace("@SEEDS@", "\n".join(["| change | property (its check catches it) | needs | what it breaks |", "|---|---|---|---|"] + seeds)).replace("@FINDINGS@", "\n".join("* `" + l.strip() + "`" for l in open(os.path.join(root, "known_findings.txt")) if not l.startswith("#")))]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
assert not set(NOTE) - {p["id"] for p in props}; print("DESIGN.md", [p["id"] for p in props if p["id"] not in NOTE])
