#!/usr/bin/env python3
"""Writes the two last sections of DESIGN.md from known_findings.json and seeded/*/meta.json."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(here + "/DESIGN.md").read()
s = s[:s.index("## Defects found in hbuf")]
k = json.load(open(here + "/known_findings.json"))
s += "## Defects found in hbuf\n\nEach was found by a check (or while writing its oracle) and confirmed on the real code.\n\nRepaired (one `fix:` commit each, listed as fixed in known_findings.json):\n\n"
for e in k:
    if e["status"] == "fixed":
        w = e["what"].split(" ", 3)
        s += "- %s %s: %s\n" % (e["property"], e["commit"], w[3] if len(w) > 3 else e["what"])
s += "\nKnown, not repaired (no small and safe patch; reported as KNOWN-FINDING):\n\n"
for e in k:
    if e["status"] == "known":
        s += "- %s %s: %s\n" % (e["property"], e.get("harness", ""), e["what"])
s += "\n## Planted bugs\n\nEvery one is in seeded/. All were run against the check of their property, which reports each of them (column 2); those it missed at first are what the harnesses were extended for.\n\n| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n"
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    c = lambda t: t.replace("|", "\\|").replace("\n", " ")
    s += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], c(m["needs"]), c(m["what_it_breaks"]))
open(here + "/DESIGN.md", "w").write(s)
