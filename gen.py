#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from spec.py and doc/."""
import json, os, sys
from spec import P, NOT_APPLICABLE
root = os.path.dirname(os.path.abspath(__file__))
P.sort(key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                 "technique": p["plan"].get("technique", "property-based testing (rapid): generated histories and inputs against a reference model"),
                 "level": "exploration", "level_note": p["note"]} for p in P],
     "not_applicable": NOT_APPLICABLE,
     "notes": "All checks are one Go test binary built from /repo's working tree through harness/go.work; see DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

sys.path.insert(0, os.path.join(root, "doc"))
from oracles import ORACLE  # noqa: E402
def doc(n): return open(os.path.join(root, "doc", n)).read()
with open(os.path.join(root, "DESIGN.md"), "w") as f:
    f.write(doc("design_head.md"))
    for p in P:
        pl = p["plan"]
        f.write("### %s %s\n\n" % (p["id"], p["title"]))
        f.write("Generated: %s. %s Oracle: %s. Bounds and trust: %s Cost: %d cases quick, %d thorough%s. Beyond the tests: %s\n\n" % (
            p["quantifier"]["text"], pl["rule"], ORACLE[p["id"]], p["note"], pl["quick"], pl["thorough"],
            ", under the race detector" if pl.get("race") else "", p["why_tests_cant"]))
    f.write(doc("design_tail.md"))
    f.write("\n## Defects repaired in /repo\n\n")
    for l in open(os.path.join(root, "KNOWN_FINDINGS.txt")):
        if l.startswith("fixed: property="):
            prop, commit, what = l[len("fixed: property="):].strip().split(" ", 2)
            f.write("- %s (found by %s): %s.\n" % (commit, prop, what))
    seeds = os.path.join(root, "seeded")
    if os.path.isdir(seeds):
        first = dict(l.split(None, 1) for l in doc("seeds_first.txt").splitlines() if l and l[0] != "#")
        f.write("\n## Planted bugs and the checks that catch them\n\nEach was written from a property's text and the code; "
                "the last column says what happened the first time the check met it.\n\n"
                "| bug | property / check | what it breaks | needs | first met |\n|---|---|---|---|---|\n")
        for b in sorted(os.listdir(seeds)):
            mt = json.load(open(os.path.join(seeds, b, "meta.json")))
            f.write("| %s | %s | %s | %s | %s |\n" % (b, mt["property"], mt["what_it_breaks"].replace("|", "/"), mt["needs"].replace("|", "/"), first.get(b, "caught").strip()))
