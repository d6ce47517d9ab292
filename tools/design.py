#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, checks.py, properties.jsonl, design_tail.md and the planted bugs."""
import json, os, sys, glob
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from checks import CHECKS
rd = lambda f: open(os.path.join(here, f)).read()
out = [rd("design_head.md")]
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); c = CHECKS[p["id"]]
    out.append("\n### %s: %s\n*Technique:* %s.\n\n*How:* %s\n\n*Space:* %s.\n\nHarness: `harness/%s`.\n" % (p["id"], p["title"], c["technique"],
        c["note"].split(" Trusted:")[0], c["covers"], c["passes"][0]["pkg"][2:]))
out.append(rd("design_tail.md"))
out.append("## Planted bugs and the checks that catch them\n\n`tools/seedtry.sh ID` applies one to a scratch copy, runs its demonstration and its check.\n"
    + rd("seedlog.md") + "\n| planted bug | property (check that reports it) | what it breaks | needs |\n|---|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json")) + glob.glob(os.path.join(root, "planted/*/meta.json"))):
    d = json.load(open(f))
    out.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"], d["needs"]))
open(os.path.join(root, "DESIGN.md"), "w").write("".join(out))
