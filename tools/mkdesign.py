#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json (id -> checks that report it)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
s = open(V + "/DESIGN.md").read()
s = s[:s.index("## Planted bugs")] + "## Planted bugs\n\nEach was written from a property's text and the code, compiles, passes the existing tests and has a demonstration.  Column three: which checks report it (quick tier; the own check was run, others not necessarily).\n\n| bug | needs | caught by |\n|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    s += "| %s | %s | %s |\n" % (i, m["needs"].replace("|", "/").strip(), ", ".join(caught.get(i, [])) or "missed")
open(V + "/DESIGN.md", "w").write(s)
