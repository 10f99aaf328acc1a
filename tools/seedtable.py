#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os
import re

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(TOP, "DESIGN.md")
with open(path) as handle:
    text = handle.read().split("<!-- table -->")[0]
text += "<!-- table -->\n| Bug | Where | Needs | What it breaks | Caught by |\n|---|---|---|---|---|\n"
for folder in sorted(glob.glob(os.path.join(TOP, "seeded", "*"))):
    with open(os.path.join(folder, "meta.json")) as handle:
        meta = json.load(handle)
    with open(os.path.join(folder, "patch.diff"), encoding="latin-1") as handle:
        files = sorted({os.path.basename(f) for f in re.findall(r"^\+\+\+ b/(\S+)", handle.read(), re.M)})
    cell = lambda value: str(value).replace("|", "/").replace("\n", " ")
    text += "| %s | %s | %s | %s | %s |\n" % (os.path.basename(folder), ", ".join(files), cell(meta["needs"]), cell(meta["what_it_breaks"]), meta["property"])
with open(path, "w") as handle:
    handle.write(text)
