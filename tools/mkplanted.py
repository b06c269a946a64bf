"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand; no check uses it)."""
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", name, "meta.json")))
    files = sorted(set(re.findall(r"^\+\+\+ b/rsm/(\S+)", open(os.path.join(here, "seeded", name, "patch.diff")).read(), re.M)))
    rows.append(f"| {name} | {', '.join(files)} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head = "| bug | in | needs | breaks | caught by |\n|---|---|---|---|---|\n"
s = s.split("\n| bug | in |")[0].rstrip("\n") + "\n\n" + head + "\n".join(rows) + "\n"
open(p, "w").write(s)
