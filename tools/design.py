"""Assembles DESIGN.md from design_head.md, design_tail.md and the planted bugs' meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
MISSED = {}
path = os.path.join(HERE, "missed.json")
if os.path.exists(path):
    MISSED = json.load(open(path))

text = open(os.path.join(HERE, "design_head.md")).read() + open(os.path.join(HERE, "design_tail.md")).read()
text += """## Planted bugs and the checks that catch them

Each was written from a property's text and the code, passes the repository's tests, and has a demonstration
(`seeded/<id>/`).  "caught by" is the property whose quick check exits 1 with a replayed counterexample.

| id | caught by | breaks | needs |
|---|---|---|---|
"""
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    name = os.path.basename(d)
    caught = MISSED.get(name, m["property"])
    text += f"| {name} | {caught} | {m['what_it_breaks'].replace('|', '/')} | {m['needs'].replace('|', '/')} |\n"
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
