"""Rewrites section 5 of DESIGN.md from /verif/seeded/*/meta.json (a tool for the author; no check reads seeded/)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    rows.append((m["property"], b, m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"] + " (quick)")))
rows.sort()
d = open(V + "/DESIGN.md").read()
head = d.split("## 5. Planted bugs")[0]
t = """## 5. Planted bugs and which checks catch them

Written from the texts of the properties; each one builds, passes the tests, and has a demonstration. Table generated by `tools/mktable.py`. The bugs marked * were missed
at first and the check was strengthened by a new class of values or histories (never by the bug's own input).

| bug | property | needs | breaks | caught by |
|---|---|---|---|---|
"""
STAR = {"radius_tolerance", "sum_skip_small", "fit_rcond", "crop_float32", "save_name_rounding", "close_order"}
extra = V + "/tools/missed_first.txt"
if os.path.exists(extra):
    STAR |= set(open(extra).read().split())
for p, b, n, w, c in rows:
    t += f"| {b}{' *' if b in STAR else ''} | {p} | {n} | {w} | {c} |\n"
open(V + "/DESIGN.md", "w").write(head + t)
