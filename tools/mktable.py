#!/usr/bin/env python3
"""Rewrites the table of bounds and costs in DESIGN.md and the list of planted bugs (between markers) from evidence/ of a quick run."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| property | title | TLC models (distinct states) | behaviours from TLC | episodes | recorded calls | s |", "|---|---|---|---|---|---|---|"]
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(R, "evidence", p["id"] + ".json")
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e["coverage"]
    ms = ", ".join("%s %d" % (k[:-4], v["distinct"]) for k, v in sorted(c.get("models", {}).items()) if "behaviours" not in v)
    rows.append("| %s | %s | %s | %s | %d | %d | %d |" % (p["id"], p["title"], ms, c.get("behaviours_generated_by_tlc", "") or "",
                c.get("traces_validated_against_impl", 0), c.get("events", 0), round(e["wall_s"])))
D = os.path.join(R, "DESIGN.md")
s = open(D).read()
s = re.sub(r"(<!-- TABLE -->\n).*?(<!-- END -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
L = []
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    L.append("- `%s` (%s): %s" % (d, m["property"], m["what_it_breaks"].split(". ")[0][:200]))
s = re.sub(r"(<!-- SEEDS -->\n).*?(<!-- SEEDSEND -->)", lambda m: m.group(1) + "\n".join(L) + "\n" + m.group(2), s, flags=re.S)
open(D, "w").write(s)
