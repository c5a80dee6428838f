"""Fills the table of planted changes in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
p = V + "/DESIGN.md"
s = open(p).read()
s = s.split("SEED_TABLE")[0].split("\n| change |")[0].rstrip() + "\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
