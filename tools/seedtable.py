"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seed_results.txt."""
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
res = {}
for l in open("tools/seed_results.txt"):
    i, p, r = l.strip().split(" ", 2)
    res[i] = (p, r)
rows = ["| planted bug | property | needs | its check |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    r = res.get(d, (m["property"], "not run"))[1]
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {r} |")
s = open("DESIGN.md").read()
mark = "<!-- table -->"
s = s.split(mark)[0].rstrip("\n") + "\n\n" + mark + "\n" + "\n".join(rows) + "\n"
open("DESIGN.md", "w").write(s)
