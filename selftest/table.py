"""table.py: writes the table of planted bugs (from matrix.json) at the end of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
m = json.load(open(os.path.join(here, "matrix.json")))
p = os.path.join(here, "..", "DESIGN.md")
s = open(p).read()
i = s.find("MATRIX\n")
i = s.find("| planted bug |") if i < 0 else i
rows = []
for k, (prop, res) in sorted(m.items(), key=lambda x: (x[1][0], x[0])):
    j = json.load(open(os.path.join(here, "..", "seeded", k, "meta.json")))
    rows.append(f"| {k} | {prop} | {res} | {j['what_it_breaks']} |")
open(p, "w").write(s[:i] + "| planted bug | property | its check | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
