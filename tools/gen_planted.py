"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"]))
out = ["| Caught by | Planted bug | Needs |", "|---|---|---|"]
for p in sorted(rows):
    for n, needs in rows[p]:
        out.append(f"| {p} | {n} | {needs.replace('|', '/')} |")
p = here + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted:begin -->", "<!-- planted:end -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
