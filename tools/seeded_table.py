"""Rewrite the table of planted changes in DESIGN.md from their descriptions."""
import glob
import json
import os

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| change | breaks | how | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s Needs: %s | %s |" % (f.split(os.sep)[-2], m["property"], m["what_it_breaks"].rstrip(".") + ".", m["needs"].rstrip(".") + ".", m["property"]))
path = os.path.join(here, "DESIGN.md")
s = open(path).read()
head = "## Seeded changes\n"
if head not in s:
    s = s.rstrip("\n") + "\n\n" + head + "\n<!-- table -->\n<!-- end -->\n"
a, b = s.index("<!-- table -->"), s.index("<!-- end -->")
open(path, "w").write(s[:a] + "<!-- table -->\nEach passes the existing tests and is caught by the check named (quick tier, seed 1).\n\n" + "\n".join(rows) + "\n" + s[b:])
