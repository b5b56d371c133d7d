"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(TOP, "seeded")
rows = sorted((json.load(open(os.path.join(H, d, "meta.json")))["property"], d, json.load(open(os.path.join(H, d, "meta.json")))["needs"]) for d in os.listdir(H))
path = os.path.join(TOP, "DESIGN.md")
lines = open(path).read().split("\n")
at = lines.index("| planted bug | caught by | needs |") + 2
end = at
while end < len(lines) and (lines[end].startswith("|") or lines[end] == "TABLE"):
    end += 1
lines[at:end] = ["| %s | %s | %s |" % (d, p, n) for p, d, n in rows]
open(path, "w").write("\n".join(lines))
