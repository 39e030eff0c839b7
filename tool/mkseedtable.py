"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (d.split("/")[-2], m["needs"], m["property"]))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"\| seed \| needs \| caught by \|\n\|---\|---\|---\|\n(\|.*\n)*", lambda _: "| seed | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n", s)
open(V + "/DESIGN.md", "w").write(s)
