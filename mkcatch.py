"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
B, E = "<!-- planted -->\n", "<!-- /planted -->\n"
rows = []
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |\n" % (os.path.basename(d), m["property"], m["needs"]))
s = open("DESIGN.md").read()
t = B + "| change | caught by the quick check of | needs |\n|---|---|---|\n" + "".join(rows) + E
s = s[: s.index(B)] + t + s[s.index(E) + len(E):]
open("DESIGN.md", "w").write(s)
