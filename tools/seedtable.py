#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | caught by | what it breaks | what it needs to show |", "|---|---|---|---|"]
n = 0
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    n += 1
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]),
                                          m["what_it_breaks"], m["needs"]))
d = V + "/DESIGN.md"
s = open(d).read()
t = "<!-- seed table -->\n" + "\n".join(rows) + "\n<!-- end of seed table -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", t)
else:
    s = re.sub(r"<!-- seed table -->.*<!-- end of seed table -->", lambda _: t, s, flags=re.S)
open(d, "w").write(s)
print(n, "planted changes")
