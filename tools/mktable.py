"""Writes the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in os.listdir(V + "/seeded"):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append((m["property"], i, m["needs"]))
rows.sort()
t = "| caught by | planted bug | shows only with |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows)
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n%s<!-- /seeds -->" % t, s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "planted bugs")
