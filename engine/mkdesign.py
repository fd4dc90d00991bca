"""fills the table of planted bugs in DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | check | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"] + (" (missed)" if m.get("missed") else ""), m["needs"]))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"(?s)(see `meta.json` for what each needs\)\.\n\n).*", lambda m: m.group(1) + "\n".join(rows) + "\n", t)
open(V + "/DESIGN.md", "w").write(t)
