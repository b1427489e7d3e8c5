"""Rewrites the table of seeded bugs at the end of DESIGN.md (run from /verif)."""
import json, os, re
rows = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["property"], " ".join(str(m["needs"]).split()).replace("|", "/")))
s = open("DESIGN.md").read()
i = s.index("SEEDED_TABLE") if "SEEDED_TABLE" in s else s.index("| seeded bug |")
s = s[:i] + "| seeded bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open("DESIGN.md", "w").write(s)
