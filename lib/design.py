"""Puts the table of planted bugs into DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], d["needs"].replace("|", "/"), d.get("caught_by", d["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index("| Bug | Needs | Caught by |\n|---|---|---|\n") + len("| Bug | Needs | Caught by |\n|---|---|---|\n")
j = s.index("\nBesides, many")
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
