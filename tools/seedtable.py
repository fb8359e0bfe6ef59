"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()          # none
rows = ["| planted bug | check that reports it | needs |", "|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    rows.append("| %s | %s | %s |" % (d, "none" if d in MISSED else m["property"], m["needs"].replace("|", "\\|").replace("\n", " ")))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
