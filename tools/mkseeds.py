"""Write the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (`caught` is checked by hand with vcheck)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
MISSED = {l.split()[0] for l in open(root + "/tools/missed.txt")} if os.path.exists(root + "/tools/missed.txt") else set()
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    rows.append((m["property"], d, m["what_it_breaks"], "missed" if d in MISSED else m["property"]))
rows.sort()
p = root + "/DESIGN.md"
s = open(p).read()
i = s.index("## Planted bugs") if "## Planted bugs" in s else s.index("@@SEEDS@@")
s = s[:i].rstrip() + """

## Planted bugs

Each is in `seeded/`, was confirmed in a scratch copy (builds, the existing tests pass, the demonstration fails with it only), and is caught by the check
named in the last column unless it says otherwise.

| property | seed | what it breaks | caught by |
|---|---|---|---|
""" + "".join("| %s | %s | %s | %s |\n" % (a, b, w.replace("|", "\\|"), c) for a, b, w, c in rows)
open(p, "w").write(s)
