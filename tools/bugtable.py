"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ADDED = {
 "rare-observation": "P01's models with one rare transition and large rewards", "reward-skip-rare": "P05's tiny probabilities with large rewards",
 "long-names-prefix": "P05's long names", "long-line": "P13's long lines", "sort-epsilon": "P12's vectors 1e-10 apart",
 "third-interrupt": "P22's repeated signals", "zlz-impossible-obs": "P19's impossible observations",
 "assoc-full-replace": "P21's associative arrays",
 "two-accumulators": "P10's larger generic models", "region-value-cap": "P20's region questions of larger scale", "worst-value-finite": "P09's rewards scaled over six orders",


}
rows = ["| bug | property | needs | strengthened by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " "), ADDED.get(d, "")))
s = open(V + "/DESIGN.md").read()
k = s.index("## Planted bugs")
open(V + "/DESIGN.md", "w").write(s[:k] + """## Planted bugs

`tools/mk.py` confirms each (applies, builds, tests pass, demo passes without and fails with it) and runs its property's quick
check, which catches it. The last column names what the check gained around that bug, where it gained something.
(`tools/bugtable.py` writes this table.)

""" + "\n".join(rows) + "\n")
