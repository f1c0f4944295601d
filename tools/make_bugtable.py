"""Writes the table of planted bugs (seeded/*/meta.json) for DESIGN.md."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
d = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    d.setdefault(m["property"], []).append((f.split("/")[1], m["needs"]))
print("## Planted bugs\n\nEvery change below builds, passes the 257 tests, and is caught by the quick check of its property (seed 1). "
      "Missed at first, caught after strengthening: see the list below the table.\n\n| check | changes it catches (what each needs to show) |\n|---|---|")
for p in sorted(d):
    print("| %s | %s |" % (p, "; ".join("`%s` (%s)" % (a.split("-", 1)[1], b.replace("|", "/")) for a, b in d[p])))
