"""Append the table of planted bugs (from /verif/seeded and /tmp/catch results) to DESIGN.md."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")
res = {}
store = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(store):
    res = json.load(open(store))
for f in sys.argv[1:]:
    for line in open(f):
        m = re.match(r"(\S+): (.*)", line)
        if m and os.path.isdir(os.path.join(S, m[1])):
            res[m[1]] = sorted(set(re.findall(r"(C\d\d):CAUGHT", m[2])))
json.dump(res, open(store, "w"), indent=1, sort_keys=True)
d = open(os.path.join(HERE, "DESIGN.md")).read().split("## Planted bugs")[0]
d += "## Planted bugs\n\nEach compiles, passes the stable tests and has a demonstration.\n\n| id | needs | caught by |\n|---|---|---|\n"
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    d += f"| {i} | {m['needs']} | {', '.join(res.get(i, [])) or 'not caught'} |\n"
open(os.path.join(HERE, "DESIGN.md"), "w").write(d)
