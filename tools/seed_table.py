"""Rewrite the table of DESIGN section 6 from seeded/*/meta.json; notes on earlier misses are kept."""
import json, re, glob, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "DESIGN.md")
root = os.path.dirname(p)
s = open(p).read()
old = dict(re.findall(r"^\| (c\d\d-\S+) \| .* \| ([^|]*) \|$", s, re.M))
notes = {}
f = os.path.join(root, "tools", "seed_notes.json")
if os.path.exists(f):
    notes = json.load(open(f))
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    c = notes.get(i) or old.get(i) or d["property"]
    rows.append(f"| {i} | {d['needs']} | {c} |")
a = s.index("| change | needs | caught by |")
e = s.find("\n\n", a)
tail = s[e:] if e > 0 else "\n"
open(p, "w").write(s[:a] + "| change | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + tail)
print(len(rows))
