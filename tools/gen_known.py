"""Writes known_findings.json from the table below (hashes looked up by commit subject in /repo)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(l.split(" ", 1)[::-1] for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
FIXED = [json.loads(l) for l in open(os.path.join(ROOT, "tools", "fixed.jsonl"))]
OPEN = [json.loads(l) for l in open(os.path.join(ROOT, "tools", "open_findings.jsonl"))]
out = []
for f in FIXED:
    h = log[f["subject"]]
    for p in f["properties"]:
        out.append(dict(property=p, status="fixed", commit=h, what=f"fixed: property={p} {h} {f['what']}"))
out += [dict(status="open", **f) for f in OPEN]
json.dump({"findings": out}, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
print(len(out))
