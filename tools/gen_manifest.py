"""Writes MANIFEST.json: one check per property that has a module in vf/props."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
mods = {m.group(1).upper(): f for f in os.listdir(os.path.join(ROOT, "vf", "props"))
        if (m := re.match(r"(c\d\d)_.*\.py$", f))}
notes = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in mods:
        t, n = notes.get(i, ["property-based testing (hypothesis) against a reference model",
                             "Generated-input search; shows no counterexample among the generated cases, not absence."])
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash run.sh --setup", checks=checks, not_applicable=na,
               notes="Every check imports /repo/scikit-topt from source; no hooks are needed in /repo."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
