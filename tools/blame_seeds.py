"""For every seeded change: are the lines it removes lines of the original repository (not of our own commits)?"""
import subprocess, sys, re, glob, os
repo = "/repo"
base = subprocess.run(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
for p in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/../seeded/*/patch.diff")):
    sid = p.split("/")[-2]
    if sys.argv[1:] and sid not in sys.argv[1:]:
        continue
    own = orig = 0
    f = n = None
    for l in open(p):
        if l.startswith("--- "):
            f = l[4:].strip().removeprefix("a/")
            continue
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1))
            if f not in globals().setdefault("C", {}):
                C[f] = subprocess.run(["git", "-C", repo, "blame", "-s", "--abbrev=12", f], capture_output=True, text=True).stdout.split("\n")
            continue
        if n is None or l.startswith(("+", "\\", "diff", "index")):
            continue
        if l.startswith("-"):
            if C[f][n - 1].startswith("^"):
                orig += 1
            else:
                own += 1
        n += 1
    if own:
        print(sid, "own", own, "orig", orig)
