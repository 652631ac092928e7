"""check runner:  python -m vf.main C01 [quick|thorough]      decide one property
                  python -m vf.main --replay FILE             re-run one recorded case
                  python -m vf.main --worker ...              (internal)
Exit status: 0 held, 1 violated (prints VIOLATION ...), 2 the check itself failed.
"""
import argparse
import importlib
import json
import os
import pkgutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import boot


def load(prop):
    from . import props
    for m in pkgutil.iter_modules(props.__path__):
        if m.name.upper().startswith(prop.upper() + "_") or m.name.upper() == prop.upper():
            return importlib.import_module("vf.props." + m.name)
    raise SystemExit(f"no check for {prop}")


def known_findings(prop):
    p = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def seed_of():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


# how many times a facet's quick count is searched (checks made of whole runs are the expensive ones)
MORE = dict(C11=1.5, C15=1.5, C16=1.25, C17=1.5, C18=1.25, C19=1.25, C20=1.25, C26=1.5, C27=1.5)


def worker(a):
    boot.setup()
    from . import core
    mod = load(a.prop)
    facet = next(f for f in mod.FACETS if f.name == a.facet)
    if a.case:
        with open(a.case) as f:
            case = json.load(f)
        with core.Quiet():
            verdict, info = core.evaluate(facet, case)
        res = dict(verdict=verdict, info=info if verdict == "violation" else None)
    else:
        n, sec = (round(facet.quick * MORE.get(a.prop, 2.5)), facet.qsec) if a.tier == "quick" else (facet.thorough, facet.tsec)
        shards = facet.shards if a.tier == "quick" else facet.tshards
        known = [k["case"] for k in known_findings(a.prop) if k.get("facet") == a.facet and "case" in k]
        import zlib
        s = (seed_of() * 1000003 + a.shard * 7919 + zlib.crc32(f"{a.prop}/{a.facet}".encode())) % (2 ** 31)
        with core.Quiet():
            res = core.search(facet, s, max(1, n // shards), sec, known)
    with open(a.out, "w") as f:
        json.dump(res, f)
    return 0


def run_jobs(jobs, limit, hard_s):
    """jobs: list of (key, argv, outfile). Returns {key: (rc, stderr_tail)}."""
    pend, live, done = list(jobs), [], {}
    t_end = time.time() + hard_s
    while pend or live:
        while pend and len(live) < limit:
            key, argv, out = pend.pop(0)
            err = open(out + ".err", "w+")
            live.append((key, subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=err, cwd=boot.VERIF,
                                               start_new_session=True), err))
        time.sleep(0.05)
        for item in list(live):
            key, pr, err = item
            rc = pr.poll()
            if rc is None and time.time() > t_end:
                try:
                    os.killpg(pr.pid, 9)
                except ProcessLookupError:
                    pass
                pr.wait()
                rc = -999
            if rc is not None:
                err.seek(0)
                done[key] = (rc, err.read()[-3000:])
                err.close()
                live.remove(item)
    return done


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("tier", nargs="?", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--facet")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--only", help="comma separated facets (development)")
    a = ap.parse_args()
    if a.setup:
        boot.setup()
        import hypothesis
        print("ready: hypothesis", hypothesis.__version__)
        return 0
    if a.worker:
        return worker(a)
    tmp = tempfile.mkdtemp(prefix="vf_run_")
    try:
        if a.replay:
            return replay(a.replay, tmp)
        return decide(a, tmp)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def _argv(prop, facet, out, tier="quick", shard=0, case=None):
    v = [sys.executable, "-m", "vf.main", prop, tier, "--worker", "--facet", facet, "--shard", str(shard),
         "--out", out]
    return v + (["--case", case] if case else [])


def replay(path, tmp):
    with open(path) as f:
        r = json.load(f)
    cf, out = os.path.join(tmp, "case.json"), os.path.join(tmp, "out.json")
    with open(cf, "w") as f:
        json.dump(r["case"], f)
    rc, err = run_jobs([("x", _argv(r["property"], r["facet"], out, case=cf), out)], 1, 600)["x"]
    if rc != 0:
        print(f"replay failed to run: rc={rc}\n{err}")
        return 2
    with open(out) as f:
        res = json.load(f)
    if res["verdict"] == "violation":
        print(f"{r['property']}/{r['facet']}: {res['info']}")
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print(f"{r['property']}/{r['facet']}: {res['verdict']}")
    return 0


def decide(a, tmp):
    t0 = time.time()
    prop = a.prop.upper()
    # facets are listed in a worker-free way: importing the module needs the code under test
    try:
        boot.setup()
        mod = load(prop)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print(f"{prop}: the check could not be set up")
        return 2
    facets = [f for f in mod.FACETS if not a.only or f.name in a.only.split(",")]
    jobs = []
    for f in facets:
        for s in range(f.shards if a.tier == "quick" else f.tshards):
            out = os.path.join(tmp, f"{f.name}-{s}.json")
            jobs.append(((f.name, s), _argv(prop, f.name, out, a.tier, s), out))
    known = known_findings(prop)
    for i, k in enumerate(known):
        if k.get("status") == "fixed" or "case" not in k:
            continue
        cf, out = os.path.join(tmp, f"known{i}.case"), os.path.join(tmp, f"known{i}.json")
        with open(cf, "w") as f:
            json.dump(k["case"], f)
        jobs.append((("known", i), _argv(prop, k["facet"], out, a.tier, 0, cf), out))
    limit = int(os.environ.get("VF_JOBS", "7"))
    done = run_jobs(jobs, limit, 840 if a.tier == "quick" else 24 * 3600)
    errors, failures, results = [], [], []
    for key, argv, out in jobs:
        rc, err = done[key]
        if rc != 0 or not os.path.exists(out):
            errors.append((key, rc, err))
            continue
        with open(out) as f:
            res = json.load(f)
        if key[0] == "known":
            k = known[key[1]]
            if res["verdict"] == "violation":
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
            continue
        res["_facet"] = key[0]
        results.append(res)
        if res["failure"]:
            failures.append((key[0], res["failure"], res.get("unrepeatable")))
    # a failure counts only when it reproduces in a fresh process
    confirmed, seen = [], set()
    for name, fl, _unrep in failures:
        if name in seen:
            continue
        cf = os.path.join(tmp, f"confirm-{name}.case")
        out = os.path.join(tmp, f"confirm-{name}.json")
        with open(cf, "w") as f:
            json.dump(fl["case"], f)
        key = ("confirm", name)
        rc, err = run_jobs([(key, _argv(prop, name, out, a.tier, 0, cf), out)], 1, 300)[key]
        if rc != 0:
            errors.append((key, rc, err))
            continue
        with open(out) as f:
            res = json.load(f)
        if res["verdict"] == "violation":
            seen.add(name)
            confirmed.append((name, fl["case"], res["info"]))
        else:
            errors.append((key, 0, f"failure did not reproduce in a fresh process: {fl['message']}"))
    keys, samples, evals, disc, per, tags = set(), [], 0, 0, {}, {}
    for r in results:
        evals += r["evaluations"]
        disc += r["discarded"]
        keys |= {r["_facet"] + k for k in r["keys"]}
        p = per.setdefault(r["_facet"], dict(evaluations=0, nontrivial=0, stopped_by=[], wall_s=0.0))
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] += len(r["keys"])
        p["stopped_by"].append(r["stopped"])
        p["wall_s"] = round(p["wall_s"] + r["wall_s"], 2)
        for k, v in r["tags"].items():
            tags[f"{r['_facet']}:{k}"] = tags.get(f"{r['_facet']}:{k}", 0) + v
        for s in r["samples"][:1]:
            if not any(x["facet"] == r["_facet"] for x in samples):
                samples.append({"facet": r["_facet"], "case": s})
    ev = dict(property=prop, tier=a.tier, seed=seed_of(), level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys),
                            rule="; ".join(f"{f.name}: {f.rule}" for f in facets),
                            samples=samples, discarded=disc, per_facet=per, tags=tags),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
              violations=len(confirmed))
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(boot.VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for f in facets:
        if f.name in per:
            p = per[f.name]
            print(f"{prop}/{f.name}: {p['evaluations']} cases, {p['nontrivial']} non-trivial, "
                  f"{p['wall_s']} s ({','.join(sorted(set(p['stopped_by'])))})")
    if confirmed:
        os.makedirs(os.path.join(boot.VERIF, "evidence", "replay"), exist_ok=True)
        for name, case, msg in confirmed:
            path = os.path.join(boot.VERIF, "evidence", "replay", f"{prop}-{name}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, facet=name, case=case, message=msg), f, indent=1)
            print(f"{prop}/{name}: {msg}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for key, rc, err in errors:
            print(f"check error in {key}: rc={rc}\n{err}")
        return 2
    print(f"{prop}: held on {evals} cases ({len(keys)} distinct non-trivial) in {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
