"""C19: running in pieces equals running at once; runs stop when they should."""
import hashlib
import os

import meshio
import numpy as np
from hypothesis import strategies as st

from .. import gen, runs
from ..core import Discard, Facet, check, close, scratch

B = st.booleans()
oc_extra = dict(scaling_rate_min=gen.num(0.1, 0.95, 0.7, 0.4), scaling_rate_max=gen.num(1.05, 3.0, 1.3), rho_max=gen.num(0.75, 1.0, 1.0, 1.0))
lm_extra = dict(rho_max=gen.num(0.75, 1.0, 1.0, 1.0), mu_p=gen.num(0.5, 80.0, 5.0, 40.0), dual_update=st.sampled_from(["ema", "augmented"]), center_objective=B,
                normalize_volume_chain=B, filter_lagrangian=B, center_lagrangian=B)
mesh_s = gen.one_of(gen.mesh_s(kinds=("hex",), minn=3, maxn=3, maxel=27), gen.mesh_s(kinds=("hex",), minn=2, maxn=4, maxel=24), gen.mesh_s(kinds=("tet",), minn=1, maxn=2, maxel=24))


def edge(c, e):
    """Designs driven to their bounds within a few iterations."""
    if e is None:
        return c
    x = dict(scaling_rate_min=0.01, scaling_rate_max=8.0) if c["opt"] == "oc" else dict(mu_p=60.0)
    return dict(c, rho_min=e[0], vol_frac=["const", e[1]], move_limit=["const", 0.95], eta=["const", 1.0], extra=dict(c["extra"], **x))


edge_s = gen.one_of(*[st.none()] * 5, st.tuples(gen.lognum(1e-6, 0.05), gen.num(0.03, 0.9)).map(list))


def cfg_s(opt, iters=(2, 7), **kw):
    return st.builds(edge, runs.cfg_s(opt=(opt,), iters=iters, extra=st.fixed_dictionaries(oc_extra if opt == "oc" else lm_extra), **kw), edge_s)


any_cfg = st.sampled_from(["oc", "logmoc"]).flatmap(cfg_s)
smooth_cfg = st.sampled_from(["oc", "logmoc"]).flatmap(lambda o: cfg_s(
    o, (3, 9), p=runs.sched_s(1.0, 3.0, ("const",)), vol_frac=runs.sched_s(0.3, 0.7, ("const",)),
    beta=runs.sched_s(0.1, 3.0, ("const",)), neumann_scale=st.just(["one"])))
problem_s = runs.problem_s(mesh=mesh_s)

tiny_s = runs.problem_s(mesh=runs.tiny_mesh)


def mk_pieces_s(problem_s, any_cfg, most=4):
    return st.fixed_dictionaries(dict(pr=problem_s, cfg=any_cfg, pieces=st.lists(st.integers(0, most), min_size=1, max_size=5),
                                      other=gen.one_of(st.none(), st.fixed_dictionaries(dict(pr=problem_s, cfg=any_cfg))),
                                      same_task=B, after=st.lists(st.sampled_from(["optimize", 1, 3, 0, -2]), max_size=3)))


def mk_conv_s(problem_s, smooth_cfg, most=4):
    return st.fixed_dictionaries(dict(pr=problem_s, cfg=smooth_cfg, pieces=st.lists(st.integers(1, most), max_size=4),
                                    q_rho=st.sampled_from([0.3, 0.1, 0.5, 0.7, 2.0, 0.0]), q_kkt=st.sampled_from([0.5, 0.3, 0.7, 2.0, 2.0, 0.0]),
                                    # sensitivities of erratic size: change and residual rise and fall independently
                                    shake=gen.one_of(st.none(), st.fixed_dictionaries(dict(seed=st.integers(0, 500), rho=st.sampled_from(["keep", "rand"]),
                                                                                          flip=B))),
                                    aim=st.sampled_from(["none", "residual", "change"]), pick=st.integers(0, 50),
                                    after=st.lists(st.sampled_from(["optimize", 1, 3]), max_size=3)))


pieces_s = mk_pieces_s(problem_s, any_cfg)
conv_s = mk_conv_s(problem_s, smooth_cfg)
long_s = mk_pieces_s(tiny_s, runs.long_s(any_cfg, (11, 40)), 18)
long_conv_s = mk_conv_s(tiny_s, runs.long_s(smooth_cfg, (11, 40)), 18)


def shake(o, spec):
    if spec is None:
        return o
    lo, hi = o.cfg.rho_min, o.cfg.rho_max

    def pre(it, d):
        r = np.random.RandomState((spec["seed"] * 1013 + it * 7) % (2 ** 31))
        n = len(d["rho_design_eles"])
        g = -(10.0 ** r.uniform(-3, 3)) * 10.0 ** (-2 * r.rand(n))
        if spec["flip"] and r.rand() < 0.3:
            g[r.rand(n) < 0.2] *= -1
        d["dC_drho_design_eles"][:] = g
        if spec["rho"] == "rand":
            c, w = lo + (hi - lo) * r.rand(), r.choice([0.02, 0.2, 1.0])
            d["rho_design_eles"][:] = np.clip(c + w * (hi - lo) * (r.rand(n) - 0.5), lo, hi)
    o.vf_pre = pre
    return o


def start(pr, cc, t=None, **over):
    if t is None:
        t = runs.make_problem(pr, cc["design_dirichlet"])[1]
    return runs.make_optimizer(cc, t, scratch("run"), **over), t


def checkpoints(o):
    """iteration -> (design densities, projected density, energy) of the run's folder."""
    d, out = o.cfg.dst_path, {}
    for f in sorted(os.listdir(os.path.join(d, "data"))):
        if f.endswith("-rho.npz"):
            it = int(f.split("-")[0])
            with np.load(os.path.join(d, "data", f)) as z:
                rho = np.array(z["rho_design_elements"])
            m = meshio.read(os.path.join(d, "mesh_rho", f"info_mesh-{it:08d}.vtu"))
            out[it] = (rho, np.concatenate(m.cell_data["rho_projected"]), np.concatenate(m.cell_data["energy"]))
    return out


def tree(o):
    out = {}
    for r, _, fs in os.walk(o.cfg.dst_path):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, o.cfg.dst_path)] = hashlib.sha1(h.read()).hexdigest()
    return out


def same(a, z, what, upto=None, tol=1e-9):
    """Run z repeats run a (its first upto iterations)."""
    n = len(a.vf_steps) if upto is None else upto
    check([s.iter for s in z.vf_steps] == [s.iter for s in a.vf_steps][:n], f"{what}: iterations performed",
          got=[s.iter for s in z.vf_steps], want=[s.iter for s in a.vf_steps][:n])
    for s, r in zip(a.vf_steps, z.vf_steps):
        close(r.rho1, s.rho1, f"{what}: densities differ", rtol=tol, iteration=s.iter)
        close(r.proj, s.proj, f"{what}: projected densities differ", rtol=tol, iteration=s.iter)
    check(sorted(a.recorder.histories) == sorted(z.recorder.histories), f"{what}: recorded histories")
    for k in a.recorder.histories:
        h, g = runs.history(a, k)[:n], runs.history(z, k)
        check(len(g) == n, f"{what}: number of records", history=k, got=len(g), want=n)
        ok = np.isfinite(np.array(h, float))
        close(np.where(ok, np.array(g, float), 0), np.where(ok, np.array(h, float), 0), f"{what}: history differs", rtol=1e-8, history=k)


def same_checkpoints(a, z, what, last):
    ca, cz = checkpoints(a), checkpoints(z)
    check(last in cz, f"{what}: the last iteration has no checkpoint", got=sorted(cz), want=last)
    for it in sorted(set(ca) & set(cz)):
        for u, v, nm in zip(ca[it], cz[it], ("design", "projected density", "energy")):
            close(v, u, f"{what}: checkpointed {nm} differs", rtol=1e-8, iteration=it)
    return ca, cz


def after_calls(z, calls, what):
    n = len(z.vf_steps)
    H = {k: runs.history(z, k) for k in z.recorder.histories}
    T = tree(z)
    for c in calls:
        runs.run(z, None if c == "optimize" else c)
    check(len(z.vf_steps) == n, f"{what}: a call after completion performed iterations", got=len(z.vf_steps), want=n)
    for k in H:
        check(np.array_equal(H[k], runs.history(z, k), equal_nan=True), f"{what}: a call after completion changed a history", history=k)
    T2 = tree(z)
    diff = sorted(k for k in set(T) | set(T2) if T.get(k) != T2.get(k) and not k.endswith((".jpg", ".png")))
    check(not diff, f"{what}: a call after completion changed files", files=diff)


def run_pieces(c):
    pr, cc = c["pr"], c["cfg"]
    a, t = start(pr, cc)
    runs.run(a)
    N = cc["max_iters"]
    check(len(a.vf_steps) == N, "iterations of a full run", got=len(a.vf_steps), want=N)
    z, _ = start(pr, cc, t if c["same_task"] else None)
    w = None
    if c["other"] is not None:
        try:
            w, _ = start(c["other"]["pr"], c["other"]["cfg"])
        except Discard:
            w = None
    done = 0
    for k in c["pieces"]:
        runs.run(z, k)
        done = min(N, done + max(k, 0))
        got = len(z.vf_steps or [])
        check(got == done, "iterations after a partial run", got=got, want=done, pieces=c["pieces"])
        if w is not None:
            runs.run(w, 1)
    runs.run(z)
    if w is not None:
        runs.run(w)
        w2, _ = start(c["other"]["pr"], c["other"]["cfg"])
        runs.run(w2)
        same(w2, w, "an interleaved run of another problem")
    same(a, z, "a run in pieces")
    ca, cz = same_checkpoints(a, z, "a run in pieces", N)
    check(set(ca) <= set(cz), "checkpoints of the full run missing in the run in pieces", full=sorted(ca), pieces=sorted(cz))
    for o in (a, z):
        check(os.path.exists(os.path.join(o.cfg.dst_path, "histories.npz")), "histories are not exported at the end")
    after_calls(z, c["after"], "completed run")
    r, _ = start(pr, cc, t if c["same_task"] else None)
    runs.run(r)
    same(a, r, "a repeated run")
    eff = [k for k in c["pieces"] if k > 0]
    return dict(nontrivial=N > 2 and bool(eff) and eff[0] < N and max(runs.history(a, "rho_change_max")) > 1e-6,
                tags=[pr["kind"], cc["opt"], cc["filter_type"], "interleaved" if w is not None else "alone",
                      "same task" if c["same_task"] else "new task", "calls after" if c["after"] else "no calls after"])


def kkt_of(o, cc, t, s, k):
    """Documented OC residual: largest |dC/drho + lambda dV/drho| over interior elements."""
    cfg = o.cfg
    des = t.design_elements
    vol = np.asarray(t.elements_volume, float)[des]
    wv = vol / vol.sum()
    rec = np.array(o.recorder.histories["-dC"].data[k], float)[:3]
    stats = np.array([(-s.dC).min(), (-s.dC).mean(), (-s.dC).max()])
    i = int(np.argmax(np.abs(stats)))
    if rec[i] == 0:
        return None
    sc = stats[i] / rec[i]
    lam = runs.history(o, "lmid")[k]
    inside = (s.rho1 > cfg.rho_min + 2e-6) & (s.rho1 < cfg.rho_max - 2e-6)
    near = (s.rho1 > cfg.rho_min) & (s.rho1 < cfg.rho_max) & ~inside
    if near.any():
        return None
    g = np.abs(s.dC + lam * sc * wv)
    return float(g[inside].max()) if inside.any() else 0.0


def run_conv(c):
    pr, cc = c["pr"], c["cfg"]
    a, t = start(pr, cc)
    runs.run(shake(a, c["shake"]))
    N = cc["max_iters"]
    ch = runs.history(a, "rho_change_max")
    kk = runs.history(a, "kkt_residual")
    if cc["opt"] == "oc":
        for k, s in enumerate(a.vf_steps):
            want = kkt_of(a, cc, t, s, k)
            if want is not None:
                check(abs(kk[k] - want) <= 1e-6 * max(want, float(np.abs(s.dC).max()), 1e-300), "optimality residual", got=kk[k], want=want, iteration=s.iter)

    def distinct(v):
        v = sorted(x for x in v if np.isfinite(x))
        d = v[:1]                                    # values that differ clearly
        for x in v:
            if x > d[-1] * (1 + 1e-5) + 1e-12:
                d.append(x)
        return d

    def tol(v, q):
        d = v = distinct(v)
        if q == 0.0 or not v:
            return 0.0
        if q > 1:
            return 2 * v[-1] + 1e-6
        i = min(int(q * len(d)), len(d) - 1)
        return 0.5 * (d[i] + d[i + 1]) if i + 1 < len(d) else 1.5 * v[-1] + 1e-6
    tr, tk = tol(ch, c["q_rho"]), tol(kk, c["q_kkt"])
    if c["aim"] != "none":
        # tolerances between recorded values for which one condition holds, fails again and meets the other one only then
        def mids(v):
            return [0.5 * (x + y) for x, y in zip(v, v[1:])]
        good = []
        for a_ in mids(distinct(ch)):
            for b_ in mids(distinct(kk)):
                A, K = [x < a_ for x in ch], [abs(x) < b_ or not np.isfinite(x) for x in kk]
                end = next((i for i in range(N) if A[i] and K[i]), N)
                one, two = (K, A) if c["aim"] == "residual" else (A, K)
                if any(two[j] and any(one[:j]) for j in range(end)):
                    good.append((end == N, a_, b_))
        if good:
            good = [g for g in good if not g[0]] or good
            tr, tk = good[c["pick"] % len(good)][1:]
    if any(abs(x - tr) <= 1e-9 * max(abs(x), 1e-9) for x in ch if tr) or any(abs(x - tk) <= 1e-7 * max(abs(x), 1e-12) for x in kk if tk):
        raise Discard()
    hit = [i + 1 for i in range(N) if ch[i] < tr and (abs(kk[i]) < tk or not np.isfinite(kk[i]))]
    stop = hit[0] if hit else N
    z, _ = start(pr, cc, check_convergence=True, tol_rho_change=tr, tol_kkt_residual=tk)
    shake(z, c["shake"])
    for k in c["pieces"]:
        runs.run(z, k)
        check(len(z.vf_steps) <= stop, "run continues after convergence", got=len(z.vf_steps), want=stop)
    runs.run(z)
    check(len(z.vf_steps) == stop, "iteration at which the run stops", got=len(z.vf_steps), want=stop, change=ch, residual=kk, tol=(tr, tk))
    same(a, z, "a run with convergence checking", upto=stop)
    same_checkpoints(a, z, "a run with convergence checking", stop)
    check(os.path.exists(os.path.join(z.cfg.dst_path, "histories.npz")), "histories are not exported after convergence")
    after_calls(z, c["after"], "converged run")
    early = stop < N
    cond = "both needed" if any((ch[i] < tr) != (kk[i] < tk) for i in range(stop)) else "one decides"
    return dict(nontrivial=early and stop > 1, tags=[pr["kind"], cc["opt"], "stops early" if early else "runs to the budget", cond,
                                                 "erratic" if c["shake"] else "natural", *(["relapse"] if any(
                                                     kk[i] < tk and not kk[j] < tk for j in range(stop) for i in range(j)) else [])])


FACETS = [
    Facet("pieces", pieces_s, run_pieces, "more than two iterations split into several parts with changing densities", quick=90, thorough=3000, qsec=60,
          tsec=800, shards=4, tshards=8),
    Facet("convergence", conv_s, run_conv, "stops before the budget and after the first iteration", quick=110, thorough=4000, qsec=60, tsec=800,
          shards=4, tshards=8),
    Facet("long-pieces", long_s, run_pieces, "more than two iterations split into several parts with changing densities", quick=16, thorough=400, qsec=60,
          tsec=700, shards=2, tshards=6),
    Facet("long-convergence", long_conv_s, run_conv, "stops before the budget and after the first iteration", quick=20, thorough=400, qsec=60, tsec=700,
          shards=2, tshards=6),
]
ASSUMPTIONS = ["values of repeated runs are compared to 1e-9 relative (thread scheduling may change the last bits)"]
