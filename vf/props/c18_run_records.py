"""C18: every run keeps the design admissible and its records truthful."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs
from ..core import Facet, check, close

from sktopt import fea
from sktopt.fea import composer

B = st.booleans()
oc_extra = dict(scaling_rate_min=gen.num(0.2, 0.95, 0.7, 0.4), scaling_rate_max=gen.num(1.05, 3.0, 1.3, 2.0))
lm_extra = dict(mu_p=gen.num(0.5, 80.0, 5.0, 40.0), dual_update=st.sampled_from(["ema", "augmented"]), center_objective=B,
                normalize_volume_chain=B, filter_lagrangian=B, center_lagrangian=B)
common = dict(rho_max=gen.num(0.75, 1.0, 1.0, 1.0, 0.9), sensitivity_filter=B, scaling=st.sampled_from([False, False, True]))


def cfg_s(opt):
    return runs.cfg_s(opt=(opt,), iters=(2, 6), extra=st.fixed_dictionaries({**common, **(oc_extra if opt == "oc" else lm_extra)}))


any_cfg = st.sampled_from(["oc", "logmoc"]).flatmap(cfg_s)


def mk_case_s(pr, cfg):
    return st.fixed_dictionaries(dict(pr=pr, cfg=cfg, split=st.lists(st.integers(1, 3), max_size=2),
                                      size=st.sampled_from([None] * 5 + [1.0, 1.004, 0.996, 1.03, 1e-3, 1e3]),
                                      env=st.sampled_from([None, None, "physical", "default"])))


case_s = mk_case_s(runs.problem_s(), any_cfg)


def stats(x):
    x = np.asarray(x, float)
    return np.array([x.min(), x.mean(), x.max(), x.std()])


def one_of_values(got, want, msg, **kw):
    ok = any((g is None and w is None) or (g is not None and w is not None and abs(float(g) - float(w)) <= 1e-9 * max(1.0, abs(float(w))))
             for g, w in [(got, w) for w in want])
    check(ok, msg, got=got, want=want, **kw)


def resized(c):
    """The problem with a given largest extent (a scaled run divides by it); the filter radius follows."""
    if c.get("size") is None:
        return c["pr"], c["cfg"]
    pr, cc = c["pr"], c["cfg"]
    m = pr["el"]["mesh"]
    k = c["size"] / float(np.ptp(gen.build_mesh(m).mesh.p, axis=1).max())
    s = list(cc["filter_radius"])
    lengths = {"const": (1,), "plain": (1,), "step": (1, 2)}
    if s[0] not in lengths and not 0.05 < k < 20:
        return pr, cc
    for i in lengths.get(s[0], ()):
        s[i] = s[i] * k
    return dict(pr, el=dict(pr["el"], mesh=dict(m, unit=m["unit"] * k))), dict(cc, filter_radius=s)


def run(c):
    pr, cc = resized(c)
    scaling = cc["extra"]["scaling"]
    b, t, des = runs.make_problem(pr, cc["design_dirichlet"])
    t2 = runs.make_problem(pr, cc["design_dirichlet"])[1]        # an untouched twin
    if not cc["design_dirichlet"]:
        t2.exlude_dirichlet_from_design()
    o = runs.make_optimizer(cc, t)
    cfg = o.cfg
    n, N = len(des), cc["max_iters"]
    vol = np.asarray(t2.elements_volume, float)[des]
    wv = vol / vol.sum()
    interp = composer.simp_interpolation if cc["interpolation"] == "SIMP" else composer.ramp_interpolation
    cls = fea.FEM_SimpLinearElasticity if pr["kind"] == "elastic" else fea.FEM_SimpLinearHeatConduction
    fem = cls(t2, cc["E_min_coeff"], density_interpolation=interp)
    tags, rec = set(), []

    def proj_of(x, s):
        full = np.ones(b.ne)
        full[des] = x
        return runs.heaviside(runs.filtered(o, full), s.beta, cfg.beta_eta)

    def hook(s):
        it = s.iter
        sv = {k: runs.sched_values(cc[k], it, N) for k in runs.SCHEDS}
        check(len(s.rho0) == n, "number of designable elements", got=len(s.rho0), want=n)
        for k, g in (("move_limit", s.move), ("eta", s.eta), ("beta", s.beta), ("percentile", s.percentile), ("vol_frac", s.vol_frac)):
            one_of_values(g, sv[k], f"{k} of the update is not the scheduled one", iteration=it)
        L = o.filter.radius if not scaling else o.filter.radius * float(np.ptp(t2.mesh.p, axis=1).max())
        one_of_values(L, sv["filter_radius"], "filter radius is not the scheduled one", iteration=it)
        check(np.isfinite(s.rho1).all(), "a density is not finite", iteration=it)
        check((s.rho1 >= cfg.rho_min - 1e-12).all() and (s.rho1 <= cfg.rho_max + 1e-12).all(), "density outside its bounds", iteration=it,
              got=(s.rho1.min(), s.rho1.max()), want=(cfg.rho_min, cfg.rho_max))
        check((np.abs(s.rho1 - s.rho0) <= max(sv["move_limit"]) + 1e-9).all(), "density changed by more than the scheduled move limit",
              iteration=it, got=float(np.abs(s.rho1 - s.rho0).max()), want=sv["move_limit"])
        close(s.proj, proj_of(s.rho0, s), "evaluated design is not the projected density with solid fixed elements", rtol=1e-9, iteration=it)
        check(s.proj.min() >= -1e-9 and s.proj.max() <= 1 + 1e-9, "evaluated density outside [0, 1]", iteration=it, got=(s.proj.min(), s.proj.max()))
        s.proj1 = proj_of(s.rho1, s) if cc["opt"] == "oc" else None
        rec.append(s)
    o.vf_hook = hook
    before = dict(os.environ)
    var = "SCITOPT_SENSITIVITY_MODE"                 # the one variable the package reads and sets
    try:
        if c["env"]:
            os.environ[var] = c["env"]
        for k in c["split"]:
            runs.run(o, k)
            check(os.environ.get(var) == (c["env"] or before.get(var)), "environment of the process after part of a run", got=os.environ.get(var))
        runs.run(o)
        check(os.environ.get(var) == (c["env"] or before.get(var)), "environment of the process after the run", got=os.environ.get(var))
    finally:
        os.environ.pop(var, None)
        os.environ.update(before)
    check([s.iter for s in rec] == list(range(1, N + 1)), "iterations performed", got=[s.iter for s in rec], want=N)
    r0 = cc["vol_frac"][1]
    close(rec[0].rho0, np.full(n, min(max(r0, cfg.rho_min), cfg.rho_max)), "start density", rtol=1e-12)
    for a, z in zip(rec, rec[1:]):
        check(np.array_equal(a.rho1, z.rho0), "an iteration does not start from the previous result", iteration=z.iter)
    # records
    H = {k: runs.history(o, k) for k in o.recorder.histories}
    for k, v in H.items():
        check(len(v) == N, "every iteration is recorded once", history=k, got=len(v), want=N)
    oname = "compliance" if pr["kind"] == "elastic" else pr["el"]["objective"]
    check(oname in H, "objective history", got=sorted(H), want=oname)
    for k, s in enumerate(rec):
        it = s.iter
        ch = float(np.abs(s.rho1 - s.rho0).max())
        check(abs(H["rho_change_max"][k] - ch) <= 1e-12, "recorded density change", got=H["rho_change_max"][k], want=ch, iteration=it)
        close(H["rho_projected"][k], stats(s.proj[des]), "recorded projected density", rtol=1e-9)
        close(H["scaling_rate"][k], stats(s.scaling), "recorded scaling rate", rtol=1e-9, atol=1e-12)
        one_of_values(H["neumann_scale"][k], runs.sched_values(cc["neumann_scale"], it, N), "recorded load factor", iteration=it)
        d = s.proj if s.proj1 is None else s.proj1
        ve = float(d[des] @ wv) - s.vol_frac
        check(abs(H["vol_error"][k] - ve) <= 1e-9, "recorded volume error", got=H["vol_error"][k], want=ve, iteration=it)
        um = np.abs(s.u).max(axis=0)
        close(H["u_max"][k], um[0] if len(um) == 1 else stats(um), "recorded largest state value", rtol=1e-9)
        check(s.kkt is not None and (H["kkt_residual"][k] == s.kkt or np.isnan(s.kkt)), "recorded optimality residual", got=H["kkt_residual"][k], want=s.kkt)
        if not scaling:
            ps = runs.sched_values(cc["p"], it, N)
            u = np.zeros_like(s.u)
            with gen.hush():
                vals = [float(np.mean(fem.objectives_multi_load(s.proj, p, u, force_scale=H["neumann_scale"][k]))) for p in ps]
            got = H[oname][k]
            ok = [abs(got - v) <= 1e-7 * max(abs(v), 1e-300) for v in vals]
            check(any(ok), "recorded objective is not that of the iteration's design", got=got, want=vals, iteration=it)
            if len(ps) == 1:
                close(s.u, u, "state of the iteration", rtol=1e-6)
                e = np.asarray(fem.energy_multi_load(s.proj, ps[0], u)).mean(axis=1)
                close(H["energy"][k], stats(e), "recorded energy", rtol=1e-6)
    # original units
    close(t.mesh.p, t2.mesh.p, "node coordinates after the run", rtol=1e-12)
    check(np.array_equal(t.mesh.t, t2.mesh.t), "cells after the run")
    close(t.elements_volume, t2.elements_volume, "element volumes after the run", rtol=1e-11)
    close(t.basis.dx, t2.basis.dx, "quadrature of the problem after the run", rtol=1e-11)
    check(t.n_tasks == t2.n_tasks, "number of load cases after the run", got=t.n_tasks, want=t2.n_tasks)
    check(sorted(t.mesh.boundaries or {}) == sorted(t2.mesh.boundaries or {}), "named boundaries after the run")
    if pr["kind"] == "elastic":
        for f, g in zip(t.neumann_linear, t2.neumann_linear):
            close(f, g, "loads after the run", rtol=1e-11)
    elif t2.robin_coefficient is not None:
        close(np.ravel(t.robin_coefficient), np.ravel(t2.robin_coefficient), "convection coefficient after the run", rtol=1e-11)
        for f, g in zip(t.robin_bilinear, t2.robin_bilinear):
            close(f.toarray(), g.toarray(), "convection operator after the run", rtol=1e-11)
        for f, g in zip(t.robin_linear, t2.robin_linear):
            close(f, g, "convection load after the run", rtol=1e-11)
    if scaling:
        tags.add("scaling")
    if cc["design_dirichlet"]:
        tags.add("supports designable")
    if n < b.ne:
        tags.add("fixed elements")
    if any(H["rho_change_max"][k] > 0.9 * rec[k].move for k in range(N)):
        tags.add("move limit active")
    return dict(nontrivial=N > 1 and n > 1 and max(H["rho_change_max"]) > 1e-6 and float(np.ptp(rec[-1].rho1)) > 1e-6,
                tags=[b.kind, pr["kind"], cc["opt"], cc["filter_type"], oname] + sorted(tags))


def run_output(c):
    """The same runs with all output switched on finish and write their files."""
    from ..core import scratch
    pr, cc = c["pr"], c["cfg"]
    b, t, des = runs.make_problem(pr, cc["design_dirichlet"])
    dst = scratch("out")
    o = runs.make_optimizer(cc, t, dst=dst, plots=True)
    for k in c["split"]:
        with gen.hush():
            o.optimize_steps(k)
    with gen.hush():
        o.optimize()
    N = cc["max_iters"]
    check(len(o.vf_steps) == N, "iterations performed", got=len(o.vf_steps), want=N)
    for f in ("cfg.json", "histories.npz", "condition.vtu", "timing.png", "mesh_rho/last.jpg"):
        check(os.path.getsize(os.path.join(dst, f)) > 0 if os.path.exists(os.path.join(dst, f)) else False, "output file missing", file=f)
    return dict(nontrivial=N > 1, tags=[cc["opt"], pr["kind"]])


FACETS = [
    Facet("records", case_s, run, "at least two iterations that change several densities differently", quick=240, thorough=8000, qsec=60, tsec=800,
          shards=5, tshards=8),
    Facet("many", mk_case_s(runs.problem_s(many=True), runs.cut_s(any_cfg, 4)), run, "at least two iterations that change several densities differently",
          quick=24, thorough=800, qsec=60, shards=2, tshards=4),
    Facet("large", mk_case_s(runs.big_problem_s(), runs.cut_s(any_cfg, 2)), run, "at least two iterations that change several densities differently",
          quick=12, thorough=300, qsec=60, tsec=600, shards=2, tshards=6),
    Facet("long", mk_case_s(runs.problem_s(mesh=runs.tiny_mesh), runs.long_s(any_cfg)), run, "at least two iterations that change several densities differently",
          quick=26, thorough=500, qsec=60, tsec=600, shards=2, tshards=6),
    Facet("full_output", case_s, run_output, "at least two iterations", quick=8, thorough=200, qsec=40, tsec=600, shards=2, tshards=4),
]
ASSUMPTIONS = ["the objective and energy of a design are evaluated by a second solver object on an untouched twin of the problem (C11-C14 judge it)",
               "records of length/force-scaled runs are in scaled units, so their objective is not compared"]
