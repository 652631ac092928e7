"""C15: the sensitivity handed to the update is the exact gradient of the recorded mean compliance."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, runs
from ..core import Discard, Facet, check, close

cfg_s = runs.cfg_s(filt=("spacial",), iters=(1, 4), extra=st.fixed_dictionaries(dict(sensitivity_filter=st.sampled_from([False, False, False, True]))))
case_s = st.fixed_dictionaries(dict(pr=runs.problem_s(("elastic",)), fdseed=st.integers(0, 100), cfg=cfg_s))
large_s = st.fixed_dictionaries(dict(pr=runs.big_problem_s((300, 650, 900), kind=("elastic",)), fdseed=st.integers(0, 100), cfg=runs.cut_s(cfg_s, 1)))
long_s = st.fixed_dictionaries(dict(pr=runs.problem_s(("elastic",), mesh=runs.tiny_mesh), fdseed=st.integers(0, 100), cfg=runs.long_s(cfg_s)))


def compliance(b, t, free, Ke, ed, E, F):
    K = ref.assemble(E[:, None, None] * Ke, ed, t.basis.N)
    U = np.zeros((t.basis.N, len(F)))
    for i, f in enumerate(F):
        U[free, i] = np.linalg.solve(K[np.ix_(free, free)], f[free])
    return np.array([f[free] @ U[free, i] for i, f in enumerate(F)]), U


def run(c):
    pr, cc = c["pr"], c["cfg"]
    b, t, des = runs.make_problem(pr, cc["design_dirichlet"])
    el = pr["el"]
    if not runs.loads_designable(pr, b, t):
        raise Discard()
    free = np.setdiff1d(np.arange(t.basis.N), t.dirichlet_dofs)
    F1 = [np.array(f, float) for f in (t.neumann_linear if isinstance(t.neumann_linear, list) else [t.neumann_linear])]
    Ke = ref.elastic_Ke(ref.Geo(b.mesh, 2), el["nu"])
    ed = ref.edofs(b.mesh, t.basis, 3)
    o = runs.make_optimizer(cc, t)
    mats = []
    o.vf_hook = lambda s: mats.append(runs.filter_matrix(o.filter, b.ne))
    runs.run(o)
    steps = o.vf_steps
    comp = runs.history(o, "compliance")
    check(len(comp) == len(steps) == cc["max_iters"], "one record per iteration", got=(len(comp), len(steps)))
    fr = ref.simp if cc["interpolation"] == "SIMP" else ref.ramp
    E0, Emin = el["E"], el["E"] * cc["E_min_coeff"]
    nontriv = False
    for k, s in enumerate(steps):
        p = o.schedulers.value_on_a_scheduler("p", s.iter)
        beta = o.schedulers.value_on_a_scheduler("beta", s.iter)
        fs = o.schedulers.value_on_a_scheduler("neumann_scale", s.iter)
        W, z = mats[k]
        rho = np.ones(b.ne)
        check(len(s.rho0) == len(des), "number of designable elements", got=len(s.rho0), want=len(des))
        rho[des] = s.rho0
        F = [fs * f for f in F1]

        def J(r):
            rp = runs.heaviside(W @ r + z, beta, cc["beta_eta"])
            cs, U = compliance(b, t, free, Ke, ed, fr(rp, E0, Emin, p), F)
            return cs.mean(), U, rp
        j, U, rp = J(rho)
        close(s.proj, rp, "filtered and projected design", rtol=1e-8)
        big = max(abs(j), 1e-300)
        check(abs(comp[k] - j) <= 1e-6 * big, "recorded compliance is not the mean compliance of the projected design",
              got=comp[k], want=float(j), iteration=s.iter)
        dE = p * (E0 - Emin) * rp ** (p - 1) if cc["interpolation"] == "SIMP" else (E0 - Emin) * (1 + p) / (1 + p * (1 - rp)) ** 2
        q = np.stack([np.einsum("ei,eij,ej->e", U[ed, i], Ke, U[ed, i]) for i in range(len(F))], 1).mean(1)
        g = W.T @ (-dE * q * runs.heaviside_d(W @ rho + z, beta, cc["beta_eta"]))
        smoothed = cc["extra"]["sensitivity_filter"]
        if smoothed:                                     # the option smooths the exact gradient with the filter once more
            g = W @ g
        want = g[des]
        close(s.dC, want, "sensitivity handed to the update", rtol=1e-6, atol=1e-12 * float(np.abs(g).max()) + 1e-12 * big, iteration=s.iter,
              scheme=cc["interpolation"])
        if k == len(steps) - 1 and not smoothed:
            d = np.zeros(b.ne)
            d[des] = np.random.RandomState(c["fdseed"]).uniform(-1, 1, len(des)) * np.minimum(rho[des], 1)
            h = 1e-5
            fd = (J(rho + h * d)[0] - J(rho - h * d)[0]) / (2 * h)
            lim = 1e-4 * float(np.abs(want) @ np.abs(d[des])) + 1e-9 * big / h
            check(abs(fd - float(s.dC @ d[des])) <= lim, "sensitivity differs from the finite difference of the compliance",
                  got=float(s.dC @ d[des]), want=float(fd), limit=lim)
        nontriv |= bool(np.abs(want).max() > 1e-9 * big) and len(des) > 1
    return dict(nontrivial=nontriv, tags=[b.kind, cc["opt"], cc["interpolation"], "smoothed" if cc["extra"]["sensitivity_filter"] else "exact", f"{len(F1)} cases",
                                          "filter mixes" if np.count_nonzero(mats[-1][0]) > b.ne else "filter trivial"])


FACETS = [
    Facet("gradient", case_s, run, "more than one designable element and a non-zero gradient", quick=360, thorough=8000, qsec=75, tsec=800,
          shards=4, tshards=8),
    Facet("many", st.builds(lambda c, p: dict(c, pr=p), case_s, runs.problem_s(("elastic",), many=True)), run,
          "more than one designable element and a non-zero gradient", quick=24, thorough=800, qsec=50, shards=2),
    Facet("large", large_s, run, "more than one designable element and a non-zero gradient", quick=10, thorough=200, qsec=70, tsec=600,
          shards=2, tshards=4),
    Facet("long", long_s, run, "more than one designable element and a non-zero gradient", quick=14, thorough=500, qsec=60, tsec=600,
          shards=2, tshards=4),
]
ASSUMPTIONS = ["the first support clamps a whole face (no rigid motion)", "loads that act on supported nodes only are discarded",
               "the filter operator itself is taken from the run (its correctness is C04)"]
