"""C13: steady temperatures: Dirichlet data, balance of conduction and convection, bounds, load cases."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Discard, Facet, check, close
from ..heatref import HeatProblem

from sktopt.fea import FEM_SimpLinearHeatConduction, composer
from sktopt.fea import solver_heat as sh
from sktopt.fea.solver_elastic import LinearSolverConfig

SCHEME = {"simp": (composer.simp_interpolation, ref.simp), "ramp": (composer.ramp_interpolation, ref.ramp)}


def meshes(**kw):
    return gen.one_of(gen.mesh_s(maxel=30, **kw), gen.mesh_s(minn=2, maxel=50, **kw), gen.mesh_s(minn=2, maxel=50, **kw))


def case_s(**kw):
    return st.fixed_dictionaries(dict(
        ht=gen.heat_s(mesh=gen.many_mesh_s() if kw.get("minrobin") else meshes(**kw.pop("mesh", {})), **kw), rho=gen.field_s(), p=gen.num(1.0, 6.0, 1.0, 3.0, 2.2),
        scheme=st.sampled_from(["simp", "ramp"]), ratio=gen.lognum(1e-6, 0.3, 1e-3, 1e-2, 1e-5),
        cfg=st.sampled_from(["default", "auto", "spsolve"])))


def mostly(r):
    return gen.one_of(st.none(), r, r, r, r, r, r)


def usable(c):
    """heat_exchange needs one common convection datum."""
    h = c["ht"]
    if h["objective"] == "heat_exchange" and (h["robin"] is None or not h["common_robin"]):
        h = dict(h, objective="averaged_temp")
    return dict(c, ht=h)


def fem_of(t, c):
    func = SCHEME[c["scheme"]][0]
    kw = {} if c["cfg"] == "default" else dict(solver_config=LinearSolverConfig(solver=c["cfg"]))
    return FEM_SimpLinearHeatConduction(t, E_min_coeff=c["ratio"], density_interpolation=func, **kw)


def run(c):
    c = usable(c)
    h = c["ht"]
    b = gen.build_mesh(h["mesh"])
    if len(gen.heat_model(b, h)["design"]) == 0:
        raise Discard()
    t = gen.make_heat(b, h)
    rho = gen.field(c["rho"], b.ne)
    P = HeatProblem(h, rho, SCHEME[c["scheme"]][1], c["ratio"], c["p"], basis=t.basis)
    n = len(P.D)
    check(t.n_tasks == n, "number of load cases", got=t.n_tasks, want=n)
    fem = fem_of(t, c)
    u = np.full((t.basis.N, n), np.nan)
    keep = rho.copy()
    fem.objectives_multi_load(rho, c["p"], u)
    check(np.array_equal(rho, keep), "the density was modified")
    S = P.scale()
    for i in range(n):
        T = u[P.nd, i]
        check(bool(np.all(np.isfinite(T))), "temperature is not finite")
        nodes, val = P.D[i]
        close(T[nodes], np.full(len(nodes), val), "temperature on the case's own Dirichlet region", atol=1e-9 * S, case=i)
        free = np.setdiff1d(np.arange(len(T)), nodes)
        r = (P.Kall @ T - P.f)[free]
        rs = max(float(np.abs(P.Kall).max()) * S, float(np.abs(P.f).max()))
        check(bool(np.all(np.abs(r) <= 1e-8 * rs)), "conduction and convection do not balance", res=float(np.abs(r).max()) if len(r) else 0., scale=rs)
        close(T, P.solve(i), "temperature differs from the reference solution", rtol=1e-6, atol=1e-9 * S, case=i)
        # discrete maximum principle where the reference matrix has no positive off-diagonal
        off = P.Kall - np.diag(np.diag(P.Kall))
        if off.max() <= 1e-12 * np.diag(P.Kall).max():
            lo = min([val] + [x for _, x in P.pairs])
            hi = max([val] + [x for _, x in P.pairs])
            check(float(T.min()) >= lo - 1e-7 * S and float(T.max()) <= hi + 1e-7 * S, "temperature leaves the range of its data",
                  got=(float(T.min()), float(T.max())), want=(lo, hi))
    # a second evaluation, with another density in between, gives the same temperatures
    u2 = np.zeros_like(u)
    fem.objectives_multi_load(np.full(b.ne, 0.37), c["p"], u2)
    fem.objectives_multi_load(rho, c["p"], u2)
    close(u2, u, "evaluating the same density again gives other temperatures", rtol=1e-9)
    # alone
    if n > 1:
        for i in range(n):
            h1 = dict(h, sup=[h["sup"][i]], aslist=True)
            t1 = gen.make_heat(b, h1)
            u1 = np.zeros((t.basis.N, t1.n_tasks))
            check(t1.n_tasks == 1, "one region, one load case")
            fem_of(t1, c).objectives_multi_load(rho, c["p"], u1)
            close(u1[:, 0], u[:, i], "solving a case alone gives other temperatures", rtol=1e-7, atol=1e-9 * S, case=i)
    return dict(nontrivial=bool(np.ptp(u) > 1e-6 * S), tags=[b.kind, f"{n} cases", "convection" if P.pairs else "no convection", c["scheme"]])


# ---- histories of evaluations on one problem: only the current arguments count
step_s = st.fixed_dictionaries(dict(
    rho=gen.one_of(st.none(), st.none(), gen.field_s()), edit=st.sampled_from(["none", "none", "one", "swap", "scale"]), k=st.integers(0, 500),
    copy=st.booleans(), p=gen.num(1.0, 6.0, 1.0, 3.0, 2.2), keep_p=st.booleans(), keep_u=st.booleans(), who=st.sampled_from([0, 0, 1])))


def run_history(c):
    c = usable(c)
    h = c["ht"]
    b = gen.build_mesh(h["mesh"])
    if len(gen.heat_model(b, h)["design"]) == 0:
        raise Discard()
    t = gen.make_heat(b, h)
    S = [(c["scheme"], c["ratio"]), (c["scheme2"], c["ratio2"])]
    fems = [fem_of(t, dict(c, scheme=s, ratio=q)) for s, q in S]
    rho, p, u = gen.field(c["rho"], b.ne), c["p"], np.zeros((t.basis.N, t.n_tasks))
    moved, last, kept = 0, None, []
    for s in c["steps"]:
        if s["copy"]:
            rho = rho.copy()
        if s["rho"] is not None:
            rho[:] = gen.field(s["rho"], b.ne)
        i, j = s["k"] % b.ne, (s["k"] * 7 + 1) % b.ne
        if s["edit"] == "one":
            rho[i] = max(1e-3, 1.0 - rho[i])
        elif s["edit"] == "swap":
            rho[[i, j]] = rho[[j, i]]
        elif s["edit"] == "scale":
            rho *= 0.5
        p = p if s["keep_p"] else s["p"]
        if not s["keep_u"]:
            u = np.full((t.basis.N, t.n_tasks), np.nan)
        scheme, ratio = S[s["who"]]
        P = HeatProblem(h, rho.copy(), SCHEME[scheme][1], ratio, p, basis=t.basis)
        out = np.asarray(fems[s["who"]].objectives_multi_load(rho, p, u))
        sc = P.scale()
        for i in range(len(P.D)):
            close(u[P.nd, i], P.solve(i), "temperature depends on earlier evaluations", rtol=1e-6, atol=1e-9 * sc, case=i)
        moved += last is not None and float(np.abs(u - last).max()) > 1e-6 * sc
        last = u.copy()
        for old, cp in kept:
            check(np.array_equal(old, cp), "an earlier result was overwritten")
        kept.append((out, out.copy()))
    return dict(nontrivial=moved > 0, tags=[b.kind, f"{t.n_tasks} cases", "convection" if P.pairs else "no convection"])


# ---- the solver functions on plain matrices
def run_module(c):
    h = c["ht"]
    b = gen.build_mesh(h["mesh"])
    if len(gen.heat_model(b, h)["design"]) == 0:
        raise Discard()
    t = gen.make_heat(b, h)
    rho = gen.field(c["rho"], b.ne)
    func, fref = SCHEME[c["scheme"]]
    P = HeatProblem(dict(h, common_robin=True), rho, fref, c["ratio"], c["p"], basis=t.basis)
    bil, lin = t.robin_bilinear, t.robin_linear
    K = P.K.copy()
    f = np.zeros(len(P.f))
    if bil is not None:
        K = K + P.Ksurf if h["common_robin"] else K + sum(np.asarray(m.todense()) for m in bil)[np.ix_(P.nd, P.nd)]
        f = sum(np.asarray(v) for v in lin)[P.nd]
        if c["cfg"] == "auto":                  # a single matrix/vector instead of lists
            bil, lin = sum(bil[1:], bil[0]).tocsr(), sum(lin[1:], lin[0])
    n = len(P.D)
    u = np.full((t.basis.N, n), np.nan)
    out = sh.solve_multi_load(t.basis, t.free_dofs, [d for d, _ in P.D], [v for _, v in P.D], bil if bil is not None else [],
                              lin if lin is not None else [], P.k0, P.kmin, c["p"], rho, u, elem_func=func, solver="spsolve")
    S = P.scale()
    for i, (nodes, val) in enumerate(P.D):
        w = np.full(len(P.f), float(val))
        free = np.setdiff1d(np.arange(len(w)), nodes)
        if len(free):
            w[free] = np.linalg.solve(K[np.ix_(free, free)], (f - K[:, nodes] @ w[nodes])[free])
        close(u[P.nd, i], w, "module solve differs from the reference solution", rtol=1e-6, atol=1e-9 * S, case=i)
    close(np.asarray(out[0].todense())[np.ix_(P.nd, P.nd)], K, "returned system matrix", rtol=1e-8)
    u3 = np.zeros_like(u)
    sh.solve_scipy_heat_multi_enforce(out[0], out[1], out[2], [v for _, v in P.D], u3)
    close(u3, u, "the general solver disagrees", rtol=1e-7, atol=1e-9 * S)
    if len({tuple(d) for d, _ in P.D}) == 1:
        u4 = np.zeros_like(u)
        sh.solve_scipy(out[0], out[1], out[2], [v for _, v in P.D], u4)
        close(u4, u, "the shared-factorisation solver disagrees", rtol=1e-7, atol=1e-9 * S)
    return dict(nontrivial=n > 1 or bil is not None, tags=[b.kind, f"{n} cases"])


FACETS = [
    Facet("balance", case_s(robin=mostly), run, "temperatures vary", quick=350, thorough=6000, qsec=70, shards=2),
    Facet("box", case_s(mesh=dict(maps=("none",), grade=False), robin=mostly), run, "temperatures vary",
          quick=200, thorough=3000, qsec=60, shards=2),
    Facet("many", case_s(robin=mostly, **gen.MANY_HEAT), run, "temperatures vary", quick=50, thorough=1500, qsec=50),
    Facet("large", st.builds(lambda c, m: dict(c, ht=dict(c["ht"], mesh=m)), case_s(robin=mostly), gen.big_mesh_s((600, 1300))), run, "temperatures vary", quick=4, thorough=80, qsec=70, shards=2),
    Facet("history", st.builds(lambda c, s, q, l: dict(c, scheme2=s, ratio2=q, steps=l), case_s(robin=mostly, mesh=dict(maxn=3)), st.sampled_from(["simp", "ramp"]),
                               gen.lognum(1e-6, 0.3, 1e-3, 1e-2), st.lists(step_s, min_size=2, max_size=6)), run_history, "a later evaluation has other temperatures",
          quick=100, thorough=3000, qsec=60, shards=2),
    Facet("module", case_s(objective=("compliance",)), run_module, "several cases or convection", quick=100, thorough=3000, qsec=50),
]
ASSUMPTIONS = ["the maximum principle is checked where the reference matrix has no positive off-diagonal entries (others can overshoot by discretisation)",
               "density-dependent surface convection (design_robin_boundary) is the constant surface convection, as implemented; interface convection is checked in full"]
