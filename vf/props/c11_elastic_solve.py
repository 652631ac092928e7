"""C11: elastic states and compliances: equilibrium, solver agreement, superposition, scaling, monotonicity."""
import numpy as np
import scipy.sparse as sp
import skfem
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Discard, Facet, check, close

from sktopt.fea import FEM_SimpLinearElasticity, composer
from sktopt.fea import solver as wrap
from sktopt.fea import solver_elastic as se
from sktopt.mesh import LinearElasticity

SIMP, RAMP = composer.simp_interpolation, composer.ramp_interpolation
state_s = dict(rho=gen.field_s(), p=gen.num(1.0, 5.0, 1.0, 3.0, 2.5), scheme=st.sampled_from(["simp", "ramp"]),
               ratio=gen.lognum(1e-6, 0.3, 1e-3, 1e-2, 1e-6), fs=gen.num(-9.0, 9.0, 1.0, 0.3, -2.0, 7.0).map(lambda v: v or 0.5))
case_s = st.fixed_dictionaries(dict(
    el=gen.elastic_s(mesh=gen.mesh_s(maxel=30), maxload=3), via=st.sampled_from(["fem", "module", "wrapper"]), **state_s))


class Problem:
    def __init__(self, c, rho=None, tsk=None):
        el = c["el"]
        self.b = b = gen.build_mesh(el["mesh"])
        if tsk is None and len(gen.elastic_model(b, el)["design"]) == 0:
            raise Discard()
        self.tsk = gen.make_elastic(b, el) if tsk is None else tsk
        self.rho = gen.field(c["rho"], b.ne) if rho is None else rho.copy()
        self.func = SIMP if c["scheme"] == "simp" else RAMP
        self.E0, self.Emin, self.p = el["E"], el["E"] * c["ratio"], c["p"]
        E = (ref.simp if c["scheme"] == "simp" else ref.ramp)(self.rho, self.E0, self.Emin, self.p)
        geo = ref.Geo(b.mesh, 2)
        self.Kd = ref.assemble(E[:, None, None] * ref.elastic_Ke(geo, el["nu"]), ref.edofs(b.mesh, self.tsk.basis, 3), self.tsk.basis.N)
        self.D = np.unique(np.concatenate([np.concatenate([self.tsk.basis.nodal_dofs[k, gen.nodes_of(b.mesh, gen.facets_of(b, s["reg"]))]
                           for k in (range(3) if s["dir"] == "all" else [int(s["dir"][2]) - 1])]) for s in el["sup"]]))
        self.free = np.setdiff1d(np.arange(self.tsk.basis.N), self.D)
        self.F = []
        for s in el["load"]:
            f = np.zeros(self.tsk.basis.N)
            v, area = ref.surface_load(b.mesh, gen.facets_of(b, s["reg"]))
            f[self.tsk.basis.nodal_dofs[int(s["dir"][2]) - 1]] = s["val"] * v / area
            self.F.append(f)

        # rounding level of displacements and works (loads that act on supported nodes only do no work)
        d = np.diag(self.Kd)[self.free]
        big = abs(c["fs"]) * max(abs(x["val"]) for x in el["load"])
        self.tu = 1e-11 * big / (float(d.min()) if len(d) else 1.0)
        self.tc = big * self.tu

    def solve(self, f):
        """Reference displacement and compliance."""
        u = np.zeros(len(f))
        if len(self.free):
            u[self.free] = np.linalg.solve(self.Kd[np.ix_(self.free, self.free)], f[self.free])
        return u, float(f[self.free] @ u[self.free])


def check_state(P, u, f, comp, tol, what):
    u = np.asarray(u)
    check(bool(np.all(np.isfinite(u))), f"{what}: displacement not finite")
    um = float(np.abs(u).max())
    check(bool(np.all(np.abs(u[P.D]) <= 1e-9 * um + P.tu)), f"{what}: constrained displacement is not zero")
    r = (P.Kd @ u - f)[P.free]
    scale = max(float(np.abs(f).max()), float(np.abs(P.Kd).max()) * um * 1e-6)
    check(bool(np.all(np.abs(r) <= tol * scale)), f"{what}: equilibrium is violated", res=float(np.abs(r).max(initial=0.0)), scale=scale)
    work = float(f[P.free] @ u[P.free])
    ref_scale = max(abs(work), 1e-6 * float(np.abs(f[P.free]).sum()) * um)
    check(abs(float(comp) - work) <= 1e-7 * ref_scale + P.tc, f"{what}: compliance is not the work of the case's own load",
          got=float(comp), want=work)


def run(c):
    P = Problem(c)
    el, t = c["el"], P.tsk
    fs = c["fs"]
    n = len(P.F)
    u = np.full((t.basis.N, n), np.nan)
    F0 = [x.copy() for x in t.neumann_linear]
    keep = P.rho.copy()
    if c["via"] == "fem":
        fem = FEM_SimpLinearElasticity(t, E_min_coeff=c["ratio"], density_interpolation=P.func)
        comp = fem.objectives_multi_load(P.rho, P.p, u, force_scale=fs)
    else:
        fl = [x * fs for x in t.neumann_linear]
        mod = se if c["via"] == "module" else wrap
        comp = mod.compute_compliance_basis_multi_load(t.basis, t.free_dofs, t.dirichlet_dofs, fl, P.E0, P.Emin, P.p, el["nu"],
                                                       P.rho, u, elem_func=P.func, rtol=1e-11,
                                                       **({"solver": "spsolve"}))
    comp = np.asarray(comp, float).ravel()
    check(comp.shape == (n,), "not one compliance per load case", got=comp.shape)
    check(all(np.array_equal(a, b_) for a, b_ in zip(F0, t.neumann_linear)), "the problem's load vectors were modified")
    check(np.array_equal(keep, P.rho), "the density was modified")
    for i in range(n):
        check_state(P, u[:, i], fs * P.F[i], comp[i], 1e-7, f"case {i}")
        uw, cw = P.solve(fs * P.F[i])
        close(u[:, i], uw, "displacement differs from the reference solution", rtol=1e-6, atol=P.tu, case=i)
    if n > 1:
        for i in range(n):
            c1, u1 = se.compute_compliance_basis(t.basis, t.free_dofs, t.dirichlet_dofs, fs * t.neumann_linear[i], P.E0, P.Emin, P.p,
                                                 el["nu"], P.rho, elem_func=P.func, solver="spsolve")
            close(u1, u[:, i], "solving a case alone gives another displacement", rtol=1e-6, atol=P.tu)
            check(abs(c1 - comp[i]) <= 1e-6 * abs(comp[i]) + P.tc, "solving a case alone gives another compliance", got=c1, want=float(comp[i]))
    # load factor
    k = 3.0
    u2 = np.zeros_like(u)
    fem = FEM_SimpLinearElasticity(t, E_min_coeff=c["ratio"], density_interpolation=P.func)
    comp2 = np.asarray(fem.objectives_multi_load(P.rho, P.p, u2, force_scale=fs * k), float)
    close(u2, k * u, "displacement is not proportional to the load factor", rtol=1e-6, atol=3 * P.tu)
    close(comp2, k * k * comp, "compliance does not scale with the square of the load factor", rtol=1e-6, atol=9 * P.tc)
    # stiffer designs are never more compliant
    stiff = P.rho + (1 - P.rho) * np.random.RandomState(c["rho"]["seed"]).rand(len(P.rho))
    u3 = np.zeros_like(u)
    comp3 = np.asarray(fem.objectives_multi_load(stiff, P.p, u3, force_scale=fs), float)
    check(bool(np.all(comp3 <= comp * (1 + 1e-6) + P.tc)), "a stiffer design is more compliant", got=comp3.tolist(), want=comp.tolist())
    return dict(nontrivial=bool(np.any(np.abs(u) > 0)), tags=[P.b.kind, f"{n} cases", c["via"], c["scheme"]])


# ---- histories of evaluations on one problem: only the current arguments count
step_s = st.fixed_dictionaries(dict(
    rho=gen.one_of(st.none(), st.none(), gen.field_s()), edit=st.sampled_from(["none", "none", "one", "swap", "scale"]), k=st.integers(0, 500),
    copy=st.booleans(), p=gen.num(1.0, 5.0, 1.0, 3.0, 2.5), keep_p=st.booleans(), fs=gen.lognum(1e-6, 1e6, 1.0, 1.0, 1.0, -2.0), keep_u=st.booleans(),
    who=st.sampled_from(["fem0", "fem0", "fem0", "fem1", "module", "single"])))
hist_s = st.fixed_dictionaries(dict(
    el=gen.elastic_s(mesh=gen.mesh_s(maxel=16), maxload=3), **dict(state_s, scheme2=st.sampled_from(["simp", "ramp"]), ratio2=gen.lognum(1e-6, 0.3, 1e-3, 1e-2)),
    steps=st.lists(step_s, min_size=2, max_size=6)))


def run_history(c):
    el = c["el"]
    b = gen.build_mesh(el["mesh"])
    if len(gen.elastic_model(b, el)["design"]) == 0:
        raise Discard()
    t = gen.make_elastic(b, el)
    n = len(el["load"])
    S = [(c["scheme"], c["ratio"]), (c["scheme2"], c["ratio2"])]
    F = {"simp": SIMP, "ramp": RAMP}
    fems = [FEM_SimpLinearElasticity(t, E_min_coeff=q, density_interpolation=F[s]) for s, q in S]
    rho, p, u, works, tags = gen.field(c["rho"], b.ne), c["p"], np.zeros((t.basis.N, n)), 0, set()
    kept = []
    for s in c["steps"]:
        if s["copy"]:
            rho = rho.copy()
        if s["rho"] is not None:
            rho[:] = gen.field(s["rho"], b.ne)                  # the caller's array, written in place
        i, j = s["k"] % b.ne, (s["k"] * 7 + 1) % b.ne
        if s["edit"] == "one":
            rho[i] = max(1e-3, 1.0 - rho[i])
        elif s["edit"] == "swap":
            rho[[i, j]] = rho[[j, i]]
        elif s["edit"] == "scale":
            rho *= 0.5
        p = p if s["keep_p"] else s["p"]
        if not s["keep_u"]:
            u = np.full((t.basis.N, n), np.nan)
        w = 1 if s["who"] == "fem1" else 0
        P = Problem(dict(c, scheme=S[w][0], ratio=S[w][1], p=p, fs=s["fs"]), rho=rho, tsk=t)
        if s["who"].startswith("fem"):
            comp = fems[w].objectives_multi_load(rho, p, u, force_scale=s["fs"])
        elif s["who"] == "module":
            comp = se.compute_compliance_basis_multi_load(t.basis, t.free_dofs, t.dirichlet_dofs, [x * s["fs"] for x in t.neumann_linear], P.E0, P.Emin, p,
                                                          el["nu"], rho, u, elem_func=P.func, solver="spsolve")
        else:
            comp = []
            for q in range(n):
                cq, uq = se.compute_compliance_basis(t.basis, t.free_dofs, t.dirichlet_dofs, t.neumann_linear[q] * s["fs"], P.E0, P.Emin, p, el["nu"], rho,
                                                     elem_func=P.func, solver="spsolve")
                u[:, q] = uq
                comp.append(cq)
        comp = np.asarray(comp, float).ravel()
        check(comp.shape == (n,), "not one compliance per load case", got=comp.shape)
        for q in range(n):
            uw, cw = P.solve(s["fs"] * P.F[q])
            close(u[:, q], uw, "displacement depends on earlier evaluations", rtol=1e-6, atol=P.tu, case=q, who=s["who"], steps=len(kept))
            check(abs(comp[q] - cw) <= 1e-6 * abs(cw) + P.tc, "compliance depends on earlier evaluations", got=float(comp[q]), want=cw, case=q, who=s["who"])
            works += abs(cw) > P.tc
        for old, cp in kept:
            check(np.array_equal(old, cp), "an earlier result was overwritten")
        kept.append((comp, comp.copy()))
        tags.add(s["who"])
    return dict(nontrivial=works > 1, tags=sorted(tags) + [f"{n} cases"])


# ---- solver selections (single load case: every solver is available)
sol_s = st.fixed_dictionaries(dict(
    el=gen.elastic_s(mesh=gen.one_of(gen.mesh_s(maxel=30), gen.mesh_s(maxel=30), gen.mesh_s(kinds=("hex",), minn=7, maxn=8, maxel=400, maps=("none", "shear"), grade=False)),
                     maxload=1), **state_s))


def run_solvers(c):
    c = dict(c, ratio=max(c["ratio"], 1e-3))
    el = c["el"]
    b = gen.build_mesh(el["mesh"])
    if len(gen.elastic_model(b, el)["design"]) == 0:
        raise Discard()
    t = gen.make_elastic(b, el)
    rho = gen.field(c["rho"], b.ne, lo=0.3)
    func = SIMP if c["scheme"] == "simp" else RAMP
    E0, Emin = el["E"], el["E"] * c["ratio"]
    f = t.neumann_linear[0] * c["fs"]
    free = np.setdiff1d(np.arange(t.basis.N), t.dirichlet_dofs)
    if float(np.abs(f[free]).sum()) <= 1e-6 * float(np.abs(f).sum()):
        raise Discard()                      # the load acts on supported nodes only
    out = {}
    for name in ("spsolve", "cg_jacobi", "cg_pyamg", "auto"):
        cfg = se.LinearSolverConfig(solver=name, rtol=1e-11, maxiter=20000)
        for form in ("config", "legacy"):
            if form == "config":
                cm, u = se.compute_compliance_basis(t.basis, t.free_dofs, t.dirichlet_dofs, f, E0, Emin, c["p"], el["nu"], rho,
                                                    elem_func=func, solver_config=cfg)
            else:
                cm, u = wrap.compute_compliance_basis(t.basis, t.free_dofs, t.dirichlet_dofs, f, E0, Emin, c["p"], el["nu"], rho,
                                                      elem_func=func, solver=name, rtol=1e-11, maxiter=20000)
            out[name, form] = (float(cm), np.asarray(u))
    fem = FEM_SimpLinearElasticity(t, c["ratio"], func, solver_option="cg_pyamg")
    uu = np.zeros((t.basis.N, 1))
    try:
        out["fem-cg_pyamg", ""] = (float(fem.objectives_multi_load(rho, c["p"], uu, force_scale=c["fs"])[0]), uu[:, 0])
    except RuntimeError:                     # default iteration limit: judged by the "limits" facet
        pass
    c0, u0 = out["spsolve", "config"]
    K = composer.assemble_stiffness_matrix(t.basis, rho, E0, Emin, c["p"], el["nu"], func)
    for k, (cm, u) in out.items():
        close(u, u0, f"solver {k} gives another displacement", rtol=1e-4)
        check(abs(cm - c0) <= 1e-5 * abs(c0) + 1e-300, f"solver {k} gives another compliance", got=cm, want=c0)
        r = (K @ u - f)[free]
        check(float(np.linalg.norm(r)) <= 1e-5 * max(float(np.linalg.norm(f[free])), 1e-300) + 1e-9 * abs(K).max() * float(np.abs(u).max()),
              f"solver {k} leaves a residual", res=float(np.linalg.norm(r)))
    return dict(nontrivial=abs(c0) > 0, tags=[b.kind, "large" if t.basis.N >= 1000 else "small"])


# ---- problems beyond every size switch
big_s = st.fixed_dictionaries(dict(el=gen.elastic_s(mesh=gen.one_of(gen.big_mesh_s((600, 1500), kinds=("hex",)), gen.big_mesh_s((1500, 4200), kinds=("tet",))), maxload=3), **state_s))


def run_large(c):
    el = c["el"]
    b = gen.build_mesh(el["mesh"])
    if len(gen.elastic_model(b, el)["design"]) == 0:
        raise Discard()
    t = gen.make_elastic(b, el)
    rho = gen.field(c["rho"], b.ne)
    func, fref = (SIMP, ref.simp) if c["scheme"] == "simp" else (RAMP, ref.ramp)
    nd, n = t.basis.nodal_dofs, len(el["load"])
    K = ref.assemble_sparse(fref(rho, el["E"], el["E"] * c["ratio"], c["p"])[:, None, None] * ref.elastic_Ke(ref.Geo(b.mesh, 2), el["nu"]),
                            ref.edofs(b.mesh, t.basis, 3), t.basis.N)
    D = np.unique(np.concatenate([nd[k, gen.nodes_of(b.mesh, gen.facets_of(b, s["reg"]))] for s in el["sup"]
                                  for k in (range(3) if s["dir"] == "all" else [int(s["dir"][2]) - 1])]))
    free = np.setdiff1d(np.arange(t.basis.N), D)
    u = np.full((t.basis.N, n), np.nan)
    fem = FEM_SimpLinearElasticity(t, E_min_coeff=c["ratio"], density_interpolation=func)
    comp = np.asarray(fem.objectives_multi_load(rho, c["p"], u, force_scale=c["fs"]), float)
    check(comp.shape == (n,), "not one compliance per load case", got=comp.shape)
    works = False
    for i, s in enumerate(el["load"]):
        f = np.zeros(t.basis.N)
        v, area = ref.surface_load(b.mesh, gen.facets_of(b, s["reg"]))
        f[nd[int(s["dir"][2]) - 1]] = c["fs"] * s["val"] * v / area
        check(bool(np.all(np.isfinite(u[:, i]))), "displacement not finite", case=i)
        if float(np.abs(f[free]).sum()) <= 1e-6 * float(np.abs(f).sum()):
            continue                                     # acts on supported nodes only
        check(bool(np.all(np.abs(u[D, i]) <= 1e-9 * float(np.abs(u[:, i]).max()))), "constrained degrees of freedom move", case=i)
        res = (K @ u[:, i] - f)[free]
        floor = 1e-12 * float(abs(K).max()) * float(np.abs(u[:, i]).max()) * len(free) ** 0.5
        check(float(np.linalg.norm(res)) <= 1e-6 * float(np.linalg.norm(f[free])) + 1e-9 * float(np.linalg.norm(f)) + floor, "equilibrium is violated", case=i,
              res=float(np.linalg.norm(res)), load=float(np.linalg.norm(f[free])))
        w = float(f[free] @ u[free, i])
        top = float(np.abs(f).sum()) * float(np.abs(u[:, i]).max())
        check(abs(comp[i] - w) <= 1e-6 * abs(w) + 1e-9 * top, "compliance is not the work of the case's own load", got=float(comp[i]), want=w, case=i)
        works |= w > 1e-6 * top > 0
    return dict(nontrivial=works, tags=[b.kind, f"{n} cases", "N>=5000" if t.basis.N >= 5000 else "N<5000"])


# ---- iteration limits: a result is a solution, or there is no result
lim_s = st.fixed_dictionaries(dict(
    n=st.tuples(st.sampled_from([3, 8, 12, 20, 40, 60]), st.integers(1, 2), st.integers(1, 2)).map(list),
    kind=st.sampled_from(["hex", "hex", "tet"]), aspect=st.sampled_from([0.5, 1.0, 2.0]),
    void=st.sampled_from([1.0, 0.5, 0.1, 1e-3]), frac=st.sampled_from([0.0, 0.3, 0.5, 0.7]), seed=st.integers(0, 1000),
    ratio=st.sampled_from([1e-3, 1e-5, 1e-9]), p=st.sampled_from([1.0, 3.0]), scheme=st.sampled_from(["simp", "ramp"]),
    solver=st.sampled_from(["auto", "auto", "cg_jacobi", "cg_pyamg"]), maxiter=st.sampled_from([None, None, None, 5, 50]),
    dir=st.sampled_from([0, 1, 2]), via=st.sampled_from(["config", "legacy", "fem"])))


def run_limits(c):
    n = c["n"]
    ax = [np.linspace(0, n[0] * c["aspect"], n[0] + 1)] + [np.linspace(0, k, k + 1) for k in n[1:]]
    if c["kind"] == "hex":
        mesh, e = skfem.MeshHex.init_tensor(*ax), skfem.ElementVector(skfem.ElementHex1())
    else:
        m = skfem.MeshTet.init_tensor(*ax)
        q, tt = m.p, m.t.copy()
        neg = np.einsum("ik,ik->k", np.cross(q[:, tt[1]] - q[:, tt[0]], q[:, tt[2]] - q[:, tt[0]], axis=0), q[:, tt[3]] - q[:, tt[0]]) < 0
        tt[2:, neg] = tt[:1:-1, neg]
        mesh, e = skfem.MeshTet(q, tt), skfem.ElementVector(skfem.ElementTetP1())
    basis = skfem.Basis(mesh, e, intorder=2)
    sup = mesh.facets_satisfying(lambda x: x[0] < 1e-9)
    end = mesh.facets_satisfying(lambda x: x[0] > n[0] * c["aspect"] - 1e-9)
    t = LinearElasticity.from_facets(basis, sup, "all", end, f"u^{c['dir'] + 1}", 10.0, np.arange(mesh.nelements), 100.0, 0.3)
    rs = np.random.RandomState(c["seed"])
    rho = np.where(rs.rand(mesh.nelements) < c["frac"], c["void"], 1.0)
    func = SIMP if c["scheme"] == "simp" else RAMP
    Emin = t.E * c["ratio"]
    f = t.neumann_linear[0]
    free = np.setdiff1d(np.arange(basis.N), t.dirichlet_dofs)
    K = composer.assemble_stiffness_matrix(t.basis, rho, t.E, Emin, c["p"], t.nu, func).tocsr()
    rtol = 1e-8
    try:
        if c["via"] == "config":
            cm, u = se.compute_compliance_basis(t.basis, t.free_dofs, t.dirichlet_dofs, f, t.E, Emin, c["p"], t.nu, rho, elem_func=func,
                                                solver_config=se.LinearSolverConfig(solver=c["solver"], maxiter=c["maxiter"]))
        elif c["via"] == "legacy":
            rtol = 1e-5                      # the default tolerance of the convenience arguments
            cm, u = se.compute_compliance_basis(t.basis, t.free_dofs, t.dirichlet_dofs, f, t.E, Emin, c["p"], t.nu, rho, elem_func=func,
                                                solver=c["solver"], maxiter=c["maxiter"])
        else:
            fem = FEM_SimpLinearElasticity(t, c["ratio"], func, solver_config=se.LinearSolverConfig(solver=c["solver"], maxiter=c["maxiter"]))
            uu = np.zeros((basis.N, 1))
            cm, u = float(fem.objectives_multi_load(rho, c["p"], uu)[0]), uu[:, 0]
    except RuntimeError as ex:
        check(c["solver"] != "auto", "the automatic choice fails instead of falling back", error=str(ex))
        return dict(nontrivial=True, tags=["reported"])
    u = np.asarray(u)
    check(float(np.abs(u[t.dirichlet_dofs]).max()) <= 1e-12 * max(float(np.abs(u).max()), 1e-300), "constrained degrees of freedom move")
    res = float(np.linalg.norm((K @ u - f)[free]))
    floor = 1e-13 * abs(K).max() * float(np.linalg.norm(u)) * basis.N ** 0.5
    check(res <= 20 * rtol * float(np.linalg.norm(f[free])) + floor, "the returned displacement does not satisfy equilibrium to the solver's tolerance",
          res=res, load=float(np.linalg.norm(f[free])), solver=c["solver"], dofs=int(basis.N))
    check(abs(cm - float(f @ u)) <= 1e-9 * abs(cm) + 1e-300, "the compliance is not the work of the load", got=cm, want=float(f @ u))
    return dict(nontrivial=True, tags=["solved", c["solver"], "large" if basis.N >= 1000 else "small"])


# ---- the wrappers around a plain linear system
lin_s = st.fixed_dictionaries(dict(n=st.integers(2, 40), seed=st.integers(0, 10000), solver=st.sampled_from(["spsolve", "cg_jacobi", "cg_pyamg", "auto"]),
                                   via=st.sampled_from(["wrapper", "module", "config"])))


def run_linear(c):
    rs = np.random.RandomState(c["seed"])
    A = rs.rand(c["n"], c["n"]) * (rs.rand(c["n"], c["n"]) < 0.3)
    A = A @ A.T + np.diag(1.0 + rs.rand(c["n"]))
    f = rs.randn(c["n"])
    K = sp.csr_matrix(A)
    s = c["solver"]
    if c["via"] == "wrapper":
        u = wrap.solve_u(K, f, chosen_solver=s, rtol=1e-12, maxiter=5000)
    elif c["via"] == "module":
        u = se.solve_u(K, f, chosen_solver=s if s != "auto" else "spsolve", rtol=1e-12, maxiter=5000)
    else:
        u = wrap.solve_u(K, f, chosen_solver=se.LinearSolverConfig(solver=s if s != "auto" else "spsolve", rtol=1e-12, maxiter=5000))
    close(np.asarray(u), np.linalg.solve(A, f), "linear solve", rtol=1e-6)
    return dict(nontrivial=True, tags=[s, c["via"]])


FACETS = [
    Facet("equilibrium", case_s, run, "some displacement is non-zero", quick=200, thorough=6000, qsec=80, shards=2),
    Facet("many", st.builds(lambda c, e: dict(c, el=e), case_s, gen.elastic_s(mesh=gen.many_mesh_s(), **gen.MANY)), run, "some displacement is non-zero",
          quick=40, thorough=1200, qsec=40),
    Facet("history", hist_s, run_history, "two evaluations do work", quick=100, thorough=3000, qsec=60, shards=2),
    Facet("solvers", sol_s, run_solvers, "the load does work", quick=60, thorough=1500, qsec=80, shards=2),
    Facet("large", big_s, run_large, "some load does work", quick=6, thorough=120, qsec=80, shards=2),
    Facet("large_solvers", st.builds(lambda c, m: dict(c, el=dict(c["el"], mesh=m)), sol_s, gen.big_mesh_s((600, 1100))), run_solvers, "the load does work",
          quick=2, thorough=40, qsec=60),
    Facet("limits", lim_s, run_limits, "a system was solved or reported as unsolved", quick=80, thorough=2500, qsec=60, shards=2),
    Facet("linear", lin_s, run_linear, "a system was solved", quick=150, thorough=3000, qsec=40),
]
ASSUMPTIONS = ["one support region clamps a whole face, so that the structure cannot move rigidly",
               "petsc4py is not installed: its two back ends are not exercised",
               "iterative solvers are run with densities >= 0.3 so that their tolerance bounds the error"]
