"""C12: element energies, stresses and the von Mises invariant are those of the displacement field."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Discard, Facet, check, close

from sktopt.fea import FEM_SimpLinearElasticity, FEM_SimpLinearHeatConduction, composer
from sktopt.fea import solver_elastic as se
from sktopt.fea import solver_heat as sh

SCHEME = {"simp": (composer.simp_interpolation, ref.simp), "ramp": (composer.ramp_interpolation, ref.ramp)}
mat = dict(rho=gen.field_s(), p=gen.num(1.0, 6.0, 1.0, 3.0, 2.2), scheme=st.sampled_from(["simp", "ramp"]),
           ratio=gen.lognum(1e-7, 0.5, 1e-3, 1e-2, 1e-6), seed=st.integers(0, 1000))
field_s = st.fixed_dictionaries(dict(mesh=gen.mesh_s(maxel=30), E=gen.lognum(1e-3, 1e11, 1.0, 210e3, 70.0),
                                     nu=gen.nu_s, loads=st.integers(1, 3),
                                     intorder=st.sampled_from([2, 2, 3]), amp=gen.lognum(1e-6, 1e3, 1.0, 1e-4, 50.0), **mat))


def _order(c):
    return 2 if c["mesh"]["kind"] == "hex" and c["mesh"]["map"] == "taper" else c["intorder"]


def rigid(rs, x):
    """A rigid motion u(x) = a + w x x."""
    return rs.randn(3)[:, None] + np.cross(rs.randn(3), x.T).T


def run_elastic(c):
    b = gen.build_mesh(c["mesh"])
    basis = gen.vec_basis(b, _order(c))
    func, fref = SCHEME[c["scheme"]]
    rho = gen.field(c["rho"], b.ne)
    E0, Emin, p, nu = c["E"], c["E"] * c["ratio"], c["p"], c["nu"]
    rs = np.random.RandomState(c["seed"])
    U = c["amp"] * rs.randn(basis.N, c["loads"])
    Ke = fref(rho, E0, Emin, p)[:, None, None] * ref.elastic_Ke(ref.Geo(b.mesh, 2), nu)
    ed = ref.edofs(b.mesh, basis, 3)
    want = np.stack([0.5 * np.einsum("ei,eij,ej->e", U[ed, i], Ke, U[ed, i]) for i in range(c["loads"])], 1)
    keep = U.copy()
    for mod in (composer, se):
        got = mod.strain_energy_skfem_multi(basis, rho, U, E0, Emin, p, nu, elem_func=func)
        close(got, want, f"{mod.__name__}: element strain energies of several cases", rtol=1e-9)
        check(bool(np.all(np.asarray(got) >= 0)), "negative strain energy")
        for i in range(c["loads"]):
            one = mod.strain_energy_skfem(basis, rho, U[:, i], E0, Emin, p, nu, elem_func=func)
            close(one, want[:, i], f"{mod.__name__}: element strain energies", rtol=1e-9)
    check(np.array_equal(U, keep), "the displacement was modified")
    # rigid motions store no energy
    R = np.zeros((basis.N, 1))
    R[basis.nodal_dofs, 0] = rigid(rs, b.mesh.p)
    e = composer.strain_energy_skfem_multi(basis, rho, R, E0, Emin, p, nu, elem_func=func)
    lim = 1e-18 * E0 * float(np.abs(R).max()) ** 2 * max(1.0, float(np.abs(Ke).max()) / E0) * 1e4
    check(bool(np.all(np.abs(e) <= lim)), "a rigid motion stores energy", got=float(np.abs(e).max()), limit=lim)
    # stress: Hooke's law with the element's own modulus, integrated over the element
    g = ref.Geo(b.mesh, 2)
    lam, mu = nu / ((1 + nu) * (1 - 2 * nu)), 0.5 / (1 + nu)
    A = rs.randn(3, 3)
    L = np.zeros(basis.N)
    L[basis.nodal_dofs] = A @ b.mesh.p
    Ee = fref(rho, E0, Emin, p)
    for what, u in (("linear", L), ("general", U[:, 0])):
        s = np.asarray(composer.stress_tensor_skfem(basis, rho, u, E0, Emin, p, nu, elem_func=func))
        check(s.shape[:3] == (3, 3, b.ne), "stress is not one tensor per element", got=s.shape)
        ue = u[basis.nodal_dofs[:, b.mesh.t]]                       # (3, a, e)
        gr = np.einsum("iae,eqaj->ijeq", ue, g.G)
        eps = 0.5 * (gr + gr.transpose(1, 0, 2, 3))
        sig = Ee[:, None] * (2 * mu * eps + lam * np.einsum("iieq->eq", eps) * np.eye(3)[:, :, None, None])
        close(s, np.einsum("ijeq,eq->ije", sig, g.w), f"element stress of a {what} field", rtol=1e-9)
        if what == "linear":
            ee = 0.5 * (A + A.T)
            want1 = (2 * mu * ee + lam * np.trace(ee) * np.eye(3))[:, :, None] * (Ee * g.volumes())
            close(s, want1, "element stress of a linear field", rtol=1e-9)
            vm = composer.von_mises_from_stress_tensor(s)
            dev = want1 - np.einsum("iie->e", want1) / 3 * np.eye(3)[:, :, None]
            close(vm, np.sqrt(1.5 * np.einsum("ije,ije->e", dev, dev)), "von Mises stress of a linear field", rtol=1e-8)
    return dict(nontrivial=b.ne > 1, tags=[b.kind, c["scheme"], f"{c['loads']} cases"])


# ---- after a solve, energies are half the work
solve_s = st.fixed_dictionaries(dict(el=gen.elastic_s(mesh=gen.mesh_s(maxel=30), maxload=3), fs=gen.num(-5.0, 5.0, 1.0, -0.4, 3.0).map(lambda v: v or 0.5), **mat))


def run_solve(c):
    b = gen.build_mesh(c["el"]["mesh"])
    if len(gen.elastic_model(b, c["el"])["design"]) == 0:
        raise Discard()
    t = gen.make_elastic(b, c["el"])
    func, _ = SCHEME[c["scheme"]]
    rho = gen.field(c["rho"], b.ne)
    fem = FEM_SimpLinearElasticity(t, E_min_coeff=c["ratio"], density_interpolation=func)
    u = np.zeros((t.basis.N, len(c["el"]["load"])))
    comp = np.asarray(fem.objectives_multi_load(rho, c["p"], u, force_scale=c["fs"]))
    e = np.asarray(fem.energy_multi_load(rho, c["p"], u))
    check(e.shape == (b.ne, u.shape[1]), "not one energy per element and case", got=e.shape)
    free = np.setdiff1d(np.arange(t.basis.N), t.dirichlet_dofs)
    for i in range(u.shape[1]):
        f = c["fs"] * np.asarray(t.neumann_linear[i])
        noise = 1e-9 * float(np.abs(f).sum()) * float(np.abs(u[:, i]).max()) * 1e-3 + 1e-12 * abs(comp).max()
        if float(np.abs(f[free]).sum()) <= 1e-6 * float(np.abs(f).sum()):
            continue                                 # the load acts on supported nodes only
        check(abs(e[:, i].sum() - 0.5 * comp[i]) <= 1e-6 * abs(comp[i]) + noise, "element energies do not sum to half the compliance",
              got=float(e[:, i].sum()), want=float(0.5 * comp[i]), case=i)
        check(bool(np.all(e[:, i] >= -1e-15 * abs(comp[i]))), "negative strain energy")
    return dict(nontrivial=bool(np.any(comp > 0)), tags=[b.kind, f"{u.shape[1]} cases"])


# ---- heat
heat_s = st.fixed_dictionaries(dict(mesh=gen.mesh_s(maxel=30), k=gen.lognum(1e-2, 500.0, 1.0, 10.0, 0.2), loads=st.integers(1, 3),
                                    ht=gen.heat_s(objective=("compliance",), robin=lambda r: st.none()), **mat))


def run_heat(c):
    b = gen.build_mesh(c["mesh"])
    basis = gen.scal_basis(b)
    func, fref = SCHEME[c["scheme"]]
    rho = gen.field(c["rho"], b.ne)
    k0, kmin, p = c["k"], c["k"] * c["ratio"], c["p"]
    rs = np.random.RandomState(c["seed"])
    T = 300 + 50 * rs.randn(basis.N, c["loads"])
    Ke = fref(rho, k0, kmin, p)[:, None, None] * ref.heat_Ke(ref.Geo(b.mesh, 2))
    ed = basis.nodal_dofs[0][b.mesh.t].T
    want = np.stack([0.5 * np.einsum("ei,eij,ej->e", T[ed, i], Ke, T[ed, i]) for i in range(c["loads"])], 1)
    got = sh.heat_energy_skfem_multi(basis, rho, T, k0, kmin, p, elem_func=func)
    close(got, want, "element heat energies of several cases", rtol=1e-7)
    check(bool(np.all(np.asarray(got) >= 0)), "negative heat energy")
    for i in range(c["loads"]):
        close(np.ravel(sh.heat_energy_skfem(basis, rho, T[:, i], k0, kmin, p, elem_func=func)), want[:, i], "element heat energies", rtol=1e-7)
    e = sh.heat_energy_skfem_multi(basis, rho, np.full((basis.N, 1), 300.0), k0, kmin, p, elem_func=func)
    check(float(np.abs(e).max()) <= 1e-18 * 300.0 ** 2 * float(np.abs(Ke).max()) * 1e4, "a uniform temperature stores heat energy")
    # energies of a solved problem sum to half its thermal compliance
    hb = gen.build_mesh(c["ht"]["mesh"])
    t = gen.make_heat(hb, c["ht"])
    rho2 = gen.field(c["rho"], hb.ne)
    fem = FEM_SimpLinearHeatConduction(t, E_min_coeff=c["ratio"], density_interpolation=func)
    n = len(gen.heat_cases(c["ht"]))
    u = np.zeros((t.basis.N, n))
    J = np.asarray(fem.objectives_multi_load(rho2, p, u))
    e = np.asarray(fem.energy_multi_load(rho2, p, u))
    check(e.shape == (hb.ne, n), "not one energy per element and case", got=e.shape)
    for i in range(n):
        noise = 1e-10 * float(np.abs(u[:, i]).max()) ** 2 * t.k * float(max(hb.mesh.p.max(), 1.0))
        check(abs(e[:, i].sum() - 0.5 * J[i]) <= 1e-6 * abs(J[i]) + noise, "element heat energies do not sum to half the thermal compliance",
              got=float(e[:, i].sum()), want=float(0.5 * J[i]))
    return dict(nontrivial=b.ne > 1, tags=[b.kind, c["scheme"], f"{c['loads']} cases"])


# ---- von Mises
vm_s = st.fixed_dictionaries(dict(n=gen.one_of(st.integers(1, 6), st.integers(1, 6), st.sampled_from([300, 5000, 20001])), q=st.integers(0, 4), seed=st.integers(0, 100000),
                                  amp=st.sampled_from([1.0, 1e-6, 1e8]), kind=st.sampled_from(["rand", "uniaxial", "shear", "hydro", "diag"]),
                                  pres=st.floats(-10, 10).map(gen.r5)))


def run_vm(c):
    rs = np.random.RandomState(c["seed"])
    sh_ = (c["n"],) + ((c["q"],) if c["q"] else ())
    s = rs.randn(3, 3, *sh_)
    s = 0.5 * (s + np.swapaxes(s, 0, 1))
    d = np.arange(3)
    if c["kind"] == "uniaxial":
        v = s[0, 0].copy()
        s[...] = 0
        k = c["seed"] % 3
        s[k, k] = v
        want = np.abs(v) * c["amp"]
    elif c["kind"] == "shear":
        i, j = [(0, 1), (1, 2), (2, 0)][c["seed"] % 3]
        v = s[i, j].copy()
        s[...] = 0
        s[i, j] = s[j, i] = v
        want = np.sqrt(3) * np.abs(v) * c["amp"]
    elif c["kind"] == "hydro":
        s = np.broadcast_to((np.eye(3) * c["pres"]).reshape((3, 3) + (1,) * len(sh_)), (3, 3) + sh_).copy()
        want = np.zeros(sh_)
    elif c["kind"] == "diag":
        o = s.copy()
        s[...] = 0
        s[d, d] = o[d, d]
        want = None
    else:
        want = None
    s = s * c["amp"]
    keep = s.copy()
    dev = s - np.einsum("ii...->...", s) / 3 * np.eye(3).reshape((3, 3) + (1,) * len(sh_))
    full = np.sqrt(1.5 * np.einsum("ij...,ij...->...", dev, dev))
    top = float(np.abs(s).max())
    vm = composer.von_mises_from_stress_tensor(s)
    check(np.array_equal(s, keep), "the stress was modified")
    check(bool(np.all(np.asarray(vm) >= 0)), "von Mises stress is negative")
    close(vm, full, "von Mises stress", rtol=1e-9, atol=1e-9 * top)
    if want is not None:
        close(vm, want, f"von Mises stress of a {c['kind']} state", rtol=1e-9, atol=1e-9 * top)
    I = np.eye(3).reshape((3, 3) + (1,) * len(sh_))
    close(composer.von_mises_from_stress_tensor(s + c["pres"] * c["amp"] * I), vm, "hydrostatic stress changes the von Mises stress",
          rtol=1e-7, atol=1e-7 * top)
    Q, _ = np.linalg.qr(rs.randn(3, 3))
    close(composer.von_mises_from_stress_tensor(np.einsum("ia,jb,ab...->ij...", Q, Q, s)), vm, "rotating the axes changes the von Mises stress",
          rtol=1e-8, atol=1e-8 * top)
    return dict(nontrivial=c["kind"] != "hydro", tags=[c["kind"], f"rank {len(sh_)}"])


BIG = gen.big_mesh_s((1100, 2600))
FACETS = [
    Facet("large_elastic", st.builds(lambda c, m: dict(c, mesh=m), field_s, BIG), run_elastic, "more than one element", quick=3, thorough=60, qsec=60),
    Facet("large_heat", st.builds(lambda c, m: dict(c, mesh=m, ht=dict(c["ht"], mesh=m)), heat_s, gen.big_mesh_s((1100,))), run_heat, "more than one element", quick=3, thorough=60, qsec=60),
    Facet("large_solved", st.builds(lambda c, m: dict(c, el=dict(c["el"], mesh=m)), solve_s, gen.big_mesh_s((1100,))), run_solve, "the load does work", quick=4, thorough=60, qsec=60),
    Facet("elastic", field_s, run_elastic, "more than one element", quick=250, thorough=8000, qsec=60, shards=2),
    Facet("many", st.builds(lambda c, n: dict(c, loads=n), field_s, st.integers(4, 20)), run_elastic, "more than one element", quick=40, thorough=1200, qsec=30),
    Facet("many_solved", st.builds(lambda c, e: dict(c, el=e), solve_s, gen.elastic_s(mesh=gen.many_mesh_s(), **gen.MANY)), run_solve, "the load does work",
          quick=40, thorough=1200, qsec=40),
    Facet("many_heat", st.builds(lambda c, n: dict(c, loads=n), heat_s, st.integers(4, 20)), run_heat, "more than one element", quick=40, thorough=1200, qsec=30),
    Facet("solved", solve_s, run_solve, "the load does work", quick=150, thorough=5000, qsec=60, shards=2),
    Facet("heat", heat_s, run_heat, "more than one element", quick=150, thorough=5000, qsec=60, shards=2),
    Facet("von_mises", vm_s, run_vm, "not a hydrostatic state", quick=400, thorough=10000, qsec=30),
]
ASSUMPTIONS = ["element stress is documented as a per-element tensor; the code integrates it over the element, which is what is stated and checked"]
