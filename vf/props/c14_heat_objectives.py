"""C14: thermal objectives and the sensitivities used for the update."""
import numpy as np
from hypothesis import strategies as st

import skfem

from .. import gen, ref
from ..core import Discard, Facet, check, close
from ..heatref import BGeo, HeatProblem
from .c13_heat_solve import SCHEME, meshes, mostly

from sktopt.fea import FEM_SimpLinearHeatConduction, solver_heat

base = dict(rho=gen.field_s(), p=gen.num(1.0, 6.0, 1.0, 3.0, 2.2), scheme=st.sampled_from(["simp", "ramp"]),
            ratio=gen.lognum(1e-6, 0.3, 1e-3, 1e-2, 1e-5))


def build(c, lo=1e-3, hi=1.0):
    h = c["ht"]
    b = gen.build_mesh(h["mesh"])
    if len(gen.heat_model(b, h)["design"]) == 0:
        raise Discard()
    t = gen.make_heat(b, h)
    rho = gen.field(c["rho"], b.ne, lo, hi)
    func, fref = SCHEME[c["scheme"]]
    fem = FEM_SimpLinearHeatConduction(t, E_min_coeff=c["ratio"], density_interpolation=func)
    P = HeatProblem(h, rho, fref, c["ratio"], c["p"], basis=t.basis)
    return b, t, rho, fem, P


# ---- objectives
def weak(x):
    """Heat exchange with a coefficient scaled down (weakly coupled surroundings) and any weight of the mean temperature."""
    h, f, w, T = x
    return dict(h, robin=[dict(r, h=r["h"] * f, T=(r["T"] or T)) for r in h["robin"]], weight=w)


weak_s = st.tuples(gen.heat_s(mesh=meshes(), objective=("heat_exchange",), robin=lambda r: r, common_robin=True),
                   st.sampled_from([1.0, 1e-3, 1e-6, 1e-8]), st.sampled_from([0.3, 0.3, 2.0, 0.0, -0.5]), st.sampled_from([600.0, 33.0])).map(weak)
obj_s = st.fixed_dictionaries(dict(
    ht=gen.one_of(gen.heat_s(mesh=meshes(), objective=("compliance", "averaged_temp"), robin=mostly),
                 gen.heat_s(mesh=meshes(units=(1.0, 1.0, 0.05)), objective=("heat_exchange",), robin=lambda r: r, common_robin=True), weak_s), **base))


def run_objective(c):
    b, t, rho, fem, P = build(c)
    h = c["ht"]
    n = len(P.D)
    u = np.zeros((t.basis.N, n))
    J = np.asarray(fem.objectives_multi_load(rho, c["p"], u), float)
    check(J.shape == (n,), "not one objective per load case", got=J.shape, want=n)
    T = u[P.nd]
    S = P.scale()
    if h["objective"] == "compliance":
        want = np.einsum("ai,ab,bi->i", T, P.Kall, T)
        at = 1e-10 * S ** 2 * float(np.abs(P.Kall).sum())
    elif h["objective"] == "averaged_temp":
        want = T.sum(0)
        at = 1e-10 * S * len(T)
    else:
        g = BGeo(skfem.CellBasis(b.mesh, t.basis.elem))
        face = np.sqrt((np.einsum("eqai,ae->eqi", g.G, P.rn[b.mesh.t]) ** 2).sum(-1)) * g.w
        den = face.sum()
        if den < 1e-10:                       # no interface
            if den <= 1e-16:
                close(J, np.zeros(n), "objective without an interface")
            return dict(nontrivial=False, tags=["no interface"])
        hh, Te = P.pairs[0]
        Tq = np.einsum("qa,aei->eqi", g.N, T[b.mesh.t])
        hx = -np.einsum("eqi,eq->i", Te * hh * (Tq - Te), face) / den
        at = 1e-9 * abs(Te) * hh * S
        want = hx
        if h["weight"]:
            avg = T.sum(0)
            w = h["weight"]
            if n > 1:
                if np.mean(np.abs(hx)) < max(1e-6 * abs(Te) * hh * S, 1e-11) or np.mean(np.abs(avg)) < 1e-6 * S:
                    raise Discard()           # normalised by a vanishing magnitude
                want = hx / np.mean(np.abs(hx)) + w * avg / np.mean(np.abs(avg))
                at = 1e-7
            else:
                want = hx + w * avg
                at += 1e-9 * S * len(T)
    close(J, want, f"{h['objective']} objective", rtol=1e-6, atol=at)
    return dict(nontrivial=bool(np.ptp(u) > 1e-6 * S), tags=[h["objective"], f"{n} cases", b.kind])


# ---- sensitivities: derivative of the thermal potential 2 f.T - T.K.T at fixed temperature
sens_s = st.fixed_dictionaries(dict(
    ht=gen.one_of(gen.heat_s(mesh=meshes(), objective=("compliance",), robin=mostly),
                 gen.heat_s(mesh=meshes(), objective=("averaged_temp",), robin=mostly),
                 gen.heat_s(mesh=meshes(), objective=("heat_exchange",), robin=lambda r: r, common_robin=True)),
    solved=st.booleans(), tseed=st.integers(0, 1000), span=st.sampled_from([(0.02, 0.98), (0.02, 0.98), (1e-3, 1.0), (1e-3, 0.03), (0.97, 1.0)]), **base))


def dk(scheme, rho, k0, kmin, p):
    if scheme == "simp":
        return p * (k0 - kmin) * rho ** (p - 1)
    return (k0 - kmin) * (1 + p) / (1 + p * (1 - rho)) ** 2


def run_sens(c):
    b, t, rho, fem, P = build(c, *c.get("span", (0.02, 0.98)))
    h = c["ht"]
    n = len(P.D)
    u = np.zeros((t.basis.N, n))
    if c["solved"]:
        fem.objectives_multi_load(rho, c["p"], u)
    else:
        u[:] = 300 + 40 * np.random.RandomState(c["tseed"]).randn(*u.shape)
    keep = u.copy()
    G = np.asarray(fem.compliance_sensitivity_multi_load(rho, c["p"], u))
    check(G.shape == (b.ne, n), "not one sensitivity per element and case", got=G.shape)
    check(np.array_equal(u, keep), "the temperatures were modified")
    T = u[P.nd]
    Te = T[b.mesh.t]                                          # (a, e, i)
    cond = -dk(c["scheme"], rho, P.k0, P.kmin, c["p"])[:, None] * np.einsum("aei,eab,bei->ei", Te, P.Ke1, Te)
    want, at = cond, 1e-9 * float(np.abs(P.Ke1).max()) * float(np.abs(T).max()) ** 2 * P.k0
    inter = False
    if h["objective"] == "compliance" and P.pairs:
        small = P.face < 1e-6 * max(1.0, float(P.face.max()))
        if small.any():
            # |grad rho| has no derivative there: only the conduction part is defined
            raise Discard()
        inter = True
        a = P.rq ** c["p"] * (1 - P.rq) ** P.q
        da = c["p"] * P.rq ** (c["p"] - 1) * (1 - P.rq) ** P.q - P.q * P.rq ** c["p"] * (1 - P.rq) ** (P.q - 1)
        add = np.zeros_like(cond)
        Tq = np.einsum("qa,aei->eqi", P.g.N, Te)
        for hh, Tenv in P.pairs:
            phi = 2 * Tenv * Tq - Tq ** 2
            dn = np.einsum("eq,eqi,qa,eq->eai", da * P.face, phi, P.g.N, P.g.w) \
                + np.einsum("eq,eqi,eqk,eqak->eai", a * P.g.w / P.face, phi, P.gr, P.g.G)
            node = np.zeros((b.mesh.p.shape[1], n))
            np.add.at(node, b.mesh.t.T, hh * dn)
            add += (node / P.cnt[:, None])[b.mesh.t].sum(0)
        want = cond + add
        at += 1e-9 * float(np.abs(add).max())
    close(G, want, "sensitivity of the thermal potential", rtol=1e-7, atol=at)
    if inter and rho.min() >= 0.02 and rho.max() <= 0.98:
        # the same through finite differences of the reference potential, in a random direction
        d = np.random.RandomState(c["tseed"]).uniform(-1, 1, b.ne)
        e = 1e-6
        fr = SCHEME[c["scheme"]][1]
        val, big = [], 0.0
        for s in (1, -1):
            Q = HeatProblem(h, rho + s * e * d, fr, c["ratio"], c["p"], basis=t.basis)
            val.append(2 * Q.f @ T - np.einsum("ai,ab,bi->i", T, Q.Kall, T))
            big = max(big, float(np.max(2 * np.abs(Q.f) @ np.abs(T) + np.einsum("ai,ab,bi->i", np.abs(T), np.abs(Q.Kall), np.abs(T)))))
        fd = (val[0] - val[1]) / (2 * e)
        tol = 1e-3 * np.abs(d @ np.abs(want)) + 1e-3 * np.abs(want).max() + (1e-9 * np.abs(val[0]) + 1e-13 * big) / e
        check(bool(np.all(np.abs(fd - d @ G) <= tol)), "sensitivity differs from the finite difference of the potential",
              got=(d @ G).tolist(), want=fd.tolist())
    return dict(nontrivial=bool(np.abs(want).max() > at * 10), tags=[h["objective"], "interface" if inter else "conduction", c["scheme"]])


def run_reject(c):
    h = dict(c["ht"], objective="heat_exchange", robin=None)
    b = gen.build_mesh(h["mesh"])
    if len(gen.heat_model(b, h)["design"]) == 0:
        raise Discard()
    t = gen.make_heat(b, h)
    fem = FEM_SimpLinearHeatConduction(t, E_min_coeff=1e-3)
    try:
        fem.objectives_multi_load(np.full(b.ne, 0.5), 3.0, np.zeros((t.basis.N, t.n_tasks)))
    except Exception:
        pass
    else:
        check(False, "heat exchange was evaluated without any convection data")
    try:
        gen.make_heat(b, dict(h, objective="heat"))
    except ValueError:
        pass
    else:
        check(False, "an unknown objective was accepted")
    return dict(nontrivial=True)


# ---- the functionals themselves, element by element and case by case
func_s = st.fixed_dictionaries(dict(mesh=meshes(units=(1.0, 1.0, 0.1, 1e-2, 1e3)), n=st.integers(1, 4), Te=st.sampled_from([0.0, 20.0, 300.0, -5.5]),
                                    off=st.sampled_from([0.0, 300.0]), seed=st.integers(0, 999), h=st.sampled_from([0.0, 0.2, 7.0]),
                                    rho=gen.field_s()))


def run_functional(c):
    b = gen.build_mesh(c["mesh"])
    basis = gen.scal_basis(b)
    nd = basis.nodal_dofs[0]
    rs = np.random.RandomState(c["seed"])
    T = c["off"] + 30 * rs.randn(basis.N, c["n"])
    L = rs.randn(basis.N, c["n"])
    keep = T.copy(), L.copy()
    te = b.mesh.t
    g = BGeo(basis)
    Ke1 = np.einsum("eqak,eqbk,eq->eab", g.G, g.G, g.w)
    Tn, Ln = T[nd], L[nd]
    mean = np.einsum("qa,aei,eq->ei", g.N, Tn[te] - c["Te"], g.w)
    S = float(np.abs(T).max() + abs(c["Te"])) * float(g.w.sum(1).max())
    close(np.asarray(solver_heat.avg_temp_skfem_multi(basis, T, c["Te"])), mean, "mean temperature per element and case", rtol=1e-9, atol=1e-11 * S)
    for i in range(c["n"]):
        close(np.asarray(solver_heat.avg_temp_skfem(basis, T[:, i], c["Te"])), mean[:, i], "mean temperature per element", rtol=1e-9, atol=1e-11 * S)
    w = np.einsum("aei,eab,bei->ei", Tn[te], Ke1, Ln[te])
    at = 1e-9 * float(np.abs(Ke1).max()) * float(np.abs(T).max())
    close(np.asarray(solver_heat.heat_exchange_grad_density_multi(basis, T, L)), w, "adjoint coupling of the heat-exchange objective", rtol=1e-7, atol=at)
    close(np.asarray(solver_heat.avg_temp_grad_density_multi(basis, T, L)), w, "adjoint coupling of the mean temperature", rtol=1e-7, atol=at)
    check(np.array_equal(T, keep[0]) and np.array_equal(L, keep[1]), "the fields were modified")
    rn = np.random.RandomState(c["seed"] + 1).uniform(0, 1, basis.N)
    face = np.sqrt((np.einsum("eqai,ae->eqi", g.G, rn[nd][te]) ** 2).sum(-1)) * g.w
    for i in range(c["n"]):
        num = -np.einsum("eq,eq->", c["Te"] * c["h"] * (np.einsum("qa,ae->eq", g.N, Tn[:, i][te]) - c["Te"]), face)
        close(float(solver_heat.heat_exchange_objective(basis, T[:, i], rn, c["Te"], c["h"])), num / face.sum(), "heat exchanged per interface area",
              rtol=1e-9, atol=1e-10 * c["h"] * abs(c["Te"]) * (float(np.abs(T).max()) + abs(c["Te"])))
    check(abs(solver_heat.heat_exchange_objective(basis, T[:, 0], np.zeros(basis.N), c["Te"], c["h"])) == 0.0,
          "heat exchange without an interface")
    return dict(nontrivial=c["n"] > 1, tags=[b.kind, f"{c['n']} cases"])


def large(s):
    return st.builds(lambda c, m: dict(c, ht=dict(c["ht"], mesh=m)), s, gen.big_mesh_s((600, 1300)))


many_ht = gen.one_of(gen.heat_s(mesh=gen.many_mesh_s(), objective=("compliance", "averaged_temp"), robin=mostly, **gen.MANY_HEAT),
                    gen.heat_s(mesh=gen.many_mesh_s(), objective=("heat_exchange",), robin=lambda r: r, common_robin=True, **gen.MANY_HEAT))


def many(s):
    return st.builds(lambda c, h: dict(c, ht=h), s, many_ht)


FACETS = [
    Facet("many_functionals", st.builds(lambda c, n: dict(c, n=n), func_s, st.integers(5, 16)), run_functional, "several load cases", quick=30, thorough=800, qsec=30),
    Facet("many_objective", many(obj_s), run_objective, "temperatures vary", quick=50, thorough=1500, qsec=50),
    Facet("many_sensitivity", many(sens_s), run_sens, "some sensitivity is non-zero", quick=50, thorough=1500, qsec=50),
    Facet("large_objective", large(obj_s), run_objective, "temperatures vary", quick=4, thorough=60, qsec=60),
    Facet("large_sensitivity", large(sens_s), run_sens, "some sensitivity is non-zero", quick=4, thorough=60, qsec=60),
    Facet("functionals", func_s, run_functional, "several load cases", quick=120, thorough=3000, qsec=40),
    Facet("objective", obj_s, run_objective, "temperatures vary", quick=300, thorough=8000, qsec=60, shards=2),
    Facet("sensitivity", sens_s, run_sens, "some sensitivity is non-zero", quick=400, thorough=10000, qsec=60, shards=2),
    Facet("reject", st.fixed_dictionaries(dict(ht=gen.heat_s(mesh=gen.mesh_s(maxel=12)))), run_reject, "all", quick=20, thorough=100, qsec=20),
]
ASSUMPTIONS = ["heat exchange is checked with one common convection coefficient and ambient temperature (lists are rejected by the code)",
               "interface sensitivities are checked where the density gradient does not vanish (|grad rho| is not differentiable at 0)"]
