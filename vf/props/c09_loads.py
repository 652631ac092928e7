"""C09: surface load vectors against independent surface integrals."""
import os

import meshio
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Discard, Facet, check, close, scratch
from .c08_partition import must_reject

from sktopt.mesh import LinearElasticity, toy_problem
from sktopt.mesh.task_elastic import assemble_surface_forces
from sktopt.mesh.task_heat import assemble_surface_neumann

mesh_s = gen.one_of(gen.mesh_s(maxel=40), gen.mesh_s(maxn=6, maxel=160))
case_s = st.fixed_dictionaries(dict(el=gen.elastic_s(mesh=mesh_s, maxload=4), via=st.sampled_from(["function", "problem"]),
                                    intorder=st.sampled_from([2, 3, 1])))


def run(c):
    el = c["el"]
    b = gen.build_mesh(el["mesh"])
    basis = gen.vec_basis(b, c["intorder"])
    args = gen.elastic_args(b, el, basis=basis)
    if c["via"] == "problem" and len(gen.elastic_model(b, el)["design"]) == 0:
        c = dict(c, via="function")
    if c["via"] == "problem":
        with gen.hush():
            t = LinearElasticity.from_facets(*args)
        F = t.neumann_linear
        check(isinstance(F, list), "load vectors are not a list of cases")
        check(t.n_tasks == len(el["load"]), "number of load cases")
        f = t.force
        for i, x in enumerate(F):
            y = f if len(F) == 1 else f[i]
            check(np.array_equal(np.asarray(x), np.asarray(y)), "problem.force is not the list of load vectors")
    else:
        F = assemble_surface_forces(basis, args[3], args[4], args[5])
        F = [F] if isinstance(F, np.ndarray) else list(F)
    check(len(F) == len(el["load"]), "not one load vector per region", got=len(F))
    for vec, s in zip(F, el["load"]):
        vec = np.asarray(vec)
        check(vec.shape == (basis.N,), "load vector has another size")
        fac = gen.facets_of(b, s["reg"])
        comp = int(s["dir"][2]) - 1
        dist, area = ref.surface_load(b.mesh, fac)
        V = vec[basis.nodal_dofs]
        tol = 1e-9 * abs(s["val"])
        check(abs(V[comp].sum() - s["val"]) <= tol, "load components do not sum to the requested force",
              got=float(V[comp].sum()), want=s["val"])
        for k in range(3):
            if k != comp:
                check(bool(np.all(np.abs(V[k]) <= tol)), "load acts in another direction", dir=s["dir"], comp=k)
        off = np.setdiff1d(np.arange(b.mesh.p.shape[1]), gen.nodes_of(b.mesh, fac))
        check(bool(np.all(np.abs(V[comp, off]) <= tol)), "load acts on nodes outside its region")
        close(V[comp], s["val"] * dist / area, "load is not a uniform traction", rtol=1e-8, atol=tol)
    return dict(nontrivial=True, tags=[b.kind, f"{len(F)} cases", c["via"], el["mesh"]["map"]])


bad_s = st.fixed_dictionaries(dict(mesh=gen.mesh_s(maxel=12), kind=st.sampled_from(["dir", "nvals", "ndirs", "nfacets"]),
                                   word=st.sampled_from(["", "x", "u", "u^", "u^0", "u^x", "u2", "U^1", "v^2"]),
                                   n=st.integers(1, 3), extra=st.integers(1, 2)))


def run_bad(c):
    b = gen.build_mesh(c["mesh"])
    basis = gen.vec_basis(b)
    f = [gen.facets_of(b, dict(face=i, mode="all", k=0)) for i in range(c["n"])]
    d, v = ["u^1"] * c["n"], [1.0] * c["n"]
    if c["kind"] == "dir":
        d[-1] = c["word"]
    elif c["kind"] == "nvals":
        v = v + [2.0] * c["extra"]
    elif c["kind"] == "ndirs":
        d = d + ["u^1"] * c["extra"]
    else:
        f = f + [f[0]] * c["extra"]
    must_reject(assemble_surface_forces, f"an inconsistent load definition was accepted ({c['kind']})", basis, f, d, v)
    return dict(nontrivial=True, tags=[c["kind"]])


# ---- the packaged sample problems
SAMPLE = dict(down=((4.0, 0.16, 2.0), 2, -800.0), down_box=((4.0, 3.0, 2.0), 2, -800.0), pull=((8.0, 3.0, 0.5), 0, 1200.0), pull_2=((4.0, 2.0, 0.5), 0, 200.0))
sample_s = st.fixed_dictionaries(dict(name=st.sampled_from(list(SAMPLE) + ["base", "base"]), kind=st.sampled_from(["hex", "tet"]),
                                      n=st.tuples(st.integers(1, 5), st.integers(1, 6), st.integers(1, 5)).map(list), ext=st.sampled_from(["vtu", "msh"]),
                                      size=st.sampled_from([4.0, 2.0, 1.5, 1.0, 0.8])))


def run_sample(c):
    if c["name"] == "base":
        L, comp, val = (8.0, 6.0, 4.0), 2, -100.0
        m = toy_problem.create_box_hex(*L, c["size"])
        rng = ((L[0] - 1.2, L[0] + 0.1), (L[1] * 2 / 5, L[1] * 3 / 5), (L[2] - 1.2, L[2]))
        sup = ((0, 0.03), (0, L[1]), (0, L[2]))
        build = lambda: toy_problem.toy_base(c["size"])
    else:
        L, comp, val = SAMPLE[c["name"]]
        n = c["n"]
        if c["kind"] == "tet":
            n = [min(n[0], 3), min(n[1], 5), min(n[2], 3)]
        b = gen.build_mesh(dict(kind=c["kind"], n=n, len=list(L), grade=[1.0] * 3, map="none", amt=0.0, perm=0, unit=1.0))
        if b.kind == "tet":
            cells = [("tetra", b.mesh.t.T)]
        else:
            vtk = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]
            o = [int(np.flatnonzero((ref.HEX_REF == np.array(v)).all(axis=1))[0]) for v in vtk]
            cells = [("hexahedron", b.mesh.t[o].T)]
        path = os.path.join(scratch(), "m." + c["ext"])
        meshio.write(path, meshio.Mesh(b.mesh.p.T, cells), **(dict(file_format="gmsh22") if c["ext"] == "msh" else {}))
        m = b.mesh
        d = np.linalg.norm(m.p[:, 1:] - m.p[:, :1], axis=0)
        e = float(d.min()) * 0.8
        rng = {"down": ((L[0] - e, L[0] + 0.05), (L[1] / 2 - e, L[1] / 2 + e), (0.0, e)), "down_box": ((L[0] - e, L[0] + 0.05), (0, L[1]), (0.0, e)),
               "pull": ((L[0] - e, L[0] + 0.05), (L[1] * 2 / 5, L[1] * 3 / 5), (L[2] * 2 / 5, L[2] * 3 / 5)),
               "pull_2": ((L[0] - e, L[0] + 0.05), (L[1] / 2 - e, L[1] / 2 + e), (L[2] * 2 / 5, L[2] * 3 / 5))}[c["name"]]
        sup = ((0, 0.05), (0, L[1]), (0, L[2]))
        build = lambda: toy_problem.toy_msh(c["name"], path)

    def sel(m, r, tol):
        mid = m.p[:, m.facets].mean(axis=1)
        return np.flatnonzero(np.all([(mid[k] >= r[k][0] + tol) & (mid[k] <= r[k][1] - tol) for k in range(3)], axis=0))
    fac = sel(m, rng, 0.0)
    if len(fac) == 0 or not (np.array_equal(fac, sel(m, rng, 1e-9)) or c["name"] == "base") or not np.array_equal(fac, sel(m, rng, -1e-9)):
        raise Discard()                                  # nothing to load, or a facet on the edge of the range
    with gen.hush():
        try:
            t = build()
        except ValueError:
            # on very coarse meshes nothing is left to design: every element touches the load
            check(len(gen.elems_touching(m, gen.nodes_of(m, fac))) == m.t.shape[1], "a sample problem was refused", sample=c["name"])
            raise Discard()
    m = t.mesh
    fac = sel(m, rng, 0.0)
    F = t.neumann_linear if isinstance(t.neumann_linear, list) else [t.neumann_linear]
    check(len(F) == 1, "a sample problem has one load case")
    V = np.asarray(F[0])[t.basis.nodal_dofs]
    dist, area = ref.surface_load(m, fac)
    for k in range(3):
        close(V[k], (val if k == comp else 0.0) * dist / area, "load of a sample problem", rtol=1e-8, atol=1e-9 * abs(val), sample=c["name"])
    sn = gen.nodes_of(m, sel(m, sup, 0.0))
    check(np.array_equal(np.unique(t.dirichlet_dofs), np.unique(t.basis.nodal_dofs[:, sn])), "support of a sample problem", sample=c["name"])
    loaded = gen.elems_touching(m, gen.nodes_of(m, fac))
    check(np.array_equal(np.sort(t.design_elements), np.setdiff1d(np.arange(m.t.shape[1]), loaded)), "design domain of a sample problem", sample=c["name"])
    return dict(nontrivial=True, tags=[c["name"]])


# ---- the fixed sample problems
HALF = ((8.0 - 1.2, 8.1), (6.0 * 2 / 5, 6.0 * 3 / 5), (4.0 - 1.2, 4.0))
TOYS = dict(toy_test=((8.0, 6.0, 4.0), 1.0, [(HALF, 2, -100.0)]), toy1=((8.0, 6.0, 4.0), 0.3, [(HALF, 2, -100.0)]), toy1_fine=((8.0, 6.0, 4.0), 0.2, [(HALF, 2, -100.0)]),
            toy2=((8.0, 8.0, 1.0), 0.3, [(((8.0, 8.0), (7.7, 8.0), (0.0, 1.0)), 1, -1.0), (((8.0, 8.0), (0.0, 0.3), (0.0, 1.0)), 1, 1.0)]))
toy_s = st.fixed_dictionaries(dict(name=st.sampled_from(list(TOYS))))


def run_toy(c):
    L, size, loads = TOYS[c["name"]]
    with gen.hush():
        t = getattr(toy_problem, c["name"])()
    m = t.mesh
    check(np.allclose(m.p.min(axis=1), 0.0, atol=1e-12) and np.allclose(m.p.max(axis=1), L, rtol=1e-12), "box of a sample problem", got=m.p.max(axis=1).tolist())
    edge = max(float((m.p[k, m.t].max(axis=0) - m.p[k, m.t].min(axis=0)).max()) for k in range(3))
    check(edge <= size * 1.5, "the mesh of a sample problem is coarser than its size", got=edge, want=size)
    F = t.neumann_linear
    check(len(F) == len(loads) == t.n_tasks, "load cases of a sample problem", got=len(F))
    mid = m.p[:, m.facets].mean(axis=1)
    loaded = []
    for f, (rng, comp, val) in zip(F, loads):
        V = np.asarray(f)[t.basis.nodal_dofs]
        ok = []
        for tol in (0.0, 1e-9, -1e-9):         # a facet may sit on the edge of a range
            fac = np.flatnonzero(np.all([(mid[k] >= rng[k][0] + (tol if rng[k][0] < rng[k][1] else -1e-9)) & (mid[k] <= rng[k][1] - (tol if rng[k][0] < rng[k][1] else -1e-9))
                                         for k in range(3)], axis=0))
            dist, area = ref.surface_load(m, fac)
            if all(np.allclose(V[k], (val if k == comp else 0.0) * dist / area, rtol=1e-8, atol=1e-9 * abs(val)) for k in range(3)):
                ok.append(fac)
        check(ok, "load of a sample problem", total=V.sum(axis=1).tolist(), want=val)
        loaded.append(gen.elems_touching(m, gen.nodes_of(m, ok[0])))
    sn = np.flatnonzero(m.p[0] < 1e-9)
    check(np.array_equal(np.unique(np.concatenate([np.ravel(d) for d in t.dirichlet_dofs]) if isinstance(t.dirichlet_dofs, list) else t.dirichlet_dofs),
                         np.unique(t.basis.nodal_dofs[:, sn])), "support of a sample problem")
    check(np.array_equal(np.sort(t.design_elements), np.setdiff1d(np.arange(m.t.shape[1]), np.unique(np.concatenate(loaded)))), "design domain of a sample problem")
    return dict(nontrivial=True, tags=[c["name"]])


# ---- prescribed heat flux
flux_s = st.fixed_dictionaries(dict(mesh=mesh_s, regs=st.lists(gen.region_s(), min_size=1, max_size=4), vals=st.lists(st.sampled_from([1.0, -3.5, 1e-4, 2e5, 0.0, 7]), min_size=4, max_size=4),
                                    aslist=st.booleans(), bad=st.sampled_from([None] * 5 + ["vals", "regs"]), order=st.sampled_from([1, 2, 3])))


def run_flux(c):
    b = gen.build_mesh(c["mesh"])
    basis = gen.scal_basis(b, c["order"])
    fac = [gen.facets_of(b, r) for r in c["regs"]]
    val = c["vals"][:len(fac)]
    if c["bad"]:
        f, v = (fac, val + [1.0]) if c["bad"] == "vals" else (fac + [fac[0]], val)
        must_reject(assemble_surface_neumann, "an inconsistent flux definition was accepted", basis, f, v)
    one = len(fac) == 1 and not c["aslist"]
    Q = assemble_surface_neumann(basis, fac[0] if one else fac, val[0] if one else val)
    Q = [Q] if isinstance(Q, np.ndarray) else list(Q)
    check(len(Q) == len(fac), "not one flux vector per region", got=len(Q))
    for q, f, v in zip(Q, fac, val):
        dist, area = ref.surface_load(b.mesh, f)
        q = np.asarray(q)
        check(q.shape == (basis.N,), "flux vector has another size")
        close(q[basis.nodal_dofs[0]], v * dist, "flux vector is not the integral of a uniform flux", rtol=1e-8, atol=1e-10 * abs(v) * area)
        check(abs(q.sum() - v * area) <= 1e-9 * abs(v) * area, "total heat is not flux times area", got=float(q.sum()), want=v * area)
    return dict(nontrivial=any(val), tags=[b.kind, f"{len(fac)} regions"])


FACETS = [
    Facet("toys", toy_s, run_toy, "a sample problem was built", quick=4, thorough=8, qsec=60, tsec=200),
    Facet("flux", flux_s, run_flux, "a non-zero flux was integrated", quick=120, thorough=3000, qsec=60),
    Facet("samples", sample_s, run_sample, "a sample problem was built", quick=120, thorough=1200, qsec=40),
    Facet("traction", case_s, run, "a load vector was assembled", quick=300, thorough=8000, qsec=60, shards=2),
    Facet("many", st.builds(lambda c, e: dict(c, el=e), case_s, gen.elastic_s(mesh=mesh_s, **gen.MANY)), run, "a load vector was assembled",
          quick=50, thorough=1500, qsec=40),
    Facet("large", st.builds(lambda c, m: dict(c, el=dict(c["el"], mesh=m)), case_s, gen.big_mesh_s((1100, 4200, 9000))), run, "a load vector was assembled",
          quick=5, thorough=100, qsec=60),
    Facet("rejected", bad_s, run_bad, "an inconsistent definition was offered", quick=80, thorough=1000, qsec=40),
]
