"""C10: assembled stiffness and conductivity matrices against independent element matrices."""
import os

import meshio
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Facet, check, close, scratch

from sktopt.fea import composer
from sktopt.mesh import loader

mat_s = st.fixed_dictionaries(dict(
    E0=gen.lognum(1e-4, 1e12, 1.0, 210e3, 7.5, 1e-3, 2.1e11), ratio=gen.lognum(1e-9, 0.5, 1e-3, 1e-6, 0.1, 1e-9), p=gen.num(1.0, 7.0, 1.0, 3.0, 2.5, 5.0),
    nu=gen.one_of(gen.nu_s, gen.num(-0.9, 0.499)), scheme=st.sampled_from(["simp", "ramp"]), form=st.sampled_from(["func", "named", "default"]),
    rho=gen.field_s(), intorder=st.sampled_from([2, 3, 4])))
case_s = st.fixed_dictionaries(dict(mesh=gen.mesh_s(maxel=24, units=(1.0, 1.0, 1e-3, 1e3)), mat=mat_s, A=st.lists(st.integers(-3, 3), min_size=9, max_size=9),
                                    perm2=st.integers(1, 40)))


def npts(kind, intorder):
    return {2: 2, 3: 2, 4: 3}[intorder] if kind == "hex" else 2


def modulus(m, rho, scheme):
    return (ref.simp if scheme == "simp" else ref.ramp)(rho, m["E0"], m["E0"] * m["ratio"], m["p"])


def scheme_of(m):
    return "simp" if m["form"] == "default" else m["scheme"]


def assemble_elastic(m, basis, rho):
    a = (basis, rho, m["E0"], m["E0"] * m["ratio"], m["p"], m["nu"])
    if m["form"] == "default":
        return composer.assemble_stiffness_matrix(*a)
    if m["form"] == "named":
        return (composer.assemble_stiffness_matrix_simp if m["scheme"] == "simp" else composer.assemble_stiffness_matrix_ramp)(*a)
    return composer.assemble_stiffness_matrix(*a, composer.simp_interpolation if m["scheme"] == "simp" else composer.ramp_interpolation)


def assemble_heat(m, basis, rho):
    a = (basis, rho, m["E0"], m["E0"] * m["ratio"], m["p"])
    if m["form"] == "default":
        return composer.assemble_conduction_matrix(*a)
    return composer.assemble_conduction_matrix(*a, composer.simp_interpolation if m["scheme"] == "simp" else composer.ramp_interpolation)


def renumber(b, seed):
    rs = np.random.RandomState(seed)
    no, eo = rs.permutation(b.mesh.p.shape[1]), rs.permutation(b.ne)
    m = type(b.mesh)(np.ascontiguousarray(b.mesh.p[:, no]), np.ascontiguousarray(np.argsort(no)[b.mesh.t][:, eo]))
    return gen.Built(m, b.ref[:, no], b.spec), no, eo


def run_elastic(c):
    b = gen.build_mesh(c["mesh"])
    m = c["mat"]
    basis = gen.vec_basis(b, m["intorder"])
    rho = gen.field(m["rho"], b.ne)
    keep = rho.copy()
    K = assemble_elastic(m, basis, rho)
    K = np.asarray(K.todense())
    check(np.array_equal(rho, keep), "assembly modified the density")
    E = modulus(m, rho, scheme_of(m))
    geo = ref.Geo(b.mesh, npts(b.kind, m["intorder"]))
    ed = ref.edofs(b.mesh, basis, 3)
    want = ref.assemble(E[:, None, None] * ref.elastic_Ke(geo, m["nu"]), ed, basis.N)
    sc = float(np.abs(want).max())
    close(K, want, "stiffness is not the sum of element matrices of the elastic model", rtol=1e-9)
    check(float(np.abs(K - K.T).max()) <= 1e-10 * sc, "stiffness is not symmetric")
    X = b.mesh.p
    nd = basis.nodal_dofs
    modes = []
    for k in range(3):
        u = np.zeros(basis.N)
        u[nd[k]] = 1.0
        modes.append(u)
        r = np.zeros(basis.N)
        i, j = (k + 1) % 3, (k + 2) % 3
        r[nd[i]], r[nd[j]] = -X[j], X[i]
        modes.append(r)
    for u in modes:
        check(float(np.abs(K @ u).max()) <= 1e-8 * sc * max(1.0, float(np.abs(u).max())), "a rigid motion produces forces")
    if basis.N <= 150:
        w = np.linalg.eigvalsh((K + K.T) / 2)
        check(w[0] >= -1e-8 * sc, "stiffness is not positive semi-definite", smallest=float(w[0]))
    A = np.array(c["A"], float).reshape(3, 3)
    u = np.zeros(basis.N)
    u[nd] = A @ X
    eps = (A + A.T) / 2
    lam, mu = m["nu"] / ((1 + m["nu"]) * (1 - 2 * m["nu"])), 0.5 / (1 + m["nu"])
    dens = lam * np.trace(eps) ** 2 + 2 * mu * np.sum(eps * eps)
    exact = float(np.sum(E * ref.Geo(b.mesh, 2).volumes()) * dens)
    got = float(u @ (K @ u))
    scale = sc * float(u @ u) * 1e-9 + 1e-9 * abs(exact)
    check(abs(got - exact) <= scale, "energy of a linear displacement field", got=got, want=exact)
    b2, no, eo = renumber(b, c["perm2"])
    basis2 = gen.vec_basis(b2, m["intorder"])
    K2 = np.asarray(assemble_elastic(m, basis2, rho[eo]).todense())
    idx = np.zeros(basis.N, int)
    idx[basis2.nodal_dofs] = nd[:, no]
    close(K2, K[np.ix_(idx, idx)], "stiffness changes under renumbering", rtol=1e-9)
    return dict(nontrivial=bool(np.ptp(rho) > 0), tags=[b.kind, scheme_of(m), c["mesh"]["map"]])


def run_heat(c):
    b = gen.build_mesh(c["mesh"])
    m = c["mat"]
    basis = gen.scal_basis(b, m["intorder"])
    rho = gen.field(m["rho"], b.ne)
    K = np.asarray(assemble_heat(m, basis, rho).todense())
    k = modulus(m, rho, scheme_of(m))
    geo = ref.Geo(b.mesh, npts(b.kind, m["intorder"]))
    ed = ref.edofs(b.mesh, basis, 1)
    want = ref.assemble(k[:, None, None] * ref.heat_Ke(geo), ed, basis.N)
    sc = float(np.abs(want).max())
    close(K, want, "conductivity is not the sum of element matrices of Fourier's law", rtol=1e-9)
    check(float(np.abs(K - K.T).max()) <= 1e-10 * sc, "conductivity is not symmetric")
    check(float(np.abs(K.sum(axis=1)).max()) <= 1e-9 * sc * b.ne, "a constant temperature produces heat flow")
    w = np.linalg.eigvalsh((K + K.T) / 2)
    check(w[0] >= -1e-9 * sc, "conductivity is not positive semi-definite", smallest=float(w[0]))
    g = np.array(c["A"][:3], float)
    T = np.zeros(basis.N)
    T[basis.nodal_dofs[0]] = g @ b.mesh.p
    exact = float(np.sum(k * ref.Geo(b.mesh, 2).volumes()) * (g @ g))
    check(abs(float(T @ (K @ T)) - exact) <= 1e-8 * abs(exact) + 1e-10 * sc * float(T @ T), "energy of a linear temperature field",
          got=float(T @ (K @ T)), want=exact)
    b2, no, eo = renumber(b, c["perm2"])
    basis2 = gen.scal_basis(b2, m["intorder"])
    K2 = np.asarray(assemble_heat(m, basis2, rho[eo]).todense())
    idx = np.zeros(basis.N, int)
    idx[basis2.nodal_dofs[0]] = basis.nodal_dofs[0][no]
    close(K2, K[np.ix_(idx, idx)], "conductivity changes under renumbering", rtol=1e-9)
    return dict(nontrivial=bool(np.ptp(rho) > 0), tags=[b.kind, scheme_of(m), c["mesh"]["map"]])


# ---- the stiffness matrix of a mesh file
file_s = st.fixed_dictionaries(dict(mesh=gen.mesh_s(maxel=24), E=gen.one_of(st.sampled_from([None, 1.0, 210e3, 0.7]), gen.lognum(1e-3, 1e6)), nu=gen.one_of(st.none(), gen.nu_s),
                                    ext=st.sampled_from(["vtu", "msh", "vtk"])))
VTK = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]


def run_file(c):
    b = gen.build_mesh(c["mesh"])
    if b.kind == "tet":
        cells = [("tetra", b.mesh.t.T)]
    else:
        o = [int(np.flatnonzero((ref.HEX_REF == np.array(v)).all(axis=1))[0]) for v in VTK]
        cells = [("hexahedron", b.mesh.t[o].T)]
    path = os.path.join(scratch(), "m." + c["ext"])
    meshio.write(path, meshio.Mesh(b.mesh.p.T, cells), **(dict(file_format="gmsh22") if c["ext"] == "msh" else {}))
    kw = {k: c[k] for k in ("E", "nu") if c[k] is not None}
    with gen.hush():
        basis = loader.basis_from_file(path)
        K = np.asarray(loader.load_stiffness_matrix(path, **kw).todense())
    E, nu = c["E"] or 1.0, 0.3 if c["nu"] is None else c["nu"]
    want = ref.assemble(np.full((basis.mesh.t.shape[1], 1, 1), E) * ref.elastic_Ke(ref.Geo(basis.mesh, 2), nu), ref.edofs(basis.mesh, basis, 3), basis.N)
    close(K, want, "stiffness matrix of a mesh file is not that of its elastic model", rtol=1e-9)
    return dict(nontrivial=bool(kw), tags=[b.kind, c["ext"]])


large_s = st.fixed_dictionaries(dict(mesh=gen.big_mesh_s((1100, 2600, 5300)), mat=mat_s, what=st.sampled_from(["elastic", "heat"])))


def run_large(c):
    """Sparse comparison on meshes beyond any block size."""
    b = gen.build_mesh(c["mesh"])
    m = c["mat"]
    el = c["what"] == "elastic"
    basis = (gen.vec_basis if el else gen.scal_basis)(b, m["intorder"])
    rho = gen.field(m["rho"], b.ne)
    K = (assemble_elastic if el else assemble_heat)(m, basis, rho).tocsr()
    E = modulus(m, rho, scheme_of(m))
    geo = ref.Geo(b.mesh, npts(b.kind, m["intorder"]))
    Ke = ref.elastic_Ke(geo, m["nu"]) if el else ref.heat_Ke(geo)
    want = ref.assemble_sparse(E[:, None, None] * Ke, ref.edofs(b.mesh, basis, 3 if el else 1), basis.N)
    sc = float(abs(want).max())
    check(K.shape == want.shape, "shape of the matrix", got=K.shape)
    check(float(abs(K - want).max()) <= 1e-9 * sc, "matrix is not the sum of element matrices", worst=float(abs(K - want).max()), scale=sc)
    # row by row, so that soft regions count too
    d, w = np.asarray(abs(K - want).sum(axis=1)).ravel(), np.asarray(abs(want).sum(axis=1)).ravel()
    check(bool(np.all(d <= 1e-8 * w + 1e-14 * sc)), "rows of the matrix", row=int(np.argmax(d / (w + 1e-300))))
    check(float(abs(K - K.T).max()) <= 1e-10 * sc, "matrix is not symmetric")
    return dict(nontrivial=bool(np.ptp(rho) > 0), tags=[b.kind, c["what"]])


FACETS = [
    Facet("large", large_s, run_large, "density not uniform", quick=6, thorough=120, qsec=60),
    Facet("file", file_s, run_file, "material data given", quick=60, thorough=1500, qsec=30),
    Facet("elastic", case_s, run_elastic, "density not uniform", quick=250, thorough=6000, qsec=60, shards=2),
    Facet("heat", case_s, run_heat, "density not uniform", quick=300, thorough=6000, qsec=60, shards=2),
]
