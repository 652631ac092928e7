"""C06: element volumes, orientation repair and box generators against own geometry."""
import numpy as np
from hypothesis import strategies as st

import meshio
import os

import skfem
from .. import core, gen, ref
from ..core import Facet, check, close

from sktopt.fea import composer
from sktopt.mesh import toy_problem, utils
import sktopt


THIN = (1.0, 1.0, 1.6, 0.6, 30.0, 0.03, 300.0)
mesh_big = gen.one_of(gen.mesh_s(maxel=60, grades=THIN), gen.mesh_s(maxn=8, maxel=300))
vol_s = st.fixed_dictionaries(dict(mesh=mesh_big, scale=gen.lognum(1e-4, 1e4, 1e-3, 0.5, 2.0, 1e3), perm2=st.integers(1, 50),
                                   shift=st.sampled_from([0.0, 10.0, -250.0])))


def run_vol(c):
    b = gen.build_mesh(c["mesh"])
    m = b.mesh
    want = ref.Geo(m).volumes()
    keep_p, keep_t = m.p.copy(), m.t.copy()
    got = np.asarray(composer.get_elements_volume(m))
    close(got, want, "element volumes are not the true volumes", rtol=1e-9)
    check(bool(np.all(got > 0)), "non-positive volume")
    check(np.array_equal(m.p, keep_p) and np.array_equal(m.t, keep_t), "the mesh was modified")
    L = np.prod(c["mesh"]["len"])
    tot = L * (1 - abs(c["mesh"]["amt"]) / 2) if c["mesh"]["map"] == "taper" else L
    check(abs(got.sum() - tot) <= 1e-9 * tot, "volumes do not sum to the domain volume", got=float(got.sum()), want=float(tot))
    s = c["scale"]
    m2 = type(m)(m.p * s + c["shift"] * s, m.t)
    close(np.asarray(composer.get_elements_volume(m2)), want * s ** 3, "volumes do not scale with the cube of length", rtol=1e-8)
    rs = np.random.RandomState(c["perm2"])
    eo, no = rs.permutation(b.ne), rs.permutation(m.p.shape[1])
    m3 = type(m)(np.ascontiguousarray(m.p[:, no]), np.ascontiguousarray(np.argsort(no)[m.t][:, eo]))
    close(np.asarray(composer.get_elements_volume(m3)), want[eo], "volumes change under renumbering", rtol=1e-9)
    return dict(nontrivial=b.ne > 1, tags=[b.kind, c["mesh"]["map"]])


vol_large_s = st.builds(lambda c, m: dict(c, mesh=m), vol_s, gen.big_mesh_s((1100, 4200, 12000), maps=("none", "shear", "rot", "taper")))


# ---- orientation
UNITS = (1.0, 1.0, 1e-4, 1e-3, 1e3)
ori_s = st.fixed_dictionaries(dict(mesh=gen.one_of(gen.mesh_s(maxel=40, units=UNITS), gen.mesh_s(maxel=40, units=UNITS, grades=THIN)), flip=st.integers(0, 60), frac=st.sampled_from([0.0, 0.3, 1.0]),
                                   form=st.sampled_from(["mesh", "arrays", "numba"])))
# ways to mirror a cell: exchange two reference axes (hex) / two nodes (tet)


def _mirror_hex(a, b_):
    idx = []
    for r in ref.HEX_REF:
        q = r.copy()
        q[[a, b_]] = q[[b_, a]]
        idx.append(int(np.flatnonzero((ref.HEX_REF == q).all(axis=1))[0]))
    return idx


def run_ori(c):
    b = gen.build_mesh(c["mesh"])
    m = b.mesh
    t = m.t.copy()
    rs = np.random.RandomState(c["flip"])
    flipped = rs.rand(b.ne) < c["frac"]
    for e in np.flatnonzero(flipped):
        if b.kind == "hex":
            a = [(0, 1), (0, 2), (1, 2)][rs.randint(3)]
            t[:, e] = t[_mirror_hex(*a), e]
        else:
            i, j = rs.permutation(4)[:2]
            t[[i, j], e] = t[[j, i], e]
    keep = t.copy()
    if c["form"] == "mesh":
        mesh = type(m)(m.p, t)
        check(np.array_equal(mesh.t, t), "harness: mesh container changed the connectivity")
        out = utils.fix_elements_orientation(mesh)
    elif b.kind == "hex":
        out = utils.fix_hexahedron_orientation(t, m.p)
    elif c["form"] == "numba":
        out = utils.fix_tetrahedron_orientation_numba(t, m.p)
    else:
        out = utils.fix_tetrahedron_orientation(t, m.p)
    out = np.asarray(out)
    check(np.array_equal(t, keep), "the given connectivity was modified")
    check(out.shape == t.shape and np.array_equal(np.sort(out, axis=0), np.sort(t, axis=0)), "an element's node set changed")
    check(np.array_equal(out[:, ~flipped], t[:, ~flipped]), "an already right-handed element was changed")
    m2 = type(m)(m.p, np.ascontiguousarray(out))
    g = ref.Geo(m2)
    check(bool(np.all(g.det > 0)), "an element is still not right-handed", bad=int(np.sum(np.any(g.det <= 0, axis=1))))
    close(g.volumes(), ref.Geo(m).volumes(), "the repaired element is another body", rtol=1e-9)
    close(np.asarray(composer.get_elements_volume(m2)), g.volumes(), "volumes after orientation repair", rtol=1e-9)
    return dict(nontrivial=bool(flipped.any()), tags=[b.kind, c["form"]])


# ---- generated boxes
box_s = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["hex", "tet"]),
    len=st.tuples(*[gen.lognum(0.3, 4.0, 1.0, 2.0, 0.5, 3.0, 1.3)] * 3).map(list),
    div=gen.lognum(0.3, 3.0, 1.0, 0.5, 0.7, 1.9, 0.3)))


def run_box(c):
    x, y, z = c["len"]
    h = c["div"] if c["kind"] == "hex" else max(c["div"], max(c["len"]) / 7.9)
    if c["kind"] == "hex":
        m = toy_problem.create_box_hex(x, y, z, h)
        check(isinstance(m, skfem.MeshHex), "not a hexahedral mesh")
        n = [int(np.ceil(v / h)) for v in (x, y, z)]
        check(m.t.shape[1] == n[0] * n[1] * n[2], "number of elements is not the requested resolution",
              got=m.t.shape[1], want=n)
        for d in range(3):
            u = np.unique(np.round(m.p[d], 9))
            check(len(u) == n[d] + 1 and np.allclose(np.diff(u), c["len"][d] / n[d], atol=1e-8), "grid lines are not equidistant")
    else:
        m = toy_problem.create_box_tet(x, y, z, h)
        check(isinstance(m, skfem.MeshTet), "not a tetrahedral mesh")
        for d in range(3):
            u = np.unique(np.round(m.p[d], 9))
            check(float(np.max(np.diff(u))) <= h + 1e-9, "the mesh is coarser than requested")
    check(np.allclose(m.p.min(axis=1), 0, atol=1e-12) and np.allclose(m.p.max(axis=1), c["len"], atol=1e-9), "the box has other dimensions")
    g = ref.Geo(m)
    check(bool(np.all(g.det > 0)), "a generated element is not right-handed")
    v = np.asarray(composer.get_elements_volume(m))
    close(v, g.volumes(), "volumes of the generated box", rtol=1e-9)
    check(abs(v.sum() - x * y * z) <= 1e-9 * x * y * z, "the box is not filled")
    used = np.unique(m.t)
    check(len(used) == m.p.shape[1], "unused nodes in the generated box")
    return dict(nontrivial=m.t.shape[1] > 1, tags=[c["kind"]])


# ---- meshes from files
file_s = st.fixed_dictionaries(dict(mesh=gen.mesh_s(maxel=30, units=UNITS), flip=st.integers(0, 30), frac=st.sampled_from([0.0, 0.4, 1.0]),
                                    ext=st.sampled_from(["vtu", "msh", "vtk"]), intorder=st.sampled_from([2, 3])))


def run_file(c):
    b = gen.build_mesh(c["mesh"])
    t = b.mesh.t.copy()
    frac = c["frac"] if b.kind == "tet" else 0.0
    rs = np.random.RandomState(c["flip"])
    fl = rs.rand(b.ne) < frac
    if b.kind == "tet":
        t[0, fl], t[1, fl] = t[1, fl], t[0, fl].copy()
        cells = [("tetra", t.T)]
    else:
        vtk = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]
        o = [int(np.flatnonzero((ref.HEX_REF == np.array(v)).all(axis=1))[0]) for v in vtk]
        cells = [("hexahedron", t[o].T)]
    path = os.path.join(core.scratch(), "m." + c["ext"])
    kw = dict(file_format="gmsh22") if c["ext"] == "msh" else {}
    meshio.write(path, meshio.Mesh(b.mesh.p.T, cells), **kw)
    with gen.hush():
        basis = sktopt.mesh.loader.basis_from_file(path, intorder=c["intorder"])
        plain = toy_problem.load_mesh_auto(path)
    check(plain.t.shape[1] == b.ne, "load_mesh_auto returns another mesh")
    m = basis.mesh
    check(m.t.shape == t.shape and m.p.shape == b.mesh.p.shape, "the loaded mesh has other elements or nodes")
    close(m.p, b.mesh.p, "coordinates of the loaded mesh", rtol=1e-12)
    check(np.array_equal(np.sort(m.t, axis=0), np.sort(t, axis=0)), "an element of the loaded mesh has other nodes")
    g = ref.Geo(m)
    close(g.volumes(), ref.Geo(b.mesh).volumes(), "the loaded elements have other shapes", rtol=1e-9)
    close(np.asarray(composer.get_elements_volume(m)), ref.Geo(b.mesh).volumes(), "volumes of the loaded mesh", rtol=1e-9)
    check(basis.N == 3 * m.p.shape[1], "the basis is not a displacement basis")
    return dict(nontrivial=b.ne > 1, tags=[b.kind, c["ext"], "flipped" if fl.any() else "oriented"])


FACETS = [
    Facet("volume", vol_s, run_vol, "more than one element", quick=250, thorough=8000, qsec=60, shards=2),
    Facet("orientation", ori_s, run_ori, "at least one element was mirrored", quick=250, thorough=6000, qsec=60),
    Facet("large_volume", vol_large_s, run_vol, "more than one element", quick=4, thorough=80, qsec=60),
    Facet("large_orientation", st.builds(lambda c, m: dict(c, mesh=m), ori_s, gen.big_mesh_s((1100, 2600), maps=("none", "shear", "rot", "taper"))), run_ori,
          "at least one element was mirrored", quick=5, thorough=80, qsec=60),
    Facet("box", box_s, run_box, "more than one element", quick=90, thorough=800, qsec=60),
    Facet("file", file_s, run_file, "more than one element", quick=120, thorough=2000, qsec=60),
]
ASSUMPTIONS = ["hexahedra have planar faces", "tetrahedral volumes are asked for right-handed elements (others are rejected by the code)"]
