"""C23: written result files describe the run's mesh and fields."""
import os

import meshio
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, runs
from ..core import Discard, Facet, check, close, scratch
from .c19_pieces import mesh_s

import pyvista
import skfem
from sktopt.core import visualization as viz
from sktopt.mesh import visualization as mviz

B = st.booleans()
any_mesh = gen.mesh_s(maxn=4, maxel=40)
BOTTOM = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]], float)   # VTK hexahedron


def vtk_volumes(p, t):
    """(signed volume, smallest jacobian) per cell in VTK vertex order."""
    if t.shape[1] == 4:
        v = p[t]
        d = np.einsum("ei,ei->e", np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0]), v[:, 3] - v[:, 0])
        return d / 6, d
    X, W = ref.rule("hex", 2)
    dN = np.empty((len(X), 8, 3))
    for a in range(8):
        for j in range(3):
            f = np.ones(len(X))
            for d in range(3):
                x = X[:, d] if BOTTOM[a, d] else 1 - X[:, d]
                f = f * ((1.0 if BOTTOM[a, d] else -1.0) if d == j else x)
            dN[:, a, j] = f
    det = np.linalg.det(np.einsum("eai,qaj->eqij", p[t], dN))
    return det @ W, det.min(1)


def cells_of(path):
    """Reads with meshio: (points, connectivity, cell data, point data)."""
    m = meshio.read(path)
    check(len(m.cells) == 1 and m.cells[0].type in ("tetra", "hexahedron"), "cell blocks of the file", got=[(c.type, len(c.data)) for c in m.cells])
    return np.asarray(m.points, float), np.asarray(m.cells[0].data), {k: np.asarray(v[0]) for k, v in m.cell_data.items()}, dict(m.point_data)


def key(x, tol):
    return tuple(sorted(map(tuple, np.round(x / tol).astype(np.int64).tolist())))


def matched(mesh, path, elements=None, what="file", scale=1.0):
    """Cell i of the file is element ids[i] of the mesh; geometry, orientation and size are right."""
    p, t, cd, pd = cells_of(path)
    el = np.arange(mesh.t.shape[1]) if elements is None else np.asarray(elements)
    P = mesh.p.T * scale
    check(t.shape == (len(el), mesh.t.shape[0]), f"{what}: number of cells", got=t.shape, want=(len(el), mesh.t.shape[0]))
    size = float(np.ptp(P, axis=0).max())
    tol = 1e-7 * size
    where = {}
    for e in el:
        where[key(P[mesh.t[:, e]], tol)] = int(e)
    ids = [where.get(key(p[c], tol), -1) for c in t]
    if -1 in ids or len(set(ids)) != len(el):          # rounding at a cell border: match by nearest centroid instead
        ce = np.array([P[mesh.t[:, e]].mean(0) for e in el])
        ids = []
        for c in t:
            d = np.linalg.norm(ce - p[c].mean(0), axis=1)
            e = int(el[int(np.argmin(d))])
            a, b = p[c], P[mesh.t[:, e]]
            near = np.linalg.norm(a[:, None] - b[None], axis=2)
            check(np.all(near.min(1) < 1e-6 * size) and np.all(near.min(0) < 1e-6 * size), f"{what}: a cell is not an element of the mesh", cell=a.tolist())
            ids.append(e)
    check(sorted(ids) == sorted(el.tolist()), f"{what}: elements in the file", got=sorted(ids)[:30], want=sorted(el.tolist())[:30])
    vol, jac = vtk_volumes(p, t)
    G = ref.Geo(mesh)
    want = G.volumes()[ids] * scale ** 3
    check(np.all(jac > 0), f"{what}: a cell is inverted or twisted", cell=int(np.argmin(jac)), jacobian=float(jac.min()))
    check(np.all(np.abs(vol - want) <= 1e-7 * want), f"{what}: size of a cell", got=float(vol[np.argmax(np.abs(vol - want))]),
          want=float(want[np.argmax(np.abs(vol - want))]))
    return np.array(ids), cd, pd, p, t


def other_readers(path, t, total, what, exact):
    """The same file through pyvista (VTK) and scikit-fem."""
    g = pyvista.read(path)
    check(g.n_cells == len(t), f"{what}: cells read by VTK", got=g.n_cells, want=len(t))
    v = np.asarray(g.compute_cell_sizes(length=False, area=False)["Volume"])
    check(np.all(v > 0), f"{what}: VTK reads a cell of non-positive volume", got=float(v.min()))
    if exact:
        check(abs(v.sum() - total) <= 1e-5 * total, f"{what}: volume read by VTK", got=float(v.sum()), want=total)
    with gen.hush():
        m = skfem.Mesh.load(path)
    if t.shape[1] == 8:
        d = ref.Geo(m)
        check(np.all(d.det > 0) or np.all(d.det < 0), f"{what}: scikit-fem reads a twisted cell")
    check(abs(ref.Geo(m).volumes().sum() - total) <= 1e-7 * total, f"{what}: volume read by scikit-fem", got=float(ref.Geo(m).volumes().sum()), want=total)


def flat_faces(spec):
    return spec["kind"] == "tet" or spec["map"] in ("none", "shear", "rot", "jitter")


# ---------------------------------------------------------------- fields on the mesh
NAMES = ["rho_projected", "energy", "x", "rho 2", "dC", "Energy"]
big_mesh = gen.big_mesh_s((700, 1500, 2600))


def mk_info_s(mesh):
    return st.fixed_dictionaries(dict(mesh=mesh, cell=st.lists(st.sampled_from(NAMES), unique=True, max_size=3), point=st.lists(st.sampled_from(NAMES), unique=True, max_size=2),
                                    seed=st.integers(0, 999), dt=st.sampled_from(["f8", "f8", "f4", "i4"]), again=B))


info_s, big_info_s = mk_info_s(any_mesh), mk_info_s(big_mesh)


def run_info(c):
    b = gen.build_mesh(c["mesh"])
    mesh = b.mesh
    r = np.random.RandomState(c["seed"])
    mk = lambda n: (r.rand(n) * 10.0 ** r.randint(-6, 6) if c["dt"] != "i4" else r.randint(-50, 50, n)).astype(c["dt"])   # noqa: E731
    path = os.path.join(scratch("viz"), "info.vtu")
    keep = mesh.p.copy(), mesh.t.copy()
    for _ in range(2 if c["again"] else 1):
        cv, pv = [mk(b.ne) for _ in c["cell"]], [mk(mesh.p.shape[1]) for _ in c["point"]]
        viz.export_mesh_with_info(mesh, point_data_values=pv or None, point_data_names=c["point"] or None, cell_data_values=cv or None,
                                  cell_data_names=c["cell"] or None, filepath=path)
    check(np.array_equal(keep[0], mesh.p) and np.array_equal(keep[1], mesh.t), "exporting changes the mesh")
    ids, cd, pd, p, t = matched(mesh, path, what="mesh file")
    check(set(cd) == set(c["cell"]) and set(pd) == set(c["point"]), "fields in the file", cell=sorted(cd), point=sorted(pd))
    for n, v in zip(c["cell"], cv):
        check(np.array_equal(cd[n].ravel(), v[ids]), "cell values in the file", field=n)
    for n, v in zip(c["point"], pv):
        d = np.linalg.norm(p[:, None] - mesh.p.T[None], axis=2)
        check(len(p) == mesh.p.shape[1] and np.all(d.min(1) < 1e-9 * max(1.0, np.abs(mesh.p).max())), "points in the file")
        check(np.array_equal(pd[n].ravel(), v[d.argmin(1)]), "point values in the file", field=n)
    other_readers(path, t, float(ref.Geo(mesh).volumes().sum()), "mesh file", flat_faces(c["mesh"]))
    return dict(nontrivial=b.ne > 1 and bool(c["cell"]), tags=[b.kind, c["mesh"]["map"]])


# ---------------------------------------------------------------- sub-mesh and condition file
def mk_sub_s(mesh):
    return st.fixed_dictionaries(dict(pr=gen.one_of(st.fixed_dictionaries(dict(kind=st.just("elastic"), el=gen.elastic_s(mesh=mesh))),
                                                   st.fixed_dictionaries(dict(kind=st.just("heat"), el=gen.heat_s(mesh=mesh)))), exclude=B, th=st.sampled_from([0.5, 0.5, 0.0, 1.0, 0.3, 0.999, -1.0, 2.0]), seed=st.integers(0, 999),
                                   rho=st.sampled_from(["rand", "rand", "levels", "levels", "low", "high", "one"]), old=B))


sub_s, big_sub_s = mk_sub_s(any_mesh), mk_sub_s(big_mesh)


def task_of(pr):
    el = pr["el"]
    b = gen.build_mesh(el["mesh"])
    m = gen.elastic_model(b, el) if pr["kind"] == "elastic" else gen.heat_model(b, el)
    if len(m["design"]) == 0 or (pr["kind"] == "heat" and el["objective"] == "heat_exchange" and el["robin"] is None):
        raise Discard()
    return b, m, (gen.make_elastic(b, el) if pr["kind"] == "elastic" else gen.make_heat(b, el))


def check_submesh(path, mesh, design, rho, th, what, exact):
    kept = np.setdiff1d(np.arange(mesh.t.shape[1]), [e for e in design if not rho[e] > th])
    if len(kept) == 0:
        check(not os.path.exists(path), f"{what}: a file although nothing is kept")
        return kept
    check(os.path.exists(path), f"{what}: not written", kept=len(kept))
    ids, _, _, p, t = matched(mesh, path, elements=kept, what=what)
    check(len(np.unique(t)) == len(p), f"{what}: unused points", points=len(p), used=len(np.unique(t)))
    check(len(p) == len(np.unique(mesh.t[:, kept])), f"{what}: number of points", got=len(p), want=len(np.unique(mesh.t[:, kept])))
    other_readers(path, t, float(ref.Geo(mesh).volumes()[kept].sum()), what, exact)
    return kept


def check_condition(path, b, pr, m, design, what):
    el = pr["el"]
    mesh = b.mesh
    ids, cd, pd, p, t = matched(mesh, path, what=what)
    check(set(cd) == {"condition"} and set(pd) == {"node_color"}, f"{what}: fields", cell=sorted(cd), point=sorted(pd))
    col = np.zeros(mesh.p.shape[1], int)

    def nodes(regs):
        return np.unique(np.concatenate([gen.nodes_of(mesh, gen.facets_of(b, s["reg"])) for s in regs]))
    if pr["kind"] == "elastic":
        col[nodes(el["load"])] = 1
    col[nodes(el["sup"])] = 2
    if pr["kind"] == "heat" and el["robin"] is not None:
        col[nodes(el["robin"])] = 3
    d = np.linalg.norm(p[:, None] - mesh.p.T[None], axis=2)
    idx = d.argmin(1)
    check(len(p) == len(col) and np.all(d.min(1) < 1e-9 * max(1.0, np.abs(mesh.p).max())), f"{what}: points")
    got = np.asarray(pd["node_color"]).ravel()
    bad = np.flatnonzero(got != col[idx])
    check(len(bad) == 0, f"{what}: marked nodes", node=None if not len(bad) else int(idx[bad[0]]), got=None if not len(bad) else int(got[bad[0]]),
          want=None if not len(bad) else int(col[idx[bad[0]]]), wrong=len(bad))
    want = np.full(b.ne, 2)
    want[design] = 3
    g = np.asarray(cd["condition"]).ravel()
    check(np.array_equal(g, want[ids]), f"{what}: marked elements", got=g.tolist(), want=want[ids].tolist())
    return set(col.tolist())


def run_sub(c):
    b, m, t = task_of(c["pr"])
    design = m["design"]
    if c["exclude"]:
        t.exlude_dirichlet_from_design()
        design = np.setdiff1d(design, m["supported"])
    r = np.random.RandomState(c["seed"])
    n, th = b.ne, c["th"]
    rho = {"rand": r.rand(n), "levels": th + np.array([-0.2, -1e-9, 0.0, 1e-9, 0.2])[r.randint(0, 5, n)], "low": np.full(n, th - 0.1), "high": np.full(n, th + 0.1),
           "one": np.where(np.arange(n) == r.randint(n), th + 0.1, th - 0.1)}[c["rho"]]
    d = scratch("sub")
    path = os.path.join(d, "cubic_top.vtu")
    if c["old"]:
        with gen.hush():
            mviz.export_submesh(t, np.ones(n) + 5, -5.0, path)
        check(os.path.exists(path), "sub-mesh: not written")
    keep = rho.copy()
    with gen.hush():
        mviz.export_submesh(t, rho, th, path)
        t.export_analysis_condition_on_mesh(d)
    check(np.array_equal(keep, rho) and np.array_equal(np.sort(t.design_elements), np.sort(design)), "exporting changes its input")
    kept = check_submesh(path, b.mesh, design, rho, th, "sub-mesh", flat_faces(c["pr"]["el"]["mesh"]))
    cols = check_condition(os.path.join(d, "condition.vtu"), b, c["pr"], m, design, "condition file")
    return dict(nontrivial=0 < len(kept) < n or len(cols) > 2, tags=[c["pr"]["kind"], b.kind, c["rho"], "excluded" if c["exclude"] else "included",
                                                                      "nothing kept" if not len(kept) else "part" if len(kept) < n else "all kept"])


# ---------------------------------------------------------------- whole runs
def mk_run_s(pr, cfg):
    return st.fixed_dictionaries(dict(pr=pr, cfg=cfg, pieces=st.lists(st.integers(1, 3), max_size=2), scaling=st.sampled_from([False, False, False, True])))


run_s = mk_run_s(runs.problem_s(mesh=mesh_s), runs.cfg_s(iters=(1, 5)))
big_run_s = mk_run_s(runs.big_problem_s((650, 1100)), runs.cfg_s(iters=(2, 2)))
long_run_s = mk_run_s(runs.problem_s(mesh=runs.tiny_mesh), runs.long_s(runs.cfg_s(), (11, 40)))


def run_run(c):
    pr, cc = c["pr"], c["cfg"]
    b, t, design = runs.make_problem(pr, cc["design_dirichlet"])
    m = gen.elastic_model(b, pr["el"]) if pr["kind"] == "elastic" else gen.heat_model(b, pr["el"])
    mesh = b.mesh
    o = runs.make_optimizer(cc, t, scratch("run"), **(dict(scaling=True) if c["scaling"] else {}))
    d = o.cfg.dst_path
    for k in c["pieces"]:
        runs.run(o, k)
    runs.run(o)
    N = cc["max_iters"]
    steps = {s.iter: s for s in o.vf_steps}
    files = sorted(os.listdir(os.path.join(d, "mesh_rho")))
    its = [int(f[len("info_mesh-"):-4]) for f in files if f.startswith("info_mesh-") and f.endswith(".vtu")]
    check(N in its and 1 in its, "mesh files of the first and last iteration", got=its)
    saved = sorted(int(f.split("-")[0]) for f in os.listdir(os.path.join(d, "data")) if f.endswith("-rho.npz"))
    check(its == saved, "iterations with a mesh file and with a checkpoint differ", mesh=its, data=saved)
    scale = 1.0 / float(np.ptp(mesh.p, axis=1).max()) if c["scaling"] else 1.0
    for it in its:
        ids, cd, pd, p, tt = matched(mesh, os.path.join(d, "mesh_rho", f"info_mesh-{it:08d}.vtu"), what="mesh file of an iteration", scale=scale)
        check(set(cd) == {"rho_projected", "energy"}, "fields of an iteration's file", got=sorted(cd))
        s = steps[it]
        check(np.array_equal(cd["rho_projected"].ravel(), s.proj[ids]), "projected density in an iteration's file", iteration=it)
        check(np.array_equal(cd["energy"].ravel(), s.energy[ids]), "energy in an iteration's file", iteration=it)
    with np.load(os.path.join(d, "data", f"{N:06d}-rho.npz")) as z:
        last = np.asarray(z["rho_design_elements"], float)
    rho = np.ones(b.ne)
    rho[t.design_elements] = last
    kept = check_submesh(os.path.join(d, "cubic_top.vtu"), mesh, design, rho, 0.5, "final sub-mesh", flat_faces(pr["el"]["mesh"]))
    if not c["scaling"]:
        check_condition(os.path.join(d, "condition.vtu"), b, pr, m, design, "condition file of a run")
    return dict(nontrivial=N > 1 and 0 < len(kept) < b.ne, tags=[pr["kind"], b.kind, cc["opt"], "scaled" if c["scaling"] else "unscaled",
                                                                 "nothing kept" if not len(kept) else "part" if len(kept) < b.ne else "all kept"])


FACETS = [
    Facet("fields", info_s, run_info, "several elements and cell fields", quick=120, thorough=5000, qsec=30, tsec=300, shards=2, tshards=4),
    Facet("submesh-condition", sub_s, run_sub, "part of the mesh kept or several kinds of marked nodes", quick=160, thorough=6000, qsec=45, tsec=400, shards=2, tshards=6),
    Facet("run", run_s, run_run, "several iterations and part of the mesh kept", quick=50, thorough=2000, qsec=45, tsec=500, shards=3, tshards=6),
    Facet("large-fields", big_info_s, run_info, "several elements and cell fields", quick=8, thorough=200, qsec=40, tsec=300, tshards=3),
    Facet("large-submesh", big_sub_s, run_sub, "part of the mesh kept or several kinds of marked nodes", quick=8, thorough=200, qsec=40, tsec=300, tshards=3),
    Facet("large-run", big_run_s, run_run, "several iterations and part of the mesh kept", quick=5, thorough=150, qsec=45, tsec=400, tshards=4),
    Facet("long-run", long_run_s, run_run, "several iterations and part of the mesh kept", quick=8, thorough=300, qsec=45, tsec=400, tshards=4),
]
ASSUMPTIONS = ["volumes seen by VTK are compared where cell faces are plane (VTK splits hexahedra into tetrahedra)",
               "a boundary node that is loaded, supported and convective at once carries the last of these marks"]
