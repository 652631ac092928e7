"""Generators and builders shared by the checks: meshes, boundary regions, density fields, problems.

A generated case is plain JSON data ("spec"); the builders below turn it into real objects,
deterministically.  Every random choice is either drawn by hypothesis or a pure function of a
drawn integer.
"""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import skfem


def one_of(*s):
    """As st.one_of, but an alternative given several times is drawn that often (st.one_of drops repetitions)."""
    if len({id(x) for x in s}) == len(s):
        return st.one_of(*s)
    return st.integers(0, len(s) - 1).flatmap(lambda i: s[i])


def r5(v):
    return float(f"{v:.5g}")


def num(lo, hi, *pool):
    """A number of the given range, or one of the usual values."""
    f = st.floats(lo, hi, allow_nan=False).map(lambda v: float(f"{v:.4g}") if abs(v) > 1e-4 * (hi - lo) else max(lo, 0.0))
    return one_of(st.sampled_from(pool), f) if pool else f


def lognum(lo, hi, *pool):
    """As num, spread over orders of magnitude."""
    f = st.floats(float(np.log10(lo)), float(np.log10(hi)), allow_nan=False).map(lambda u: float(f"{10.0 ** u:.4g}"))
    return one_of(st.sampled_from(pool), f) if pool else f


# ---------------------------------------------------------------- meshes
def mesh_s(kinds=("hex", "tet"), maxn=4, minn=1, maxel=40, maps=("none", "shear", "rot", "taper", "jitter"),
           perm=True, grade=True, units=(1.0,), grades=(1.0, 1.0, 1.6, 0.6)):
    n = st.integers(minn, maxn)
    base = dict(
        kind=st.sampled_from(kinds),
        n=st.tuples(n, n, n).map(list),
        len=st.tuples(*[lognum(0.2, 6.0, 1.0, 0.5, 2.0, 1.7, 3.0)] * 3).map(list),
        grade=(st.tuples(*[st.sampled_from(grades)] * 3).map(list) if grade
               else st.just([1.0, 1.0, 1.0])),
        map=st.sampled_from(maps),
        amt=num(-0.5, 0.6, 0.3, -0.2, 0.45),
        perm=st.integers(0, 6) if perm else st.just(0),
        unit=st.sampled_from(units))

    def fit(s):
        # keep the element count within maxel by shrinking the largest direction
        s = dict(s)
        nn = list(s["n"])
        f = 6 if s["kind"] == "tet" else 1
        while nn[0] * nn[1] * nn[2] * f > maxel and max(nn) > minn:
            nn[nn.index(max(nn))] -= 1
        s["n"] = nn
        return s
    return st.fixed_dictionaries(base).map(fit)


def big_mesh_s(counts=(1100, 2600, 5300), kinds=("hex", "tet"), maps=("none", "shear", "rot"), **kw):
    """Meshes of about the given numbers of elements (beyond every block size or size switch one would pick)."""
    def size(s, count, asp):
        per = 6 if s["kind"] == "tet" else 1
        a = np.array(asp, float)
        n = np.maximum(1, np.round(a * (count / per / a.prod()) ** (1 / 3))).astype(int)
        return dict(s, n=n.tolist(), grade=[1 + (g - 1) * 0.1 for g in s["grade"]])
    return st.builds(size, mesh_s(kinds=kinds, maps=maps, **kw), st.sampled_from(counts),
                     st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 3, 1], [4, 2, 1], [1, 1, 6]]))


class Built:
    """A mesh with its reference-box coordinates."""

    def __init__(self, mesh, ref, spec):
        self.mesh, self.ref, self.spec = mesh, ref, spec
        self.kind = spec["kind"]

    @property
    def ne(self):
        return self.mesh.t.shape[1]


def _ticks(n, length, g):
    w = np.array([g ** i for i in range(n)], float)
    x = np.concatenate([[0.0], np.cumsum(w)])
    return x / x[-1] * length


_HEX = np.array([[0, 0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1], [1, 0, 1], [1, 1, 1]])
# six tets around the diagonal 000-111, one per permutation of the axes (conforming between cells)
_KUHN = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def build_mesh(spec):
    """Own construction of the connectivity (does not use the code under test)."""
    nx, ny, nz = spec["n"]
    ax = [_ticks(n, l, g) for n, l, g in zip(spec["n"], spec["len"], spec["grade"])]

    def nid(i, j, k):
        return (i * (ny + 1) + j) * (nz + 1) + k
    pts = np.array([[ax[0][i], ax[1][j], ax[2][k]] for i in range(nx + 1) for j in range(ny + 1)
                    for k in range(nz + 1)]).T
    cells = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                if spec["kind"] == "hex":
                    cells.append([nid(i + a, j + b, k + c) for a, b, c in _HEX])
                else:
                    for perm in _KUHN:
                        c = np.array([i, j, k])
                        tet = [nid(*c)]
                        for a in perm:
                            c = c.copy()
                            c[a] += 1
                            tet.append(nid(*c))
                        cells.append(tet)
    t = np.array(cells).T
    L = np.array(spec["len"])[:, None]
    ref = pts / L
    p = pts.copy()
    m, a = spec["map"], spec["amt"]
    if m == "shear":
        p = np.array([[1, a, 0], [0, 1, a / 2], [0, 0, 1]]) @ p
    elif m == "rot":
        c, s = np.cos(3 * a), np.sin(3 * a)
        p = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, c, -s], [0, s, c]]) @ p
    elif m == "taper":
        p[0] = p[0] * (1 - abs(a) * ref[2])
    elif m == "jitter" and spec["kind"] == "tet":
        rs = np.random.RandomState(int(1000 * abs(a)) + 17 * spec["perm"])
        h = np.array([np.min(np.diff(x)) for x in ax])[:, None]
        inner = np.all((ref > 1e-9) & (ref < 1 - 1e-9), axis=0)
        p = p + 0.2 * h * rs.uniform(-1, 1, p.shape) * inner
    p = p * spec.get("unit", 1.0)                    # e.g. metres instead of millimetres
    if spec["kind"] == "tet":
        v = p[:, t]
        det = np.einsum("ie,ie->e", np.cross((v[:, 1] - v[:, 0]).T, (v[:, 2] - v[:, 0]).T).T, v[:, 3] - v[:, 0])
        t[2, det < 0], t[3, det < 0] = t[3, det < 0], t[2, det < 0].copy()
    if spec["perm"]:
        rs = np.random.RandomState(spec["perm"])
        order = rs.permutation(p.shape[1])          # new node k is old node order[k]
        inv = np.argsort(order)
        p, ref = p[:, order], ref[:, order]
        t = inv[t][:, rs.permutation(t.shape[1])]
    cls = skfem.MeshHex if spec["kind"] == "hex" else skfem.MeshTet
    mesh = cls(np.ascontiguousarray(p), np.ascontiguousarray(t))
    return Built(mesh, ref, spec)


def left_handed_hex(m):
    """skfem's own tensor hexes read as (1-0)x(3-0).(4-0) are left- or right-handed depending on numbering."""
    return m


# ---------------------------------------------------------------- regions of boundary facets
def region_s(faces=range(6), modes=("all", "half", "half2", "one", "some")):
    return st.fixed_dictionaries(dict(face=st.sampled_from(list(faces)), mode=st.sampled_from(list(modes)),
                                      k=st.integers(0, 7)))


def twins(items):
    """Lists of regions with data in which a later entry may repeat parts of an earlier one, or nearly so."""
    kind = st.sampled_from([None, None, None, None, "region", "region+size", "near", "near+size", "all"])

    def apply(t):
        out = []
        for i, x in enumerate(t[0]):
            k = t[1][i % 4]
            if i and k:
                y = out[t[2] % i]
                x = dict(x)
                if k == "all":
                    x = dict(y)
                elif k.startswith("near"):
                    base = y["reg"] if y["reg"]["mode"] != "near" else y["reg"]["of"]
                    x["reg"] = dict(face=base["face"], mode="near", of=base, k=x["reg"]["k"])
                else:
                    x["reg"] = dict(y["reg"])
                if k.endswith("size"):
                    for v in ("val", "T"):
                        if v in x:
                            x[v] = y[v] if t[2] % 2 or v == "T" else -y[v]
            out.append(x)
        return out
    return st.tuples(items, st.lists(kind, min_size=4, max_size=4), st.integers(0, 5)).map(apply)


def _near(b, reg):
    """Another region with as many nodes, the same first and last node and, where possible, as many facets."""
    mesh = b.mesh
    base = facets_of(b, reg["of"])
    bf = mesh.boundary_facets()
    n0 = nodes_of(mesh, base)
    rs = np.random.RandomState(reg["k"])
    for _ in range(60):
        new = base.copy()
        for j in rs.choice(len(base), size=min(len(base), rs.randint(1, 3)), replace=False):
            new[j] = bf[rs.randint(len(bf))]
        new = np.unique(new)
        n1 = nodes_of(mesh, new)
        if len(n1) == len(n0) and n1[0] == n0[0] and n1[-1] == n0[-1] and not np.array_equal(n0, n1):
            return new.astype(np.int64)
    return base


def facets_of(b, reg):
    """Sorted facet indices of a region (never empty)."""
    mesh = b.mesh
    if reg["mode"] == "near":
        return _near(b, reg)
    bf = mesh.boundary_facets()
    mid = b.ref[:, mesh.facets[:, bf]].mean(axis=1)
    a, side = reg["face"] // 2, reg["face"] % 2
    on = np.abs(mid[a] - side) < 1e-9
    ids, mid = bf[on], mid[:, on]
    o = [i for i in range(3) if i != a]
    if reg["mode"] in ("half", "half2"):
        c = mid[o[0 if reg["mode"] == "half" else 1]]
        lo = reg["k"] % 2 == 0
        keep = (c < 0.5 + 1e-9) if lo else (c > 0.5 - 1e-9)
        if keep.any():
            ids = ids[keep]
    elif reg["mode"] == "one":
        order = np.lexsort((mid[o[1]], mid[o[0]]))
        ids = ids[order[[reg["k"] % len(ids)]]]
    elif reg["mode"] == "some":
        rs = np.random.RandomState(reg["k"])
        keep = rs.rand(len(ids)) < 0.5
        keep[rs.randint(len(ids))] = True
        order = np.lexsort((mid[o[1]], mid[o[0]]))
        ids = ids[order][keep]
    return np.sort(ids).astype(np.int64)


def nodes_of(mesh, facets):
    return np.unique(mesh.facets[:, facets])


def elems_touching(mesh, nodes):
    s = set(int(v) for v in np.ravel(nodes))
    return np.array([e for e in range(mesh.t.shape[1]) if s & set(int(v) for v in mesh.t[:, e])], dtype=int)


# ---------------------------------------------------------------- fields
def field_s(lo=1e-3, hi=1.0, kinds=("const", "rand", "binary", "lin")):
    return st.fixed_dictionaries(dict(kind=st.sampled_from(kinds),
                                      v=st.floats(0.0, 1.0).map(lambda v: round(v, 3)), seed=st.integers(0, 40)))


def field(spec, n, lo=1e-3, hi=1.0):
    rs = np.random.RandomState(spec["seed"])
    if spec["kind"] == "const":
        f = np.full(n, spec["v"])
    elif spec["kind"] == "rand":
        f = rs.rand(n)
    elif spec["kind"] == "binary":
        f = (rs.rand(n) < 0.3 + 0.4 * spec["v"]).astype(float)
    else:
        f = np.linspace(0, 1, n) if spec["seed"] % 2 else np.linspace(1, 0, n)
    return lo + (hi - lo) * f


def design_s():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["all", "all", "some", "half"]), seed=st.integers(0, 20)))


def design_of(b, spec):
    ne = b.ne
    if spec["kind"] == "all":
        return np.arange(ne)
    if spec["kind"] == "turned":                                  # as many elements, counted from the other end
        return np.sort(ne - 1 - design_of(b, spec["of"]))
    if spec["kind"] == "half":
        c = b.ref[:, b.mesh.t].mean(axis=1)
        sel = np.flatnonzero(c[spec["seed"] % 3] < 0.6)
        return sel if len(sel) else np.arange(ne)
    rs = np.random.RandomState(spec["seed"])
    sel = np.flatnonzero(rs.rand(ne) < 0.7)
    return sel if len(sel) else np.arange(ne)


# ---------------------------------------------------------------- problems
def vec_basis(b, intorder=2):
    e = skfem.ElementHex1() if b.kind == "hex" else skfem.ElementTetP1()
    return skfem.Basis(b.mesh, skfem.ElementVector(e), intorder=intorder)


def scal_basis(b, intorder=2, mesh=None):
    e = skfem.ElementHex1() if b.kind == "hex" else skfem.ElementTetP1()
    return skfem.Basis(mesh if mesh is not None else b.mesh, e, intorder=intorder)


@contextlib.contextmanager
def hush():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


dirs = ["u^1", "u^2", "u^3"]
nu_s = num(-0.6, 0.495, 0.3, 0.0, 0.2, 0.45, 0.49, -0.2)
val_s = one_of(st.sampled_from([-100.0, 1.0, 37.5, -0.25, 1000.0]), lognum(0.02, 5e3), lognum(0.02, 5e3).map(lambda v: -v))


def elastic_s(mesh=None, maxdir=2, maxload=3, full_support=True, modes=("all", "half", "half2", "one", "some"), design=None, minload=1, mindir=1):
    """Elastic problem; with full_support the first Dirichlet region is a whole clamped face."""
    first = st.fixed_dictionaries(dict(face=st.integers(0, 5), mode=st.just("all"), k=st.just(0))) \
        if full_support else region_s(modes=modes)
    fdir = st.just("all") if full_support else st.sampled_from(dirs + ["all"])
    more = st.lists(st.fixed_dictionaries(dict(reg=region_s(modes=modes), dir=st.sampled_from(dirs + ["all"]))),
                    min_size=mindir - 1, max_size=maxdir - 1)
    return st.fixed_dictionaries(dict(
        mesh=mesh if mesh is not None else mesh_s(),
        sup=twins(st.tuples(st.fixed_dictionaries(dict(reg=first, dir=fdir)), more).map(lambda t: [t[0]] + t[1])),
        load=twins(st.lists(st.fixed_dictionaries(dict(reg=region_s(modes=modes), dir=st.sampled_from(dirs), val=val_s)),
                            min_size=minload, max_size=maxload)),
        aslist=st.booleans(),
        design=design if design is not None else design_s(),
        E=one_of(lognum(0.1, 5e5, 1.0, 210e3, 70.0), lognum(0.1, 5e5, 1.0, 210e3, 70.0), st.sampled_from([210e9, 1.1e9, 7e10, 3.3e-3])), nu=nu_s))


def elastic_args(b, c, intorder=2, basis=None):
    """Arguments of LinearElasticity.from_facets for the spec."""
    sup = [facets_of(b, s["reg"]) for s in c["sup"]]
    sdir = [s["dir"] for s in c["sup"]]
    load = [facets_of(b, s["reg"]) for s in c["load"]]
    ldir = [s["dir"] for s in c["load"]]
    lval = [s["val"] for s in c["load"]]
    if len(sup) == 1 and not c["aslist"]:
        sup, sdir = sup[0], sdir[0]
    if len(load) == 1 and not c["aslist"]:
        load, ldir, lval = load[0], ldir[0], lval[0]
    return (basis if basis is not None else vec_basis(b, intorder), sup, sdir, load, ldir, lval,
            design_of(b, c["design"]), c["E"], c["nu"])


def elastic_model(b, c):
    """What the partition should be (sets computed naively)."""
    mesh = b.mesh
    sup = [facets_of(b, s["reg"]) for s in c["sup"]]
    load = [facets_of(b, s["reg"]) for s in c["load"]]
    ln = np.unique(np.concatenate([nodes_of(mesh, f) for f in load]))
    loaded = elems_touching(mesh, ln)
    sn = np.unique(np.concatenate([nodes_of(mesh, f) for f in sup]))
    supported = elems_touching(mesh, sn)
    design = np.setdiff1d(design_of(b, c["design"]), loaded)
    return dict(loaded=loaded, supported=supported, design=design)


def make_elastic(b, c, intorder=2):
    from sktopt.mesh import LinearElasticity
    with hush():
        return LinearElasticity.from_facets(*elastic_args(b, c, intorder))


# far more supports and load cases than usual, on small regions of meshes large enough to leave designable elements
MANY = dict(mindir=2, maxdir=5, minload=5, maxload=14, modes=("one", "one", "some", "half"))
MANY_HEAT = dict(mindir=4, maxdir=12, minrobin=3, maxrobin=6, modes=("one", "one", "some", "half"))


def many_mesh_s():
    return one_of(mesh_s(kinds=("hex",), minn=3, maxn=5, maxel=80), mesh_s(kinds=("tet",), minn=2, maxn=3, maxel=110))


temp_s = num(-40.0, 900.0, 300.0, 600.0, 0.0, 20.5, 450.0)


def heat_s(mesh=None, objective=("compliance", "averaged_temp", "heat_exchange"), maxdir=3, robin=None,
           modes=("all", "half", "half2", "one", "some"), common_robin=False, design=None, maxrobin=2, mindir=1, minrobin=1):
    rob = twins(st.lists(st.fixed_dictionaries(dict(reg=region_s(modes=modes), h=lognum(1e-4, 50.0, 1e-3, 0.5, 5.0),
                                                    T=temp_s)), min_size=minrobin, max_size=maxrobin))
    return st.fixed_dictionaries(dict(
        mesh=mesh if mesh is not None else mesh_s(),
        sup=twins(st.lists(st.fixed_dictionaries(dict(reg=region_s(modes=modes), T=temp_s)), min_size=mindir, max_size=maxdir)),
        common_T=st.booleans(),
        robin=(robin(rob) if robin else one_of(st.none(), rob, rob)),
        common_robin=st.just(True) if common_robin else st.booleans(),
        design_robin=st.booleans(),
        aslist=st.booleans(),
        design=design if design is not None else design_s(),
        k=lognum(0.02, 400.0, 1.0, 10.0, 0.2),
        objective=st.sampled_from(objective),
        weight=num(0.0, 1.0, 0.0, 0.0, 0.3)))


def heat_cases(c):
    """[(region index list, temperature)] : the load cases of the spec."""
    if c["common_T"]:
        return [(list(range(len(c["sup"]))), c["sup"][0]["T"])]
    return [([i], s["T"]) for i, s in enumerate(c["sup"])]


def heat_robin(c):
    """[(region, h, T)] effective convection data."""
    if c["robin"] is None:
        return []
    if c["common_robin"]:
        r0 = c["robin"][0]
        return [(r["reg"], r0["h"], r0["T"]) for r in c["robin"]]
    return [(r["reg"], r["h"], r["T"]) for r in c["robin"]]


def heat_args(b, c, intorder=2, basis=None):
    sup = [facets_of(b, s["reg"]) for s in c["sup"]]
    vals = c["sup"][0]["T"] if c["common_T"] else [s["T"] for s in c["sup"]]
    if len(sup) == 1 and not c["aslist"]:
        if c["common_T"]:
            sup = sup[0]
    if c["robin"] is None:
        rf = rc = rv = dr = None
    else:
        rf = [facets_of(b, r["reg"]) for r in c["robin"]]
        if c["common_robin"]:
            rc, rv = c["robin"][0]["h"], c["robin"][0]["T"]
            if len(rf) == 1 and not c["aslist"]:
                rf = rf[0]
        else:
            rc, rv = [r["h"] for r in c["robin"]], [r["T"] for r in c["robin"]]
        dr = c["design_robin"]
    return (basis if basis is not None else scal_basis(b, intorder), sup, vals, rf, rc, rv, dr,
            design_of(b, c["design"]), c["k"], c["objective"], c["weight"])


def heat_model(b, c):
    mesh = b.mesh
    sn = np.unique(np.concatenate([nodes_of(mesh, facets_of(b, s["reg"])) for s in c["sup"]]))
    out = dict(supported=elems_touching(mesh, sn), supnodes=sn)
    design = design_of(b, c["design"])
    if c["robin"] is not None:
        rn = np.unique(np.concatenate([nodes_of(mesh, facets_of(b, r["reg"])) for r in c["robin"]]))
        out["robin"], out["robnodes"] = elems_touching(mesh, rn), rn
        if not c["design_robin"]:
            design = np.setdiff1d(design, out["robin"])
    out["design"] = design
    return out


def make_heat(b, c, intorder=2):
    from sktopt.mesh import LinearHeatConduction
    with hush():
        return LinearHeatConduction.from_facets(*heat_args(b, c, intorder))
