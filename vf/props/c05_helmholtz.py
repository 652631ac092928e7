"""C05: the Helmholtz filter against independently assembled screened-diffusion equations."""
import numpy as np
from hypothesis import strategies as st
from scipy.sparse.linalg import spsolve

from .. import gen, ref
from ..core import Facet, check, close

from sktopt.filters import HelmholtzFilterNodal

radius_s = gen.lognum(1e-3, 5.0, 1e-3, 0.05, 0.2, 0.5, 1.0, 3.0)
op_s = gen.one_of(
    st.fixed_dictionaries(dict(op=st.just("radius"), r=radius_s)),
    st.fixed_dictionaries(dict(op=st.just("nudge"), eps=st.sampled_from([1e-5, 1e-4, -1e-3, 0.004, -0.011, 0.02, 0.049, -0.07]))),
    st.fixed_dictionaries(dict(op=st.just("forward"), f=gen.field_s())),
    st.fixed_dictionaries(dict(op=st.just("gradient"), f=gen.field_s(kinds=("rand", "rand", "binary", "lin", "const")))))
case_s = st.fixed_dictionaries(dict(
    mesh=gen.one_of(gen.mesh_s(maxel=48), gen.mesh_s(maxel=48, units=(1e-3, 1e3))), mask=gen.one_of(st.none(), gen.design_s()),
    r0=radius_s, ops=st.lists(op_s, min_size=1, max_size=5)))


cut_s = st.fixed_dictionaries(dict(kind=st.sampled_from(["some", "half"]), seed=st.integers(0, 20)))
big_s = st.fixed_dictionaries(dict(
    mesh=gen.big_mesh_s((1100, 2300, 4200)), mask=gen.one_of(st.none(), cut_s, cut_s), r0=gen.lognum(0.03, 0.8),
    ops=st.tuples(st.fixed_dictionaries(dict(op=st.just("forward"), f=gen.field_s(kinds=("rand", "binary")))), st.fixed_dictionaries(dict(op=st.just("nudge"), eps=st.sampled_from([0.02, -0.3]))),
                  st.fixed_dictionaries(dict(op=st.just("gradient"), f=gen.field_s(kinds=("rand", "binary"))))).map(list)))


class Model:
    def __init__(self, b, vol, mask):
        self.m, self.vol, self.mask = b.mesh, vol, mask
        g = ref.Geo(b.mesh, 4 if b.kind == "hex" else 2)
        t = b.mesh.t.T
        self.n = b.mesh.p.shape[1]
        put = ref.assemble if self.n < 300 else ref.assemble_sparse
        self.M = put(ref.mass_Me(g), t, self.n)
        self.K = put(ref.heat_Ke(g), t, self.n)
        self.fixed = np.zeros(self.n, bool)
        self.fixed[np.unique(t[~mask])] = True

    def to_nodes(self, x, other):
        v = np.where(self.mask, x, other)
        num, den = np.zeros(self.n), np.zeros(self.n)
        for e, nodes in enumerate(self.m.t.T):
            num[nodes] += self.vol[e] * v[e]
            den[nodes] += self.vol[e]
        return num / den

    def solve(self, b, r, fix):
        A, f = self.M + r * r * self.K, self.M @ b
        x = np.zeros(self.n)
        if fix:
            x[self.fixed] = 1.0
            free = ~self.fixed
            if free.any():
                f = f - A @ x
                k = np.flatnonzero(free)
                x[k] = np.linalg.solve(A[np.ix_(k, k)], f[k]) if isinstance(A, np.ndarray) else spsolve(A[k][:, k].tocsc(), f[k])
            return x
        return np.linalg.solve(A, f) if isinstance(A, np.ndarray) else spsolve(A.tocsc(), f)

    def forward(self, x, r):
        return self.solve(self.to_nodes(x, 1.0), r, True)[self.m.t].mean(axis=0)

    def gradient(self, v, r):
        return np.minimum(self.solve(self.to_nodes(v, 0.0), r, False)[self.m.t].mean(axis=0), 0.0)


def run(c):
    b = gen.build_mesh(c["mesh"])
    ne = b.ne
    mask = np.ones(ne, bool) if c["mask"] is None else np.isin(np.arange(ne), gen.design_of(b, c["mask"]))
    vol = ref.Geo(b.mesh).volumes()
    mod = Model(b, vol, mask)
    tol = dict(rtol=1e-8, atol=1e-10) if c["mesh"]["map"] != "taper" else dict(rtol=1e-5, atol=1e-7)

    def make(r):
        return HelmholtzFilterNodal.from_defaults(b.mesh, elements_volume=vol.copy(), radius=r,
                                                  design_mask=None if c["mask"] is None else mask.copy())
    r, changed, nt = c["r0"] * c["mesh"]["unit"], False, False
    flt = make(r)
    for op in c["ops"]:
        if op["op"] in ("radius", "nudge"):
            r = op["r"] * c["mesh"]["unit"] if op["op"] == "radius" else r * (1 + op["eps"])
            flt.update_radius(r)
            changed = True
            continue
        x = gen.field(op["f"], ne)
        nt = nt or bool(np.ptp(x) > 0)
        if op["op"] == "forward":
            keep = x.copy()
            y = np.asarray(flt.forward(x))
            check(np.array_equal(x, keep), "forward modified its input")
            close(y, mod.forward(x, r), "filtered field does not solve the screened-diffusion problem", r=r, **tol)
            close(np.asarray(make(r).forward(x)), y, "radius update differs from building the filter anew", rtol=1e-9, atol=1e-11, r=r)
            one = np.asarray(flt.forward(np.ones(ne)))
            close(one, np.ones(ne), "a solid field is not reproduced", rtol=1e-8)
            if mask.all():
                close(np.asarray(flt.forward(np.full(ne, 0.25))), np.full(ne, 0.25), "a uniform field is not reproduced", rtol=1e-8)
                if r >= 0.2 * c["mesh"]["unit"]:
                    big = np.asarray(make(1e3 * r).forward(x))
                    check(bool(np.ptp(big) <= 1e-3), "a very large radius does not give a uniform field", spread=float(np.ptp(big)))
        else:
            v = -x
            keep = v.copy()
            g = np.asarray(flt.gradient(v))
            check(np.array_equal(v, keep), "gradient modified its input")
            close(g, mod.gradient(v, r), "filtered sensitivity does not solve the screened-diffusion problem", r=r, **tol)
            check(bool(np.all(g <= 0)), "descending sensitivity turned into an ascending one")
            close(np.asarray(flt.gradient(2.5 * v)), 2.5 * g, "gradient is not homogeneous", rtol=1e-9, atol=1e-12)
            close(np.asarray(make(r).gradient(v)), g, "gradient after a radius update differs from a new filter", rtol=1e-9, atol=1e-11)
    return dict(nontrivial=nt, tags=[b.kind, "mask" if not mask.all() else "full", "radius-update" if changed else "one-radius"])


FACETS = [Facet("equation", case_s, run, "a non-uniform field is filtered", quick=320, thorough=8000, qsec=70, shards=3),
          Facet("large", big_s, run, "a non-uniform field is filtered", quick=9, thorough=120, qsec=80, shards=3)]
