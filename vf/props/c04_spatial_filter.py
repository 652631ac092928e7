"""C04: the spatial filter against a dense, naively built Gaussian averaging operator."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, Discard, check, close

from sktopt.filters import SpacialFilter, spacial

radius_s = gen.one_of(st.sampled_from([0.071, 0.153, 0.317, 0.443, 0.7123, 1.0137, 1.618, 3.1415]), gen.lognum(0.03, 6.0).map(lambda v: round(v + 1.37e-6, 8)))
op_s = gen.one_of(
    st.fixed_dictionaries(dict(op=st.just("radius"), r=radius_s)),
    # a schedule near its end, or a slow continuation, moves the radius by very little per step
    st.fixed_dictionaries(dict(op=st.just("nudge"), eps=st.sampled_from(
        [1e-5, -1e-5, 1e-4, 1e-3, -1e-3, 0.004, -0.004, 0.009, -0.011, 0.02, 0.049, -0.07]))),
    st.fixed_dictionaries(dict(op=st.just("forward"), f=gen.field_s())),
    st.fixed_dictionaries(dict(op=st.just("forward"), f=gen.field_s())),
    st.fixed_dictionaries(dict(op=st.just("gradient"), f=gen.field_s(), neg=st.booleans())))
case_s = st.fixed_dictionaries(dict(
    mesh=gen.one_of(gen.mesh_s(maxel=48), gen.mesh_s(maxel=48, units=(1e-3, 1e3)), gen.mesh_s(maxn=9, maxel=350)),
    mask=gen.one_of(st.none(), gen.design_s()),
    rel=st.booleans(),
    r0=radius_s, ops=st.lists(op_s, min_size=1, max_size=7)))


big_s = st.fixed_dictionaries(dict(
    mesh=gen.big_mesh_s((1100, 2300, 4200)), mask=gen.one_of(st.none(), gen.design_s()), rel=st.just(True),
    r0=st.sampled_from([0.6, 0.7123, 1.0137]),
    ops=st.tuples(st.fixed_dictionaries(dict(op=st.just("forward"), f=gen.field_s(kinds=("rand", "binary")))), st.fixed_dictionaries(dict(op=st.just("nudge"), eps=st.sampled_from([0.02, -0.3]))),
                  st.fixed_dictionaries(dict(op=st.just("gradient"), f=gen.field_s(kinds=("rand", "binary")), neg=st.booleans()))).map(list)))


def reference(b, mask, r):
    """Dense operator on the design elements; Discard if the cut-off is ambiguous for some pair."""
    c = b.mesh.p[:, b.mesh.t].mean(axis=1)
    ids = np.flatnonzero(mask)
    d = np.sqrt(((c[:, ids, None] - c[:, None, ids]) ** 2).sum(0))
    if np.any(np.abs(d - r) <= 1e-8 * r):
        raise Discard()
    s = r / 3.0
    W = np.where(d <= r, np.exp(-0.5 * (d / s) ** 2), 0.0)
    return W / W.sum(axis=1, keepdims=True), int((d <= r).sum() - len(ids))


def run(c):
    b = gen.build_mesh(c["mesh"])
    ne = b.ne
    mask = np.ones(ne, bool) if c["mask"] is None else np.isin(np.arange(ne), gen.design_of(b, c["mask"]))
    size = (float(np.prod(c["mesh"]["len"])) / ne) ** (1 / 3) * 2.3 * c["mesh"]["unit"] if c["rel"] or c["mesh"]["unit"] != 1 else 1.0
    vol = np.ones(ne)

    def make(r):
        return SpacialFilter.from_defaults(b.mesh, elements_volume=vol, radius=r,
                                           design_mask=None if c["mask"] is None else mask.copy())
    r = c["r0"] * size
    flt = make(r)
    W, pairs = reference(b, mask, r)
    seen_pairs, changed, fresh = 0, False, False
    for op in c["ops"]:
        if op["op"] in ("radius", "nudge"):
            r = op["r"] * size if op["op"] == "radius" else r * (1 + op["eps"])
            flt.update_radius(r)
            W, pairs = reference(b, mask, r)
            changed, fresh = True, False
            continue
        x = gen.field(op["f"], ne)
        keep = x.copy()
        if op["op"] == "forward" or not fresh:
            y = np.asarray(flt.forward(x))
            fresh = True
            check(np.array_equal(x, keep), "forward modified its input")
            want = x.copy()
            want[mask] = W @ x[mask]
            close(y, want, "filtered field differs from the normalised Gaussian average", rtol=1e-10, atol=1e-12, r=r)
            check(bool(np.all(y >= x.min() - 1e-12) and np.all(y <= x.max() + 1e-12)), "filtered value outside the range of its inputs")
            close(np.asarray(make(r).forward(x)), y, "radius update differs from building the filter anew", rtol=1e-10, atol=1e-12, r=r)
            u = np.asarray(flt.forward(np.full(ne, 0.37)))
            close(u, np.full(ne, 0.37), "a uniform field is not reproduced", rtol=1e-10)
            seen_pairs += pairs
        if op["op"] == "gradient":
            v = -x if op["neg"] else x
            g = np.asarray(flt.gradient(v.copy()))
            want = np.zeros(ne)
            want[mask] = W.T @ v[mask]
            close(g, want, "gradient is not the transpose of the forward operation", rtol=1e-10, atol=1e-12, r=r)
    return dict(nontrivial=seen_pairs > 0,
                tags=[b.kind, "mask" if not mask.all() else "full", "radius-update" if changed else "one-radius"])


kernel_case_s = st.fixed_dictionaries(dict(
    mesh=gen.one_of(gen.mesh_s(maxel=48), gen.mesh_s(maxel=48), gen.mesh_s(maxn=9, maxel=200)),
    mask=gen.one_of(st.none(), gen.design_s()),
    kind=st.sampled_from(["linear", "quadratic", "gaussian", "gaussian"]),
    r=st.sampled_from([0.031, 0.153, 0.317, 0.7123, 1.0137, 1.618, 3.1415]),
    sigma=st.sampled_from([None, 0.05, 0.21, 0.4, 1.3]),
    vol=st.sampled_from([None, "on", "on", "off"]), seed=st.integers(0, 999), f=gen.field_s()))


def run_kernel(c):
    """The public building blocks: every kernel shape, its support radius, and the volume-weighted average."""
    b = gen.build_mesh(c["mesh"])
    ne = b.ne
    mask = None if c["mask"] is None else np.isin(np.arange(ne), gen.design_of(b, c["mask"]))
    m = np.ones(ne, bool) if mask is None else mask
    size = (float(np.prod(c["mesh"]["len"])) / ne) ** (1 / 3) * 2.3 * c["mesh"]["unit"]
    r = c["r"] * size
    sigma = None if c["sigma"] is None else c["sigma"] * size
    kernel, support = spacial.make_kernel(c["kind"], r) if sigma is None else spacial.make_kernel(c["kind"], r, sigma=sigma)
    s = r / 3 if sigma is None else sigma
    want_support = 3 * s if c["kind"] == "gaussian" else r
    close(support, want_support, "support radius of the kernel", rtol=1e-12)

    def shape(d):
        if c["kind"] == "linear":
            return np.maximum(0.0, r - d)
        if c["kind"] == "quadratic":
            return np.where(d < r, 1 - (d / r) ** 2, 0.0)
        return np.exp(-0.5 * (d / s) ** 2)
    ds = np.linspace(0, 1.7, 35) * want_support
    close(np.asarray(kernel(ds.copy())), shape(ds), "kernel weights", rtol=1e-12, atol=1e-14 * r)
    centers = spacial.get_element_centers(b.mesh)
    cen = b.mesh.p[:, b.mesh.t].mean(axis=1)
    close(centers, cen, "element centres", rtol=1e-12, atol=1e-13)
    ids = np.flatnonzero(m)
    d = np.sqrt(((cen[:, ids, None] - cen[:, None, ids]) ** 2).sum(0))
    if np.any(np.abs(d - want_support) <= 1e-8 * want_support):
        raise Discard()
    W = np.where(d <= want_support, shape(d), 0.0)
    vol = None if c["vol"] is None else np.random.default_rng(c["seed"]).uniform(0.2, 3.0, ne)
    if c["vol"] == "on":
        W = W * vol[ids][None, :]
    W = W / W.sum(axis=1, keepdims=True)
    kw = dict(design_mask=mask)
    if vol is not None:
        kw["elem_volume"] = vol
    if c["vol"] == "off":
        kw["volume_correction"] = False
    got = spacial.build_filter_matrix(centers, kernel, support, **kw)
    check(got.shape == W.shape, "shape of the filter matrix", got=got.shape, want=W.shape)
    close(np.asarray(got.todense()), W, "filter matrix differs from the normalised weighted average", rtol=1e-10, atol=1e-12, r=r)
    x = gen.field(c["f"], ne)[ids]
    y = np.asarray(got @ x).ravel()
    close(y, W @ x, "filtered field", rtol=1e-10, atol=1e-12)
    pairs = int((W > 0).sum() - len(ids))
    return dict(nontrivial=pairs > 0, tags=[c["kind"], "volume:%s" % c["vol"], "sigma" if sigma else "default-sigma"])


FACETS = [Facet("kernels", kernel_case_s, run_kernel, "some pair of elements lies within the support", quick=150, thorough=5000, qsec=40),
          Facet("operator", case_s, run, "some radius couples at least two elements and a field is filtered",
                quick=300, thorough=10000, qsec=60, shards=2),
          Facet("large", big_s, run, "some radius couples at least two elements and a field is filtered", quick=6, thorough=120, qsec=60, shards=2)]
ASSUMPTIONS = ["cases in which two centres lie at the cut-off radius to within rounding are discarded",
               "gradient is called after a forward with the same radius, as every run does"]
