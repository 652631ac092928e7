"""C26: a run's design does not depend on how its problem is written down.

Every problem is run twice: as generated, and rewritten (renumbered, permuted, moved, turned, mirrored, relisted).
The rewritten run must give the same design on the corresponding elements and the same records.
"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, runs
from ..core import Discard, Facet, check

import skfem
from sktopt.mesh import LinearElasticity, LinearHeatConduction

ASSUMPTIONS = ["a third run on the same mesh with its nodes moved by 1e-10 of its size measures how far the run amplifies rounding; cases that amplify it beyond 1e-4 are discarded",
               "filter radii are chosen away from distances between element centres (the filter is discontinuous there)"]

TURN = {"none": [0, 1, 2], "xyz-yzx": [1, 2, 0], "xyz-zxy": [2, 0, 1]}
rew_s = st.fixed_dictionaries(dict(renum=st.integers(0, 50), turn=st.sampled_from(list(TURN)), mirror=st.booleans(), local=st.integers(0, 2), shift=st.sampled_from([None, None, [1.5, -2.25, 7.0], [-40.0, 0.0, 0.5]]),
                                   order=st.integers(0, 20), shuffle=st.booleans(), flip=st.booleans(), listed=st.booleans()))


def rewrite(b, w):
    """(mesh, node map, element map): old node k is new node P[k]; old element e is new element Q[e]."""
    m = b.mesh
    p, t = m.p.copy(), m.t.copy()
    if w["mirror"]:
        p[0] = -p[0]
        if b.kind == "tet":
            t = t[[0, 1, 3, 2]]
        else:
            t = t[[local(1 - a, y, z) for a, y, z in ref.HEX_REF.astype(int)]]
    p = p[TURN[w["turn"]]]
    for _ in range(w["local"]):
        t = t[[1, 2, 0, 3]] if b.kind == "tet" else t[[local(z, x, y) for x, y, z in ref.HEX_REF.astype(int)]]
    if w["shift"]:
        p = p + np.array(w["shift"])[:, None]
    r = np.random.RandomState(w["renum"])
    P, Q = (r.permutation(p.shape[1]), r.permutation(t.shape[1])) if w["renum"] else (np.arange(p.shape[1]), np.arange(t.shape[1]))
    p2, t2 = np.empty_like(p), np.empty_like(t)
    p2[:, P] = p
    t2[:, Q] = P[t]
    return type(m)(np.ascontiguousarray(p2), np.ascontiguousarray(t2)), P, Q


def local(x, y, z):
    return int(np.flatnonzero((ref.HEX_REF == np.array([x, y, z])).all(axis=1))[0])


class Problem:
    def __init__(self, pr, w=None, noise=0.0):
        el = pr["el"]
        b = gen.build_mesh(el["mesh"])
        self.elastic = pr["kind"] == "elastic"
        mod = gen.elastic_model(b, el) if self.elastic else gen.heat_model(b, el)
        if len(mod["design"]) == 0:
            raise Discard()
        self.mod = mod
        a = list(gen.elastic_args(b, dict(el, aslist=True)) if self.elastic else gen.heat_args(b, dict(el, aslist=True)))
        self.Q = np.arange(b.ne)
        if noise:
            p = b.mesh.p + noise * np.ptp(b.mesh.p) * np.random.RandomState(5).uniform(-1, 1, b.mesh.p.shape)
            nb = gen.Built(type(b.mesh)(p, b.mesh.t), b.ref, el["mesh"])
            a[0] = gen.vec_basis(nb) if self.elastic else gen.scal_basis(nb)
        if w is not None:
            mesh, P, Q = rewrite(b, w)
            self.Q = Q
            nb = gen.Built(mesh, None, el["mesh"])
            where = {tuple(sorted(f)): i for i, f in enumerate(mesh.facets.T.tolist())}
            r = np.random.RandomState(w["order"])

            def mapped(f):
                g = np.array([where[tuple(sorted(P[b.mesh.facets[:, k]].tolist()))] for k in f], dtype=np.int64)
                return r.permutation(g) if w["shuffle"] else np.sort(g)
            a[0] = gen.vec_basis(nb) if self.elastic else gen.scal_basis(nb)
            for i in ((1, 3) if self.elastic else (1, 3)):
                if a[i] is not None:
                    a[i] = [mapped(f) for f in (a[i] if isinstance(a[i], list) else [a[i]])]
            if self.elastic:
                axis = {f"u^{i + 1}": f"u^{TURN[w['turn']].index(i) + 1}" for i in range(3)}
                axis["all"] = "all"
                sgn = [(-1.0 if w["flip"] else 1.0) * (-1.0 if w["mirror"] and d == "u^1" else 1.0) for d in a[4]]
                a[5] = [s * v for s, v in zip(sgn, a[5])]
                a[2], a[4] = [axis[d] for d in a[2]], [axis[d] for d in a[4]]
                o1, o2 = r.permutation(len(a[1])), r.permutation(len(a[3]))
                a[1], a[2] = [a[1][i] for i in o1], [a[2][i] for i in o1]
                a[3], a[4], a[5] = ([a[k][i] for i in o2] for k in (3, 4, 5))
                if not w["listed"] and len(a[1]) == 1:
                    a[1], a[2] = a[1][0], a[2][0]
                if not w["listed"] and len(a[3]) == 1:
                    a[3], a[4], a[5] = a[3][0], a[4][0], a[5][0]
            else:
                o1 = r.permutation(len(a[1]))
                a[1] = [a[1][i] for i in o1]
                if isinstance(a[2], list):
                    a[2] = [a[2][i] for i in o1]
                if a[3] is not None:
                    o2 = r.permutation(len(a[3]))
                    a[3] = [a[3][i] for i in o2]
                    if isinstance(a[4], list):
                        a[4], a[5] = [a[4][i] for i in o2], [a[5][i] for i in o2]
            i = 6 if self.elastic else 7
            d = Q[np.asarray(a[i])]
            a[i] = r.permutation(d) if w["shuffle"] else np.sort(d)
        with gen.hush():
            self.t = (LinearElasticity if self.elastic else LinearHeatConduction).from_facets(*a)


def go(c, w=None, noise=0.0):
    q = Problem(c["pr"], w, noise)
    if not c["cfg"]["design_dirichlet"] and len(np.setdiff1d(q.mod["design"], q.mod["supported"])) == 0:
        raise Discard()
    cfg = dict(c["cfg"], filter_radius=[c["cfg"]["filter_radius"][0]] + [v + 0.0037123 if isinstance(v, float) else v for v in c["cfg"]["filter_radius"][1:]])
    o = runs.make_optimizer(cfg, q.t)
    runs.run(o)
    ne = q.t.mesh.nelements
    des = np.asarray(q.t.design_elements)
    out = []
    for s in o.vf_steps:
        full = np.full(ne, np.nan)
        full[des] = s.rho1
        out.append(np.concatenate([full[q.Q], s.proj[q.Q] if s.proj.shape == (ne,) else []]))
    rec = {k: np.array(h.data, float) for k, h in o.recorder.histories.items()}
    return out, rec


def run(c):
    A, ra = go(c)
    N, rn = go(c, None, 1e-10)
    d = c["cfg"]["max_iters"]
    dev = [float(np.nanmax(np.abs(x - y))) for x, y in zip(A, N)]
    if not all(np.isfinite(v) for v in dev) or max(dev) > 1e-4:
        raise Discard()
    B, rb = go(c, c["rew"])
    check(len(A) == len(B) == d, "the rewritten problem runs for another number of iterations", got=len(B), want=d)
    worst = 0.0
    for it, (x, y) in enumerate(zip(A, B)):
        check(x.shape == y.shape and np.array_equal(np.isnan(x), np.isnan(y)), "other elements are designable in the rewritten problem", iteration=it + 1)
        e = float(np.nanmax(np.abs(x - y)))
        check(e <= 2e-6 + 200 * max(dev[:it + 1]), "the rewritten problem gets another design", iteration=it + 1, error=e, noise=dev[:it + 1])
        worst = max(worst, e)
    check(set(ra) == set(rb), "the rewritten problem records other histories")
    for k in ra:
        x, y, z = ra[k], rb[k], rn[k]
        check(x.shape == y.shape, "the rewritten problem records another number of values", name=k, got=y.shape, want=x.shape)
        if x.size:
            lim = 1e-6 + 2e-6 * np.abs(x).max() + 200 * np.abs(x - z).max()
            e = float(np.abs(x - y).max())
            check(e <= lim, "the rewritten problem records other values", name=k, error=e, limit=float(lim))
    w = c["rew"]
    return dict(nontrivial=d > 1, tags=[c["cfg"]["opt"], c["pr"]["kind"], c["cfg"]["filter_type"]] + [k for k in ("mirror", "flip", "shuffle") if w[k]] + (["turn"] if w["turn"] != "none" else [])
                + (["renumbered"] if w["renum"] else []) + (["worst>1e-8"] if worst > 1e-8 else []))


case_s = st.fixed_dictionaries(dict(pr=runs.problem_s(), cfg=runs.cfg_s(iters=(1, 5)), rew=rew_s))
tiny_s = st.fixed_dictionaries(dict(pr=runs.problem_s(mesh=runs.tiny_mesh), cfg=runs.long_s(runs.cfg_s(), (6, 25)), rew=rew_s))
big_s = st.fixed_dictionaries(dict(pr=runs.big_problem_s(counts=(300, 650)), cfg=runs.cfg_s(iters=(2, 3)), rew=rew_s))

FACETS = [
    Facet("run", case_s, run, "a run of several iterations", quick=60, thorough=2500, qsec=100, tsec=800, shards=5),
    Facet("long", tiny_s, run, "a run of several iterations", quick=6, thorough=200, qsec=100, tsec=600),
    Facet("large", big_s, run, "a run of several iterations", quick=4, thorough=60, qsec=100, tsec=600, shards=2),
]
