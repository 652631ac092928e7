"""C28: runs, problems and evaluations in one process do not influence each other.

A run is compared with the same run interleaved with near copies of it (one or two inputs changed), throw-away runs and
evaluations. Every variant is computed in a forked process of its own, so the reference never shares state with anything.
"""
import gc
import os
import pickle
import signal

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs
from ..core import Discard, Facet, Violation, check, close

ASSUMPTIONS = ["runs that share a problem object do not use scaling=True, which puts the problem into other units while the run lasts",
               "processes are forked from one that imported the package and has not run it"]

mesh_s = gen.one_of(gen.mesh_s(kinds=("hex",), minn=2, maxn=3, maxel=18), gen.mesh_s(kinds=("tet",), minn=1, maxn=2, maxel=12))


def calm(c, on):
    """A configuration whose volume is within reach, so that the multiplier of an OC update is not at its limit."""
    return dict(c, vol_frac=["const", 0.6 + 0.3 * c["beta_eta"]], beta=["const", 1.0], beta_eta=0.5, move_limit=["const", 0.3], filter_radius=["const", 0.3],
                max_iters=max(2, c["max_iters"])) if on else c


cfg_s = st.builds(calm, runs.cfg_s(iters=(1, 3)), st.booleans())
prob_s = runs.problem_s(mesh=mesh_s)
MESH = ("map", "amt", "unit", "len", "grade", "perm")
EL = ("sup", "load", "E", "nu", "design", "k", "robin", "objective", "weight")
CFG = ("p", "vol_frac", "beta", "beta_eta", "move_limit", "eta", "filter_radius", "filter_type", "interpolation", "rho_min", "E_min_coeff", "percentile",
       "neumann_scale", "opt", "max_iters", "record_times")
PHYS = ("p", "E_min_coeff", "filter_radius", "interpolation", "neumann_scale", "opt", "vol_frac", "beta")
TWIN = ("design", "design", "faces", "faces", "order", "grade", "signs")

change_s = gen.one_of(
    *[st.tuples(st.just("el"), st.sampled_from(EL))] * 3, *[st.tuples(st.just("cfg"), st.sampled_from(CFG))] * 2, *[st.tuples(st.just("cfg"), st.sampled_from(PHYS))] * 3,
    *[st.tuples(st.just("twin"), st.sampled_from(TWIN))] * 3, st.tuples(st.just("mesh"), st.sampled_from(MESH)),
    st.tuples(st.just("all"), st.sampled_from(["kind", "mesh"]))).map(list)
phys_s = st.tuples(st.just("cfg"), st.sampled_from(PHYS)).map(list)
op_s = gen.one_of(*[st.tuples(st.just("step"), st.integers(0, 2), st.integers(1, 2))] * 3,
                  st.tuples(st.just("fresh"), st.integers(0, 2), st.just(1)), st.tuples(st.just("probe"), st.integers(0, 2), st.integers(0, 99))).map(list)
case_s = st.fixed_dictionaries(dict(
    pr=prob_s, pr2=prob_s, cfg=cfg_s, cfg2=cfg_s, changes=gen.one_of(
        *[st.lists(st.lists(change_s, min_size=1, max_size=2), min_size=1, max_size=2)] * 2,
        st.lists(st.lists(phys_s, min_size=1, max_size=3), min_size=1, max_size=2)),
    ops=st.lists(op_s, min_size=2, max_size=7), first=st.integers(0, 2), shared=st.sampled_from([True, True, False]), late=st.booleans()))


def twin(el, key, k):
    """The same problem with as many of everything: other elements, faces, order or direction."""
    if key == "design":
        d = el["design"] if el["design"]["kind"] != "all" else dict(kind="some", seed=k)
        return dict(el, design=dict(kind="turned", of=d))
    if key == "faces":
        def other(r):
            if r["mode"] == "near":
                return dict(r, of=other(r["of"]), face=r["face"] ^ 1)
            return dict(r, face=r["face"] ^ 1)
        which = ("sup", "load", "robin")[k % 3:] if k % 4 else ("sup", "load", "robin")
        return dict(el, **{x: [dict(s, reg=other(s["reg"])) for s in el[x]] for x in which if el.get(x)})
    if key == "order":
        return dict(el, **{x: el[x][::-1] for x in ("load", "sup", "robin") if el.get(x)})
    if key == "grade":
        return dict(el, mesh=dict(el["mesh"], grade=[1.0 / g for g in el["mesh"]["grade"]])) if "grade" in el["mesh"] else el
    out = dict(el)
    if el.get("load"):
        out["load"] = [dict(s, val=-s["val"]) for s in el["load"]]
    return out


def variant(c, changes):
    pr, cc = c["pr"], c["cfg"]
    for what, key in changes:
        o = c["pr2"]
        if what == "twin":
            pr = dict(pr, el=twin(pr["el"], key, len(changes) + pr["el"]["design"].get("seed", 0)))
        elif what == "cfg":
            cc = dict(cc, **{key: c["cfg2"][key]})
            if key == "opt":
                cc = dict(cc, extra={})
        elif what == "all" and key == "mesh":
            pr = dict(pr, el=dict(pr["el"], mesh=o["el"]["mesh"]))
        elif what == "all":
            pr = dict(o, el=dict(o["el"], mesh=pr["el"]["mesh"]))
        elif what == "mesh":
            m, m2 = pr["el"]["mesh"], o["el"]["mesh"]
            if key in m and key in m2:
                pr = dict(pr, el=dict(pr["el"], mesh=dict(m, **{key: m2[key]})))
        elif o["kind"] == pr["kind"] and key in o["el"]:
            pr = dict(pr, el=dict(pr["el"], **{key: o["el"][key]}))
    if pr["kind"] == "heat" and pr["el"]["robin"] is None and pr["el"]["objective"] == "heat_exchange":
        pr = dict(pr, el=dict(pr["el"], objective="compliance"))
    return pr, cc


def forked(f, *a):
    """f(*a) in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(240)
            try:
                out = ("ok", f(*a))
            except Discard:
                out = ("discard", None)
            except Violation as v:
                out = ("violation", str(v))
            except BaseException as ex:
                out = ("error", f"{type(ex).__name__}: {ex}")
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the process ended without a result")


def compiled():
    """Compiled functions of the package."""
    import sys
    for n, m in sorted(sys.modules.items()):
        if n.split(".")[0] == "sktopt":
            for k, d in sorted(vars(m).items(), key=lambda x: x[0]):
                if hasattr(d, "py_func") and hasattr(d, "compile") and hasattr(d, "signatures"):
                    yield (n, k), d


WARM = []


def warm():
    """Compiles here, without calling them, the functions that a run has compiled: every forked process would repeat it."""
    if WARM:
        return
    WARM.append(1)

    def used(c, cfg):
        for m, opt, law in (("elastic", "oc", "SIMP"), ("heat", "logmoc", "RAMP"), ("tet", "oc", "RAMP")):
            with gen.hush():
                o = runs.make_optimizer(dict(cfg, opt=opt, interpolation=law), c[m]())
                runs.run(o)
        return [(k, list(d.signatures)) for k, d in compiled()]

    def elastic(tet=False):
        from sktopt.mesh import LinearElasticity, toy_problem
        import skfem
        m = (toy_problem.create_box_tet if tet else toy_problem.create_box_hex)(3.0, 1.0, 1.0, 1.0)
        b = skfem.Basis(m, skfem.ElementVector(skfem.ElementTetP1() if tet else skfem.ElementHex1()), intorder=2)
        x = m.p[0][m.facets].mean(0)
        return LinearElasticity.from_facets(b, np.flatnonzero(x < 1e-9), "all", np.flatnonzero(x > 3 - 1e-9), "u^1", 1.0, np.arange(m.nelements), 1.0, 0.3)

    def heat():
        from sktopt.mesh import LinearHeatConduction, toy_problem
        import skfem
        m = toy_problem.create_box_hex(3.0, 1.0, 1.0, 1.0)
        b = skfem.Basis(m, skfem.ElementHex1(), intorder=2)
        x = m.p[0][m.facets].mean(0)
        return LinearHeatConduction.from_facets(b, np.flatnonzero(x < 1e-9), 1.0, np.flatnonzero(x > 3 - 1e-9), 1.0, 2.0, True, np.arange(3), 1.0,
                                                objective="compliance", avg_temp_weight=0.0)
    cfg = dict(filter_type="spacial", max_iters=1, record_times=1, interpolation="SIMP", p=["const", 3.0], vol_frac=["const", 0.5], beta=["const", 2.0],
               beta_eta=0.5, move_limit=["const", 0.2], eta=["const", 0.5], percentile=["none"], filter_radius=["const", 1.2], neumann_scale=["one"],
               rho_min=1e-2, E_min_coeff=1e-3, design_dirichlet=True, extra={})
    s, got = forked(used, dict(elastic=elastic, heat=heat, tet=lambda: elastic(True)), cfg)
    if s != "ok":
        return
    have = dict(compiled())
    for k, sigs in got:
        for g in sigs:
            try:
                have[k].compile(g)
            except Exception:
                pass


def build(v, t=None):
    pr, cc = v
    if t is None:
        b, t, des = runs.make_problem(pr, cc["design_dirichlet"])
        if pr["kind"] == "elastic" and not runs.loads_designable(pr, b, t):
            raise Discard()
    return runs.make_optimizer(cc, t), t


def records(o):
    steps = [(s.iter, s.rho1, s.proj, s.dC, s.u, s.energy) for s in o.vf_steps or []]
    return steps, {k: runs.history(o, k) for k in o.recorder.histories}


def alone(v):
    o, _ = build(v)
    return records(runs.run(o))


def probe(o, seed):
    """Evaluations on the run's problem with a density of their own."""
    r = np.random.RandomState(seed)
    t = o.tsk
    rho = r.uniform(0.2, 1.0, t.mesh.nelements)
    u = np.zeros((t.basis.N, t.n_tasks))
    fem = type(o.fem)(t, E_min_coeff=10.0 ** r.uniform(-4, -1), density_interpolation=o.fem.density_interpolation) \
        if hasattr(o.fem, "density_interpolation") else type(o.fem)(t, E_min_coeff=10.0 ** r.uniform(-4, -1))
    with gen.hush():
        fem.objectives_multi_load(rho, r.uniform(1, 4), u)
        fem.energy_multi_load(rho, r.uniform(1, 4), u)
        type(o.filter).from_defaults(t.mesh, t.elements_volume, radius=r.uniform(0.3, 2.0)).forward(rho)


def together(vs, ops, shared, late, same):
    opts, tasks = {}, {}

    def get(i):
        if i not in opts:
            j = same[i] if shared else i
            opts[i], tasks[i] = build(vs[i], tasks.get(j))
            tasks.setdefault(j, tasks[i])
        return opts[i]
    if not late:
        for i in range(len(vs)):
            get(i)
    for what, i, k in ops:
        i = i % len(vs)
        if what == "step":
            runs.run(get(i), k)
        elif what == "probe":
            probe(get(i), k)
        else:
            o, t = build(vs[i])
            runs.run(o, 1)
            del o, t
            gc.collect()
    out = []
    for i in range(len(vs)):
        out.append(records(runs.run(get(i))))
    return out


def run(c):
    warm()
    vs = [(c["pr"], c["cfg"])] + [variant(c, ch) for ch in c["changes"]]
    k = c["first"] % len(vs)
    vs = vs[k:] + vs[:k]
    # runs of the same problem may share it
    same = [next(j for j in range(len(vs)) if vs[j][0] == v[0]) for v in vs]
    ref_ = []
    for v in vs:
        s, r = forked(alone, v)
        if s != "ok":
            raise Discard()                                       # not a run at all (C18 decides which must be)
        ref_.append(r)
    s, got = forked(together, vs, c["ops"], c["shared"], c["late"], same)
    check(s == "ok", "a run fails beside others and does not alone", error=got)
    for i, ((A, ra), (B, rb)) in enumerate(zip(ref_, got)):
        check([x[0] for x in A] == [x[0] for x in B], "another number of iterations beside other runs", run=i, got=[x[0] for x in B], want=[x[0] for x in A])
        for a, b in zip(A, B):
            for x, y, nm in zip(a[1:], b[1:], ("densities", "projected densities", "sensitivities", "states", "energies")):
                close(y, x, f"{nm} of a run depend on what else was computed", rtol=1e-7, run=i, iteration=a[0])
        check(sorted(ra) == sorted(rb), "other histories are recorded beside other runs", run=i)
        for h in ra:
            check(np.shape(ra[h]) == np.shape(rb[h]), "the history of a run depends on what else was computed (number of values)", history=h, run=i)
            x, y = np.array(ra[h], float), np.array(rb[h], float)
            ok = np.isfinite(x)
            check(bool(np.array_equal(ok, np.isfinite(y))), "the history of a run depends on what else was computed", history=h, run=i)
            close(np.where(ok, y, 0.0), np.where(ok, x, 0.0), "the history of a run depends on what else was computed", rtol=1e-7, history=h, run=i)
    mixed = len({o[1] % len(vs) for o in c["ops"] if o[0] == "step"}) > 1 or any(o[0] != "step" for o in c["ops"])
    return dict(nontrivial=mixed, tags=[c["pr"]["kind"], c["cfg"]["opt"], "shared problem" if c["shared"] and len(set(same)) < len(vs) else "own problems"]
                + sorted({x[0] + " " + x[1] for ch in c["changes"] for x in ch}))


big = st.builds(lambda c, m: dict(c, pr=dict(c["pr"], el=dict(c["pr"]["el"], mesh=m)), cfg=dict(c["cfg"], max_iters=2), cfg2=dict(c["cfg2"], max_iters=2)),
                case_s, gen.big_mesh_s(counts=(300, 500), maps=("none", "shear", "jitter")))

FACETS = [
    Facet("interleaved", case_s, run, "several runs take turns, or other work comes between", quick=200, thorough=4000, qsec=80, tsec=800, shards=6),
    Facet("large", big, run, "several runs take turns, or other work comes between", quick=5, thorough=80, qsec=60, tsec=600, shards=2),
]
