"""C27: the system of units does not change a run.

Every problem is run twice: as generated, and with all its lengths, forces, moduli, conductivities, convection coefficients
and temperatures in other units. The densities of every iteration must agree, and every record must be the same quantity in
the other unit.
"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, runs
from ..core import Discard, Facet, check

ASSUMPTIONS = ["where two runs differ by more than 1e-7, two more (nodes moved by 1e-10 of the size; units changed by 7 to 30 percent) measure how far the run amplifies rounding; cases that amplify it beyond 1e-4 are discarded",
               "LogMOC with normalize_volume_chain off adds the objective's gradient to a dimensionless one, and a heat-exchange objective with a temperature weight on one case adds different dimensions: both are outside",
               "sensitivities stay above the configured absolute floors"]

unit = gen.one_of(st.sampled_from([2.0 ** -20, 2.0 ** -10, 2.0 ** -3, 0.5, 2.0, 8.0, 2.0 ** 10, 2.0 ** 20, 1.0, 1.0]), st.sampled_from([1e-3, 1e3, 25.4, 0.3048, 1e-2, 4.4482216]))
temp = st.sampled_from([1.0, 1.0, 0.5, 2.0, 1.8, 1e-2])
units_s = st.fixed_dictionaries(dict(length=gen.one_of(st.sampled_from([1.0, 2.0 ** -10, 0.5, 2.0, 2.0 ** 10]), st.sampled_from([1e-3, 1e3, 25.4])), stiff=unit, temp=temp))

ODD = dict(length=1.1, stiff=1.3, temp=1.07)         # rounds everything differently and is no change to speak of


def in_units(pr, cc, w):
    """The same problem in other units, and the factors of its quantities."""
    L, s, th = w["length"], w["stiff"], w["temp"]
    el = dict(pr["el"])
    el["mesh"] = dict(el["mesh"], unit=el["mesh"]["unit"] * L)
    if pr["kind"] == "elastic":
        el["E"] = el["E"] * s
        el["load"] = [dict(x, val=x["val"] * s * L * L) for x in el["load"]]
        f = dict(objective=s * L ** 3, state=L, energy=s * L ** 3, dC=s * L ** 3)
    else:
        el["k"] = el["k"] * s
        el["sup"] = [dict(x, T=x["T"] * th) for x in el["sup"]]
        if el["robin"] is not None:
            el["robin"] = [dict(x, T=x["T"] * th, h=x["h"] * s / L) for x in el["robin"]]
        o = el["objective"]
        f = dict(objective={"compliance": th * th * s * L, "averaged_temp": th, "heat_exchange": th * th * s / L}[o], state=th,
                 energy=th * th * s * L if o == "compliance" else None, dC=th * th * s * L)
        if o == "heat_exchange" and el["weight"] and n_cases(pr["el"]) > 1:
            f["objective"] = 1.0
    r = list(cc["filter_radius"])
    for i in {"const": (1,), "plain": (1,), "step": (1, 2)}[r[0]]:
        r[i] = r[i] * L
    return dict(pr, el=el), dict(cc, filter_radius=r), f


def n_cases(el):
    return len(gen.heat_cases(el))


def go(pr, cc, noise=0.0):
    b, t, des = runs.make_problem(pr, cc["design_dirichlet"])
    if noise:
        p = b.mesh.p + noise * np.ptp(b.mesh.p) * np.random.RandomState(5).uniform(-1, 1, b.mesh.p.shape)
        nb = gen.Built(type(b.mesh)(p, b.mesh.t), b.ref, pr["el"]["mesh"])
        from sktopt.mesh import LinearElasticity, LinearHeatConduction
        a = list(gen.elastic_args(b, pr["el"]) if pr["kind"] == "elastic" else gen.heat_args(b, pr["el"]))
        a[0] = gen.vec_basis(nb) if pr["kind"] == "elastic" else gen.scal_basis(nb)
        with gen.hush():
            t = (LinearElasticity if pr["kind"] == "elastic" else LinearHeatConduction).from_facets(*a)
    if pr["kind"] == "elastic" and not runs.loads_designable(pr, b, t):
        raise Discard()
    o = runs.make_optimizer(cc, t)
    runs.run(o)
    return o.vf_steps, {k: np.array(h.data, float) for k, h in o.recorder.histories.items()}


def factor(k, f, cc, objective):
    if k == objective:
        return f["objective"]
    if k == "u_max":
        return f["state"]
    if k == "energy":
        return f["energy"]
    if cc["opt"] == "oc":
        return {"kkt_residual": f["dC"]}.get(k, 1.0)
    return {"-dC": f["dC"], "dV_chain": f["dC"], "volume_chain_scale": f["dC"]}.get(k, 1.0)


def run(c):
    pr, cc = c["pr"], c["cfg"]
    if cc["opt"] == "logmoc":
        cc = dict(cc, extra=dict(cc["extra"], normalize_volume_chain=True))
    el = pr["el"]
    if pr["kind"] == "heat" and el["objective"] == "heat_exchange" and el["weight"] and n_cases(el) == 1:
        pr = dict(pr, el=dict(el, weight=0.0))
    cc = dict(cc, filter_radius=[cc["filter_radius"][0]] + [v + 0.0037123 if isinstance(v, float) else v for v in cc["filter_radius"][1:]])
    A, ra = go(pr, cc)
    floor = 1e-10 if cc["opt"] == "oc" else 1e-6

    def lowest(steps):
        return min(float(np.percentile(np.abs(s.dC), 100.0 if s.percentile is None else s.percentile)) for s in steps)
    if lowest(A) < 4 * floor:                        # start from units in which the sensitivities are not small
        top = 1.0 if pr["kind"] == "elastic" else el["k"] * max(x["T"] ** 2 for x in el["sup"])
        if lowest(A) <= 1e-12 * top:
            raise Discard()
        pr = in_units(pr, cc, dict(length=1.0, temp=1.0, stiff=2.0 ** int(np.ceil(-np.log2(lowest(A))))))[0]
        el = pr["el"]
        A, ra = go(pr, cc)
    w = c["units"]
    pr2, cc2, f = in_units(pr, cc, w)
    if lowest(A) * f["dC"] < floor:                  # the same change in the other direction
        w = {k: 1.0 / v for k, v in w.items()}
        pr2, cc2, f = in_units(pr, cc, w)
    if lowest(A) * min(1.0, f["dC"]) < floor:
        raise Discard()
    B, rb = go(pr2, cc2)
    N = []
    objective = "compliance" if pr["kind"] == "elastic" else el["objective"]

    def amplified(it):
        """How far rounding is amplified up to an iteration; computed when needed."""
        if not N:
            n1 = go(pr, cc, 1e-10)
            pr3, cc3, f3 = in_units(pr, cc, ODD)
            n2 = go(pr3, cc3)
            N.append([max(float(np.abs(a.rho1 - n.rho1).max()) for n in ns) + max(float(np.abs(a.proj - n.proj).max()) for n in ns)
                      for a, *ns in zip(A, n1[0], n2[0])])
            N.append({k: np.maximum(np.abs(ra[k] - n1[1][k]), np.abs(ra[k] - n2[1][k] / (factor(k, f3, cc, objective) or 1.0))) for k in ra})
            if not all(np.isfinite(N[0])) or max(N[0]) > 1e-4:
                raise Discard()
        return max(N[0][:it + 1])
    check(len(A) == len(B) == cc["max_iters"], "the run in other units performs another number of iterations", got=len(B), want=cc["max_iters"])
    for it, (a, b) in enumerate(zip(A, B)):
        check(a.rho1.shape == b.rho1.shape, "other elements are designable in other units", iteration=it + 1)
        e = max(float(np.abs(a.rho1 - b.rho1).max()), float(np.abs(a.proj - b.proj).max()))
        if not e <= 1e-7:
            n = amplified(it)
            check(e <= 2e-6 + 200 * n, "the run in other units gets another design", iteration=it + 1, error=e, noise=n)
    check(set(ra) == set(rb), "the run in other units records other histories")
    for k in ra:
        q = factor(k, f, cc, objective)
        if q is None:
            continue
        x, y = ra[k] * q, rb[k]
        check(x.shape == y.shape, "another number of values is recorded in other units", name=k, got=y.shape, want=x.shape)
        if x.size:
            e, top = float(np.abs(x - y).max()), float(np.abs(x).max())
            if not e <= 1e-7 * top + 1e-9 * q:
                amplified(len(A) - 1)
                lim = (1e-6 + 200 * float(N[1][k].max())) * q + 2e-6 * top
                check(e <= lim, "a record is not the same quantity in other units", name=k, error=e, limit=lim, factor=q)
    return dict(nontrivial=len(A) > 1 and any(w[k] != 1 for k in (("length", "stiff") if pr["kind"] == "elastic" else w)),
                tags=[cc["opt"], pr["kind"], cc["filter_type"]] + [k for k in w if w[k] != 1])


def varied(pr):
    """Temperatures of a heat problem differ, so that heat flows."""
    el = pr["el"]
    if pr["kind"] == "heat" and len({x["T"] for x in el["sup"]} | {x["T"] for x in el["robin"]}) == 1:
        el = dict(el, robin=[dict(x, T=x["T"] + 37.5) for x in el["robin"]])
    return dict(pr, el=el)


def problems(f=runs.problem_s, **kw):
    return f(robin=lambda r: r, **kw).map(varied)


case_s = st.fixed_dictionaries(dict(pr=problems(), cfg=runs.cfg_s(iters=(1, 5)), units=units_s))
long_s = st.fixed_dictionaries(dict(pr=problems(mesh=runs.tiny_mesh), cfg=runs.long_s(runs.cfg_s(), (6, 25)), units=units_s))
big_s = st.fixed_dictionaries(dict(pr=problems(runs.big_problem_s, counts=(300, 500)), cfg=runs.cfg_s(iters=(2, 2)), units=units_s))

FACETS = [
    Facet("run", case_s, run, "a run of several iterations in other units", quick=110, thorough=3500, qsec=70, tsec=800, shards=5),
    Facet("long", long_s, run, "a run of several iterations in other units", quick=14, thorough=300, qsec=70, tsec=600),
    Facet("large", big_s, run, "a run of several iterations in other units", quick=8, thorough=100, qsec=70, tsec=600, shards=2),
]
