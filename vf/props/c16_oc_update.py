"""C16: the OC update, its limits and its volume multiplier."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, runs
from ..core import Discard, Facet, check, close

one_of = gen.one_of
extra_s = st.fixed_dictionaries(dict(
    scaling_rate_min=one_of(gen.num(0.1, 0.98, 0.7, 0.7, 0.9, 0.4), gen.lognum(0.005, 0.9)), scaling_rate_max=one_of(gen.num(1.02, 4.0, 1.3, 1.3, 1.05, 2.0), gen.num(1.001, 10.0)),
    rho_max=gen.num(0.7, 1.0, 1.0, 1.0, 1.0, 0.9),
    lambda_lower=st.sampled_from([1e-7, 1e-7, 0.3, 1.0]), lambda_upper=st.sampled_from([1e7, 1e7, 1e3, 2.0]),
    sensitivity_filter=st.booleans()))


def case_s(inject, problem=None, wrap=lambda s: s):
    d = dict(pr=problem if problem is not None else runs.problem_s(), cfg=wrap(runs.cfg_s(opt=("oc",), iters=(1, 4), extra=extra_s, vol_frac=one_of(
        runs.sched_s(0.4, 0.6, ("const",)), runs.sched_s(0.2, 0.9, ("const", "const", "step"))),
        eta=one_of(runs.sched_s(0.2, 1.0, ("const", "plain", "step")), runs.sched_s(0.03, 1.0, ("const", "plain", "step"))),
        beta=one_of(runs.sched_s(0.1, 2.5, ("const",)), runs.sched_s(0.1, 8.0, ("const", "step"))))))
    d["reach"] = one_of(st.none(), st.floats(0.02, 0.98), st.floats(0.02, 0.98), st.floats(0.02, 0.98))
    if inject:
        d["inj"] = runs.inject_s
    return st.fixed_dictionaries(d)


def reachable(c, cc, pr):
    """A start density and a target between the extreme volumes its first update can reach."""
    b, t, des = runs.make_problem(pr, cc["design_dirichlet"])
    o = runs.make_optimizer(cc, t, observe=False)
    cfg = o.cfg
    vol = np.asarray(t.elements_volume, float)[des]
    move = runs.sched_values(cc["move_limit"], 1, cc["max_iters"])[0]
    beta = runs.sched_values(cc["beta"], 1, cc["max_iters"])[0]
    r0 = np.clip(cc["vol_frac"][1], cfg.rho_min, cfg.rho_max) * np.ones(len(des))
    if "inj" in c:
        x = runs.injected(c["inj"], len(des), 1, cfg.rho_min, cfg.rho_max)[1]
        r0 = r0 if x is None else x
    V = []
    for q in (cfg.scaling_rate_min, cfg.scaling_rate_max):
        full = np.ones(b.ne)
        full[des] = np.clip(r0 * q, np.maximum(r0 - move, cfg.rho_min), np.minimum(r0 + move, cfg.rho_max))
        p = runs.heaviside(runs.filtered(o, full), beta, cfg.beta_eta)
        V.append(float(p[des] @ vol / vol.sum()))
    return ["step", cc["vol_frac"][1], V[0] + c["reach"] * (V[1] - V[0]), 1]


def run(c):
    pr, cc = c["pr"], dict(c["cfg"])
    if cc["filter_type"] == "helmholtz":
        cc["extra"] = dict(cc["extra"], sensitivity_filter=False)
    b, t, des = runs.make_problem(pr, cc["design_dirichlet"])
    if c["reach"] is not None:
        cc["vol_frac"] = reachable(c, cc, pr)
        b, t, des = runs.make_problem(pr, cc["design_dirichlet"])
    o = runs.make_optimizer(cc, t)
    if "inj" in c:
        runs.inject(o, c["inj"])
    cfg = o.cfg
    vol = np.asarray(t.elements_volume, float)[des]
    scales, tags, nontriv = [], set(), [False]

    def hook(s):
        n = len(des)
        check(len(s.rho0) == n, "number of designable elements", got=len(s.rho0), want=n)
        check(np.isfinite(s.rho1).all(), "updated density is not finite", iteration=s.iter)
        raw = s.dC
        rec = np.array(o.recorder.histories["-dC"].data[-1], float)[:3]
        lam = float(o.recorder.histories["lmid"].data[-1])
        ve = float(o.recorder.histories["vol_error"].data[-1])
        # scale of the sensitivities
        mag = np.percentile(np.abs(raw), float(s.percentile)) if s.percentile is not None else np.abs(raw).max()
        scales.append(max(float(mag), cfg.sensitivity_scale_floor))
        stats = np.array([(-raw).min(), (-raw).mean(), (-raw).max()])
        i = int(np.argmax(np.abs(stats)))
        sc = stats[i] / rec[i] if rec[i] != 0 else scales[-1]
        if np.abs(raw).max() > 0:
            check(sc > 0, "sensitivities are scaled by a positive number", got=sc)
            close(rec * sc, stats, "recorded sensitivities are not those of the update", rtol=1e-9)
            lo, hi = min(scales), max(scales)
            check(lo * (1 - 1e-9) <= sc <= hi * (1 + 1e-9), "scale of the sensitivities", got=sc, want=(lo, hi), iteration=s.iter)
            if len(scales) == 1:
                tags.add("first scale")
        check(cfg.lambda_lower <= lam <= cfg.lambda_upper, "multiplier outside its bracket", got=lam,
              want=(cfg.lambda_lower, cfg.lambda_upper))

        def update(l):
            q = np.maximum(-raw / sc / (l + 1e-12), 0.0) ** float(s.eta)
            q = np.clip(q, cfg.scaling_rate_min, cfg.scaling_rate_max)
            x = np.clip(s.rho0 * q, np.maximum(s.rho0 - s.move, cfg.rho_min), np.minimum(s.rho0 + s.move, cfg.rho_max))
            return x, q
        base = np.ones(b.ne)
        if "inj" in c:
            base = runs.full_density(o, b.ne)
            if base is None:
                raise Discard()

        def volume(x):
            full = base.copy()
            full[des] = x
            pr_ = runs.heaviside(runs.filtered(o, full), s.beta, cfg.beta_eta)
            return float(pr_[des] @ vol / vol.sum()) - s.vol_frac
        x, q = update(lam)
        close(s.rho1, x, "updated density", rtol=1e-9, iteration=s.iter, lam=lam)
        close(s.scaling, q, "scaling rate", rtol=1e-9, iteration=s.iter)
        check((s.rho1 >= cfg.rho_min - 1e-12).all() and (s.rho1 <= cfg.rho_max + 1e-12).all(), "density outside its bounds")
        check((np.abs(s.rho1 - s.rho0) <= s.move + 1e-12).all(), "density changed by more than the move limit")
        v = volume(s.rho1)
        check(abs(ve - v) <= 1e-9, "reported volume error is not that of the returned densities", got=ve, want=v, iteration=s.iter)
        if abs(v) > 1e-4 + 1e-9:
            d = 2e-5
            ls = np.clip(lam + np.linspace(-d, d, 33), cfg.lambda_lower, cfg.lambda_upper)
            vs = np.array([volume(update(l)[0]) for l in ls])
            at_lo, at_hi = lam <= cfg.lambda_lower + d, lam >= cfg.lambda_upper - d
            ok = (vs.min() <= 1e-9 and vs.max() >= -1e-9) or (at_lo and v < 0) or (at_hi and v > 0)
            if not ok and cc["filter_type"] == "helmholtz":
                ok = vs.min() <= 1e-4 and vs.max() >= -1e-4
            check(ok, "volume target missed although the multiplier can still move", got=v, lam=lam, iteration=s.iter,
                  nearby=(float(vs.min()), float(vs.max())))
            if not (at_lo or at_hi):
                tags.add("jump at the target")
            # beyond the bracket: as far as the limits allow (monotone filter)
            if cc["filter_type"] == "spacial":
                if v > 0 and at_hi:
                    tags.add("unreachable: upper end")
                    nontriv[0] |= n > 1 and float(np.ptp(s.rho1)) > 1e-6
                elif v < 0 and at_lo:
                    tags.add("unreachable: lower end")
                    nontriv[0] |= n > 1 and float(np.ptp(s.rho1)) > 1e-6
        else:
            tags.add("target met")
            nontriv[0] |= n > 1 and float(np.ptp(q)) > 1e-6
        if np.any((q > cfg.scaling_rate_min) & (q < cfg.scaling_rate_max)):
            tags.add("interior scaling")
        if np.any(np.abs(np.abs(s.rho1 - s.rho0) - s.move) < 1e-12):
            tags.add("move limit active")
        if np.any(raw > 0):
            tags.add("positive sensitivity")
        if s.percentile is not None:
            tags.add("percentile")
    o.vf_hook = hook
    runs.run(o)
    check(len(o.vf_steps) == cc["max_iters"], "one update per iteration", got=len(o.vf_steps), want=cc["max_iters"])
    return dict(nontrivial=nontriv[0], tags=[b.kind, pr["kind"], cc["filter_type"]] + sorted(tags))


RULE = "several designable elements, and either the target is met with scaling rates that differ between elements or it is out of reach with densities that differ"
FACETS = [
    Facet("natural", case_s(False), run, RULE, quick=120, thorough=4000, qsec=40, tsec=600, shards=3, tshards=6),
    Facet("injected", case_s(True), run, RULE, quick=200, thorough=6000, qsec=45, tsec=700, shards=4, tshards=8),
    Facet("large", st.sampled_from([False, True]).flatmap(lambda i: case_s(i, runs.big_problem_s(), lambda s: runs.cut_s(s, 2))), run, RULE,
          quick=24, thorough=400, qsec=60, tsec=600, shards=3, tshards=6),
    Facet("long", st.sampled_from([False, True]).flatmap(lambda i: case_s(i, runs.problem_s(mesh=runs.tiny_mesh), runs.long_s)), run, RULE,
          quick=30, thorough=600, qsec=60, tsec=600, shards=3, tshards=6),
]
ASSUMPTIONS = ["elements outside the designable set are solid", "the filter operator is taken from the run (C04/C05)",
               "the running scale of the sensitivities is only required to lie within the range of scales seen so far"]
