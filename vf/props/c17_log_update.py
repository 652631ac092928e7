"""C17: the log-space update, its limits and its multiplier rule."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, runs
from ..core import Discard, Facet, check, close

B = st.booleans()
extra_s = st.fixed_dictionaries(dict(
    mu_p=gen.num(0.0, 100.0, 5.0, 1.0, 40.0, 0.0), augmented_lagrangian_mu=gen.num(0.0, 20.0, 0.0, 0.0, 2.0),
    lambda_decay=gen.num(0.0, 0.99, 0.9, 0.5, 0.0), dual_update=st.sampled_from(["ema", "augmented"]),
    lagrangian_clip=gen.lognum(0.05, 20.0, 1.0, 0.3, 5.0), lagrangian_percentile=gen.num(30.0, 100.0, 95.0, 60.0, 100.0),
    lagrangian_scale_floor=gen.lognum(1e-10, 1.0, 1e-8, 1e-8, 1e-2),
    normalize_volume_chain=B, volume_chain_percentile=gen.num(30.0, 100.0, 95.0, 70.0),
    volume_chain_gain=gen.num(0.05, 8.0, 1.0, 0.5, 3.0), volume_chain_gain_under=gen.one_of(st.sampled_from([None, None, 0.2, 2.0]), gen.num(0.05, 8.0)),
    filter_lagrangian=B, center_lagrangian=B, center_objective=B, rho_max=gen.num(0.7, 1.0, 1.0, 1.0, 0.9)))
lam_s = st.sampled_from([[-1e7, 1e7], [-1e7, 1e7], [0.0, 0.5], [-0.3, 0.3], [0.2, 1e7]])


def case_s(mode, problem=None, wrap=lambda s: s):
    d = dict(pr=problem if problem is not None else runs.problem_s(), lam=lam_s if mode != "plain" else st.just([0.0, 0.0]),
             cfg=wrap(runs.cfg_s(opt=("logmoc",), iters=(1, 5), extra=extra_s, move_limit=runs.sched_s(0.02, 0.6, ("const", "saw", "step")),
                            eta=runs.sched_s(0.05, 1.5, ("const", "plain", "step")),
                            filt=("spacial", "helmholtz") if mode == "plain" else ("spacial",))))
    if mode != "natural":
        d["inj"] = runs.inject_s
    return st.fixed_dictionaries(d)


def stats(x):
    return np.array([x.min(), x.mean(), x.max()])


def run(c):
    pr, cc = c["pr"], dict(c["cfg"])
    cc["extra"] = dict(cc["extra"], lambda_lower=c["lam"][0], lambda_upper=c["lam"][1])
    plain = c["lam"] == [0.0, 0.0]
    if plain:
        cc["extra"].update(augmented_lagrangian_mu=0.0)
        if cc["filter_type"] == "helmholtz":
            cc["extra"].update(filter_lagrangian=False)
    b, t, des = runs.make_problem(pr, cc["design_dirichlet"])
    o = runs.make_optimizer(cc, t)
    if "inj" in c:
        runs.inject(o, c["inj"])
    cfg = o.cfg
    vol = np.asarray(t.elements_volume, float)[des]
    wv = vol / vol.sum()
    mem = dict(lam=None, scales=[])
    tags, nontriv = set(), [False]

    def last(name):
        d = o.recorder.histories[name].data[-1]
        return np.array(d[:3], float) if isinstance(d, list) else float(d)

    def hook(s):
        n = len(des)
        check(len(s.rho0) == n, "number of designable elements", got=len(s.rho0), want=n)
        check(np.isfinite(s.rho1).all(), "updated density is not finite", iteration=s.iter)
        # volume error and multiplier
        ve = float(s.proj[des] @ wv) - s.vol_frac
        check(abs(last("vol_error") - ve) <= 1e-9, "volume error is not that of the iteration's design", got=last("vol_error"), want=ve)
        pen = cfg.mu_p * ve
        first = mem["lam"] is None
        if first:
            lam = pen
        elif cfg.dual_update == "augmented":
            lam = mem["lam"] + pen
        else:
            lam = cfg.lambda_decay * mem["lam"] + (1 - cfg.lambda_decay) * pen
        lam = min(max(lam, cfg.lambda_lower), cfg.lambda_upper)
        check(abs(last("lambda_v") - lam) <= 1e-9 * max(1.0, abs(lam)), "multiplier does not follow its rule", got=last("lambda_v"), want=lam,
              rule=cfg.dual_update, iteration=s.iter)
        mem["lam"] = lam = last("lambda_v")          # verified; keeps its rounding
        coeff = lam + cfg.augmented_lagrangian_mu * ve
        check(abs(last("constraint_coeff") - coeff) <= 1e-9 * max(1.0, abs(coeff)), "constraint coefficient", got=last("constraint_coeff"), want=coeff)
        coeff = last("constraint_coeff")
        # Lagrangian gradient
        g = s.dC.copy()
        if cfg.center_objective:
            g = g - float(g @ wv)
        atol = 1e-9 * float(np.abs(s.dC).max())
        close(last("-dC"), stats(-g), "recorded sensitivities", rtol=1e-9, atol=atol)
        if coeff != 0.0 or not plain:
            W, z = runs.filter_matrix(o.filter, b.ne)
            full = np.ones(b.ne)
            full[des] = s.rho0
            if "inj" in c:
                full = runs.full_density(o, b.ne)
                if full is None:
                    raise Discard()
            dH = runs.heaviside_d(W @ full + z, s.beta, cfg.beta_eta)
            q = np.zeros(b.ne)
            q[des] = wv
            dV = (W.T @ (dH * q))[des]
            k = 1.0
            if cfg.normalize_volume_chain:
                so = max(np.percentile(np.abs(g), cfg.lagrangian_percentile), cfg.lagrangian_scale_floor)
                sv = max(np.percentile(np.abs(dV), cfg.volume_chain_percentile), cfg.volume_chain_scale_floor)
                gain = cfg.volume_chain_gain
                if cfg.volume_chain_gain_under is not None and ve < 0:
                    gain = cfg.volume_chain_gain_under
                    tags.add("gain under")
                k = gain * so / sv
                tags.add("normalized chain")
            check(abs(last("volume_chain_scale") - k) <= 1e-7 * k, "scale of the volume chain", got=last("volume_chain_scale"), want=k)
            dV = dV * k
            close(last("dV_chain"), stats(np.abs(dV)), "volume chain is not the gradient of the volume", rtol=1e-7)
            g = g + coeff * dV
            atol += 1e-9 * abs(coeff) * float(np.abs(dV).max())
        if cfg.filter_lagrangian:
            W, z = runs.filter_matrix(o.filter, b.ne)
            x = np.zeros(b.ne)
            x[des] = g
            g = (W @ x + z)[des]
            tags.add("filtered")
        if cfg.center_lagrangian:
            g = g - float(g @ wv)
            tags.add("centered")
        pct = float(s.percentile) if s.percentile is not None else cfg.lagrangian_percentile
        mem["scales"].append(max(float(np.percentile(np.abs(g), pct)), cfg.lagrangian_scale_floor))
        rec, want = last("dL"), stats(g)
        i = int(np.argmax(np.abs(want)))
        lo, hi = min(mem["scales"]), max(mem["scales"])
        zero = float(np.abs(want).max()) <= 10 * atol
        if zero:
            sc = mem["scales"][-1]
            tags.add("zero gradient")
        else:
            check(rec[i] != 0, "Lagrangian gradient lost", want=want)
            sc = want[i] / rec[i]
            tol = 1e-7 + 10 * atol / float(np.abs(want).max())
            check(lo * (1 - tol) <= sc <= hi * (1 + tol), "scale of the Lagrangian gradient", got=sc, want=(lo, hi), iteration=s.iter)
            close(rec * sc, want, "Lagrangian gradient", rtol=1e-7, atol=10 * atol, iteration=s.iter)
        # update
        x0 = np.clip(s.rho0, cfg.rho_min, cfg.rho_max)
        step = np.clip(g / sc, -cfg.lagrangian_clip, cfg.lagrangian_clip)
        f = 1 + s.move / x0
        x = np.clip(np.clip(x0 * np.exp(-float(s.eta) * step), x0 / f, x0 * f), cfg.rho_min, cfg.rho_max)
        close(s.rho1, x, "updated density", rtol=1e-6 if not plain else 1e-8, atol=10 * float(s.eta) * atol / sc, iteration=s.iter)
        check((s.rho1 >= cfg.rho_min - 1e-12).all() and (s.rho1 <= cfg.rho_max + 1e-12).all(), "density outside its bounds")
        check((np.abs(s.rho1 - s.rho0) <= s.move + 1e-12).all() or (s.rho0 > cfg.rho_max).any(), "density changed by more than the move limit")
        if not np.any(s.dC) and coeff == 0.0:
            close(s.rho1, s.rho0, "a zero gradient changed densities", rtol=1e-12)
        if np.any(np.abs(g / sc) > cfg.lagrangian_clip):
            tags.add("clipped gradient")
        if np.any((np.abs(x - x0 * f) < 1e-12) | (np.abs(x - x0 / f) < 1e-12)):
            tags.add("move limit active")
        if np.any((x <= cfg.rho_min) | (x >= cfg.rho_max)):
            tags.add("bound active")
        if lam in (cfg.lambda_lower, cfg.lambda_upper) and not plain:
            tags.add("multiplier at a bound")
        if not first:
            tags.add("later multiplier " + cfg.dual_update)
        nontriv[0] |= n > 1 and float(np.ptp(x / x0)) > 1e-6
    o.vf_hook = hook
    runs.run(o)
    check(len(o.vf_steps) == cc["max_iters"], "one update per iteration", got=len(o.vf_steps), want=cc["max_iters"])
    return dict(nontrivial=nontriv[0], tags=[b.kind, pr["kind"], cc["filter_type"]] + sorted(tags))


modes = st.sampled_from(["plain", "injected", "natural"])
RULE = "several designable elements whose densities change by different factors"
FACETS = [
    Facet("objective_only", case_s("plain"), run, RULE, quick=120, thorough=5000, qsec=35, tsec=600, shards=3, tshards=5),
    Facet("injected", case_s("injected"), run, RULE, quick=120, thorough=5000, qsec=35, tsec=600, shards=3, tshards=6),
    Facet("natural", case_s("natural"), run, RULE, quick=80, thorough=3000, qsec=35, tsec=600, shards=2, tshards=5),
    Facet("large", modes.flatmap(lambda i: case_s(i, runs.big_problem_s(), lambda s: runs.cut_s(s, 2))), run, RULE,
          quick=14, thorough=400, qsec=60, tsec=600, shards=2, tshards=5),
    Facet("long", modes.flatmap(lambda i: case_s(i, runs.problem_s(mesh=runs.tiny_mesh), runs.long_s)), run, RULE,
          quick=16, thorough=600, qsec=60, tsec=600, shards=2, tshards=5),
]
ASSUMPTIONS = ["objective_only switches the multiplier off by equal bounds; the other facets use the spatial filter, whose matrix is probed",
               "the running scale of the gradient is only required to lie within the range of scales seen so far"]
