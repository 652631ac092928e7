"""Running the optimizers on generated problems with generated configurations, and observing every update.

The observation point is ``rho_update``, the documented extension point of the optimizer classes:
a subclass copies what it is given and what it returns and otherwise delegates.
"""
import inspect

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Discard, scratch

import sktopt
from sktopt import core as score
from sktopt.core import optimizers as copt
from sktopt.tools import SchedulerConfig as SC


# ---------------------------------------------------------------- schedules
def sched(spec, name):
    k, a = spec[0], spec[1:]
    if k == "plain":                        # a bare number where the configuration allows one
        return a[0]
    if k == "const":
        return SC.constant(name=name, target_value=a[0])
    if k == "one":
        return SC.constant_one(name=name)
    if k == "none":
        return SC.none()
    if k == "step":
        return SC.step(name=name, init_value=a[0], target_value=a[1], num_steps=a[2])
    if k == "acc":
        return SC.step_accelerating(name=name, init_value=a[0], target_value=a[1], num_steps=a[2], curvature=a[3])
    if k == "dec":
        return SC.step_decelerating(name=name, init_value=a[0], target_value=a[1], num_steps=a[2], curvature=a[3])
    if k == "saw":
        return SC.sawtooth_decay(name, a[0], a[1], num_steps=a[2])
    if k == "to1":
        return SC.step_to_one(name=name, num_steps=a[0])
    if k == "accto1":
        return SC.step_accelerating_to_one(name=name, num_steps=a[0], curvature=a[1])
    if k == "decto1":
        return SC.step_decelerating_to_one(name=name, num_steps=a[0], curvature=a[1])
    raise ValueError(spec)


_T = {"const": "Constant", "one": "ConstantOne", "none": "None", "step": "Step", "acc": "StepAccelerating",
      "dec": "StepDecelerating", "saw": "SawtoothDecay", "to1": "StepToOne", "accto1": "StepAcceleratingToOne",
      "decto1": "StepDeceleratingToOne", "plain": "Constant"}


def sched_values(spec, it, total):
    """Admissible values of a schedule at an iteration (own formula, see C01)."""
    from .props.c01_schedules import expected
    k, a = spec[0], list(spec[1:])
    d = dict(type=_T[k], init=0.0, target=0.0, n=1, total=total, curv=1.0)
    if k in ("const", "plain"):
        d["target"] = a[0]
    elif k in ("step", "acc", "dec", "saw"):
        d.update(init=a[0], target=a[1], n=a[2])
        if len(a) > 3:
            d["curv"] = a[3]
    elif k.endswith("to1"):
        d["n"] = a[0]
        if len(a) > 1:
            d["curv"] = a[1]
    return expected(d, it)


def sched_s(lo, hi, kinds=("const", "const", "step", "acc", "dec"), rnd=3):
    v = st.floats(lo, hi, allow_nan=False).map(lambda x: round(x, rnd))
    n = st.integers(1, 4)
    cv = gen.lognum(0.3, 6.0, 0.5, 1.0, 2.0, 3.0)
    m = {"plain": st.tuples(st.just("plain"), v), "const": st.tuples(st.just("const"), v), "step": st.tuples(st.just("step"), v, v, n),
         "acc": st.tuples(st.just("acc"), v, v, n, cv), "dec": st.tuples(st.just("dec"), v, v, n, cv),
         "saw": st.tuples(st.just("saw"), v, v, n), "none": st.just(("none",)), "one": st.just(("one",)),
         "to1": st.tuples(st.just("to1"), n), "accto1": st.tuples(st.just("accto1"), n, cv),
         "decto1": st.tuples(st.just("decto1"), n, cv)}
    return st.sampled_from(kinds).flatmap(lambda k: m[k]).map(list)


# ---------------------------------------------------------------- configurations
def cfg_s(opt=("oc", "logmoc"), filt=("spacial", "helmholtz"), iters=(1, 6), **fix):
    d = dict(
        opt=st.sampled_from(opt),
        filter_type=st.sampled_from(filt),
        max_iters=st.integers(*iters),
        record_times=st.integers(1, 6),
        interpolation=st.sampled_from(["SIMP", "RAMP"]),
        p=sched_s(1.0, 4.0), vol_frac=sched_s(0.2, 0.9), beta=sched_s(0.1, 8.0),
        beta_eta=gen.num(0.1, 0.9, 0.5, 0.3, 0.7),
        move_limit=sched_s(0.02, 0.5, ("const", "saw", "step")),
        eta=sched_s(0.2, 1.0, ("const", "plain", "step")),
        percentile=gen.one_of(st.just(["none"]), sched_s(50.0, 100.0, ("const", "step"), 1),
                             sched_s(50, 100, ("const", "step"), 0).map(lambda s: [s[0]] + [int(x) for x in s[1:]])),
        filter_radius=sched_s(0.15, 1.5, ("const", "const", "step"), 2),
        neumann_scale=sched_s(0, 1, ("one", "one", "to1", "accto1", "decto1")),
        rho_min=gen.lognum(2e-4, 0.2, 1e-2, 1e-3, 0.1),
        E_min_coeff=gen.lognum(1e-6, 0.1, 1e-3, 1e-2, 1e-5),
        design_dirichlet=st.booleans(),
        extra=st.fixed_dictionaries({}))
    d.update(fix)
    return st.fixed_dictionaries(d)


def long_s(cfg, iters=(11, 60)):
    """The same configurations for long runs: more iterations, schedules with more steps."""
    def stretch(c, n, f):
        c = dict(c, max_iters=n, record_times=min(c["record_times"] * (1 + f % 4), n))
        for k in SCHEDS:
            v = list(c[k])
            i = 3 if v[0] in ("step", "acc", "dec", "saw") else 1 if v[0] in ("to1", "accto1", "decto1") else None
            if i is not None:
                v[i] = max(1, v[i] * f)
            c[k] = v
        return c
    return st.builds(stretch, cfg, gen.one_of(st.integers(*iters), st.integers(iters[0], min(25, iters[1]))), st.sampled_from([1, 3, 4, 7, 11]))


def cut_s(cfg, n):
    return cfg.map(lambda c: dict(c, max_iters=min(c["max_iters"], n)))


SCHEDS = ("p", "vol_frac", "beta", "move_limit", "eta", "percentile", "filter_radius", "neumann_scale")
PLAIN = ("filter_type", "max_iters", "record_times", "interpolation", "beta_eta", "rho_min", "E_min_coeff", "design_dirichlet")


def make_cfg(c, dst, **over):
    kw = {k: sched(c[k], k) for k in SCHEDS}
    kw.update({k: c[k] for k in PLAIN})
    kw.update(c.get("extra", {}))
    kw["dst_path"] = dst
    kw.update(over)
    cls = copt.OC_Config if c["opt"] == "oc" else copt.LogMOC_Config
    return cls(**kw)


OPT = {"oc": score.OC_Optimizer, "logmoc": score.LogMOC_Optimizer}


class Step:
    """One observed update."""


UPDATE_ARGS = ("iter_num", "rho_design_eles", "rho_projected", "dC_drho_design_eles", "u_dofs", "energy", "scaling_rate", "move_limit", "eta", "beta",
               "tmp_lower", "tmp_upper", "percentile", "elements_volume_design", "elements_volume_design_sum", "vol_frac")


def observed(base):
    names = [p for p in inspect.signature(base.rho_update).parameters if p != "self"]
    alias = dict(zip(names, UPDATE_ARGS)) if len(names) == len(UPDATE_ARGS) else {}    # parameters may be renamed, their order is known

    class Observed(base):
        vf_steps = None
        vf_hook = None
        vf_pre = None

        def rho_update(self, *a, **k):
            d = dict(zip(names, a))
            d.update(k)
            for own, name in alias.items():
                if own in d:
                    d.setdefault(name, d[own])
            if self.vf_pre is not None:
                self.vf_pre(int(d["iter_num"]), d)       # may replace rho_design_eles / the sensitivity in place
            s = Step()
            s.iter = int(d["iter_num"])
            s.rho0 = np.array(d["rho_design_eles"], float)
            s.proj = np.array(d["rho_projected"], float)
            s.dC = np.array(d["dC_drho_design_eles"], float)
            s.u = np.array(d["u_dofs"], float)
            s.energy = np.array(next(v for k_, v in d.items() if "energy" in k_), float)
            s.move, s.eta, s.beta = d["move_limit"], d["eta"], d["beta"]
            s.percentile, s.vol_frac = d["percentile"], d["vol_frac"]
            r = super().rho_update(*a, **k)
            s.rho1 = np.array(d["rho_design_eles"], float)
            s.scaling = np.array(d["scaling_rate"], float)
            s.kkt = self.kkt_residual
            if self.vf_steps is None:
                self.vf_steps = []
            self.vf_steps.append(s)
            if self.vf_hook is not None:
                self.vf_hook(s)
            return r
    Observed.__name__ = base.__name__
    return Observed


def quiet_plots(o):
    """Replaces the picture output (not part of any property) by nothing."""
    o.recorder.export_progress = lambda *a, **k: None
    o.timer.save_plot = lambda *a, **k: None
    o.schedulers.export = lambda *a, **k: None


# ---------------------------------------------------------------- injected updates
inject_s = st.fixed_dictionaries(dict(
    seed=st.integers(0, 200), sign=st.sampled_from(["neg", "neg", "mixed", "some", "some", "pos", "zero"]),
    span=st.sampled_from([0.0, 1.0, 3.0, 8.0]), mag=st.sampled_from([1.0, 1e-6, 1e5]), rho=st.sampled_from(["keep", "rand", "ends"])))


def injected(spec, n, it, rho_min, rho_max):
    """(sensitivity, densities or None) of an injected update."""
    r = np.random.RandomState((spec["seed"] * 1009 + it) % (2 ** 31))
    g = spec["mag"] * 10.0 ** (-spec["span"] * r.rand(n))
    if spec["sign"] == "neg":
        g = -g
    elif spec["sign"] == "mixed":
        g = g * np.where(r.rand(n) < 0.4, 1.0, -1.0)
    elif spec["sign"] == "some":                 # elements that do not matter at all
        g = np.where(r.rand(n) < 0.3, 0.0, -g)
    elif spec["sign"] == "zero":
        g = g * 0.0
    x = None
    if spec["rho"] == "rand":
        x = rho_min + (rho_max - rho_min) * r.rand(n)
    elif spec["rho"] == "ends":
        x = np.where(r.rand(n) < 0.5, rho_min, rho_max) + np.where(r.rand(n) < 0.3, 0.3 * (rho_max - rho_min), 0.0) * \
            np.where(r.rand(n) < 0.5, 1, -1)
        x = np.clip(x, rho_min, rho_max)
    return g, x


def inject(o, spec):
    cfg = o.cfg

    def pre(it, d):
        g, x = injected(spec, len(d["rho_design_eles"]), it, cfg.rho_min, cfg.rho_max)
        d["dC_drho_design_eles"][:] = g
        if x is not None:
            d["rho_design_eles"][:] = x
    o.vf_pre = pre


def make_optimizer(c, tsk, dst=None, plots=False, observe=True, **over):
    dst = dst or scratch("run")
    cfg = make_cfg(c, dst, **over)
    cls = observed(OPT[c["opt"]]) if observe else OPT[c["opt"]]
    o = cls(cfg, tsk)
    if not plots:
        quiet_plots(o)
    o.parameterize()
    return o


def full_density(o, n):
    """The optimizer's own copy of all densities (None when it keeps none that can be told apart)."""
    found = [np.array(v.rho, float) for v in vars(o).values()
             if isinstance(getattr(v, "rho", None), np.ndarray) and v.rho.shape == (n,)]
    return found[0] if len(found) == 1 else None


class NoHisto:
    """Skips the final density histogram picture."""

    def __enter__(self):
        from sktopt.core import visualization as v
        self.v, self.f = v, getattr(v, "rho_histo_plot", None)
        if self.f is not None:
            v.rho_histo_plot = lambda *a, **k: None

    def __exit__(self, *a):
        if self.f is not None:
            self.v.rho_histo_plot = self.f


def run(o, steps=None):
    with NoHisto(), gen.hush():
        if steps is None:
            o.optimize()
        else:
            o.optimize_steps(steps)
    return o


def history(o, name):
    """Recorded values of one history as a list (scalars) or list of lists."""
    return [list(map(float, v)) if np.ndim(v) else float(v) for v in o.recorder.histories[name].data]


# ---------------------------------------------------------------- problems for runs
def problem_s(kind=("elastic", "heat"), mesh=None, many=False, **kw):
    if many:
        mesh, kw = gen.many_mesh_s(), dict(gen.MANY_HEAT, **kw)
    kw.setdefault("modes", ("half", "half2", "one", "some"))
    mesh = mesh if mesh is not None else gen.one_of(gen.mesh_s(kinds=("hex",), minn=3, maxn=4, maxel=36), gen.mesh_s(kinds=("hex",), minn=2, maxn=5, maxel=36),
                                                   gen.mesh_s(kinds=("tet",), minn=1, maxn=3, maxel=48))
    out = []
    if "elastic" in kind:
        out.append(st.fixed_dictionaries(dict(kind=st.just("elastic"), el=gen.elastic_s(mesh=mesh, **(gen.MANY if many else dict(modes=kw["modes"]))))))
    if "heat" in kind:
        out.append(st.fixed_dictionaries(dict(kind=st.just("heat"), el=gen.heat_s(
            mesh=mesh, common_robin=True, **kw))))

    def fit(pr):
        if pr["kind"] == "heat" and pr["el"]["robin"] is None and pr["el"]["objective"] == "heat_exchange":
            pr = dict(pr, el=dict(pr["el"], objective="compliance"))
        return pr
    return gen.one_of(*out).map(fit)


tiny_mesh = gen.one_of(gen.mesh_s(kinds=("hex",), minn=2, maxn=3, maxel=12), gen.mesh_s(kinds=("tet",), minn=1, maxn=2, maxel=12))


def big_problem_s(counts=(300, 650, 1100), **kw):
    return problem_s(mesh=gen.big_mesh_s(counts=counts, maps=("none", "shear", "jitter")), **kw)


def make_problem(pr, design_dirichlet=True):
    """(Built, task, design elements of the run). Discards problems without designable elements."""
    el = pr["el"]
    b = gen.build_mesh(el["mesh"])
    if pr["kind"] == "elastic":
        m = gen.elastic_model(b, el)
    else:
        m = gen.heat_model(b, el)
        if el["objective"] == "heat_exchange" and el["robin"] is None:
            raise Discard()
    if len(m["design"]) == 0:
        raise Discard()
    des = m["design"] if design_dirichlet else np.setdiff1d(m["design"], m["supported"])
    if len(des) == 0:
        raise Discard()
    t = gen.make_elastic(b, el) if pr["kind"] == "elastic" else gen.make_heat(b, el)
    return b, t, des


def loads_designable(pr, b, t, u_free_tol=1e-6):
    """True when some load does work (elastic): part of it acts on free degrees of freedom."""
    free = np.setdiff1d(np.arange(t.basis.N), t.dirichlet_dofs)
    F = t.neumann_linear if isinstance(t.neumann_linear, list) else [t.neumann_linear]
    return any(float(np.abs(f[free]).sum()) > u_free_tol * float(np.abs(f).sum()) for f in F)


def heaviside(x, beta, eta):
    t = np.tanh
    return (t(beta * eta) + t(beta * (x - eta))) / (t(beta * eta) + t(beta * (1 - eta)))


def heaviside_d(x, beta, eta):
    t = np.tanh
    return beta * (1 - t(beta * (x - eta)) ** 2) / (t(beta * eta) + t(beta * (1 - eta)))


def filtered(o, full):
    """Filtered densities as the run uses them (a coarse mesh lets the Helmholtz solution leave the unit interval)."""
    return np.clip(np.asarray(o.filter.forward(full), float), 0.0, 1.0)


def filter_matrix(f, n, cols=None):
    """The filter as a matrix, by probing it."""
    z = np.array(f.forward(np.zeros(n)), float)
    if n > 150 and cols is None:
        return gaussian_matrix(f, n), z
    cols = np.arange(n) if cols is None else cols
    M = np.zeros((n, len(cols)))
    for k, e in enumerate(cols):
        x = np.zeros(n)
        x[e] = 1.0
        M[:, k] = np.asarray(f.forward(x), float) - z
    return M, z


def gaussian_matrix(f, n):
    """The spatial filter of a large mesh by its formula (C04), confirmed on three fields instead of probed column by column."""
    c = np.asarray(f.mesh.p)[:, np.asarray(f.mesh.t)].mean(axis=1)
    m = np.ones(n, bool) if f.design_mask is None else np.asarray(f.design_mask, bool)
    d = np.sqrt(((c[:, m, None] - c[:, None, m]) ** 2).sum(0))
    w = np.where(d <= f.radius, np.exp(-0.5 * (3 * d / f.radius) ** 2), 0.0)
    W = np.eye(n)
    W[np.ix_(m, m)] = w / w.sum(axis=1, keepdims=True)
    for k in range(3):
        x = np.random.RandomState(k).rand(n)
        if np.abs(np.asarray(f.forward(x), float) - W @ x).max() > 1e-9:
            raise Discard()
    return W
