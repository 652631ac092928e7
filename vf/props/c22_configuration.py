"""C22: configurations survive export, import and command-line translation."""
import argparse
import contextlib
import dataclasses
import io
import json
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs
from ..core import Facet, check, close, scratch
from .c19_pieces import mesh_s

from sktopt import tools
from sktopt.core import misc
from sktopt.core import optimizers as copt
from sktopt.core.optimizers import common_density
from sktopt.fea._petsc_compat import PETScOptions, petsc_options_for_solver, normalize_petsc_options
from sktopt.fea.solver_elastic import LinearSolverConfig, normalize_linear_solver_config

B = st.booleans()
ALLK = ("const", "one", "none", "step", "acc", "dec", "saw", "to1", "accto1", "decto1")
K3 = ("one", "to1", "accto1", "decto1")
wide = dict(p=runs.sched_s(-3, 9, ALLK[:2] + ALLK[3:]), vol_frac=runs.sched_s(0, 1, ALLK[:2] + ALLK[3:]), beta=runs.sched_s(0, 50, ALLK[:2] + ALLK[3:]),
            neumann_scale=runs.sched_s(0, 1, K3), filter_radius=runs.sched_s(0, 3, ALLK[:2] + ALLK[3:]), percentile=runs.sched_s(0, 100, ALLK),
            move_limit=runs.sched_s(0, 1, ALLK[:2] + ALLK[3:]), eta=runs.sched_s(0.1, 2, ("plain", "const", "step")))
petsc_s = gen.one_of(
    st.none(), st.just({}),
    st.fixed_dictionaries(dict(obj=B, o=st.fixed_dictionaries({}, optional=dict(
        ksp_type=st.sampled_from(["cg", "preonly", "gmres"]), pc_type=st.sampled_from(["gamg", "lu", "jacobi"]),
        pc_factor_mat_solver_type=st.sampled_from([None, "mumps", "superlu"]), options_prefix=st.sampled_from([None, "a_", "sk"]),
        use_set_from_options=B)))))
f = st.floats(1e-9, 1e9)
flags = dict(interpolation=st.sampled_from(["SIMP", "RAMP"]), record_times=st.integers(1, 500), max_iters=st.integers(1, 1000), beta_eta=f,
             filter_type=st.sampled_from(["spacial", "helmholtz"]), E_min_coeff=f, rho_min=f, rho_max=f, restart=B, restart_from=st.integers(-1, 300),
             export_img=B, export_img_opaque=B, design_dirichlet=B, sensitivity_filter=B,
             solver_option=st.sampled_from(["spsolve", "cg_pyamg", "petsc", "petsc_spdirect"]), scaling=B, check_convergence=B, tol_rho_change=f,
             tol_kkt_residual=f, lambda_lower=f, lambda_upper=f)
oc_only = dict(scaling_rate_min=f, scaling_rate_max=f, sensitivity_scale_floor=f)
lm_only = dict(mu_p=f, augmented_lagrangian_mu=f, lambda_v=f, lambda_decay=f, lagrangian_clip=f, lagrangian_percentile=f, lagrangian_scale_floor=f,
               normalize_volume_chain=B, volume_chain_percentile=f, volume_chain_scale_floor=f, volume_chain_gain=f,
               volume_chain_gain_under=gen.one_of(st.none(), f), dual_update=st.sampled_from(["ema", "augmented"]), filter_lagrangian=B,
               center_lagrangian=B, center_objective=B)
CLS = {"oc": copt.OC_Config, "logmoc": copt.LogMOC_Config, "density": common_density.DensityMethodConfig,
       "density_oc": common_density.DensityMethod_OC_Config}
FIELDS = {k: {x.name for x in dataclasses.fields(c)} for k, c in CLS.items()}
cfg_s = st.fixed_dictionaries(dict(cls=st.sampled_from(["oc", "oc", "logmoc", "logmoc", "density", "density_oc"]),
                                   sched=st.fixed_dictionaries({}, optional=wide), flags=st.fixed_dictionaries({}, optional=dict(flags, **oc_only, **lm_only)),
                                   petsc=petsc_s, legacy=B, again=B))
opts_s = st.fixed_dictionaries(dict(cls=st.sampled_from(["oc", "logmoc", "density", "density_oc"]), sched=st.just({}),
                                    flags=st.fixed_dictionaries(dict(solver_option=st.sampled_from(["petsc_spdirect", "petsc_spdirect", "petsc", "spsolve"]))),
                                    petsc=petsc_s, legacy=B, again=B))
DEF = dict(ksp_type="cg", pc_type="gamg", pc_factor_mat_solver_type=None, options_prefix=None, use_set_from_options=True)


def petsc_arg(p):
    if p is None or p == {}:
        return p
    return PETScOptions(**p["o"]) if p["obj"] else dict(p["o"])


def petsc_want(solver, p):
    """Expected options (None = none, "error" = refused)."""
    o = {} if not p else p["o"]
    if solver == "petsc_spdirect":
        obj = bool(p) and p["obj"]
        k, c = o.get("ksp_type", "preonly"), o.get("pc_type", "lu")
        if obj and k == DEF["ksp_type"]:
            k = "preonly"
        if obj and c == DEF["pc_type"]:
            c = "lu"
        if k != "preonly" or c != "lu":
            return "error"
        return dict(DEF, ksp_type="preonly", pc_type="lu", **{x: o.get(x, DEF[x]) for x in list(DEF)[2:]})
    if solver == "petsc" and p is None:
        return None
    return {x: o.get(x, DEF[x]) for x in DEF}


def kwargs(c):
    k = CLS[c["cls"]]
    kw = {n: runs.sched(s, n) for n, s in c["sched"].items() if n in FIELDS[c["cls"]]}
    kw.update({n: v for n, v in c["flags"].items() if n in FIELDS[c["cls"]]})
    if c["petsc"] is not None or c["again"]:
        kw["petsc_options"] = petsc_arg(c["petsc"])
    return k, kw


def is_sched(v):
    return isinstance(v, tools.SchedulerConfig)


def run_roundtrip(c):
    cls, kw = kwargs(c)
    given = {n: (dataclasses.asdict(v) if is_sched(v) else v) for n, v in kw.items()}
    solver = kw.get("solver_option", "spsolve")
    petsc = c["petsc"] if "petsc_options" in kw else dict(obj=True, o={})
    want = petsc_want(solver, petsc)
    d = scratch("cfg")
    try:
        cfg = cls(dst_path=d, **kw)
    except ValueError:
        check(want == "error", "configuration refused", solver=solver, petsc=petsc)
        return dict(nontrivial=False, tags=["refused"])
    check(want != "error", "contradictory direct solver options accepted", solver=solver, petsc=petsc)
    for n, v in given.items():
        if n == "petsc_options":
            continue
        g = getattr(cfg, n)
        check((dataclasses.asdict(g) if is_sched(g) else g) == v, "configured value", field=n, got=g, want=v)
    po = None if cfg.petsc_options is None else dataclasses.asdict(cfg.petsc_options)
    check(po == want, "solver options of the configuration", got=po, want=want, solver=solver, given=petsc)
    sc = cfg.solver_config
    check(sc.solver == solver and sc.petsc_options == cfg.petsc_options, "solver settings", got=sc, solver=solver)
    cfg.export(d)
    if c["legacy"]:
        with open(os.path.join(d, "cfg.json")) as h:
            j = json.load(h)
        j["record_timing"] = True
        with open(os.path.join(d, "cfg.json"), "w") as h:
            json.dump(j, h)
    back = cls.import_from(d)
    check(type(back) is cls, "kind of the imported configuration", got=type(back))
    for x in dataclasses.fields(cls):
        a, b = getattr(cfg, x.name), getattr(back, x.name)
        check(type(a) is type(b) and a == b, "imported value", field=x.name, got=b, want=a)
    check(back == cfg, "imported configuration differs")
    check(back.solver_config == cfg.solver_config, "solver settings of the imported configuration", got=back.solver_config, want=cfg.solver_config)
    names = [x.name for x in dataclasses.fields(cls) if is_sched(getattr(cfg, x.name))]
    its = min(cfg.max_iters, 12)
    vals = []
    for o in (cfg, back):
        s = tools.Schedulers(d)
        for n in names:
            s.add_object_from_config(getattr(o, n), n)
        s.set_iters_max(cfg.max_iters)
        vals.append([list(s.values_as_list(it, names)) for it in range(1, its + 1)])
    check(vals[0] == vals[1], "schedules of the imported configuration", names=names)
    if c["again"]:
        d2 = scratch("cfg")
        back.export(d2)
        third = cls.import_from(d2)
        check(third == back, "second round trip differs")
    for it in (1, 7):
        check(back.vtu_path(it) == cfg.vtu_path(it) and back.image_path(it, "x") == cfg.image_path(it, "x"), "output paths")
    nd = sum(1 for n in kw if n in c["sched"])
    return dict(nontrivial=nd >= 1 and len(kw) > 2, tags=[c["cls"], "solver " + solver, "schedules" if nd else "default schedules"])


# ---------------------------------------------------------------- defaults
defaults_s = st.fixed_dictionaries(dict(c=cfg_s, extra=st.dictionaries(st.sampled_from(["task_name", "mesh_path", "foo", "eta_step", "pp", "beta_", "solver_config"]),
                                                                       st.integers(0, 3), max_size=4)))


def run_defaults(c):
    cls, kw = kwargs(c["c"])
    try:
        a = cls(**kw)
    except ValueError:
        try:
            cls.from_defaults(**kw, **c["extra"])
            check(False, "from_defaults accepts what the constructor refuses")
        except ValueError:
            return dict(nontrivial=False, tags=["refused"])
    b = cls.from_defaults(**kw, **c["extra"])
    check(type(b) is cls and a == b and a.solver_config == b.solver_config, "from_defaults differs from the constructor", extra=c["extra"])
    x, y = cls(), cls()
    for n in ("p", "vol_frac", "beta", "filter_radius", "neumann_scale"):
        check(getattr(x, n) is not getattr(y, n), "two configurations share a schedule", field=n)
    return dict(nontrivial=bool(kw) and bool(c["extra"]), tags=[c["c"]["cls"]])


# ---------------------------------------------------------------- command line
# option -> (short flag, type)
S, I, FL, BO, ON = "str", "int", "float", "bool", "float or none"
OPT = dict(interpolation=("-I", S), max_iters=("-NI", I), filter_type=("-FT", S), filter_radius_init=("-FRI", FL), filter_radius=("-FR", FL),
           filter_radius_step=("-FRS", I), move_limit_init=("-MLI", FL), move_limit=("-ML", FL), move_limit_step=("-MLR", I), record_times=("-RT", I),
           dst_path=("-DP", S), vol_frac_init=("-VI", FL), vol_frac=("-V", FL), vol_frac_step=("-VFT", ON), p_init=("-PI", FL), p=("-P", FL),
           p_step=("-PRT", ON), beta_init=("-BI", FL), beta=("-B", FL), beta_curvature=("-BC", FL), beta_step=("-BR", ON), percentile_init=("-PTI", ON),
           percentile_step=("-PTR", ON), percentile=("-PT", ON), rho_min=("-RhM", FL), E_min_coeff=("-EM", FL), eta=("-ET", FL), beta_eta=("-BE", FL),
           lambda_lower=(None, FL), lambda_upper=("-BSH", FL), restart=("-RS", BO), restart_from=("-RF", I), task_name=("-T", S), mesh_path=("-MP", S),
           export_img=("-EI", BO), design_dirichlet=("-DD", BO), sensitivity_filter=("-SF", BO), solver_option=("-SO", S))
DFLT = dict(interpolation="SIMP", max_iters=200, filter_type="helmholtz", filter_radius_init=0.01, filter_radius=0.01, filter_radius_step=3,
            move_limit_init=0.8, move_limit=0.2, move_limit_step=5, record_times=20, dst_path="./result/test0", vol_frac_init=0.8, vol_frac=0.4,
            vol_frac_step=None, p_init=1.0, p=3.0, p_step=None, beta_init=0.1, beta=5.0, beta_curvature=5.0, beta_step=None, percentile_init=None,
            percentile_step=None, percentile=None, rho_min=1e-1, E_min_coeff=1e-3, eta=0.3, beta_eta=0.5, lambda_lower=1e-4, lambda_upper=1e+2,
            restart=False, restart_from=-1, task_name="toy1", mesh_path="plate.msh", export_img=True, design_dirichlet=True, sensitivity_filter=True,
            solver_option="spsolve")
NONE = ["none", "None", "NULL", "nan", "NaN"]
num = st.floats(0.001, 999).map(lambda x: round(x, 4))
VAL = {S: st.sampled_from(["SIMP", "RAMP", "abc", "x y", "spsolve", "./r/1", "None"]), I: st.integers(0, 500), FL: num, BO: B,
       ON: gen.one_of(num, st.integers(1, 9).map(float), st.none())}
args_s = st.fixed_dictionaries(dict(
    vals=st.fixed_dictionaries({}, optional={k: VAL[t] for k, (_, t) in OPT.items() if not k.endswith("_step")}),
    steps=st.fixed_dictionaries({k: st.integers(1, 9) for k in ("vol_frac_step", "p_step", "beta_step", "percentile_step", "filter_radius_step", "move_limit_step")}),
    pinit=num, style=st.lists(st.integers(0, 99), min_size=40, max_size=40), order=st.integers(0, 9999),
    more=st.dictionaries(st.sampled_from(["petsc_options", "eta_init", "eta_step", "penalty", "beta_extra", "vol_fraction", "p2", "move_limits", "percentiles",
                                          "filter_radius_x", "mu_p", "lambda_v", "pp_step"]), st.integers(0, 9), max_size=4)))


def token(v, t, k):
    if v is None:
        return NONE[k % len(NONE)]
    if t == BO:
        return [("True", "False"), ("t", "f"), ("true", "false"), ("TRUE", "FALSE"), ("T", "F")][k % 5][0 if v else 1]
    if t == ON and float(v).is_integer() and k % 2:
        return str(int(v))
    return repr(v) if not isinstance(v, str) else v


def run_args(c):
    want = dict(DFLT)
    want.update(c["vals"])
    want.update({k: (float(v) if OPT[k][1] == ON else v) for k, v in c["steps"].items()})
    if want["percentile"] is not None and want["percentile_init"] is None:
        want["percentile_init"] = c["pinit"]
    give = [k for k in want if want[k] != DFLT[k] or k in c["vals"]]
    np.random.RandomState(c["order"]).shuffle(give)
    argv = []
    for i, k in enumerate(give):
        short, t = OPT[k]
        s = c["style"][i % 40]
        flag = short if short and s % 2 else "--" + k
        v = token(want[k], t, s // 2)
        argv += [flag + "=" + v] if flag.startswith("--") and s % 3 == 0 else [flag, v]
    ps = misc.add_common_arguments(argparse.ArgumentParser())
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            args = vars(ps.parse_args(argv))
    except SystemExit:
        check(False, "command line refused", argv=argv, err=err.getvalue()[-200:])
    check(set(args) == set(OPT), "parsed options", got=sorted(set(args) ^ set(OPT)))
    for k in OPT:
        check(args[k] == want[k] and type(args[k]) is type(want[k]), "parsed value", option=k, got=args[k], want=want[k], argv=argv)
    full = dict(args, **c["more"])
    keep = dict(full)
    r = misc.args2OC_Config_dict(full)
    check(full == keep, "the arguments are modified")
    types = dict(filter_radius="Step", move_limit="SawtoothDecay", vol_frac="Step", p="Step", beta="StepAccelerating",
                 percentile="None" if want["percentile"] is None else "Step")
    for k, t in types.items():
        check(k in r and is_sched(r[k]), "schedule missing", name=k)
        s = r[k]
        got = (s.name, s.scheduler_type, s.init_value, s.target_value, s.num_steps, s.curvature)
        exp = (k, t, want[k + "_init"], want[k], want[k + "_step"], want["beta_curvature"] if k == "beta" else None)
        check(got == exp, "translated schedule", name=k, got=got, want=exp)
    sched_keys = set(types) | {k + x for k in types for x in ("_init", "_step")} | {"beta_curvature"}
    rest = {k: v for k, v in keep.items() if k not in sched_keys}
    got = {k: v for k, v in r.items() if k not in types}
    check(got == rest, "translated arguments", lost=sorted(set(rest) - set(got)), extra=sorted(set(got) - set(rest)),
          changed=sorted(k for k in set(got) & set(rest) if got[k] != rest[k]))
    r["petsc_options"] = None
    r["solver_option"] = "spsolve"
    for cls, name in ((copt.OC_Config, "oc"), (copt.LogMOC_Config, "logmoc")):
        cfg = cls.from_defaults(**r)
        for k in FIELDS[name] & set(rest) - {"petsc_options", "solver_option"}:
            check(getattr(cfg, k) == rest[k], "configured argument", option=k, got=getattr(cfg, k), want=rest[k])
        for k in types:
            check(getattr(cfg, k) is r[k], "configured schedule", name=k)
    return dict(nontrivial=len(give) > 8, tags=["percentile" if want["percentile"] is not None else "no percentile", "more" if c["more"] else "plain"])


words_s = st.fixed_dictionaries(dict(w=gen.one_of(st.sampled_from(["true", "false", "T", "f", "yes", "no", "1", "0", "", "tr", "None", "null", "nan", "1e3", "-2.5", "x", "none "]),
                                                 st.text(alphabet="truefalsnTFNO01.", max_size=5))))


def run_words(c):
    w = c["w"]
    for v in (True, False):
        check(misc.str2bool(v) is v, "boolean of a boolean")
    exp = {"true": True, "t": True, "false": False, "f": False}.get(w.lower(), "error")
    try:
        g = misc.str2bool(w)
    except argparse.ArgumentTypeError:
        g = "error"
    check(g is exp or g == exp == "error", "boolean word", word=w, got=g, want=exp)
    if w.lower() in ("none", "null", "nan"):
        exp = None
    else:
        try:
            exp = float(w)
        except ValueError:
            exp = "error"
    try:
        g = misc.float_or_none(w)
    except (ValueError, argparse.ArgumentTypeError):
        g = "error"
    check(g == exp or (g != g and exp != exp), "number word", word=w, got=g, want=exp)
    return dict(nontrivial=exp != "error", tags=[])


# ---------------------------------------------------------------- solver settings
solver_s = st.fixed_dictionaries(dict(solver=st.sampled_from(["auto", "spsolve", "cg_pyamg", "cg_jacobi", "petsc", "petsc_spdirect"]), petsc=petsc_s,
                                      rtol=st.sampled_from([1e-8, 1e-5, 1e-12]), maxiter=st.sampled_from([None, 7, 1000]), fb=B, direct=B))


def run_solver(c):
    p = petsc_arg(c["petsc"])
    a = normalize_linear_solver_config(c["solver"], rtol=c["rtol"], maxiter=c["maxiter"], petsc_options=p, allow_fallback_to_spsolve=c["fb"])
    check((a.solver, a.rtol, a.maxiter, a.petsc_options, a.allow_fallback_to_spsolve) == (c["solver"], c["rtol"], c["maxiter"], p, c["fb"]), "solver settings", got=a)
    check(normalize_linear_solver_config(a, rtol=0.5, maxiter=3) is a or normalize_linear_solver_config(a, rtol=0.5, maxiter=3) == a, "settings are overridden")
    n = normalize_petsc_options(p, direct=c["direct"])
    o = {} if not c["petsc"] else c["petsc"]["o"]
    if c["petsc"] and c["petsc"]["obj"]:
        want = dict(DEF, **o)
    else:
        want = dict(DEF, **(dict(ksp_type="preonly", pc_type="lu") if c["direct"] else {}))
        want.update(o)
    check(dataclasses.asdict(n) == want, "normalised solver options", got=n, want=want)
    check(normalize_petsc_options(n) == n, "normalising twice")
    try:
        s = petsc_options_for_solver(c["solver"], p)
    except ValueError:
        s = "error"
    if c["solver"] == "petsc_spdirect":
        q = dict(DEF, ksp_type="preonly", pc_type="lu")
        if c["petsc"]:
            full = dict(DEF, **o) if c["petsc"]["obj"] else dict(q, **o)
            q.update({k: v for k, v in full.items() if v is not None})
        want = "error" if (q["ksp_type"], q["pc_type"]) != ("preonly", "lu") else q
    else:
        want = None if p is None else (dict(DEF, **o))
    check((s if s in (None, "error") else dataclasses.asdict(s)) == want, "options for the solver", got=s, want=want, solver=c["solver"], given=c["petsc"])
    return dict(nontrivial=bool(c["petsc"]), tags=[c["solver"]])


# ---------------------------------------------------------------- a run with the imported configuration
run_s = st.fixed_dictionaries(dict(pr=runs.problem_s(mesh=mesh_s), cfg=runs.cfg_s(iters=(2, 4))))


def run_run(c):
    pr, cc = c["pr"], c["cfg"]
    t = runs.make_problem(pr, cc["design_dirichlet"])[1]
    a = runs.make_optimizer(cc, t, scratch("run"))
    runs.run(a)
    back = type(a.cfg).import_from(a.cfg.dst_path)
    back.dst_path = scratch("run")
    t = runs.make_problem(pr, cc["design_dirichlet"])[1]
    b = runs.observed(runs.OPT[cc["opt"]])(back, t)
    runs.quiet_plots(b)
    b.parameterize()
    runs.run(b)
    check([s.iter for s in b.vf_steps] == [s.iter for s in a.vf_steps], "iterations with the imported configuration")
    for s, r in zip(a.vf_steps, b.vf_steps):
        close(r.rho1, s.rho1, "run with the imported configuration differs", rtol=1e-9, iteration=s.iter)
    return dict(nontrivial=float(np.abs(a.vf_steps[-1].rho1 - a.vf_steps[0].rho0).max()) > 1e-6, tags=[pr["kind"], cc["opt"]])


FACETS = [
    Facet("round-trip", cfg_s, run_roundtrip, "several fields and at least one schedule set", quick=400, thorough=15000, qsec=30, tsec=300, tshards=4),
    Facet("options", opts_s, lambda c: dict(run_roundtrip(c), nontrivial=bool(c["petsc"])), "solver options given", quick=200, thorough=4000, qsec=15, tsec=60),
    Facet("defaults", defaults_s, run_defaults, "fields and unknown arguments given", quick=150, thorough=5000, qsec=20, tsec=120),
    Facet("arguments", args_s, run_args, "more than eight options given", quick=250, thorough=10000, qsec=30, tsec=200, tshards=4),
    Facet("words", words_s, run_words, "a word that has a value", quick=150, thorough=3000, qsec=10, tsec=60),
    Facet("solver", solver_s, run_solver, "solver options given", quick=200, thorough=5000, qsec=10, tsec=60),
    Facet("run", run_s, run_run, "the design changes", quick=16, thorough=800, qsec=30, tsec=300, shards=2, tshards=4),
]
ASSUMPTIONS = ["values are Python numbers (what JSON can hold)", "command lines give a number of steps for every stepped schedule (without one the package refuses)"]
