"""C01: schedules against the documented curves, evaluated with exact integer step arithmetic."""
import math
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..core import Facet, check

from sktopt.tools import SchedulerConfig
from sktopt.tools import scheduler as sch
from sktopt.tools.scheduler import (
    Scheduler, Schedulers, SchedulerStep, SchedulerStepAccelerating, SchedulerStepDecelerating,
    SchedulerStepToOne, SchedulerStepAcceleratingToOne, SchedulerStepDeceleratingToOne,
    SchedulerSawtoothDecay)

TYPES = ["Constant", "ConstantOne", "Step", "StepAccelerating", "StepDecelerating", "SawtoothDecay",
         "StepToOne", "StepAcceleratingToOne", "StepDeceleratingToOne", "None"]
CLASSES = {"Step": SchedulerStep, "StepAccelerating": SchedulerStepAccelerating,
           "StepDecelerating": SchedulerStepDecelerating, "StepToOne": SchedulerStepToOne,
           "StepAcceleratingToOne": SchedulerStepAcceleratingToOne,
           "StepDeceleratingToOne": SchedulerStepDeceleratingToOne, "SawtoothDecay": SchedulerSawtoothDecay}

val = gen.one_of(st.sampled_from([0.0, 0.05, 0.2, 0.4, 1.0, 2.0, 3.0, 8.0, 64.0]),
                st.floats(0.0, 100.0, allow_nan=False).map(lambda v: round(v, 6)))
sched = st.fixed_dictionaries(dict(
    type=st.sampled_from(TYPES), init=val, target=val, n=st.integers(1, 25),
    total=st.integers(1, 300), curv=st.sampled_from([0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 7.0])))


def cfg_of(c, name=None, via="factory"):
    """Builds the configuration through its factory, or through the validating constructor."""
    t, kw = c["type"], {}
    if via == "defaults":
        kw = dict(name=name, scheduler_type=t)
        if t == "Constant":
            kw.update(target_value=c["target"])
        elif t.startswith("Step") or t == "SawtoothDecay":
            kw.update(num_steps=c["n"], iters_max=c["total"])
            if not t.endswith("ToOne"):
                kw.update(init_value=c["init"], target_value=c["target"])
            if "celerating" in t:
                kw.update(curvature=c["curv"])
        return SchedulerConfig.from_defaults(**kw)
    C = SchedulerConfig
    if t == "Constant":
        return C.constant(name=name, target_value=c["target"])
    if t == "ConstantOne":
        return C.constant_one(name=name)
    if t == "None":
        r = C.none()
        r.name = name
        return r
    kw = dict(name=name, num_steps=c["n"], iters_max=c["total"])
    if not t.endswith("ToOne"):
        kw.update(init_value=c["init"], target_value=c["target"])
    if "celerating" in t:
        kw.update(curvature=c["curv"])
    f = {"Step": C.step, "StepAccelerating": C.step_accelerating, "StepDecelerating": C.step_decelerating,
         "StepToOne": C.step_to_one, "StepAcceleratingToOne": C.step_accelerating_to_one,
         "StepDeceleratingToOne": C.step_decelerating_to_one, "SawtoothDecay": C.sawtooth_decay}[t]
    return f(**kw)


def expected(c, it):
    """Set of admissible values at iteration it (more than one only where it sits exactly on a
    non-representable plateau boundary)."""
    t, n, T = c["type"], c["n"], c["total"]
    a, b = c["init"], c["target"]
    if t == "None":
        return [None]
    if t == "Constant":
        return [b]
    if t == "ConstantOne":
        return [1.0]
    if t.endswith("ToOne"):
        a, b = 1.0 / n, 1.0
    if it >= T:
        return [b]
    if t == "SawtoothDecay":
        pos = Fraction((it - 1) * n, T)              # position in cycles
        k = pos.numerator // pos.denominator
        al = [float(pos - k)]
        if pos == k and T % n:                       # boundary only up to rounding of the cycle length
            al.append(1.0)
        return [(1 - x) * a + x * b for x in al]
    if n == 1:
        return [b]
    pos = Fraction(it * n, T)
    k = min(pos.numerator // pos.denominator, n - 1)
    ks = [k]
    if pos.denominator == 1 and T % n and k > 0:
        ks.append(k - 1)
    out = []
    for k in ks:
        al = k / (n - 1)
        if "Accelerating" in t:
            al = al ** c["curv"]
        elif "Decelerating" in t:
            al = 1 - (1 - al) ** c["curv"]
        out.append((1 - al) * a + al * b)
    return out


def same(got, want, scale):
    if got is None or want is None:
        return got is None and want is None
    return abs(float(got) - want) <= 1e-9 * max(1.0, scale)


def run_curve(case):
    c = case["s"]
    cfg = cfg_of(c, "p", case["via"])
    if case["via"] == "class" and c["type"] in CLASSES:
        kw = dict(name="p", num_steps=c["n"], iters_max=c["total"])
        if not c["type"].endswith("ToOne"):
            kw.update(init_value=c["init"], target_value=c["target"])
        if "celerating" in c["type"]:
            kw.update(curvature=c["curv"])
        s = CLASSES[c["type"]](**kw)
    else:
        s = Scheduler.from_config(cfg)
    T, n, t = c["total"], c["n"], c["type"]
    vals = [s.value(it) for it in range(1, T + 3)]
    scale = max(abs(c["init"]), abs(c["target"]), 1.0)
    for it, v in enumerate(vals, 1):
        want = expected(c, it)
        check(any(same(v, w, scale) for w in want), "scheduled value differs from the documented curve",
              it=it, got=v, want=want)
    if t == "None":
        return dict(nontrivial=False, tags=[t])
    a, b = (1.0 / n, 1.0) if t.endswith("ToOne") else (1.0, 1.0) if t == "ConstantOne" else \
        (c["target"],) * 2 if t == "Constant" else (c["init"], c["target"])
    lo, hi = min(a, b), max(a, b)
    eps = 1e-9 * scale
    check(all(lo - eps <= v <= hi + eps for v in vals), "value leaves [start, target]", vals=vals)
    check(same(vals[T - 1], b, scale), "target not reached at the last iteration", got=vals[T - 1], want=b)
    if t.startswith("Step"):
        sg = 1 if b >= a else -1
        check(all(sg * (y - x) >= -eps for x, y in zip(vals, vals[1:])), "step schedule is not monotone")
        if T % n == 0 and T > n and abs(a - b) > 1e-6 and n > 1 and c["curv"] == 1.0:
            lev = []
            for v in vals[:T]:
                if not lev or abs(v - lev[-1][0]) > eps:
                    lev.append([v, 0])
                lev[-1][1] += 1
            check(len(lev) == n, "number of plateaus", got=len(lev), want=n)
            check(all(abs(k - T // n) <= 1 for _, k in lev), "plateaus not equally long", got=lev)
    return dict(nontrivial=(T > 2 and n > 1 and abs(a - b) > 1e-6),
                tags=[t, "falling" if b < a else "rising", "indivisible" if T % n else "divisible", case["via"]])


NAMES = ["p", "vol_frac", "beta", "move_limit", "eta", "filter_radius", "percentile", "lambda_v", "beta_eta", "eta_2"]


def run_collection(case):
    total = case["total"]
    ss = Schedulers("unused")
    specs = {}
    shared = None
    for i, nm in enumerate(case["names"]):
        c = dict(case["specs"][i % len(case["specs"])], total=total)
        if case["share"] and i == 1 and shared is not None:
            cfg = shared                                      # the same configuration object for two parameters
            c = dict(case["specs"][0], total=total)
        else:
            cfg = cfg_of(c, "other")
            if i == 0:
                shared = cfg
        if not case["set_max"]:
            pass
        elif cfg.iters_max is not None:
            cfg.iters_max = None                              # horizon supplied later by the run
        ss.add_object_from_config(cfg, nm)
        specs[nm] = c
    if case["set_max"]:
        ss.set_iters_max(total)
    order = case["order"]
    order = [n for n in order if n in specs]
    for it in sorted({1, max(1, total // 2), total, *[max(1, x % (total + 1)) for x in case["its"]]}):
        d = ss.values_as_dict(it)
        check(sorted(d) == sorted(specs), "collection does not hand out exactly its own parameters", got=sorted(d))
        lst = ss.values_as_list(it, order, export_log=False)
        lst2 = ss.values_as_list(it, order, export_log=True)
        check(len(lst) == len(order) and len(lst2) == len(order), "wrong number of values")
        for nm, v, v2 in zip(order, lst, lst2):
            w = expected(specs[nm], it)
            scale = max(abs(specs[nm]["init"]), abs(specs[nm]["target"]), 1.0)
            for got in (v, v2, d[nm], ss.value_on_a_scheduler(nm, it)):
                check(any(same(got, x, scale) for x in w), "collection returned another value for a parameter",
                      name=nm, it=it, got=got, want=w)
    return dict(nontrivial=len(order) > 1, tags=["shared" if case["share"] else "own",
                                                  "late-horizon" if case["set_max"] else "own-horizon"])


REQ = {"Constant": ["target_value"], "Step": ["init_value", "target_value", "num_steps"],
       "StepAccelerating": ["init_value", "target_value", "num_steps", "curvature"],
       "StepDecelerating": ["init_value", "target_value", "num_steps", "curvature"],
       "SawtoothDecay": ["init_value", "target_value", "num_steps"],
       "StepToOne": ["num_steps"], "StepAcceleratingToOne": ["num_steps", "curvature"],
       "StepDeceleratingToOne": ["num_steps", "curvature"]}


def run_invalid(case):
    t = case["type"]
    full = dict(init_value=case["init"], target_value=case["target"], num_steps=case["n"], curvature=2.0)
    if t.endswith("ToOne"):
        full.pop("init_value")
        full["target_value"] = 1.0
    kind, kw = case["kind"], dict(full)
    if kind == "missing":
        req = REQ.get(t)
        if not req:
            kind, kw, t = "type", dict(full), t + "X"
        else:
            kw[req[case["which"] % len(req)]] = None
    elif kind == "steps":
        t = t if t.endswith("ToOne") else "StepToOne"
        kw = dict(target_value=1.0, num_steps=-case["n"] * (case["which"] % 2), curvature=2.0)
    elif kind == "target":
        t = t if t.endswith("ToOne") else "StepAcceleratingToOne"
        kw = dict(target_value=case["target"] + 1.5, num_steps=case["n"], curvature=2.0)
    else:
        t = case["bad"]
    try:
        SchedulerConfig.from_defaults(scheduler_type=t, **kw)
    except ValueError:
        return dict(nontrivial=True, tags=[kind])
    check(False, "an invalid schedule configuration was accepted", type=t, kw=kw)


def run_function(c):
    """The schedule functions themselves, also at and beyond the end of the horizon."""
    T, n, a, b = c["total"], c["n"], c["init"], c["target"]
    scale = max(abs(a), abs(b), 1.0)
    eps = 1e-9 * scale
    lo, hi = min(a, b), max(a, b)
    if c["fn"] in ("Step", "StepAccelerating", "StepDecelerating", "Constant"):
        f = {"Step": sch.schedule_step, "StepAccelerating": sch.schedule_step_accelerating,
             "StepDecelerating": sch.schedule_step_decelerating, "Constant": sch.schedule_constant}[c["fn"]]
        for g in (sch.schedule_sawtooth_decay, f) if c["over"] % 5 == 0 else ():
            if g is not sch.schedule_constant:
                try:
                    g(it=1, total=-c["over"], initial_value=a, target_value=b, num_steps=n, curvature=c["curv"])
                except ValueError:
                    pass
                else:
                    check(False, "a schedule over no iterations has a value", fn=g.__name__)
        d = dict(type=c["fn"], init=a, target=b, n=n, total=T, curv=c["curv"])
        for it in sorted({1, T, T + 1, T + c["over"], 3 * T, *[max(1, x % T) for x in c["its"]]}):
            kw = dict(it=it, total=T, initial_value=a, target_value=b, num_steps=n, curvature=c["curv"])
            v, want = f(**kw), expected(d, it)
            check(any(same(v, w, scale) for w in want), "schedule function differs from the documented curve", fn=c["fn"], it=it, got=v, want=want)
    else:
        f = sch.schedule_exp_slowdown if c["fn"] == "slow" else sch.schedule_exp_accelerate
        r = c["rate"]
        v = [float(f(it, T, a, b, r)) for it in range(T + 1)]
        check(all(lo - eps <= x <= hi + eps for x in v), "value leaves [start, target]", got=v)
        check(same(v[-1], b, scale), "target not reached at the last iteration", got=v[-1], want=b)
        check(abs(v[0] - a) <= abs(a - b) * math.exp(-r) + eps, "start value", got=v[0], want=a)
        sg = 1 if b >= a else -1
        d = [sg * (y - x) for x, y in zip(v, v[1:])]
        check(all(x >= -eps for x in d), "exponential schedule is not monotone", got=v)
        ch = [y - x for x, y in zip(d, d[1:])]
        check(all((x <= eps) if c["fn"] == "slow" else (x >= -eps) for x in ch), "exponential schedule does not " +
              ("slow down" if c["fn"] == "slow" else "accelerate"), got=v)
        # the change shrinks (grows) by exp(-rate/total) from one iteration to the next
        q = math.exp((-1 if c["fn"] == "slow" else 1) * r / T)
        check(all(abs(y - q * x) <= eps for x, y in zip(d, d[1:])), "rate of the exponential schedule", got=v, want=q)
    return dict(nontrivial=abs(a - b) > 1e-6 and T > 2, tags=[c["fn"]])


FACETS = [
    Facet("functions", st.fixed_dictionaries(dict(fn=st.sampled_from(["Step", "StepAccelerating", "StepDecelerating", "Constant", "slow", "fast"]),
          init=val, target=val, n=st.integers(1, 25), total=st.integers(1, 120), curv=st.sampled_from([0.5, 1.0, 2.0, 7.0]),
          rate=st.sampled_from([0.5, 3.0, 10.0]), over=st.integers(0, 50), its=st.lists(st.integers(1, 200), max_size=4))),
          run_function, "more than two iterations, start != target", quick=600, thorough=10000, qsec=25),
    Facet("curve", st.fixed_dictionaries(dict(s=sched, via=st.sampled_from(["factory", "defaults", "class"]))),
          run_curve, "more than 2 iterations, more than one step, start != target", quick=1500, thorough=30000,
          qsec=40),
    Facet("collection", st.fixed_dictionaries(dict(
        names=st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True),
        specs=st.lists(sched, min_size=1, max_size=6), order=st.permutations(NAMES), total=st.integers(1, 120),
        its=st.lists(st.integers(1, 200), max_size=4), share=st.booleans(), set_max=st.booleans())),
        run_collection, "at least two parameters requested", quick=400, thorough=8000, qsec=30),
    Facet("invalid", st.fixed_dictionaries(dict(
        type=st.sampled_from(list(REQ) + ["ConstantOne"]), init=val, target=val, n=st.integers(1, 9),
        kind=st.sampled_from(["missing", "steps", "target", "type"]), which=st.integers(0, 5),
        bad=st.sampled_from(["", "step", "Stepp", "none", "SawTooth", "Constant "]))),
        run_invalid, "every case is an invalid configuration", quick=300, thorough=3000, qsec=20),
]
ASSUMPTIONS = ["Plateau k of a step schedule begins at iteration ceil(k*horizon/steps) (documented '(approximately) equal "
               "number of iterations'); exactly on a boundary that is not representable either neighbour is accepted."]
