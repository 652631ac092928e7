"""C25: plots and printed summaries show the recorded values.

Figures are inspected when they are saved: what their artists show is compared with the data that was recorded.
"""
import contextlib
import io
import logging
import math
import os
import re

import numpy as np
from hypothesis import strategies as st
import matplotlib.figure

from .. import gen, runs
from ..core import Facet, check, close, scratch

from sktopt.core import visualization
from sktopt.tools import SchedulerConfig, Schedulers
from sktopt.tools.history import HistoryCollection
from sktopt.tools.timer import SectionTimer

_save = matplotlib.figure.Figure.savefig
_tight = matplotlib.figure.Figure.tight_layout


ASSUMPTIONS = ["what a figure shows is read from its artists at the moment it is saved; rasterisation is matplotlib's",
               "section names do not contain the separator", "animation frames are uniform grey images, compared up to the gif palette"]


class Panel:
    """What one set of axes shows."""

    def __init__(self, ax):
        self.title, self.ylabel, self.scale = ax.get_title(), ax.get_ylabel(), ax.get_yscale()
        self.lines = [(ln.get_label(), np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)) for ln in ax.get_lines() if ln.get_visible()]
        self.bars, self.wedges = [], []
        for p in ax.patches:
            if isinstance(p, matplotlib.patches.Rectangle) and p.get_visible():
                self.bars.append((float(p.get_x()), float(p.get_y()), float(p.get_width()), float(p.get_height())))
            elif isinstance(p, matplotlib.patches.Wedge) and p.get_visible():
                self.wedges.append(p.theta2 - p.theta1)
        self.xt = list(zip([float(v) for v in ax.get_xticks()], [t.get_text() for t in ax.get_xticklabels()])) if self.bars else []
        self.yt = list(zip([float(v) for v in ax.get_yticks()], [t.get_text() for t in ax.get_yticklabels()])) if self.bars else []
        self.regions = [[np.array(q.vertices, float) for q in c.get_paths()] for c in ax.collections if c.get_visible()]
        lg = ax.get_legend()
        self.legend = None if lg is None else [t.get_text() for t in lg.get_texts()]
        self.texts = [t.get_text() for t in ax.texts]
        self.y0, self.y1 = ax.get_ylim()


@contextlib.contextmanager
def figures(real=False):
    """Collects (path, panels) of every figure saved."""
    out = []

    def savefig(fig, path, *a, **k):
        out.append((str(path), [Panel(x) for x in fig.axes]))
        if real:
            k["dpi"] = 20
            return _save(fig, path, *a, **k)
        with open(path, "wb"):
            pass
    matplotlib.figure.Figure.savefig = savefig
    if not real:
        matplotlib.figure.Figure.tight_layout = lambda *a, **k: None
    try:
        yield out
    finally:
        matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.tight_layout = _save, _tight


# ---- histories ---------------------------------------------------------------------------------------------
PT = ["value", "min-max-mean", "min-max-mean-std"]
series_s = st.fixed_dictionaries(dict(pt=st.sampled_from(PT), ylog=st.booleans(), kind=st.sampled_from(["scalar", "field", "field", "empty"]),
                                      n=st.sampled_from([1, 2, 3, 5, 12, 12, 90, 400]), size=st.sampled_from([1, 2, 7, 150]), seed=st.integers(0, 99)))
hist_s = st.fixed_dictionaries(dict(series=st.lists(series_s, min_size=1, max_size=19), fname=st.sampled_from([None, "p.jpg", "progress.png"]),
                                    reload=st.booleans(), real=st.sampled_from([False] * 7 + [True])))
WORDS = ["rho", "u max", "-dC", "U^T KU", "vol_error", "lambda", "kkt", "E"]


def run_progress(c):
    d = scratch()
    h = HistoryCollection(d)
    want = {}
    for i, s in enumerate(c["series"]):
        name = f"{WORDS[i % len(WORDS)]} <{i}>"
        h.add(name, plot_type=s["pt"], ylog=s["ylog"])
        r = np.random.RandomState(s["seed"])
        rows = []
        for _ in range(0 if s["kind"] == "empty" else s["n"]):
            x = r.rand(s["size"]) * 10 + 0.1 if s["kind"] == "field" else float(r.rand() + 0.1)
            h.feed_data(name, x)
            rows.append([x.min(), x.mean(), x.max(), x.std()] if s["kind"] == "field" else x)
        want[name] = (s, np.array(rows))
    if c["reload"] and any(s["kind"] != "empty" for s in c["series"]):
        h.export_histories()
    with figures(c["real"]) as figs:
        h.export_progress(c["fname"]) if c["fname"] else h.export_progress()
    check(len({p for p, _ in figs}) == len(figs), "two pages of the progress plot overwrite each other", paths=[p for p, _ in figs])
    for p, _ in figs:
        check(os.path.dirname(os.path.abspath(p)) == os.path.abspath(d) and p.endswith(c["fname"] or "progress.jpg"), "progress plot written elsewhere", path=p)
        check(os.path.isfile(p), "progress plot missing")
    panels = [q for _, ps in figs for q in ps]
    for name, (s, rows) in want.items():
        mine = [q for q in panels if q.ylabel == name or name in q.title]
        if s["kind"] == "empty":
            check(all(not q.lines for q in mine), "a curve is drawn for a history without data", name=name)
            continue
        check(len(mine) == 1, "a history is not shown exactly once", name=name, times=len(mine))
        q = mine[0]
        check(q.scale == ("log" if s["ylog"] else "linear"), "axis scale", name=name, got=q.scale)
        exp = [rows] if rows.ndim == 1 else [rows[:, 0], rows[:, 1], rows[:, 2]]
        check(len(q.lines) == len(exp), "number of curves", name=name, got=len(q.lines))
        for e in exp:
            check(any(y.shape == e.shape and np.allclose(y, e, rtol=1e-9, atol=0) for _, _, y in q.lines), "a recorded curve is not the one shown", name=name)
        for k, (lab, x, y) in enumerate(q.lines):
            check(np.all(np.diff(x) == 1), "iterations are not evenly spaced", name=name)
            if rows.ndim == 2 and q.legend is not None:
                check(q.legend[k] in ("min", "mean", "max"), "unexpected legend", got=q.legend)
                close(y, rows[:, ["min", "mean", "max"].index(q.legend[k])], "the curve with this name shows other values", name=name, label=q.legend[k])
        band = rows.ndim == 2 and s["pt"] == "min-max-mean-std"
        check(len(q.regions) == (1 if band else 0), "spread band", name=name, got=len(q.regions))
        if band:
            v = np.concatenate(q.regions[0])
            x = q.lines[0][1]
            for k in range(len(rows)):
                y = v[np.abs(v[:, 0] - x[k]) < 1e-9, 1]
                m, sd = rows[k, 1], rows[k, 3]
                check(len(y) and abs(y.min() - (m - sd)) <= 1e-9 * (abs(m) + sd) and abs(y.max() - (m + sd)) <= 1e-9 * (abs(m) + sd), "the band is not mean plus and minus one deviation",
                      name=name, step=k, got=[float(y.min()), float(y.max())] if len(y) else None, want=[m - sd, m + sd])
    return dict(nontrivial=len(panels) > 0, tags=[f"{len(figs)} pages"] + (["reloaded"] if c["reload"] else []))


class Grab(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


@contextlib.contextmanager
def logged():
    g = Grab()
    root = logging.getLogger()
    dis, lev = root.manager.disable, root.level
    logging.disable(logging.NOTSET)
    root.setLevel(logging.INFO)
    root.addHandler(g)
    try:
        yield g
    finally:
        root.removeHandler(g)
        root.setLevel(lev)
        logging.disable(dis)


NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")


def run_print(c):
    h = HistoryCollection(scratch())
    last = {}
    for i, s in enumerate(c["series"]):
        name = "abcdefghijklmnopqrstuvwxyz"[i]
        h.add(name, plot_type=s["pt"], ylog=s["ylog"])
        r = np.random.RandomState(s["seed"])
        for _ in range(0 if s["kind"] == "empty" else s["n"]):
            x = r.randn(s["size"]) * 10 if s["kind"] == "field" else float(r.randn())
            h.feed_data(name, x)
            last[name] = [x.min(), x.mean(), x.max()] if s["kind"] == "field" else [x]
    with logged() as g:
        h.print()
    got = {}
    for ln in g.lines:
        k, _, rest = ln.partition(":")
        check(k not in got, "a history is printed twice", name=k)
        got[k] = [float(v) for v in NUM.findall(rest)]
    check(set(got) == set(last), "printed histories", got=sorted(got), want=sorted(last))
    for k, v in last.items():
        check(len(got[k]) == len(v) and all(abs(a - b) <= 1e-4 * max(1.0, abs(b)) for a, b in zip(got[k], v)), "printed values are not the latest ones", name=k, got=got[k], want=v)
    return dict(nontrivial=len(last) > 0, tags=[f"{min(len(last), 3)}+ series"])


# ---- schedules ---------------------------------------------------------------------------------------------
sch_s = st.fixed_dictionaries(dict(n=st.integers(1, 19), iters=st.sampled_from([1, 2, 7, 40, 300]), seed=st.integers(0, 999), fname=st.sampled_from([None, "s.jpg"])))


def run_schedules(c):
    d = scratch()
    s = Schedulers(d)
    r = np.random.RandomState(c["seed"])
    for i in range(c["n"]):
        a, b = (round(float(v), 3) for v in r.rand(2) * 5)
        k = int(r.randint(1, 6))
        name = f"p{i}_"
        s.add_object_from_config([lambda: SchedulerConfig.constant(target_value=b), lambda: SchedulerConfig.step(init_value=a, target_value=b, num_steps=k),
                                  lambda: SchedulerConfig.step_accelerating(init_value=a, target_value=b, num_steps=k, curvature=2.0)][int(r.randint(3))](), name)
    s.set_iters_max(c["iters"])
    want = {}
    for it in range(1, c["iters"] + 1):
        for k, v in s.values_as_dict(it).items():
            want.setdefault(k, []).append(v)
    with figures() as figs, gen.hush():
        s.export(c["fname"]) if c["fname"] else s.export()
    check(len({p for p, _ in figs}) == len(figs), "two pages overwrite each other")
    panels = [q for p, ps in figs for q in ps]
    check(all(os.path.dirname(os.path.abspath(p)) == os.path.abspath(d) for p, _ in figs), "written elsewhere")
    for k, v in want.items():
        mine = [q for q in panels if k in (q.ylabel, q.title.split(" ")[0])]
        check(len(mine) == 1 and len(mine[0].lines) == 1, "a schedule is not shown exactly once", name=k, times=len(mine))
        close(mine[0].lines[0][2], np.array(v, float), "the plotted schedule is not the one used", rtol=1e-12, name=k)
    return dict(nontrivial=c["n"] > 1 and c["iters"] > 1, tags=[f"{len(figs)} pages"])


# ---- densities ---------------------------------------------------------------------------------------------
histo_s = st.fixed_dictionaries(dict(n=st.sampled_from([1, 2, 3, 17, 50, 130, 1100, 40000]), kind=st.sampled_from(["rand", "const", "near", "near", "two", "grid", "edge"]),
                                     shape=st.sampled_from(["1d", "col"]), seed=st.integers(0, 99)))


def run_histogram(c):
    n, r = c["n"], np.random.RandomState(c["seed"])
    x = {"rand": lambda: r.rand(n), "const": lambda: np.full(n, round(r.rand(), 2)),
         "near": lambda: round(0.1 + 0.8 * r.rand(), 2) * (1.0 + r.randint(-3, 4, n) * 2.0 ** -52 * r.choice([1, 40, 1e4])), "two": lambda: r.choice([1e-3, 1.0], n),
         "grid": lambda: r.randint(0, 51, n) / 50.0, "edge": lambda: np.where(r.rand(n) < 0.9, 0.0, r.rand(n))}[c["kind"]]()
    keep = x.copy()
    path = os.path.join(scratch(), "h.jpg")
    with figures() as figs:
        visualization.rho_histo_plot(x if c["shape"] == "1d" else x.reshape(n, 1), path)
    check(np.array_equal(x, keep), "drawing the histogram changed the densities")
    check([p for p, _ in figs] == [path] and len(figs[0][1]) == 1, "one histogram at the given path", got=[p for p, _ in figs])
    counts(figs[0][1][0], x)
    return dict(nontrivial=n > 1, tags=[c["kind"]])


def counts(q, x):
    """Bars tile the range of x and hold every value exactly once."""
    tot = sum(b[3] for b in q.bars)
    check(tot == x.size, "the histogram does not count every value once", got=tot, want=int(x.size))
    e = 1e-9 * max(1.0, float(np.abs(x).max()))
    for (bx, _, w, h) in q.bars:
        lo, hi = int(np.sum((x > bx + e) & (x < bx + w - e))), int(np.sum((x >= bx - e) & (x <= bx + w + e)))
        check(lo <= h <= hi, "a bar does not count the values in its interval", interval=[bx, bx + w], got=h, want=[lo, hi])


# ---- problem statistics ------------------------------------------------------------------------------------
stats_s = gen.one_of(runs.problem_s(kind=("elastic",), mesh=gen.mesh_s(maxel=60)), runs.problem_s(kind=("heat",), mesh=gen.mesh_s(maxel=60)))


def nearest(p):
    d = np.sqrt(((p[:, None, :] - p[None, :, :]) ** 2).sum(-1))
    np.fill_diagonal(d, np.inf)
    return d.min(axis=1)


def run_stats(c):
    from ..core import Discard
    b, t, *_ = runs.make_problem(c)
    if t.mesh.nelements < 2:
        raise Discard()
    d = scratch()
    out = io.StringIO()
    with figures() as figs, contextlib.redirect_stdout(out):
        t.nodes_and_elements_stats(d)
    m = t.mesh
    cen = m.p[:, m.t].mean(axis=1).T
    dn, de = nearest(m.p.T), nearest(cen)
    txt = out.getvalue()
    got = {k: [float(v) for v in re.findall(k + r"\s*:\s*(\S+)", txt)] for k in ("min", "max", "mean", "median", "std")}
    for k, v in got.items():
        f = getattr(np, k)
        check(len(v) == 2 and abs(v[0] - f(dn)) <= 6e-5 + 1e-4 * abs(f(dn)) and abs(v[1] - f(de)) <= 6e-5 + 1e-4 * abs(f(de)), "printed distance statistics", key=k, got=v,
              want=[float(f(dn)), float(f(de))])
    panels = [q for _, ps in figs for q in ps]
    vol = np.asarray(t.elements_volume)
    des = np.asarray(t.design_elements)
    for x, words in ((dn, ("Nodes",)), (de, ("Element Centers",)), (vol, ("volume", "all")), (vol[des], ("volume", "design"))):
        mine = [q for q in panels if all(w in q.title for w in words) and "difference" not in q.title]
        check(len(mine) == 1, "a distribution is not shown exactly once", which=words)
        counts(mine[0], x)
    mine = [q for q in panels if "difference" in q.title]
    check(len(mine) == 1, "volumes per region are not shown exactly once")
    q = mine[0]
    sizes = {"all": vol.sum(), "dirichlet": part(vol, t.dirichlet_elements), "force": part(vol, t.neumann_elements), "design": vol[des].sum()}
    lab = {round(x): s for x, s in q.xt}
    shown = {lab.get(round(bx + w / 2)): h for bx, _, w, h in q.bars}
    for k, v in sizes.items():
        check(k in shown and abs(shown[k] - v) <= 1e-9 * vol.sum(), "volume of a region", region=k, got=shown.get(k), want=float(v))
    return dict(nontrivial=True, tags=[c.get("kind", "problem"), "no-load" if t.neumann_elements is None else "load", "no-support" if t.dirichlet_elements is None else "support"])


def part(vol, idx):
    return 0.0 if idx is None or len(np.atleast_1d(idx)) == 0 else vol[np.asarray(idx, int)].sum()


# ---- timings -----------------------------------------------------------------------------------------------
SEPS = st.sampled_from([">", "/", "::", " > ", "."])
tree = st.recursive(st.tuples(st.sampled_from("abcde"), st.integers(0, 40), st.just([])).map(list),
                    lambda ch: st.tuples(st.sampled_from("abcde"), st.integers(0, 40), st.lists(ch, max_size=4)).map(list), max_leaves=10)
timer_s = st.fixed_dictionaries(dict(sep=SEPS, hier=st.sampled_from([True, True, True, False]), trees=st.lists(tree, min_size=1, max_size=5), rounds=st.integers(1, 4),
                                     kind=st.sampled_from(["bar", "bar", "pie", "stacked"]), value=st.sampled_from(["total", "avg", "max", "count"]),
                                     sort=st.sampled_from(["total", "avg", "max", "count", "name"]), desc=st.booleans(), self=st.booleans(), moving=st.booleans(),
                                     nested=st.sampled_from([None, None, True, False]), reset=st.sampled_from([None, None, 0, 1, 2]), save=st.booleans()))


def run_timer(c):
    now = [0.0]
    tm = SectionTimer(clock=lambda: now[0], hierarchical=c["hier"], sep=c["sep"])
    rec, means = {}, {}
    sep = c["sep"]

    def go(node, path, fac):
        full = sep.join(path + [node[0]]) if c["hier"] else node[0]
        t0 = now[0]
        with tm.section(node[0]):
            now[0] += node[1] * fac
            for ch in node[2]:
                go(ch, path + [node[0]], fac)
        rec.setdefault(full, []).append(now[0] - t0)
    moving = c["moving"] and c["kind"] != "stacked"
    shown = 0
    for rnd in range(c["rounds"]):
        for tr in c["trees"]:
            go(tr, [], rnd + 1)
        st_ = {k: dict(count=len(v), total=sum(v), avg=sum(v) / len(v), max=max(v), name=k) for k, v in rec.items()}
        kids = {k: [q for q in st_ if q.startswith(k + sep) and sep not in q[len(k + sep):]] for k in st_}
        if c["self"]:
            tot = {k: v["total"] for k, v in st_.items()}
            for k, v in st_.items():
                s = max(tot[k] - sum(tot[q] for q in kids[k]), 0.0)
                v.update(total=s, avg=s / v["count"], max=s)
        data = {k: v[c["value"]] for k, v in st_.items()}
        args = dict(sort_by=c["sort"], value=c["value"], descending=c["desc"], use_self_time=c["self"])
        if c["kind"] == "stacked":
            if not any(sep in k for k in st_):
                return dict(nontrivial=False)
            args.update(kind="bar", stacked_nested=True)
        else:
            args.update(kind=c["kind"], moving_average=c["moving"])
            if c["kind"] == "bar":
                args["format_nested"] = c["nested"]
        if c["kind"] == "pie" and (not any(data.values()) or (moving and rnd == 0 and not any(data.values()))):
            return dict(nontrivial=False)
        if moving:
            for k, v in data.items():
                means.setdefault(k, []).append(v)
            data = {k: sum(means[k]) / len(means[k]) for k in data}
        if c["save"]:
            path = os.path.join(scratch(), "t.png")
            with figures() as figs:
                tm.save_plot(path, **args)
            check([p for p, _ in figs] == [path] and len(figs[0][1]) == 1, "one timing plot at the given path")
            q = figs[0][1][0]
        else:
            fig, ax = tm.plot(**args)
            q = Panel(ax)
        look(c, q, data, st_, kids, sep, moving)
        shown += 1
        if c["reset"] is not None and rnd == 1:
            k = sorted(rec)[c["reset"] % len(rec)]
            tm.reset(k)
            rec.pop(k)
            means.pop(k, None)
    return dict(nontrivial=len(st_) > 1, tags=[c["kind"]] + (["moving"] if moving else []) + (["same-leaf"] if len({k.split(sep)[-1] for k in st_}) < len(st_) else []))


def look(c, q, data, st_, kids, sep, moving):
    tol = 1e-9 * max([1.0] + [abs(v) for v in data.values()])
    if c["kind"] == "pie":
        check(len(q.wedges) == len(data), "a section is missing from the pie", got=len(q.wedges), want=len(data))
        check(q.legend is not None and len(q.legend) == len(data), "legend of the pie", got=q.legend)
        tot = sum(data.values())
        seen = set()
        for w, lab in zip(q.wedges, q.legend):
            name, _, num = lab.rpartition(" (")
            check(name in data and name not in seen, "unknown or repeated section in the legend", got=lab)
            seen.add(name)
            check(abs(w / 360.0 - data[name] / tot) <= 1e-5, "share of a section", name=name, got=w / 360.0, want=data[name] / tot)
            check(abs(float(re.sub(r"[^0-9.eE+-]", "", num.rstrip("s)"))) - data[name]) <= 6e-4, "value in the legend", name=name, got=num, want=data[name])
        if not moving and c["sort"] == c["value"]:
            check(mono(q.wedges, c["desc"], 1e-3), "sections are not in the requested order", got=q.wedges)
        return
    if c["kind"] == "stacked":
        tops = [k for k in st_ if sep not in k]
        rows = {}
        for bx, by, w, h in q.bars:
            rows.setdefault(round(by + h / 2, 6), []).append((bx, w))
        ticks = {round(y, 6): s for y, s in q.yt}
        check(len(rows) == len(tops), "sections shown", got=len(rows), want=tops)
        for y, segs in rows.items():
            name = ticks.get(y)
            check(name in tops, "label of a stacked bar", got=name, want=tops)
            tops.remove(name)
            segs.sort()
            x = 0.0
            for bx, w in segs:
                check(abs(bx - x) <= tol, "the segments of a bar overlap or leave a gap", name=name, got=segs)
                x += w
            parts = [data[k] for k in kids[name]]
            own = data[name] if c["self"] else max(data[name] - sum(parts), 0.0)
            a, b = sorted(w for _, w in segs), sorted(parts + [own])
            check(len(a) == len(b) and all(abs(u - v) <= tol for u, v in zip(a, b)), "segments are not the own time and the direct children", name=name, got=a, want=b)
        return
    check(len(q.bars) == len(data), "number of bars", got=len(q.bars), want=len(data))
    ys = [round(by + h / 2, 6) for _, by, _, h in q.bars]
    check(len(set(ys)) == len(ys), "bars of different sections lie on top of each other", sections=sorted(data))
    ticks = {round(y, 6): s for y, s in q.yt}
    nested = c["hier"] if c["nested"] is None else c["nested"]
    got = sorted((ticks.get(y, "?").strip() if nested else ticks.get(y, "?"), w) for y, (_, _, w, _) in zip(ys, q.bars))
    want = sorted((k.split(sep)[-1].strip() if nested else k, v) for k, v in data.items())
    check([a for a, _ in got] == [a for a, _ in want] and all(abs(u - v) <= tol for (_, u), (_, v) in zip(got, want)), "a bar does not show its section's value", got=got, want=want)
    if not moving and c["sort"] == c["value"]:
        down = q.y0 > q.y1
        w = [b[2] for _, b in sorted(zip(ys, q.bars), key=lambda t: t[0] if down else -t[0])]
        check(mono(w, c["desc"], tol), "sections are not in the requested order", got=w)


def mono(v, desc, tol):
    d = np.diff(np.asarray(v, float))
    return bool(np.all(d <= tol) if desc else np.all(d >= -tol))


# ---- animations --------------------------------------------------------------------------------------------
gif_s = st.fixed_dictionaries(dict(n=st.integers(0, 14), skip=st.integers(0, 4), start=st.sampled_from([1, 8, 97, 995]), every=st.sampled_from([1, 2, 5]), side=st.sampled_from([8, 16, 30]),
                                   scale=st.sampled_from([0.7, 0.5, 1.0]), prefix=st.sampled_from(["rho_projected", "energy"])))


def run_gif(c):
    import imageio.v2 as imageio
    d = scratch()
    os.makedirs(os.path.join(d, "mesh_rho"), exist_ok=True)
    levels = []
    for i in range(c["n"]):
        it = c["start"] + i * c["every"]
        g = 10 + int(235 * i / max(1, c["n"] - 1))
        levels.append(g)
        imageio.imwrite(os.path.join(d, "mesh_rho", f"info_{c['prefix']}-{it:08d}.jpg"), np.full((c["side"], c["side"], 3), g, np.uint8))
    other = "energy" if c["prefix"] == "rho_projected" else "rho_projected"
    imageio.imwrite(os.path.join(d, "mesh_rho", f"info_{other}-00000001.jpg"), np.full((8, 8, 3), 0, np.uint8))
    with gen.hush():
        visualization.images2gif(d, c["prefix"], scale=c["scale"], skip_frame=c["skip"])
    out = os.path.join(d, f"animation-{c['prefix']}.gif")
    if c["n"] == 0:
        check(not os.path.exists(out), "an animation without frames was written")
        return dict(nontrivial=False)
    check(os.path.isfile(out), "the animation was not written")
    fr = [np.asarray(f, float)[..., :3] for f in imageio.mimread(out, memtest=False)]
    want = levels[::c["skip"] + 1]
    check(len(fr) == len(want), "number of frames", got=len(fr), want=len(want))
    for k, (f, g) in enumerate(zip(fr, want)):
        check(abs(f.mean() - g) <= 4, "frames are not in the order of the iterations", frame=k, got=float(f.mean()), want=g)
        check(f.shape[0] == round(c["side"] * c["scale"]) == f.shape[1], "frame size", got=f.shape)
    return dict(nontrivial=c["n"] > 1, tags=[f"skip {c['skip']}"])


# ---- whole runs ---------------------------------------------------------------------------------------------
run_s = st.fixed_dictionaries(dict(pr=runs.problem_s(mesh=runs.tiny_mesh), cfg=runs.cfg_s(iters=(1, 4)), flat=st.booleans()))


def run_run(c):
    b, t, des = runs.make_problem(c["pr"], c["cfg"]["design_dirichlet"])
    with figures() as figs, gen.hush():
        o = runs.make_optimizer(c["cfg"], t, plots=True)
        if c["flat"]:                     # densities that differ by rounding only
            o.vf_pre = lambda it, d: d["dC_drho_design_eles"].__setitem__(slice(None), -1.0 - 1e-16 * np.arange(len(d["rho_design_eles"])))
        o.optimize()
    dst = os.path.abspath(o.cfg.dst_path)
    check(all(os.path.abspath(p).startswith(dst + os.sep) for p, _ in figs), "a picture was written outside the run's directory", paths=[p for p, _ in figs])
    latest = {}
    for p, panels in figs:
        latest[os.path.relpath(os.path.abspath(p), dst)] = panels
    full = runs.full_density(o, b.ne)
    rows = {k: np.array(h.data, float) for k, h in o.recorder.histories.items()}
    final = [panels for k, panels in latest.items() if "mesh_rho" in k and k.endswith("last.jpg")]
    check(len(final) == 1, "no histogram of the final densities", files=sorted(latest))
    if full is not None:
        counts(final[0][0], full[o.tsk.design_elements])
    prog = [q for k, panels in latest.items() if "progress" in k and "schedule" not in k for q in panels]
    for k, v in rows.items():
        if not v.size:
            continue
        mine = [q for q in prog if q.ylabel == k]
        check(len(mine) == 1, "a recorded history is not shown exactly once after the run", name=k, times=len(mine))
        exp = [v] if v.ndim == 1 else [v[:, i] for i in range(3)]
        for e in exp:
            check(any(y.shape == e.shape and np.allclose(y, e, rtol=1e-9, atol=1e-300, equal_nan=True) for _, _, y in mine[0].lines), "the final progress plot does not show the recorded values", name=k)
    sch = [q for k, panels in latest.items() if "schedule" in k for q in panels]
    n = c["cfg"]["max_iters"]
    for k in ("p", "vol_frac", "beta", "move_limit", "eta", "filter_radius", "neumann_scale"):
        mine = [q for q in sch if q.ylabel == k]
        check(len(mine) == 1 and len(mine[0].lines) == 1, "a schedule is not shown exactly once", name=k, times=len(mine))
        y = mine[0].lines[0][2]
        want = [runs.sched_values(c["cfg"][k], it, n) for it in range(1, n + 1)]
        check(y.shape == (n,) and all(any(abs(g - v) <= 1e-9 * max(1.0, abs(v)) for v in np.atleast_1d(w)) for g, w in zip(y, want)), "the schedule plot does not show the scheduled values", name=k, got=y.tolist(), want=want)
    tim = [panels for k, panels in latest.items() if k.endswith("timing.png")]
    check(len(tim) == 1 and len(tim[0]) == 1 and len(tim[0][0].wedges) > 0, "no timing plot", files=sorted(latest))
    return dict(nontrivial=n > 1, tags=[c["cfg"]["opt"], c["pr"]["kind"]] + (["flat"] if c["flat"] else []))


FACETS = [
    Facet("run", run_s, run_run, "a run of several iterations", quick=10, thorough=150, qsec=90, tsec=500, shards=2),
    Facet("progress", hist_s, run_progress, "at least one history holds data", quick=30, thorough=600, qsec=60, tsec=400, shards=2),
    Facet("print", hist_s, run_print, "at least one history holds data", quick=60, thorough=1500),
    Facet("schedules", sch_s, run_schedules, "several schedules and iterations", quick=16, thorough=300, qsec=60, tsec=300),
    Facet("histogram", histo_s, run_histogram, "several densities", quick=40, thorough=600, qsec=60, tsec=300),
    Facet("stats", stats_s, run_stats, "a problem definition with several elements", quick=24, thorough=300, qsec=60, tsec=300),
    Facet("timings", timer_s, run_timer, "several sections were timed", quick=120, thorough=2500, qsec=60, tsec=400, shards=2),
    Facet("animation", gif_s, run_gif, "several frames", quick=25, thorough=300),
]
