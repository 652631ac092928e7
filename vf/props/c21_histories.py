"""C21: recorded histories keep every value and survive export and import."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, check, scratch

from sktopt.tools.history import HistoryCollection, HistorySeries, compare_histories_data_and_plot_type

F = gen.one_of(st.floats(-1e6, 1e6), st.floats(allow_nan=False, allow_infinity=False, min_value=-1e150, max_value=1e150),
              st.sampled_from([0.0, -0.0, 1e-320, 1.0, -1.0, 1 / 3, 1e-17, 123456789.123456789]))
SF = gen.one_of(F, st.sampled_from([math.inf, -math.inf, math.nan]))
names = st.sampled_from(["compliance", "-dC", "rho_projected", "u max", "a", "A", "lambda_v", "x1", "header", "header_x", "data", "k_head", "dL", "vol.err"])
PT = ["value", "min-max-mean", "min-max-mean-std"]
arr_s = st.fixed_dictionaries(dict(v=st.lists(gen.one_of(st.floats(-1e6, 1e6).map(lambda x: round(x, 4)), st.integers(-5, 5).map(float)), min_size=1, max_size=12),
                                   dt=st.sampled_from(["f8", "f8", "f4", "i8"]), shape=st.sampled_from(["1d", "col", "row", "cube"])))
how = st.sampled_from(["float", "np", "0d", "0d", "int"])
feed_s = st.tuples(st.just("feed"), st.integers(0, 20), SF, how, arr_s).map(list)
op_s = gen.one_of(
    feed_s, feed_s, feed_s, feed_s,
    st.tuples(st.just("burst"), st.integers(0, 20), st.sampled_from([5, 11, 70, 130, 300, 1100]), st.integers(0, 50)),      # a long run
    st.tuples(st.just("field"), st.integers(0, 20), st.sampled_from([130, 300, 1030, 5000, 70000]), st.integers(0, 50),    # a large mesh
              st.sampled_from([0.0, 0.0, 1.0, -3.0, 1e4, 1e8, -1e12]), st.sampled_from([1.0, 1e-3, 1e-6, 0.0])),
    st.tuples(st.just("add"), names, st.sampled_from(PT), st.booleans(), st.sampled_from(["none", "none", "list", "np", "ints"]), st.lists(F, max_size=3)),
    st.tuples(st.just("export"), st.sampled_from(["histories.npz", "b.npz", None])),
    st.tuples(st.just("reload"), st.sampled_from(["none", "all", "some"])),
    st.tuples(st.just("read"),),
).map(list)
case_s = st.fixed_dictionaries(dict(
    series=st.lists(st.tuples(names, st.sampled_from(PT), st.booleans(), st.booleans()).map(list), min_size=1, max_size=6, unique_by=lambda t: t[0]),
    ops=st.tuples(st.lists(op_s, min_size=1, max_size=24), st.sampled_from(["none", "all", "some", ""]), st.lists(feed_s, max_size=3)).map(
        lambda t: t[0] + ([["export", None], ["reload", t[1]]] + t[2] if t[1] else []))))


class Rec:
    def __init__(self, arr, pt, ylog=False, data=(), constants=None, f4=False):
        self.arr, self.pt, self.ylog, self.data, self.constants, self.f4 = arr, pt, ylog, list(data), constants, f4


def build(a):
    x = np.array(a["v"], float)
    if a["dt"] == "i8":
        x = np.round(np.clip(x, -1e6, 1e6)).astype(np.int64)
    elif a["dt"] == "f4":
        x = x.astype(np.float32)
    n = x.size
    return {"1d": x, "col": x.reshape(n, 1), "row": x.reshape(1, n), "cube": x.reshape(1, n, 1)}[a["shape"]]


def stats(x, pt):
    v = [float(t) for t in x.ravel()]
    m = math.fsum(v) / len(v)
    out = [min(v), m, max(v)]
    if pt == "min-max-mean-std":
        out.append(math.sqrt(math.fsum((t - m) ** 2 for t in v) / len(v)))
    return out


def agree(got, want, what, f4=False, **kw):
    got, want = np.asarray(got, float), np.asarray(want, float)
    check(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape, **kw)
    if got.ndim < 2:
        check(np.array_equal(got, want, equal_nan=True), f"{what}: values", got=got.tolist(), want=want.tolist(), **kw)
        return
    for j, nm in enumerate(("minimum", "mean", "maximum", "standard deviation")[:got.shape[1]]):
        if j in (0, 2):
            check(np.array_equal(got[:, j], want[:, j]), f"{what}: {nm}", got=got[:, j].tolist(), want=want[:, j].tolist(), **kw)
        else:
            s = np.max(np.abs(want[:, [0, 2]]), axis=1)
            # single precision input is averaged in single precision
            s = 3e-6 * s if f4 else 1e-12 * s + 1e-9 * np.abs(want[:, j])
            check(np.all(np.abs(got[:, j] - want[:, j]) <= s + 1e-300), f"{what}: {nm}", got=got[:, j].tolist(), want=want[:, j].tolist(), **kw)


def verify(col, model, what, exact=None):
    check(set(col.histories) == set(model), f"{what}: registered histories", got=sorted(col.histories), want=sorted(model))
    for n, r in model.items():
        h = col.histories[n]
        check(h.name == n and h.plot_type == r.pt, f"{what}: name or kind of a history", got=(h.name, h.plot_type), want=(n, r.pt))
        check(bool(h.ylog) == r.ylog, f"{what}: logarithmic flag", history=n, got=h.ylog, want=r.ylog)
        check(h.constants == r.constants, f"{what}: constants", history=n, got=h.constants, want=r.constants)
        check(h.exists() == bool(r.data), f"{what}: exists()", history=n, got=h.exists(), want=bool(r.data))
        if not r.data:
            for f in (lambda: h.data_np_array, lambda: col.latest(n)):
                try:
                    f()
                    check(False, f"{what}: an empty history returns a value", history=n)
                except ValueError:
                    pass
            continue
        v = h.data_np_array
        check(v is not None, f"{what}: no data returned", history=n)
        agree(v, r.data, what, r.f4, history=n)
        if exact is not None and n in exact:
            check(np.array_equal(np.asarray(v, float), exact[n], equal_nan=True), f"{what}: value changed", history=n)
        agree([col.latest(n)], [r.data[-1]], f"{what}, latest()", r.f4, history=n)
        d, hd = h.data_to_array()
        agree(np.asarray(d, float).T if np.ndim(r.data[0]) else d, r.data, f"{what}, data_to_array()", r.f4, history=n)
        check(list(hd)[:2] == [n, r.pt], f"{what}: header", got=list(hd), want=[n, r.pt])
    full = {n: r for n, r in model.items() if r.data}
    if len(full) == len(model):
        o, l = col.as_object(), col.as_object_latest()
        for n, r in full.items():
            agree(getattr(o, n), r.data, f"{what}, as_object()", r.f4, history=n)
            agree([getattr(l, n)], [r.data[-1]], f"{what}, as_object_latest()", r.f4, history=n)
    a = col.histories_to_array()
    check(set(a) == set(full) | {n + "_header" for n in full}, f"{what}: entries of histories_to_array", got=sorted(a), want=sorted(full))


def snap(col, model):
    return {n: np.array(col.histories[n].data_np_array, float) for n in model if model[n].data}


def run_seq(c):
    d = scratch("hist")
    col, model = HistoryCollection(d), {}
    for n, pt, arr, ylog in c["series"]:
        col.add(n, plot_type=pt, ylog=ylog)
        model[n] = Rec(arr, pt, ylog)
    exported, tags, nfeeds = None, set(), 0
    reloaded_fed = False
    reloaded = False
    for op in c["ops"]:
        if op[0] == "feed":
            n = sorted(model)[op[1] % len(model)]
            r = model[n]
            if r.arr:
                x = build(op[4])
                r.data.append(stats(x, r.pt))
                r.f4 |= x.dtype == np.float32
                col.feed_data(n, x)
                x[...] = 0                                   # the caller reuses its buffer
                tags.add("array " + r.pt)
            else:
                v = op[2]
                if op[3] == "int":
                    v = int(v) if math.isfinite(v) and abs(v) < 1e15 else 0
                r.data.append(float(v))
                x = {"float": v, "np": np.float64(v), "0d": np.array(float(v)), "int": v}[op[3]]
                col.feed_data(n, x)
                if op[3] == "0d":
                    x[...] = 7
                tags.add("scalar " + op[3])
            nfeeds += 1
            reloaded_fed |= reloaded
        elif op[0] == "burst":
            n = sorted(model)[op[1] % len(model)]
            r, rs = model[n], np.random.RandomState(op[3])
            for k in range(op[2]):
                v = rs.standard_normal(3) * 10.0 ** rs.randint(-3, 4)
                r.data.append(stats(v, r.pt) if r.arr else float(v[0]))
                col.feed_data(n, v if r.arr else float(v[0]))
            nfeeds += 1
            reloaded_fed |= reloaded
            tags.add("many values")
        elif op[0] == "field":
            n = sorted(model)[op[1] % len(model)]
            r, rs = model[n], np.random.RandomState(op[3])
            if r.arr:
                v = op[4] + op[5] * rs.rand(op[2])
                r.data.append(stats(v, r.pt))
                col.feed_data(n, v)
                nfeeds += 1
                tags.add("large field")
        elif op[0] == "add":
            _, n, pt, ylog, kind, data = op
            if n in model:
                continue
            if kind == "ints":
                data = [int(round(v)) if abs(v) < 1e9 else 1 for v in data]
            k = dict(constants=[1.0, 2.0], constant_names=["p", "q"]) if ylog else {}
            col.add(n, plot_type=pt, ylog=ylog, data=None if kind == "none" else np.array(data, float) if kind == "np" else list(data), **k)
            model[n] = Rec(False, pt, ylog, [] if kind == "none" else [float(v) for v in data], k.get("constants"))
            tags.add("added later")
        elif op[0] == "export":
            before = snap(col, model)
            col.export_histories(op[1])
            if not any(r.data for r in model.values()):
                check(not os.path.exists(os.path.join(d, op[1] or "histories.npz")) or exported is not None, "a file is written without any data")
                continue
            verify(col, model, "after export", before)
            exported = (op[1], {n: Rec(r.arr, r.pt, r.ylog, r.data, r.constants, r.f4) for n, r in model.items() if r.data}, before)
            with np.load(os.path.join(d, op[1] or "histories.npz")) as z:
                for n in before:
                    check(n in z.files and n + "_header" in z.files, "history missing in the file", history=n, files=z.files)
                    v = np.array(z[n], float)
                    check(np.array_equal(v.T if before[n].ndim == 2 else v, before[n], equal_nan=True), "exported values", history=n)
            tags.add("export")
        elif op[0] == "reload":
            if exported is None:
                continue
            f, saved, exact = exported
            col2 = HistoryCollection(d)
            reg = {"none": [], "all": sorted(model), "some": sorted(model)[::2]}[op[1]]
            new = {}
            for n in reg:
                r = model[n]
                col2.add(n, plot_type=r.pt, ylog=r.ylog, constants=r.constants)
                if n not in saved:
                    new[n] = Rec(r.arr, r.pt, r.ylog, (), r.constants)
            col2.import_histories(f)
            for n, r in saved.items():
                new[n] = Rec(r.arr, r.pt, model[n].ylog if n in reg else False, r.data, model[n].constants if n in reg else None, r.f4)
            verify(col2, new, "after import", exact)
            check(compare_histories_data_and_plot_type({n: col2.histories[n] for n in saved},
                                                       {n: HistorySeries(n, plot_type=saved[n].pt, data=exact[n].tolist()) for n in saved}),
                  "comparison of equal histories fails")
            col, model, reloaded = col2, new, True
            tags.add("reload " + op[1])
        else:
            verify(col, model, "reading")
    verify(col, model, "at the end")
    return dict(nontrivial=nfeeds > 0 and "export" in tags, tags=sorted(tags) + (["fed after import"] if reloaded_fed else []))


cmp_s = st.fixed_dictionaries(dict(a=st.lists(st.lists(st.floats(-1e3, 1e3).map(lambda x: round(x, 3)), min_size=1, max_size=4), min_size=1, max_size=3),
                                   change=st.sampled_from(["none", "value", "length", "kind", "key", "extra"]), at=st.integers(0, 20),
                                   by=st.sampled_from([1.0, -0.5, 100.0, 1e-2, 1e-3])))


def run_cmp(c):
    def mk():
        return {f"h{i}": HistorySeries(f"h{i}", plot_type="value", data=list(v)) for i, v in enumerate(c["a"])}
    a, b = mk(), mk()
    k = f"h{c['at'] % len(c['a'])}"
    ch = c["change"]
    if ch == "value":
        j = c["at"] % len(b[k].data)
        b[k].data[j] += c["by"] * max(1.0, abs(b[k].data[j]))
    elif ch == "length":
        b[k].data.append(0.0)
    elif ch == "kind":
        b[k].plot_type = "min-max-mean"
    elif ch == "key":
        b["other"] = b.pop(k)
    elif ch == "extra":
        b["other"] = HistorySeries("other", plot_type="value", data=[1.0])
    for x, y in ((a, b), (b, a)):
        check(bool(compare_histories_data_and_plot_type(x, y)) == (ch == "none"), "comparison of histories", change=ch)
    return dict(nontrivial=ch != "none", tags=[ch])


FACETS = [
    Facet("sequence", case_s, run_seq, "values fed and exported", quick=600, thorough=40000, qsec=40, tsec=500, shards=2, tshards=8),
    Facet("comparison", cmp_s, run_cmp, "histories that differ", quick=200, thorough=5000, qsec=10, tsec=60),
]
ASSUMPTIONS = ["a history is fed consistently with scalars or with arrays", "names do not end in _header (the file format's own suffix)"]
