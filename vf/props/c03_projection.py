"""C03: threshold projection against the documented tanh formula (evaluated with mpmath-free, stable arithmetic)."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, check
from .c02_interpolation import grown

from sktopt.core import projection as P

rho_v = gen.one_of(st.sampled_from([0.0, 1.0, 0.5, 1e-3, 0.999]), st.floats(0.0, 1.0).map(lambda v: round(v, 9)))
case_s = st.fixed_dictionaries(dict(
    rho=st.lists(rho_v, min_size=1, max_size=30),
    beta=gen.one_of(st.sampled_from([0.01, 1.0, 2.0, 8.0, 16.0, 64.0, 200.0]), st.floats(0.01, 200.0).map(lambda v: round(v, 5))),
    eta=gen.one_of(st.sampled_from([0.5, 0.05, 0.95]), st.floats(0.05, 0.95).map(lambda v: round(v, 5))),
    mode=st.sampled_from(["alloc", "inplace", "out", "alias"])))

big_s = st.builds(lambda c, n, seed: dict(c, n=n, seed=seed), case_s, st.sampled_from([500, 1025, 4099, 20011, 70001, 262147]), st.integers(0, 99))


def formulas(r, b, e):
    den = np.tanh(b * e) + np.tanh(b * (1 - e))
    x = b * (r - e)
    sech2 = 4 * np.exp(-2 * np.abs(x)) / (1 + np.exp(-2 * np.abs(x))) ** 2
    return (np.tanh(b * e) + np.tanh(x)) / den, b * sech2 / den, den


def call(mode, alloc, inplace, rho, b, e):
    """Returns the result; checks the buffer contract of the chosen calling form."""
    keep = rho.copy()
    if mode == "alloc":
        res = alloc(rho, b, e)
        check(np.array_equal(rho, keep), "the allocating form modified its input")
    elif mode == "inplace":
        res = inplace(rho, b, e)            # no buffer: caller uses the returned array
    elif mode == "out":
        buf = np.full(rho.shape, np.nan)
        guard = np.full(rho.size + 2, -7.0)
        view = guard[1:-1]
        res = inplace(rho, beta=b, eta=e, out=buf)
        check(np.array_equal(rho, keep), "input density modified although an output was given")
        check(res is buf or np.array_equal(res, buf), "result is not in the requested output")
        res = buf
        inplace(rho, beta=b, eta=e, out=view)
        check(guard[0] == -7.0 and guard[-1] == -7.0, "wrote outside the requested output")
        check(np.array_equal(view, buf), "writing into a view gives another result")
    else:
        inplace(rho, beta=b, eta=e, out=rho)
        res = rho
    return np.asarray(res)


def run_proj(c):
    r0 = grown(c, 0.0)
    b, e = c["beta"], c["eta"]
    want, _, den = formulas(r0, b, e)
    tol = 1e-10 + 1e-11 / den
    got = call(c["mode"], P.heaviside_projection, P.heaviside_projection_inplace, r0.copy(), b, e)
    check(got.shape == r0.shape and bool(np.all(np.abs(got - want) <= tol)), "projection differs from the tanh formula",
          got=got[:40].tolist(), want=want[:40].tolist())
    check(bool(np.all((got >= -tol) & (got <= 1 + tol))), "projected density outside [0,1]", got=got[:40].tolist())
    ends = np.array([0.0, 1.0])
    pe = call(c["mode"], P.heaviside_projection, P.heaviside_projection_inplace, ends, b, e)
    check(abs(pe[0]) <= tol and abs(pe[1] - 1) <= tol, "0 or 1 is not kept", got=pe[:40].tolist())
    g = np.linspace(0, 1, 65)
    pg = call(c["mode"], P.heaviside_projection, P.heaviside_projection_inplace, g, b, e)
    check(bool(np.all(np.diff(pg) >= -1e-13)), "projection is not monotone")
    a = call("alloc", P.heaviside_projection, P.heaviside_projection_inplace, r0.copy(), b, e)
    check(bool(np.all(np.abs(a - got) <= 1e-12)), "in-place and allocating forms disagree")
    return dict(nontrivial=bool(np.any((r0 > 0) & (r0 < 1))), tags=[c["mode"]])


def run_deriv(c):
    r0 = grown(c, 0.0)
    b, e = c["beta"], c["eta"]
    _, want, den = formulas(r0, b, e)
    scale = b / den
    tol = 1e-10 * scale + 1e-11 * scale / den
    got = call(c["mode"], P.heaviside_projection_derivative, P.heaviside_projection_derivative_inplace, r0.copy(), b, e)
    check(got.shape == r0.shape and bool(np.all(np.abs(got - want) <= tol)), "derivative differs from the slope of the formula",
          got=got[:40].tolist(), want=want[:40].tolist())
    check(bool(np.all(got >= 0)), "negative slope", got=got[:40].tolist())
    a = call("alloc", P.heaviside_projection_derivative, P.heaviside_projection_derivative_inplace, r0.copy(), b, e)
    check(bool(np.all(np.abs(a - got) <= tol)), "in-place and allocating forms disagree")
    # slope of the implemented projection itself
    h = 1e-6 / max(1.0, b / 10)
    r = np.clip(r0, 2 * h, 1 - 2 * h)
    fd = (np.asarray(P.heaviside_projection(r + h, b, e)) - np.asarray(P.heaviside_projection(r - h, b, e))) / (2 * h)
    dv = np.asarray(P.heaviside_projection_derivative(r, b, e))
    check(bool(np.all(np.abs(fd - dv) <= 1e-4 * scale)), "derivative is not the slope of the projection",
          got=dv[:40].tolist(), fd=fd[:40].tolist())
    return dict(nontrivial=bool(np.any((r0 > 0) & (r0 < 1))), tags=[c["mode"]])


FACETS = [
    Facet("projection", case_s, run_proj, "some density strictly inside (0,1)", quick=1000, thorough=30000, qsec=40),
    Facet("derivative", case_s, run_deriv, "some density strictly inside (0,1)", quick=1000, thorough=30000, qsec=40),
    Facet("long_projection", big_s, run_proj, "some density strictly inside (0,1)", quick=25, thorough=600, qsec=30),
    Facet("long_derivative", big_s, run_deriv, "some density strictly inside (0,1)", quick=25, thorough=600, qsec=30),
]
