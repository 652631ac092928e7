"""C02: SIMP / RAMP interpolation and derivatives against closed forms evaluated in exact-ish arithmetic."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, check, close

from sktopt.core import derivatives as D
from sktopt.fea import composer

rho_v = gen.one_of(st.sampled_from([1.0, 1e-6, 1e-3, 0.01, 0.5, 0.999999]),
                  st.floats(1e-6, 1.0).map(lambda v: float(f"{v:.9g}")))
mod = st.tuples(gen.lognum(1e-3, 1e12, 1.0, 10.0, 210e3, 210e9, 1e-3), st.floats(0.5, 2.0).map(lambda v: round(v, 4)),
                gen.lognum(1e-9, 0.9, 1e-9, 1e-6, 1e-4, 1e-3, 1e-2, 0.5))
case_s = st.fixed_dictionaries(dict(
    rho=st.lists(rho_v, min_size=1, max_size=24), E=mod,
    p=gen.one_of(st.sampled_from([1.0, 2.0, 3.0, 4.0, 5.0, 8.0]), st.floats(1.0, 10.0).map(lambda v: round(v, 4)), gen.lognum(1.0, 60.0)),
    scheme=st.sampled_from(["SIMP", "RAMP"]), energy=st.lists(st.floats(0, 1e6).map(lambda v: round(v, 5)),
                                                            min_size=1, max_size=24)))


big_s = st.builds(lambda c, n, seed: dict(c, n=n, seed=seed), case_s, st.sampled_from([500, 1025, 4099, 20011, 70001, 262147]), st.integers(0, 99))


def grown(c, lo):
    """The listed values at both ends of a long array."""
    r = np.array(c["rho"], float)
    if c.get("n"):
        rng = np.random.default_rng(c["seed"])
        mid = rng.uniform(lo, 1.0, c["n"])
        k = rng.integers(0, c["n"], c["n"] // 3)
        mid[k] = rng.choice(r, len(k))
        r = np.concatenate([r, mid, r[::-1]])
    return r


def setup(c):
    E0 = c["E"][0] * c["E"][1]
    Emin = max(E0 * c["E"][2], 1e-9)
    return grown(c, 1e-6), E0, Emin, c["p"]


TINY = 1e-280    # powers that underflow


def formula(scheme, r, E0, Emin, p):
    if scheme == "SIMP":
        return Emin + r ** p * (E0 - Emin), p * r ** (p - 1) * (E0 - Emin)
    return (Emin + r / (1 + p * (1 - r)) * (E0 - Emin), (1 + p) / (1 + p * (1 - r)) ** 2 * (E0 - Emin))


def run_interp(c):
    rho, E0, Emin, p = setup(c)
    if c["scheme"] == "RAMP":
        p = p - 1.0 if len(rho) % 2 else p
    f = composer.simp_interpolation if c["scheme"] == "SIMP" else composer.ramp_interpolation
    keep = rho.copy()
    E = np.asarray(f(rho, E0, Emin, p))
    check(np.array_equal(rho, keep), "interpolation modified its input")
    want, _ = formula(c["scheme"], rho, E0, Emin, p)
    check(E.shape == rho.shape, "shape", got=E.shape)
    check(bool(np.all(np.abs(E - want) <= 1e-10 * want)), "interpolated modulus differs from the documented formula",
          got=E[:40].tolist(), want=want[:40].tolist())
    ends = np.asarray(f(np.array([0.0, 1.0]), E0, Emin, p))
    close(ends, [Emin, E0], "modulus at density 0 / 1 is not the minimum / solid modulus", rtol=1e-12)
    g = np.linspace(0, 1, 33)
    Eg = np.asarray(f(g, E0, Emin, p))
    check(bool(np.all(np.diff(Eg) >= 0)) and bool(np.all((Eg >= Emin * (1 - 1e-12)) & (Eg <= E0 * (1 + 1e-12)))),
          "modulus not monotone within [Emin, E0]")
    Ehi = np.asarray(f(rho, E0, Emin, p + 0.75))
    check(bool(np.all(Ehi <= E * (1 + 1e-12))), "modulus does not decrease with the penalty")
    # one value per element: independent of the other entries
    for i in range(min(len(rho), 4)):
        one = np.asarray(f(rho[i:i + 1].copy(), E0, Emin, p))
        check(abs(one[0] - E[i]) <= 1e-12 * E[i], "modulus of one element depends on the others")
    return dict(nontrivial=bool(np.any((rho > 1e-3) & (rho < 1)) and p not in (0.0,)), tags=[c["scheme"]])


def run_deriv(c):
    rho, E0, Emin, p = setup(c)
    n = len(rho)
    U = np.resize(np.array(c["energy"], float), n)
    E, dE = formula(c["scheme"], rho, E0, Emin, p)
    keep, keepU = rho.copy(), U.copy()
    if c["scheme"] == "SIMP":
        got, gotC = D.dE_drho_simp(rho, E0, Emin, p), D.dC_drho_simp(rho, U, E0, Emin, p)
    else:
        got, gotC = D.dE_drho_ramp(rho, E0, Emin, p), D.dC_drho_ramp(rho, U, E0, Emin, p)
    got, gotC = np.asarray(got), np.asarray(gotC)
    wantC = -2 * U * dE / E
    check(bool(np.all(np.abs(got - dE) <= 1e-9 * np.abs(dE) + TINY * E0)), "derivative differs from the analytical one",
          got=got[:40].tolist(), want=dE[:40].tolist())
    check(bool(np.all(np.abs(gotC - wantC) <= 1e-9 * np.abs(wantC) + TINY * np.max(U, initial=0.0))), "compliance sensitivity differs from the analytical one",
          got=gotC[:40].tolist(), want=wantC[:40].tolist())
    check(bool(np.all(got >= 0)) and bool(np.all(gotC <= 0)), "derivative / sensitivity has the wrong sign")
    if c["scheme"] == "RAMP":
        out = np.full(n, np.nan)
        D.dE_drho_ramp_inplace(rho, out, E0, Emin, p)
        check(bool(np.all(np.abs(out - dE) <= 1e-9 * np.abs(dE) + TINY * E0)), "in-place derivative differs", got=out[:40].tolist())
        out = np.full(n, np.nan)
        D.dC_drho_ramp_inplace(rho, U, out, E0, Emin, p)
        check(bool(np.all(np.abs(out - wantC) <= 1e-9 * np.abs(wantC) + TINY * np.max(U, initial=0.0))), "in-place sensitivity differs", got=out[:40].tolist())
    check(np.array_equal(rho, keep) and np.array_equal(U, keepU), "derivative functions modified their inputs")
    # agreement with the interpolation actually used by the assembly (central differences)
    f = composer.simp_interpolation if c["scheme"] == "SIMP" else composer.ramp_interpolation
    r = np.clip(rho, 1e-2, 1 - 1e-3)
    h = 1e-6
    fd = (np.asarray(f(r + h, E0, Emin, p)) - np.asarray(f(r - h, E0, Emin, p))) / (2 * h)
    g = np.asarray((D.dE_drho_simp if c["scheme"] == "SIMP" else D.dE_drho_ramp)(r, E0, Emin, p))
    check(bool(np.all(np.abs(fd - g) <= 1e-4 * np.abs(g) + 1e-8 * E0)), "derivative is not the slope of the interpolation",
          got=g[:40].tolist(), fd=fd[:40].tolist())
    return dict(nontrivial=bool(np.any((rho > 1e-3) & (rho < 1)) and p != 1), tags=[c["scheme"]])


FACETS = [
    Facet("interpolation", case_s, run_interp, "some density strictly inside (0.001,1)", quick=600, thorough=20000, qsec=40),
    Facet("derivative", case_s, run_deriv, "some density strictly inside (0.001,1) and penalty != 1", quick=800,
          thorough=20000, qsec=40),
    Facet("long_interpolation", big_s, run_interp, "some density strictly inside (0.001,1)", quick=25, thorough=600, qsec=30),
    Facet("long_derivative", big_s, run_deriv, "some density strictly inside (0.001,1) and penalty != 1", quick=25, thorough=600, qsec=30),
]
ASSUMPTIONS = ["Densities below 1e-6 are outside the domain (the derivative is deliberately floored there)."]
