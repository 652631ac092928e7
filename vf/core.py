"""Facets, violations and the generated-input search loop (hypothesis)."""
import contextlib
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import boot


class Violation(Exception):
    """The code under test broke the property on this case."""


class Discard(Exception):
    """The case does not satisfy the facet's precondition (counted, not evaluated)."""


class _StopSearch(BaseException):
    pass


class _CaseTimeout(BaseException):
    pass


def check(cond, msg, **data):
    if not cond:
        if data:
            msg += " | " + ", ".join(f"{k}={_short(v)}" for k, v in data.items())
        raise Violation(msg)


def _short(v, n=300):
    try:
        s = repr(v)
    except Exception:
        s = "<unprintable>"
    return s if len(s) <= n else s[:n] + "..."


def close(a, b, msg, rtol=1e-9, atol=0.0, **data):
    """|a-b| <= atol + rtol*max(|b|_inf): norm-wise comparison, shape-checked, NaN fails."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    check(a.shape == b.shape, msg + " (shape)", got=a.shape, expected=b.shape, **data)
    if a.size == 0:
        return
    scale = float(np.max(np.abs(b)))
    err = np.abs(a - b)
    bad = ~(err <= atol + rtol * scale)
    if bad.any():
        i = int(np.flatnonzero(bad.ravel())[np.argmax(np.nan_to_num(err.ravel()[bad.ravel()], nan=np.inf))])
        check(False, msg, index=i, got=float(a.ravel()[i]), expected=float(b.ravel()[i]),
              max_err=float(np.nanmax(err)) if np.isfinite(err).any() else "nan", scale=scale, **data)


class Facet:
    """One executable statement of (part of) a property.

    strategy: hypothesis strategy producing a JSON-able case.
    run(case) -> dict(nontrivial=bool, tags=[...]) or raises Violation / Discard.
    quick / thorough: number of generated cases; budgets in seconds bound them.
    """

    def __init__(self, name, strategy, run, rule, quick=100, thorough=2000, qsec=45, tsec=600,
                 shards=1, tshards=None, examples=(), case_timeout=150):
        self.name, self.strategy, self.run, self.rule = name, strategy, run, rule
        self.quick, self.thorough, self.qsec, self.tsec = quick, thorough, qsec, tsec
        self.shards, self.tshards = shards, tshards or max(shards, 2)
        self.examples = list(examples)
        self.case_timeout = case_timeout


SUT_DIR = os.path.join(boot.PKG_ROOT, "sktopt") + os.sep


def exception_is_sut(exc):
    """True when the exception passed through a frame of the code under test."""
    e = exc
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if type(e).__module__.startswith("numba"):
            return True                 # the harness compiles nothing itself
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.abspath(fr.filename).startswith(SUT_DIR):
                return True
        e = e.__cause__ or e.__context__
    return False


def last_sut_frame(exc):
    out = "?"
    for fr in traceback.extract_tb(exc.__traceback__):
        if os.path.abspath(fr.filename).startswith(SUT_DIR):
            out = f"{os.path.relpath(fr.filename, boot.PKG_ROOT)}:{fr.lineno}"
    return out


_SCRATCH = None


def scratch(prefix="case"):
    """A fresh directory under this worker's private scratch root (removed after the case)."""
    return tempfile.mkdtemp(prefix=prefix + "_", dir=_SCRATCH)


@contextlib.contextmanager
def case_env():
    """Private scratch + cwd for one case; removed afterwards."""
    global _SCRATCH
    old, cwd = _SCRATCH, os.getcwd()
    root = tempfile.mkdtemp(prefix="vf_case_")
    _SCRATCH = root
    os.chdir(root)
    env = os.environ.get("SCITOPT_SENSITIVITY_MODE")
    try:
        yield root
    finally:
        os.chdir(cwd)
        _SCRATCH = old
        shutil.rmtree(root, ignore_errors=True)
        if env is None:
            os.environ.pop("SCITOPT_SENSITIVITY_MODE", None)
        else:
            os.environ["SCITOPT_SENSITIVITY_MODE"] = env


def evaluate(facet, case):
    """Runs one case. Returns ("ok", info) | ("discard", None) | ("violation", message).

    Harness errors propagate.
    """
    case = json.loads(json.dumps(case))          # what is replayed is what is run

    def _alarm(*_):
        raise _CaseTimeout()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(facet.case_timeout)
    try:
        with case_env():
            try:
                info = facet.run(case) or {}
                return "ok", info
            except Discard:
                return "discard", None
            except Violation as v:
                return "violation", str(v)
            except _CaseTimeout as e:
                if exception_is_sut(e):
                    return "violation", f"no result within {facet.case_timeout} s (in {last_sut_frame(e)})"
                raise RuntimeError("case timed out outside the code under test")
            except Exception as e:
                if exception_is_sut(e):
                    return "violation", (f"unexpected {type(e).__name__}: {str(e)[:300]} "
                                         f"(in {last_sut_frame(e)})")
                raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def search(facet, seed, max_examples, budget_s, known=(), shrink_s=100):
    """Generates cases; returns a result dict (JSON-able)."""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    t0 = time.time()
    st = dict(facet=facet.name, evaluations=0, discarded=0, keys=set(), samples=[], tags={},
              failure=None, known_hits=[], stopped="examples")
    fail = {"case": None, "msg": None, "t": None}

    def one(case):
        now = time.time()
        if fail["t"] is not None and now - fail["t"] > shrink_s:
            raise _StopSearch()
        if fail["t"] is None and now - t0 > budget_s:
            st["stopped"] = "time"
            raise _StopSearch()
        verdict, info = evaluate(facet, case)
        if verdict == "discard":
            st["discarded"] += 1
            return
        if fail["t"] is None:
            st["evaluations"] += 1
        if verdict == "violation":
            if case in known:
                st["known_hits"].append(case)
                return
            if fail["t"] is None:
                fail["t"] = time.time()
            fail["case"], fail["msg"] = json.loads(json.dumps(case)), info
            raise Violation(info)
        if fail["t"] is None:
            for tg in info.get("tags", ()):
                st["tags"][tg] = st["tags"].get(tg, 0) + 1
            if info.get("nontrivial", True):
                k = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
                if k not in st["keys"]:
                    st["keys"].add(k)
                    if len(st["samples"]) < 2:
                        st["samples"].append(case)

    for ex in facet.examples:
        if fail["case"] is None:
            try:
                one(ex)
            except Violation:
                pass
            except _StopSearch:
                break
    if fail["case"] is None:
        test = settings(max_examples=max_examples, database=None, deadline=None, print_blob=False,
                        phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck))(given(facet.strategy)(one))
        test = hseed(seed)(test)
        try:
            test()
        except _StopSearch:
            pass
        except Violation:
            pass
        except Exception as e:
            if fail["case"] is None:
                raise
            # e.g. hypothesis' Flaky: keep the recorded counterexample only if it still fails
            del e
        if fail["case"] is not None:
            verdict, msg = evaluate(facet, fail["case"])
            if verdict != "violation":
                # a failure that does not repeat in this process: replay in isolation decides
                st["unrepeatable"] = fail["msg"]
    if fail["case"] is not None:
        st["failure"] = dict(case=fail["case"], message=fail["msg"])
    st["keys"] = sorted(st["keys"])
    st["wall_s"] = time.time() - t0
    return st


class Quiet:
    """Sends the process' stdout/stderr (file descriptors) to /dev/null."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.so, self.se = os.dup(1), os.dup(2)
        self.dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self.dn, 1)
        os.dup2(self.dn, 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.so, 1)
        os.dup2(self.se, 2)
        for fd in (self.so, self.se, self.dn):
            os.close(fd)
