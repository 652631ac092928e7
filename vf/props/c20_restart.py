"""C20: interrupted runs resume from their checkpoints."""
import io
import json
import os
import random
import re
import signal
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs
from ..core import Discard, Facet, check, close, scratch
from .c19_pieces import any_cfg, cfg_s, mesh_s

from sktopt.core import misc

B = st.booleans()
problem_s = runs.problem_s(mesh=mesh_s)
JUNK = ["%06d-rho.npz.tmp", "%06d-rho.npz~", "x%06d-rho.npz", "%06d-rho.npy", "%06d_rho.npz", "%06d-rho.npz.bak", "%05d-rho.npz",
        "%06d-rho-npz", "a-%06d-rho.npz", "%06d-rho", "%06d-rho2.npz", "%06dx-rho.npz", ".%06d-rho.npz", "%06d-rho.npz.part", "-%06d-rho.npz",
        "%06d-rhoXnpz"]
junk_s = st.lists(st.tuples(st.integers(0, len(JUNK) - 1), st.sampled_from([0, 1, 3, 50, 999, 99999])).map(list), max_size=4)
NAMES = gen.one_of(st.integers(0, 9), st.integers(0, 120), st.integers(0, 10 ** 8), st.sampled_from([999999, 1000000, 1000001, 9, 10, 99, 100, 123456]))

const_cfg = st.sampled_from(["oc", "logmoc"]).flatmap(lambda o: cfg_s(
    o, (2, 7), p=runs.sched_s(1.0, 4.0, ("const",)), vol_frac=runs.sched_s(0.2, 0.9, ("const",)), beta=runs.sched_s(0.1, 8.0, ("const",)),
    move_limit=runs.sched_s(0.02, 0.5, ("const",)), eta=runs.sched_s(0.2, 1.0, ("const", "plain")),
    percentile=gen.one_of(st.just(["none"]), runs.sched_s(50, 100, ("const",), 1)), filter_radius=runs.sched_s(0.15, 1.5, ("const",), 2),
    neumann_scale=st.just(["one"])))

stop_s = gen.one_of(st.tuples(st.sampled_from(["steps", "before", "after", "write", "write"]), st.integers(1, 6)),
                   st.tuples(st.just("none"), st.just(0))).map(list)
resume_s = dict(choose=gen.one_of(st.just(-1), st.integers(0, 5)), auto=st.sampled_from([-1, -1, 0]), junk=junk_s, listing=st.integers(0, 99),
                used=st.sampled_from([0, 0, 1, 3]), pieces=st.lists(st.integers(1, 3), max_size=2), scaling=st.sampled_from([False, False, True]))
restart_s = st.fixed_dictionaries(dict(pr=problem_s, cfg=any_cfg, stop=stop_s, **resume_s))
budget_s = st.fixed_dictionaries(dict(pr=problem_s, cfg=const_cfg, short=st.integers(1, 5), **resume_s))
files_s = st.fixed_dictionaries(dict(good=st.lists(NAMES, max_size=6), junk=st.lists(st.tuples(st.integers(0, len(JUNK) - 1), NAMES).map(list), max_size=6),
                                     listing=st.integers(0, 999)))
long_s = st.fixed_dictionaries(dict(pr=runs.problem_s(mesh=runs.tiny_mesh), cfg=runs.long_s(any_cfg, (11, 30)), **resume_s, stop=gen.one_of(
    st.tuples(st.sampled_from(["steps", "before", "after"]), st.integers(7, 29)), st.tuples(st.just("write"), st.integers(2, 12))).map(list)))
kill_s = st.fixed_dictionaries(dict(pr=problem_s, cfg=cfg_s("oc", (3, 6)) | cfg_s("logmoc", (3, 6)), at=st.integers(2, 6), choose=gen.one_of(st.just(-1), st.integers(0, 5))))


class shuffled:
    """os.listdir in another order (the order is unspecified)."""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.f = os.listdir

        def ls(*a, **k):
            r = sorted(self.f(*a, **k))
            random.Random(self.seed).shuffle(r)
            return r
        os.listdir = ls

    def __exit__(self, *a):
        os.listdir = self.f


class dying_write:
    """The n-th checkpoint write is cut off half way by an interrupt."""

    def __init__(self, n):
        self.n, self.seen = n, 0

    def __enter__(self):
        self.f = np.savez_compressed

        def save(file, *a, **k):
            self.seen += 1
            if self.seen != self.n:
                return self.f(file, *a, **k)
            buf = io.BytesIO()
            self.f(buf, *a, **k)
            half = buf.getvalue()[:len(buf.getvalue()) // 2]
            if hasattr(file, "write"):
                file.write(half)
                file.flush()
            else:
                file = os.fspath(file)
                with open(file if file.endswith(".npz") else file + ".npz", "wb") as h:
                    h.write(half)
            raise KeyboardInterrupt()
        np.savez_compressed = save
        return self

    def __exit__(self, *a):
        np.savez_compressed = self.f


def start(pr, cc, dst, **over):
    t = runs.make_problem(pr, cc["design_dirichlet"])[1]
    return runs.make_optimizer(cc, t, dst, **over)


def found(dst):
    """Checkpoints by iteration (by the documented file name)."""
    d = os.path.join(dst, "data")
    out = {}
    for f in os.listdir(d) if os.path.isdir(d) else ():
        m = re.fullmatch(r"(\d{6,})-rho\.npz", f)
        if m:
            with np.load(os.path.join(d, f)) as z:
                out[int(m.group(1))] = np.array(z["rho_design_elements"], float)
    return out


def litter(dst, junk, seed):
    r = np.random.RandomState(seed)
    for k, n in junk:
        f = os.path.join(dst, "data", JUNK[k] % n)
        with open(f, "wb") as h:
            h.write(r.bytes(40))


def npz(path):
    with np.load(path, allow_pickle=True) as z:
        return {k: np.array(z[k]) for k in z.files if not k.endswith("_header")}


def design_after(a, t, k):
    """Design of the uninterrupted run after iteration k (what iteration k+1 starts from)."""
    return a.vf_steps[k].rho0 if k < len(a.vf_steps) else None


def interrupt(z, stop):
    """Runs z until it is interrupted. Returns the last completed iteration or None when it finished."""
    kind, k = stop
    if kind == "steps":
        runs.run(z, k)
        return None
    if kind == "none":
        runs.run(z)
        return None

    def boom(s, *_):
        it = s if isinstance(s, int) else s.iter
        if it == k:
            raise KeyboardInterrupt()
    try:
        if kind == "before":
            z.vf_pre = boom
            runs.run(z)
        elif kind == "after":
            z.vf_hook = boom
            runs.run(z)
        else:
            with dying_write(k):
                runs.run(z)
    except KeyboardInterrupt:
        return kind
    return None


def resumed(c, dst, ck, ref, N, what, hist_before, over):
    """Resumes the run in dst; ck: its checkpoints. Returns the resumed optimizer."""
    pr, cc = c["pr"], c["cfg"]
    its = sorted(ck)
    if not its:
        raised = False
        try:
            with shuffled(c["listing"]):
                o = start(pr, cc, dst, restart=True, restart_from=c["auto"], **over)
                runs.run(o)
        except Exception:
            raised = True
        check(raised, f"{what}: restart without any checkpoint goes on silently")
        return None
    choice = None if c["choose"] < 0 else its[c["choose"] % len(its)]
    k = its[-1] if choice is None else choice
    o = start(pr, cc, dst, restart=True, restart_from=c["auto"] if choice is None else choice, **over)
    with shuffled(c["listing"]):
        for p in c["pieces"]:
            runs.run(o, p)
        runs.run(o)
    steps = o.vf_steps or []
    check([s.iter for s in steps] == list(range(k + 1, N + 1)), f"{what}: iterations of the resumed run",
          got=[s.iter for s in steps], checkpoint=k, budget=N, checkpoints=its)
    if steps:
        check(np.array_equal(steps[0].rho0, ck[k]), f"{what}: the resumed run does not start from the checkpointed design", checkpoint=k,
              max_diff=float(np.abs(steps[0].rho0 - ck[k]).max()))
        s = ref.vf_steps[k]
        close(steps[0].rho0, s.rho0, f"{what}: design at the resumed iteration", rtol=1e-8, iteration=k + 1)
        close(steps[0].proj, s.proj, f"{what}: projected design at the resumed iteration", rtol=1e-7, iteration=k + 1)
        close(steps[0].dC, s.dC, f"{what}: sensitivity at the resumed iteration", rtol=1e-5, iteration=k + 1)
    n0 = None
    names = [h for h in ref.recorder.histories if ref.recorder.histories[h].exists()]
    for h in names:
        check(h in o.recorder.histories, f"{what}: history lost on restart", history=h)
        got = runs.history(o, h)
        old = hist_before.get(h, np.zeros(0))
        old = old.T.tolist() if old.ndim == 2 else old.tolist()
        n0 = len(old)
        check(len(got) == n0 + len(steps), f"{what}: number of records", history=h, got=len(got), before=n0, resumed=len(steps))
        if n0:
            check(np.array_equal(np.array(got[:n0], float), np.array(old, float), equal_nan=True), f"{what}: exported history not kept", history=h)
    if steps:
        for h in (o._objective_history_name(o.tsk) if hasattr(o, "_objective_history_name") else "compliance", "neumann_scale"):
            a, b = runs.history(o, h)[n0], runs.history(ref, h)[k]
            if np.isfinite(b):
                check(abs(a - b) <= 1e-6 * abs(b) + 1e-300, f"{what}: recorded {h} at the resumed iteration", got=a, want=b, iteration=k + 1)
    f = os.path.join(dst, "histories.npz")
    check(os.path.exists(f), f"{what}: histories not exported at the end")
    fin = npz(f)
    for h in names:
        check(h in fin, f"{what}: history missing in the exported file", history=h)
        v = np.array(runs.history(o, h), float)
        check(np.array_equal(fin[h].T if fin[h].ndim == 2 else fin[h], v, equal_nan=True), f"{what}: exported history differs", history=h)
    ck2 = found(dst)
    check(N in ck2 and set(ck) <= set(ck2), f"{what}: checkpoints of the resumed run", got=sorted(ck2))
    for it in ck:
        if it <= k:
            check(np.array_equal(ck[it], ck2[it]), f"{what}: an earlier checkpoint changed", iteration=it)
    return o


def compare_checkpoints(ck, a, what):
    for it, rho in ck.items():
        d = design_after(a, None, it)
        if d is not None:
            close(rho, d, f"{what}: checkpoint is not the design after its iteration", rtol=1e-8, iteration=it)


def run_restart(c):
    pr, cc, N = c["pr"], c["cfg"], c["cfg"]["max_iters"]
    over = dict(scaling=True) if c["scaling"] else {}
    a = start(pr, cc, scratch("full"), **over)
    runs.run(a)
    full = found(a.cfg.dst_path)
    its = sorted(full)
    check(1 in full and N in full, "first and last iteration are checkpointed", got=its)
    step = -(-N // cc["record_times"])
    check(all(y - x <= max(step, 1) for x, y in zip(its, its[1:])), "checkpoints are further apart than the snapshot setting asks",
          got=its, record_times=cc["record_times"], max_iters=N)
    compare_checkpoints(full, a, "full run")
    dst = scratch("run")
    if c["used"]:
        w = start(pr, dict(cc, max_iters=N + c["used"]), dst, **over)
        runs.run(w)
    z = start(pr, cc, dst, **over)
    how = interrupt(z, c["stop"])
    litter(dst, c["junk"], c["listing"])
    ck = found(dst)
    kind, k = c["stop"]
    if kind == "steps":
        check(min(k, N) in ck, "a partial run does not leave a checkpoint of its last iteration", got=sorted(ck), want=min(k, N))
        want = {i for i in full if i <= k} | {min(k, N)}
        check(set(ck) == want, "checkpoints after a partial run", got=sorted(ck), want=sorted(want))
    elif how in ("before", "after"):
        check(sorted(ck) == [i for i in its if i < k], "checkpoints after an interruption", got=sorted(ck), want=[i for i in its if i < k], at=k)
    elif how == "write":
        check(sorted(ck) == its[:k - 1], "checkpoints after an interrupted write", got=sorted(ck), want=its[:k - 1])
    else:
        check(sorted(ck) == its, "checkpoints of a repeated run", got=sorted(ck), want=its)
    compare_checkpoints(ck, a, "interrupted run")
    f = os.path.join(dst, "histories.npz")
    done = how is None and (kind != "steps" or k >= N)
    check(os.path.exists(f) == done, "exported histories of an interrupted run", exists=os.path.exists(f), finished=done)
    o = resumed(c, dst, ck, a, N, "restart", npz(f) if done else {}, over)
    n = len(o.vf_steps or []) if o is not None else 0
    return dict(nontrivial=n > 0 and len(ck) > 0 and float(np.ptp(a.vf_steps[-1].rho0)) + float(np.abs(a.vf_steps[-1].rho0 - a.vf_steps[0].rho0).max()) > 1e-6,
                tags=[pr["kind"], cc["opt"], "stop " + kind, "latest" if c["choose"] < 0 else "chosen", "stray files" if c["junk"] else "no stray files",
                      "used folder" if c["used"] else "new folder", "scaled" if c["scaling"] else "unscaled",
                      "no checkpoint" if not ck else "resumed" if n else "complete"])


def run_budget(c):
    pr, cc = c["pr"], c["cfg"]
    S = c["short"]
    N = max(cc["max_iters"], S)
    cc = dict(cc, max_iters=N)
    over = dict(scaling=True) if c["scaling"] else {}
    a = start(pr, cc, scratch("full"), **over)
    runs.run(a)
    dst = scratch("run")
    z = start(pr, dict(cc, max_iters=S), dst, **over)
    runs.run(z)
    litter(dst, c["junk"], c["listing"])
    ck = found(dst)
    compare_checkpoints(ck, a, "shorter run")
    hist = npz(os.path.join(dst, "histories.npz"))
    o = resumed(dict(c, cfg=cc), dst, ck, a, N, "larger budget", hist, over)
    n = len(o.vf_steps or [])
    return dict(nontrivial=N > S and n > 0, tags=[pr["kind"], cc["opt"], "latest" if c["choose"] < 0 else "chosen",
                                                 "larger budget" if N > S else "same budget"])


def run_files(c):
    d = scratch("data")
    for n in c["good"]:
        open(os.path.join(d, f"{str(n).zfill(6)}-rho.npz"), "wb").close()
    for k, n in c["junk"]:
        f = JUNK[k] % n
        if not re.fullmatch(r"\d{6,}-rho\.npz", f):
            open(os.path.join(d, f), "wb").close()
    want = max(c["good"], default=None)
    with shuffled(c["listing"]):
        try:
            it, path = misc.find_latest_iter_file(d)
        except Exception:
            check(want is None, "latest checkpoint not found", want=want)
            return dict(nontrivial=False, tags=["none"])
    if want is None:
        check(path is None, "a checkpoint is reported in a folder without one", got=path, files=sorted(os.listdir(d)))
        return dict(nontrivial=bool(c["junk"]), tags=["none"])
    check(it == want and os.path.abspath(path) == os.path.join(os.path.abspath(d), f"{str(want).zfill(6)}-rho.npz"), "latest checkpoint",
          got=(it, path), want=want, files=sorted(os.listdir(d)))
    return dict(nontrivial=len(set(c["good"])) > 1 or bool(c["junk"]), tags=["found"])


def child(c, dst, out, **kw):
    """A run in a process of its own."""
    code = "import sys; sys.path.insert(0, sys.argv[1]); from vf import boot; boot.setup(); from vf.props import c20_restart as m; m.child_main(sys.argv[2])"
    arg = json.dumps(dict(pr=c["pr"], cfg=c["cfg"], dst=dst, out=out, **kw))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    return subprocess.run([sys.executable, "-c", code, root, arg], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)


def child_main(arg):
    a = json.loads(arg)
    over = {} if a.get("restart") is None else dict(restart=True, restart_from=a["restart"])
    o = start(a["pr"], a["cfg"], a["dst"], **over)
    if a.get("kill"):
        def die(s):
            if s.iter == a["kill"]:
                os.kill(os.getpid(), signal.SIGKILL)
        o.vf_hook = die
    runs.run(o)
    np.savez(a["out"], its=[s.iter for s in o.vf_steps or []], rho0=np.array([s.rho0 for s in o.vf_steps or []]),
             proj=np.array([s.proj for s in o.vf_steps or []]))


def run_kill(c):
    pr, cc, N = c["pr"], c["cfg"], c["cfg"]["max_iters"]
    a = start(pr, cc, scratch("full"))
    runs.run(a)
    at = 2 + (c["at"] - 2) % (N - 1)
    dst, out = scratch("run"), os.path.join(scratch("out"), "o.npz")
    r = child(c, dst, out, kill=at)
    check(r.returncode == -signal.SIGKILL, "the killed process ended otherwise", rc=r.returncode, err=r.stderr[-300:])
    ck = found(dst)
    want = [i for i in sorted(found(a.cfg.dst_path)) if i < at]
    check(sorted(ck) == want, "checkpoints of a killed process", got=sorted(ck), want=want, at=at)
    compare_checkpoints(ck, a, "killed process")
    its = sorted(ck)
    k = its[-1] if c["choose"] < 0 else its[c["choose"] % len(its)]
    r = child(c, dst, out, restart=-1 if c["choose"] < 0 else k)
    check(r.returncode == 0, "the resuming process failed", rc=r.returncode, err=r.stderr[-600:])
    with np.load(out) as z:
        check(z["its"].tolist() == list(range(k + 1, N + 1)), "iterations of the resuming process", got=z["its"].tolist(), checkpoint=k)
        check(np.array_equal(z["rho0"][0], ck[k]), "the resuming process does not start from the checkpointed design", checkpoint=k)
        close(z["proj"][0], a.vf_steps[k].proj, "projected design in the resuming process", rtol=1e-7)
    return dict(nontrivial=True, tags=[pr["kind"], cc["opt"], "latest" if c["choose"] < 0 else "chosen"])


FACETS = [
    Facet("restart", restart_s, run_restart, "at least one iteration resumed from a checkpoint of a changing design", quick=120, thorough=4000, qsec=60,
          tsec=700, shards=4, tshards=8),
    Facet("long", long_s, run_restart, "at least one iteration resumed from a checkpoint of a changing design", quick=16, thorough=400, qsec=60,
          tsec=700, shards=2, tshards=6),
    Facet("larger-budget", budget_s, run_budget, "a completed run continued to a larger budget", quick=50, thorough=1500, qsec=40, tsec=400,
          shards=2, tshards=8),
    Facet("latest", files_s, run_files, "several checkpoints or stray files", quick=300, thorough=20000, qsec=20, tsec=200),
    Facet("killed", kill_s, run_kill, "process killed after its first checkpoint", quick=4, thorough=160, qsec=60, tsec=500, shards=2, tshards=4),
]
ASSUMPTIONS = ["the uninterrupted run is compared at the resumed iteration only: multipliers and running averages of the update are not part of a checkpoint",
               "sensitivities at the resumed iteration are compared to 1e-5 relative, densities to 1e-8"]
