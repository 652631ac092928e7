"""C24: section timing accounts for all time exactly once."""
import re

from hypothesis import strategies as st

from .. import gen
from ..core import Facet, check

from sktopt.tools.timer import SectionTimer

NAMES = st.sampled_from(["a", "b", "c", "solve", "assemble", "x y", "A", "total", "0"])
SEPS = st.sampled_from([">", ">", "/", "::", " > ", "|", "->", "."])
T = st.integers(0, 60)
leaf = gen.one_of(st.tuples(st.just("wait"), T), st.tuples(st.just("add"), NAMES, T), st.tuples(st.just("reset"), gen.one_of(st.none(), st.integers(0, 9))),
                 st.tuples(st.just("read"))).map(list)
wait = st.tuples(st.just("wait"), T).map(list)
node = st.recursive(gen.one_of(wait, wait, wait, leaf), lambda ch: gen.one_of(
    st.tuples(st.sampled_from(["section", "section", "wrap"]), NAMES, st.lists(ch, max_size=4),
              st.sampled_from([None] * 6 + ["error", "error", "interrupt", "exit", "close", "stop"])).map(list),
    st.tuples(st.just("loop"), NAMES, st.sampled_from([2, 10, 33, 101, 300]), T).map(list),
    st.tuples(st.just("recurse"), NAMES, st.integers(1, 4), T).map(list),
    st.tuples(st.just("guard"), st.lists(ch, max_size=3)).map(list)), max_leaves=14)
# sections within sections
nest = st.tuples(st.sampled_from(["section", "section", "wrap"]), NAMES, st.lists(gen.one_of(node, st.tuples(
    st.sampled_from(["section", "wrap"]), NAMES, st.lists(node, max_size=3), st.sampled_from([None, None, None, "error", "interrupt", "close"])).map(list)),
    min_size=1, max_size=4), st.sampled_from([None, None, None, None, "error", "exit"])).map(list)
case_s = st.fixed_dictionaries(dict(hier=st.sampled_from([True, True, False]), sep=SEPS, t0=st.integers(0, 1000), unit=st.sampled_from([1.0, 0.25, 2.0 ** -20]),
                                    prog=st.lists(gen.one_of(node, nest, st.tuples(st.just("guard"), st.lists(nest, min_size=1, max_size=2)).map(list)), min_size=1, max_size=5),
                                    sort=st.sampled_from(["total", "avg", "max", "count", "name"]), desc=st.booleans()))


class Boom(BaseException):
    """What leaves a section early; the kinds differ in their base class only."""


class Err(Boom, Exception):
    pass


class Interrupt(Boom, KeyboardInterrupt):
    pass


class Exit(Boom, SystemExit):
    pass


class Close(Boom, GeneratorExit):
    pass


class Lookup(Boom, LookupError):
    pass


BOOMS = dict(error=Err, interrupt=Interrupt, exit=Exit, close=Close, stop=Lookup)


class Model:
    def __init__(self, c):
        self.t = c["t0"] * c["unit"]
        self.u = c["unit"]
        self.hier, self.sep = c["hier"], c["sep"]
        self.rec = {}
        self.order = []
        self.path = []

    def full(self, n):
        return self.sep.join(self.path + [n]) if self.hier else n

    def put(self, k, d):
        self.rec.setdefault(k, []).append(d)


def stats_of(m):
    return {k: (len(v), sum(v), sum(v) / len(v), max(v)) for k, v in m.rec.items()}


def self_of(m):
    s = stats_of(m)
    out = {}
    for k, (n, tot, _, _) in s.items():
        depth = k.count(m.sep)
        kids = sum(v[1] for q, v in s.items() if q.startswith(k + m.sep) and q.count(m.sep) == depth + 1)
        v = max(tot - kids, 0.0)
        out[k] = (n, v, v / n)
    return out


def verify(tm, m, c, what):
    want = stats_of(m)
    got = {s.name: (s.count, s.total, s.avg, s.max) for s in tm.stats()}
    check(set(got) == set(want) and len(tm.stats()) == len(want), f"{what}: recorded sections", got=sorted(got), want=sorted(want))
    for k in want:
        check(got[k][0] == want[k][0], f"{what}: count", section=k, got=got[k][0], want=want[k][0])
        for a, b, nm in zip(got[k][1:], want[k][1:], ("total", "average", "maximum")):
            check(abs(a - b) <= 1e-12 * max(abs(b), 1e-30), f"{what}: {nm}", section=k, got=a, want=b)
    key = dict(total=lambda s: s.total, avg=lambda s: s.avg, max=lambda s: s.max, count=lambda s: s.count, name=lambda s: s.name)[c["sort"]]
    for f, nm in ((tm.summary, "summary"), (tm.summary_self_time, "self-time summary")):
        l = f(sort_by=c["sort"], descending=c["desc"])
        ks = [key(s) for s in l]
        check(ks == sorted(ks, reverse=c["desc"]), f"{what}: order of the {nm}", got=ks, by=c["sort"], descending=c["desc"])
        check(sorted(s.name for s in l) == sorted(want), f"{what}: sections of the {nm}", got=sorted(s.name for s in l), want=sorted(want))
        d = f()
        check([s.total for s in d] == sorted((s.total for s in d), reverse=True), f"{what}: default order of the {nm}")
        try:
            f(sort_by="bogus")
            check(False, f"{what}: unknown sort key accepted")
        except ValueError:
            pass
    for s in tm.summary():
        check((s.count, s.total, s.avg, s.max) == got[s.name], f"{what}: summary values", section=s.name)
    sw = self_of(m)
    for s in tm.summary_self_time():
        n, tot, avg = sw[s.name]
        check(s.count == n, f"{what}: self-time count", section=s.name, got=s.count, want=n)
        check(s.total >= 0 and abs(s.total - tot) <= 1e-12 * max(want[s.name][1], 1e-30), f"{what}: self-time", section=s.name, got=s.total, want=tot)
        check(abs(s.avg - avg) <= 1e-12 * max(want[s.name][1], 1e-30), f"{what}: average self-time", section=s.name, got=s.avg, want=avg)

    class L:
        lines = []

        def info(self, x):
            L.lines.append(x)
    L.lines = []
    r = tm.report(sort_by=c["sort"], descending=c["desc"], logger_instance=L())
    check(r.split("\n") == L.lines, f"{what}: report lines differ from the returned report")
    if not want:
        return
    order = [s.name for s in tm.summary(sort_by=c["sort"], descending=c["desc"])]
    check(len(L.lines) == len(order), f"{what}: lines of the report", got=len(L.lines), want=len(order))
    for k, line in zip(order, L.lines):
        check(line.startswith(k + ":"), f"{what}: section of a report line", got=line, want=k)
        v = {a: float(b) for a, b in re.findall(r"(total|avg|max|count)=([-+.\deE]+)", line[len(k):])}
        for i, nm in enumerate(("count", "total", "avg", "max")):
            check(abs(v.get(nm, -1) - want[k][i]) <= 1e-6 + 1e-9 * abs(want[k][i]), f"{what}: {nm} in the report", line=line, want=want[k][i])


def run_prog(c):
    m = Model(c)
    tm = SectionTimer(clock=lambda: m.t, hierarchical=c["hier"], sep=c["sep"])
    tags = set()
    depth, raised = [0], []

    def body(items):
        for it in items:
            step(it)

    def timed(name, kind, inner, boom):
        full, t0 = m.full(name), m.t
        m.path.append(name)
        depth[0] = max(depth[0], len(m.path))
        e0 = BOOMS[boom](full) if boom else None

        def work():
            body(inner)
            if boom:
                tags.add("exception: " + boom)
                raised.append(e0)
                raise e0
        try:
            if kind == "section":
                with tm.section(name):
                    work()
            else:
                tags.add("decorated")

                @tm.wrap(name)
                def fn(x, *, y):
                    work()
                    return (x, y)
                r = fn(3, y="k")
                check(r == (3, "k"), "value of a decorated function", got=r)
        except Boom as e:
            check(e is raised[-1], "another exception leaves the section", got=e)
            m.path.pop()
            m.put(full, m.t - t0)
            raise
        m.path.pop()
        m.put(full, m.t - t0)
        check(not boom, "exception swallowed", section=full)

    def step(it):
        k = it[0]
        if k == "wait":
            m.t += it[1] * m.u
        elif k == "add":
            tm.add(it[1], it[2] * m.u)
            m.put(it[1], it[2] * m.u)
        elif k == "reset":
            if it[1] is None:
                tm.reset()
                m.rec.clear()
                tags.add("reset all")
            else:
                ks = sorted(m.rec) + ["never used"]
                q = ks[it[1] % len(ks)]
                tm.reset(q)
                m.rec.pop(q, None)
                tags.add("reset one")
        elif k == "read":
            verify(tm, m, c, "inside")
        elif k in ("section", "wrap"):
            timed(it[1], k, it[2], it[3])
        elif k == "loop":
            tags.add("loop")
            full = m.full(it[1])
            for i in range(it[2]):
                t0 = m.t
                with tm.section(it[1]):
                    m.t += (i * i % 7) * it[3] * m.u
                m.put(full, m.t - t0)
        elif k == "recurse":
            tags.add("recursion")

            @tm.wrap(it[1])
            def fn(n):
                m.t += it[3] * m.u
                return 1 if n <= 1 else 1 + fn(n - 1)
            fulls = [m.sep.join(m.path + [it[1]] * (i + 1)) if m.hier else it[1] for i in range(it[2])]
            check(fn(it[2]) == it[2], "value of a recursive decorated function")
            for i in reversed(range(it[2])):
                m.put(fulls[i], (it[2] - i) * it[3] * m.u)
        else:
            try:
                body(it[1])
            except Boom:
                tags.add("caught inside")

    try:
        body(c["prog"])
    except Boom:
        tags.add("left by exception")
    verify(tm, m, c, "at the end")
    t0 = m.t
    with tm.section("last"):
        m.t += 3 * m.u
    m.put("last", m.t - t0)
    verify(tm, m, c, "afterwards")
    tm.reset()
    check(tm.stats() == [] and tm.summary() == [] and tm.summary_self_time() == [], "reset leaves records")
    return dict(nontrivial=depth[0] >= 2 and len(m.rec) > 2, tags=sorted(tags) + ["hierarchical" if c["hier"] else "flat"])


FACETS = [Facet("program", case_s, run_prog, "nested sections and at least two names", quick=500, thorough=30000, qsec=40, tsec=300, shards=2, tshards=8)]
ASSUMPTIONS = ["section names do not contain the separator", "the clock is a generated one; times are exact multiples of a power of two"]
