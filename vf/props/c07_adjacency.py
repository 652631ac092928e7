"""C07: node-to-element and adjacency queries over histories of meshes, against set computations."""
import numpy as np
from hypothesis import strategies as st

import skfem
from .. import gen
from ..core import Facet, check

from sktopt.fea import composer
from sktopt.mesh import utils

mesh_s = gen.mesh_s(maxel=36)
mid_s = gen.one_of(mesh_s, mesh_s, gen.mesh_s(minn=2, maxn=6, maxel=160))
op_s = gen.one_of(
    st.fixed_dictionaries(dict(op=st.just("new"), mesh=mesh_s, slot=st.integers(0, 2))),
    st.fixed_dictionaries(dict(op=st.just("drop"), slot=st.integers(0, 2))),
    st.fixed_dictionaries(dict(op=st.just("renumber"), slot=st.integers(0, 2), seed=st.integers(0, 9))),
    st.fixed_dictionaries(dict(op=st.just("nodes"), slot=st.integers(0, 2), sets=st.lists(
        st.lists(st.integers(0, 20000), max_size=8), min_size=1, max_size=3), form=st.sampled_from(["array", "list"]))),
    st.fixed_dictionaries(dict(op=st.just("nodes"), slot=st.integers(0, 2), sets=st.lists(
        st.lists(st.integers(0, 20000), min_size=1, max_size=4), min_size=1, max_size=3), form=st.sampled_from(["array", "list"]))))
big_op_s = st.builds(lambda o, k: dict(o, many=k) if o["op"] == "nodes" else o, op_s, st.sampled_from([0, 30, 300, 1500]))
case_s = st.fixed_dictionaries(dict(first=mesh_s, ops=st.lists(op_s, min_size=2, max_size=14)))


def make(spec):
    return gen.build_mesh(spec).mesh


def run(c):
    slots = {0: make(c["first"])}
    queries = after_change = 0
    changed = False
    tags = set()
    for op in c["ops"]:
        s = op["slot"]
        if op["op"] == "new":
            slots[s] = None
            slots[s] = make(op["mesh"])
            changed = True
        elif op["op"] == "drop":
            slots.pop(s, None)
            changed = True
        elif op["op"] == "renumber":
            m = slots.get(s)
            if m is None:
                continue
            o = np.random.RandomState(op["seed"]).permutation(m.t.shape[1])
            m.t[:] = m.t[:, o].copy()          # same mesh object, elements renumbered in place
            changed = True
        else:
            m = slots.get(s) or slots.get(0)
            if m is None:
                slots[0] = m = make(c["first"])
            n = m.p.shape[1]
            sets = [np.array([k % n for k in ks], dtype=int) for ks in op["sets"]]
            if op.get("many"):                       # whole regions: several hundred nodes
                sets = [np.concatenate([s, (np.arange(op["many"]) * 7 + len(s)) % n]) for s in sets]
            if op["form"] == "array":
                arg = np.concatenate(sets)
                keep = arg.copy()
            else:
                arg, keep = sets, [x.copy() for x in sets]
            t0 = m.t.copy()
            got = np.asarray(utils.get_elements_by_nodes(m, arg))
            want = gen.elems_touching(m, np.concatenate(sets))
            check(got.shape == want.shape and np.array_equal(got, want), "elements by nodes are not those of the queried mesh",
                  got=got.tolist()[:20], want=want.tolist()[:20], history=[o["op"] for o in c["ops"]])
            same = np.array_equal(arg, keep) if op["form"] == "array" else all(np.array_equal(a, k) for a, k in zip(arg, keep))
            check(same and np.array_equal(m.t, t0), "the query modified its arguments")
            queries += len(want) > 0
            after_change += changed and len(want) > 0
            tags.add(op["form"])
    return dict(nontrivial=queries > 0, tags=sorted(tags) + (["query-after-change"] if after_change else []))


edit_s = st.fixed_dictionaries(dict(how=st.sampled_from(["elements", "elements", "nodes", "all"]), a=st.integers(0, 5000), b=st.integers(0, 40), place=st.booleans()))
adj_s = st.fixed_dictionaries(dict(mesh=mid_s, edits=gen.one_of(st.just([]), st.lists(edit_s, min_size=1, max_size=3)), sub=st.lists(st.integers(0, 5000), min_size=1, max_size=6)))


def run_adj(c):
    m = make(c["mesh"])
    r = None
    for k, ed in enumerate([None] + c.get("edits", [])):
        if ed is not None:
            # the same mesh but for the numbering: two elements swapped, two nodes swapped, or a whole reordering
            ne, nn = m.t.shape[1], m.p.shape[1]
            p, t = m.p.copy(), m.t.copy()
            if ed["how"] == "elements":
                a, b = (ne // 2 + ed["a"]) % ne, (ne // 2 + ed["b"]) % ne
                t[:, [a, b]] = t[:, [b, a]]
            elif ed["how"] == "nodes":
                a, b = ed["a"] % nn, ed["b"] % nn
                o = np.arange(nn)
                o[[a, b]] = o[[b, a]]
                p, t = p[:, o], o[t]
            else:
                o = np.random.RandomState(ed["a"]).permutation(ne)
                t = t[:, o]
            if ed["place"]:
                m.t[:], m.p[:] = t, p
            else:
                m = type(m)(p, t)
        r1 = one_adj(m, c)
        r = r or r1
    if c.get("edits"):
        r["tags"].append("renumbered")
    return r


def one_adj(m, c):
    ne = m.t.shape[1]
    nodes = [set(int(v) for v in m.t[:, e]) for e in range(ne)]
    inc = np.zeros((ne, m.p.shape[1]), np.float32)
    for e in range(ne):
        inc[e, m.t[:, e]] = 1
    want = inc @ inc.T > 0
    np.fill_diagonal(want, False)
    slow = utils.build_element_adjacency_matrix(m)
    fast = utils.build_element_adjacency_matrix_fast(m)
    for name, A in (("slow", slow), ("fast", fast)):
        check(A.shape == (ne, ne), f"{name} adjacency has another shape")
        D = np.asarray(A.todense()) != 0
        np.fill_diagonal(D, False)
        check(np.array_equal(D, want), f"{name} adjacency is not 'shares a node'", diff=np.argwhere(D != want).tolist()[:5])
    sub = sorted({k % ne for k in c["sub"]})
    out = [int(j) for j in np.flatnonzero(want[sub].any(axis=0)) if j not in sub]
    for form in (sub, np.array(sub)):
        check([int(v) for v in utils.get_adjacent_elements(m, form)] == out, "neighbours of a set of elements")
        for A in (fast, slow):
            check(np.asarray(utils.get_adjacent_elements_fast(A, form)).tolist() == out, "neighbours of a set of elements (fast)")
    if isinstance(m, skfem.MeshTet):
        got = composer.adjacency_matrix(m)
        face = [[int(j) for j in np.flatnonzero(want[i]) if len(nodes[i] & nodes[j]) == 3] for i in range(ne)]
        check([sorted(int(v) for v in a) for a in got] == face, "face adjacency of tetrahedra")
    return dict(nontrivial=bool(want.any() and not want.all() and out), tags=[c["mesh"]["kind"]])


FACETS = [
    Facet("history", case_s, run, "some query has a non-empty answer", quick=300, thorough=8000, qsec=60, shards=2),
    Facet("adjacency", adj_s, run_adj, "some elements are adjacent and the queried set has outside neighbours", quick=250, thorough=5000, qsec=60),
    Facet("large_history", st.fixed_dictionaries(dict(first=gen.big_mesh_s((1100, 4200, 9000)), ops=st.lists(big_op_s, min_size=2, max_size=14))), run, "some query has a non-empty answer",
          quick=12, thorough=200, qsec=60),
    Facet("large_adjacency", st.builds(lambda c, m: dict(c, mesh=m), adj_s, gen.big_mesh_s((600, 1300))), run_adj,
          "some elements are adjacent and the queried set has outside neighbours", quick=3, thorough=40, qsec=60),
]
