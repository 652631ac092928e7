"""C08: problem definitions against set computations on the mesh."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, Violation, check, exception_is_sut

from sktopt.mesh import LinearElasticity, LinearHeatConduction

el_s = gen.elastic_s(maxdir=3, full_support=False, mesh=gen.mesh_s(maxel=48))
he_s = gen.heat_s(mesh=gen.mesh_s(maxel=48))


def eq(a, b, what, **kw):
    a, b = np.sort(np.asarray(a).ravel()), np.sort(np.asarray(b).ravel())
    check(a.shape == b.shape and bool(np.all(a == b)), what, got=a.tolist()[:30], want=b.tolist()[:30], **kw)


def sup_dofs_elastic(b, c, basis):
    out = []
    for s in c["sup"]:
        n = gen.nodes_of(b.mesh, gen.facets_of(b, s["reg"]))
        comps = range(3) if s["dir"] == "all" else [int(s["dir"][2]) - 1]
        out += [basis.nodal_dofs[k, n] for k in comps]
    return np.unique(np.concatenate(out))


def flat(x):
    return np.concatenate([np.asarray(v).ravel() for v in x]) if isinstance(x, list) else np.asarray(x)


def common(b, tsk, design, sup_el, loaded=None):
    ne = b.ne
    eq(tsk.all_elements, np.arange(ne), "all_elements")
    eq(tsk.design_elements, design, "designable elements")
    eq(tsk.fixed_elements, np.setdiff1d(np.arange(ne), design), "fixed elements are not the complement of the designable ones")
    m = np.zeros(ne, bool)
    m[design] = True
    check(np.array_equal(np.asarray(tsk.design_mask), m), "design mask")
    eq(np.unique(tsk.dirichlet_elements), sup_el, "supported elements")
    dn = sup_el if loaded is None else np.union1d(sup_el, loaded)
    eq(np.unique(tsk.dirichlet_neumann_elements), dn, "supported-or-loaded elements")


def exclude(b, tsk, design, sup_el):
    """Supports made non-designable: only the partition changes."""
    left = np.setdiff1d(design, sup_el)
    with gen.hush():
        tsk.exlude_dirichlet_from_design()
    eq(tsk.design_elements, left, "designable elements after excluding the supports")
    eq(tsk.fixed_elements, np.setdiff1d(np.arange(b.ne), left), "fixed elements after excluding the supports")
    m = np.zeros(b.ne, bool)
    m[left] = True
    check(np.array_equal(np.asarray(tsk.design_mask), m), "design mask after excluding the supports")


def must_reject(fn, what, *a):
    try:
        with gen.hush():
            fn(*a)
    except Violation:
        raise
    except Exception as e:
        if isinstance(e, (ValueError, AssertionError, TypeError, KeyError, IndexError)) or exception_is_sut(e):
            return
        raise
    raise Violation(what)


def free_elements(tsk, basis, constrained):
    """Elements with a degree of freedom that is not constrained, from the nodes' degrees of freedom."""
    free = np.ones(basis.N, bool)
    free[constrained] = False
    node = free[basis.nodal_dofs].any(axis=0)
    eq(np.unique(tsk.free_elements), np.flatnonzero(node[basis.mesh.t].any(axis=0)), "elements of the free degrees of freedom")


def check_elastic(b, c, tsk, basis):
    mod = gen.elastic_model(b, c)
    dofs = sup_dofs_elastic(b, c, basis)
    eq(np.unique(flat(tsk.dirichlet_dofs)), dofs, "constrained degrees of freedom")
    eq(tsk.free_dofs, np.setdiff1d(np.arange(basis.N), dofs), "free degrees of freedom are not the complement")
    free_elements(tsk, basis, dofs)
    eq(np.unique(tsk.neumann_elements), mod["loaded"], "loaded elements")
    sn = np.unique(np.concatenate([gen.nodes_of(b.mesh, gen.facets_of(b, s["reg"])) for s in c["sup"]]))
    eq(np.unique(flat(tsk.dirichlet_nodes)), sn, "supported nodes")
    ln = np.unique(np.concatenate([gen.nodes_of(b.mesh, gen.facets_of(b, s["reg"])) for s in c["load"]]))
    eq(tsk.neumann_nodes_all, ln, "loaded nodes")
    common(b, tsk, mod["design"], mod["supported"], mod["loaded"])
    check(tsk.n_tasks == len(c["load"]), "number of load cases", got=tsk.n_tasks)
    check(tsk.E == c["E"] and tsk.nu == c["nu"] and tsk.material_coef == c["E"], "material data")
    views(tsk, mod, ln)
    exclude(b, tsk, mod["design"], mod["supported"])


def views(tsk, mod, loaded_nodes):
    """The other names of the same sets, and what assigning to them does."""
    eq(np.unique(tsk.force_elements), mod["loaded"], "force_elements are not the loaded elements")
    eq(np.unique(tsk.force_elements_all), mod["loaded"], "force_elements_all are not the loaded elements")
    eq(np.unique(flat(tsk.force_nodes)), loaded_nodes, "force_nodes are not the loaded nodes")
    eq(np.unique(tsk.dirichlet_force_elements), np.union1d(mod["supported"], mod["loaded"]), "dirichlet_force_elements")
    keep = dict(tsk.__dict__)
    mark = np.array([3, 1, 2])
    for name in ("force_elements", "force_nodes", "dirichlet_force_elements"):
        setattr(tsk, name, mark)
        check(getattr(tsk, name) is mark, "an assigned set is not the one read back", name=name)
        changed = [k for k, v in tsk.__dict__.items() if v is not keep[k]]
        check(len(changed) == 1, "assigning to one set changed others", name=name, changed=changed)
        tsk.__dict__.update(keep)
    F = [np.asarray(f) for f in tsk.neumann_linear]
    tsk.force = F + F
    check(tsk.n_tasks == 2 * len(F) and all(a is b for a, b in zip(tsk.force, F + F)), "assigned load cases are not the ones read back")
    tsk.__dict__.update(keep)


def run_elastic(c):
    b = gen.build_mesh(c["mesh"])
    mod = gen.elastic_model(b, c)
    args = gen.elastic_args(b, c)
    if len(mod["design"]) == 0:
        must_reject(LinearElasticity.from_facets, "a problem without designable elements was accepted", *args)
        return dict(nontrivial=False, tags=["empty-design"])
    with gen.hush():
        tsk = LinearElasticity.from_facets(*args)
    check_elastic(b, c, tsk, args[0])
    return dict(nontrivial=len(mod["design"]) < b.ne, tags=[b.kind, f"{len(c['sup'])} supports", f"{len(c['load'])} loads"])


def run_heat(c):
    b = gen.build_mesh(c["mesh"])
    mod = gen.heat_model(b, c)
    args = gen.heat_args(b, c)
    if len(mod["design"]) == 0:
        must_reject(LinearHeatConduction.from_facets, "a problem without designable elements was accepted", *args)
        return dict(nontrivial=False, tags=["empty-design"])
    with gen.hush():
        tsk = LinearHeatConduction.from_facets(*args)
    check_heat(b, c, tsk, args[0])
    return dict(nontrivial=True, tags=[b.kind, f"{len(c['sup'])} supports", "robin" if c["robin"] else "no robin",
                                       "fixed-robin" if c["robin"] and not c["design_robin"] else "-"])


def check_heat(b, c, tsk, basis):
    mod = gen.heat_model(b, c)
    eq(np.unique(flat(tsk.dirichlet_dofs)), basis.nodal_dofs[0, mod["supnodes"]], "constrained degrees of freedom")
    eq(tsk.free_dofs, np.setdiff1d(np.arange(basis.N), basis.nodal_dofs[0, mod["supnodes"]]), "free degrees of freedom are not the complement")
    free_elements(tsk, basis, basis.nodal_dofs[0, mod["supnodes"]])
    if c["robin"] is not None:
        eq(np.unique(tsk.robin_elements), mod["robin"], "convection elements")
        eq(np.unique(flat(tsk.robin_nodes)), mod["robnodes"], "convection nodes")
    else:
        check(tsk.robin_elements is None, "convection elements without convection")
    check(tsk.n_tasks == len(gen.heat_cases(c)), "number of load cases", got=tsk.n_tasks)
    check(tsk.k == c["k"] and tsk.material_coef == c["k"] and tsk.objective == c["objective"], "material data")
    common(b, tsk, mod["design"], mod["supported"])
    exclude(b, tsk, mod["design"], mod["supported"])


# ---- named regions give the same problem
tag_s = st.fixed_dictionaries(dict(
    phys=st.sampled_from(["elastic", "heat"]), el=el_s, he=he_s,
    numbered=st.booleans(), start=st.integers(0, 9), gap=st.integers(1, 5), shuffle=st.integers(0, 20), extra=st.booleans()))


def named(c, b, groups, design):
    """mesh with named boundaries; groups: {'dirichlet': [...facet arrays], ...}"""
    items = []
    for name, regs in groups.items():
        if len(regs) == 1 and not c["numbered"]:
            items.append((name, regs[0]))
        else:
            items += [(f"{name}_{c['start'] + i * c['gap']}", r) for i, r in enumerate(regs)]
    order = np.random.RandomState(c["shuffle"]).permutation(len(items))
    bnd = {items[i][0]: items[i][1] for i in order}
    if c["extra"]:
        bnd["other"] = np.array([0])
        bnd["my_dirichlet_1x"] = np.array([0])
    return b.mesh.with_boundaries(bnd).with_subdomains({"design": design, "unused": np.array([0])})


def run_tags(c):
    phys = c["el"] if c["phys"] == "elastic" else c["he"]
    b = gen.build_mesh(phys["mesh"])
    design = gen.design_of(b, phys["design"])
    groups = dict(dirichlet=[gen.facets_of(b, s["reg"]) for s in phys["sup"]])
    if c["phys"] == "elastic":
        if len(gen.elastic_model(b, phys)["design"]) == 0:
            return dict(nontrivial=False, tags=["empty-design"])
        groups["neumann"] = [gen.facets_of(b, s["reg"]) for s in phys["load"]]
        mesh = named(c, b, groups, design)
        basis = gen.vec_basis(gen.Built(mesh, b.ref, phys["mesh"]))
        sdir = [s["dir"] for s in phys["sup"]]
        if len(sdir) == 1 and not c["numbered"]:
            sdir = sdir[0]
        ld, lv = [s["dir"] for s in phys["load"]], [s["val"] for s in phys["load"]]
        if len(ld) == 1 and phys["aslist"]:
            ld, lv = ld[0], lv[0]
        with gen.hush():
            a = LinearElasticity.from_mesh_tags(basis, sdir, ld, lv, phys["E"], phys["nu"])
            f = LinearElasticity.from_facets(*gen.elastic_args(b, phys))
        check(len(a.neumann_linear) == len(f.neumann_linear), "named regions give another number of load cases")
        for x, y in zip(a.neumann_linear, f.neumann_linear):
            check(np.allclose(x, y, rtol=1e-12, atol=1e-12), "named regions give another load vector (or order)")
        eq(np.unique(flat(a.dirichlet_dofs)), np.unique(flat(f.dirichlet_dofs)), "named regions constrain other degrees of freedom")
        check_elastic(b, phys, a, basis)
    else:
        if len(gen.heat_model(b, phys)["design"]) == 0:
            return dict(nontrivial=False, tags=["empty-design"])
        if phys["robin"] is not None:
            groups["robin"] = [gen.facets_of(b, r["reg"]) for r in phys["robin"]]
        mesh = named(c, b, groups, design)
        basis = gen.scal_basis(b, mesh=mesh)
        _, _, vals, _, rc, rv, dr, _, k, obj, wt = gen.heat_args(b, phys)
        with gen.hush():
            a = LinearHeatConduction.from_mesh_tags(basis, vals, rc, rv, dr, k, obj, wt)
            f = LinearHeatConduction.from_facets(*gen.heat_args(b, phys))
        check(a.n_tasks == f.n_tasks and a.dirichlet_values == f.dirichlet_values, "named regions give other load cases")
        da = [np.sort(np.asarray(d)) for d in a.dirichlet_dofs] if isinstance(a.dirichlet_dofs, list) else [np.sort(a.dirichlet_dofs)]
        df = [np.sort(np.asarray(d)) for d in f.dirichlet_dofs] if isinstance(f.dirichlet_dofs, list) else [np.sort(f.dirichlet_dofs)]
        check(len(da) == len(df) and all(np.array_equal(x, y) for x, y in zip(da, df)), "named regions give other Dirichlet regions (or order)")
        if phys["robin"] is not None:
            sa, sf = sum(m for m in a.robin_bilinear), sum(m for m in f.robin_bilinear)
            check(np.allclose(sa.toarray(), sf.toarray(), rtol=1e-12, atol=1e-12), "named regions give other convection matrices")
            check(np.allclose(sum(a.robin_linear), sum(f.robin_linear), rtol=1e-12, atol=1e-12), "named regions give other convection loads")
        else:
            check(not a.robin_bilinear and not f.robin_bilinear, "convection appeared from nowhere")
        check_heat(b, phys, a, basis)
    return dict(nontrivial=True, tags=[c["phys"], "numbered" if c["numbered"] else "plain"])


# ---- rejected definitions
bad_s = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["el-dirs", "el-dir-str", "el-load-len", "el-load-dir", "he-values", "he-robin", "he-objective", "el-empty", "he-empty"]),
    el=gen.elastic_s(maxdir=3, full_support=False, mesh=gen.mesh_s(maxel=24)), he=gen.heat_s(mesh=gen.mesh_s(maxel=24))))


def run_bad(c):
    k = c["kind"]
    el = dict(c["el"], design=dict(kind="all", seed=0))
    he = dict(c["he"], design=dict(kind="all", seed=0))
    if k.startswith("el"):
        b = gen.build_mesh(el["mesh"])
        a = list(gen.elastic_args(b, dict(el, aslist=True)))
        if k == "el-dirs":
            a[2] = a[2] + ["all"]
        elif k == "el-dir-str":
            a[2] = "all"                   # several regions need one direction each
        elif k == "el-load-len":
            a[5] = a[5] + [1.0]
        elif k == "el-load-dir":
            a[4] = [["x", "u", "u^", "u^0", "v^1"][len(a[4]) % 5]] * len(a[4])
        elif k == "el-empty":
            a[6] = gen.elastic_model(b, el)["loaded"]
        if len(gen.elastic_model(b, el)["design"]) == 0 and k != "el-empty":
            return dict(nontrivial=False, tags=["empty-design"])
        must_reject(LinearElasticity.from_facets, f"an inconsistent definition was accepted ({k})", *a)
        # the same definition without the fault is accepted
        if k != "el-empty":
            with gen.hush():
                LinearElasticity.from_facets(*gen.elastic_args(b, dict(el, aslist=True)))
    else:
        b = gen.build_mesh(he["mesh"])
        he = dict(he, aslist=True, common_T=False, common_robin=False)
        if he["robin"] is None:
            he["robin"] = [dict(reg=dict(face=0, mode="all", k=0), h=1.0, T=300.0)]
        a = list(gen.heat_args(b, he))
        if len(gen.heat_model(b, he)["design"]) == 0:
            return dict(nontrivial=False, tags=["empty-design"])
        if k == "he-values":
            a[2] = a[2] + [1.0]
        elif k == "he-robin":
            a[4] = a[4] + [1.0]
        elif k == "he-objective":
            a[9] = ["Compliance", "", "temperature"][len(a[2]) % 3]
        else:
            a[7] = gen.heat_model(b, he)["robin"]
            a[6] = False
        must_reject(LinearHeatConduction.from_facets, f"an inconsistent definition was accepted ({k})", *a)
        if k != "he-empty":
            with gen.hush():
                LinearHeatConduction.from_facets(*gen.heat_args(b, he))
    return dict(nontrivial=True, tags=[k])


# ---- coordinate ranges select regions
rng_s = st.fixed_dictionaries(dict(mesh=gen.mesh_s(maxel=36), box=st.tuples(*[st.tuples(st.sampled_from([-1.0, 0.0, 0.25, 0.5]),
                                   st.sampled_from([0.25, 0.5, 1.0, 3.0]))] * 3).map(lambda t: [list(x) for x in t])))


def run_range(c):
    from sktopt.mesh import utils
    b = gen.build_mesh(c["mesh"])
    f = utils.get_points_in_range(*[tuple(x) for x in c["box"]])

    def inside(p):
        return np.array([all(c["box"][d][0] <= p[d, i] <= c["box"][d][1] for d in range(3)) for i in range(p.shape[1])], bool)
    check(np.array_equal(np.asarray(f(b.mesh.p), bool), inside(b.mesh.p)), "coordinate range selects other points")
    mid = b.mesh.p[:, b.mesh.facets].mean(axis=1)
    eq(b.mesh.facets_satisfying(f), np.flatnonzero(inside(mid)), "coordinate range selects other facets")
    n = int(inside(b.mesh.p).sum())
    return dict(nontrivial=0 < n < b.mesh.p.shape[1], tags=[b.kind])


FACETS = [
    Facet("range", rng_s, run_range, "some but not all nodes are in range", quick=150, thorough=2000, qsec=40),
    Facet("elastic", el_s, run_elastic, "some elements are not designable", quick=250, thorough=8000, qsec=60),
    Facet("large_elastic", gen.elastic_s(maxdir=3, full_support=False, mesh=gen.big_mesh_s((1100, 2600))), run_elastic, "some elements are not designable",
          quick=6, thorough=100, qsec=60),
    Facet("large_heat", gen.heat_s(mesh=gen.big_mesh_s((1100, 2600))), run_heat, "the problem was accepted", quick=6, thorough=100, qsec=60),
    Facet("heat", he_s, run_heat, "the problem was accepted", quick=250, thorough=8000, qsec=60),
    Facet("many_elastic", gen.elastic_s(full_support=False, mesh=gen.many_mesh_s(), **gen.MANY), run_elastic, "some elements are not designable",
          quick=40, thorough=1500, qsec=40),
    Facet("many_heat", gen.heat_s(mesh=gen.many_mesh_s(), **gen.MANY_HEAT), run_heat, "the problem was accepted", quick=40, thorough=1500, qsec=40),
    Facet("named", tag_s, run_tags, "the problem was built both ways", quick=250, thorough=8000, qsec=60),
    Facet("rejected", bad_s, run_bad, "an inconsistent definition was offered", quick=150, thorough=3000, qsec=60),
]
