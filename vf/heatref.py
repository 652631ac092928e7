"""Reference heat problem (dense): conduction, surface convection and interface convection."""
import numpy as np

from . import gen, ref


class BGeo:
    """Own shape functions at the quadrature points of a scikit-fem basis."""

    def __init__(self, basis):
        mesh = basis.mesh
        X, W = np.asarray(basis.X), np.asarray(basis.W)
        hexm = mesh.t.shape[0] == 8
        self.N, dN = (ref.hex_shape if hexm else ref.tet_shape)(X.T)
        xe = mesh.p[:, mesh.t].transpose(2, 1, 0)
        J = np.einsum("eai,qaj->eqij", xe, dN)
        self.G = np.einsum("qaj,eqji->eqai", dN, np.linalg.inv(J))
        self.w = np.abs(np.linalg.det(J)) * W


def nodal(mesh, rho):
    """Plain average of the densities of the elements around each node."""
    s, n = np.zeros(mesh.p.shape[1]), np.zeros(mesh.p.shape[1])
    for e in range(mesh.t.shape[1]):
        s[mesh.t[:, e]] += rho[e]
        n[mesh.t[:, e]] += 1
    return s / np.maximum(n, 1), n


class HeatProblem:
    """spec c (gen.heat_s) + density -> matrices and reference temperatures."""

    def __init__(self, c, rho, func, ratio, p, q=4, basis=None):
        self.c = c
        self.b = b = gen.build_mesh(c["mesh"])
        self.mesh = mesh = b.mesh
        self.basis = basis if basis is not None else gen.scal_basis(b)
        self.nd = self.basis.nodal_dofs[0]
        n = mesh.p.shape[1]
        self.k0, self.kmin, self.p, self.q, self.rho = c["k"], c["k"] * ratio, p, q, rho
        self.Ke1 = ref.heat_Ke(ref.Geo(mesh, 2))
        self.K = ref.assemble(func(rho, self.k0, self.kmin, p)[:, None, None] * self.Ke1, mesh.t.T, n)
        self.f = np.zeros(n)
        self.Ksurf, self.Kvirt = np.zeros((n, n)), np.zeros((n, n))
        self.rn, self.cnt = nodal(mesh, rho)
        self.g = BGeo(self.basis)
        self.gr = np.einsum("eqai,ae->eqi", self.g.G, self.rn[mesh.t])
        self.rq = np.einsum("qa,ae->eq", self.g.N, self.rn[mesh.t])
        self.face = np.sqrt((self.gr ** 2).sum(-1))
        self.pairs = []
        if c["robin"] is not None:
            for reg, h, T in gen.heat_robin(c):
                fc = gen.facets_of(b, reg)
                M = ref.surface_mass(mesh, fc)
                self.Ksurf += h * M
                self.f += h * T * M.sum(1)
            # one interface term per convection datum (a common coefficient counts once)
            self.pairs = [(c["robin"][0]["h"], c["robin"][0]["T"])] if c["common_robin"] \
                else [(r["h"], r["T"]) for r in c["robin"]]
            a = self.rq ** p * (1 - self.rq) ** q * self.face * self.g.w
            Me = np.einsum("qa,qb,eq->eab", self.g.N, self.g.N, a)
            fe = np.einsum("qa,eq->ea", self.g.N, a)
            for h, T in self.pairs:
                self.Kvirt += ref.assemble(h * Me, mesh.t.T, n)
                np.add.at(self.f, mesh.t.T, h * T * fe)
        self.Kall = self.K + self.Ksurf + self.Kvirt
        self.D = []
        for idx, T in gen.heat_cases(c):
            nodes = np.unique(np.concatenate([gen.nodes_of(mesh, gen.facets_of(b, c["sup"][i]["reg"])) for i in idx]))
            self.D.append((nodes, T))

    def solve(self, i):
        nodes, T = self.D[i]
        u = np.full(len(self.f), float(T))
        free = np.setdiff1d(np.arange(len(u)), nodes)
        if len(free):
            r = self.f - self.Kall[:, nodes] @ u[nodes]
            u[free] = np.linalg.solve(self.Kall[np.ix_(free, free)], r[free])
        return u

    def scale(self):
        t = [abs(T) for _, T in self.D] + [abs(T) for _, T in self.pairs]
        return max(max(t), 1e-12)
