"""Independent reference finite elements (dense numpy): shape functions, element matrices, surface integrals.

Uses scikit-fem only for mesh containers and dof numbering (nodal_dofs), not for assembly.
"""
import numpy as np
import scipy.sparse as sp

HEX_REF = np.array([[0, 0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1], [1, 0, 1], [1, 1, 1]], float)


def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def hex_shape(X):
    """X (q,3) -> N (q,8), dN (q,8,3)."""
    N = np.ones((len(X), 8))
    dN = np.ones((len(X), 8, 3))
    for a in range(8):
        for d in range(3):
            f = X[:, d] if HEX_REF[a, d] else 1 - X[:, d]
            g = 1.0 if HEX_REF[a, d] else -1.0
            N[:, a] *= f
            for e in range(3):
                dN[:, a, e] *= g if e == d else f
    return N, dN


def tet_shape(X):
    N = np.column_stack([1 - X.sum(1), X])
    dN = np.tile(np.array([[-1, -1, -1], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float), (len(X), 1, 1))
    return N, dN


def rule(kind, n=2):
    if kind == "hex":
        x, w = gauss(n)
        X = np.array([[a, b, c] for a in x for b in x for c in x])
        W = np.array([a * b * c for a in w for b in w for c in w])
        return X, W
    # tetrahedron: collapsed Gauss-Jacobi-free product rule (exact for the degrees used here)
    x, w = gauss(n + 2)
    X, W = [], []
    for a, wa in zip(x, w):
        for b, wb in zip(x, w):
            for c, wc in zip(x, w):
                X.append([a, b * (1 - a), c * (1 - a) * (1 - b)])
                W.append(wa * wb * wc * (1 - a) ** 2 * (1 - b))
    return np.array(X), np.array(W)


class Geo:
    """Per element and quadrature point: shape values, physical gradients, weights."""

    def __init__(self, mesh, n=2):
        self.mesh = mesh
        self.kind = "hex" if mesh.t.shape[0] == 8 else "tet"
        X, W = rule(self.kind, n)
        self.N, dN = (hex_shape if self.kind == "hex" else tet_shape)(X)
        xe = mesh.p[:, mesh.t].transpose(2, 1, 0)                    # (e, a, 3)
        J = np.einsum("eai,qaj->eqij", xe, dN)
        self.det = np.linalg.det(J)
        self.G = np.einsum("qaj,eqji->eqai", dN, np.linalg.inv(J))   # dN_a/dx_i
        self.w = np.abs(self.det) * W
        self.x = np.einsum("qa,eai->eqi", self.N, xe)

    def volumes(self):
        return self.w.sum(1)


def C_matrix(nu):
    """Isotropic elasticity for E=1, Voigt order xx yy zz yz zx xy with engineering shear."""
    lam = nu / ((1 + nu) * (1 - 2 * nu))
    mu = 0.5 / (1 + nu)
    C = np.zeros((6, 6))
    C[:3, :3] = lam
    C[[0, 1, 2], [0, 1, 2]] += 2 * mu
    C[[3, 4, 5], [3, 4, 5]] = mu
    return C


def B_matrix(G):
    """G (...,a,3) -> B (...,6,3a) for dof order (node major)."""
    sh = G.shape[:-2]
    na = G.shape[-2]
    B = np.zeros(sh + (6, 3 * na))
    x, y, z = G[..., 0], G[..., 1], G[..., 2]
    B[..., 0, 0::3] = x
    B[..., 1, 1::3] = y
    B[..., 2, 2::3] = z
    B[..., 3, 1::3], B[..., 3, 2::3] = z, y
    B[..., 4, 0::3], B[..., 4, 2::3] = z, x
    B[..., 5, 0::3], B[..., 5, 1::3] = y, x
    return B


def elastic_Ke(geo, nu):
    B = B_matrix(geo.G)
    C = C_matrix(nu)
    return np.einsum("eqki,kl,eqlj,eq->eij", B, C, B, geo.w, optimize=True)


def heat_Ke(geo):
    return np.einsum("eqai,eqbi,eq->eab", geo.G, geo.G, geo.w, optimize=True)


def mass_Me(geo):
    return np.einsum("qa,qb,eq->eab", geo.N, geo.N, geo.w, optimize=True)


def edofs(mesh, basis, ncomp):
    """(e, a*ncomp) dof numbers, node major."""
    nd = basis.nodal_dofs                                            # (ncomp, nnodes)
    return nd[:ncomp][:, mesh.t].transpose(2, 1, 0).reshape(mesh.t.shape[1], -1)


def assemble(Ke, dofs, n):
    K = np.zeros((n, n))
    for e in range(len(Ke)):
        K[np.ix_(dofs[e], dofs[e])] += Ke[e]
    return K


def assemble_sparse(Ke, dofs, n):
    dofs = np.asarray(dofs)
    k = dofs.shape[1]
    return sp.csr_matrix((np.asarray(Ke).ravel(), (np.repeat(dofs, k, axis=1).ravel(), np.tile(dofs, (1, k)).ravel())), shape=(n, n))


def facet_shape(mesh, facet, n=3):
    """Quadrature on one boundary facet: nodes, N (q,a), w (q,) with w = dA."""
    nodes = mesh.facets[:, facet]
    if len(nodes) == 3:
        x = mesh.p[:, nodes]
        A = 0.5 * np.linalg.norm(np.cross(x[:, 1] - x[:, 0], x[:, 2] - x[:, 0]))
        g, w = gauss(n)
        N, W = [], []
        for a, wa in zip(g, w):
            for b, wb in zip(g, w):
                s, t = a, b * (1 - a)
                N.append([1 - s - t, s, t])
                W.append(wa * wb * (1 - a) * 2 * A)
        return nodes, np.array(N), np.array(W)
    e = mesh.f2t[0, facet]
    loc = np.array([int(np.flatnonzero(mesh.t[:, e] == v)[0]) for v in nodes])
    R = HEX_REF[loc]
    ax = [d for d in range(3) if np.ptp(R[:, d]) > 0]
    const = [d for d in range(3) if d not in ax][0]
    g, w = gauss(n)
    X = np.zeros((n * n, 3))
    X[:, const] = R[0, const]
    X[:, ax[0]] = np.repeat(g, n)
    X[:, ax[1]] = np.tile(g, n)
    N, dN = hex_shape(X)
    xe = mesh.p[:, mesh.t[:, e]].T
    t1 = np.einsum("ai,qa->qi", xe, dN[:, :, ax[0]])
    t2 = np.einsum("ai,qa->qi", xe, dN[:, :, ax[1]])
    return nodes, N[:, loc], np.linalg.norm(np.cross(t1, t2), axis=1) * np.repeat(w, n) * np.tile(w, n)


def surface_load(mesh, facets):
    """(nodal integral of 1, total area): v_i = sum_f int N_i dA."""
    v = np.zeros(mesh.p.shape[1])
    for f in facets:
        nodes, N, w = facet_shape(mesh, f)
        np.add.at(v, nodes, N.T @ w)
    return v, float(v.sum())


def surface_mass(mesh, facets):
    n = mesh.p.shape[1]
    M = np.zeros((n, n))
    for f in facets:
        nodes, N, w = facet_shape(mesh, f)
        M[np.ix_(nodes, nodes)] += np.einsum("qa,qb,q->ab", N, N, w)
    return M


def simp(rho, E0, Emin, p):
    return Emin + (E0 - Emin) * rho ** p


def ramp(rho, E0, Emin, p):
    return Emin + (E0 - Emin) * rho / (1 + p * (1 - rho))
