"""Reference model of the mechanics, on full 3x3 / 3x3x3x3 arrays.

Independent of the library: it knows an energy W(l1, l2, l3) as a symmetric torch
function of the principal stretches and differentiates it automatically.

principal()  spectral reference: S, C4 from the derivatives of G(x)=W(sqrt x) in the
             principal frame; divided differences are evaluated by Gauss-Legendre
             quadrature of the derivative, hence there is no branch for repeated values.
direct()     second reference for energies in the invariants: torch differentiates
             psi(F) w.r.t. the nine components of F.
mp()         third reference: 60-digit central differences of psi(C) (slow).
The three are compared with each other by the checks (oracle conformance).
"""
import numpy as np
import torch

D = torch.float64


def tt(x):
    return torch.tensor(np.ascontiguousarray(x), dtype=D)


# ---------------------------------------------------------------- spaces (kinematics)
def project_stretches(space, l):
    J = l[0] * l[1] * l[2]
    if space == "def":
        return l
    if space == "dis":
        return [x * J ** (-1.0 / 3.0) for x in l]
    if space == "dil":
        k = J ** (1.0 / 3.0)
        return [k, k, k]
    raise KeyError(space)


def psi_F(Winv, space, F):
    "F: tensor (..., 3, 3)"
    C = F.transpose(-1, -2) @ F
    J2 = torch.linalg.det(C)
    if space == "dis":
        C = C * (J2 ** (-1.0 / 3.0))[..., None, None]
    elif space == "dil":
        C = (J2 ** (1.0 / 3.0))[..., None, None] * torch.eye(3, dtype=D)
    I1 = C.diagonal(dim1=-2, dim2=-1).sum(-1)
    I2 = (I1**2 - (C * C).sum((-1, -2))) / 2
    I3 = torch.linalg.det(C)
    return Winv(I1, I2, I3)


def grad(f, x, create_graph=False):
    f = f.sum()
    if not f.requires_grad:
        return torch.zeros_like(x)
    g = torch.autograd.grad(f, x, create_graph=create_graph, allow_unused=True)[0]
    return torch.zeros_like(x) if g is None else g


def direct(Winv, space, F, hess=True):
    "F (3,3,N) -> P (3,3,N), A (3,3,3,3,N)"
    Ft = tt(np.moveaxis(F, -1, 0)).requires_grad_(True)
    psi = psi_F(Winv, space, Ft)
    P = grad(psi, Ft, create_graph=hess)
    Pn = np.moveaxis(P.detach().numpy(), 0, -1)
    if not hess:
        return Pn, None
    N = F.shape[-1]
    A = np.zeros((3, 3, 3, 3, N))
    for i in range(3):
        for j in range(3):
            if P.requires_grad:
                g = torch.autograd.grad(P[:, i, j].sum(), Ft, retain_graph=True, allow_unused=True)[0]
                if g is not None:
                    A[i, j] = np.moveaxis(g.numpy(), 0, -1)
    return Pn, A


def derivatives(W, space, X):
    "X: (N,3) squared stretches. First and second derivatives of G(x)=W(space(sqrt x))."
    x = tt(X).requires_grad_(True)
    l = [torch.sqrt(x[:, a]) for a in range(3)]
    psi = W(*project_stretches(space, l))
    g = grad(psi, x, create_graph=True)
    H = torch.zeros(x.shape[0], 3, 3, dtype=D)
    for a in range(3):
        if g.requires_grad:
            H[:, a] = grad(g[:, a], x, create_graph=True).detach()
    return g.detach().numpy(), H.numpy()


GLX, GLW = np.polynomial.legendre.leggauss(14)


def magnitude(W, space, X):
    "size of the energy derivatives at the projected stretches (tolerance scale)"
    l = [tt(np.sqrt(X[:, a])) for a in range(3)]
    lp = [v.clone().requires_grad_(True) for v in project_stretches(space, l)]
    psi = W(*lp)
    k1 = np.zeros(len(X))
    k2 = np.zeros(len(X))
    if psi.requires_grad:
        gs = torch.autograd.grad(psi.sum(), lp, create_graph=True, allow_unused=True)
        for ga, la in zip(gs, lp):
            if ga is None:
                continue
            k1 = np.maximum(k1, np.abs((ga * la).detach().numpy()))
            if ga.requires_grad:
                hs = torch.autograd.grad(ga.sum(), lp, retain_graph=True, allow_unused=True)
                for hb, lb in zip(hs, lp):
                    if hb is not None:
                        k2 = np.maximum(k2, np.abs((hb * la * lb).detach().numpy()))
    return k1, k2


def principal(W, space, F, hess=True):
    """F (3,3,N) -> dict(P, A, S, C4, k1, k2, lmin, gap)"""
    Fm = np.moveaxis(F, -1, 0)
    C = np.swapaxes(Fm, 1, 2) @ Fm
    X, Nv = np.linalg.eigh((C + np.swapaxes(C, 1, 2)) / 2)  # Nv[n,:,a]
    n = len(X)
    g, H = derivatives(W, space, X)
    S = 2 * np.einsum("na,nia,nja->ijn", g, Nv, Nv)
    P = np.einsum("nik,kjn->ijn", Fm, S)
    k1, k2 = magnitude(W, space, X)
    gap = np.min(np.abs(np.stack([X[:, 0] - X[:, 1], X[:, 1] - X[:, 2]])), axis=0)
    res = dict(P=P, S=S, k1=k1, k2=k2, lmin=np.sqrt(X[:, 0]), lmax=np.sqrt(X[:, 2]), gap=gap)
    if not hess:
        return res
    C4 = np.zeros((3, 3, 3, 3, n))
    for a in range(3):
        for b in range(3):
            C4 += H[:, a, b] * np.einsum("ni,nj,nk,nl->ijkln", Nv[:, :, a], Nv[:, :, a], Nv[:, :, b], Nv[:, :, b])
    for a, b in [(0, 1), (1, 2), (0, 2)]:
        xa, xb = X[:, a], X[:, b]
        m, d = (xa + xb) / 2, (xa - xb) / 2
        q = np.zeros(n)
        far = np.abs(d) > 0.4 * m
        q[far] = (g[far, a] - g[far, b]) / (xa[far] - xb[far])
        near = np.nonzero(~far)[0]
        if len(near):
            XX = np.repeat(X[near], len(GLX), axis=0).reshape(len(near), len(GLX), 3)
            XX[:, :, a] = m[near, None] + GLX * d[near, None]
            XX[:, :, b] = m[near, None] - GLX * d[near, None]
            _, HH = derivatives(W, space, XX.reshape(-1, 3))
            v = (HH[:, a, a] - HH[:, a, b]).reshape(len(near), len(GLX))
            q[near] = (v * GLW).sum(1) / 2
        na, nb = Nv[:, :, a], Nv[:, :, b]
        T = np.einsum("ni,nj->ijn", na, nb)
        T = (T + np.swapaxes(T, 0, 1)) / 2
        C4 += 2 * q * np.einsum("ijn,kln->ijkln", T, T)
    C4 *= 4
    A = np.einsum("niI,nkK,IJKLn->iJkLn", Fm, Fm, C4)
    for i in range(3):
        A[i, :, i, :] += S
    res.update(C4=C4, A=A)
    return res


def mp_tangent(Wmp, space, C, digits=60):
    """60-digit central differences of psi(C); C (3,3) floats. Returns S, C4."""
    import mpmath as mp

    with mp.workdps(digits):
        idx = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
        h = mp.mpf(10) ** (-digits // 4)

        def psi(dv):
            M = mp.matrix(3, 3)
            for i in range(3):
                for j in range(3):
                    M[i, j] = mp.mpf(float(C[min(i, j), max(i, j)]))
            for (i, j), v in dv:
                M[i, j] += v
                if i != j:
                    M[j, i] += v
            ev = mp.eigsy(M, eigvals_only=True)
            l = [mp.sqrt(ev[a]) for a in range(3)]
            J = l[0] * l[1] * l[2]
            if space == "dis":
                l = [x / mp.cbrt(J) for x in l]
            elif space == "dil":
                l = [mp.cbrt(J)] * 3
            return Wmp(*l)

        S = np.zeros((3, 3))
        C4 = np.zeros((3, 3, 3, 3))
        w = [1, 1, 1, 2, 2, 2]
        f0 = psi([])
        for a, ia in enumerate(idx):
            d = (psi([(ia, h)]) - psi([(ia, -h)])) / (2 * h) / w[a]
            S[ia] = S[ia[::-1]] = float(2 * d)
        for a, ia in enumerate(idx):
            for b, ib in enumerate(idx):
                if b < a:
                    continue
                if a == b:
                    d2 = (psi([(ia, h)]) - 2 * f0 + psi([(ia, -h)])) / h**2
                else:
                    d2 = (psi([(ia, h), (ib, h)]) - psi([(ia, h), (ib, -h)])
                          - psi([(ia, -h), (ib, h)]) + psi([(ia, -h), (ib, -h)])) / (4 * h**2)
                v = float(4 * d2 / (w[a] * w[b]))
                for p in {ia, ia[::-1]}:
                    for q in {ib, ib[::-1]}:
                        C4[p + q] = v
                        C4[q + p] = v
        return S, C4


# ------------------------------------------------------------------- configurations
def configure(F, S, C4, force, area, finalize):
    """Stress and elasticity (full arrays (3,3,N), (3,3,3,3,N)) in a configuration."""
    if not finalize:
        return S, C4
    J = np.linalg.det(np.moveaxis(F, -1, 0))
    C = np.einsum("kIn,kJn->IJn", F, F)
    invC = np.moveaxis(np.linalg.inv(np.moveaxis(C, -1, 0)), 0, -1)
    stress, A = S, C4
    A = C4 + np.einsum("IKn,JLn->IJKLn", invC, S)
    if force is None:
        stress = np.einsum("iIn,IJn->iJn", F, stress)
        A = np.einsum("iIn,kKn,IJKLn->iJkLn", F, F, A)
    if area is None:
        stress = np.einsum("jJn,iJn->ijn", F, stress) / J
        A = np.einsum("jJn,lLn,iJkLn->ijkln", F, F, A) / J
    return stress, A
