"""Every energy of the catalogue x 3 spaces x deformation gradients of a finite alphabet x
all 24 rotations of the cube and 3 generic ones superposed on the deformed and on the
undeformed configuration (on a sub-alphabet: all 24 x 24 combinations on both sides; single points): the
legs of stress and elasticity rotate accordingly, the Cauchy stress is symmetric. Axis
permutations of diagonal deformations are among them. A state is one (energy, space, F,
rotation pair)."""
import numpy as np

from .. import materials as m
from .. import mech
from ..points import ROT_GENERIC, octahedral, pointset

ASSUMPTIONS = []
ROT = [*octahedral(), *ROT_GENERIC]


def cases(ctx):
    out = []
    for s in mech.catalogue(True):
        for space in ("def", "dis", "dil"):
            out.append(dict(spec=s, space=space))
    return out


def rotate(P, A, Ql, Qr):
    Pr = np.einsum("ia,aB...,BJ->iJ...", Ql, P, Qr)
    Ar = np.einsum("ia,kb,aBbD...,BJ,DL->iJkL...", Ql, Ql, A, Qr, Qr, optimize=True)
    return Pr, Ar


def run(case, ctx):
    spec, space = case["spec"], case["space"]
    F = pointset("tiny" if ctx.quick else "small")
    n = F.shape[-1]
    um = m.umat(spec, space)
    r = mech.reference(spec, space, F, False)
    sP, sA = mech.scales(r)
    tol = mech.tangent_tol(r, spec)
    P, A = mech.stress(um, F.copy()), mech.tangent(um, F.copy())
    K = np.einsum("iJn,jJn->ijn", P, F)
    mech.compare(ctx, K, np.swapaxes(K, 0, 1), sP * r["lmax"], 1e-10, f"{spec} {space}: Kirchhoff stress is not symmetric", F)
    I = np.eye(3)
    pairs = [(Q, I) for Q in ROT] + [(I, Q) for Q in ROT]
    check(ctx, um, spec, space, F, P, A, pairs, sP, sA, tol)
    G = F[..., :: max(1, n // 2)][..., :2]
    sub = slice(0, None, max(1, n // 2))
    pairs = [(Q, R) for Q in ROT[:24] for R in ROT[:24]]
    t = tol if np.ndim(tol) == 0 else tol[sub][:2]
    check(ctx, um, spec, space, G, P[..., sub][..., :2], A[..., sub][..., :2], pairs, sP[sub][:2], sA[sub][:2], t)
    # single points: coaxial ones with permuted axes, a generic one
    for H, rots in ((np.diag([0.8, 1.1, 1.5]), [(Q, R) for Q in ROT[:24] for R in ROT[:24] if np.array_equal(Q, R.T)]), (F[..., -1], [(I, Q) for Q in ROT] + [(Q, I) for Q in ROT])):
        H = H[..., None]
        rr = mech.reference(spec, space, H, False)
        hP, hA = mech.scales(rr, mech.typical(spec, space))
        ht = mech.tangent_tol(rr, spec)
        P1, A1 = mech.stress(um, H.copy()), mech.tangent(um, H.copy())
        for pair in rots:
            check(ctx, um, spec, space, H, P1, A1, [pair], hP, hA, ht)
    ctx.outcome(P)
    ctx.sample(f"{spec} in {space}: {n} deformations x 27 rotations on either side, 2 x 576 pairs")


def check(ctx, um, spec, space, F, P, A, pairs, sP, sA, tol):
    n = F.shape[-1]
    X = np.concatenate([np.einsum("ia,aBn,BJ->iJn", Ql, F, Qr) for Ql, Qr in pairs], axis=-1)
    Px, Ax = mech.stress(um, X.copy()), mech.tangent(um, X.copy())
    ctx.step(2)
    for k, (Ql, Qr) in enumerate(pairs):
        Pr, Ar = rotate(P, A, Ql, Qr)
        sl = slice(k * n, (k + 1) * n)
        mech.compare(ctx, Px[..., sl], Pr, sP, 1e-10, f"{spec} {space}: stress, rotations {Ql.tolist()} {Qr.tolist()}", F)
        mech.compare(ctx, Ax[..., sl], Ar, sA, 2 * tol, f"{spec} {space}: elasticity, rotations {Ql.tolist()} {Qr.tolist()}", F)
    ctx.states(n * len(pairs), spec, space, len(pairs))
    ctx.trace(n * len(pairs))
