"""Every energy of the catalogue x deformation gradients of a finite alphabet x superposed
dilations
1e-3 .. 1e3 (also 1 + 3e-9 .. 1e-5, on constant-volume states, too): trace and invariance of the distortional Kirchhoff stress (and of
the elasticity), sphericity and volume-only dependence of the dilatational one, agreement
with the deviator / the total response of the deformation space at constant-volume and at
purely dilatational states. A state is one (energy, F, dilation)."""
import numpy as np

from .. import materials as m
from .. import mech
from ..points import ROT_GENERIC, octahedral, pointset

ASSUMPTIONS = ["energies are defined at the projected deformations"]
DIL = (1e-3, 0.5, 0.99, 1 - 1e-5, 1 + 1e-7, 1 - 2e-8, 1 + 3e-9, 1.1, 2.0, 1e3)


def cases(ctx):
    return [dict(spec=s) for s in mech.catalogue(ctx.quick)]


def kirchhoff(P, F):
    return np.einsum("iJ...,jJ...->ij...", P, F)


def run(case, ctx):
    spec = case["spec"]
    F = pointset("small" if ctx.quick else "quick")
    J = np.linalg.det(np.moveaxis(F, -1, 0))
    I = np.eye(3)[:, :, None]
    n = F.shape[-1]
    dis, dil, dfm = (m.umat(spec, s) for s in ("dis", "dil", "def"))

    # distortional
    r = mech.reference(spec, "dis", F, False)
    k = (r["k1"] + r["k2"]) + 1e-3 * max((r["k1"] + r["k2"]).max(), 1e-300)
    k = k * r["lmax"] / r["lmin"]
    P = mech.stress(dis, F.copy())
    T = kirchhoff(P, F)
    A = mech.tangent(dis, F.copy())
    z = np.zeros_like(T[0, 0])
    mech.compare(ctx, T[0, 0] + T[1, 1] + T[2, 2], z, k, 1e-10, f"{spec}: trace of the distortional Kirchhoff stress", F)
    for c in DIL:
        G = c * F
        Tc = kirchhoff(mech.stress(dis, G), G)
        mech.compare(ctx, Tc, T, k, 1e-10, f"{spec}: distortional Kirchhoff stress with superposed dilation {c}", F)
        Ac = mech.tangent(dis, G) * c**2
        tol = mech.tangent_tol(r, spec)
        if c != 1 and mech.stretch_based(spec):  # the gap test of repeated stretches is absolute
            tol = np.where(r["gap"] > mech.GAP, tol, np.maximum(tol, 1e-6))
        mech.compare(ctx, Ac, A, k / r["lmin"] ** 2 * np.maximum(r["lmax"], 1) ** 2, tol,
                     f"{spec}: distortional elasticity with superposed dilation {c}", F)
        ctx.step(2)
    # dilations superposed on constant-volume deformations
    G = F / J ** (1 / 3)
    for c in (1.0, *DIL):
        H = c * G
        Tc = kirchhoff(mech.stress(dis, H), H)
        mech.compare(ctx, Tc, T, k, 1e-10, f"{spec}: distortional Kirchhoff stress at the volume ratio {c}^3", H)
        ctx.step()
    Q = np.moveaxis(np.array([*octahedral()[:8], *ROT_GENERIC]), 0, -1)
    k0 = mech.reference(spec, "dis", Q, False)
    kk = (k0["k1"] + k0["k2"]).max() + 1e-8
    for c in DIL:
        Tc = kirchhoff(mech.stress(dis, c * Q), c * Q)
        mech.compare(ctx, Tc, np.zeros_like(Tc), kk, 1e-10, f"{spec}: distortional stress under pure dilation {c}", c * Q)
        ctx.step()

    # dilatational
    r = mech.reference(spec, "dil", F, False)
    k = (r["k1"] + r["k2"]) + 1e-3 * max((r["k1"] + r["k2"]).max(), 1e-300)
    k = k * r["lmax"] / r["lmin"]
    T = kirchhoff(mech.stress(dil, F.copy()), F)
    p = (T[0, 0] + T[1, 1] + T[2, 2]) / 3
    mech.compare(ctx, T, p * I, k, 1e-10, f"{spec}: dilatational Kirchhoff stress is not spherical", F)
    for R in (np.eye(3), ROT_GENERIC[0]):
        G = J ** (1 / 3) * R[:, :, None]
        Tg = kirchhoff(mech.stress(dil, G), G)
        mech.compare(ctx, Tg, T, k, 1e-10, f"{spec}: dilatational stress depends on more than the volume", F)
        # at a pure dilation the deformation space gives the same
        Td = kirchhoff(mech.stress(dfm, G), G)
        kd = mech.reference(spec, "def", G, False)
        mech.compare(ctx, Td, Tg, k + kd["k1"] + kd["k2"], 1e-10, f"{spec}: dilatational vs. deformation space at a pure dilation", G)
        ctx.step(3)
    # constant volume
    G = F / J ** (1 / 3)
    r = mech.reference(spec, "def", G, False)
    k = (r["k1"] + r["k2"]) + 1e-3 * max((r["k1"] + r["k2"]).max(), 1e-300)
    k = k * r["lmax"] / r["lmin"]
    T = kirchhoff(mech.stress(dfm, G), G)
    T = T - (T[0, 0] + T[1, 1] + T[2, 2]) / 3 * I
    Ti = kirchhoff(mech.stress(dis, G), G)
    mech.compare(ctx, Ti, T, k, 1e-10, f"{spec}: distortional stress vs. deviator at constant volume", G)
    # points on their own, without trailing axes: volume-only and shape-only dependence
    Tdil = kirchhoff(mech.stress(dil, F.copy()), F)
    Tdis = kirchhoff(mech.stress(dis, F.copy()), F)
    for um, T, sp in ((dil, Tdil, "dil"), (dis, Tdis, "dis")):
        r = mech.reference(spec, sp, F, False)
        kk = (r["k1"] + r["k2"]) * r["lmax"] / r["lmin"]
        kk = kk + 1e-3 * max(kk.max(), 1e-300)
        for i in range(n):
            f = J[i] ** (1 / 3) * np.eye(3) if sp == "dil" else F[..., i] / J[i] ** (1 / 3)
            P = np.asarray(mech.stress(um, f.copy()))
            mech.compare(ctx, kirchhoff(P, f)[..., None], T[..., i : i + 1], kk[i], 1e-10, f"{spec}: {sp} Kirchhoff stress of a point on its own, projected", F[..., i : i + 1])
            ctx.step()
    ctx.step(4)
    ctx.states(n * (2 * len(DIL) + 6), case)
    ctx.trace(n * (2 * len(DIL) + 6))
    ctx.outcome(Ti[..., :: max(1, n // 3)])
    ctx.sample(f"{spec}: {n} deformations x dilations {DIL}")
