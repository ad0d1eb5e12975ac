"""Stretch-based energies (Ogden exponents, coupled, generalized invariants) x 3 spaces x
all deformations whose principal stretches coincide or nearly coincide: base stretch in
{0.4, 1, 2.5}, gap in {0, 1e-15 .. 1e-2} of either sign, the coinciding pair in each of the
three positions or all three (gap, 2 gap), third stretch in {0.7, 1.9}, 5 principal frames,
2 superposed rotations; evaluated in one mixed batch and (sub-alphabet) on their own; all assignments of distinct,
coinciding (each pair) and triple points to the positions of batches of shape (3,), (2, 2)
(thorough: seven shapes). Stress
and elasticity are compared with the reference, which has no case distinction (divided
differences by quadrature). A state is one (energy, space, F)."""
import itertools

import numpy as np

from .. import materials as m
from .. import mech
from ..core import require
from ..points import ROT_GENERIC, octahedral

ASSUMPTIONS = ["tolerance 1e-6 of the modulus for relative gaps below 1e-4 (cancellation 1e-16/1e-8)"]


def specs(quick):
    out = [["ogden", [0.7], [a]] for a in mech.OGDEN]
    out += [["ogden", [1.0, 0.5, -0.2], [1.3, 5.0, -2.0]]]
    out += [["coup", n, e] for n in m.COUPLED for e in ("list", "none")]
    out += [["spoly", [[*t, 0.3]]] for t in mech.monomials(2)]
    for name, k in mech.GENS:
        out.append(["gen", mech.TOD, name != "deformation", name, k])
        out.append(["genpoly", mech.MIXED, name, k])
    return out


def cases(ctx):
    return [dict(spec=s, space=sp) for s in specs(ctx.quick) for sp in ("def", "dis", "dil")]


_pts = {}


def points(quick):
    if quick in _pts:
        return _pts[quick]
    gaps = [0.0] + [s * 10.0**-e for e in ((15, 13, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2) if quick else range(2, 17)) for s in (1, -1)]
    if not quick:
        gaps += [s * f * 1e-8 for f in (0.3, 0.5, 0.7, 2, 3, 5) for s in (1, -1)]
    frames = [np.eye(3), octahedral()[5], *ROT_GENERIC]
    out = []
    for base in (0.4, 1.0, 2.5):
        for g in gaps:
            d = base * (1 + g)
            tr = [(base, d, base * (1 + 2 * g)), (base, base, d), (base, d, d)]
            for o in (0.7, 1.9):
                tr += [(base, d, o), (o, base, d), (base, o, d)]
            for l in tr:
                for k, R in enumerate(frames):
                    Q = frames[(k + 2) % len(frames)] if k % 2 else np.eye(3)
                    out.append(Q @ np.diag(l) @ R.T)
    _pts[quick] = np.moveaxis(np.array(out), 0, -1)
    return _pts[quick]


def extreme():
    "the same at very small and very large stretches (moderate ratios)"
    frames = [np.eye(3), *ROT_GENERIC[:2]]
    out = []
    for base in (1e-4, 1e-3, 1e-2, 30.0, 1e3):
        for g in (0.0, 1e-14, 1e-12, 1e-10, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.02, 1.0):
            d = base * (1 + g)
            for o in (0.4, 2.9):
                for l in [(base, d, o * base), (o * base, base, d), (base, o * base, d), (base, d, base * (1 + 3 * g))]:
                    out += [R @ np.diag(l) @ R.T for R in frames]
    return np.moveaxis(np.array(out), 0, -1)


def disparate():
    "two small stretches beside a large one (diagonal: the spectral decomposition is exact)"
    out = []
    for a in (0.1, 1e-2, 1e-3, 1e-4, 1e-5):
        for g in (0.0, 1e-3, 1e-2, 0.1, 0.3, 1.0):
            for o in (1.0, 30.0):
                for l in itertools.permutations((a, a * (1 + g), o)):
                    out.append(np.diag(l))
    for a in (30.0, 1e3):
        for g in (0.0, 1e-6, 1e-3, 0.1):
            for l in itertools.permutations((a, a * (1 + g), 1e-2)):
                out.append(np.diag(l))
    return np.moveaxis(np.array(out), 0, -1)


def mixtures(ctx, spec, space, um):
    "all assignments of distinct / coinciding points to the positions of small batches"
    R, Q = ROT_GENERIC[0], ROT_GENERIC[1]
    pts = [np.diag([0.8, 1.1, 1.4]) @ Q, 1.1 * Q, R @ np.diag([1.2, 1.2, 0.7]), np.diag([0.7, 0.9, 0.9]) @ R, np.diag([1.3, 0.6, 1.3])]
    F = np.moveaxis(np.array(pts), 0, -1)
    r = mech.reference(spec, space, F, True)
    least = mech.typical(spec, space)
    sP, sA = mech.scales(r, least)
    for shape in [(3,), (2, 2)] + ([] if ctx.quick else [(1, 3), (3, 1), (4,), (2, 1, 2), (1, 2, 2)]):
        q = int(np.prod(shape))
        for idx in itertools.product(range(len(pts) - (ctx.quick and q > 3)), repeat=q):
            G = F[..., list(idx)].reshape(3, 3, *shape)
            A = mech.tangent(um, G)
            mech.compare(ctx, A.reshape(3, 3, 3, 3, q), r["A"][..., list(idx)], sA[list(idx)], mech.NEAR, f"{spec} {space}: elasticity in a batch {shape} of points {idx}")
            ctx.step()
            ctx.trace(q)
        ctx.states((len(pts) - (ctx.quick and q > 3)) ** q, spec, space, shape)
        P = mech.stress(um, G)
        mech.compare(ctx, P.reshape(3, 3, q), r["P"][..., list(idx)], sP[list(idx)], 1e-10, f"{spec} {space}: stress in a batch {shape} of points {idx}")


def run(case, ctx):
    spec, space = case["spec"], case["space"]
    F = points(ctx.quick)
    n = F.shape[-1]
    r = mech.reference(spec, space, F, True)
    um = m.umat(spec, space)
    P, A = mech.stress(um, F.copy()), mech.tangent(um, F.copy())
    sP, sA = mech.scales(r)
    require(np.isfinite(P).all() and np.isfinite(A).all(), f"{spec} {space}: not finite")
    mech.compare(ctx, P, r["P"], sP, 1e-10, f"{spec} {space}: stress", F)
    mech.compare(ctx, A, r["A"], sA, mech.tangent_tol(r, spec), f"{spec} {space}: elasticity", F)
    ctx.step(2)
    for k in range(0, n, 97):
        f = F[..., k].copy()
        mech.compare(ctx, mech.stress(um, f)[..., None], r["P"][..., k : k + 1], sP[k : k + 1], 1e-10, f"{spec} {space}: single point stress", F[..., k : k + 1])
        mech.compare(ctx, mech.tangent(um, f)[..., None], r["A"][..., k : k + 1], sA[k : k + 1],
                     np.broadcast_to(mech.tangent_tol(r, spec), n)[k : k + 1], f"{spec} {space}: single point elasticity", F[..., k : k + 1])
        ctx.step(2)
    G = extreme()
    r = mech.reference(spec, space, G, True)
    sP, sA = mech.scales(r)
    least = float(np.finfo(float).tiny) ** 0.5
    sP, sA = (r["k1"] + r["k2"] + least) / r["lmin"], (r["k1"] + r["k2"] + least) / r["lmin"] ** 2 * np.maximum(1, r["lmax"]) ** 2
    mech.compare(ctx, mech.stress(um, G.copy()), r["P"], sP, 1e-9, f"{spec} {space}: stress at extreme stretches", G)
    mech.compare(ctx, mech.tangent(um, G.copy()), r["A"], sA, mech.NEAR, f"{spec} {space}: elasticity at extreme stretches", G)
    ctx.step(2)
    ctx.states(G.shape[-1], case, "extreme")
    G = disparate()
    with np.errstate(all="ignore"):
        r = mech.reference(spec, space, G, True)
        ok = np.isfinite(r["A"]).all(axis=(0, 1, 2, 3)) & np.isfinite(r["k1"] + r["k2"])
        P, A = mech.stress(um, G.copy()), mech.tangent(um, G.copy())
    for k in np.flatnonzero(ok):
        # every component relative to the products of the stretches of its legs
        w = 1 / np.diag(G[..., k])
        big = (r["k1"] + r["k2"])[k] + least
        w2, w4 = np.sqrt(np.outer(w, w)), np.einsum("i,j,k,l->ijkl", *[np.sqrt(w)] * 4)
        sp = max(np.abs(r["P"][..., k] / w2).max(), 1e-3 * big)
        sa = max(np.abs(r["A"][..., k] / w4).max(), 1e-3 * big)
        mech.compare(ctx, (P[..., k] / w2)[..., None], (r["P"][..., k] / w2)[..., None], np.array([sp]), 1e-9, f"{spec} {space}: stress at two small stretches beside a large one", G[..., k : k + 1])
        mech.compare(ctx, (A[..., k] / w4)[..., None], (r["A"][..., k] / w4)[..., None], np.array([sa]), mech.NEAR, f"{spec} {space}: elasticity at two small stretches beside a large one", G[..., k : k + 1])
    ctx.step(2)
    ctx.states(int(ok.sum()), case, "disparate")
    mixtures(ctx, spec, space, um)
    ctx.states(n, case)
    ctx.trace(n)
    ctx.outcome(A[..., :: max(1, n // 4)])
    ctx.sample(f"{spec} in {space}: {n} (nearly) repeated stretch triples")
