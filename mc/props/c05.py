"""Every strain energy of a finite catalogue (all 2^5 presence patterns of the third-order
deformation, all monomials in the invariants up to degree 3, automatic differentiation,
Ogden exponents, coupled stretch energies, generalized invariants for all measures and
exponents of a lattice) x 3 spaces x every deformation gradient of a finite alphabet
(lattice with <=2 off-diagonal deviations, neighbourhood of the identity, all triples of
principal stretches in rotated frames, extreme stretches; 14 classes of special
deformations - diagonal, isochoric, shear, dilation, rotation .. - as batches of their own
and each point on its own); thorough: larger alphabets.
Each returned stress component is compared with the gradient of the energy taken by an
independent reference (automatic differentiation of the energy in the principal frame,
itself compared with a direct derivative in F and, at sampled states, with 60-digit
differences of the energy). A state is one (energy, space, F); a transition one call."""
import numpy as np

from .. import materials as m
from .. import mech, ref
from ..core import require
from ..points import pointset

ASSUMPTIONS = [
    "energies are twice differentiable at the enumerated deformations",
    "float64 input arrays; det F > 0.05",
]


def cases(ctx):
    out = []
    for spec in mech.catalogue(ctx.quick):
        for space in ("def", "dis", "dil"):
            out.append(dict(spec=spec, space=space, points="quick" if ctx.quick else "full"))
    for spec in ORACLE:
        for space in ("def", "dis", "dil"):
            out.append(dict(oracle=spec, space=space))
    return out


ORACLE = [["tod", mech.TOD, False], ["poly", mech.MIXED, "none"], ["torch", "full", "float64"],
          ["ogden", [1.0, 0.5], [0.436, -2.0]], ["coup", "e1e2"], ["gen", mech.TOD, False, "deformation", 1.4],
          ["genpoly", mech.MIXED, "strain", -2.0]]


def mp_energy(spec):
    import mpmath as mp

    M = lambda x: mp.mpf(x)
    if spec[0] == "ogden":
        return lambda *l: sum(2 * M(u) / M(k) ** 2 * sum(x ** M(k) - 1 for x in l) for u, k in zip(*spec[1:3]))
    if spec[0] == "coup" and spec[1] == "e1e2":
        return lambda a, b, c: M(0.2) * (a + b + c) * (a * b + b * c + a * c)
    if spec[0] == "torch":
        def W(l1, l2, l3):
            x, y, z = l1**2, l2**2, l3**2
            I1, I2, I3 = x + y + z, x * y + y * z + x * z, x * y * z
            return M(0.3) * I1 * I2 / I3 + M(0.1) * mp.exp(M(0.05) * (I1 - 3)) * I3 + M(0.02) * I2**2
        return W
    return m.energy(spec)[0]  # polynomial: the same function works on mpf


def run(case, ctx):
    if "oracle" in case:
        return oracle(case["oracle"], case["space"], ctx)
    spec, space = case["spec"], case["space"]
    F = pointset(case["points"])
    um = m.umat(spec, space)
    r = mech.reference(spec, space, F, False)
    P = mech.check_stress(ctx, um, spec, space, F, r)
    mech.check_classes(ctx, spec, space, False)
    n = F.shape[-1]
    ctx.states(n, case)
    ctx.trace(n)
    ctx.outcome(P[:, :, :: max(n // 3, 1)])
    ctx.sample(f"{spec} in {space}: {n} deformations, P[0,0] at the last one {P[0, 0, -1]:.6g}")


def oracle(spec, space, ctx):
    "the reference against two other references"
    W, Wi = m.energy(spec)
    F = pointset("quick")
    r = ref.principal(W, space, F)
    sP, sA = mech.scales(r)
    if Wi is not None:
        P, A = ref.direct(Wi, space, F)
        require(np.all(np.abs(P - r["P"]) <= 1e-10 * sP), "reference P differs from direct derivative")
        require(np.all(np.abs(A - r["A"]) <= 1e-10 * sA), "reference A differs from direct derivative")
    F = pointset("small")[..., ::13]
    r = ref.principal(W, space, F)
    sP, sA = mech.scales(r)
    Wm = mp_energy(spec)
    for n in range(F.shape[-1]):
        C = F[..., n].T @ F[..., n]
        S, C4 = ref.mp_tangent(Wm, space, C)
        s = sA[n] / r["lmin"][n] ** 2
        require(np.all(np.abs(S - r["S"][..., n]) <= 1e-10 * s), "reference S differs from 60-digit differences")
        require(np.all(np.abs(C4 - r["C4"][..., n]) <= 1e-10 * s), "reference C4 differs from 60-digit differences")
        ctx.count("oracle_points")
