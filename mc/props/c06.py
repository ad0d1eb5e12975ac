"""As for C05, the 81 components of the elasticity tensor of every enumerated (energy,
space, deformation gradient) are compared with the second derivative of the energy
(including the initial-stress part) of the reference model, and with the major symmetry
A_iJkL = A_kLiJ; at nearly repeated stretches the tolerance allows for the cancellation
inherent in double precision (1e-16/gap). A state is one (energy, space, F)."""
import numpy as np

from .. import materials as m
from .. import mech
from ..points import pointset
from . import c05

ASSUMPTIONS = c05.ASSUMPTIONS


def cases(ctx):
    return [c for c in c05.cases(ctx) if "oracle" not in c or ctx.quick is False]


def run(case, ctx):
    if "oracle" in case:
        return c05.oracle(case["oracle"], case["space"], ctx)
    spec, space = case["spec"], case["space"]
    F = pointset(case["points"])
    chunk = 6000
    for k in range(0, F.shape[-1], chunk):
        G = F[..., k : k + chunk]
        um = m.umat(spec, space)
        r = mech.reference(spec, space, G, True)
        A = mech.check_tangent(ctx, um, spec, space, G, r)
        mech.compare(ctx, A, np.einsum("kliJn->iJkln", A), mech.scales(r)[1], 1e-9,
                     f"major symmetry of {spec} in {space}", G)
    mech.check_classes(ctx, spec, space, True, 2 if ctx.quick else 1)
    n = F.shape[-1]
    ctx.states(n, case)
    ctx.trace(n)
    ctx.outcome(A[..., :: max(n // 3, 1)])
    ctx.sample(f"{spec} in {space}: {n} deformations, A[0,0,0,0] at the last one {A[0, 0, 0, 0, -1]:.6g}")
