"""All 2^5 coefficient patterns of the third-order energy and all monomials (and a dense
polynomial) in the three invariants x 3 spaces x deformation gradients of a finite alphabet,
each expressed as: third-order-deformation model, user model on invariants, user model on
principal stretches, generalized invariants with the squared-stretch measure, automatic
differentiation. All formulations are compared pairwise with the first one. A state is one
(energy, space, F, formulation)."""
import numpy as np
import torch

import hyperelastic as hel

from .. import materials as m
from .. import mech
from ..points import pointset

ASSUMPTIONS = []


def cases(ctx):
    out = []
    for p in mech.tod_subsets():
        for sp in ("def", "dis", "dil"):
            out.append(dict(terms=m.tod_terms(p), tod=p, space=sp))
    for t in mech.monomials(3):
        for sp in ("def", "dis", "dil"):
            out.append(dict(terms=[[*t, 0.3]], space=sp))
    for sp in ("def", "dis", "dil"):
        out.append(dict(terms=mech.MIXED, space=sp))
    for mu, al in (([0.8], [2.0]), ([0.3], [4.0]), ([0.5, -0.2], [2.0, -2.0])):
        for sp in ("def", "dis", "dil"):
            out.append(dict(ogden=[mu, al], space=sp))
    return out


def formulations(case):
    """yield (name, umat, gap-dependent)"""
    sp = m.SPACES[case["space"]]
    torch.set_default_dtype(torch.float64)
    if "ogden" in case:
        mu, al = case["ogden"]
        yield "Ogden", m.umat(["ogden", mu, al], case["space"])
        W = m.ogden_W(mu, al)
        yield "user stretches", sp(hel.StretchesFramework(m.StretchModel(W)))

        def Wi(I1, I2, I3):
            out = 0 * I1
            for u, a in zip(mu, al):
                tr = {2.0: I1 - 3, 4.0: I1**2 - 2 * I2 - 3, -2.0: I2 / I3 - 3}[a]
                out = out + 2 * u / a**2 * tr
            return out

        yield "torch", sp(hel.InvariantsFramework(hel.models.invariants.TorchModel(Wi)))
        return
    t = case["terms"]
    if "tod" in case:
        p = case["tod"]
        tod = hel.models.invariants.ThirdOrderDeformation(**p)
        yield "tod", sp(hel.InvariantsFramework(tod))
        yield "gen tod", m.umat(["gen", p, False, "deformation", 2.0], case["space"])
        yield "gen tod int", m.umat(["gen", p, False, "deformation", 2], case["space"])
    yield "poly none", m.umat(["poly", t, "none"], case["space"])
    yield "poly array", m.umat(["poly", t, "array"], case["space"])
    yield "stretches", m.umat(["spoly", t], case["space"])
    yield "gen poly", m.umat(["genpoly", t, "deformation", 2.0], case["space"])
    yield "torch", sp(hel.InvariantsFramework(hel.models.invariants.TorchModel(m._poly(t))))


def run(case, ctx):
    F = pointset("small" if ctx.quick else "quick")
    n = F.shape[-1]
    if "ogden" in case:
        spec = ["ogden", *case["ogden"]]
    else:
        spec = ["poly", case["terms"], "none"]
    r = mech.reference(spec, case["space"], F, False)
    sP, sA = mech.scales(r)
    tol = np.where(r["gap"] > mech.GAP, 1e-10, 2e-6)
    base = None
    for name, um in formulations(case):
        P, A = mech.stress(um, F.copy()), mech.tangent(um, F.copy())
        ctx.step(2)
        if base is None:
            base = (name, P, A)
        else:
            mech.compare(ctx, P, base[1], sP, 1e-10, f"{case}: stress of {name} vs. {base[0]}", F)
            mech.compare(ctx, A, base[2], sA, tol, f"{case}: elasticity of {name} vs. {base[0]}", F)
            ctx.trace(n)
        ctx.states(n, case, name)
    ctx.outcome(base[1])
    ctx.sample(f"{case} at {n} deformations")
