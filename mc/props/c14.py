"""Energies of every kind x 3 spaces x scale factors 10^-12 .. 10^12 (and 3.7e-7, 2.5e9) of
all moduli x deformation gradients of a finite alphabet: scaled energies give scaled stress
and elasticity (exactly up to rounding); all pairs of a 14-energy alphabet, with relative
magnitudes 1e-9 .. 1e9, all pairs of third-order patterns with factors 1, -1, -2, 3 (sums
that vanish among them) and all pairs of Ogden exponents: the response of the sum is the
sum of the responses. A state is one
(energy, space, factor, F)."""
import itertools

import numpy as np
import torch

import hyperelastic as hel

from .. import materials as m
from .. import mech
from ..core import require
from ..points import pointset

ASSUMPTIONS = []
FACTORS = [10.0**k for k in range(-12, 13)] + [3.7e-7, 2.5e9]
FACTORS_Q = [1e-12, 1e-9, 1e-8, 3.7e-7, 1e-6, 1e-4, 1e3, 1e6, 2.5e9, 1e12]
BASE = ([["tod", p, False] for p in mech.tod_subsets() if p] + [["poly", [[*t, 0.3]], "none"] for t in mech.monomials(2)]
        + [["poly", mech.MIXED, "none"], ["poly", mech.MIXED, "array"]] + [["torch", n] for n in m.TORCH]
        + [["ogden", [0.7], [a]] for a in mech.OGDEN[::2]] + [["ogden", [1.0, 0.5, -0.2], [1.3, 5.0, -2.0]]]
        + [["coup", n, e] for n in m.COUPLED for e in ("list", "none", "array")]
        + [["gen", p, True, "strain", 1.4] for p in mech.tod_subsets() if p] + [["genpoly", mech.MIXED, "deformation", 1.4], ["genpoly", mech.MIXED, "mix", 1.3]])


def build(spec, s, space):
    "the material with all moduli multiplied by s"
    k = spec[0]
    if k == "tod":
        return m.umat(["tod", {a: b * s for a, b in spec[1].items()}, spec[2]], space)
    if k == "gen":
        return m.umat(["gen", {a: b * s for a, b in spec[1].items()}, *spec[2:]], space)
    if k in ("poly", "genpoly"):
        return m.umat([k, [[*t[:3], t[3] * s] for t in spec[1]], *spec[2:]], space)
    if k == "ogden":
        return m.umat(["ogden", [x * s for x in spec[1]], spec[2]], space)
    if k == "coup":
        W = m.COUPLED[spec[1]]
        return m.SPACES[space](hel.StretchesFramework(m.StretchModel(lambda a, b, c: s * W(a, b, c), spec[2])))
    if k == "torch":
        torch.set_default_dtype(torch.float64)
        W = m.TORCH[spec[1]]
        return m.SPACES[space](hel.InvariantsFramework(hel.models.invariants.TorchModel(lambda I1, I2, I3, scale: scale * W(I1, I2, I3), scale=s)))
    raise KeyError(k)


SUM = [["poly", [[*t, 0.3]], "none"] for t in mech.monomials(2)]


def cases(ctx):
    out = [dict(kind="scale", spec=s, space=sp) for s in BASE for sp in ("def", "dis", "dil")]
    for a in range(len(SUM)):
        for sp in ("def", "dis", "dil"):
            out.append(dict(kind="sum", a=a, space=sp, fw="poly"))
            out.append(dict(kind="sum", a=a, space=sp, fw="genpoly"))
    for a in range(1, 32):
        for sp in ("def", "dis", "dil"):
            out.append(dict(kind="tod", a=a, space=sp))
    for a in range(len(mech.OGDEN)):
        for sp in ("def", "dis", "dil"):
            out.append(dict(kind="ogden", a=a, space=sp))
    return out


def run(case, ctx):
    {"scale": scale, "sum": sums, "ogden": ogden, "tod": tod}[case["kind"]](case, ctx)


def scale(case, ctx):
    spec, sp = case["spec"], case["space"]
    F = pointset("small")[..., :: 1 if not ctx.quick else 2]
    n = F.shape[-1]
    um = build(spec, 1.0, sp)
    P, A = mech.stress(um, F.copy()), mech.tangent(um, F.copy())
    full = spec if spec[0] != "torch" else [*spec, "float64"]
    r = mech.reference(full, sp, F, False)
    sP, sA = mech.scales(r)
    sP, sA = sP + 1e-6 * 0, sA
    mech.compare(ctx, P, r["P"], sP, 1e-10, f"{spec} {sp}: stress")
    near = np.where(r["gap"] > mech.GAP, 1e-10, 1e-6) if mech.stretch_based(spec) else 1e-10
    for s in FACTORS_Q if ctx.quick else FACTORS:
        u = build(spec, s, sp)
        Ps, As = mech.stress(u, F.copy()) / s, mech.tangent(u, F.copy()) / s
        mech.compare(ctx, Ps, P, sP, 1e-10, f"{spec} {sp}: stress with moduli scaled by {s}", F)
        mech.compare(ctx, As, A, sA, near, f"{spec} {sp}: elasticity with moduli scaled by {s}", F)
        # other configurations of the same material
        ctx.step(2)
        ctx.states(n, case, s)
        ctx.trace(n)
    ctx.outcome(P)
    ctx.sample(f"{spec} in {sp}: moduli scaled by 1e-12 .. 1e12 at {n} deformations")


def scale_of(spec, F):
    "magnitude of the stresses and elasticities before any projection"
    return sum(float(x.max()) for sp in ("def", "dis") for x in mech.scales(mech.reference(spec, sp, F, False)))


def sums(case, ctx):
    sp, fw = case["space"], case["fw"]
    F = pointset("tiny")
    n = F.shape[-1]
    tail = ["none"] if fw == "poly" else ["strain", 1.4]
    mk = lambda terms: m.umat([fw, terms, *tail], sp)
    a = SUM[case["a"]][1]
    Ra = mk(a)
    Pa, Aa = mech.stress(Ra, F.copy()), mech.tangent(Ra, F.copy())
    sca = scale_of([fw, a, *tail], F)
    for b in SUM:
        for s in (1e-9, 1e-4, 1.0, 1e6, 1e9):
            tb = [[*b[1][0][:3], b[1][0][3] * s]]
            Pb, Ab = mech.stress(mk(tb), F.copy()), mech.tangent(mk(tb), F.copy())
            S = mk(a + tb)
            P, A = mech.stress(S, F.copy()), mech.tangent(S, F.copy())
            ctx.step(4)
            sc = sca + scale_of([fw, tb, *tail], F)
            mech.compare(ctx, P, Pa + Pb, sc, 1e-12, f"{fw} {sp}: stress of the sum {a} + {tb}", F)
            mech.compare(ctx, A, Aa + Ab, sc, 1e-12 if fw == "poly" else 1e-7, f"{fw} {sp}: elasticity of the sum {a} + {tb}", F)
            ctx.states(n, case, b, s)
            ctx.trace(n)


def tod(case, ctx):
    "third-order deformation: sums and differences (also vanishing ones) of coefficients"
    sp = case["space"]
    F = pointset("tiny")[..., :: 2 if ctx.quick else 1]
    n = F.shape[-1]
    sub = [{k: 0.25 for k in p} for p in mech.tod_subsets()]
    p = sub[case["a"]]
    make = lambda q: m.umat(["tod", q, False], sp)
    both = lambda q: (mech.stress(make(q), F.copy()), mech.tangent(make(q), F.copy()))
    Pp, Ap = both(p)
    sP, sA = mech.scales(mech.reference(["tod", p, False], "def", F, False))
    for q in sub:
        Pq, Aq = both(q)
        for f in (1, -1, -2, 3):
            t = {k: p.get(k, 0) + f * q.get(k, 0) for k in mech.KEYS}
            P, A = both(t)
            ctx.step(2)
            tP, tA = mech.scales(mech.reference(["tod", q, False], "def", F, False)) if q else (0, 0)
            mech.compare(ctx, P, Pp + f * Pq, sP + 3 * tP, 1e-10, f"third-order deformation in {sp}: stress of {p} + {f} * {q}", F)
            mech.compare(ctx, A, Ap + f * Aq, sA + 3 * tA, 1e-10, f"third-order deformation in {sp}: elasticity of {p} + {f} * {q}", F)
            ctx.states(n, case, q, f)
            ctx.trace(n)
    ctx.sample(f"third-order deformation {p} in {sp}: sums with 31 x 4 others")


def ogden(case, ctx):
    sp = case["space"]
    F = pointset("tiny")
    n = F.shape[-1]
    a = mech.OGDEN[case["a"]]
    one = m.umat(["ogden", [0.7], [a]], sp)
    Pa, Aa = mech.stress(one, F.copy()), mech.tangent(one, F.copy())
    for b in mech.OGDEN:
        for s in (1e-9, 1.0, 1e6):
            two = m.umat(["ogden", [0.4 * s], [b]], sp)
            S = m.umat(["ogden", [0.7, 0.4 * s], [a, b]], sp)
            Pb, Ab = mech.stress(two, F.copy()), mech.tangent(two, F.copy())
            P, A = mech.stress(S, F.copy()), mech.tangent(S, F.copy())
            ctx.step(4)
            sc = np.abs(Aa).max() + np.abs(Ab).max() + np.abs(Pa).max() + np.abs(Pb).max()
            mech.compare(ctx, P, Pa + Pb, sc, 1e-12, f"Ogden {sp}: stress of the sum of exponents {a} {b}", F)
            mech.compare(ctx, A, Aa + Ab, sc, 1e-7, f"Ogden {sp}: elasticity of the sum of exponents {a} {b}", F)
            ctx.states(n, case, b, s)
            ctx.trace(n)
