"""Strain and deformation measures x exponents of a lattice (-5 .. 5 in steps of 0.25 without
0; integers as int and float; next to integers; 8, 12; small ones down to 0.001) and user-defined measures with parameters (own reference
values, non-zero initial value, non-vanishing second derivative) x all monomials up to
degree two in the generalized invariants, all third-order patterns and a dense polynomial x
3 spaces x a finite alphabet of deformation gradients: stress and elasticity are compared
with the derivatives of the documented energy of the normalised invariants. The elasticity
at the undeformed state in volume-preserving directions is compared across all exponents;
for exponent two the normalisation coefficients of the documented formula are one. A state
is one (measure, exponent, energy, space, F)."""
import numpy as np

import hyperelastic as hel

from .. import materials as m
from .. import mech, ref
from ..core import require
from ..points import pointset

ASSUMPTIONS = ["exponents and measures with finite normalisation coefficients"]


def exponents(quick):
    ks = [k / 4 for k in range(-20, 21) if k]
    small = [s * k for k in (0.1, 0.02, 0.005, 1e-3) for s in (1, -1)]
    return [-5, -3.5, -2, -1, -0.25, 0.5, 1, 1.75, 2, 3, 5, 8, 2.003, 0.996, -1.002, 12, -9.5, *small[::3]] if quick else ks + [1, 2, 3, -2, 8, -8, 2.003, 0.996, -1.002, 1.0001, 2.00001, 12, -9.5, *small]


def users():
    return [("mix", 0.7), ("mix", 1.3), ("mix", 1.0), ("mix", 0.2), ("shift", 0.3), ("shift", 1.0), ("shift", 0.9), ("shift", -2.0), ("biot", 1), ("biot", 0.5), ("biot", -2.0), ("half", 1), ("half", 0.3), ("half", 2.0)]


def cases(ctx):
    out = []
    for name in ("strain", "deformation"):
        for k in exponents(ctx.quick):
            out.append(dict(kind="energy", measure=name, k=k))
    for name, k in users():
        out.append(dict(kind="energy", measure=name, k=k))
    for name in ("strain", "deformation", "mix", "shift", "biot"):
        for n in range(1, 32):
            out.append(dict(kind="initial", measure=name, tod=n))
    return out


def run(case, ctx):
    if case["kind"] == "initial":
        return initial(case, ctx)
    name, k = case["measure"], case["k"]
    F = pointset("tiny" if ctx.quick else "small")
    n = F.shape[-1]
    E0, c1, c2 = m.gen_coefficients(name, k)
    if name in ("strain", "deformation") and k == 2:
        require(abs(c1 - 1) < 1e-14 and abs(c2 - 1) < 1e-14, "normalisation of the reference measure")
    specs = [["genpoly", [[*t, 0.3]], name, k] for t in mech.monomials(2)]
    specs += [["genpoly", mech.MIXED, name, k], ["genpoly", mech.MIXED, name, k, "array"]]
    specs += [["gen", p, name != "deformation", name, k] for p in mech.tod_subsets()]
    for spec in specs:
        for sp in ("def", "dis", "dil"):
            r = mech.reference(spec, sp, F, True)
            sP, sA = mech.scales(r)
            sP, sA = sP + 1e-6, sA + 1e-6
            um = m.umat(spec, sp)
            P, A = mech.stress(um, F.copy()), mech.tangent(um, F.copy())
            ctx.step(2)
            mech.compare(ctx, P, r["P"], sP, 1e-10, f"{spec} in {sp}: stress", F)
            mech.compare(ctx, A, r["A"], sA, mech.tangent_tol(r, spec), f"{spec} in {sp}: elasticity", F)
            ctx.states(n, spec, sp)
            ctx.trace(n)
    ctx.outcome(P)
    ctx.sample(f"{name} {k}: {len(specs)} energies x 3 spaces x {n} deformations")


def initial(case, ctx):
    "distortional elasticity at the undeformed state for all exponents"
    name = case["measure"]
    p = list(mech.tod_subsets())[case["tod"]]
    if name == "shift":
        # own initial value: the invariants are only normalised together with their offset
        p = {a: b for a, b in p.items() if a in ("C10", "C01")} or {"C10": 0.5}
    ks = {"strain": exponents(False), "deformation": exponents(False), "mix": [0.7, 1.0, 1.3, 0.2, 2.0], "shift": [0.3], "biot": [1, 0.5, 2.0, -1.0]}[name]
    first = None
    I = np.eye(3)
    for k in ks:
        A = mech.tangent(m.umat(["gen", p, name != "deformation", name, k], "dis"), I.copy())
        Ab = mech.tangent(m.umat(["gen", p, name != "deformation", name, k], "dis"), np.repeat(I[..., None], 4, axis=-1))
        ctx.step(2)
        if first is None:
            first = A
        sc = np.abs(first).max() + 0.01
        require(np.all(np.abs(A - first) <= 1e-6 * sc), f"{name} {p}: initial elasticity depends on the exponent {k}")
        require(np.all(np.abs(Ab - first[..., None]) <= 1e-6 * sc), f"{name} {p}: initial elasticity depends on the exponent {k}")
        ctx.state(case, k)
        ctx.trace(2)
    if name in ("strain", "deformation"):
        # documented initial shear modulus: 2 (C10 + C01) in the stretches around l = 1
        G = 2 * (p.get("C10", 0) + p.get("C01", 0)) if name == "deformation" else None
        if G is not None:
            require(abs(first[0, 1, 0, 1] - G) <= 1e-6 * (abs(G) + 0.01), f"{name} {p}: initial shear modulus {first[0, 1, 0, 1]} instead of {G}")
    ctx.outcome(first)
