"""All combinations of force {None, 0} x area {None, 0} x finalize x 3 spaces x energies
(including the neo-Hookean one, whose tensors are broadcastable) x deformation gradients of
a finite alphabet x batch shapes, compared with the Piola transforms of the reference (and,
among each other, of the default). The transformation itself is called with every
combination of options, supplied/omitted determinant and inverse, and full / singleton
shapes of stress and elasticity. A state is one (configuration, energy, F)."""
import itertools

import numpy as np

import hyperelastic as hel
import hyperelastic.math as hm

from .. import materials as m
from .. import mathref as mr
from .. import mech, ref
from ..core import require
from ..points import pointset

ASSUMPTIONS = ["stress and elasticity handed to the transformation have as many axes as F implies"]

SPECS = [["tod", dict(C10=0.5), False], ["tod", mech.TOD, False], ["poly", mech.MIXED, "none"],
         ["poly", [[0, 0, 2, 0.4]], "none"], ["poly", [[0, 1, 0, 0.4]], "ones"], ["ogden", [1.0, 0.3], [1.3, -2.0]],
         ["coup", "lin", "none"], ["gen", mech.TOD, True, "strain", 1.4], ["torch", "neo", "float64"], ["torch", "full", "float64"]]
SHAPES = [(), (1,), (4,), (2, 3), (1, 4), (3, 1), (2, 1, 3)]
CONF = list(itertools.product((None, 0), (None, 0), (True, False)))


def cases(ctx):
    out = []
    for spec in SPECS:
        for space in ("def", "dis", "dil"):
            out.append(dict(kind="space", spec=spec, space=space))
    for s in SHAPES:
        for ss in range(3):
            for cs in range(3):
                out.append(dict(kind="piola", shape=s, stress=ss, elasticity=cs))
    return out


def expect(F, r, force, area, fin):
    s, a = ref.configure(F, r["S"], r["C4"], force, area, fin)
    return s, a


def run(case, ctx):
    if case["kind"] == "piola":
        return piola(case, ctx)
    spec, space = case["spec"], case["space"]
    F = pointset("quick" if not ctx.quick else "small")
    n = F.shape[-1]
    r = mech.reference(spec, space, F, True)
    sP, sA = mech.scales(r)
    sS, sC = sP / r["lmin"], sA / r["lmin"] ** 2
    J = np.linalg.det(np.moveaxis(F, -1, 0))
    big = np.maximum(1, r["lmax"]) ** 2
    sc = {(None, 0): (sP, sA), (0, 0): (sS, sC), (None, None): (sP * big / J, sA * big / J), (0, None): (sS * big / J, sC * big / J)}
    for force, area, fin in CONF:
        for kw in (dict(force=force, area=area, finalize=fin),):
            um = m.umat(spec, space, **kw)
            what = f"{spec} in {space} with {kw}"
            s, a = expect(F, r, force, area, fin)
            x, y = sc[(force, area)] if fin else (sS, sC)
            x, y = x * np.maximum(1, r["lmax"]), y * np.maximum(1, r["lmax"])
            P, A = mech.stress(um, F.copy()), mech.tangent(um, F.copy())
            if not fin:
                require(np.shape(P)[0] == 6 and np.shape(A)[:2] == (6, 6), f"{what}: reduced storage expected, got {np.shape(P)} {np.shape(A)}")
                P = np.broadcast_to(mr.full2(P), s.shape)
                A = np.broadcast_to(mr.full4(A), a.shape)
            mech.compare(ctx, P, s, x, 1e-10, f"{what}: stress", F)
            mech.compare(ctx, A, a, y, mech.tangent_tol(r, spec), f"{what}: elasticity", F)
            ctx.step(2)
            ctx.states(n, case, kw)
            ctx.trace(n)
            # other batch shapes of the same points
            for shp in SHAPES:
                q = int(np.prod(shp))
                G = F[..., 60 : 60 + q].reshape(3, 3, *shp)
                P, A = mech.stress(um, G), mech.tangent(um, G)
                ss, aa = s[..., 60 : 60 + q], a[..., 60 : 60 + q]
                if not fin:
                    P = np.broadcast_to(mr.full2(P), (3, 3, *shp))
                    A = np.broadcast_to(mr.full4(A), (3, 3, 3, 3, *shp))
                require(P.shape == (3, 3, *shp) and A.shape == (3, 3, 3, 3, *shp), f"{what}: shapes {P.shape} {A.shape} for batch {shp}")
                mech.compare(ctx, P.reshape(3, 3, -1), ss, x[60 : 60 + q], 1e-10, f"{what}: stress, batch {shp}")
                mech.compare(ctx, A.reshape(3, 3, 3, 3, -1), aa, y[60 : 60 + q], 1e-6 if mech.stretch_based(spec) else 1e-10, f"{what}: elasticity, batch {shp}")
                ctx.step(2)
    ctx.outcome(P)
    ctx.sample(f"{spec} in {space}: 8 configurations x {n} deformations")


def piola(case, ctx):
    shp = tuple(case["shape"])
    n = int(np.prod(shp))
    one = (1,) * len(shp)
    F = pointset("small")[..., 31 : 31 + 5 * n : 5].reshape(3, 3, *shp)
    detF = np.linalg.det(np.moveaxis(F, (0, 1), (-2, -1)))
    C = np.einsum("kI...,kJ...->IJ...", F, F)
    invC = np.moveaxis(np.linalg.inv(np.moveaxis(C, (0, 1), (-2, -1))), (-2, -1), (0, 1))
    invC6 = np.array([invC[i, j] for i, j in mr.VI])

    def arr(head, kind, seed, scale):
        # 0: full batch, 1: singleton axes, 2: first axis full, others singleton
        t = shp if kind == 0 else one if kind == 1 else shp[:1] + one[1:]
        k = np.arange(int(np.prod(head + t)))
        return np.array(np.sin(1.3 * k + seed)).reshape(head + t) * scale

    for scale in (1.0, 1e-9, 1e9):
        S = arr((6,), case["stress"], 1, scale)
        C4 = arr((6, 6), case["elasticity"], 2, scale)
        C4 = C4 + np.swapaxes(C4, 0, 1)
        fF = F.reshape(3, 3, -1)
        fS = np.broadcast_to(mr.full2(S), (3, 3, *shp)).reshape(3, 3, -1)
        fC = np.broadcast_to(mr.full4(C4), (3, 3, 3, 3, *shp)).reshape(3, 3, 3, 3, -1)
        for force, area, fin in CONF:
            cls = list(m.SPACES.values())[(case["stress"] + case["elasticity"]) % 3]
            sp = cls(m.framework(SPECS[0]), finalize=fin, force=force, area=area)
            s, a = ref.configure(fF, fS, fC, force, area, fin)
            for d, i in itertools.product((False, True), repeat=2):
                kw = {}
                if d:
                    kw["detF"] = detF.copy()
                if i:
                    kw["invC"] = invC6.copy()
                what = f"piola force={force} area={area} finalize={fin}, supplied {list(kw)}, batch {shp}, S {S.shape} C4 {C4.shape} scale {scale}"
                before = [x.tobytes() for x in (F, S, C4, *kw.values())]
                P = sp.piola(F, S, **kw)
                A = sp.piola(F, S, C4=C4, **kw)
                P2 = sp.piola(F=F, S=S, **kw)
                ctx.step(3)
                require(before == [x.tobytes() for x in (F, S, C4, *kw.values())], f"{what}: arguments modified")
                if not fin:
                    P, P2 = [np.broadcast_to(mr.full2(x), (3, 3, *shp)) for x in (P, P2)]
                    A = np.broadcast_to(mr.full4(A), (3, 3, 3, 3, *shp))
                require(P.shape == (3, 3, *shp) and A.shape == (3, 3, 3, 3, *shp), f"{what}: shapes {P.shape} {A.shape}")
                for got, want in ((P, s), (P2, s), (A, a)):
                    err = np.abs(got.reshape(want.shape) - want)
                    require(bool(np.all(err <= 1e-12 * (scale + np.abs(want).max()))), f"{what}: error {err.max():.2e}")
                ctx.state(case, scale, force, area, fin, d, i)
                ctx.trace()
    ctx.outcome(P)
    ctx.sample(f"piola on batch {shp}: 3 magnitudes x 8 configurations x supplied/omitted determinant and inverse")
