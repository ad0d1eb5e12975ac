"""All 2^9 = 512 subsets of the nine monomials {x, y, z, x^2, y^2, z^2, xy, yz, xz} in the
(generalized) invariants, i.e. all patterns of vanishing / constant / varying first and
second derivatives, x encodings of the derivatives (None, 0, 0.0, full array, singleton
array, tuple/list) x 3 spaces x {invariants, generalized invariants with two measures};
for principal stretches 7 coupled energies and all 2^4 sums of {linear, quadratic, product,
volume} terms x encodings of gradient and hessian; polynomials about the state at hand, whose
derivatives vanish just there (all 511 subsets x encodings x 4 states); derivatives as arrays
of all shapes that broadcast to the batch, also mixed, and with values that cancel in the sum,
vanish at some of the points or differ by orders of magnitude. Every result is compared with the
reference. A state is one (energy, encoding, space, F)."""
import itertools

import numpy as np
import torch

import hyperelastic as hel

from .. import materials as m
from .. import mech
from ..core import require
from ..points import pointset

ASSUMPTIONS = ["first derivatives w.r.t. principal stretches are given as numbers or arrays (not None)"]
MONO = [[1, 0, 0, 0.5], [0, 1, 0, 0.2], [0, 0, 1, -0.3], [2, 0, 0, 0.1], [0, 2, 0, 0.07],
        [0, 0, 2, 0.4], [1, 1, 0, 0.11], [0, 1, 1, -0.13], [1, 0, 1, 0.17]]
ENC = ("none", "zero", "array", "ones")


def subsets():
    for n in range(1, 512):
        yield [t for k, t in enumerate(MONO) if n >> k & 1]


def cases(ctx):
    out = []
    subs = list(subsets())
    for k in range(0, len(subs), 8):
        for sp in ("def", "dis", "dil"):
            out.append(dict(kind="inv", first=k, space=sp))
            out.append(dict(kind="gen", first=k, space=sp, measure="strain", k=1.4))
            out.append(dict(kind="gen", first=k, space=sp, measure="deformation", k=-1.0))
            if not ctx.quick:
                out.append(dict(kind="gen", first=k, space=sp, measure="mix", k=1.3))
    for k in range(0, len(subs), 64):
        for sp in ("def", "dis", "dil"):
            for fw in ("inv", "gen"):
                out.append(dict(kind="state", first=k, space=sp, fw=fw))
    for batch in ((2, 3), (6, 3), (3, 6), (6, 6), (1, 6), (6, 1), (3, 3), (1, 1)):
        for fw in ("inv", "gen", "str"):
            for sp in ("def", "dis", "dil"):
                out.append(dict(kind="field", batch=batch, fw=fw, space=sp))
    for fw in ("inv", "gen", "str"):
        for sp in ("def", "dis", "dil"):
            out.append(dict(kind="pattern", fw=fw, space=sp))
    for sp in ("def", "dis", "dil"):
        for n in range(1, 16):
            out.append(dict(kind="stretch", terms=n, space=sp))
        for name in m.COUPLED:
            out.append(dict(kind="stretch", name=name, space=sp))
    return out


class Encoded(m.PolyModel):
    "all the encodings, also mixed within one model, in tuples and lists"

    def conv(self, v, n, I):
        e = self.enc
        if e == "mixed":
            e = ("none", "array", "ones", "zero")[n % 4]
        shape = np.shape(I[0])
        if v is None or (np.ndim(v) == 0 and v == 0):
            return {"none": None, "zero": 0, "array": np.zeros(shape), "ones": np.zeros((1,) * len(shape)), "int": 0}[e]
        if np.ndim(v) == 0:
            return {"none": float(v), "zero": float(v), "array": np.full(shape, v), "ones": np.full((1,) * len(shape), v), "int": np.float64(v)}[e]
        return v

    def gradient(self, I1, I2, I3, statevars):
        I = (I1, I2, I3)
        g = [self.conv(m.PolyModel(self.terms, "none", self.offset).d(I, [a]), a, I) for a in range(3)]
        return [*g, statevars] if self.enc in ("zero", "mixed") else (*g, statevars)

    def hessian(self, I1, I2, I3, statevars):
        I = (I1, I2, I3)
        o = ([0, 0], [1, 1], [2, 2], [0, 1], [1, 2], [0, 2])
        h = [self.conv(m.PolyModel(self.terms, "none", self.offset).d(I, x), n + 1, I) for n, x in enumerate(o)]
        return h if self.enc in ("none", "mixed") else tuple(h)


class AtState:
    """A polynomial about the state at hand: its derivatives vanish there (but not
    identically) and are given as None (in the other encodings as arrays or numbers)."""

    def __init__(self, terms, enc):
        self.terms, self.enc, self.I = terms, enc, None

    def d(self, order, I):
        v = np.zeros(np.shape(I[0])) + (m.PolyModel(self.terms, "array", self.I).d(I, order))
        if self.enc == "none" and not np.any(v):
            return None
        if self.enc == "number" and np.all(v == v.ravel()[:1]):
            return float(v.ravel()[0])
        return v

    def gradient(self, I1, I2, I3, statevars):
        self.I = (I1, I2, I3)
        return *(self.d([a], self.I) for a in range(3)), statevars

    def hessian(self, I1, I2, I3, statevars):
        I = (I1, I2, I3)
        return [self.d(o, I) for o in ([0, 0], [1, 1], [2, 2], [0, 1], [1, 2], [0, 2])]


def state(case, ctx):
    F = pointset("tiny")
    n = F.shape[-1]
    sel = [0, n // 3, n // 2, n - 1]
    for terms in list(subsets())[case["first"] : case["first"] + 64]:
        # each with each pattern of vanishing first derivatives
        for k in sel:
            G = F[..., k].copy().reshape(3, 3, 1)
            res = {}
            for enc in ("array", "none", "number"):
                mo = AtState(terms, enc)
                fw = hel.InvariantsFramework(mo) if case["fw"] == "inv" else hel.GeneralizedInvariantsFramework(mo, fun=hel.models.generalized.strain, exponent=1.4)
                um = m.SPACES[case["space"]](fw)
                res[enc] = mech.stress(um, G), mech.tangent(um, G)
                ctx.step(2)
            what = f"{terms} about the state itself in {case['space']}, {case['fw']}"
            for enc in ("none", "number"):
                for w, a, b in zip(("stress", "elasticity"), res[enc], res["array"]):
                    # cancellation between terms: scale by the largest term
                    sc = np.array([np.abs(b).max() + 1e-3])
                    mech.compare(ctx, a, b, sc, 1e-10, f"{what}: {w} with derivatives as '{enc}' instead of arrays", G)
            ctx.state(case, terms, k)
            ctx.trace(2)
    ctx.outcome(res["array"][1])


class Field:
    "nine given values (numbers or arrays), whatever the deformation is"

    def __init__(self, c, stretches):
        self.c, self.stretches = c, stretches

    def gradient(self, *args):
        g = self.c[:3]
        return (g, args[-1]) if self.stretches else (*g, args[-1])

    def hessian(self, *args):
        return self.c[3:]


def field(case, ctx):
    "coefficients that belong to the points: arrays of all broadcastable shapes"
    p, q = case["batch"]
    F = np.eye(3).reshape(3, 3, 1, 1) + 0.25 * np.sin(np.arange(9.0 * p * q)).reshape(3, 3, p, q)
    shapes = [(), (1,), (q,), (1, 1), (1, q), (p, 1), (p, q)]
    fws = {"inv": hel.InvariantsFramework, "str": hel.StretchesFramework,
           "gen": lambda mo: hel.GeneralizedInvariantsFramework(mo, fun=hel.models.generalized.strain, exponent=1.4)}

    def response(c):
        um = m.SPACES[case["space"]](fws[case["fw"]](Field(c, case["fw"] == "str")))
        ctx.step(2)
        return um.gradient([F.copy(), None])[0], um.hessian([F.copy(), None])[0]

    # all pairs of shapes of first and second derivatives; each derivative in turn of another shape
    todo = [[a] * 3 + [b] * 6 for a in shapes for b in shapes]
    todo += [[b if j == k else a for j in range(9)] for k in range(9) for a in shapes for b in (shapes if not ctx.quick else shapes[2::2])]
    for sh in todo:
        c = [np.asarray(np.cos(1.0 + 3 * k + 0.7 * np.arange(int(np.prod(s)))).reshape(s)) for k, s in enumerate(sh)]
        given = [float(x) if x.ndim == 0 else x.copy() for x in c]
        got = response(given)
        want = response([np.broadcast_to(x, (p, q)).copy() for x in c])
        for w, a, b in zip(("stress", "elasticity"), got, want):
            require(np.shape(a) == np.shape(b) and np.all(np.abs(a - b) <= 1e-11 * np.abs(b).max()), f"{case}: {w} for derivatives of the shapes {sh} is not that of full arrays")
        require(all(np.array_equal(x, y) for x, y in zip(given, c)), f"{case}: derivatives modified")
        ctx.state(case, sh)
        ctx.trace()
    # the point alone
    for i, j in itertools.product(range(p), range(q)):
        um = m.SPACES[case["space"]](fws[case["fw"]](Field([float(np.broadcast_to(x, (p, q))[i, j]) for x in c], case["fw"] == "str")))
        for w, a, b in zip(("stress", "elasticity"), got, (um.gradient([F[..., i, j].copy(), None])[0], um.hessian([F[..., i, j].copy(), None])[0])):
            require(np.all(np.abs(a[..., i, j] - b) <= 1e-10 * np.abs(b).max()), f"{case}: {w} of point {i, j} differs from the point alone")
    ctx.outcome(got[0])


PATTERNS = [[1, -1], [0, 1], [1, 0], [0, -1], [1, -1, -1, 1], [0, 0, 0, 1], [0, 1, 0, 0], [1, 0, 0, 0], [1, 1, -1, -1], [-1, -1, -1, -1], [1, -2, 1],
            [1e-13, 1, 1e-13], [1, 1e-13], [1e-13, 1e-13], [1e12, 1], [1, -1e12], [2, 1, -3, 0, 0, 0], [0, 0, 3, -1, -2, 0], [1, 1, 1, 1, 1, -5]]


def pattern(case, ctx):
    "arrays of derivatives that cancel in the sum, vanish at some points or differ by orders of magnitude"
    fws = {"inv": hel.InvariantsFramework, "str": hel.StretchesFramework,
           "gen": lambda mo: hel.GeneralizedInvariantsFramework(mo, fun=hel.models.generalized.strain, exponent=1.4)}
    H = np.array([[1.1, 0.2, -0.1], [0.05, 0.9, 0.15], [-0.2, 0.1, 1.2]])
    stretches = case["fw"] == "str"
    um = lambda c: m.SPACES[case["space"]](fws[case["fw"]](Field(c, stretches)))
    slots = [[k] for k in range(9)] + [[0, 1, 2], [3, 4, 5], [6, 7, 8], [0, 3], [1, 4], [2, 5], [3, 6], list(range(9))]
    for same in (True, False):
        for v in PATTERNS:
            n = len(v)
            pts = [H if same else H + 0.1 * np.sin(np.arange(9.0) + 2 * k).reshape(3, 3) for k in range(n)]
            F = np.array(pts).transpose(1, 2, 0)
            for slot in slots:
                for rest in (None, 0.3):
                    none = [0.0 if stretches and k < 3 else None for k in range(9)]
                    c = [np.array(v) * (1 + 0.2 * k) if k in slot else none[k] if rest is None else rest + 0.1 * k for k in range(9)]
                    one = [[None if x is None else float(x if np.ndim(x) == 0 else x[i]) for x in c] for i in range(n)]
                    for shape in [(n,)] + ([(n // 2, 2), (1, n, 1)] if n in (2, 4) else []):
                        g = [x.reshape(shape).copy() if np.ndim(x) else x for x in c]
                        P = um(g).gradient([F.reshape(3, 3, *shape), None])[0]
                        A = um(g).hessian([F.reshape(3, 3, *shape), None])[0]
                        ctx.step(2)
                        for i in range(n):
                            for w, a, b, alone in (("stress", P.reshape(3, 3, -1), um(one[i]).gradient([pts[i].copy(), None])[0], 0), ("elasticity", A.reshape(3, 3, 3, 3, -1), um(one[i]).hessian([pts[i].copy(), None])[0], 1)):
                                big = max([abs(x) for x in one[i] if x is not None] + [0])
                                require(np.all(np.abs(a[..., i] - b) <= 1e-11 * max(np.abs(b).max(), big)), f"{case}: {w} of point {i} with derivatives {slot} = {v} (others {rest}), batch shape {shape}, differs from the point alone")
                        ctx.state(case, same, v, slot, rest, shape)
                        ctx.trace(n)
    ctx.outcome(P)


def check(ctx, um, F, r, tol, what, shape=None):
    sP, sA = mech.scales(r)
    sP, sA = sP + 1e-6, sA + 1e-6
    G = F.copy() if shape is None else F.reshape(3, 3, *shape)
    P, A = mech.stress(um, G), mech.tangent(um, G)
    ctx.step(2)
    mech.compare(ctx, P.reshape(3, 3, -1), r["P"], sP, 1e-10, what + ": stress", F)
    mech.compare(ctx, A.reshape(3, 3, 3, 3, -1), r["A"], sA, tol, what + ": elasticity", F)
    ctx.trace(F.shape[-1])


def run(case, ctx):
    F = pointset("tiny")[..., :36]
    n = F.shape[-1]
    sp = case["space"]
    if case["kind"] == "stretch":
        return stretch(case, ctx, F)
    if case["kind"] == "field":
        return field(case, ctx)
    if case["kind"] == "pattern":
        return pattern(case, ctx)
    if case["kind"] == "state":
        return state(case, ctx)
    for terms in list(subsets())[case["first"] : case["first"] + 8]:
        if case["kind"] == "inv":
            spec = ["poly", terms, "none"]
            off = (3, 3, 1)
        else:
            spec = ["genpoly", terms, case["measure"], case["k"]]
            off = m.offset(case["measure"])
        r = mech.reference(spec, sp, F, True)
        for enc in (*ENC, "int", "mixed"):
            model = Encoded(terms, enc, off)
            if case["kind"] == "inv":
                fw = hel.InvariantsFramework(model)
            else:
                fun, key = m.measure_fun(case["measure"])
                fw = hel.GeneralizedInvariantsFramework(model, fun=fun, **{key: case["k"]})
            um = m.SPACES[sp](fw)
            what = f"{spec} encoded '{enc}' in {sp}"
            check(ctx, um, F, r, mech.tangent_tol(r, spec), what)
            if enc in ("none", "ones"):
                check(ctx, um, F, r, mech.tangent_tol(r, spec), what, (2, 3, 6))
            ctx.states(n, case, terms, enc)
    ctx.outcome(r["P"])
    ctx.sample(f"{spec} in {sp} in 6 encodings")


T = [lambda a, b, c: 0.8 * (a + b + c - 3), lambda a, b, c: 0.4 * (a**2 + b**2 + c**2),
     lambda a, b, c: 0.3 * (a * b + b * c + a * c), lambda a, b, c: 0.7 * (a * b * c - 1) ** 2]


class StretchEnc(m.StretchModel):
    def gradient(self, stretches, statevars):
        g = self._eval(stretches, 1)
        e = self.enc
        if e in ("scalar", "scalar-none", "singleton", "singleton-array") and self.constant_gradient:
            g = [float(x.ravel()[0]) if e.startswith("scalar") else x.ravel()[:1].reshape((1,) * x.ndim).copy() for x in g]
            if e == "singleton-array":
                g = np.array(g)
        if e == "array":
            g = np.array(g)
        if e == "numbers" and self.constant_gradient:
            g = np.array([float(x.ravel()[0]) for x in g])
        if e == "tuple":
            g = tuple(g)
        return g, statevars

    def hessian(self, stretches, statevars):
        zero = np.zeros(np.shape(stretches)[1:])
        h = [zero if x is None else x for x in self._eval(stretches, 2)]
        e = self.enc
        if e in ("numbers", "singleton-array") and all(np.all(x == x.ravel()[:1]) for x in h):
            # one array of six numbers
            h = np.array([x.ravel()[0] for x in h])
            return h if e == "numbers" else h.reshape(6, *(1,) * zero.ndim)
        out = []
        for x in h:
            const = np.all(x == x.ravel()[:1])
            if const and not x.any():
                out.append({"none": None, "scalar-none": None, "scalar": 0.0, "singleton": np.zeros((1,) * x.ndim)}.get(e, x))
            elif const and e in ("scalar", "scalar-none"):
                out.append(float(x.ravel()[0]))
            elif const and e == "singleton":
                out.append(x.ravel()[:1].reshape((1,) * x.ndim).copy())
            else:
                out.append(x)
        if e == "array":
            return np.array(out)
        return tuple(out) if e == "tuple" else out


def stretch(case, ctx, F):
    sp = case["space"]
    n = F.shape[-1]
    if "name" in case:
        W = m.COUPLED[case["name"]]
    else:
        fs = [t for k, t in enumerate(T) if case["terms"] >> k & 1]
        W = lambda a, b, c: sum(f(a, b, c) for f in fs)
    r = __import__("mc.ref", fromlist=["x"]).principal(W, sp, F)
    for enc in ("list", "array", "tuple", "none", "scalar", "scalar-none", "singleton", "singleton-array", "numbers"):
        model = StretchEnc(W, enc)
        model.constant_gradient = case.get("terms") == 1 or case.get("name") == "lin"
        um = m.SPACES[sp](hel.StretchesFramework(model))
        what = f"{case} encoded '{enc}'"
        check(ctx, um, F, r, np.where(r["gap"] > mech.GAP, 1e-10, 1e-6), what)
        check(ctx, um, F, r, np.where(r["gap"] > mech.GAP, 1e-10, 1e-6), what, (2, 3, 6))
        ctx.states(n, case, enc)
    ctx.outcome(r["P"])
