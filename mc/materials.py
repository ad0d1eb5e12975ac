"""Material specifications: JSON-able, with the library object and its reference energy.

spec = [kind, ...]:
  ["tod", {"C10":..}, strain]          ThirdOrderDeformation in the invariants framework
  ["poly", [[i,j,k,c],..], enc]        user model, psi = sum c (I1-3)^i (I2-3)^j (I3-1)^k
  ["torch", name, dtype]               TorchModel in the invariants framework
  ["ogden", [mu..], [alpha..]]         Ogden in the stretches framework
  ["coup", name]                       user model in the stretches framework
  ["spoly", [[i,j,k,c],..]]            poly written as stretch-based user model
  ["gen", {"C10":..}, strain, measure, k]          TOD on generalized invariants
  ["genpoly", [[i,j,k,c],..], measure, k, enc]     user model on generalized invariants
"""
import numpy as np
import torch

import hyperelastic as hel

from .ref import D

SPACES = {"def": hel.DeformationSpace, "dis": hel.DistortionalSpace, "dil": hel.DilatationalSpace}

# ------------------------------------------------------------------ user-defined models


def ipow(x, n):
    return x**n if n > 0 else np.ones_like(x)


class PolyModel:
    """User model: derivatives of a polynomial in the invariants.

    enc: how identically vanishing / constant derivatives are encoded:
      "none"   vanishing -> None, constant -> float
      "zero"   vanishing -> 0.0 (float), constant -> float
      "array"  everything is an array of the full batch shape
      "ones"   vanishing -> None, constants -> arrays of singleton shape
    """

    def __init__(self, terms, enc="none", offset=(3, 3, 1)):
        self.terms = [tuple(t) for t in terms]
        self.enc = enc
        self.offset = offset

    def d(self, I, order):
        x = [Ia - o for Ia, o in zip(I, self.offset)]
        val, const, zero = 0.0, True, True
        for *e, c in self.terms:
            e = list(e)
            fac = c
            for o in order:
                fac = fac * e[o]
                e[o] -= 1
            if fac == 0 or min(e) < 0:
                continue
            zero = False
            if sum(e):
                const = False
            v = fac
            for xa, ea in zip(x, e):
                if ea:
                    v = v * xa**ea
            val = val + v
        shape = np.shape(I[0])
        if self.enc == "array":
            return np.zeros(shape) + val
        if zero:
            return None if self.enc in ("none", "ones") else 0.0
        if const and self.enc == "ones":
            return np.full(np.ones(len(shape), dtype=int), val)
        return val

    def gradient(self, I1, I2, I3, statevars):
        I = (I1, I2, I3)
        return self.d(I, [0]), self.d(I, [1]), self.d(I, [2]), statevars

    def hessian(self, I1, I2, I3, statevars):
        I = (I1, I2, I3)
        return [self.d(I, o) for o in ([0, 0], [1, 1], [2, 2], [0, 1], [1, 2], [0, 2])]


class StretchModel:
    """User model on principal stretches, differentiated automatically.

    enc: "list" (list of arrays), "array" (one array), "none" (identically vanishing
    second derivatives are None, constants are floats).
    """

    def __init__(self, W, enc="list"):
        self.W, self.enc = W, enc

    def _eval(self, lam, order):
        lam = np.asarray(lam)
        l = [torch.tensor(lam[a], dtype=D).requires_grad_(True) for a in range(3)]
        psi = self.W(*l)
        if not psi.requires_grad:
            psi = psi + 0 * l[0]
        g = torch.autograd.grad(psi.sum(), l, create_graph=True, allow_unused=True)
        g = [torch.zeros_like(la) if ga is None else ga for ga, la in zip(g, l)]
        if order == 1:
            return [ga.detach().numpy() for ga in g]
        out = []
        for a, b in [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]:
            h = None
            if g[a].requires_grad:
                h = torch.autograd.grad(g[a].sum(), l[b], retain_graph=True, allow_unused=True)[0]
            if h is None:
                out.append(None if self.enc == "none" else np.zeros(lam[0].shape))
            else:
                out.append(h.detach().numpy())
        return out

    def gradient(self, stretches, statevars):
        g = self._eval(stretches, 1)
        if self.enc == "array":
            g = np.array(g)
        return g, statevars

    def hessian(self, stretches, statevars):
        h = self._eval(stretches, 2)
        if self.enc == "array":
            h = np.array(h)
        return h


# ----------------------------------------------------------------------- torch energies
def _poly(terms, off=(3, 3, 1)):
    def W(I1, I2, I3):
        psi = 0 * I1
        for i, j, k, c in terms:
            t = c + 0 * I1
            if i:
                t = t * (I1 - off[0]) ** i
            if j:
                t = t * (I2 - off[1]) ** j
            if k:
                t = t * (I3 - off[2]) ** k
            psi = psi + t
        return psi

    return W


def tod_terms(p):
    return [[int(k[1]), int(k[2]), 0, v] for k, v in p.items()]


def on_stretches(Winv):
    def W(l1, l2, l3):
        x, y, z = l1**2, l2**2, l3**2
        return Winv(x + y + z, x * y + y * z + x * z, x * y * z)

    return W


# energies for automatic differentiation models: name -> (function, torch function)
TORCH = {
    "neo": (lambda I1, I2, I3, a=0.7: a * (I1 - 3)),
    "yeoh": (lambda I1, I2, I3: 0.5 * (I1 - 3) - 0.05 * (I1 - 3) ** 2 + 0.02 * (I1 - 3) ** 3),
    "mr": (lambda I1, I2, I3: 0.4 * (I1 - 3) + 0.3 * (I2 - 3)),
    "mixed": (lambda I1, I2, I3: 0.3 * (I1 - 3) + 0.1 * (I1 - 3) * (I2 - 3)),
    "only2": (lambda I1, I2, I3: 0.3 * (I2 - 3) ** 2),
    "only3": (lambda I1, I2, I3: 0.6 * torch.log(I3) ** 2),
    "vol": (lambda I1, I2, I3: 0.5 * (I1 - 3) - 0.5 * torch.log(I3) + 0.8 * (torch.sqrt(I3) - 1) ** 2),
    "gent": (lambda I1, I2, I3: -0.5 * 40.0 * torch.log(1 - (I1 - 3) / 40.0) + 0.2 * torch.sqrt(I2)),
    "full": (lambda I1, I2, I3: 0.3 * I1 * I2 / I3 + 0.1 * torch.exp(0.05 * (I1 - 3)) * I3 + 0.02 * I2**2),
}


def e1(a, b, c):
    return a + b + c


def e2(a, b, c):
    return a * b + b * c + a * c


def e3(a, b, c):
    return a * b * c


# coupled, symmetric energies in the stretches
COUPLED = {
    "lin": lambda a, b, c: 0.8 * (a + b + c - 3),
    "varga2": lambda a, b, c: 0.5 * e2(a, b, c),
    "vol": lambda a, b, c: 0.7 * (e3(a, b, c) - 1) ** 2,
    "e1e2": lambda a, b, c: 0.2 * e1(a, b, c) * e2(a, b, c),
    "hencky": lambda a, b, c: 0.6 * (torch.log(a) ** 2 + torch.log(b) ** 2 + torch.log(c) ** 2)
    + 0.4 * torch.log(a * b * c) ** 2,
    "square": lambda a, b, c: 0.3 * (a**2 + b**2 + c**2) ** 2 + 0.1 * e2(a, b, c) ** 2,
    "blatz": lambda a, b, c: 0.4 * (a**-2 + b**-2 + c**-2 + 2 * e3(a, b, c) - 5) + 0.1 * e1(a, b, c) ** 3,
}


def ogden_W(mu, alpha):
    def W(a, b, c):
        return sum(2 * m / k**2 * (a**k + b**k + c**k - 3) for m, k in zip(mu, alpha)) + 0 * a

    return W


# ------------------------------------------------------------------- strain measures
# name -> (E(l, k), (E, E', E'')(1, k), reference (E, E', E'')(1))
MEASURES = {
    "strain": (lambda l, k: (l**k - 1) / k, lambda k: (0.0, 1.0, k - 1.0), (0.0, 1.0, 1.0)),
    "deformation": (lambda l, k: l**k, lambda k: (1.0, k, k * (k - 1.0)), (1.0, 2.0, 2.0)),
    # user defined: weighted Green-Lagrange / Almansi strain
    "mix": (
        lambda l, w: w * (l**2 - 1) / 2 + (1 - w) * (1 - l**-2) / 2,
        lambda w: (0.0, 1.0, 4 * w - 3.0),
        (0.0, 1.0, 1.0),
    ),
    # user defined: shifted stretch, own reference
    "shift": (lambda l, s: s + l - 1, lambda s: (s, 1.0, 0.0), (0.5, 1.0, 0.25)),
    # user defined: multiple of the Biot strain, constant derivatives given as numbers
    "biot": (lambda l, s: s * (l - 1), lambda s: (0.0, s, 0.0), (0.0, 1.0, 1.0)),
    # first derivative as single-element array, second one as number
    "half": (lambda l, s: s * l, lambda s: (s, s, 0.0), (1.0, 1.0, 0.5)),
}


def user_mix(stretch, w):
    l = stretch
    E = w * (l**2 - 1) / 2 + (1 - w) * (1 - l**-2.0) / 2
    dE = w * l + (1 - w) * l**-3.0
    d2E = w * np.ones_like(l) - 3 * (1 - w) * l**-4.0
    return E, dE, d2E, 0.0, 1.0, 1.0


def user_shift(stretch, shift):
    l = stretch
    return shift + l - 1, np.ones_like(l), np.zeros_like(l), 0.5, 1.0, 0.25


def user_biot(stretch, scale):
    return scale * (stretch - 1), scale, 0, 0, 1, 1


def user_half(stretch, scale):
    return [scale * stretch, np.array([scale]) if np.ndim(stretch) else scale, 0.0, 1.0, 1.0, 0.5]


def measure_fun(name):
    "(function, keyword of its parameter)"
    if name == "mix":
        return user_mix, "w"
    if name == "shift":
        return user_shift, "shift"
    if name in ("biot", "half"):
        return (user_biot if name == "biot" else user_half), "scale"
    return getattr(hel.models.generalized, name), "exponent"


def gen_coefficients(name, k):
    f, init, (R, dR, ddR) = MEASURES[name]
    E, dE, ddE = init(float(k))
    c1 = (1.5 * (ddR + dR)) / (1.5 * (ddE + dE))
    c2 = (1.5 * (2 * R * (ddR + dR) - dR**2)) / (1.5 * (2 * E * (ddE + dE) - dE**2))
    return E, c1, c2


def gen_W(Winv, name, k):
    "documented energy of the normalised generalized invariants"
    k = float(k)
    E, c1, c2 = gen_coefficients(name, k)
    f = lambda l: MEASURES[name][0](l, k)
    J10, J20 = 3 * E, 3 * E**2

    def W(a, b, c):
        x, y, z = f(a), f(b), f(c)
        I1 = c1 * (x + y + z - J10) + J10
        I2 = c2 * (x * y + y * z + x * z - J20) + J20
        return Winv(I1, I2, x * y * z)

    return W


def offset(name):
    return (3, 3, 1) if name == "deformation" else (0, 0, 0)


# --------------------------------------------------------------------------- dispatch
def framework(spec, nstatevars=0, parallel=False):
    kind = spec[0]
    kw = dict(nstatevars=nstatevars, parallel=parallel)
    inv = hel.models.invariants
    if kind == "tod":
        return hel.InvariantsFramework(inv.ThirdOrderDeformation(**spec[1], strain=spec[2]), **kw)
    if kind == "poly":
        return hel.InvariantsFramework(PolyModel(spec[1], spec[2]), **kw)
    if kind == "torch":
        torch.set_default_dtype(getattr(torch, spec[2]))
        return hel.InvariantsFramework(inv.TorchModel(TORCH[spec[1]]), **kw)
    if kind == "ogden":
        return hel.StretchesFramework(hel.models.stretches.Ogden(spec[1], spec[2]), **kw)
    if kind == "coup":
        enc = spec[2] if len(spec) > 2 else "list"
        return hel.StretchesFramework(StretchModel(COUPLED[spec[1]], enc), **kw)
    if kind == "spoly":
        return hel.StretchesFramework(StretchModel(on_stretches(_poly(spec[1]))), **kw)
    if kind == "gen":
        tod = inv.ThirdOrderDeformation(**spec[1], strain=spec[2])
        return hel.GeneralizedInvariantsFramework(tod, fun=measure_fun(spec[3])[0], **{measure_fun(spec[3])[1]: spec[4]}, **kw)
    if kind == "genpoly":
        enc = spec[4] if len(spec) > 4 else "none"
        fun, key = measure_fun(spec[2])
        return hel.GeneralizedInvariantsFramework(
            PolyModel(spec[1], enc, offset(spec[2])), fun=fun, **{key: spec[3]}, **kw)
    raise KeyError(kind)


def umat(spec, space, **kw):
    return SPACES[space](framework(spec), **kw)


def energy(spec):
    "(W(l1,l2,l3), Winv(I1,I2,I3) or None)"
    kind = spec[0]
    if kind == "tod":
        u = (0, 0, 1) if spec[2] else (3, 3, 1)
        Wi = _poly(tod_terms(spec[1]), u)
        return on_stretches(Wi), Wi
    if kind == "poly":
        Wi = _poly(spec[1])
        return on_stretches(Wi), Wi
    if kind == "torch":
        Wi = TORCH[spec[1]]
        return on_stretches(Wi), Wi
    if kind == "ogden":
        return ogden_W(spec[1], spec[2]), None
    if kind == "coup":
        return COUPLED[spec[1]], None
    if kind == "spoly":
        Wi = _poly(spec[1])
        return on_stretches(Wi), Wi
    if kind == "gen":
        u = (0, 0, 0) if spec[2] else (3, 3, 1)
        return gen_W(_poly(tod_terms(spec[1]), u), spec[3], spec[4]), None
    if kind == "genpoly":
        return gen_W(_poly(spec[1], offset(spec[2])), spec[2], spec[3]), None
    raise KeyError(kind)
