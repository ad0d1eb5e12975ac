"""Exhaustive exploration of simulations: (1) 7 material builders x 3 load cases x 2 spaces x
all permutations of their labels (up to 5! = 120; for 12 labels all rotations, reversals and
transpositions) with pairwise different parameter values, and all subsets of vanishing
parameters, signs and sizes; (2) all subsets and orders of up to three stretches of a 5-value alphabet and single points
against the whole array; (3) all histories of length 4 (thorough: 5) over {stress, trial
evaluation with other parameters / other stretches, assign parameters (array, list, tuple),
write parameters in place, another simulation of the same material and load case evaluates
or gets parameters}; (4) default parameters; (5) load cases of the user (any path of
principal stretches and any axes, simple shear, tensor-valued results). Every result is compared with the automatic
derivative of the energy along the load path. A state is one (configuration, history)."""
import itertools

import numpy as np
import torch

import hyperelastic as hel
from hyperelastic import lab

from .. import materials as m
from ..core import require

ASSUMPTIONS = ["stretches are arrays", "labels are keywords of the material function"]
D = torch.float64
LC = {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}
PATH = {"uniaxial": lambda x: (x, x**-0.5, x**-0.5), "planar": lambda x: (x, x**0, x**-1.0), "biaxial": lambda x: (x, x, x**-2.0)}


# labels whose alphabetical, numerical and given orders differ
MANY = [("C10", 1, 0), ("C9", 0, 1), ("b", 2, 0), ("a", 0, 2), ("B", 1, 1), ("p2", 3, 0), ("p10", 0, 3), ("p1", 2, 1), ("_z", 1, 2), ("x", 2, 2), ("stretch", 3, 1), ("parameters", 1, 3)]


class Builder:
    "material function with a reference energy; records the keywords of its calls"

    def __init__(self, name, space="def"):
        self.name, self.space = name, space
        self.labels = {"tod5": ["C10", "C01", "C11", "C20", "C30"], "tod3": ["C10", "C01", "C20"], "ogden": ["mu1", "alpha1", "mu2", "alpha2"],
                       "gen": ["C10", "C01", "k"], "torch": ["a", "b", "c"], "user": ["x", "y"], "one": ["C10"], "many": [k for k, _, _ in MANY]}[name]
        self.values = {"tod5": [0.5, 0.2, 0.1, -0.05, 0.02], "tod3": [0.7, 0.3, -0.1], "ogden": [1.2, 1.3, 0.4, -2.0],
                       "gen": [0.6, 0.25, 1.4], "torch": [0.5, 0.3, 0.07], "user": [0.4, 0.9], "one": [0.8],
                       "many": [0.3 + 0.07 * i for i in range(12)]}[name]
        self.calls = []

    def __call__(self, **kw):
        self.calls.append(sorted(kw))
        inv = hel.models.invariants
        n = self.name
        if n in ("tod5", "tod3", "one"):
            fw = hel.InvariantsFramework(inv.ThirdOrderDeformation(**kw))
        elif n == "ogden":
            fw = hel.StretchesFramework(hel.models.stretches.Ogden([kw["mu1"], kw["mu2"]], [kw["alpha1"], kw["alpha2"]]))
        elif n == "gen":
            fw = hel.GeneralizedInvariantsFramework(inv.ThirdOrderDeformation(C10=kw["C10"], C01=kw["C01"], strain=True), fun=hel.models.generalized.strain, exponent=kw["k"])
        elif n == "torch":
            fw = hel.InvariantsFramework(inv.TorchModel(lambda I1, I2, I3, a, b, c: a * (I1 - 3) + b * (I2 - 3) ** 2 + c * I1 * I2, **kw))
        elif n == "many":
            fw = hel.InvariantsFramework(m.PolyModel([[i, j, 0, kw[k]] for k, i, j in MANY], "none"))
        else:
            fw = hel.InvariantsFramework(m.PolyModel([[1, 0, 0, kw["x"]], [1, 1, 0, kw["y"]]], "none"))
        return m.SPACES[self.space](fw)

    def energy(self, **kw):
        n = self.name
        if n in ("tod5", "tod3", "one"):
            return m.on_stretches(m._poly(m.tod_terms(kw)))
        if n == "ogden":
            return m.ogden_W([kw["mu1"], kw["mu2"]], [kw["alpha1"], kw["alpha2"]])
        if n == "gen":
            return m.gen_W(m._poly([[1, 0, 0, kw["C10"]], [0, 1, 0, kw["C01"]]], (0, 0, 0)), "strain", kw["k"])
        if n == "torch":
            return m.on_stretches(lambda I1, I2, I3: kw["a"] * (I1 - 3) + kw["b"] * (I2 - 3) ** 2 + kw["c"] * I1 * I2)
        if n == "many":
            return m.on_stretches(m._poly([[i, j, 0, kw[k]] for k, i, j in MANY]))
        return m.on_stretches(m._poly([[1, 0, 0, kw["x"]], [1, 1, 0, kw["y"]]]))

    def force(self, lc, stretch, values):
        "values by label"
        x = torch.tensor(np.array(stretch, dtype=float), dtype=D).requires_grad_(True)
        W = self.energy(**{k: float(v) for k, v in values.items()})
        f = torch.autograd.grad(W(*PATH[lc](x)).sum(), x)[0].numpy()
        return f / (2 if lc == "biaxial" else 1)


NAMES = ("tod5", "tod3", "ogden", "gen", "torch", "user", "one")
X = np.array([0.6, 0.9, 1.0, 1.3, 2.1])


def cases(ctx):
    out = []
    for n in (*NAMES, "many"):
        for lc in LC:
            for sp in ("def", "dis"):
                out.append(dict(kind="values", name=n, lc=lc, space=sp))
                out.append(dict(kind="labels", name=n, lc=lc, space=sp))
                out.append(dict(kind="points", name=n, lc=lc, space=sp))
                out.append(dict(kind="default", name=n, lc=lc, space=sp))
    for n in (*NAMES, "many"):
        for sp in ("def", "dis"):
            out.append(dict(kind="usercase", name=n, lc=None, space=sp))
    for n in NAMES:
        for lc in LC:
            for k in range(len(OPS)):
                out.append(dict(kind="history", name=n, lc=lc, space="dis", first=k))
    return out


def close(a, b, what):
    a = np.asarray(a)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    sc = max(np.abs(b).max() if b.size else 0, 1e-2)
    require(bool(np.all(np.abs(a - b) <= 1e-9 * sc)), f"{what}: {a} instead of {b}")


def run(case, ctx):
    torch.set_default_dtype(D)
    {"usercase": usercase, "labels": labels, "points": points, "history": history, "default": default, "values": values}[case["kind"]](case, ctx)


def orders(labels):
    if len(labels) < 7:
        return list(itertools.permutations(labels))
    n = len(labels)
    out = [tuple(np.roll(x, k).tolist()) for x in (labels, labels[::-1], sorted(labels)) for k in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        o = list(labels)
        o[i], o[j] = o[j], o[i]
        out.append(tuple(o))
    return out


def values(case, ctx):
    "parameters that vanish, all subsets; signs and sizes"
    b = Builder(case["name"], case["space"])
    free = [k for k in b.labels if k not in ("alpha1", "alpha2", "k")]
    for factors in itertools.product((0, 1, -1, 1e-9, 1e9) if len(free) < 4 else (0, 1), repeat=min(len(free), 6)):
        f = dict(zip(free, factors))
        v = {k: x * f.get(k, 1) for k, x in zip(b.labels, b.values)}
        want = b.force(case["lc"], X, v)
        s = lab.Simulation(LC[case["lc"]](), X.copy(), b.labels, b, list(v.values()))
        close(s.stress(), want, f"{case} parameters {v}")
        close(s.stress_curve_fit(X.copy(), *v.values()), want, f"{case} parameters {v}")
        ctx.step(2)
        ctx.state(case, factors)
        ctx.trace()
    ctx.outcome(want)


def labels(case, ctx):
    b = Builder(case["name"], case["space"])
    values = dict(zip(b.labels, b.values))
    want = b.force(case["lc"], X, values)
    for order in orders(b.labels):
        for conv in (list, np.array, dict):
            b.calls.clear()
            x = X.copy()
            if conv is dict:  # views of a dict of parameters (as in the README)
                d = {k: values[k] for k in order}
                lab_, p = d.keys(), d.values()
            else:
                p = conv([values[k] for k in order])
                lab_ = list(order) if conv is list else tuple(order)
            s = lab.Simulation(LC[case["lc"]](), x, lab_, b, p)
            close(s.stress(), want, f"{case} labels {order}")
            close(s.stress_curve_fit(x, *p), want, f"{case} labels {order}")
            require(all(c == sorted(b.labels) for c in b.calls) and b.calls, f"{case}: the material is created with {b.calls}")
            require(np.array_equal(x, X) and list(p) == [values[k] for k in order] and list(s.parameters) == list(p) and list(s.labels) == list(order), f"{case}: data modified")
            ctx.step(2)
            ctx.state(case, order, conv.__name__)
            ctx.trace()
    ctx.outcome(want)
    ctx.sample(f"{case}: all orders of {b.labels}")


def points(case, ctx):
    b = Builder(case["name"], case["space"])
    values = dict(zip(b.labels, b.values))
    for n in range(0, 4):
        for idx in itertools.product(range(len(X)), repeat=n):
            x = X[list(idx)] if idx else X[:0]
            s = lab.Simulation(LC[case["lc"]](), x, b.labels, b, b.values)
            close(s.stress(), b.force(case["lc"], x, values), f"{case} stretches {x}")
            ctx.step()
            ctx.state(case, idx)
            ctx.trace()
    for x in (np.linspace(0.6, 2.2, 50), np.linspace(2.2, 0.6, 7), np.array([1, 2]), np.linspace(0.6, 2.2, 12)[::2], np.ones(6), np.array([0.2, 0.35, 3, 5, 7]), np.linspace(0.6, 2.2, 20011)):
        s = lab.Simulation(LC[case["lc"]](), x, b.labels, b, b.values)
        close(s.stress(), b.force(case["lc"], x, values), f"{case} stretches {x}")
        ctx.step()
        ctx.state(case, x.shape, x.dtype.str, x[0])
    # stretches that differ by little: each as on its own
    big = np.abs(b.force(case["lc"], np.array([0.6, 2.1]), values)).max()
    for base in (0.6, 1.0, 2.1):
        for e in (1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-11):
            for p in ([0, 1], [1, 0], [0, 0, 1], [1, -2, 3], [0, 1, 2, 3, 4, 5], [3, -1, 4, -1, 5, -9, 2, 6]):
                x = base * (1 + e * np.array(p))
                f = lab.Simulation(LC[case["lc"]](), x, b.labels, b, b.values).stress()
                one = np.array([lab.Simulation(LC[case["lc"]](), x[k : k + 1].copy(), b.labels, b, b.values).stress()[0] for k in range(len(p))])
                require(np.all(np.abs(f - one) <= 1e-12 * big), f"{case} nearly equal stretches {base} + {e} {p}: {f} instead of {one}")
                ctx.step(1 + len(p))
                ctx.state(case, base, e, p)
                ctx.trace(len(p))
    # any shape of the stretches: pointwise
    for n in (0, 1, 2, 3, 6, 9, 18, 24):
        x = np.resize(X, n) * np.linspace(1.0, 1.1, n)
        want = b.force(case["lc"], x, values)
        for r in (0, 1, 2, 3):
            for shape in itertools.product((0, 1, 2, 3, 6, 9) if n else (0, 2), repeat=r):
                if np.prod(shape) != n:
                    continue
                for y in (x.reshape(shape), x.reshape(shape).copy(order="F")):
                    s = lab.Simulation(LC[case["lc"]](), y, b.labels, b, b.values)
                    f = s.stress()
                    require(np.shape(f) == shape, f"{case}: shape {np.shape(f)} of the stress for stretches of shape {shape}")
                    close(f, want.reshape(shape), f"{case} stretches of shape {shape}")
                    ctx.step()
                    ctx.state(case, shape)
    ctx.outcome(s.stress())


class Power(lab.IncompressibleHomogeneousStretch):
    "stretches x**e of any exponents whose sum is zero, force in any axis"

    def __init__(self, e, axis, free):
        self.e, self.axis, self.free, self.label = e, axis, free, "power"

    def defgrad(self, stretch):
        F = np.zeros((3, 3, *np.shape(stretch)))
        for k in range(3):
            F[k, k] = stretch ** self.e[k]
        return F

    def stress(self, F, P):
        return super().stress(F, P, axis=self.axis, traction_free=self.free)


class Shear:
    "simple shear in any plane: not a subclass"

    def __init__(self, i, j):
        self.i, self.j, self.label = i, j, "shear"

    def defgrad(self, amount):
        F = np.zeros((3, 3, *np.shape(amount)))
        for k in range(3):
            F[k, k] = 1
        F[self.i, self.j] = amount
        return F

    def stress(self, F, P):
        return P[self.i, self.j]


class Tensor(Power):
    "the deviator of the Kirchhoff stress"

    def stress(self, F, P):
        t = np.einsum("iK...,jK...->ij...", P, F)
        return t - np.einsum("ij,kk...->ij...", np.eye(3), t) / 3


def usercase(case, ctx):
    "load cases of the user: 'intended to be subclassed'"
    b = Builder(case["name"], case["space"])
    val = dict(zip(b.labels, b.values))
    W = b.energy(**val)

    def sim(lc, x):
        s = lab.Simulation(lc, x.copy(), b.labels, b, b.values)
        f = s.stress()
        ctx.step()
        require(s.label == lc.label and s.loadcase is lc, f"{case}: label / load case of the simulation")
        return f

    def slopes(e):
        x = torch.tensor(np.array([X**k for k in e])).requires_grad_(True)
        return torch.autograd.grad(W(*x).sum(), x)[0].numpy() * x.detach().numpy(), x.detach().numpy()

    for e0 in ((1.0, -0.5, -0.5), (1.0, 0.3, -1.3), (1.0, 1.0, -2.0), (1.0, 0.0, -1.0), (0.5, 0.25, -0.75), (1.0, -3.0, 2.0)):
        for e in sorted(set(itertools.permutations(e0))):
            t, lam = slopes(e)
            for i, j in itertools.permutations(range(3), 2):
                for ij in ((i, j), (i - 3, j), (i, j - 3)):
                    close(sim(Power(e, *ij), X), (t[i] - t[j]) / lam[i], f"{case} load case with exponents {e}, axes {ij}")
                    ctx.state(case, e, ij)
                    ctx.trace()
            dev = np.einsum("ij,j...->ij...", np.eye(3), t - t.sum(axis=0) / 3)
            close(sim(Tensor(e, 0, 0), X), dev, f"{case} load case with exponents {e}, deviator")
            ctx.state(case, e)
            ctx.trace()
    g = np.array([-2.5, -1.0, -0.1, 0.0, 0.3, 1.0, 3.0])
    x = torch.tensor(g).requires_grad_(True)
    big = x / 2 + torch.sqrt(1 + x**2 / 4)
    want = torch.autograd.grad(W(big, x * 0 + 1, 1 / big).sum(), x)[0].numpy()
    for i, j in itertools.permutations(range(3), 2):
        close(sim(Shear(i, j), g), want, f"{case} simple shear {i}{j}")
        ctx.state(case, i, j)
        ctx.trace()
    ctx.outcome(want)


def default(case, ctx):
    b = Builder(case["name"], case["space"])
    ones = dict.fromkeys(b.labels, 1.0)
    want = b.force(case["lc"], X, ones)
    s, t = (lab.Simulation(LC[case["lc"]](), X.copy(), b.labels, b) for _ in range(2))
    close(s.stress(), want, f"{case}: default parameters")
    require(np.array_equal(s.parameters, np.ones(len(b.labels))), f"{case}: default parameters {s.parameters}")
    s.parameters[:] = 0.5 * np.arange(1, 1 + len(b.labels))
    close(t.stress(), want, f"{case}: default parameters after another simulation's were written in place")
    u = lab.Simulation(LC[case["lc"]](), X.copy(), b.labels, b)
    close(u.stress(), want, f"{case}: default parameters of a simulation created later")
    ctx.step(3)
    ctx.states(3, case)
    ctx.trace(3)
    ctx.outcome(want)


OPS = [("stress", 0), ("stress", 1), ("trial parameters",), ("trial stretches", 0), ("trial stretches", 1), ("assign array", 1), ("assign list", 2), ("assign tuple", 0), ("in place", 2),
       ("other assign", 1), ("overwrite result",)]


def history(case, ctx):
    b = Builder(case["name"], case["space"])
    n = len(b.labels)
    V = [np.array(b.values), np.array(b.values) * np.linspace(0.8, 1.3, n), np.array(b.values) * np.linspace(1.4, 0.7, n)]
    Y = np.array([1.2, 0.7, 1.6])
    cache = {}

    def want(x, v):
        key = (x.tobytes(), tuple(v))
        if key not in cache:
            cache[key] = b.force(case["lc"], x, dict(zip(b.labels, v)))
        return cache[key]

    depth = 4 if ctx.quick else 5
    for tail in itertools.product(range(len(OPS)), repeat=depth - 1):
        seq = [OPS[k] for k in (case["first"], *tail)]
        if not seq[-1][0].startswith(("stress", "trial")):
            continue
        if ctx.quick and case["name"] in ("ogden", "gen", "torch", "tod5") and seq[-1] != ("stress", 0):
            continue
        lc = LC[case["lc"]]()
        xs = [X.copy(), Y.copy()]
        sims = [lab.Simulation(lc, xs[0], b.labels, b, V[0].copy()), lab.Simulation(lc, xs[1], b.labels, b, V[0].copy())]
        now = [list(V[0]), list(V[0])]
        kept = []
        for op in seq:
            w = op[0]
            if w == "stress":
                k = op[1]
                got = sims[k].stress()
                close(got, want(xs[k], now[k]), f"{case}: stress of simulation {k} in {seq}")
                kept.append((got, got.copy()))
            elif w == "trial parameters":
                got = sims[0].stress_curve_fit(xs[0], *V[2])
                close(got, want(X, list(V[2])), f"{case}: trial parameters in {seq}")
                kept.append((got, got.copy()))
            elif w == "trial stretches":
                # fewer other points; as many other points
                y = (Y, X[::-1] * 1.07)[op[1]]
                close(sims[0].stress_curve_fit(y.copy(), *V[1]), want(y, list(V[1])), f"{case}: trial stretches in {seq}")
            elif w.startswith("assign"):
                v = {"array": np.array, "list": list, "tuple": tuple}[w.split()[1]](V[op[1]])
                sims[0].parameters = v
                now[0] = list(V[op[1]])
            elif w == "in place":
                if isinstance(sims[0].parameters, tuple):
                    continue
                sims[0].parameters[:] = V[op[1]]
                now[0] = list(V[op[1]])
            elif w == "other assign":
                sims[1].parameters = V[op[1]].copy()
                now[1] = list(V[op[1]])
            elif kept:
                kept[-1][0][...] = 7.0
                kept.pop()
            for k in range(2):
                require(list(sims[k].parameters) == now[k], f"{case}: parameters of simulation {k} changed by {op} in {seq}")
            ctx.step()
        require(np.array_equal(xs[0], X) and np.array_equal(xs[1], Y) and np.array_equal(sims[0].stretch, X), f"{case}: stretches modified by {seq}")
        require(all(np.array_equal(g, s) for g, s in kept), f"{case}: earlier results changed by {seq}")
        ctx.state(case, seq)
        ctx.trace()
    ctx.outcome(want(X, list(V[0])))
