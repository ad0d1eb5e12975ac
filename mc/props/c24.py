"""All histories of length 3 (thorough: 4) over 12 operations on two optimizations that share
a simulation, an experiment and one initial-guess array: fit, prepare, failing fit (the
solver reaches its evaluation limit) and assignment of parameters of either optimization,
assignment of simulation parameters, trial evaluations; four worlds: selections of data
points or none, material in the deformation or distortional space, integer guess, one
simulation used twice. The reference model holds parameters, errors, residuals per
optimization and parameters per simulation; the outcome of a fit is the linear
least-squares solution. After every operation the complete observable state (parameters,
errors, residuals, norms of both optimizations; parameters and stresses of all simulations;
experiments, selections, initial guess, arrays given as parameters) is compared with the model. A state is one
(world, history)."""
import itertools

import numpy as np
import torch

from hyperelastic import lab

from ..core import require
from . import c23
from .c22 import Builder
from .c23 import LABELS, experiment, loadcase, masks, solve, stack

ASSUMPTIONS = ["parameters of a simulation or optimization are changed by assignment, not by writing into the array an optimization shares with its simulations"]
WORLDS = {
    "plain": dict(given=True, A=("uniaxial", "planar"), B=("planar", "biaxial"), mask=False, space="def", guess=[1.0, 1.0, 1.0]),
    "masked": dict(given=False, A=("uniaxial", "biaxial", "planar"), B=("uniaxial",), mask=True, space="def", guess=np.array([0.5, 0.2, 0.1])),
    "integer": dict(given=False, A=("biaxial", "uniaxial"), B=("uniaxial", "uniaxial2"), mask=False, space="dis", guess=np.array([1, 1, 1])),
    "same": dict(given=True, A=("uniaxial", "biaxial"), B=("uniaxial", "biaxial"), mask=True, space="def", guess=(1.0, 1.0, 1.0)),
}
OPS = [("fit", "A"), ("fit", "B"), ("prepare", "A"), ("prepare", "B"), ("fail", "A"), ("fail", "B"), ("assign", "A", 0), ("assign", "B", 1),
       ("simulation", 0), ("simulation", -1), ("trial",), ("fit options", "A")]
Q = [np.array([0.45, 0.05, 0.02]), np.array([0.7, -0.1, 0.05]), np.array([2.0, 1.0, 0.5])]


def cases(ctx):
    out = []
    for w in WORLDS:
        for a in range(len(OPS)):
            for b in range(len(OPS)):
                out.append(dict(world=w, first=[a, b]))
    return out


class World:
    def __init__(self, name):
        w = self.w = WORLDS[name]
        self.names = sorted(set(w["A"]) | set(w["B"]))
        self.E = {e: experiment(e) for e in self.names}
        self.b = Builder("tod3", w["space"])
        # one array of the caller as parameters of all simulations, or none
        self.given = []
        kw = dict(parameters=self.give(Q[0])) if w["given"] else {}
        self.S = {e: lab.Simulation(loadcase(e)(), self.E[e].stretch, LABELS, self.b, **kw) for e in self.names}
        self.guess = w["guess"].copy() if isinstance(w["guess"], np.ndarray) else w["guess"]
        self.mask, self.o, self.sel = {}, {}, {}
        for k in "AB":
            names = w[k]
            kinds = ["bool", "stride", "head"] if w["mask"] else ["all"] * 3
            if k == "B":
                kinds = kinds[::-1]
            self.mask[k] = [masks(e)[c] for e, c in zip(names, kinds)]
            self.sel[k] = [np.arange(len(c23.data(e)[0]))[mk] for e, mk in zip(names, self.mask[k])]
            kw = dict(mask=self.mask[k]) if w["mask"] else {}
            self.o[k] = lab.Optimize([self.E[e] for e in names], [self.S[e] for e in names], self.guess, **kw)
        self.snap = {e: (np.array(x.displacement), np.array(x.force), np.array(x.stretch)) for e, x in self.E.items()}
        self.msnap = {k: [np.copy(np.asarray(x, dtype=object)) if isinstance(x, slice) else np.copy(x) for x in v] for k, v in self.mask.items()}


    def give(self, p):
        "an array of the caller, which must never be changed by the library"
        a = p.copy()
        self.given.append((a, p.copy()))
        return a


_ref = {}


class Reference:
    def __init__(self, name):
        w = self.w = WORLDS[name]
        self.name = name
        self.p = {k: np.array(w["guess"], dtype=float) for k in "AB"}
        self.err = {k: None for k in "AB"}
        self.res = {k: None for k in "AB"}
        self.sim = {e: Q[0].copy() if w["given"] else np.ones(3) for e in sorted(set(w["A"]) | set(w["B"]))}
        self.fitted = {k: False for k in "AB"}

    def problem(self, k, sel):
        key = (self.name, k)
        if key not in _ref:
            X, y = stack(self.w[k], sel)
            _ref[key] = (X, y, *solve(X, y))
        return _ref[key]

    def prepare(self, k, sel):
        X, y, p, cov = self.problem(k, sel)
        self.err[k] = np.full(3, np.nan)
        self.res[k] = X @ self.p[k] - y
        for e in self.w[k]:
            self.sim[e] = self.p[k].copy()

    def fit(self, k, sel):
        X, y, p, cov = self.problem(k, sel)
        self.p[k] = p.copy()
        self.err[k] = np.sqrt(np.diag(cov))
        self.res[k] = X @ p - y
        for e in self.w[k]:
            self.sim[e] = p.copy()


_stress = {}


def stress(b, e, x, p):
    "superposition: the forces are linear in the parameters"
    key = (e, x.tobytes())
    if key not in _stress:
        z = dict.fromkeys(b.labels, 0.0)
        _stress[key] = np.array([b.force(e.rstrip("2"), x, {**z, k: 1.0}) for k in LABELS]).T
    return _stress[key] @ p


def near(a, b, what, tol=1e-4, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    sc = np.abs(b).max() if scale is None else scale
    ok = np.all((np.abs(a - b) <= tol * max(np.nan_to_num(sc), 1e-6)) | (np.isnan(a) & np.isnan(b)))
    require(bool(ok), f"{what}: {a} instead of {b}")


def observe(w, r, what):
    for k in "AB":
        o = w.o[k]
        near(o.parameters, r.p[k], f"{what}: parameters of {k}")
        if r.err[k] is not None:
            near(o.errors, r.err[k], f"{what}: errors of {k}", 2e-2)
            near(o.residuals, r.res[k], f"{what}: residuals of {k}")
            near(o.norm_residuals(), np.linalg.norm(r.res[k]), f"{what}: norm of residuals of {k}")
            near(o.mean_relative_std(), np.mean(r.err[k] / np.abs(r.p[k])) * 100, f"{what}: relative standard deviation of {k}", 2e-2)
    for e, s in w.S.items():
        near(s.parameters, r.sim[e], f"{what}: parameters of simulation {e}")
        f = stress(w.b, e, w.snap[e][2], r.sim[e])
        near(s.stress(), f, f"{what}: stress of simulation {e}", 1e-4, max(np.abs(f).max(), 0.1))
    for e, x in w.E.items():
        for a, b in zip(w.snap[e], (x.displacement, x.force, x.stretch)):
            require(np.array_equal(a, b), f"{what}: experiment {e} modified")
    require(np.array_equal(np.array(w.guess), np.array(w.w["guess"])) and np.array(w.guess).dtype == np.array(w.w["guess"]).dtype, f"{what}: initial guess modified")
    require(all(np.array_equal(a, b) for a, b in w.given), f"{what}: an array given as parameters of a simulation is modified")
    for k in "AB":
        for a, b in zip(w.mask[k], w.msnap[k]):
            require(isinstance(a, slice) or np.array_equal(a, b), f"{what}: selection modified")


def apply(w, r, op, what, ctx):
    if op[0] in ("fit", "fit options"):
        k = op[1]
        kw = {} if op[0] == "fit" else dict(method="trf", ftol=1e-12, xtol=1e-12, gtol=1e-12)
        p, cov = w.o[k].curve_fit(**kw)
        r.fit(k, w.sel[k])
        near(p, r.p[k], f"{what}: returned parameters")
        near(np.sqrt(np.diag(cov)), r.err[k], f"{what}: returned covariance", 2e-2)
    elif op[0] == "prepare":
        k = op[1]
        p = w.o[k].init_curve_fit()
        r.prepare(k, w.sel[k])
        near(p, r.p[k], f"{what}: returned parameters")
    elif op[0] == "fail":
        k = op[1]
        try:
            w.o[k].curve_fit(method="lm", maxfev=1)
        except RuntimeError:
            r.prepare(k, w.sel[k])
        else:
            # the limit does not matter if the fit starts at its optimum
            popt = r.problem(k, w.sel[k])[2]
            require(np.allclose(r.p[k], popt, rtol=1e-3, atol=1e-4), f"{what}: the solver's failure is not reported")
            r.fit(k, w.sel[k])
    elif op[0] == "assign":
        w.o[op[1]].parameters = Q[op[2]].copy()
        r.p[op[1]] = Q[op[2]].copy()
        # errors and residuals stay those of the last fit; the mean standard deviation refers to the current parameters
    elif op[0] == "simulation":
        e = w.names[op[1]]
        w.S[e].parameters = w.give(Q[2])
        r.sim[e] = Q[2].copy()
    else:
        for e in w.names:
            x = np.array([0.8, 1.4])
            near(w.S[e].stress_curve_fit(x, *Q[1]), stress(w.b, e, x, Q[1]), f"{what}: trial evaluation", 1e-8)
    ctx.step()


def run(case, ctx):
    torch.set_default_dtype(torch.float64)
    depth = 3 if ctx.quick else 4
    name = case["world"]
    for tail in itertools.product(range(len(OPS)), repeat=depth - 2):
        seq = [OPS[k] for k in (*case["first"], *tail)]
        w, r = World(name), Reference(name)
        for n, op in enumerate(seq):
            what = f"world {name}, {op} after {seq[:n]}"
            apply(w, r, op, what, ctx)
            observe(w, r, what)
        ctx.state(name, seq)
        ctx.trace()
    ctx.outcome(np.concatenate([r.p["A"], r.p["B"]]))
    ctx.sample(f"{name}: {seq}")
