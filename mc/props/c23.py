"""Exhaustive enumeration of fits whose optimum is known: all ordered selections of 1..3 of
four synthetic experiments (uniaxial, planar, biaxial, second uniaxial; different lengths,
areas; data not representable by the model) x combinations of twelve kinds of selections of
data points per experiment (default, slices, strides, boolean, index array, off, all; quick: all
pairs and 1/25 of the triples) x
7 initial guesses (list, tuple, integer / float / single-precision arrays) x solver options
(lm, trf, dogbox, inactive and active bounds, weights, absolute weights, evaluation limits);
4 .. 9 experiments (also one object at several places); 45 systems of units.
Parameters, covariance, standard errors, residuals, norms are compared with the linear
least-squares solution of an independently assembled design matrix (energies differentiated
automatically); fits of non-linear models are compared with an independent solver on the
reference forces and must be stationary. A state is one (experiments, selections, guess,
options)."""
import itertools

import numpy as np
import scipy.optimize as so
import torch

import hyperelastic as hel
from hyperelastic import lab

from ..core import require
from .c22 import LC, Builder

ASSUMPTIONS = ["the solver (scipy) finds the optimum of a linear least-squares problem up to its tolerances",
               "solver options that change the number of returned items (full_output) are not used"]
LABELS = ["C10", "C01", "C20"]
NAMES = ("uniaxial", "planar", "biaxial", "uniaxial2")


def data(name):
    "displacement, force, area, length"
    L, A = {"uniaxial": (100.0, 25.0), "planar": (50.0, 12.0), "biaxial": (1.0, 1.0), "uniaxial2": (20, 4)}[name]
    n, hi = {"uniaxial": (13, 1.6), "planar": (9, 1.2), "biaxial": (11, 0.8), "uniaxial2": (7, 0.5)}[name]
    s = 1 + np.linspace(-0.1, hi, n)
    k = {"uniaxial": 1.0, "planar": 1.15, "biaxial": 1.3, "uniaxial2": 0.6}[name]
    f = k * (s - 1 / s**2 + 0.1 * (s - 1) ** 3 + 0.05 * np.sin(9 * s))
    return (s - 1) * L, f * A, A, L


def experiment(name):
    d, f, A, L = data(name)
    return lab.Experiment(name, d, f, area=A, length=L)


def loadcase(name):
    return LC[name.rstrip("2")]


def reference_data(name):
    d, f, A, L = data(name)
    return 1 + d / L, f / A


def masks(name):
    n = len(data(name)[0])
    b = np.arange(n) % 3 != 1
    return {"all": slice(None), "head": slice(0, n // 2 + 1), "stride": slice(1, None, 2), "bool": b, "index": np.array([0, n - 1, 3, 2]),
            "none": slice(0, 0), "tail": slice(-4, None), "boolnone": np.zeros(n, dtype=bool), "reverse": slice(None, None, -1), "list": [1, 4, 5],
            "permutation": np.roll(np.arange(n)[::-1], 2), "repeated": np.array([-1, 2, 2, 0, -3])}


GUESS = {"ones": [1.0, 1.0, 1.0], "ints": [1, 1, 1], "tuple": (0.5, 0.2, 0.1), "intarray": np.array([2, 1, 0]), "float32": np.array([0.3, 0.3, 0.3], dtype=np.float32),
         "array": np.array([0.4, 0.1, 0.02]), "far": np.array([50.0, -30.0, 10.0])}
OPTIONS = {"default": {}, "lm": dict(method="lm"), "trf": dict(method="trf"), "dogbox": dict(method="dogbox"), "loose bounds": dict(bounds=(-1e3, 1e3)),
           "maxfev": dict(maxfev=5000), "tolerances": dict(method="trf", ftol=1e-13, xtol=1e-13, gtol=1e-13), "lm tolerances": dict(method="lm", ftol=1e-12, xtol=1e-12)}


def cases(ctx):
    out = []
    ill = lambda s: set(s) == {"planar"}  # two parameters cannot be separated
    sel = [s for n in (1, 2, 3) for s in itertools.permutations(NAMES, n) if not ill(s)]
    for s in sel:
        out.append(dict(kind="masks", exps=list(s)))
    for s in sel if not ctx.quick else [s for s in sel if len(s) != 2]:
        out.append(dict(kind="options", exps=list(s)))
    for s in (("uniaxial",), ("uniaxial", "planar"), ("biaxial", "uniaxial", "planar")):
        for name in ("ogden", "gen"):
            out.append(dict(kind="nonlinear", exps=list(s), name=name))
    for n in (4, 5, 6, 9):
        for shift in range(4):
            out.append(dict(kind="many", exps=[NAMES[(shift + (3 if n % 2 else 1) * k) % 4] for k in range(n)]))
    for s in (("uniaxial",), ("uniaxial", "planar"), ("biaxial", "uniaxial", "planar"), ("planar", "uniaxial2")):
        out.append(dict(kind="units", exps=list(s)))
    for name in ("tod5", "one", "torch", "user"):
        for s in (("uniaxial", "biaxial"), ("planar", "uniaxial2", "biaxial")):
            out.append(dict(kind="models", exps=list(s), name=name))
    return out


_design = {}


def design(exp, labels, name="tod3"):
    "columns: force of a unit parameter (the energies are linear in the parameters)"
    key = (exp, tuple(labels), name)
    if key not in _design:
        b = Builder(name)
        s, y = reference_data(exp)
        zero = dict.fromkeys(b.labels, 0.0)
        _design[key] = np.array([b.force(exp.rstrip("2"), s, {**zero, k: 1.0}) for k in labels]).T, y
    return _design[key]


def solve(X, y, sigma=None, absolute=False):
    w = 1 if sigma is None else 1 / sigma
    Xw = X * (w if sigma is None else w[:, None])
    q, r = np.linalg.qr(Xw)
    p = np.linalg.solve(r, q.T @ (y * w))
    cov = np.linalg.inv(r.T @ r)
    if not absolute:
        res = Xw @ p - y * w
        cov = cov * (res @ res) / (len(y) - len(p))
    return p, cov


def fit(case, ctx, exps, mask, guess, options, labels=LABELS, name="tod3", space="def", stretch_points=None):
    b = Builder(name, space)
    E = [experiment(e) for e in exps]
    snap = [(np.array(e.displacement), np.array(e.force), np.array(e.stretch)) for e in E]
    S = [lab.Simulation(loadcase(e)(), x.stretch if stretch_points is None else np.linspace(0.9, 1.5, stretch_points), list(labels), b) for e, x in zip(exps, E)]
    g = np.array(guess).copy()
    ml = None if mask is None else [masks(e)[k] for e, k in zip(exps, mask)]
    o = lab.Optimize(experiments=E, simulations=S, parameters=guess, **({} if mask is None else dict(mask=ml)))
    kw = dict(options)
    sel = [np.arange(len(data(e)[0])) if mask is None else np.arange(len(data(e)[0]))[masks(e)[k]] for e, k in zip(exps, mask or exps)]
    ctx.step()
    out = o.curve_fit(**kw)
    require(len(out) == 2, "curve_fit must return parameters and covariance")
    require(np.array_equal(np.array(guess), g), "initial guess modified")
    require(all(np.array_equal(a, x.displacement) and np.array_equal(f, x.force) and np.array_equal(s, x.stretch) for (a, f, s), x in zip(snap, E)), "experiments modified")
    return o, out, sel, S


def check(what, o, out, p, cov, exps, sel, S, labels, name, tol, sigma=None):
    popt, pcov = out
    # the objective is flat along badly determined directions: tolerance in units of the standard error
    std = np.sqrt(np.diag(cov))
    X, y = stack(exps, sel, labels, name)
    well = np.linalg.cond(X / np.linalg.norm(X, axis=0)) < 300
    if sigma is None:
        best, now = np.linalg.norm(X @ p - y), np.linalg.norm(X @ popt - y)
        require(now <= best * (1 + 1e-6) + 1e-10, f"{what}: residual norm {now}, the optimum is {best}")
    if well:
        t = tol * np.abs(p).max() + 2e-3 * std
        require(np.all(np.abs(np.asarray(popt) - p) <= t), f"{what}: parameters {popt} instead of {p}")
        require(np.allclose(pcov, cov, rtol=5e-3, atol=5e-3 * np.abs(cov).max()) and np.allclose(np.diag(pcov), np.diag(cov), rtol=1e-2), f"{what}: covariance {pcov} instead of {cov}")
    require(np.array_equal(np.asarray(o.parameters), np.asarray(popt)), f"{what}: reported parameters {o.parameters}")
    require(np.allclose(o.errors, np.sqrt(np.diag(pcov)), rtol=1e-12), f"{what}: standard errors {o.errors}")
    res = np.concatenate([(design(e, labels, name)[0] @ np.asarray(popt) - design(e, labels, name)[1])[k] for e, k in zip(exps, sel)])
    require(np.shape(o.residuals) == res.shape, f"{what}: {np.shape(o.residuals)} residuals for {res.shape} selected points")
    sc = max(np.abs(res).max(), 1e-3)
    require(np.all(np.abs(o.residuals - res) <= 1e-8 * sc), f"{what}: residuals {o.residuals} instead of {res}")
    require(np.isclose(o.norm_residuals(), np.linalg.norm(res), rtol=1e-7), f"{what}: norm of residuals")
    mean = np.mean(np.sqrt(np.diag(pcov)) / np.abs(popt)) * 100
    require(np.isclose(o.mean_relative_std(), mean, rtol=1e-9), f"{what}: mean relative standard deviation")
    for e, s in zip(exps, S):
        require(np.array_equal(s.parameters, popt), f"{what}: parameters of the simulations")
        require(s.label == loadcase(e)().label, "label")
        f = Builder(name).force(e.rstrip("2"), s.stretch, dict(zip(labels, popt)))
        require(np.allclose(s.stress(), f, rtol=1e-9, atol=1e-9 * np.abs(f).max()), f"{what}: stress of the simulation with the optimised parameters")


def stack(exps, sel, labels=LABELS, name="tod3"):
    X = np.concatenate([design(e, labels, name)[0][k] for e, k in zip(exps, sel)])
    y = np.concatenate([design(e, labels, name)[1][k] for e, k in zip(exps, sel)])
    return X, y


def run(case, ctx):
    torch.set_default_dtype(torch.float64)
    {"masks": mask_cases, "options": option_cases, "nonlinear": nonlinear, "models": models, "many": many, "units": units}[case["kind"]](case, ctx)


def mask_cases(case, ctx):
    exps = case["exps"]
    names = list(masks(exps[0]))
    combos = [None, *itertools.product(names, repeat=len(exps))]
    if len(exps) == 3 and ctx.quick:
        combos = combos[:1] + [c for n, c in enumerate(combos[1:]) if (names.index(c[0]) + 3 * names.index(c[1]) + 7 * names.index(c[2])) % 25 == 0]
    for mask in combos:
        sel = [np.arange(len(data(e)[0]))[masks(e)[k]] for e, k in zip(exps, mask)] if mask else None
        if sel is not None and sum(map(len, sel)) < 5:
            continue  # not overdetermined
        # odd label order
        labels = LABELS if mask is None or mask[0] != "tail" else LABELS[::-1]
        o, out, sel, S = fit(case, ctx, exps, mask, np.array([0.4, 0.1, 0.02]), dict(method="lm"), labels, stretch_points=4 if mask and mask[-1] == "bool" else None)
        X, y = stack(exps, sel, labels)
        if np.linalg.cond(X / np.linalg.norm(X, axis=0)) > 1e5:
            continue  # the parameters cannot be separated by these data
        p, cov = solve(X, y)
        check(f"{exps} masks {mask}", o, out, p, cov, exps, sel, S, labels, "tod3", 1e-6)
        ctx.state(exps, mask)
        ctx.trace()
    ctx.outcome(p)
    ctx.sample(f"{exps}: {len(combos)} selections of data points")


def option_cases(case, ctx):
    exps = case["exps"]
    for mask in (None, ["stride"] + ["all"] * (len(exps) - 1)):
        if mask and len(exps) == 1:
            mask = ["bool"]
        for gname, guess in GUESS.items():
            for oname, opt in OPTIONS.items():
                for labels in (LABELS, LABELS[::-1], ["C01", "C20", "C10"]):
                    if ctx.quick and labels is not LABELS and gname != "intarray":
                        continue
                    o, out, sel, S = fit(case, ctx, exps, mask, guess, opt, labels, space="dis" if oname == "lm" else "def")
                    X, y = stack(exps, sel, labels)
                    p, cov = solve(X, y)
                    check(f"{exps} masks {mask} guess {gname} options {oname} labels {labels}", o, out, p, cov, exps, sel, S, labels, "tod3", 1e-5 if oname in ("trf", "dogbox", "loose bounds") else 1e-6)
                    ctx.state(exps, mask, gname, oname, labels)
                    ctx.trace()
        # weights
        sel = [np.arange(len(data(e)[0])) if mask is None else np.arange(len(data(e)[0]))[masks(e)[k]] for e, k in zip(exps, mask or exps)]
        X, y = stack(exps, sel)
        sigma = 0.01 + 0.05 * (np.arange(len(y)) % 5)
        for absolute in (False, True):
            o, out, sel, S = fit(case, ctx, exps, mask, [1.0, 1.0, 1.0], dict(sigma=sigma, absolute_sigma=absolute))
            p, cov = solve(X, y, sigma, absolute)
            check(f"{exps} masks {mask} weights absolute={absolute}", o, out, p, cov, exps, sel, S, LABELS, "tod3", 1e-6, sigma)
            ctx.state(exps, mask, "sigma", absolute)
        # active bounds
        p0, _ = solve(X, y)
        for k in range(3):
            lo, hi = np.full(3, -1e3), np.full(3, 1e3)
            hi[k] = p0[k] - 0.1 * abs(p0[k]) - 0.01
            guess = np.minimum([0.1, 0.1, 0.1], hi - 0.05)
            o, out, sel, S = fit(case, ctx, exps, mask, guess, dict(bounds=(lo, hi)))
            free = [a for a in range(3) if a != k]
            q = np.full(3, hi[k])
            q[free] = np.linalg.lstsq(X[:, free], y - X[:, k] * hi[k], rcond=None)[0]
            popt = out[0]
            require(np.all(popt <= hi) and np.allclose(popt, q, rtol=1e-3, atol=1e-3 * np.abs(q).max()), f"{exps} active bounds: {popt} instead of {q}")
            res = np.concatenate([(design(e, LABELS)[0] @ popt - design(e, LABELS)[1])[i] for e, i in zip(exps, sel)])
            require(np.allclose(o.residuals, res, rtol=1e-8, atol=1e-9), f"{exps} active bounds: residuals")
            ctx.state(exps, mask, "bounds", k)
        # positional options: initial guess is given by the optimization, sigma is the next argument
        E = [experiment(e) for e in exps]
        S = [lab.Simulation(loadcase(e)(), x.stretch, LABELS, Builder("tod3")) for e, x in zip(exps, E)]
        o = lab.Optimize(E, S, [1, 1, 1], None if mask is None else [masks(e)[k] for e, k in zip(exps, mask)])
        out = o.curve_fit(sigma, True)
        p, cov = solve(X, y, sigma, True)
        check(f"{exps} masks {mask} positional weights", o, out, p, cov, exps, sel, S, LABELS, "tod3", 1e-6, sigma)
        # evaluation limit is passed on
        o = lab.Optimize([experiment(e) for e in exps], [lab.Simulation(loadcase(e)(), experiment(e).stretch, LABELS, Builder("tod3")) for e in exps], [1, 1, 1])
        try:
            o.curve_fit(method="lm", maxfev=1)
            failed = False
        except RuntimeError:
            failed = True
        require(failed, f"{exps}: the evaluation limit is not passed on to the solver")
    ctx.outcome(p)


def models(case, ctx):
    "other models that are linear in their parameters"
    exps, name = case["exps"], case["name"]
    b = Builder(name)
    for labels in itertools.permutations(b.labels):
        for mask in (None, ["bool"] * len(exps)):
            o, out, sel, S = fit(case, ctx, exps, mask, np.ones(len(labels)), dict(method="lm"), list(labels), name)
            X, y = stack(exps, sel, list(labels), name)
            p, cov = solve(X, y)
            check(f"{case} labels {labels} masks {mask}", o, out, p, cov, exps, sel, S, list(labels), name, 1e-5)
            ctx.state(case, labels, mask)
            ctx.trace()
    ctx.outcome(p)


def nonlinear(case, ctx):
    exps, name = case["exps"], case["name"]
    b = Builder(name)
    starts = {"ogden": [[1.0, 1.3, 0.3, -2.0], [0.5, 2.0, 0.5, -1.0]], "gen": [[0.4, 0.1, 1.5], [0.5, 0.2, 2.0]]}[name]
    for g in starts:
        for mask in (None, ["stride"] * len(exps)):
            sel = [np.arange(len(data(e)[0])) if mask is None else np.arange(len(data(e)[0]))[masks(e)[k]] for e, k in zip(exps, mask or exps)]
            y = np.concatenate([reference_data(e)[1][k] for e, k in zip(exps, sel)])
            f = lambda p: np.concatenate([b.force(e.rstrip("2"), reference_data(e)[0][k], dict(zip(b.labels, p))) for e, k in zip(exps, sel)])
            o, (popt, pcov), sel, S = fit(case, ctx, exps, mask, g, dict(method="trf", ftol=1e-12, xtol=1e-12, gtol=1e-12, max_nfev=4000), b.labels, name)
            r = f(popt) - y
            require(np.allclose(o.residuals, r, rtol=1e-6, atol=1e-8), f"{case}: residuals")
            require(np.linalg.norm(r) <= np.linalg.norm(f(g) - y) + 1e-12, f"{case}: the fit is worse than the initial guess")
            h = 1e-6
            J = np.array([(f(popt + h * e) - f(popt - h * e)) / (2 * h) for e in np.eye(len(popt))]).T
            slope = np.abs(J.T @ r) / (np.linalg.norm(J, axis=0) * np.linalg.norm(r) + 1e-12)
            require(np.all(slope <= 1e-3), f"{case} start {g} masks {mask}: not stationary, slope {slope}")
            cov = np.linalg.pinv(J.T @ J) * (r @ r) / (len(y) - len(popt))
            if np.linalg.cond(J) < 1e4:
                require(np.allclose(pcov, cov, rtol=1e-2, atol=1e-3 * np.abs(cov).max()), f"{case}: covariance")
            require(np.allclose(o.errors, np.sqrt(np.diag(pcov))), f"{case}: errors")
            ref = so.least_squares(lambda p: f(p) - y, g, method="trf", ftol=1e-12, xtol=1e-12, gtol=1e-12, max_nfev=4000)
            require(np.linalg.norm(r) <= np.linalg.norm(ref.fun) * (1 + 1e-3) + 1e-9, f"{case}: residual norm {np.linalg.norm(r)}, an independent solver finds {np.linalg.norm(ref.fun)}")
            ctx.state(case, g, mask)
            ctx.trace()
    ctx.outcome(popt)


def many(case, ctx):
    "more than three experiments, the same data more than once, one object at several places"
    exps = case["exps"]
    n = len(exps)
    names = list(masks(exps[0]))
    for k in range(-1, len(names)):
        mask = None if k < 0 else [names[(k + 5 * a) % len(names)] for a in range(n)]
        o, out, sel, S = fit(case, ctx, exps, mask, [0.4, 0.1, 0.02], dict(method="lm"))
        X, y = stack(exps, sel)
        p, cov = solve(X, y)
        check(f"{exps} masks {mask}", o, out, p, cov, exps, sel, S, LABELS, "tod3", 1e-6)
        # the experiments and simulations of equal names are one object
        E = {e: experiment(e) for e in exps}
        T = {e: lab.Simulation(loadcase(e)(), E[e].stretch, LABELS, Builder("tod3")) for e in exps}
        o = lab.Optimize([E[e] for e in exps], [T[e] for e in exps], [0.4, 0.1, 0.02], **({} if mask is None else dict(mask=[masks(e)[m] for e, m in zip(exps, mask)])))
        out = o.curve_fit(method="lm")
        check(f"{exps} masks {mask}, shared objects", o, out, p, cov, exps, sel, [T[e] for e in exps], LABELS, "tod3", 1e-6)
        # one label for all of them, one load case object for equal ones
        E = [experiment(e) for e in exps]
        L = {e: loadcase(e)(label="Specimen") for e in exps}
        for e in E:
            e.label = "Specimen"
        o = lab.Optimize(E, [lab.Simulation(L[e], x.stretch, LABELS, Builder("tod3")) for e, x in zip(exps, E)], [0.4, 0.1, 0.02], **({} if mask is None else dict(mask=[masks(e)[m] for e, m in zip(exps, mask)])))
        out = o.curve_fit(method="lm")
        require(np.allclose(out[0], p, rtol=1e-5, atol=1e-6 * np.abs(p).max()) or not np.linalg.cond(X / np.linalg.norm(X, axis=0)) < 300, f"{exps} masks {mask}, equal labels: parameters {out[0]} instead of {p}")
        res = X @ out[0] - y
        require(np.shape(o.residuals) == res.shape and np.all(np.abs(o.residuals - res) <= 1e-8 * np.abs(res).max()), f"{exps} masks {mask}, equal labels: residuals")
        ctx.step(3)
        ctx.state(exps, mask, "many")
        ctx.trace(3)
    ctx.outcome(p)


def units(case, ctx):
    "forces, areas, displacements and lengths in other units; long measurements"
    exps = case["exps"]
    for force, area, length in itertools.product((1e-9, 1e-3, 1.0, 1e6, 1e9), (1e-6, 1.0, 1e4), (1e-3, 1.0, 1e6)):
        for mask in (None, ["stride"] * len(exps)):
            E = []
            for e in exps:
                d, f, A, L = data(e)
                E.append(lab.Experiment(e, d * length, f * force, area=A * area, length=L * length))
            S = [lab.Simulation(loadcase(e)(), x.stretch, LABELS, Builder("tod3")) for e, x in zip(exps, E)]
            u = force / area
            o = lab.Optimize(E, S, np.array([0.4, 0.1, 0.02]) * u, **({} if mask is None else dict(mask=[masks(e)[m] for e, m in zip(exps, mask)])))
            popt, pcov = o.curve_fit(method="lm")
            sel = [np.arange(len(data(e)[0])) if mask is None else np.arange(len(data(e)[0]))[masks(e)[k]] for e, k in zip(exps, mask or exps)]
            X, y = stack(exps, sel)
            p, cov = solve(X, y)
            what = f"{exps} masks {mask}: forces x {force}, areas x {area}, lengths x {length}"
            t = 1e-5 * np.abs(p).max() + 2e-3 * np.sqrt(np.diag(cov))
            require(np.all(np.abs(popt / u - p) <= t), f"{what}: parameters {popt} instead of {p * u}")
            require(np.allclose(pcov / u**2, cov, rtol=1e-2, atol=5e-3 * np.abs(cov).max()), f"{what}: covariance")
            require(np.array_equal(o.parameters, popt) and np.allclose(o.errors, np.sqrt(np.diag(pcov)), rtol=1e-12), f"{what}: parameters or standard errors")
            res = X @ (popt / u) - y
            require(np.shape(o.residuals) == res.shape and np.all(np.abs(o.residuals / u - res) <= 1e-8 * np.abs(res).max() + 1e-11), f"{what}: residuals")
            require(np.isclose(o.norm_residuals() / u, np.linalg.norm(res), rtol=1e-7), f"{what}: norm of residuals")
            for s in S:
                require(np.array_equal(s.parameters, popt), f"{what}: parameters of the simulations")
            ctx.step()
            ctx.state(exps, mask, force, area, length)
            ctx.trace()
    ctx.outcome(p)
