"""Exploration of all crash points on the real objects. (1) "line": for 10 worlds (groups of
objects that share frameworks and models, as in C17) and every operation {stress, elasticity
of every object at every deformation}, an exception is raised in front of EVERY library line
that the operation executes (also within the initial-state, framework and piola
operations); afterwards argument and earlier results must be unchanged and follow-up
operations on all objects of the world must give what fresh objects give. (2) "first": the
same for the very first evaluation after an import of the library (15 kinds of jobs:
materials, simulations, tensor math). (3) "model": a user model fails in its k-th call:
all histories of length 3 (thorough: 4) over {stress, elasticity, stress that fails,
elasticity that fails in the first / second derivative} (and shorter ones for 15 types of
exceptions) x two deformations x frameworks x
spaces. (4) "simulation", "fit": the evaluation of a simulation, the k-th material
evaluation of a fit for every k, every library line of a fit outside of the material
evaluations: data, guess and parameters are as before, and the next evaluation or fit
gives the reference result. A state is one (configuration, history, crash point)."""
import itertools
import os
import sys

import numpy as np
import torch

import hyperelastic as hel
from hyperelastic import lab

from .. import core, mech
from .. import materials as m
from ..core import require
from . import c17, c20, c23
from .c22 import Builder

ASSUMPTIONS = ["exceptions arise in front of a source line of the library or in a call of the user's model; within one call of numpy, scipy or torch they are not injected",
               "evaluations with threads: the exception arises in the calling thread"]
SRC = os.path.realpath(os.path.join(core.REPO, "src", "hyperelastic")) + os.sep


class Crash(Exception):
    pass


# failures of the kinds which a model may raise
EXC = {c.__name__: type("Crash" + c.__name__, (Crash, c), {}) for c in
       (ZeroDivisionError, FloatingPointError, ValueError, RuntimeError, np.linalg.LinAlgError, TypeError, IndexError, KeyError, AttributeError,
        NotImplementedError, AssertionError, ImportError, OSError, UserWarning)}
EXC["MemoryError"] = type("CrashMemoryError", (Crash, MemoryError), {})
KINDS = [Crash, *EXC.values()]


def crash(fun, k, only="", exc=Crash):
    "run fun, raise in front of the k-th executed library line; (finished, result, number of lines)"
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == k:
                raise exc
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(SRC + only) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = fun()
    except exc:
        return False, None, n[0]
    finally:
        sys.settrace(old)
    return True, r, n[0]


def cases(ctx):
    out = []
    for w in c17.worlds():
        for a, op in enumerate(c17.operations(w)):
            if op[0] in ("stress", "elasticity", "framework gradient", "framework hessian", "piola", "initial"):
                out.append(dict(kind="line", world=w, op=a))
    for a in c20.KINDS:
        plain = a == "sim" or a.startswith("math")
        for w in ("stress",) if plain else ("stress", "elasticity"):
            out.append(dict(kind="first", a=a, w=w))
    for fw in ("inv", "str", "gen"):
        for sp in ("def", "dis", "dil"):
            for a in range(len(HIST)):
                out.append(dict(kind="model", fw=fw, space=sp, first=a, exc=None))
            for e in EXC:
                out.append(dict(kind="model", fw=fw, space=sp, first=None, exc=e))
    for n in ("tod5", "ogden", "gen", "torch", "user"):
        for lc in ("uniaxial", "planar", "biaxial"):
            out.append(dict(kind="simulation", name=n, lc=lc))
    for s in (("uniaxial",), ("uniaxial", "planar"), ("biaxial", "uniaxial", "planar")):
        for space in ("def", "dis"):
            for how in ("material", "line"):
                for masked in (False, True):
                    out.append(dict(kind="fit", exps=list(s), space=space, how=how, masked=masked))
    return out


def run(case, ctx):
    torch.set_default_dtype(torch.float64)
    {"line": line, "first": first, "model": model, "simulation": simulation, "fit": fit}[case["kind"]](case, ctx)


# --- every line --------------------------------------------------------------------------
def line(case, ctx):
    name = case["world"]
    exp = c17.Expected(name)
    ops = c17.operations(name)
    op = ops[case["op"]]
    follow = [o for o in ops if o[0] in ("stress", "elasticity") and o[2] != 1 or o[0].startswith("framework")]
    k, done, total = 0, False, 0
    while not done:
        k += 1
        w = c17.World(name)
        before = []
        # the last evaluation before the failure is one at another deformation of equal shape
        other = (op[0], op[1], {0: 1, 1: 0, 2: 0}[op[2]]) if op[0] in ("stress", "elasticity") else ops[0]
        for o in (ops[0], ops[1], op, other):
            for r, want in zip(one(w, o), exp.get(o, 0)):
                require(c17.same(r, want), f"{o} differs from the evaluation by fresh objects")
                before.append((r, np.array(r)))
        done, _, n = crash(lambda: one(w, op), k)
        total += 1
        what = f"after an exception in front of line {k} of {op}"
        for f, g in zip(w.F, c17.Fset()):
            require(f.tobytes() == g.tobytes(), f"argument modified {what}")
        # the interrupted operation first, and again at the end of the others
        rest = [follow[(k + j) % len(follow)] for j in range(3 if ctx.quick else len(follow))]
        for o in (op, *rest, op):
            for r, want in zip(one(w, o), exp.get(o, 0)):
                require(c17.same(r, want), f"{o} {what} differs from the evaluation by fresh objects")
            ctx.step()
        for r, s in before:
            require(r.tobytes() == s.tobytes(), f"an earlier result changed {what}")
        for fw in w.fws + [u.material for u in w.ums]:
            mo = getattr(fw, "material", None)
            if hasattr(mo, "check"):
                mo.check()
        ctx.state(name, op, k)
        ctx.trace()
        require(k < 5000, "no end")
    ctx.maximum("lines_of_an_operation", total)
    ctx.count("crash_points", total - 1)
    ctx.sample(f"{name}: {op}: {total - 1} crash points")


def one(w, op):
    if op[0] == "initial":
        x = w.ums[op[1]].x
        return [w.ums[op[1]].gradient(x)[0], w.ums[op[1]].hessian(x)[0]]
    return c17.perform(w.ums, w.fws, op, w.F[op[2]])


def first(case, ctx):
    a, w = case["a"], case["w"]
    want = {k: c20.alone(a, w, k)[0] for k in (0, 1)}
    k, done = 0, False
    while not done:
        k += 1
        c20.fresh()
        done, res, n = crash(lambda: c20.job(a, w, 0), k)
        # the interrupted job again, another one, the job again
        for j in (0, 1, 0):
            try:
                res = c20.job(a, w, j)
            except Exception as e:  # noqa
                require(False, f"{type(e).__name__}: {e} in {a} {w} {j} after an exception in front of line {k} of the first evaluation")
            c20.judge([res], [want[j]], f"an exception in front of line {k} of the first evaluation of {a} {w}")
            ctx.step()
        ctx.state(a, w, k)
        ctx.trace()
        require(k < 5000, "no end")
    ctx.count("crash_points", k - 1)
    ctx.outcome(np.ravel(want[0][0])[:3])


# --- failing models ----------------------------------------------------------------------
# (what, deformation, which call of the model fails)
HIST = [("stress", 0, None), ("stress", 1, None), ("elasticity", 0, None), ("elasticity", 1, None), ("stress", 0, "gradient"), ("stress", 1, "gradient"),
        ("elasticity", 0, "gradient"), ("elasticity", 1, "gradient"), ("elasticity", 0, "hessian"), ("elasticity", 1, "hessian"), ("invalid", 0, None)]


class Failing:
    "a model whose evaluation fails on demand, e.g. since a local iteration does not converge"

    def __init__(self, base):
        self.base, self.fail, self.exc = base, None, Crash

    def gradient(self, *a):
        if self.fail == "gradient":
            raise self.exc("no convergence")
        return self.base.gradient(*a)

    def hessian(self, *a):
        if self.fail == "hessian":
            raise self.exc("no convergence")
        return self.base.hessian(*a)


def build(fw, sp):
    if fw == "str":
        mo = Failing(m.StretchModel(m.COUPLED["e1e2"], "list"))
        f = hel.StretchesFramework(mo)
    else:
        mo = Failing(m.PolyModel(mech.MIXED, "none", offset=(3, 3, 1) if fw == "inv" else (0, 0, 0)))
        f = hel.InvariantsFramework(mo) if fw == "inv" else hel.GeneralizedInvariantsFramework(mo, fun=hel.models.generalized.strain, exponent=1.4)
    return mo, m.SPACES[sp](f)


def model(case, ctx):
    fw, sp = case["fw"], case["space"]
    Fs = [c20.F(0), c20.F(2)]
    want = {}
    for what in ("stress", "elasticity"):
        for d in (0, 1):
            um = build(fw, sp)[1]
            want[what, d] = np.array((um.gradient if what == "stress" else um.hessian)([Fs[d].copy(), None])[0])
    n = 3 if ctx.quick else 4
    for rest in itertools.product(range(len(HIST)), repeat=n - 1):
        hist = [HIST[i] for i in rest]
        if case["exc"] is None:
            hist.insert(0, HIST[case["first"]])
        elif not any(h[2] for h in hist):
            continue
        mo, um = build(fw, sp)
        mo.exc = EXC.get(case["exc"], Crash)
        old = []
        for what, d, fail in [*hist, ("elasticity", 0, None), ("stress", 0, None)]:
            F = Fs[d].copy()
            mo.fail = fail
            if what == "invalid":
                try:
                    um.hessian([F[:2], None])
                except Exception:  # noqa: arguments of another shape are refused
                    continue
                continue
            try:
                r = (um.gradient if what == "stress" else um.hessian)([F, None])[0]
            except Crash as e:
                require(fail is not None and type(e) is mo.exc, "another failure")
                r = None
            require(F.tobytes() == Fs[d].tobytes(), f"argument modified by {what, d, fail} of {hist}")
            require((r is None) == (fail is not None), f"{what, d, fail} of {hist}: the failure of the model is hidden")
            ctx.step()
            if r is not None:
                require(c17.same(r, want[what, d]), f"{what, d} of {hist} differs from the evaluation by fresh objects")
                old.append((r, r.copy()))
        require(all(np.array_equal(a, b) for a, b in old), f"an earlier result changed in {hist}")
        ctx.state(fw, sp, tuple(hist))
        ctx.trace()
    ctx.outcome(want["stress", 0].ravel()[:4])


# --- simulations and fits ------------------------------------------------------------------
class Counting:
    "the material function, failing at its k-th evaluation"

    def __init__(self, b):
        self.b, self.n, self.k = b, 0, 0

    def __call__(self, **kw):
        self.n += 1
        if self.n == self.k:
            raise KINDS[self.k % len(KINDS)]
        return self.b(**kw)


def simulation(case, ctx):
    b = Builder(case["name"])
    X = np.array([0.7, 1.0, 1.3, 2.1])
    lc = {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}[case["lc"]]
    other = [v * 1.1 for v in b.values]
    want = b.force(case["lc"], X, dict(zip(b.labels, b.values)))
    k, done = 0, [False, False]
    while not all(done):
        k += 1
        s = lab.Simulation(lc(), X.copy(), list(b.labels), b, list(b.values))
        t = lab.Simulation(s.loadcase, s.stretch, s.labels, b, s.parameters)
        done[0], _, n = crash(s.stress, k)
        done[1], _, n = crash(lambda: s.stress_curve_fit(X * 1.2, *other), k)
        what = f"{case} after an exception in front of line {k}"
        require(np.array_equal(s.stretch, X) and list(s.parameters) == list(b.values) and list(s.labels) == list(b.labels), f"{what}: data modified")
        for o in (s, t, s):
            r = o.stress()
            require(bool(np.all(np.abs(r - want) <= 1e-8 * np.abs(want).max())), f"{what}: {r} instead of {want}")
            ctx.step()
        ctx.state(case, k)
        ctx.trace()
        require(k < 5000, "no end")
    ctx.count("crash_points", k - 1)
    ctx.outcome(want)


def fit(case, ctx):
    exps = case["exps"]
    kinds = ["bool", "stride", "all"]
    masks = [c23.masks(e)[c] for e, c in zip(exps, kinds)] if case["masked"] else None
    sel = [np.arange(len(c23.data(e)[0])) if masks is None else np.arange(len(c23.data(e)[0]))[mk] for e, mk in zip(exps, masks or exps)]
    Xm, y = c23.stack(exps, sel)
    p, cov = c23.solve(Xm, y)
    guess = [0.4, 0.1, 0.02]
    k, done = 0, False
    step = 1
    while not done:
        k += step
        b = Counting(Builder("tod3", case["space"]))
        E = [c23.experiment(e) for e in exps]
        snap = [(np.array(e.displacement), np.array(e.force), np.array(e.stretch), np.array(e.stress())) for e in E]
        S = [lab.Simulation(c23.loadcase(e)(), x.stretch, list(c23.LABELS), b, [0.7, 0.3, 0.1]) for e, x in zip(exps, E)]
        g = np.array(guess)
        o = lab.Optimize(E, S, g, **({} if masks is None else dict(mask=masks)))
        what = f"{case} exception at {k}"
        if case["how"] == "material":
            b.k = k
            try:
                o.curve_fit()
                done = True
            except Crash:
                done = False
            if not done:
                # the parameters are the start values, or the optimum if that has been found already
                optimum = lambda q: np.allclose(q, p, rtol=1e-4, atol=1e-4 * np.abs(p).max())
                require(np.array_equal(o.parameters, guess) or optimum(o.parameters), f"{what}: the start values are changed to {o.parameters}")
                for s in S:
                    q = list(s.parameters)
                    require(q == guess or q == [0.7, 0.3, 0.1] or optimum(q), f"{what}: parameters of a simulation {q}")
            b.k = 0
        else:
            done, _, n = crash(o.curve_fit, k, only="lab" + os.sep)
        require(np.array_equal(g, guess), f"{what}: the guess is modified")
        for e, (d, f, l, st) in zip(E, snap):
            require(all(np.array_equal(a, c) for a, c in zip((e.displacement, e.force, e.stretch, e.stress()), (d, f, l, st))), f"{what}: experiment modified")
        for again in range(2):
            r, c = o.curve_fit()
            require(np.allclose(r, p, rtol=1e-4, atol=1e-4 * np.abs(p).max()) and r is not g, f"{what}: {r} instead of {p}")
            require(np.allclose(o.residuals, Xm @ p - y, atol=1e-4 * np.abs(y).max()), f"{what}: residuals")
            require(np.allclose(o.errors, np.sqrt(np.diag(cov)), rtol=2e-2), f"{what}: errors {o.errors}")
            for s in S:
                require(np.array_equal(s.parameters, o.parameters), f"{what}: parameters of a simulation")
            ctx.step()
        ctx.state(case, k)
        ctx.trace()
        if case["how"] == "line" and ctx.quick and k > 40:
            step = 7
        require(k < 20000, "no end")
    ctx.count("crash_points", k - 1)
    ctx.outcome(p)
