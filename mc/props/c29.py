"""Exhaustive exploration of histories of process-wide settings: 29 settings of numpy, torch,
matplotlib and Python (error handling, print options, random states, buffer size, default
precision, grad mode, threads, anomaly detection, rc parameters, interactive mode, warning
filters, recursion limit, garbage collection, trace functions, environment ..) with one to
two values each x 34 kinds of jobs (materials, tensor math, models, measures, experiments, simulations,
fits, plots; evaluations without finite results, evaluations and fits that fail). (1) "pairs": for every job, every value a of a setting and every value b of
another one (in one order, thorough: in both): set a, evaluate new and kept objects, set b, evaluate, restore a, evaluate,
restore b, evaluate. After every operation ALL settings are as the user has set them, nothing has been
printed and no file has been written, the attributes of numpy, scipy, matplotlib and builtins are
the same objects, and the results are those obtained with the default
settings. (2) "import": the same for the import of the library with any setting, followed
by the jobs. A state is one (job, setting, setting, step)."""
import builtins
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import scipy.optimize
import torch

import hyperelastic as hel
from hyperelastic import lab

from .. import materials as m
from .. import mech
from ..core import require
from . import c20, c22, c23
from .c22 import Builder

ASSUMPTIONS = ["the precision of torch models is the default one of torch: for those another default precision changes the result (see C16)",
               "error handling of numpy is not set to 'raise'"]


# --- settings: name -> (get, set, values) ------------------------------------------------
def rc(k):
    return lambda: matplotlib.rcParams[k], lambda v: matplotlib.rcParams.__setitem__(k, v)


def err(k):
    return lambda: np.geterr()[k], lambda v: np.seterr(**{k: v})


def popt(k):
    return lambda: np.get_printoptions()[k], lambda v: np.set_printoptions(**{k: v})


def filters(v):
    warnings.filters[:] = v
    warnings._filters_mutated_lock_held() if hasattr(warnings, "_filters_mutated_lock_held") else warnings._filters_mutated()


def env(v):
    os.environ.pop("VERIF_C29", None) if v is None else os.environ.__setitem__("VERIF_C29", v)


def hooked(*a):
    return None


SET = {
    **{f"numpy error {k}": (*err(k), v) for k, v in dict(divide=("ignore", "warn"), over=("ignore",), under=("warn", "ignore"), invalid=("ignore", "warn")).items()},
    "numpy errcall": (np.geterrcall, np.seterrcall, (hooked,)),
    "numpy precision": (*popt("precision"), (3,)),
    "numpy suppress": (*popt("suppress"), (True,)),
    "numpy threshold": (*popt("threshold"), (2,)),
    "numpy buffer": (np.getbufsize, np.setbufsize, (1600,)),
    "numpy random": (np.random.get_state, lambda v: np.random.seed(v) if isinstance(v, int) else np.random.set_state(v), (0, 7)),
    "python random": (random.getstate, lambda v: random.seed(v) if isinstance(v, int) else random.setstate(v), (3,)),
    "torch random": (torch.get_rng_state, lambda v: torch.manual_seed(v) if isinstance(v, int) else torch.set_rng_state(v), (5,)),
    "torch precision": (torch.get_default_dtype, torch.set_default_dtype, (torch.float32,)),
    "torch grad": (torch.is_grad_enabled, torch.set_grad_enabled, (False,)),
    "torch threads": (torch.get_num_threads, torch.set_num_threads, (2,)),
    "torch deterministic": (torch.are_deterministic_algorithms_enabled, torch.use_deterministic_algorithms, (True,)),
    "torch anomaly": (torch.is_anomaly_enabled, torch.autograd.set_detect_anomaly, (True,)),
    "line width": (*rc("lines.linewidth"), (4.0,)),
    "grid": (*rc("axes.grid"), (True,)),
    "figure size": (*rc("figure.figsize"), ([3.0, 2.0],)),
    "font": (*rc("font.size"), (17.0,)),
    "legend": (*rc("legend.loc"), ("lower left",)),
    "layout": (*rc("figure.constrained_layout.use"), (True,)),
    "interactive": (matplotlib.is_interactive, matplotlib.interactive, (True,)),
    "warnings": (lambda: list(warnings.filters), filters, ([("ignore", None, Warning, None, 0)], [("always", None, Warning, None, 0)])),
    "recursion": (sys.getrecursionlimit, sys.setrecursionlimit, (3000,)),
    "gc": (gc.isenabled, lambda v: gc.enable() if v else gc.disable(), (False,)),
    "environment": (lambda: os.environ.get("VERIF_C29"), env, ("1",)),
    "hook": (lambda: sys.excepthook, lambda v: setattr(sys, "excepthook", v), (hooked,)),
}
VALUES = [(k, j) for k in SET for j in range(len(SET[k][2]))]


def plain(v):
    if isinstance(v, torch.Tensor):
        return v.numpy().tobytes()
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    if isinstance(v, np.ndarray):
        return v.tobytes()
    return v


def snapshot():
    s = {k: plain(v[0]()) for k, v in SET.items()}
    s["rcParams"] = {k: repr(matplotlib.rcParams._get(k)) for k in matplotlib.rcParams}
    s["backend"] = matplotlib.get_backend()
    s["numpy errors"] = np.geterr()
    s["print options"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s["inference"] = torch.is_inference_mode_enabled()
    s["device"] = str(torch.get_default_device())
    s["environ"] = dict(os.environ)
    s["directory"] = os.getcwd(), sorted(os.listdir())
    s["path"] = list(sys.path)
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["logging"] = logging.root.level, len(logging.root.handlers), logging.root.manager.disable
    s["trace"] = sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile()
    s["signals"] = [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]
    s["switch interval"] = sys.getswitchinterval()
    return s


def names():
    for mod in (np, np.linalg, np.random, builtins, warnings, scipy.optimize, plt, matplotlib):
        yield mod.__name__, {k: id(v) for k, v in vars(mod).items()}


# --- jobs: name -> function returning a function that returns a list of arrays --------------
def grad_hess(um, k):
    return lambda: [um.gradient([c20.F(k), None])[0], um.hessian([c20.F(k), None])[0]]


def material(kind, k):
    return lambda: grad_hess(c20.material(kind, k), k)


def tensors(kind):
    return lambda: lambda: c20.tensors(kind, 2)


def models():
    a = [np.array([3.2, 4.7]), np.array([3.1, 3.9]), np.array([1.1, 0.7])]
    t = hel.models.invariants.ThirdOrderDeformation(C10=0.5, C01=0.1, C11=0.03, C20=-0.1, C30=0.02)
    o = hel.models.stretches.Ogden([1.0, 0.3], [1.7, -2.0])
    f = [hel.models.generalized.strain, hel.models.generalized.deformation]

    def call():
        r = [*t.gradient(*a, None)[:3], *t.hessian(*a, None), *o.gradient(np.array(a), None)[0], *o.hessian(np.array(a), None)]
        for g in f:
            r.extend(g(a[2], exponent=1.4))
        return [np.asarray(x, dtype=float) for x in r if x is not None]

    return call


def measured():
    e = [c23.experiment(k) for k in ("uniaxial", "biaxial")]
    return lambda: [x for o in e for x in (o.stretch, o.stress(), o.force, o.displacement)]


def simulated(lc, name):
    def make():
        b = Builder(name)
        s = lab.Simulation(c23.LC[lc](), np.array([0.7, 1.0, 1.3, 2.1]), b.labels, b, list(b.values))
        return lambda: [s.stress(), s.stress_curve_fit(s.stretch * 1.1, *[v * 0.9 for v in b.values])]

    return make


def optimized(masked):
    def make():
        names_ = ("uniaxial", "biaxial", "planar")

        def call():
            b = Builder("tod3")
            E = [c23.experiment(k) for k in names_]
            S = [lab.Simulation(c23.LC[k](), e.stretch, list(c23.LABELS), b) for k, e in zip(names_, E)]
            o = lab.Optimize(E, S, [0.4, 0.1, 0.02], [c23.masks(k)["bool"] for k in names_] if masked else None)
            o.init_curve_fit()
            o.curve_fit()
            return [o.parameters, o.residuals, o.errors]

        return call

    return make


def few():
    "more parameters than points: no covariance"

    def call():
        b = Builder("tod5")
        e = lab.Experiment("few", np.array([0.0, 0.5]), np.array([0.0, 1.1]))
        o = lab.Optimize([e], [lab.Simulation(lab.Uniaxial(), e.stretch, b.labels, b)], [1.0] * 5)
        o.curve_fit(method="trf")
        return [np.isfinite(o.errors), [np.linalg.norm(o.residuals) < 1e-3]]

    return call


def special():
    "states without finite results"
    F = np.zeros((3, 3, 4)) + np.eye(3)[..., None]
    F[0, 0] = [np.nan, 0, np.inf, 1e-200]
    ums = [c20.material(k, 1) for k in ("inv-def", "inv-dis", "inv-dil", "poly-dis")]
    return lambda: [x for u in ums for x in ([np.isfinite(u.gradient([F.copy(), None])[0])], [np.isfinite(u.hessian([F.copy(), None])[0])])]


class Bad(Exception):
    pass


def failing():
    "evaluations and fits that end with an exception"

    class Fails:
        def gradient(self, a, b, c, statevars=None):
            return 1 + 0 * a, None, None, statevars

        def hessian(self, *a):
            raise Bad

    def attempt(f):
        try:
            f()
        except (Bad, ValueError, RuntimeError, TypeError):
            return 1.0
        return 0.0

    def never(**kw):
        raise Bad

    def call():
        um = hel.DistortionalSpace(hel.InvariantsFramework(Fails()))
        tm = hel.DeformationSpace(hel.InvariantsFramework(hel.models.invariants.TorchModel(never)))
        b = Builder("tod3")
        e = c23.experiment("uniaxial")
        s = lab.Simulation(lab.Uniaxial(), e.stretch, b.labels, b)
        t = lab.Simulation(lab.Uniaxial(), e.stretch, b.labels, never)
        F = c20.F(1)
        fits = [lambda: lab.Optimize([e], [s], [1.0] * 3).curve_fit(method="lm", bounds=(0, 1)), lambda: lab.Optimize([e], [s], [1.0] * 3).curve_fit(method="trf", max_nfev=1),
                lambda: lab.Optimize([e], [t], [1.0] * 3).curve_fit(), lambda: lab.Optimize([e], [s], [1.0] * 2).curve_fit()]
        return [np.array([attempt(f) for f in (lambda: um.hessian([F, None]), lambda: tm.gradient([F, None]), lambda: tm.hessian([F, None]), lambda: um.gradient([F[:2], None]), t.stress, *fits)])]

    return call


def artists(fig, ax):
    out = []
    for l in ax.lines:
        out += [np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)]
    return out


def plotted(what, own):
    def make():
        b = Builder("tod3")
        e = c23.experiment("uniaxial")
        s = lab.Simulation(lab.Uniaxial(), np.array([0.7, 1.0, 1.3, 2.1]), b.labels, b, list(b.values))
        o = lab.Optimize([e], [s], [0.4, 0.1, 0.02])
        o.init_curve_fit()

        def call():
            n = len(plt.get_fignums())
            kw = {}
            if own:
                f = matplotlib.figure.Figure()
                kw = dict(ax=f.add_subplot())
            if what == "optimize":
                fig, ax = o.plot()
            else:
                fig, ax = {"experiment": e.plot_stress_stretch, "force": e.plot_force_displacement, "simulation": s.plot_stress_stretch}[what](**kw)
            require(len(plt.get_fignums()) == n + (not own), f"{what}: figures {plt.get_fignums()}")
            r = artists(fig, ax)
            if not own:
                plt.close(fig)
            return r

        return call

    return make


JOBS = {
    **{k: material(k, 1) for k in c20.KINDS if not k.startswith("math") and k != "sim"},
    "str-dil": material("str-dil", 2), "gen-dis": material("gen-dis", 0),
    "torch-dis": lambda: grad_hess(m.umat(["torch", "full", str(torch.get_default_dtype())[6:]], "dis"), 1),
    **{k: tensors(k) for k in ("math1", "math2", "math3")},
    "models": models, "experiment": measured, "fit": optimized(False), "masked fit": optimized(True), "few points": few, "special": special, "failing": failing,
    **{f"simulation {lc} {n}": simulated(lc, n) for lc, n in (("uniaxial", "tod5"), ("planar", "ogden"), ("biaxial", "torch"))},
    **{f"plot {w}{' into axes' if own else ''}": plotted(w, own) for w in ("experiment", "force", "simulation", "optimize") for own in (False, True) if not (own and w == "optimize")},
}


def cases(ctx):
    out = [dict(kind="pairs", job=j, part=p) for p in range(4) for j in JOBS]
    out += [dict(kind="import", job=j) for j in JOBS]
    return out


class Output(io.StringIO):
    pass


def guarded(fun, what):
    "the operation changes no setting and prints nothing"
    before = snapshot()
    out, old = Output(), sys.stdout
    sys.stdout = out
    try:
        r = fun()
    finally:
        seen, sys.stdout = sys.stdout, old
    require(seen is out, f"{what} replaces the standard output")
    require(out.getvalue() == "", f"{what} prints {out.getvalue()[:100]!r}")
    after = snapshot()
    for k, v in before.items():
        require(after[k] == v, f"{what} changes the setting '{k}' from {str(v)[:200]} to {str(after[k])[:200]}")
    return r


def same(got, want, what, tol):
    require(len(got) == len(want), f"{what}: {len(got)} results instead of {len(want)}")
    for a, b in zip(got, want):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
        ok = (np.abs(a - b) <= tol * max(np.abs(b).max(initial=0), 1e-3)) | (np.isnan(a) & np.isnan(b))
        require(bool(np.all(ok)), f"{what}: results differ from those with the default settings")


def tolerance(job, active):
    if "torch" in job and "torch precision" in active:
        return 1e-4
    return 1e-10


def run(case, ctx):
    torch.set_default_dtype(torch.float64)
    matplotlib.use("Agg")
    cwd = os.getcwd()
    saved = {k: v[0]() for k, v in SET.items()}
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            (pairs if case["kind"] == "pairs" else imports)(case, ctx)
        finally:
            os.chdir(cwd)
            for k, v in saved.items():
                SET[k][1](v)
            plt.close("all")


def pairs(case, ctx):
    job = case["job"]
    make = JOBS[job]
    kept = make()
    kept()  # (imports of matplotlib, torch .. on demand)
    want = [np.array(x) for x in guarded(kept, f"{job} with default settings")]
    same(make()(), want, f"{job}, new objects", 0)
    vars0 = dict(names())

    def go(what, active, steps):
        for n, f in enumerate((kept, lambda: make()())):
            r = guarded(f, f"{job} {what}")
            same(r, want, f"{job} {what}, {'new' if n else 'kept'} objects", tolerance(job, active))
            ctx.step()
        ctx.state(job, what)
        ctx.trace()

    for n, (s, i) in enumerate(VALUES):
        if n % 4 != case["part"]:
            continue
        old = SET[s][0]()
        SET[s][1](SET[s][2][i])
        go(f"with {s} = {SET[s][2][i]}", {s}, 1)
        for t, j in VALUES:
            if t == s or ctx.quick and list(SET).index(t) < list(SET).index(s):
                continue
            other = SET[t][0]()
            SET[t][1](SET[t][2][j])
            go(f"with {s} = {SET[s][2][i]} and {t} = {SET[t][2][j]}", {s, t}, 2)
            SET[t][1](other)
        SET[s][1](old)
        go(f"after {s} = {SET[s][2][i]} is restored", (), 3)
    for k, v in names():
        for a, b in vars0[k].items():
            require(v.get(a) == b, f"{job} replaces {k}.{a}")
    ctx.outcome(np.ravel(want[0])[:4])
    ctx.sample(f"{job}: {len(VALUES)} values of {len(SET)} settings")


def imports(case, ctx):
    "a new import of the library with each setting, and the job afterwards"
    global hel, lab
    job = case["job"]
    JOBS[job]()()
    want = [np.array(x) for x in JOBS[job]()()]
    vars0 = dict(names())
    for s, i in VALUES:
        old = SET[s][0]()
        SET[s][1](SET[s][2][i])
        what = f"the import with {s} = {SET[s][2][i]}"
        guarded(c20.fresh, what)
        hel, lab = c20.hel, c20.lab
        for mod in (c22, c23):
            mod.hel, mod.lab = hel, lab
            mod.LC = {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}
        make = JOBS[job]
        kept = make()
        same(guarded(kept, f"{job} after {what}"), want, f"{job} after {what}", tolerance(job, {s}))
        SET[s][1](old)
        same(guarded(kept, f"{job} after {what} and restored"), want, f"{job} after {what} and restored", 1e-10)
        ctx.step(2)
        ctx.state("import", job, s, i)
        ctx.trace()
    for k, v in names():
        for a, b in vars0[k].items():
            require(v.get(a) == b, f"{job}: the import replaces {k}.{a}")
    ctx.outcome(np.ravel(want[0])[:4])
