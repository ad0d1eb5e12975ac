"""All histories of reconfigurations and evaluations on the real objects. (1) "material": 6
groups of two materials on one framework; all sequences of length 4 (thorough: 5) over
{stress, elasticity of either material at two deformations, assign another value to a model
parameter, exchange the model of the framework, exchange the framework of a material, assign
finalize, force, area}; after every evaluation the result is that of objects created anew
with the current settings. (2) "simulation": the same over {stress, trial evaluation, plot and
assign a label, assign load case, stretches, labels with parameters, parameters, material} against the derivative
of the energy. (3) "fit": sequences of length 3 (thorough: 4) over {fit, prepare, assign selection, measured
forces of an experiment, area, initial parameters, exchange an experiment and its simulation,
number of experiments} against the linear least-squares solution for the current data. (4)
"experiment": force, area, label, stretches, plots. A state is one (group, history)."""
import itertools

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import torch

import hyperelastic as hel
from hyperelastic import lab

from .. import materials as m
from ..core import require
from . import c23
from .c17 import Fset, same
from .c22 import LC, Builder
from .c24 import near, stress

ASSUMPTIONS = ["settings are changed by assignment to the public attributes (not by writing into lists the objects were given); the deformation measure of generalized invariants, the thread option and the numbers of state variables are fixed at creation"]

inv = hel.models.invariants


# groups: name -> (make model from a value 0/1, framework class, kwargs, assignable attributes (name, values))
class User:
    "a user model with one stiffness"

    def __init__(self, a):
        self.a = a

    def gradient(self, I1, I2, I3, statevars):
        return self.a + 0.2 * (I1 - 3), None, 0.3 * self.a * (I3 - 1), statevars

    def hessian(self, I1, I2, I3, statevars):
        return 0.2, None, 0.3 * self.a, None, None, None


GROUPS = {
    "tod": (lambda v: inv.ThirdOrderDeformation(C10=v[0], C01=0.1, C11=v[1]), hel.InvariantsFramework, {}, [("C10", (0.5, 0.9)), ("C11", (0, 0.05))]),
    "todnone": (lambda v: inv.ThirdOrderDeformation(C10=v[0], C20=v[1]), hel.InvariantsFramework, {}, [("C10", (0, 0.7)), ("C20", (0.03, 0))]),
    "ogden": (lambda v: hel.models.stretches.Ogden(v[0], v[1]), hel.StretchesFramework, {}, [("mu", ([1.0, 0.3], [0.6])), ("alpha", ([1.3, -2.0], [1.7, 4.0]))]),
    "torch": (lambda v: inv.TorchModel(lambda I1, I2, I3, a, b: a * (I1 - 3) + b * (I2 - 3) ** 2, **v[0]), hel.InvariantsFramework, {}, [("kwargs", (dict(a=0.5, b=0.1), dict(b=0.4, a=0.2)))]),
    "user": (lambda v: User(v[0]), hel.InvariantsFramework, {}, [("a", (0.5, 0.8))]),
    "gen": (lambda v: inv.ThirdOrderDeformation(C10=v[0], C01=v[1], strain=True), hel.GeneralizedInvariantsFramework, dict(fun=hel.models.generalized.strain, exponent=1.4), []),
}
GSPACES = [("def", "dis"), ("dis", "dil"), ("dil", "def")]


def mat_ops(group):
    n = len(GROUPS[group][3])
    ops = [("stress", 0, 0), ("stress", 1, 1), ("elasticity", 0, 1), ("elasticity", 1, 0)]
    ops += [("parameter", k) for k in range(n)] + [("model",), ("framework", 0), ("framework", 1), ("force", 0), ("area", 1), ("finalize", 1)]
    return ops


SIM_OPS = [("stress",), ("plot",), ("trial",), ("loadcase",), ("stretch", 0), ("stretch", 1), ("labels",), ("parameters",), ("material",)]
FIT_OPS = [("fit",), ("prepare",), ("mask",), ("force", 0), ("force", -1), ("area",), ("parameters",), ("exchange",), ("number",)]


def cases(ctx):
    out = []
    for g in GROUPS:
        for s in range(3):
            for k in range(len(mat_ops(g))):
                out.append(dict(kind="material", group=g, spaces=s, first=k))
    for n in ("tod3", "ogden", "gen", "torch"):
        for k in range(len(SIM_OPS)):
            out.append(dict(kind="simulation", name=n, first=k))
    for a, b in itertools.product(range(len(FIT_OPS)), repeat=2):
        for sp in ("def", "dis"):
            out.append(dict(kind="fit", space=sp, first=[a, b]))
    out.append(dict(kind="experiment"))
    return out


def run(case, ctx):
    torch.set_default_dtype(torch.float64)
    {"material": material, "simulation": simulation, "fit": fit, "experiment": experiment}[case["kind"]](case, ctx)


# --- materials -------------------------------------------------------------------------------
_fresh = {}
F = Fset()


def value(group, vals):
    "values of the attributes; the generalized model has none that can be assigned"
    attrs = GROUPS[group][3]
    return [v[k] for (_, v), k in zip(attrs, vals)] if attrs else ([0.5, 0.2], [0.8, 0.1])[vals[0]]


def build(group, vals):
    make, cls, kw, _ = GROUPS[group]
    mo = make(value(group, vals))
    return mo, _framework(cls, mo, kw)


def _framework(cls, mo, kw):
    return cls(mo, **kw)


def perform(um, what, k):
    return um.gradient([F[k].copy(), None])[0] if what == "stress" else um.hessian([F[k].copy(), None])[0]


def material(case, ctx):
    g, sp = case["group"], GSPACES[case["spaces"]]
    ops = mat_ops(g)
    attrs = GROUPS[g][3]
    n = max(len(attrs), 1)
    depth = 4 if ctx.quick else 5

    def fresh(fwvals, u, opts, what, k):
        key = (g, fwvals, sp[u], opts, what, k)
        if key not in _fresh:
            um = m.SPACES[sp[u]](build(g, fwvals)[1], finalize=opts[0], force=opts[1], area=opts[2])
            _fresh[key] = np.array(perform(um, what, k))
        return _fresh[key]

    for tail in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = [ops[k] for k in (case["first"], *tail)]
        if seq[-1][0] not in ("stress", "elasticity"):
            continue
        # two models with their values, two frameworks that hold a model, two materials that hold a framework
        vals = [[0] * n, [1] * n]
        pairs = [build(g, v) for v in vals]
        models, fws = [p[0] for p in pairs], [p[1] for p in pairs]
        holds = [0, 1]
        at = [0, 0]
        opts = [[True, None, 0], [True, None, 0]]
        ums = [m.SPACES[s](fws[0]) for s in sp]
        for j, op in enumerate(seq):
            w = op[0]
            if w in ("stress", "elasticity"):
                u, k = op[1], op[2]
                got = perform(ums[u], w, k)
                ctx.step()
                require(same(got, fresh(tuple(vals[holds[at[u]]]), u, tuple(opts[u]), w, k)), f"{g}, {sp}: {op} after {seq[:j]} is not that of the current settings")
            elif w == "parameter":
                mo, k = holds[at[0]], op[1]
                vals[mo][k] ^= 1
                setattr(models[mo], attrs[k][0], attrs[k][1][vals[mo][k]])
            elif w == "model":
                f = at[0]
                if g == "gen":
                    continue  # the measure's framework wraps its model
                holds[f] ^= 1
                fws[f].material = models[holds[f]]
            elif w == "framework":
                u = op[1]
                at[u] ^= 1
                ums[u].material = fws[at[u]]
            elif w == "force":
                u = op[1]
                opts[u][1] = 0 if opts[u][1] is None else None
                ums[u].force = opts[u][1]
            elif w == "area":
                u = op[1]
                opts[u][2] = None if opts[u][2] == 0 else 0
                ums[u].area = opts[u][2]
            else:
                u = op[1]
                opts[u][0] = not opts[u][0]
                ums[u].finalize = opts[u][0]
        ctx.state(g, sp, seq)
        ctx.trace()
    ctx.outcome(got)
    ctx.sample(f"{g} {sp}: {seq}")


class Other(Builder):
    "another material of the same parameters, their values in use are larger"

    def __call__(self, **kw):
        return super().__call__(**{k: 1.25 * v for k, v in kw.items()})

    def energy(self, **kw):
        return super().energy(**{k: 1.25 * v for k, v in kw.items()})


# --- simulations -----------------------------------------------------------------------------
def simulation(case, ctx):
    name = case["name"]
    depth = 5 if ctx.quick else 6
    X = [np.array([0.7, 1.0, 1.4]), np.array([1.2, 0.9, 2.0, 1.6]), np.array([1.5, 1.1, 0.8])]
    lcs = list(LC)
    fig, ax = plt.subplots()
    bs = [Builder(name), Other(name, "dis")]
    cache = {}

    def want(lc, x, labels, p, b):
        key = (lc, x, tuple(labels), tuple(p), b)
        if key not in cache:
            cache[key] = bs[b].force(lcs[lc], X[x], dict(zip(labels, p)))
        return cache[key]

    for tail in itertools.product(range(len(SIM_OPS)), repeat=depth - 1):
        seq = [SIM_OPS[k] for k in (case["first"], *tail)]
        if seq[-1][0] != "stress":
            continue
        lc, x, b, title = 0, 0, 0, None
        labels, p = list(bs[0].labels), list(bs[0].values)
        s = lab.Simulation(LC[lcs[lc]](), X[x].copy(), list(labels), bs[b], np.array(p))
        for j, op in enumerate(seq):
            w = op[0]
            if w == "stress":
                near(s.stress(), want(lc, x, labels, p, b), f"{name}: stress after {seq[:j]}", 1e-9)
                ctx.step()
            elif w == "trial":
                q = [1.1 * y for y in p]
                near(s.stress_curve_fit(X[2].copy(), *q), want(lc, 2, labels, q, b), f"{name}: trial evaluation after {seq[:j]}", 1e-9)
                ctx.step()
            elif w == "plot":
                # draw, and give it another name for the next time
                s.plot_stress_stretch(ax=ax)
                l = ax.lines[-1]
                near(l.get_xdata(), X[x], f"{name}: abscissa of the plot after {seq[:j]}", 1e-9)
                near(l.get_ydata(), want(lc, x, labels, p, b), f"{name}: ordinate of the plot after {seq[:j]}", 1e-9)
                require(l.get_label() == (title or LC[lcs[0]]().label), f"{name}: label {l.get_label()!r} of the plot after {seq[:j]}")
                l.remove()
                s.label = title = f"curve {j}"
            elif w == "loadcase":
                lc = (lc + 1) % 3
                s.loadcase = LC[lcs[lc]]()
            elif w == "stretch":
                x = (1, 2)[op[1]]
                s.stretch = X[x].copy()
            elif w == "labels":
                labels, p = labels[1:] + labels[:1], p[1:] + p[:1]
                s.labels, s.parameters = list(labels), np.array(p)
            elif w == "parameters":
                p = [y * (0.8 + 0.1 * k) for k, y in enumerate(p)]
                s.parameters = list(p)
            else:
                b ^= 1
                s.material = bs[b]
        require(np.array_equal(s.stretch, X[x]) and list(s.parameters) == p and list(s.labels) == labels, f"{name}: settings changed in {seq}")
        ctx.state(name, seq)
        ctx.trace()
    plt.close(fig)
    ctx.outcome(want(lc, x, labels, p, b))
    ctx.sample(f"{name}: {seq}")


# --- fits ------------------------------------------------------------------------------------
_sol = {}


def fit(case, ctx):
    depth = 3 if ctx.quick else 4
    for tail in itertools.product(range(len(FIT_OPS)), repeat=depth - 2):
        # histories start with or without a fit and end with one
        for pre in ((), (("fit",),)):
            seq = [*pre, *(FIT_OPS[k] for k in (*case["first"], *tail)), ("fit",)]
            sequence(case["space"], seq, ctx)
    ctx.sample(f"{case['space']}: {seq}")


def sequence(space, seq, ctx):
    b = Builder("tod3", space)
    names = ["uniaxial", "biaxial"]
    E = {e: c23.experiment(e) for e in c23.NAMES}
    S = {e: lab.Simulation(c23.loadcase(e)(), E[e].stretch, list(c23.LABELS), b) for e in E}
    scale = dict.fromkeys(E, 1.0)
    masked = False
    guess = np.array([1.0, 1.0, 1.0])
    o = lab.Optimize([E[e] for e in names], [S[e] for e in names], guess.copy())
    for j, op in enumerate(seq):
        what = f"{space}: {op} after {seq[:j]}"
        w = op[0]
        if w in ("fit", "prepare"):
            kinds = ["bool", "stride", "head"][: len(names)] if masked else ["all"] * len(names)
            sel = [np.arange(len(c23.data(e)[0]))[c23.masks(e)[k]] for e, k in zip(names, kinds)]
            key = (tuple(names), masked, tuple(scale[e] for e in names))
            if key not in _sol:
                X, _ = c23.stack(names, sel)
                y = np.concatenate([c23.reference_data(e)[1][k] * scale[e] for e, k in zip(names, sel)])
                _sol[key] = (X, y, *c23.solve(X, y))
            X, y, p, cov = _sol[key]
            if w == "fit":
                r, c = o.curve_fit()
                near(r, p, f"{what}: parameters")
                near(o.errors, np.sqrt(np.diag(cov)), f"{what}: errors", 2e-2)
                guess = np.array(r)
            else:
                r = o.init_curve_fit()
                near(r, guess, f"{what}: start values", 1e-9)
            near(o.residuals, X @ guess - y, f"{what}: residuals")
            near(o.norm_residuals(), np.linalg.norm(X @ guess - y), f"{what}: norm of the residuals")
            near(o.parameters, guess, f"{what}: parameters of the optimization", 1e-9)
            for e in names:
                near(S[e].parameters, guess, f"{what}: parameters of simulation {e}", 1e-9)
            ctx.step()
        elif w == "mask":
            masked = not masked
            o.mask = [c23.masks(e)[k] if masked else slice(None) for e, k in zip(names, ("bool", "stride", "head"))]
        elif w == "force":
            e = names[op[1]]
            scale[e] *= 1.25
            E[e].force = E[e].force * 1.25
        elif w == "area":
            e = names[0]
            scale[e] /= 0.8
            E[e].area = E[e].area * 0.8
        elif w == "parameters":
            guess = np.array([0.4, 0.1, 0.02])
            o.parameters = guess.copy()
        else:
            if w == "exchange":
                names = [*names[:-1], "uniaxial2" if names[-1] != "uniaxial2" else "biaxial"]
            else:
                names = ["planar", *names] if "planar" not in names else names[1:]
            o.experiments, o.simulations = [E[e] for e in names], [S[e] for e in names]
            o.mask = [c23.masks(e)[k] if masked else slice(None) for e, k in zip(names, ("bool", "stride", "head"))]
    ctx.state(space, seq)
    ctx.trace()
    ctx.outcome(p)


def experiment(case, ctx):
    d, f, A, L = c23.data("uniaxial")
    fig, ax = plt.subplots()
    for seq in itertools.product(("stress", "force", "area", "force list", "label", "plot", "stretch"), repeat=5 if ctx.quick else 6):
        if "force list" in seq and {"plot", "stretch"} & set(seq):
            continue  # other lengths of displacement and force
        e = lab.Experiment("a", d, f, area=A, length=L)
        force, area, label, stretch = f, A, "a", 1 + d / L
        for j, w in enumerate(seq):
            if w == "plot":
                for draw, x, y in ((e.plot_stress_stretch, stretch, force / area), (e.plot_force_displacement, d, force)):
                    draw(ax=ax)
                    l = ax.lines[-1]
                    near(l.get_xdata(), x, f"abscissa of the plot after {seq[: j + 1]}", 1e-12)
                    near(l.get_ydata(), y, f"ordinate of the plot after {seq[: j + 1]}", 1e-12)
                    require(l.get_label() == label, f"label {l.get_label()!r} of the plot after {seq[: j + 1]}")
                    l.remove()
            elif w == "stretch":
                stretch = 1 + 1.1 * (stretch - 1)
                e.stretch = stretch
            if w == "force":
                force = force[::-1] * 1.1
                e.force = force
            elif w == "force list":
                force = 2 * force[:5]
                e.force = np.array(force)
            elif w == "area":
                area = area * 1.5
                e.area = area
            elif w == "label":
                e.label = label = f"b{j}"
            near(e.stress(), force / area, f"stress after {seq[: j + 1]}", 1e-12)
            ctx.step()
        require(np.array_equal(e.stretch, stretch) and np.array_equal(e.displacement, d), f"data changed in {seq}")
        ctx.state(seq)
        ctx.trace()
    plt.close(fig)
    ctx.outcome(e.stress())
