"""Exhaustive enumeration: displacement and force given as 11 kinds of array-like data (lists,
tuples, ranges, integer / single / double precision arrays, strided views, masked arrays, matrix
rows, one point) x
areas x lengths (integers, floats, numpy scalars) for the conversion; all combinations of
{label given or not} x {new, given, occupied axes} x {axis labels given or not} x {line
format, line width given or not} for stress-stretch plots of experiments and simulations and
force-displacement plots (data sets incl. decreasing, cyclic, repeated, missing, empty
ones and 20011 points); all histories of length 3 of plots on two shared axes with parameter
changes in between; optimization plots for 1..3 experiment/simulation pairs x masks x titles,
before and after plots of other optimizations. Lines, their data, labels, axis labels, legends
and the reported numbers are compared with the data. A state is one combination or history."""
import itertools
import re

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import torch

from hyperelastic import lab

from ..core import require
from . import c23
from .c22 import LC, Builder
from .c23 import LABELS, experiment, loadcase, masks

ASSUMPTIONS = ["matplotlib's Agg backend"]
XL, YL = r"Stretch $l/L$", r"Force per undeformed area $F/A$"
XD, YD = r"Displacement $d$", r"Force $F$"


def kinds(v):
    return {"list": list(v), "tuple": tuple(v), "array": np.array(v, dtype=float), "float32": np.array(v, dtype=np.float32), "ints": [int(x) for x in v],
            "int array": np.array(v).astype(int), "strided": np.repeat(np.array(v, dtype=float), 2)[::2], "masked": np.ma.masked_equal(np.array(v, dtype=float), 2.0), "matrix rows": np.array(v, dtype=float).reshape(-1, 1), "one": [v[-1]], "range": range(len(v)), "empty": []}


def cases(ctx):
    out = []
    for k in kinds([1.0]):
        for j in kinds([1.0]):
            if (k in ("one", "empty", "matrix rows") or j in ("one", "empty", "matrix rows")) and k != j:
                continue
            out.append(dict(kind="convert", d=k, f=j))
    for what in ("experiment", "simulation", "force"):
        out.append(dict(kind="plot", what=what))
    for k in range(8):
        out.append(dict(kind="history", first=k))
    for n in (1, 2, 3):
        for p in itertools.permutations(c23.NAMES[:3], n):
            out.append(dict(kind="optimize", exps=list(p)))
    return out


def run(case, ctx):
    torch.set_default_dtype(torch.float64)
    plt.close("all")
    {"convert": convert, "plot": plot, "history": history, "optimize": optimize}[case["kind"]](case, ctx)
    plt.close("all")


def full(a):
    "numbers, masked points as nan"
    return np.ma.filled(np.ma.asarray(a).astype(float), np.nan)


def exact(a, b, what, tol=1e-14):
    a, b = full(a), full(b)
    require(a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)))), f"{what}: {a} instead of {b}")


def snap(x):
    return (type(x), np.array(x).dtype.str, np.array(x).tobytes())


def convert(case, ctx):
    D = [-3.0, 0.0, 1.0, 2.0, 7.0, 30.0]
    Fo = [-20.0, 0.0, 11.0, 17.0, 40.0, 41.0]
    # precision of the data
    tol = 1e-6 if "float32" in (case["d"], case["f"]) else 1e-14
    for area, length in itertools.product((1, 1.0, 25, 0.4, np.float64(12.5), 1e-6, np.int64(4)), (1, 1.0, 100, 0.3, np.float64(2.5), 1e3, np.int64(7))):
        d, f = kinds(D)[case["d"]], kinds(Fo)[case["f"]]
        s = snap(d), snap(f)
        what = f"{case} area {area} length {length}"
        es = [lab.Experiment("name", d, f, area=area, length=length), lab.Experiment("name", d, f, area, length),
              lab.Experiment(label="name", displacement=d, force=f, area=area, length=length, time=np.arange(3), temperature=[20.0])]
        if area == 1 and length == 1:
            es.append(lab.Experiment("name", d, f))
        if length == 1:
            es.append(lab.Experiment("name", d, f, area))
        for e in es:
            exact(e.stretch, 1 + full(d) / length, f"{what}: stretch", tol)
            for _ in range(2):
                exact(e.stress(), full(f) / area, f"{what}: stress", tol)
            exact(e.displacement, full(d), f"{what}: displacement")
            exact(e.force, full(f), f"{what}: force")
            require(e.label == "name" and e.area == area and e.length == length, f"{what}: attributes")
            r = e.stress()
            if r.size and r.flags.writeable:
                r[...] = np.full(r.shape, 3.0)
                exact(e.stress(), full(f) / area, f"{what}: stress after a result was overwritten", tol)
            require(s == (snap(d), snap(f)), f"{what}: data modified")
            ctx.step()
            ctx.trace()
        if area in (1, 25) and length in (1, 100) and "matrix rows" not in (case["d"], case["f"]):
            for y, x, a in ((e.plot_stress_stretch, 1 + full(d) / length, full(f) / area), (e.plot_force_displacement, full(d), full(f))):
                fig, ax = y()
                v = np.array([x, a]).T
                v[np.isnan(v).any(axis=1)] = np.nan
                w = np.array(ax.lines[0].get_xydata(), dtype=float)
                w[np.isnan(w).any(axis=1)] = np.nan
                exact(w, v, f"{what}: points shown in a plot", tol)
                plt.close("all")
        ctx.state(case, area, length, type(area).__name__, type(length).__name__)
    ctx.outcome([length])


HISTORIES = [[6.0, 2.0, 0.0], [0.0, 3.0, 1.0, -2.0, 4.0, 0.0], [1.0, 3.0, 2.0, 0.0], [0.0, 2.0, 2.0, 2.0, 5.0, 5.0], [4.0], [0.0, np.nan, 2.0, 1.0],
             [1e-9, 3e-9, 2e-9], list(np.linspace(0, 5, 2001) % 1.7), [], list(np.linspace(0, 5, 20011) % 1.7)]


class Curve:
    "an object with a curve, and what has to be shown"

    def __init__(self, what, n=0):
        self.what = what
        if what == "simulation":
            b = Builder("tod3")
            lc = [lab.Uniaxial(), lab.Biaxial("My Test"), lab.Planar()][n % 3]
            x = np.array([[0.8, 1.0, 1.7], [0.7, 1.2, 1.3], [1.1, 0.9, 1.4], *HISTORIES][n])
            x = x if n < 3 else 1 + np.abs(x) / 10
            self.p = [0.5, 0.2, 0.1 * n]
            self.b, self.lc = b, ["uniaxial", "biaxial", "planar"][n % 3]
            self.o = lab.Simulation(lc, x.copy(), b.labels, b, list(self.p))
            self.label = ["Uniaxial Tension", "My Test", "Planar Tension"][n % 3]
            self.x = x
        else:
            if n < 3:
                d, f = np.array([0.0, 2.0, 5.0]) * (n + 1), np.array([0.0, 3.0, 4.0 + n])
            else:  # decreasing, cyclic, with holds, single points, ...
                d = np.array(HISTORIES[n - 3])
                f = np.sin(1 + 3 * np.arange(len(d))) * 10.0 ** (n - 5)
            self.o = lab.Experiment(f"test {n}", d.copy(), f.copy(), area=2.0 + n, length=10.0)
            self.label = f"test {n}"
            self.d, self.f = d, f
            self.x = 1 + d / 10.0 if what == "experiment" else d

    @property
    def y(self):
        if self.what == "simulation":
            return self.b.force(self.lc, self.x, dict(zip(self.b.labels, self.p)))
        return self.f / self.o.area if self.what == "experiment" else self.f

    def draw(self, *a, **k):
        return (self.o.plot_force_displacement if self.what == "force" else self.o.plot_stress_stretch)(*a, **k)

    def unchanged(self, what):
        if self.what == "simulation":
            require(np.array_equal(self.o.stretch, self.x) and list(self.o.parameters) == list(self.p) and self.o.label == self.label, f"{what}: simulation changed")
        else:
            require(np.array_equal(self.o.displacement, self.d, equal_nan=True) and np.array_equal(self.o.force, self.f) and self.o.label == self.label, f"{what}: experiment changed")
            exact(self.o.stretch, 1 + self.d / 10.0, f"{what}: stretch")
            exact(self.o.stress(), self.f / self.o.area, f"{what}: stress")


def line(l, c, label, what):
    exact(l.get_xdata(), c.x, f"{what}: abscissa", 1e-9)
    exact(l.get_ydata(), c.y, f"{what}: ordinate", 1e-9)
    got = l.get_label()  # matplotlib names a line without label "_child<n>"
    require(got == label or (label == "" and got.startswith("_child")), f"{what}: label {got!r} instead of {label!r}")


def plot(case, ctx):
    for n in range(3 + len(HISTORIES)):
        for label, where, axl, fmt, style in itertools.product((None, "given", "$x$ 2", ""), ("new", "given", "occupied"), ((), ("xlabel",), ("ylabel",), ("xlabel", "ylabel")), ((), ("C3",), ("ro--",)), ({}, dict(lw=3.5), dict(alpha=0.5, zorder=7))):
            if ctx.quick and fmt and style and n or n > 2 and (axl or fmt or style):
                continue
            if n > 2 and case["what"] == "simulation" and not (len(HISTORIES[n - 3]) and np.isfinite(HISTORIES[n - 3]).all()):
                continue  # stretches of simulations are numbers
            c = Curve(case["what"], n)
            what = f"{case} {n} label {label} axes {where} axis labels {axl} format {fmt} {style}"
            kw = dict(style)
            if label is not None:
                kw["label"] = label
            for a in axl:
                kw[a] = a + " text"
            old = None
            nfig = len(plt.get_fignums())
            if where != "new":
                fig0, kw["ax"] = plt.subplots()
                if where == "occupied":
                    (old,) = kw["ax"].plot([1, 2], [3, 4], label="old")
                # another figure is the current one
                plt.figure()
                nfig = len(plt.get_fignums())
            fig, ax = c.draw(*fmt, **kw)
            if where != "new":
                require(ax is kw["ax"] and fig is fig0, f"{what}: drawn elsewhere")
                require(len(plt.get_fignums()) == nfig, f"{what}: another figure is opened")
                require(not plt.gcf().axes or plt.gcf() is fig0, f"{what}: drawn on the current figure")
            else:
                require(len(plt.get_fignums()) == nfig + 1 and ax.figure is fig, f"{what}: no new figure")
            lines = [l for l in ax.lines if l is not old]
            require(len(lines) == 1 and len(ax.lines) == (2 if old is not None else 1), f"{what}: {len(ax.lines)} lines")
            line(lines[0], c, c.label if label is None else label, what)
            if old is not None:
                require(old.get_label() == "old" and list(old.get_ydata()) == [3, 4], f"{what}: other line changed")
            d = (XD, YD) if case["what"] == "force" else (XL, YL)
            require(ax.get_xlabel() == ("xlabel text" if "xlabel" in axl else d[0]), f"{what}: label of the abscissa {ax.get_xlabel()!r}")
            require(ax.get_ylabel() == ("ylabel text" if "ylabel" in axl else d[1]), f"{what}: label of the ordinate {ax.get_ylabel()!r}")
            if "lw" in style:
                require(lines[0].get_linewidth() == 3.5, f"{what}: options of the line")
            if fmt == ("C3",):
                require(matplotlib.colors.same_color(lines[0].get_color(), "C3"), f"{what}: format of the line")
            if fmt == ("ro--",):
                require(lines[0].get_marker() == "o" and lines[0].get_linestyle() == "--", f"{what}: format of the line")
            c.unchanged(what)
            # the axes can be changed without changing the data
            lines[0].get_xdata(orig=True)
            ctx.step()
            ctx.state(case, n, label, where, axl, fmt, tuple(style))
            ctx.trace()
            plt.close("all")
    ctx.outcome([n])
    ctx.sample(what)


def history(case, ctx):
    ops = [(k, a) for k in range(3) for a in range(2)] + [("change", None), ("new", None)]
    depth = 3 if ctx.quick else 4
    figs = [plt.subplots(), plt.subplots()]
    for tail in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = [ops[k] for k in (case["first"], *tail)]
        for f, a in figs:
            a.clear()
        cs = [Curve("experiment", 0), Curve("simulation", 1), Curve("simulation", 2)]
        shown = [[], []]
        for k, a in seq:
            what = f"{(k, a)} in {seq}"
            if k == "change":
                cs[1].p = [0.3, 0.1, 0.4]
                cs[1].o.parameters = np.array(cs[1].p)
                cs[1].x = np.array([0.9, 1.5])
                cs[1].o.stretch = cs[1].x.copy()
                cs[1].label = cs[1].o.label = "changed"
                continue
            if k == "new":
                fig, ax = cs[0].draw()
                require(all(ax is not b for _, b in figs) and len(ax.lines) == 1, f"{what}: not drawn on new axes")
                line(ax.lines[0], cs[0], "test 0", what)
                plt.close(fig)
                continue
            fig, ax = cs[k].draw(ax=figs[a][1])
            shown[a].append((cs[k].x.copy(), cs[k].y, cs[k].label))
            for b in range(2):
                ls = figs[b][1].lines
                require(len(ls) == len(shown[b]), f"{what}: {len(ls)} lines instead of {len(shown[b])}")
                for l, (x, y, lb) in zip(ls, shown[b]):
                    exact(l.get_xdata(), x, f"{what}: abscissa", 1e-9)
                    exact(l.get_ydata(), y, f"{what}: ordinate", 1e-9)
                    require(l.get_label() == lb, f"{what}: label")
            for c in cs:
                c.unchanged(what)
            ctx.step()
        ctx.state(seq)
        ctx.trace()
    ctx.outcome([case["first"]])


def optimize(case, ctx):
    exps = case["exps"]
    b = Builder("tod3")
    for mask, title, fit, before in itertools.product((False, True), (None, "A Title"), ("fit", "prepare"), (False, True)):
        if set(exps) == {"planar"} and fit == "fit":
            continue  # parameters cannot be separated
        what = f"{case} masks {mask} title {title} {fit}"
        plt.close("all")
        E = [experiment(e) for e in exps]
        for k, e in enumerate(E):
            e.label = f"Test {k}"
        S = [lab.Simulation(loadcase(e)(), np.linspace(0.9, 1.4, 5 + k), LABELS, b) for k, e in enumerate(exps)]
        m = [masks(e)["bool"] for e in exps] if mask else None
        o = lab.Optimize(E, S, [0.5, 0.2, 0.1], m)
        if before:
            other = lab.Optimize([experiment("biaxial")], [lab.Simulation(lab.Biaxial(), np.array([1.0, 1.5]), LABELS, b)], [1, 1, 1])
            other.init_curve_fit()
            other.plot()
        o.curve_fit() if fit == "fit" else o.init_curve_fit()
        p, er, rs = np.array(o.parameters), np.array(o.errors), np.array(o.residuals)
        snaps = [(np.array(e.displacement), np.array(e.force), np.array(e.stretch)) for e in E], [np.array(s.stretch) for s in S]
        n = len(plt.get_fignums())
        fig, ax = o.plot() if title is None else o.plot(title=title)
        require(len(plt.get_fignums()) == n + 1, f"{what}: no new figure")
        require(len(fig.axes) == 1 and fig.axes[0] is ax, f"{what}: axes")
        require(len(ax.lines) == 2 * len(exps), f"{what}: {len(ax.lines)} lines for {len(exps)} experiments")
        for k, e in enumerate(exps):
            byl = {l.get_label(): l for l in ax.lines}
            ls, le = byl.get(f"Test {k}"), byl.get(f"Test {k} (Experiment)")
            require(ls is not None and le is not None, f"{what}: labels {list(byl)}")
            exact(le.get_xdata(), c23.reference_data(e)[0], f"{what}: abscissa of experiment {k}", 1e-12)
            exact(le.get_ydata(), c23.reference_data(e)[1], f"{what}: ordinate of experiment {k}", 1e-12)
            exact(ls.get_xdata(), S[k].stretch, f"{what}: abscissa of simulation {k}", 1e-12)
            f = b.force(e, S[k].stretch, dict(zip(LABELS, p)))
            exact(ls.get_ydata(), f, f"{what}: ordinate of simulation {k}", 1e-8)
        require(ax.get_xlabel() == XL and ax.get_ylabel() == YL, f"{what}: axis labels")
        require(ax.get_title() == (title or ""), f"{what}: title {ax.get_title()!r}")
        leg = ax.get_legend()
        require(leg is not None and sorted(t.get_text() for t in leg.get_texts()) == sorted([x for k in range(len(exps)) for x in (f"Test {k}", f"Test {k} (Experiment)")]), f"{what}: legend")
        text = "\n".join(t.get_text() for t in ax.texts)
        # the reported parameters, up to the digits shown
        for k, name in enumerate(LABELS):
            hit = re.search(re.escape(name) + r"\s*=\s*(\S+)\s*\$\\pm\$\s*(\S+)", text)
            if hit:
                require(abs(float(hit.group(1)) - p[k]) <= 0.06 * abs(p[k]) + 1e-12, f"{what}: reported {name} {hit.group(1)} instead of {p[k]}")
                v = float(hit.group(2))
                require((np.isnan(v) and np.isnan(er[k])) or abs(v - 2 * er[k]) <= 0.06 * abs(2 * er[k]) + 1e-12, f"{what}: reported error of {name} {v} instead of {2 * er[k]}")
        hit = re.search(r"Norm of Residuals\s*=\s*(\S+)", text)
        if hit:
            require(abs(float(hit.group(1)) - np.linalg.norm(rs)) <= 1e-3 * np.linalg.norm(rs), f"{what}: reported norm of residuals {hit.group(1)}")
        require(np.array_equal(o.parameters, p) and np.array_equal(o.errors, er, equal_nan=True) and np.array_equal(o.residuals, rs), f"{what}: results changed")
        for e, s in zip(E, snaps[0]):
            require(all(np.array_equal(x, y) for x, y in zip((e.displacement, e.force, e.stretch), s)), f"{what}: experiment changed")
        require(all(np.array_equal(s.stretch, x) for s, x in zip(S, snaps[1])) and [e.label for e in E] == [f"Test {k}" for k in range(len(E))], f"{what}: data changed")
        require([s.label for s in S] == [loadcase(e)().label for e in exps], f"{what}: labels of the simulations changed")
        ctx.step()
        ctx.state(case, mask, title, fit, before)
        ctx.trace()
    ctx.outcome(p)
