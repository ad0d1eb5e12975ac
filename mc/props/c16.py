"""Built-in models called directly: all 2^5 coefficient patterns (values +-, tiny, huge) of
the third-order model and all 3^5 patterns of equal values of either sign x strain flag x all triples of a 7-value lattice of invariants;
Ogden with exponents -5 .. 5, 84 next to integers, large ones, and up to three terms (equal, opposite, nearly equal and small
exponents, vanishing moduli) x all stretch triples of a lattice; nine
automatic-differentiation energies (linear, independent of some invariants, coupled, with
keyword parameters) in double and single precision; strain and deformation measures x
exponents x stretches (arrays of several shapes and the scalar one). First and second
derivatives (also of up to twelve Ogden terms in all number formats, and after all histories of
configuring the precision, creating models and evaluating) are compared with automatic differentiation of the documented energy; an omitted
(None) derivative must vanish identically. A state is one (model, parameters, argument)."""
import itertools

import numpy as np
import torch

import hyperelastic as hel

from .. import materials as m
from .. import mech
from ..core import require

ASSUMPTIONS = ["energies are differentiable at the enumerated arguments"]
D = torch.float64
PAIRS = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
SHAPES = [(), (1,), (7,), (2, 3)]


PREC = ("single", "double", "create", "gradient", "hessian")


def precision(case, ctx):
    "all sequences of configuring the precision, creating a model and evaluating"
    f = m.TORCH["full"]
    args = [np.array([3.2, 4.7]), np.array([3.1, 3.9]), np.array([1.1, 0.7])]
    fresh = {}
    for dt in (torch.float32, torch.float64):
        torch.set_default_dtype(dt)
        mo = hel.models.invariants.TorchModel(f)
        fresh[dt] = [np.array(x) for x in mo.gradient(*args, None)[:3]], [np.array(x) for x in hel.models.invariants.TorchModel(f).hessian(*args, None)]
    try:
        for rest in itertools.product(PREC, repeat=3 if ctx.quick else 4):
            ops = (case["first"], case["second"], *rest)
            dt = torch.float64
            torch.set_default_dtype(dt)
            model = hel.models.invariants.TorchModel(f)
            for n, op in enumerate(ops):
                if op in ("single", "double"):
                    dt = torch.float32 if op == "single" else torch.float64
                    torch.set_default_dtype(dt)
                elif op == "create":
                    model = hel.models.invariants.TorchModel(f)
                else:
                    got = model.gradient(*args, None)[:3] if op == "gradient" else model.hessian(*args, None)
                    for a, b in zip(got, fresh[dt][op == "hessian"]):
                        require(np.asarray(a).dtype == b.dtype and np.array_equal(a, b), f"{ops[: n + 1]}: derivatives {a} in {np.asarray(a).dtype}, {b} in {b.dtype} by a new model")
                    ctx.step()
                require(torch.get_default_dtype() is dt and torch.is_grad_enabled(), f"{ops[: n + 1]}: the library changes settings of torch")
            ctx.state(ops)
            ctx.trace()
    finally:
        torch.set_default_dtype(torch.float64)
    ctx.outcome(fresh[torch.float64][0])


def terms(case, ctx):
    "Ogden energies of one to twelve terms, parameters in several number formats and containers"
    n = case["n"]
    for s in range(6):
        al = [(-3, 2, 1, -1, 4, 3, 5, -2, 2, -4, 1, 6)[(k + 5 * s) % 12] for k in range(n)]
        mu = [(3, -1, 2, 1, 4, -2)[(k + s) % 6] for k in range(n)]
        W = m.ogden_W([float(x) for x in mu], [float(x) for x in al])
        L = np.array(list(itertools.product((0.6, 1.0, 1.3), repeat=3))).T
        g, h = ad(W, list(L))
        for conv in (list, tuple, np.array, lambda x: np.array(x, dtype=float), lambda x: np.array(x, dtype=np.int32), lambda x: [float(y) for y in x], lambda x: [np.float64(y) for y in x],
                     lambda x: np.array([0, *x, 0], dtype=float)[1:-1], lambda x: np.repeat(np.array(x, dtype=float), 2)[::2]):
            a, b = conv(mu), conv(al)
            model = hel.models.stretches.Ogden(a, b)
            for _ in range(2):
                d, sv = model.gradient(L, None)
                e = model.hessian(L, None)
                ctx.step(2)
                for k in range(3):
                    match(d[k], g[k], 1e-12, f"Ogden {a} {b}: derivative {k}", 1.0)
                for k, ab in enumerate(PAIRS):
                    match(e[k], h[k], 1e-12, f"Ogden {a} {b}: second derivative {ab}", 1.0)
            require(np.array_equal(a, mu) and np.array_equal(b, al), f"Ogden {mu} {al}: parameters modified")
            ctx.state(case, s, type(a).__name__)
            ctx.trace()
    ctx.outcome(d)


def cases(ctx):
    out = []
    for n in range(32):
        for strain in (False, True):
            out.append(dict(kind="tod", n=n, strain=strain))
    for c in itertools.product((-0.25, 0.0, 0.25), repeat=2):
        out.append(dict(kind="todsum", head=c))
    for name in m.TORCH:
        for dt in ("float64", "float32"):
            out.append(dict(kind="torch", name=name, dtype=dt))
    out.append(dict(kind="torchkw"))
    out += [dict(kind="precision", first=a, second=b) for a in PREC for b in PREC]
    out += [dict(kind="terms", n=n) for n in range(1, 13)]
    for a in [k / 2 for k in range(-10, 11) if k]:
        out.append(dict(kind="ogden", alpha=[a]))
    out += [dict(kind="ogden", alpha=a) for a in ([2, 2], [2.0, 2.0], [2, -2], [1, 1, 3], [3, 1, 3], [-2.0, 2.0, -2.0], [1e-2], [-5e-3], [8], [2, 2 + 1e-9])]
    near = [c + t * e for c in (-2, -1, 1, 2, 3, 4) for e in (0.1, 0.03, 0.009, 5e-3, 1e-3, 1e-5, 1e-7) for t in (1, -1)] + [12.0, -11.5, 25.0]
    out += [dict(kind="ogden", alpha=[a]) for a in near]
    out += [dict(kind="ogden", alpha=[a, 1.3, near[-k - 1]]) for k, a in enumerate(near)]
    for a in (-2.0, 1.0, 1.3):
        for b in (-1.0, 2.0, 5.0):
            out.append(dict(kind="ogden", alpha=[a, b]))
            out.append(dict(kind="ogden", alpha=[a, b, 3.0]))
    for name in ("strain", "deformation"):
        for k in [k / 4 for k in range(-20, 21) if k] + [1, 2, 3, -1, -2, 8] + [s * k for k in (0.1, 0.02, 5e-3, 1e-3) for s in (1, -1)] + near:
            out.append(dict(kind="measure", name=name, k=k))
    return out


def ad(W, args):
    x = [torch.tensor(np.array(a, dtype=float), dtype=D).requires_grad_(True) for a in args]
    psi = W(*x) + sum(0 * a for a in x)
    g = torch.autograd.grad(psi.sum(), x, create_graph=True, allow_unused=True)
    h = []
    for a, b in PAIRS:
        t = torch.autograd.grad(g[a].sum(), x[b], retain_graph=True, allow_unused=True)[0] if g[a].requires_grad else None
        h.append(np.zeros(x[0].shape) if t is None else t.numpy())
    return [a.detach().numpy() for a in g], h


def match(got, want, tol, what, scale=None):
    if got is None:
        require(not np.any(want), f"{what}: omitted although it does not vanish")
        return
    got = np.asarray(got, dtype=float)
    try:
        got = np.broadcast_to(got, want.shape)
    except ValueError:
        require(False, f"{what}: shape {got.shape} for arguments {want.shape}")
    sc = np.abs(want).max() if want.size else 0
    sc = sc + (1e-12 if scale is None else scale)
    err = np.abs(got - want)
    require(bool(np.all(err <= tol * sc)), f"{what}: relative error {(err / sc).max() if err.size else 0:.2e}")


def invariants(shape=None, quick=True):
    v = (0.0, 1.0, 2.5, 3.0, 3.2, 4.0, 7.0) if not quick else (0.5, 1.0, 3.0, 3.2, 7.0)
    L = np.array(list(itertools.product(v, v, (0.3, 1.0, 2.0)))).T
    if shape is None:
        return [x.copy() for x in L]
    n = int(np.prod(shape))
    return [x[5 : 5 + 3 * n : 3].reshape(shape).copy() if shape else x[5] for x in L]


def verify(ctx, model, W, args, tol, what, sv, scale=None):
    g, h = ad(W, args)
    before = [np.array(a).tobytes() for a in args]
    got = model.gradient(*args, sv)
    require(len(got) == 4 and got[-1] is sv, f"{what}: gradient must return three derivatives and the state variables")
    for a in range(3):
        match(got[a], g[a], tol, f"{what}: derivative w.r.t. invariant {a + 1}", scale)
    got = model.hessian(*args, sv)
    require(len(got) == 6, f"{what}: hessian must return six derivatives")
    for k, ab in enumerate(PAIRS):
        match(got[k], h[k], tol, f"{what}: second derivative {ab}", scale)
    require(before == [np.array(a).tobytes() for a in args], f"{what}: arguments modified")
    ctx.step(2)
    ctx.trace(np.size(args[0]))


def m2num(seq):
    return [None if v is None else np.array(v) for v in seq]


def run(case, ctx):
    k = case["kind"]
    sv = np.array([1.0, 2.0])
    torch.set_default_dtype(torch.float64)
    if k == "precision":
        precision(case, ctx)
    elif k == "terms":
        terms(case, ctx)
    elif k == "tod":
        base = [p for p in mech.tod_subsets()][case["n"]]
        for f in (1.0, -1.0, 1e-9, 1e9):
            for mixed in (False, True):
                p = {a: b * f * (10.0 ** (3 * i) if mixed else 1) for i, (a, b) in enumerate(base.items())}
                off = (0, 0, 0) if case["strain"] else (3, 3, 1)
                W = m._poly(m.tod_terms(p), off)
                model = hel.models.invariants.ThirdOrderDeformation(**p, strain=case["strain"])
                sc = 1e-300 + max([abs(x) for x in p.values()] + [0])
                for s in (None, *SHAPES):
                    args = invariants(s, ctx.quick)
                    verify(ctx, model, W, args, 1e-12, f"third order deformation {p} strain={case['strain']} args {s}", sv, sc)
                    ctx.states(np.size(args[0]), case, f, mixed, s)
        ctx.sample(f"third order deformation {p} strain={case['strain']}")
        ctx.outcome([case["n"], case["strain"]])
    elif k == "todsum":
        # coefficients that cancel each other in sums
        for tail in itertools.product((-0.25, 0.0, 0.25), repeat=3):
            p = dict(zip(mech.KEYS, (*case["head"], *tail)))
            for strain in (False, True):
                W = m._poly(m.tod_terms(p), (0, 0, 0) if strain else (3, 3, 1))
                model = hel.models.invariants.ThirdOrderDeformation(**p, strain=strain)
                for s in (None, (), (2, 3)):
                    args = invariants(s, ctx.quick)
                    verify(ctx, model, W, args, 1e-12, f"third order deformation {p} strain={strain} args {s}", sv, 0.25)
                    ctx.states(np.size(args[0]), p, strain, s)
        ctx.sample(f"third order deformation, C10, C01 = {case['head']}, others -0.25, 0, 0.25")
        ctx.outcome(case["head"])
    elif k in ("torch", "torchkw"):
        if k == "torch":
            fs = [(m.TORCH[case["name"]], {})]
            dt = case["dtype"]
        else:
            dt = "float64"
            fs = [(lambda I1, I2, I3, C10, C01=0.0: C10 * (I1 - 3) ** 2 + C01 * I2 * I3, kw) for kw in (dict(C10=0.5), dict(C10=0.5, C01=-0.3), dict(C10=1e6, C01=1e-6))]
        torch.set_default_dtype(getattr(torch, dt))
        try:
            for f, kw in fs:
                model = hel.models.invariants.TorchModel(f, **kw)
                W = lambda a, b, c: f(a, b, c, **kw)
                for s in (None, *SHAPES):
                    args = [np.where(x == 0, 0.4, x) if np.ndim(x) else x for x in invariants(s, ctx.quick)]
                    if dt == "float32":
                        args = [np.float64(np.float32(x)) for x in args]
                    args = [np.asarray(x, dtype=float) for x in args]
                    verify(ctx, model, W, args, 1e-11 if dt == "float64" else 2e-5, f"torch {case} {kw} args {s}", sv, 1e-3)
                    # the grad-mode of the caller
                    for mode in (torch.no_grad, torch.inference_mode, torch.enable_grad):
                        want = m2num(model.gradient(*args, sv)[:3]), m2num(model.hessian(*args, sv))
                        with mode():
                            got = m2num(model.gradient(*args, sv)[:3]), m2num(model.hessian(*args, sv))
                        ctx.step(4)
                        for a, b in zip(want[0] + want[1], got[0] + got[1]):
                            require((a is None) == (b is None) and (a is None or np.array_equal(a, b)), f"torch {case} {kw} args {s}: derivatives depend on the grad-mode {mode.__name__}: {b} instead of {a}")
                        ctx.state(case, kw, s, mode.__name__)
                    ctx.states(np.size(args[0]), case, kw, s)
        finally:
            torch.set_default_dtype(torch.float64)
        ctx.sample(f"torch energy {case}")
        ctx.outcome(args[0])
    elif k == "ogden":
        al = case["alpha"]
        for mu in ([0.7, -0.2, 1.1], [1e-9, 1e-3, 1e6], [1.0, 2.0, 3.0], [1, -1, 0], [0.0, 0.5, 0.5], [0.5, -0.5, 0.5]):
            mu = mu[: len(al)]
            model = hel.models.stretches.Ogden(mu, al)
            W = m.ogden_W(mu, al)
            for s in (None, *SHAPES):
                L = np.array(list(itertools.product((0.3, 0.8, 1.0, 1.7, 3.0), repeat=3))).T
                if s is not None:
                    q = int(np.prod(s))
                    L = L[:, 7 : 7 + 3 * q : 3].reshape((3, *s)).copy()
                b = L.tobytes()
                got = model.gradient(L, sv)
                require(len(got) == 2 and got[-1] is sv, "Ogden: state variables")
                h = model.hessian(L, sv)
                require(b == L.tobytes(), "Ogden: stretches modified")
                g, hh = ad(W, list(L))
                require(len(got[0]) == 3 and len(h) == 6, "Ogden: number of derivatives")
                for a in range(3):
                    match(got[0][a], g[a], 1e-12, f"Ogden {mu} {al}: derivative {a}")
                for n, ab in enumerate(PAIRS):
                    match(h[n], hh[n], 1e-12, f"Ogden {mu} {al}: second derivative {ab}", 1e-9)
                ctx.step(2)
                ctx.states(L[0].size, case, mu, s)
                ctx.trace(L[0].size)
        ctx.outcome(g[0])
    else:
        name, e = case["name"], case["k"]
        fun = getattr(hel.models.generalized, name)
        W, init, R = m.MEASURES[name]
        for l in [np.array([0.2, 0.7, 1.0, 1.0 + 1e-9, 1.6, 4.0]), np.linspace(0.5, 2, 6).reshape(3, 2), np.linspace(0.5, 2, 12).reshape(3, 2, 2), np.array(1.3)]:
            x = torch.tensor(l, dtype=D).requires_grad_(True)
            y = W(x, float(e))
            d1 = torch.autograd.grad(y.sum(), x, create_graph=True)[0]
            d2 = torch.autograd.grad(d1.sum(), x)[0] if d1.requires_grad else torch.zeros_like(x)
            b = l.tobytes()
            got = fun(l, exponent=e)
            require(len(got) == 6, "measure: six values")
            require(l.tobytes() == b, "measure: stretches modified")
            for v, w, what in zip(got[:3], (y, d1, d2), ("value", "first", "second derivative")):
                match(v, w.detach().numpy(), 1e-12, f"{name} exponent {e}: {what}", 1e-3)
            require(np.allclose([float(v) for v in got[3:]], R, rtol=1e-14, atol=1e-14), f"{name}: reference values {got[3:]} instead of {R}")
            ctx.step()
            ctx.states(l.size, case, l.shape)
            ctx.trace(l.size)
        got = fun(1, exponent=e)
        require(np.allclose([float(v) for v in got], [*init(float(e)), *R], rtol=1e-13, atol=1e-14), f"{name} exponent {e}: values at the undeformed state {got}")
        ctx.outcome([e])
