"""Exhaustive evaluation of the three load cases on a lattice of stretches (1e-12 .. 1e12,
many in 0.05 .. 20 and close to one) x 8 array shapes (scalar included) x number types; for 34 materials x 3 spaces: all
triples of principal stretches of unit volume from a lattice x all 6 ordered pairs of loaded
and traction-free axes (as positive and as negative index) x superposed pressures. The
reported force is compared with the automatic derivative of the energy along the load path
(stretch of the loaded axis varies, the traction-free one follows from constant volume). A
state is one (load case or deformation, material, axes, pressure)."""
import itertools

import numpy as np
import torch

from hyperelastic import lab

from .. import materials as m
from .. import mech
from ..core import require

ASSUMPTIONS = ["stretches are positive"]
LC = {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}
D = torch.float64
PATH = {"uniaxial": lambda x: (x, x**-0.5, x**-0.5), "planar": lambda x: (x, x**0, x**-1.0), "biaxial": lambda x: (x, x, x**-2.0)}
STRETCH = np.array([0.05, 0.2, 0.5, 0.8, 0.95, 1 - 1e-6, 1.0, 1 + 1e-9, 1.001, 1.1, 1.37, 2.0, 3.3, 6.0, 20.0])
SPECS = [["tod", p, s] for p in mech.tod_subsets() if len(p) in (1, 5) for s in (False, True)] + [["poly", mech.MIXED, "none"]] + [
    ["torch", n, "float64"] for n in m.TORCH] + [["ogden", [0.7], [a]] for a in (-2.0, 1.0, 1.3, 5.0)] + [["coup", n, "list"] for n in m.COUPLED] + [
    ["gen", mech.TOD, True, "strain", 1.4], ["gen", mech.TOD, False, "deformation", -1.0]]


def cases(ctx):
    out = [dict(kind="defgrad", lc=lc) for lc in LC]
    for lc in LC:
        for s in SPECS:
            for sp in ("def", "dis", "dil"):
                out.append(dict(kind="path", lc=lc, spec=s, space=sp))
    for s in SPECS:
        for sp in ("def", "dis"):
            out.append(dict(kind="axes", spec=s, space=sp))
    for lc in LC:
        for i, j in itertools.permutations(range(3), 2):
            out.append(dict(kind="normal", lc=lc, axes=[i, j]))
    return out


def run(case, ctx):
    torch.set_default_dtype(D)
    {"defgrad": defgrad, "path": path, "axes": axes, "normal": normal}[case["kind"]](case, ctx)


def defgrad(case, ctx):
    lc = LC[case["lc"]]()
    fine = np.concatenate([STRETCH, np.linspace(0.05, 5, 400 if ctx.quick else 20000), 10.0 ** np.linspace(-2, 2, 81), 10.0 ** np.linspace(-12, 12, 73)])
    args = [fine, fine.reshape(8, -1) if fine.size % 8 == 0 else fine[: fine.size // 8 * 8].reshape(8, -1), fine[:6].reshape(1, 2, 3), fine[:1], fine[:0],
            np.float64(1.3), 0.7, 2, np.array([1, 2, 3]), np.array(1.7), fine[::-1], fine[::3], fine[:18].reshape(3, 6), fine[:9].reshape(3, 3)]
    for x in args:
        before = np.array(x)
        F = lc.defgrad(x)
        shape = np.shape(x)
        require(isinstance(F, np.ndarray) and F.shape == (3, 3, *shape), f"shape {np.shape(F)} for stretches of shape {shape}")
        require(np.array_equal(before, x), "stretches modified")
        want = PATH[case["lc"]](np.asarray(x, dtype=float))
        for i in range(3):
            for j in range(3):
                w = want[i] if i == j else np.zeros(shape)
                require(np.allclose(F[i, j], w, rtol=1e-13, atol=0), f"{case['lc']}: component {i}{j} of {x!r}")
        det = np.linalg.det(np.moveaxis(F, (0, 1), (-2, -1)))
        require(np.allclose(det, 1, rtol=1e-11, atol=0), f"{case['lc']}: volume ratio {det}")
        if isinstance(x, np.ndarray) and x.size:
            require(not np.shares_memory(F, x), "the deformation gradient shares storage with the stretches")
        G = lc.defgrad(x)
        require(G is not F and not np.shares_memory(F, G), "two deformation gradients share storage")
        ctx.step()
        ctx.states(max(1, np.size(x)), case, shape, str(np.asarray(x).dtype), repr(np.ravel(x)[:2]))
        ctx.trace(max(1, np.size(x)))
    for one in (1.0, np.ones(3), np.ones((2, 2)), 1):
        F = lc.defgrad(one)
        require(np.array_equal(F, np.eye(3).reshape(3, 3, *([1] * np.ndim(one))) * np.ones(np.shape(one))), f"{case['lc']}: not the identity at stretch one")
    ctx.outcome(F.ravel())
    ctx.sample(f"{case['lc']}: {fine.size} stretches, {len(args)} array shapes/types")


def derivative(W, l):
    "dW along the path given by l(x) at all x"
    x, lam = l
    g = torch.autograd.grad(W(*lam).sum(), x)[0]
    return g.numpy()


def scale(r, lam):
    return mech.scales(r)[0] * np.maximum(1, 1 / lam.min(axis=0))


def path(case, ctx):
    spec, sp = case["spec"], case["space"]
    lc = LC[case["lc"]]()
    x = torch.tensor(STRETCH[1:-2], dtype=D, requires_grad=True)
    if spec[0] == "torch" and spec[1] == "gent":
        x = torch.tensor(STRETCH[2:12], dtype=D, requires_grad=True)
    s = x.detach().numpy().copy()
    W = m.energy(spec)[0]
    lam = PATH[case["lc"]](x)
    want = derivative(W, (x, lam)) if sp != "dil" else np.zeros(s.shape)
    if case["lc"] == "biaxial":
        want = want / 2
    F = lc.defgrad(s)
    um = m.umat(spec, sp)
    P = um.gradient([F, None])[0]
    r = mech.reference(spec, sp, F, False)
    sc = scale(r, np.array([t.detach().numpy() for t in lam])) * np.maximum(1, s)
    one = np.argmin(abs(s - 1))
    for kw in [dict()] + ([dict(traction_free=k) for k in (1, 2, -1, -2)] if case["lc"] == "uniaxial" else [dict(traction_free=k) for k in (2, -1)]):
        for p in (0.0, 1.0, -3.7, 1e3):
            Q = P + p * np.linalg.inv(F.transpose(2, 1, 0)).transpose(1, 2, 0) if p else P
            b = Q.tobytes(), F.tobytes()
            N = lc.stress(F, Q, **kw)
            require(np.shape(N) == s.shape, f"shape of the force {np.shape(N)}")
            require(b == (Q.tobytes(), F.tobytes()), "arguments of stress() modified")
            tol = 1e-10 * sc + 1e-13 * abs(p) * np.maximum(1, 1 / s)
            bad = ~(np.abs(N - want) <= tol)
            require(not bad.any(), f"{case} {kw} pressure {p}: force {N[bad][:3]} instead of {want[bad][:3]} at stretch {s[bad][:3]}")
            require(abs(N[one]) <= 1e-10 * sc[one] + 1e-12 * abs(p), f"{case}: force {N[one]} at stretch one")
            ctx.step()
            ctx.states(s.size, case, kw, p)
            ctx.trace(s.size)
    # other axes: the same load case along axis 1
    ctx.outcome(want)


def axes(case, ctx):
    spec, sp = case["spec"], case["space"]
    W = m.energy(spec)[0]
    v = (0.6, 0.9, 1.0, 1.3, 1.8)
    pairs = [(a, b) for a in v for b in v]
    for i, j in itertools.permutations(range(3), 2):
        k = 3 - i - j
        x = torch.tensor([a for a, b in pairs], dtype=D, requires_grad=True)
        y = torch.tensor([b for a, b in pairs], dtype=D)
        lam = [None] * 3
        lam[i], lam[k], lam[j] = x, y, 1 / (x * y)
        want = derivative(W, (x, lam))
        L = np.array([t.detach().numpy() for t in lam])
        F = np.zeros((3, 3, len(pairs)))
        for a in range(3):
            F[a, a] = L[a]
        P = m.umat(spec, sp).gradient([F, None])[0]
        sc = scale(mech.reference(spec, sp, F, False), L) * 2
        for name, lc in LC.items():
            for ii, jj in ((i, j), (i - 3, j), (i, j - 3), (i - 3, j - 3)):
                for p in (0.0, -2.5, 1e3):
                    Q = P.copy()
                    for a in range(3):
                        Q[a, a] += p / L[a]
                    for N in (lc().stress(F, Q, axis=ii, traction_free=jj), lc("label").stress(F, Q, ii, jj)):
                        bad = ~(np.abs(N - want) <= 1e-10 * sc + 1e-12 * abs(p))
                        require(not bad.any(), f"{case} loaded axis {ii} traction-free axis {jj} pressure {p}: force {N[bad][:2]} instead of {want[bad][:2]}")
                    ctx.step(2)
                    ctx.states(len(pairs), case, name, ii, jj, p)
                    ctx.trace(len(pairs))
    # batches with several axes
    N = lc().stress(F.reshape(3, 3, 5, 5), P.reshape(3, 3, 5, 5), i, j)
    require(np.allclose(np.ravel(N), lc().stress(F, P, i, j), rtol=1e-14), "force of a batch with two axes")
    ctx.outcome(want)


MAG = [0.0] + [f * 10.0**n for n in (-300, -20, -12, -8, -5, -2, 0, 1, 3, 5, 8, 12, 20) for f in (1.0, -1.3)]


def normal(case, ctx):
    "all pairs of stresses of a lattice of signs and magnitudes at all pairs of stretches"
    i, j = case["axes"]
    k = 3 - i - j
    near = [1 + f * 10.0**-n for n in range(2, 16) for f in (1, -1, 4, -3)]
    l = np.array(list(10.0 ** np.arange(-9, 10, 1)) + near + [0.3, 0.9, 1.7, 7.0])
    pairs = [(a, b) for a in l for b in (l if ctx.quick is False else (1.0, a, 0.5, 2.0, 1 / a, a**-0.5, 3e-4))]
    a, b = (np.array(t)[:, None] for t in zip(*pairs))
    st = [(p, q) for p in MAG for q in MAG]
    p, q = (np.array(t)[None, :] for t in zip(*st))
    n = (a.size, p.size)
    F, P = np.zeros((3, 3, *n)), np.zeros((3, 3, *n))
    F[i, i], F[j, j], F[k, k] = a, b, 1 / (a * b)
    P[i, i], P[j, j], P[k, k] = p, q, 1 + p
    want = p - q * b / a
    tol = 1e-14 * (abs(p) + abs(q) * b / a)
    lc = LC[case["lc"]]()

    def compare(N, sel=(Ellipsis,)):
        bad = ~(np.abs(N - want[sel]) <= tol[sel])
        if np.any(bad):
            w = np.argwhere(bad)[0]
            raise AssertionError(f"{case}: force {np.asarray(N)[tuple(w)]} instead of {want[sel][tuple(w)]}")
        ctx.step()

    from ..core import Violation

    try:
        for ii, jj in ((i, j), (i - 3, j), (i, j - 3), (i - 3, j - 3)):
            compare(lc.stress(F, P, axis=ii, traction_free=jj))
        for r in range(n[0]):  # one pair of stretches, all stresses
            compare(lc.stress(F[:, :, r], P[:, :, r], i, j), (r,))
        for c in range(n[1]):  # one pair of stresses, all stretches
            compare(lc.stress(F[:, :, :, c], P[:, :, :, c], i, j), (slice(None), c))
        for r in range(0, n[0], 3):  # single points
            for c in range(0, n[1], 2):
                compare(lc.stress(F[:, :, r, c], P[:, :, r, c], i, j), (r, c))
    except AssertionError as e:
        raise Violation(str(e)) from None
    ctx.states(want.size, case)
    ctx.trace(want.size)
    ctx.outcome(want)
