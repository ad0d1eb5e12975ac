"""Every symmetric tensor with entries from a finite lattice ({-1, 0.5, 2}^6, thorough
{-2, -1, 0, 0.5, 3}^6; three values per entry decide polynomials of degree two per entry),
the same scaled by 1e-6 .. 1e6, and all tensors with eigenvalues from {1e-3, 0.5, 0.5+eps,
1, 1+eps, 4, 1e3} (all triples, repeated ones included) in 27 rotated frames, flat and with two to
five trailing axes, times 1e-15, 1e-6, 1, 1e6: trace,
determinant, deviator, inverse (determinant computed and supplied) and spectral
decomposition are compared with the full-tensor definitions. A state is one tensor."""
import itertools

import numpy as np

import hyperelastic.math as hm

from .. import mathref as mr
from ..core import require
from ..points import ROT_GENERIC, octahedral

ASSUMPTIONS = ["float64 arrays; inverses are claimed for condition numbers up to 1e7"]
SHAPES = [(), (1,), (3,), (6,), (2, 3), (3, 3), (6, 1), (2, 3, 6)]


def cases(ctx):
    out = []
    vals = (-1.0, 0.5, 2.0) if ctx.quick else (-2.0, -1.0, 0.0, 0.5, 3.0)
    for v in vals:
        for w in vals:
            for s in (1.0, 1e-15, 1e-10, 1e-6, 1e-3, 1e3, 1e6, 1e12):
                out.append(dict(kind="lattice", fix=[v, w], vals=vals, scale=s))
    for r in range(24 + len(ROT_GENERIC)):
        out.append(dict(kind="eig", rot=r))
    for s in SHAPES:
        out.append(dict(kind="shape", shape=s))
    return out


def algebra(a, ctx, what):
    T = mr.full2(a)
    sc = np.abs(a).max(axis=0) + 1e-300
    tr = T[0, 0] + T[1, 1] + T[2, 2]
    got = hm.trace(a)
    require(np.shape(got) == np.shape(tr) and np.all(np.abs(got - tr) <= 1e-14 * sc), f"trace {what}")
    D = T - tr / 3 * np.eye(3).reshape(3, 3, *([1] * (a.ndim - 1)))
    got = mr.full2(hm.dev(a))
    require(got.shape == D.shape and np.all(np.abs(got - D) <= 1e-14 * sc), f"dev {what}")
    det = (T[0, 0] * (T[1, 1] * T[2, 2] - T[1, 2] * T[2, 1]) - T[0, 1] * (T[1, 0] * T[2, 2] - T[1, 2] * T[2, 0])
           + T[0, 2] * (T[1, 0] * T[2, 1] - T[1, 1] * T[2, 0]))
    got = hm.det(a)
    require(np.shape(got) == np.shape(det) and np.all(np.abs(got - det) <= 1e-13 * sc**3), f"det {what}")
    e = hm.eye(a)
    require(np.shape(e) == (6, *([1] * (a.ndim - 1))) and np.array_equal(e.ravel(), [1, 1, 1, 0, 0, 0]), "eye")
    ctx.step(4)


def inverse(a, ctx, what):
    T = mr.full2(a)
    for supplied in (False, True):
        if supplied:
            b = hm.inv(a, determinant=hm.det(a))
        else:
            b = hm.inv(a)
        require(b.shape == a.shape, f"inv {what}: shape {b.shape}")
        X = mr.full2(b)
        R = np.einsum("ik...,kj...->ij...", T, X)
        sc = np.abs(a).max(axis=0) * np.abs(b).max(axis=0)
        I = np.eye(3).reshape(3, 3, *([1] * (a.ndim - 1)))
        tol = 1e-12 * sc * np.maximum(sc, 1)
        require(bool(np.all(np.abs(R - I) <= tol)),
                f"inv {what} (determinant supplied: {supplied}): A inv(A) differs from 1 by {np.abs(R - I).max():.2e}")
        ctx.step()


def spectral(a, ctx, what):
    T = mr.full2(a)
    sc = np.abs(a).max(axis=0) + 1e-300
    for fun in (None, np.sqrt, lambda x: 3 * x + 1):
        if fun is np.sqrt and not np.all(np.min(np.linalg.eigvalsh(np.moveaxis(T, (0, 1), (-2, -1))), axis=-1) > 0):
            continue
        w, M = hm.eigh(a) if fun is None else hm.eigh(a, fun=fun)
        require(w.shape == (3, *a.shape[1:]) and M.shape == (3, 6, *a.shape[1:]), f"eigh {what}: shapes {w.shape} {M.shape}")
        if fun is None:
            w0 = w
        else:
            require(np.allclose(w, fun(w0), rtol=1e-14, atol=0, equal_nan=True), f"eigh {what}: function of the values")
        B = [mr.full2(M[i]) for i in range(3)]
        X = sum(w0[i] * B[i] for i in range(3))
        require(bool(np.all(np.abs(X - T) <= 1e-13 * sc)), f"eigh {what}: does not rebuild the tensor ({np.abs((X - T) / sc).max():.2e})")
        I = np.eye(3).reshape(3, 3, *([1] * (a.ndim - 1)))
        require(bool(np.all(np.abs(sum(B) - I) <= 1e-13)), f"eigh {what}: bases do not sum to the identity")
        for i in range(3):
            for j in range(3):
                R = np.einsum("ik...,kj...->ij...", B[i], B[j])
                want = B[i] if i == j else 0 * R
                require(bool(np.all(np.abs(R - want) <= 1e-13)), f"eigh {what}: bases {i} {j} are not orthogonal projectors")
        ctx.step()


def run(case, ctx):
    k = case["kind"]
    if k == "lattice":
        L = mr.lattice(case["vals"], 4)
        a = np.concatenate([np.repeat([[case["fix"][0]], [case["fix"][1]]], L.shape[1], axis=1), L])
        T = mr.full2(a)
        cond = np.linalg.cond(np.moveaxis(T, -1, 0))
        a = a * case["scale"]
        algebra(a, ctx, f"lattice scaled by {case['scale']}")
        spectral(a, ctx, f"lattice scaled by {case['scale']}")
        good = a[:, cond < 1e7]
        inverse(good, ctx, f"lattice scaled by {case['scale']}")
        for n in range(0, a.shape[1], 17):
            algebra(a[:, n].copy(), ctx, repr(a[:, n].tolist()))
        for n in range(0, good.shape[1], 17):
            inverse(good[:, n].copy(), ctx, repr(good[:, n].tolist()))
            spectral(good[:, n].copy(), ctx, repr(good[:, n].tolist()))
        ctx.states(a.shape[1], case)
        ctx.trace(a.shape[1])
        ctx.count("inverses", good.shape[1])
        ctx.outcome(a[:, -1])
        ctx.sample(f"{a.shape[1]} lattice tensors scaled by {case['scale']}")
    elif k == "eig":
        R = [*octahedral(), *ROT_GENERIC][case["rot"]]
        vals = (1e-3, 0.5, 0.5 + 1e-9, 1.0, 1.0 + 1e-14, 4.0, 1e3)
        t = np.array(list(itertools.product(vals, repeat=3)))
        T = np.einsum("ia,na,ja->ijn", R, t, R)
        a = np.array([(T[i, j] + T[j, i]) / 2 for i, j in mr.VI])
        algebra(a, ctx, f"prescribed eigenvalues, frame {case['rot']}")
        spectral(a, ctx, f"prescribed eigenvalues, frame {case['rot']}")
        inverse(a, ctx, f"prescribed eigenvalues, frame {case['rot']}")
        w = hm.eigh(a)[0]
        require(np.allclose(np.sort(w, axis=0), np.sort(t.T, axis=0), rtol=1e-11, atol=1e-12), "eigenvalues")
        s = spectral
        for sg in (-1.0,):
            algebra(sg * a, ctx, "negative definite")
            spectral(sg * a, ctx, "negative definite")
            inverse(sg * a, ctx, "negative definite")
        for sh in ((343, 1), (7, 49), (7, 7, 7), (1, 7, 7, 7), (7, 7, 7, 1, 1)):
            for c in (1e-15, 1e-6, 1.0, 1e6):
                b = (c * a).reshape(6, *sh)
                algebra(b, ctx, f"prescribed eigenvalues times {c}, frame {case['rot']}, batch shape {sh}")
                spectral(b, ctx, f"prescribed eigenvalues times {c}, frame {case['rot']}, batch shape {sh}")
                inverse(b, ctx, f"prescribed eigenvalues times {c}, frame {case['rot']}, batch shape {sh}")
                w = hm.eigh(b)[0].reshape(3, -1)
                require(np.allclose(np.sort(w, axis=0), c * np.sort(t.T, axis=0), rtol=1e-11, atol=1e-12 * c), f"eigenvalues, batch shape {sh}, scaled by {c}")
        ctx.states(22 * a.shape[1], case)
        ctx.trace(22 * a.shape[1])
        ctx.outcome(a)
    else:
        s = tuple(case["shape"])
        n = int(np.prod(s))
        q = np.arange(6.0 * n).reshape(6, *s)
        a = 0.3 * np.sin(1.1 * q) + np.array([2, 3, 4, 0, 0, 0.0]).reshape(6, *([1] * len(s)))
        for f in (lambda x: x, np.asfortranarray, lambda x: np.repeat(x, 2, axis=-1)[..., ::2]):
            algebra(f(a), ctx, f"batch shape {s}")
            inverse(f(a), ctx, f"batch shape {s}")
            spectral(f(a), ctx, f"batch shape {s}")
        w, M = hm.eigh(a)
        for idx in np.ndindex(*s):  # each point on its own
            w1, M1 = hm.eigh(a[(slice(None), *idx)].copy())
            require(np.allclose(w1, w[(slice(None), *idx)], rtol=1e-14) and
                    np.allclose(M1, M[(slice(None), slice(None), *idx)], atol=1e-12), f"eigh: point {idx} of batch {s}")
        ctx.states(3 * n, case)
        ctx.trace(3 * n)
        ctx.outcome(a)
