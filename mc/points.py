"""Finite alphabets of deformation gradients (arrays (3,3,N), det F > 0)."""
import itertools

import numpy as np

OFF = [(0, 1), (1, 2), (0, 2), (1, 0), (2, 1), (2, 0)]


def _keep(F):
    J = np.linalg.det(np.moveaxis(F, -1, 0))
    return np.ascontiguousarray(F[:, :, J > 0.05])


def lattice(diag=(0.8, 1.0, 1.3), off=(-0.25, 0.3), deviations=2):
    "all F with the given diagonal values and at most n non-zero off-diagonals"
    out = []
    for d in itertools.product(diag, repeat=3):
        for n in range(deviations + 1):
            for pos in itertools.combinations(OFF, n):
                for v in itertools.product(off, repeat=n):
                    F = np.diag(d).astype(float)
                    for p, x in zip(pos, v):
                        F[p] = x
                    out.append(F)
    return _keep(np.moveaxis(np.array(out), 0, -1))


def full_lattice(diag=(0.8, 1.0, 1.3), off=(-0.2, 0.0, 0.25)):
    out = []
    for d in itertools.product(diag, repeat=3):
        for v in itertools.product(off, repeat=6):
            F = np.diag(d).astype(float)
            for p, x in zip(OFF, v):
                F[p] = x
            out.append(F)
    return _keep(np.moveaxis(np.array(out), 0, -1))


def near_identity(eps=(1e-2, 1e-4, 1e-6, 1e-8), base=None):
    out = [np.eye(3)]
    for e in eps:
        for i in range(3):
            for j in range(3):
                for s in (1, -1):
                    F = np.eye(3)
                    F[i, j] += s * e
                    out.append(F)
    out = np.array(out)
    if base is not None:
        out = out @ base
    return np.moveaxis(out, 0, -1)


def quaternion(a, b, c, d):
    n = a * a + b * b + c * c + d * d
    return np.array([
        [a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
        [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
        [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d],
    ]) / n


ROT_GENERIC = [quaternion(1, 2, 3, 4), quaternion(5, 1, -1, 2), quaternion(1, 1, 0, 0.2)]


def octahedral():
    "the 24 rotations of the cube, as exact integer matrices"
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            Q = np.zeros((3, 3))
            for i, (j, v) in enumerate(zip(p, s)):
                Q[i, j] = v
            if np.linalg.det(Q) > 0:
                out.append(Q)
    return out


def principal(stretches=(0.5, 1.0, 1.7), rots=None):
    "all triples of principal stretches, in rotated principal frames on both sides"
    rots = [np.eye(3), *ROT_GENERIC] if rots is None else rots
    out = []
    for l in itertools.product(stretches, repeat=3):
        for k, R in enumerate(rots):
            for Q in (np.eye(3), rots[-1 - k]):
                out.append(Q @ np.diag(l) @ R.T)
    return np.moveaxis(np.array(out), 0, -1)


def extreme():
    out = []
    for l in itertools.product((0.3, 1.0, 3.0), repeat=3):
        out.append(np.diag(l))
        out.append(np.diag(l) @ ROT_GENERIC[0])
        G = np.eye(3)
        G[0, 1] = 2.0
        out.append(G @ np.diag(l))
    return np.moveaxis(np.array(out), 0, -1)


def classes():
    """homogeneous groups of deformations (each is evaluated as a batch of its own and point
    by point): code that looks at the whole batch may treat such groups specially"""
    R, Q = ROT_GENERIC[0], ROT_GENERIC[1]
    shear = lambda i, j, g: np.eye(3) + g * np.outer(np.eye(3)[i], np.eye(3)[j])
    sym = lambda l, k: k @ np.diag(l) @ k.T
    s = (0.7, 1.25, 2.0)
    out = {
        "diagonal": [np.diag(l) for l in itertools.product((0.8, 1.0, 1.3), repeat=3)],
        "distinct diagonal": [np.diag(l) for l in itertools.permutations((0.8, 1.1, 1.5))],
        "uniaxial": [np.diag(l) for x in s for l in {(x, x**-0.5, x**-0.5), (x**-0.5, x, x**-0.5), (x**-0.5, x**-0.5, x)}],
        "planar": [np.diag((x, 1, 1 / x)) for x in s] + [np.diag((1, 1 / x, x)) for x in s],
        "simple shear": [shear(i, j, g) for i, j in OFF for g in (0.3, -0.8)],
        "isochoric": [shear(0, 1, 0.4) @ shear(2, 1, -0.3) @ np.diag((x, 1 / x, 1)) for x in s] + [R @ np.diag((1.5, 0.8, 1 / 1.2)) @ Q],
        "nearly isochoric": [shear(0, 1, 0.4) @ shear(2, 0, -0.3) * (1 + e) for e in (1e-2, -1e-3, 1e-4, -1e-5, 1e-6, -1e-7, 3e-8, 1e-8, -3e-9)],
        "dilation": [np.eye(3) * x for x in (0.5, 0.999, 1.0, 1.01, 2.0)],
        "rotation": [np.eye(3), R, Q, R @ Q, np.diag((-1.0, -1.0, 1.0)), np.eye(3)[[1, 2, 0]]],
        "symmetric": [sym((0.8, 1.1, 1.5), k) for k in (R, Q, R @ Q)] + [sym((1.2, 1.2, 0.7), R)],
        "triangular": [np.array([[1.2, 0.3, a], [0, 0.9, -0.2], [0, 0, 1.1]]) for a in (0.0, 0.5)] + [np.array([[1.2, 0, 0], [0.3, 0.9, 0], [a, -0.2, 1.1]]) for a in (0.0, 0.5)],
        "in plane": [np.array([[1.2, 0.3, 0], [-0.1, 0.9, 0], [0, 0, x]]) for x in (1.0, 0.8)] + [np.array([[x, 0, 0], [0, 1.2, 0.3], [0, 0.2, 0.9]]) for x in (1.0, 1.3)] + [np.array([[1.2, 0, 0.4], [0, x, 0], [0.1, 0, 0.9]]) for x in (1.0, 1.3)],
        "small": [np.eye(3) + e * np.array([[1, 2, -1], [0, -1, 1], [3, 0, 2.0]]) for e in (1e-3, 1e-5, 1e-7)],
        "equibiaxial": [k @ np.diag((x, x, y)) @ R for x in (1.3, 0.9) for y in (0.7, 1.0) for k in (np.eye(3), Q)],
    }
    # far from the undeformed state; axes aligned such that nothing cancels
    P = [np.eye(3), np.diag((-1.0, -1.0, 1.0))[[1, 2, 0]], np.diag((1.0, -1.0, 1.0))[[1, 0, 2]]]
    for x in (30.0, 150.0, 1e3):
        far = [(x, 1, 1 / x), (1 / x, x, 1), (1, 1 / x, x), (x, x, 1 / x), (x, x**-0.5, x**-0.5), (x**-0.5, x, x**-0.5), (x, 1, 1), (1, 1 / x, 1), (1.3, 1 / x, 1 / x)]
        out[f"stretched {x:g}"] = [k @ np.diag(np.array(l, dtype=float)) for l in far for k in P]
    for x in (1e-4, 1e-2, 1e2, 1e4):
        out[f"scaled {x:g}"] = [x * k @ np.diag(l) @ q for l in ((1.0, 1.0, 1.0), (0.7, 1.1, 1.5), (1.2, 1.2, 0.8)) for k in (np.eye(3), R) for q in (np.eye(3), Q)]
    return {k: np.ascontiguousarray(np.moveaxis(np.array(v, dtype=float), 0, -1)) for k, v in out.items()}


_cache = {}


def pointset(name):
    if name not in _cache:
        if name == "quick":
            F = np.concatenate([lattice(), near_identity(), principal(), extreme()], axis=-1)
        elif name == "small":
            F = np.concatenate([
                lattice((0.8, 1.3), (-0.25, 0.3), 1), near_identity((1e-3, 1e-7)),
                principal((0.6, 1.0, 1.5), [np.eye(3), ROT_GENERIC[0]])], axis=-1)
        elif name == "tiny":
            F = np.concatenate([
                lattice((0.8, 1.3), (-0.25, 0.3), 1)[..., ::7],
                near_identity((1e-4,))[..., ::4], principal((0.6, 1.0, 1.5), [ROT_GENERIC[0]])[..., ::3]], axis=-1)
        elif name == "full":
            F = np.concatenate([full_lattice(), lattice(), near_identity((1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9)),
                                near_identity((1e-2, 1e-5), ROT_GENERIC[0]), principal((0.4, 0.7, 1.0, 1.4, 2.2)), extreme()], axis=-1)
        else:
            raise KeyError(name)
        _cache[name] = F
    return _cache[name]
