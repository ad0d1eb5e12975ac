"""Index-notation definitions of the tensor helpers on full arrays (first axes 3x3...)."""
import itertools

import numpy as np

VI = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]


def full2(a):
    "reduced (6, ...) -> (3, 3, ...)"
    a = np.asarray(a)
    T = np.empty((3, 3, *a.shape[1:]), dtype=a.dtype)
    for p, (i, j) in enumerate(VI):
        T[i, j] = a[p]
        T[j, i] = a[p]
    return T


def full4(a):
    "reduced (6, 6, ...) -> (3, 3, 3, 3, ...)"
    a = np.asarray(a)
    T = np.empty((3, 3, 3, 3, *a.shape[2:]), dtype=a.dtype)
    for p, (i, j) in enumerate(VI):
        for q, (k, l) in enumerate(VI):
            for x in {(i, j), (j, i)}:
                for y in {(k, l), (l, k)}:
                    T[x + y] = a[p, q]
    return T


def lattice(values, n=6):
    "(n, len(values)**n): all entry combinations"
    return np.array(list(itertools.product(values, repeat=n)), dtype=float).T


def basis4():
    "(6, 6, 36) basis of the minor-symmetric tensors"
    return np.eye(36).reshape(6, 6, 36)


def dense4(n):
    "deterministic dense minor-symmetric tensors without further symmetry"
    k = np.arange(36.0 * n).reshape(6, 6, n)
    return np.sin(1.7 * k + 0.3) + 0.2 * np.cos(0.9 * k**1.1)


def E(sub, *ops):
    return np.einsum(sub, *ops)


def dot(A, B):
    return E("ik...,kj...->ij...", full2(A), full2(B))


def ddot22(A, B):
    return E("ij...,ij...->...", full2(A), full2(B))


def ddot24(A, B):
    return E("ij...,ijkl...->kl...", full2(A), full4(B))


def ddot42(A, B):
    return E("ijkl...,kl...->ij...", full4(A), full2(B))


def ddot44(A, B):
    return E("ijkl...,klmn...->ijmn...", full4(A), full4(B))


def dya(A, B):
    return E("ij...,kl...->ijkl...", full2(A), full2(B))


def cdya_ik(A, B):
    return E("ik...,jl...->ijkl...", full2(A), full2(B))


def cdya_il(A, B):
    return E("il...,kj...->ijkl...", full2(A), full2(B))


def cdya(A, B):
    a, b = full2(A), full2(B)
    return (E("ik...,jl...->ijkl...", a, b) + E("il...,kj...->ijkl...", a, b)
            + E("ik...,jl...->ijkl...", b, a) + E("il...,kj...->ijkl...", b, a)) / 4


def same(x, y):
    "equal including NaN payload positions"
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
