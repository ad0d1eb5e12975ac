"""All pairs of operands of a finite alphabet: the 6x6 (36x36) basis pairs, which decide
the bilinear maps, and lattices {-2, 0, 1}^6 x {-2, 0, 1}^6 (thorough: all 531441 pairs),
for the products dot, ddot (2:2, 2:4, 4:2, 4:4), dya, cdya, cdya_ik, cdya_il and the major
transpose; the operands being two different arrays, equal arrays, one and the same object,
nearly equal arrays (differences 1e-6 .. 1e-12), and of magnitudes 1e-9 .. 1e9. Results are
compared with the index definition evaluated on full arrays. A state is one operand pair."""
import numpy as np

import hyperelastic.math as hm

from .. import mathref as mr
from ..core import require

ASSUMPTIONS = ["float64 arrays with equal numbers of axes (broadcastable batch axes)"]
TOL = 1e-13

R22 = [  # name, function, definition, conversion of the result
    ("dot", lambda A, B: hm.dot(A, B), mr.dot, lambda x: x),
    ("dot(2,2)", lambda A, B: hm.dot(A, B, mode=(2, 2)), mr.dot, lambda x: x),
    ("ddot", lambda A, B: hm.ddot(A, B), mr.ddot22, lambda x: x),
    ("ddot(2,2)", lambda A, B: hm.ddot(A, B, mode=(2, 2)), mr.ddot22, lambda x: x),
    ("dya", lambda A, B: hm.dya(A, B), mr.dya, mr.full4),
    ("cdya", lambda A, B: hm.cdya(A, B), mr.cdya, mr.full4),
    ("cdya_ik", lambda A, B: hm.cdya_ik(A, B), mr.cdya_ik, lambda x: x),
    ("cdya_il", lambda A, B: hm.cdya_il(A, B), mr.cdya_il, lambda x: x),
]


def cases(ctx):
    out = []
    step = 27 if ctx.quick else 3
    for k, (name, *_) in enumerate(R22):
        out.append(dict(kind="basis", op=k))
        out.append(dict(kind="same", op=k))
        for n in range(0, 729, 27 if ctx.quick else 9):
            out.append(dict(kind="pairs", op=k, first=n, count=1 if ctx.quick else 9))
    for mode in ((2, 4), (4, 2), (4, 4)):
        out.append(dict(kind="four", mode=mode))
        for p in range(0, 36):
            out.append(dict(kind="fourpair", mode=mode, p=p))
    out.append(dict(kind="transpose"))
    return out


def close(got, want, scale, what):
    require(np.shape(got) == np.shape(want), f"{what}: shape {np.shape(got)} instead of {np.shape(want)}")
    err = np.abs(got - want)
    require(bool(np.all(err <= TOL * scale)), f"{what}: error {np.nanmax(err / scale) if err.size else 0:.3e}")


def chk(op, A, B, ctx, what):
    name, f, d, conv = R22[op]
    got = conv(f(A, B))
    want = d(A, B)
    sc = np.abs(A).max(axis=0) * np.abs(B).max(axis=0) + 1e-300
    close(got, want, sc, f"{name} {what}")
    ctx.step()


def run(case, ctx):
    k = case["kind"]
    L = mr.lattice((-2.0, 0.0, 1.0))
    if k == "basis":
        op = case["op"]
        A = np.eye(6)[:, :, None] * np.ones((1, 1, 6))
        B = np.eye(6)[:, None, :] * np.ones((1, 6, 1))
        chk(op, A, B, ctx, "basis pairs")
        for i in range(6):
            for j in range(6):
                chk(op, np.eye(6)[i], np.eye(6)[j], ctx, f"basis pair {i} {j}")
                for f in (1e-9, 1e9):
                    chk(op, np.eye(6)[i] * f, np.eye(6)[j], ctx, f"basis pair {i} {j} scaled")
                    chk(op, np.eye(6)[i], np.eye(6)[j] * f, ctx, f"basis pair {i} {j} scaled")
        # broadcast operands (singleton batch axes)
        chk(op, np.eye(6)[:, :, None], np.eye(6)[:, None, :], ctx, "broadcast basis pairs")
        ctx.states(36 * 5, case)
        ctx.trace(36 * 5)
        ctx.sample(f"{R22[op][0]}: all 36 basis pairs, magnitudes 1e-9..1e9")
    elif k == "same":
        op = case["op"]
        A = L.copy()
        chk(op, A, A, ctx, "one object passed twice (batch)")
        chk(op, A, A.copy(), ctx, "equal operands (batch)")
        for n in range(0, 729, 7):
            a = A[:, n].copy()
            chk(op, a, a, ctx, "one object passed twice")
            chk(op, a, a.copy(), ctx, "equal operands")
            chk(op, a, a[:], ctx, "two views of one array")
            for e in (1e-6, 1e-9, 1e-12):
                for i in range(6):
                    b = a.copy()
                    b[i] += e
                    chk(op, a, b, ctx, f"nearly equal operands, difference {e}")
        for f in (1e-9, 1e9):
            G = A * f
            chk(op, G, G, ctx, f"one object passed twice, magnitude {f}")
            H = G.copy()
            H[3] *= 1 + 1e-7
            chk(op, G, H, ctx, f"nearly equal operands, magnitude {f}")
        # one array that mixes magnitudes over the batch
        M = A * 10.0 ** (np.arange(729) % 13 - 6)
        chk(op, M, M, ctx, "mixed magnitudes")
        chk(op, M, M[:, ::-1], ctx, "mixed magnitudes")
        ctx.states(729 * 8 + 105 * 21, case)
        ctx.trace(729 * 8 + 105 * 21)
    elif k == "pairs":
        op = case["op"]
        for n in range(case["first"], case["first"] + case["count"]):
            A = np.repeat(L[:, n : n + 1], 729, axis=1)
            chk(op, A, L, ctx, f"lattice pair with first operand {L[:, n].tolist()}")
            chk(op, L[:, n : n + 1], L, ctx, "lattice pair (first operand broadcast)")
            if ctx.quick:
                chk(op, L, L[:, n : n + 1], ctx, "lattice pair (second operand broadcast)")
            ctx.states(729 * 3, case, n)
            ctx.trace(729 * 3)
    elif k in ("four", "fourpair"):
        four(case, ctx)
    elif k == "transpose":
        for a in (mr.basis4(), mr.dense4(50), mr.dense4(6).reshape(6, 6, 2, 3), mr.dense4(1)[..., 0]):
            T = mr.full4(a)
            got = mr.full4(hm.transpose(a.copy()))
            require(mr.same(got, np.moveaxis(T, (0, 1, 2, 3), (2, 3, 0, 1))), "transpose")
            require(mr.same(hm.transpose(hm.transpose(a)), a), "transpose twice")
            ctx.step(3)
        ctx.states(36 + 50 + 6 + 1, case)
        ctx.trace(93)
    ctx.outcome(np.array([k == "basis", case.get("op", 0), case.get("first", 0)]))


def four(case, ctx):
    mode = tuple(case["mode"])
    d = {(2, 4): mr.ddot24, (4, 2): mr.ddot42, (4, 4): mr.ddot44}[mode]
    conv = mr.full4 if mode == (4, 4) else mr.full2

    def ck(A, B, what):
        got = conv(hm.ddot(A, B, mode=mode))
        want = d(A, B)
        na, nb = (len(np.shape(A)), len(np.shape(B)))
        ax = lambda m: tuple(range(1 if m == 2 else 2))
        sc = np.abs(A).max(axis=ax(mode[0])) * np.abs(B).max(axis=ax(mode[1])) + 1e-300
        close(got, want, sc * 10, f"ddot{mode} {what}")
        ctx.step()

    two, four_ = np.eye(6), mr.basis4()
    if case["kind"] == "fourpair":
        p = case["p"]
        a = four_[:, :, p]
        if mode == (4, 4):
            ck(np.repeat(a[..., None], 36, axis=2), four_, f"basis pair {p}")
            ck(a[..., None], four_, f"basis pair {p}, broadcast")
            for q in range(36):
                ck(a, four_[:, :, q], f"basis pair {p} {q}")
        elif mode == (4, 2):
            ck(np.repeat(a[..., None], 6, axis=2), two, f"basis pair {p}")
            ck(a[..., None], two, "broadcast")
            for q in range(6):
                ck(a, two[q], f"basis pair {p} {q}")
        else:
            ck(two, np.repeat(a[..., None], 6, axis=2), f"basis pair {p}")
            for q in range(6):
                ck(two[q], a, f"basis pair {q} {p}")
        ctx.states(36 if mode == (4, 4) else 6, case)
        ctx.trace(36 if mode == (4, 4) else 6)
        return
    n = 64
    D1, D2 = mr.dense4(n), mr.dense4(2 * n)[..., ::2] * 0.7 + 0.1
    V = np.sin(np.arange(6.0 * n).reshape(6, n) * 1.3 + 0.2)
    for f in (1.0, 1e-9, 1e9):
        for sym in (False, True):
            X, Y = D1 * f, D2
            if sym:
                X, Y = X + np.swapaxes(X, 0, 1), Y + np.swapaxes(Y, 0, 1)
            if mode == (4, 4):
                ck(X, Y, "dense")
                ck(X, X, "one object passed twice")
                ck(X, X.copy(), "equal operands")
                ck(X, np.swapaxes(X, 0, 1), "operand and its transpose")
            elif mode == (4, 2):
                ck(X, V, "dense")
            else:
                ck(V, X, "dense")
            ctx.states(4 * n, case, f, sym)
            ctx.trace(4 * n)
    ctx.sample(f"ddot{mode}: dense and basis operands")
