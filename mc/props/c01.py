"""All tensors of a finite alphabet: every reduced second-order tensor over {-1, 0, 2}^6
and special values (nan, inf, denormals, -0), every basis and pair-of-basis fourth-order
tensor (36 + 630 positions), dense tensors without major symmetry, magnitudes 1e-300 ..
1e300, dtypes, 12 batch shapes; all four conversions and both round trips and the two
triangle completions (dimension 2..7, 9, 13, with and without destination, destination = input)
are compared component by component with the index definition. The maps are linear index
maps, hence the basis decides them for all values. A state is one tensor."""
import itertools

import numpy as np

import hyperelastic.math as hm

from .. import mathref as mr
from ..core import require

ASSUMPTIONS = ["arrays of numbers; trailing axes are batch axes"]
SHAPES = [(), (1,), (2,), (3,), (6,), (0,), (2, 3), (3, 3), (6, 6), (3, 1, 2), (1, 3, 3), (3, 3, 3, 3)]


def cases(ctx):
    out = [dict(kind="lattice2")]
    for s in SHAPES:
        for dt in ("f8", "f4", "i8"):
            out.append(dict(kind="shape", shape=s, dtype=dt))
    out.append(dict(kind="basis4"))
    for p in range(36):
        out.append(dict(kind="pairs4", p=p))
    for dim in (2, 3, 4, 5, 6, 7, 9, 13):
        for s in SHAPES:
            out.append(dict(kind="tri", dim=dim, shape=s))
    return out


def conv2(a, ctx, what):
    T = mr.full2(a)
    got = hm.astensor(a)
    require(mr.same(got, T), f"astensor(mode=2) {what}")
    require(mr.same(hm.astensor(a, mode=2), T), f"astensor(mode=2) {what}")
    require(mr.same(hm.asvoigt(T), a), f"asvoigt(mode=2) {what}")
    require(mr.same(hm.asvoigt(T, mode=2), a), f"asvoigt(mode=2) {what}")
    require(mr.same(hm.asvoigt(got), a), f"asvoigt(astensor) {what}")
    require(mr.same(hm.astensor(hm.asvoigt(T)), T), f"astensor(asvoigt) {what}")
    ctx.step(7)


def conv4(a, ctx, what):
    T = mr.full4(a)
    got = hm.astensor(a, 4)
    require(mr.same(got, T), f"astensor(mode=4) {what}")
    require(mr.same(hm.asvoigt(T, mode=4), a), f"asvoigt(mode=4) {what}")
    require(mr.same(hm.asvoigt(got, 4), a), f"asvoigt(astensor, mode=4) {what}")
    require(mr.same(hm.astensor(hm.asvoigt(T, 4), mode=4), T), f"astensor(asvoigt, mode=4) {what}")
    ctx.step(5)


SPECIAL = [np.nan, np.inf, -np.inf, 5e-324, -0.0, 1e-300, 1e300, 1.0 + 2**-52]


def run(case, ctx):
    k = case["kind"]
    if k == "lattice2":
        L = mr.lattice((-1.0, 0.0, 2.0))
        S = [L, L * 1e-300, L * 1e150]
        for v in SPECIAL:
            S.append(np.where(np.eye(6) > 0, v, np.arange(1.0, 7)[:, None]))
            S.append(np.full((6, 1), v))
        for a in S:
            conv2(a, ctx, f"values like {a[:, -1].tolist()}")
            for n in range(0, a.shape[1], max(1, a.shape[1] // 50)):
                conv2(a[:, n].copy(), ctx, f"single tensor {a[:, n].tolist()}")
            ctx.states(a.shape[1], k, repr(a[:, -1]))
            ctx.trace(a.shape[1])
        ctx.outcome(S[0][:, -1])
        ctx.sample("all 729 symmetric tensors over {-1,0,2}^6 and nan/inf/denormal payloads")
    elif k == "shape":
        s, dt = tuple(case["shape"]), case["dtype"]
        n = int(np.prod(s))
        a = (np.arange(6 * n) * 3 + 1).reshape(6, *s).astype(dt)
        conv2(a, ctx, f"batch shape {s} {dt}")
        b = (np.arange(36 * n) * 7 + 1).reshape(6, 6, *s).astype(dt)
        conv4(b, ctx, f"batch shape {s} {dt}")
        # memory layouts
        for f in LAYOUTS:
            conv2(f(a), ctx, f"batch shape {s} {dt} other memory layout")
            conv4(f(b), ctx, f"batch shape {s} {dt} other memory layout")
        ctx.states(2 * max(n, 1) * (1 + len(LAYOUTS)), k, s, dt)
        ctx.trace(2)
        ctx.outcome(b)
        ctx.sample(f"batch shape {s} {dt}")
    elif k == "basis4":
        for v in (1.0, -3.0, np.nan, np.inf, 1e-300, 1e300):
            a = np.where(mr.basis4() > 0, v, 0.5)
            conv4(a, ctx, f"basis tensors, value {v}")
            ctx.states(36, k, v)
            ctx.trace(36)
        a = mr.dense4(40)
        for f in (1.0, 1e-9, 1e9):
            conv4(a * f, ctx, "dense")
            s = (a + np.swapaxes(a, 0, 1)) * f
            conv4(s, ctx, "dense, major-symmetric")
            for e in (1e-6, 1e-9, 1e-12):
                t = s.copy()
                t[0, 3] += e * f  # slightly non-major-symmetric
                t[4, 5] -= e * f
                conv4(t, ctx, "nearly major-symmetric")
            ctx.states(200, k, "dense", f)
            ctx.trace(200)
        ctx.outcome(a)
    elif k == "pairs4":
        p = case["p"]
        qs = [q for q in range(36) if q != p]
        a = np.zeros((36, len(qs)))
        a[p] = 2.0
        a[qs, range(len(qs))] = -5.0
        a = a.reshape(6, 6, -1)
        conv4(a, ctx, f"two non-zero entries, first {divmod(p, 6)}")
        for n in (0, 17, 34):
            conv4(a[..., n].copy(), ctx, "single tensor")
        ctx.states(len(qs), k, p)
        ctx.trace(len(qs))
        ctx.outcome(a)
    elif k == "tri":
        tri(case["dim"], tuple(case["shape"]), ctx)


LAYOUTS = [np.asfortranarray, lambda x: x[::-1].copy()[::-1],
           lambda x: np.repeat(x, 2, axis=-1)[..., ::2], lambda x: ro(x.copy())]


def ro(x):
    x.setflags(write=False)
    return x


def tri(dim, s, ctx):
    n = int(np.prod(s))
    A = (np.arange(dim * dim * n) * 1.0 + 0.5).reshape(dim, dim, *s)
    for fun, up in ((hm.tril_from_triu, True), (hm.triu_from_tril, False)):
        want = A.copy()
        for i in range(dim):
            for j in range(dim):
                if (j < i) if up else (j > i):
                    want[i, j] = A[j, i]
        B = A.copy()
        got = fun(B, dim=dim)
        require(mr.same(got, want), f"{fun.__name__} dim={dim} batch {s}")
        require(mr.same(B, A), f"{fun.__name__} modified its input, dim={dim} batch {s}")
        require(got is not B and not np.shares_memory(got, B), "result shares memory with the input")
        if dim == 6:
            require(mr.same(fun(B), want), f"{fun.__name__} default dimension")
        B = A.copy()
        got = fun(B, dim=dim, out=B)
        require(got is B and mr.same(B, want), f"{fun.__name__} in place, dim={dim} batch {s}")
        # another destination: the mirrored entries are those of the source, nothing else changes
        for fill in (-1.0, np.nan):
            for base in (np.full_like(A, fill), np.full((*A.shape, 2), fill)[..., 0], np.asfortranarray(np.full_like(A, fill))):
                B, out, dest = A.copy(), base, base.copy()
                for i in range(dim):
                    for j in range(dim):
                        if (j < i) if up else (j > i):
                            dest[i, j] = A[j, i]
                got = fun(B, dim=dim, out=out)
                require(got is out and mr.same(out, dest), f"{fun.__name__} with a destination filled with {fill}, dim={dim} batch {s}")
                require(mr.same(B, A), f"{fun.__name__} modified its input, dim={dim} batch {s}")
                ctx.step()
        got2 = fun(want.copy(), dim=dim)
        require(mr.same(got2, want), f"{fun.__name__} is idempotent")
        for f in LAYOUTS:
            require(mr.same(fun(f(A), dim=dim), want), f"{fun.__name__} memory layout, dim={dim} batch {s}")
        ctx.step(8)
    ctx.states(2 * max(n, 1), "tri", dim, s)
    ctx.trace(2)
    ctx.outcome(want)
