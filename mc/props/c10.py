"""Energies x 3 spaces x all batch shapes with up to three axes of size {1, 2, 3, 6} (85),
no axis, empty axes and large batches (64 .. 66003, some energies 131101 points) x memory layouts; all ordered pairs
of a 14-point alphabet (identity, near identity, repeated, tiny, huge, generic stretches)
sharing a batch; batches of four nearly equal points (distances 1e-2 .. 1e-7) with one to six
axes; reversed and repeated batches; single points of
special kinds (diagonal, sheared, isochoric .. deformations) against the reference. Every point of every batch is compared with
the evaluation of that point on its own; batch shapes of the results are checked; the
initial state of the material object is evaluated. A state is one (energy, space, batch)."""
import itertools

import numpy as np

from .. import materials as m
from .. import mech
from ..core import require
from ..points import ROT_GENERIC, pointset

ASSUMPTIONS = []
SPECS = [["tod", dict(C10=0.5), False], ["tod", mech.TOD, False], ["poly", mech.MIXED, "none"], ["poly", mech.MIXED, "ones"],
         ["poly", [[0, 0, 1, 0.4]], "none"], ["torch", "neo", "float64"], ["torch", "full", "float64"],
         ["ogden", [1.0, 0.3], [1.3, -2.0]], ["coup", "lin", "none"], ["coup", "e1e2", "array"], ["coup", "hencky", "list"],
         ["gen", mech.TOD, True, "strain", 1.4], ["genpoly", mech.MIXED, "deformation", -1.0]]
DIMS = (1, 2, 3, 6)


def shapes(quick):
    yield ()
    for r in (1, 2, 3):
        yield from itertools.product(DIMS, repeat=r)
    yield from [(2, 3, 1, 2), (1, 1, 1, 1), (2, 2, 2, 2, 2)]


def alphabet():
    R, Q = ROT_GENERIC[0], ROT_GENERIC[1]
    pts = [np.eye(3), Q.copy(), np.eye(3) + 1e-6 * np.outer([1, 2, 0], [0, 1, 3]), np.eye(3) * 1.2, np.eye(3) * 0.05,
           np.eye(3) * 20.0, np.diag([1.3, 1.3, 0.7]), R @ np.diag([0.6, 1.4, 1.4]) @ Q, R @ np.diag([0.6, 1.4, 1.4 + 3e-9]) @ Q,
           Q @ np.diag([3, 0.2, 1.1]) @ R, np.array([[1, 0.4, 0], [0, 1, 0], [0, 0, 1.0]]), np.array([[1.2, 0.1, -0.2], [0.3, 0.9, 0.1], [0, 0.2, 1.1]]),
           np.diag([1.1, 0.9, 1 / 0.99]), np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.0]]) @ np.diag([1.5, 0.8, 1.0])]
    return np.moveaxis(np.array(pts), 0, -1)


def alike():
    "batches of four: a point of the alphabet and three close to it, distances 1e-2 .. 1e-7"
    H = np.array([[0.3, -0.7, 0.2], [0.5, 0.4, -0.1], [-0.6, 0.8, -0.9]])
    out = []
    for B in np.moveaxis(alphabet(), -1, 0):
        for e in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7):
            out += [B, B @ (np.eye(3) + e * H), B @ (np.eye(3) - e * H.T), B * (1 + e)]
    return np.moveaxis(np.array(out), 0, -1)


def integers():
    "deformation gradients with integer components"
    out = []
    for d in itertools.product((1, 2, 3), repeat=3):
        out.append(np.diag(d))
        for (i, j), v in itertools.product([(0, 1), (1, 2), (2, 0)], (1, -1, 2)):
            M = np.diag(d)
            M[i, j] = v
            out.append(M)
    out += [np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), np.array([[0, -2, 1], [1, 0, 0], [1, 0, 1]]), np.array([[2, 1, 0], [1, 2, 1], [0, 1, 2]])]
    out = [M for M in out if np.linalg.det(M) > 0.5]
    return np.moveaxis(np.array(out), 0, -1)


def cases(ctx):
    out = []
    for spec in SPECS:
        for sp in ("def", "dis", "dil"):
            for part in ("shapes", "large", "pairs", "layouts", "types", "single", "initial", "alike"):
                out.append(dict(spec=spec, space=sp, part=part))
            if not ctx.quick:
                for k in range(14):
                    out.append(dict(spec=spec, space=sp, part="triples", first=k))
    return out


class Alone:
    "responses of the points of the alphabet evaluated on their own by fresh objects"

    def __init__(self, spec, space, F, ctx):
        self.F = F
        n = F.shape[-1]
        self.P = np.zeros((3, 3, n))
        self.A = np.zeros((3, 3, 3, 3, n))
        for k in range(n):
            f = F[..., k].copy()
            self.P[..., k] = mech.stress(m.umat(spec, space), f)
            self.A[..., k] = mech.tangent(m.umat(spec, space), f)
            ctx.step(2)
        r = mech.reference(spec, space, F, True)
        self.sP, self.sA = mech.scales(dict(r))
        # the points differ by orders of magnitude: use pointwise scales
        k0 = r["k1"] + r["k2"] + 1e-6
        self.sP, self.sA = k0 / r["lmin"], k0 / r["lmin"] ** 2 * np.maximum(1, r["lmax"] / r["lmin"])
        mech.compare(ctx, self.P, r["P"], self.sP, 1e-9, f"{spec} {space}: stress of a single point", F)
        mech.compare(ctx, self.A, r["A"], self.sA, np.where(r["gap"] > mech.GAP, 1e-9, 2e-6) if mech.stretch_based(spec) else 1e-9,
                     f"{spec} {space}: elasticity of a single point", F)


def check(ctx, um, al, idx, shape, what, layout=lambda x: x):
    idx = np.asarray(idx)
    F = al.F[..., idx].reshape(3, 3, *shape)
    G = layout(F)
    P, A = mech.stress(um, G), mech.tangent(um, G)
    ctx.step(2)
    require(np.shape(P) == (3, 3, *shape), f"{what}: stress has shape {np.shape(P)} for batch shape {shape}")
    require(np.shape(A) == (3, 3, 3, 3, *shape), f"{what}: elasticity has shape {np.shape(A)} for batch shape {shape}")
    if idx.size:
        mech.compare(ctx, P.reshape(3, 3, -1), al.P[..., idx.ravel()], al.sP[idx.ravel()], 1e-9, f"{what}: stress of a point differs from the point alone, batch shape {shape}, points {idx.ravel()[:12].tolist()}")
        mech.compare(ctx, A.reshape(3, 3, 3, 3, -1), al.A[..., idx.ravel()], al.sA[idx.ravel()], 1e-6 if al.gapdep else 1e-9, f"{what}: elasticity of a point differs from the point alone, batch shape {shape}, points {idx.ravel()[:12].tolist()}")
    ctx.trace(max(idx.size, 1))
    ctx.state(what, shape, idx.ravel()[:64].tolist(), idx.size)


def run(case, ctx):
    spec, sp, part = case["spec"], case["space"], case["part"]
    F = alphabet() if part != "alike" else alike()
    al = Alone(spec, sp, F, ctx)
    al.gapdep = mech.stretch_based(spec)
    n = F.shape[-1]
    um = m.umat(spec, sp)
    what = f"{spec} in {sp}"
    if part == "shapes":
        for s in shapes(ctx.quick):
            q = int(np.prod(s))
            for start in (0, 9):
                check(ctx, um, al, (np.arange(q) * 3 + start) % n, s, what)
        for s in [(0,), (2, 0), (0, 3)]:
            if sp != "x":
                check(ctx, um, al, np.zeros(0, dtype=int), s, what)
    elif part == "large":
        for s in [(64,), (65,), (1000,), (4097,), (64, 65), (3, 2000), (129, 6, 6), (20011,), (66003,)] + ([] if ctx.quick else [(257, 300), (8, 20000), (262147,)]):
            q = int(np.prod(s))
            check(ctx, um, al, (np.arange(q) * 5 + 1) % n, s, what)
        if spec in (SPECS[0], SPECS[3], SPECS[7], SPECS[11]):
            check(ctx, um, al, (np.arange(131101) * 5 + 1) % n, (131101,), what)
        # one exceptional point in a large batch, at every position class
        for q in (64, 4097):
            for special in range(n):
                for pos in (0, 1, q // 2, q - 1):
                    idx = np.full(q, 11)
                    idx[pos] = special
                    if q < 100 or special in (0, 4, 5, 8):
                        check(ctx, um, al, idx, (q,), what)
    elif part == "pairs":
        for i, j in itertools.product(range(n), repeat=2):
            check(ctx, um, al, [i, j], (2,), what)
            check(ctx, um, al, [i, i, j], (3,), what)
            check(ctx, um, al, [i, j], (1, 2), what)
        check(ctx, um, al, np.arange(n)[::-1], (n,), what)
        check(ctx, um, al, np.arange(n), (n,), what)
        for k in range(n):
            check(ctx, um, al, np.roll(np.arange(n), k), (n,), what)
            check(ctx, um, al, [k] * 7, (7,), what)
    elif part == "triples":
        i = case["first"]
        for j, k in itertools.product(range(n), repeat=2):
            check(ctx, um, al, [i, j, k], (3,), what)
    elif part == "layouts":
        lay = [np.asfortranarray, lambda x: np.repeat(x, 2, axis=-1)[..., ::2], lambda x: x[:, :, ::-1].copy()[:, :, ::-1],
               lambda x: np.moveaxis(np.ascontiguousarray(np.moveaxis(x, -1, 0)), 0, -1), ro,
               lambda x: np.swapaxes(np.swapaxes(x, 0, 1).copy(), 0, 1), lambda x: np.concatenate([x, x])[:3], lambda x: np.pad(x, [(1, 1)] * x.ndim)[tuple([slice(1, -1)] * x.ndim)]]
        for s in [(1,), (3,), (6,), (14,), (2, 3), (3, 3), (6, 6), (2, 3, 6)]:
            q = int(np.prod(s))
            for f in lay:
                check(ctx, um, al, (np.arange(q) * 3) % n, s, what + " (memory layout)", f)
        # stride-0: the same point broadcast
        for k in range(n):
            for s in [(4,), (2, 3)]:
                G = np.broadcast_to(F[..., k].reshape(3, 3, *[1] * len(s)), (3, 3, *s))
                check(ctx, um, al, [k] * int(np.prod(s)), s, what + " (broadcast point)", lambda x, G=G: G)
    elif part == "alike":
        for k in range(0, n, 4):
            for s in [(4,), (2, 2), (4, 1), (1, 2, 2), (1, 1, 2, 2), (2, 1, 2, 1, 1), (1, 4, 1, 1, 1, 1)]:
                check(ctx, um, al, np.arange(k, k + 4), s, what + " (nearly equal points)")
    elif part == "types":
        G = integers()
        P, A = mech.stress(um, G.astype(float)), mech.tangent(um, G.astype(float))
        sP, sA = np.abs(P).max(axis=(0, 1)) + 1, np.abs(A).max(axis=(0, 1, 2, 3)) + 1
        for t in (np.int64, np.int32, np.float64, ">f8"):
            for sel in (np.arange(G.shape[-1]), *[np.array([k]) for k in range(0, G.shape[-1], 5 if ctx.quick else 1)]):
                for s in [(sel.size,), (1, sel.size)] + ([()] if sel.size == 1 else []):
                    H = G[..., sel].reshape(3, 3, *s).astype(t)
                    p, a = mech.stress(um, H), mech.tangent(um, H)
                    require(p.shape == (3, 3, *s) and a.shape == (3, 3, 3, 3, *s), f"{what}: shapes {p.shape} {a.shape} for a deformation gradient of type {t}")
                    mech.compare(ctx, p.reshape(3, 3, -1), P[..., sel], sP[sel], 1e-9, f"{what}: stress for a deformation gradient of type {t}", G[..., sel])
                    mech.compare(ctx, a.reshape(3, 3, 3, 3, -1), A[..., sel], sA[sel], 1e-6 if al.gapdep else 1e-9, f"{what}: elasticity for a deformation gradient of type {t}", G[..., sel])
                    ctx.step(2)
                    ctx.state(what, str(t), sel.tolist(), s)
                    ctx.trace()
    elif part == "single":
        G = np.concatenate([*(v for k, v in mech.classes().items() if not k.startswith(("stretched", "scaled"))), pointset("tiny" if ctx.quick else "small")], axis=-1)
        r = mech.reference(spec, sp, G, True)
        sP, sA = mech.scales(r, mech.typical(spec, sp))
        tol = np.broadcast_to(mech.tangent_tol(r, spec), sP.shape)
        for k in range(G.shape[-1]):
            for s in [(), (1,), (1, 1)]:
                H = G[..., k].copy().reshape(3, 3, *s)
                P, A = mech.stress(um, H), mech.tangent(um, H)
                require(P.shape == (3, 3, *s) and A.shape == (3, 3, 3, 3, *s), f"{what}: shapes {P.shape} {A.shape} for a single point of batch shape {s}")
                mech.compare(ctx, P.reshape(3, 3, 1), r["P"][..., k : k + 1], sP[k], mech.FAR, f"{what}: stress of a point on its own, batch shape {s}", G[..., k : k + 1])
                mech.compare(ctx, A.reshape(3, 3, 3, 3, 1), r["A"][..., k : k + 1], sA[k], tol[k], f"{what}: elasticity of a point on its own, batch shape {s}", G[..., k : k + 1])
                ctx.step(2)
            ctx.state(what, "single", k)
            ctx.trace(3)
    else:
        for nz in (0, 1, 5):
            u = m.SPACES[sp](m.framework(spec, nstatevars=nz))
            x = u.x
            require(np.shape(x[0]) == (3, 3) and np.array_equal(x[0], np.eye(3)), f"{what}: initial deformation gradient")
            require(np.shape(x[-1]) == (nz,) and not np.any(x[-1]), f"{what}: initial state variables")
            P, A = u.gradient(x)[0], u.hessian(x)[0]
            require(P.shape == (3, 3) and A.shape == (3, 3, 3, 3), f"{what}: initial state shapes {P.shape} {A.shape}")
            mech.compare(ctx, P[..., None], al.P[..., :1], al.sP[:1], 1e-9, f"{what}: stress at the initial state")
            mech.compare(ctx, A[..., None], al.A[..., :1], al.sA[:1], 1e-6, f"{what}: elasticity at the initial state")
            ctx.step(2)
            ctx.state(what, "initial", nz)
            ctx.trace()
    ctx.outcome(al.P)
    ctx.sample(f"{what}: {part}")


def ro(x):
    x = x.copy()
    x.setflags(write=False)
    return x
