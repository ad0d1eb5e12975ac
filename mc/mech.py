"""Comparisons of the library with the reference model (tolerances live here)."""
import numpy as np

from . import materials as m
from . import ref
from .core import require
from .points import pointset

FAR = 1e-10  # relative to the scale of the energy derivatives
NEAR = 1e-6  # nearly repeated stretches: cancellation of 1e-16 / 1e-8 is inherent
GAP = 1e-4


def scales(r, least=0.0):
    "natural sizes of stress and elasticity, `least` see typical()"
    k = r["k1"] + r["k2"]
    k = k + 1e-3 * max(float(np.max(k)), least, 1e-300)
    return k / r["lmin"], k / r["lmin"] ** 2 * np.maximum(1, r["lmax"]) ** 2


def stretch_based(spec):
    return spec[0] in ("ogden", "coup", "spoly", "gen", "genpoly")


def compare(ctx, got, want, scale, tol, what, F=None):
    "raise if |got-want| > tol*scale anywhere (last axis: points)"
    got = np.asarray(got)
    require(got.shape == want.shape, f"{what}: shape {got.shape} instead of {want.shape}")
    err = np.abs(got - want) / scale
    bad = ~(err <= tol)
    if bad.any():
        idx = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err / tol)), err.shape)
        at = "" if F is None else " at F=" + repr(F[..., idx[-1]].tolist())
        require(False, f"{what}: component {tuple(int(i) for i in idx[:-1])} is {got[idx]!r}, reference "
                       f"{np.broadcast_to(want, got.shape)[idx]!r} (relative to scale {err[idx]:.2e}){at}")
    mx = float(err.max()) if err.size else 0.0
    ctx.maximum("error", mx)
    return mx


def tangent_tol(r, spec=None):
    if spec is not None and not stretch_based(spec):
        return FAR
    return np.where(r["gap"] > GAP, FAR, NEAR)


_ref = {}


def reference(spec, space, F, hess=True, key=None):
    if key is not None:
        k = (repr(spec), space, key, hess)
        if k not in _ref:
            if len(_ref) > 64:
                _ref.clear()
            _ref[k] = ref.principal(m.energy(spec)[0], space, F, hess)
        return _ref[k]
    return ref.principal(m.energy(spec)[0], space, F, hess)


_typical = {}


def typical(spec, space):
    "size of the energy derivatives on a fixed alphabet (for groups where they all vanish)"
    k = (repr(spec), space)
    if k not in _typical:
        r = reference(spec, space, pointset("tiny"), False)
        _typical[k] = float(np.max(r["k1"] + r["k2"]))
    return _typical[k]


def stress(um, F, sv=None):
    return um.gradient([F, sv])[0]


def tangent(um, F, sv=None):
    return um.hessian([F, sv])[0]


def check_stress(ctx, um, spec, space, F, r=None, what="stress", least=0.0):
    r = r or reference(spec, space, F, False)
    P = stress(um, F.copy())
    ctx.step()
    compare(ctx, P, r["P"], scales(r, least)[0], FAR, f"{what} of {spec} in {space}", F)
    return P


def check_tangent(ctx, um, spec, space, F, r=None, what="elasticity", least=0.0):
    r = r or reference(spec, space, F, True)
    A = tangent(um, F.copy())
    ctx.step()
    compare(ctx, A, r["A"], scales(r, least)[1], tangent_tol(r, spec), f"{what} of {spec} in {space}", F)
    return A


_classes = {}
SHAPES = ((), (1,), (), (1, 1, 1, 1))


def classes():
    if not _classes:
        from . import points

        _classes.update(points.classes())
    return _classes


def check_classes(ctx, spec, space, tangents, step=1):
    "groups of special deformations, as batches and point by point"
    fun, key, s = (tangent, "A", 1) if tangents else (stress, "P", 0)
    um = m.umat(spec, space)
    least = typical(spec, space)
    for name, F in classes().items():
        far = name.startswith(("stretched", "scaled"))
        if far and tangents and not name.endswith((" 150", " 0.01", " 10000")):
            continue
        r = reference(spec, space, F, tangents)
        # I1**2 - C:C cancels for very different stretches
        loose = {"stretched 30": 1e-8, "stretched 150": 1e-7, "stretched 1000": 1e-5}.get(name, 1e-9 if far else 0)
        if far:
            # outside of the range of the energy (logarithms, exponentials)
            ok = np.isfinite(scales(r)[s]) & np.isfinite(r[key].reshape(-1, F.shape[-1])).all(axis=0)
            ok &= (r["k1"] + r["k2"]) < 1e250
            if not ok.any():
                continue
            F = np.ascontiguousarray(F[..., ok])
            r = reference(spec, space, F, tangents)
        n = F.shape[-1]
        sc = scales(r, least)[s]
        tol = np.maximum(tangent_tol(r, spec) if tangents else FAR, loose)
        compare(ctx, fun(um, F.copy()), r[key], sc, tol, f"batch of {name} deformations: {key} of {spec} in {space}", F)
        ctx.step()
        for k in range(0, n, 2 * step if far and tangents else step):
            # without, with one and with several trailing axes
            shape = SHAPES[k % 4]
            G = F[..., k].reshape(3, 3, *shape).copy()
            got = np.asarray(fun(um, G))
            require(got.shape == G.shape if not tangents else got.shape == (3, 3, *G.shape), f"{name} deformation on its own: shape {got.shape}")
            compare(ctx, got.reshape(*got.shape[: 4 if tangents else 2], 1), r[key][..., k : k + 1], sc[k], tol if np.ndim(tol) == 0 else tol[k], f"{name} deformation on its own: {key} of {spec} in {space}", G)
            ctx.step()
        ctx.states(n, spec, space, name, tangents)
        ctx.trace(n)


# ---------------------------------------------------------------------- spec catalogues
TOD = dict(C10=0.5, C01=0.2, C11=0.1, C20=-0.05, C30=0.02)
KEYS = list(TOD)


def tod_subsets():
    for n in range(32):
        yield {k: TOD[k] for b, k in enumerate(KEYS) if n >> b & 1}


def monomials(deg=3):
    for i in range(deg + 1):
        for j in range(deg + 1 - i):
            for k in range(deg + 1 - i - j):
                if i + j + k:
                    yield [i, j, k]


OGDEN = [-5.0, -2.0, -1.0, -0.5, 0.436, 1.0, 1.3, 2.0, 3.0, 5.0]
MIXED = [[1, 0, 0, 0.5], [0, 1, 0, 0.2], [0, 0, 1, -0.3], [2, 0, 0, 0.1], [0, 2, 0, 0.07],
         [0, 0, 2, 0.4], [1, 1, 0, 0.11], [0, 1, 1, -0.13], [1, 0, 1, 0.17]]
GENS = ([("strain", k) for k in (-2.0, -1.0, 0.005, 0.5, 1.0, 1.4, 2.0, 3.0)]
        + [("deformation", k) for k in (-2.0, -1.0, 0.5, 1.0, 1.4, 2.0, 3.0)]
        + [("mix", 0.7), ("mix", 1.3), ("shift", 0.3), ("shift", 1.0)])


def catalogue(quick=True):
    "every kind of strain energy, exhaustively within small parameter lattices"
    out = []
    for p in tod_subsets():
        for strain in (False, True):
            out.append(["tod", p, strain])
    for i, j, k in monomials(3 if quick else 4):
        out.append(["poly", [[i, j, k, 0.3]], "none"])
    out.append(["poly", MIXED, "none"])
    out.append(["poly", MIXED, "array"])
    for name in m.TORCH:
        out.append(["torch", name, "float64"])
    for a in OGDEN:
        out.append(["ogden", [0.7], [a]])
    for a in OGDEN[::3]:
        for b in OGDEN[1::3]:
            out.append(["ogden", [1.1, 0.4], [a, b]])
    out.append(["ogden", [1.0, 0.5, -0.2], [1.3, 5.0, -2.0]])
    out += [["ogden", [1.0, 0.5], [2, 2]], ["ogden", [1, 0.5, -1], [3, -2, -2]], ["ogden", [0.5, -0.5], [1.0, 2.0]], ["ogden", [0.0, 1.0], [2.0, 1.3]]]
    for v in (dict(C10=0.25, C20=-0.25), dict(C01=0.25, C11=-0.25), dict(C20=0.25, C30=-0.25), dict(C10=-0.25, C11=0.25, C20=0.25, C30=-0.25)):
        out += [["tod", v, False], ["tod", v, True], ["gen", v, True, "strain", 1.4]]
    for name in m.COUPLED:
        for enc in ("list", "array", "none"):
            out.append(["coup", name, enc])
    for i, j, k in monomials(2):
        out.append(["spoly", [[i, j, k, 0.3]]])
    for name, k in GENS:
        strain = name != "deformation"
        sub = list(tod_subsets())
        for p in (sub if not quick else [sub[n] for n in (1, 2, 4, 8, 16, 31)]):
            out.append(["gen", p, strain, name, k])
        for t in monomials(2):
            out.append(["genpoly", [[*t, 0.3]], name, k])
        out.append(["genpoly", MIXED, name, k])
    return out
