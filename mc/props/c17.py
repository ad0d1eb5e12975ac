"""Stateless exploration of histories on the real objects: for 10 worlds (groups of material
objects that share model and framework instances: several spaces on one framework, several
frameworks on one model, all finalize / force / area options, automatic differentiation,
user models, user models that hand out the same arrays in every call) ALL sequences of length 3 (thorough: 4) over the operations {stress,
elasticity of every object at every deformation of the world (other values, other batch
shapes, same shape other values), overwrite a deformation in place, overwrite the last
result in place, evaluate the framework directly at a C, evaluate the initial state, evaluate
the piola transformation directly, create another object on the shared framework}. After
every step the result is compared with the one of fresh objects for the same argument; at the
end of a sequence all earlier results and all arguments are compared with what they were.
Long histories: for every object, all periodic histories of 6 patterns (one argument 300
times; 70 arguments cyclically; every new argument followed by the first one; batches that
grow to 40 points and shrink again; arguments and results released at once; one array
overwritten in place), stress or elasticity alone, or alternating with the other objects of
the world evaluated in between. All ordered pairs of 36 deformations that agree in many
quantities (permuted or mirrored components, transposed, rotated), x {stress, elasticity}^2,
directly after each other by one object. A state is one (world, operation history)."""
import itertools

import numpy as np
import torch

import hyperelastic as hel

from .. import materials as m
from .. import mech
from ..core import require
from ..points import ROT_GENERIC

ASSUMPTIONS = ["operations of one history run in one thread"]


def Fset():
    R, Q = ROT_GENERIC[0], ROT_GENERIC[1]
    a = [np.diag([1.2, 0.9, 1.1]) @ R, np.eye(3)]
    b = [Q @ np.diag([0.7, 0.7, 1.6]), np.array([[1.2, 0.1, -0.2], [0.3, 0.9, 0.1], [0, 0.2, 1.1]])]
    c = [np.diag([1.4, 0.8, 0.8]), Q @ np.diag([1.1, 1.3, 0.6]) @ R, np.array([[1, 0.4, 0], [0, 1, 0], [0, 0, 1.0]])]
    st = lambda x: np.ascontiguousarray(np.moveaxis(np.array(x), 0, -1))
    # (3,3,2,1), (3,3,2,1) other values, (3,3,1,3)
    return [st(a).reshape(3, 3, 2, 1), st(b).reshape(3, 3, 2, 1), st(c).reshape(3, 3, 1, 3)]


class StoredInvariants:
    "constant derivatives, kept by the model"

    def __init__(self):
        self.store = {}

    def get(self, n, x):
        key = (n, np.shape(x))
        if key not in self.store:
            self.store[key] = np.full(np.shape(x), 0.1 + 0.07 * n)
        return self.store[key]

    def check(self):
        for (n, _), a in self.store.items():
            require(np.all(a == 0.1 + 0.07 * n), "an array that belongs to the user's model was modified")

    def gradient(self, I1, I2, I3, statevars):
        return self.get(0, I1), self.get(1, I1), self.get(2, I1), statevars

    def hessian(self, I1, I2, I3, statevars):
        return [self.get(n, I1) for n in range(3, 9)]


class StoredStretches(StoredInvariants):
    def gradient(self, stretches, statevars):
        return self.get(0, stretches), statevars

    def hessian(self, stretches, statevars):
        return self.get(1, np.broadcast_to(stretches[:1], (6, *stretches.shape[1:])))


def worlds():
    inv, hs = hel.models.invariants, hel.models.stretches

    def w_spaces_inv():
        fw = hel.InvariantsFramework(inv.ThirdOrderDeformation(**mech.TOD))
        return [hel.DeformationSpace(fw), hel.DistortionalSpace(fw), hel.DilatationalSpace(fw)], [fw]

    def w_spaces_str():
        fw = hel.StretchesFramework(hs.Ogden([1.0, 0.3], [1.3, -2.0]))
        return [hel.DeformationSpace(fw), hel.DistortionalSpace(fw), hel.DilatationalSpace(fw)], [fw]

    def w_spaces_gen():
        fw = hel.GeneralizedInvariantsFramework(inv.ThirdOrderDeformation(**mech.TOD, strain=True), fun=hel.models.generalized.strain, exponent=1.4)
        return [hel.DeformationSpace(fw), hel.DistortionalSpace(fw), hel.DilatationalSpace(fw)], [fw]

    def w_model():
        mo = inv.ThirdOrderDeformation(**mech.TOD)
        fws = [hel.InvariantsFramework(mo),
               hel.GeneralizedInvariantsFramework(mo, fun=hel.models.generalized.deformation, exponent=1.3),
               hel.GeneralizedInvariantsFramework(mo, fun=hel.models.generalized.deformation, exponent=-1.0)]
        return [hel.DeformationSpace(f) for f in fws], fws[1:]

    def w_poly():
        mo = m.PolyModel(mech.MIXED, "none")
        fws = [hel.InvariantsFramework(mo), hel.GeneralizedInvariantsFramework(mo, fun=m.user_mix, w=1.3)]
        return [hel.DistortionalSpace(fws[0]), hel.DeformationSpace(fws[0]), hel.DeformationSpace(fws[1])], fws

    def w_torch():
        torch.set_default_dtype(torch.float64)
        fws = [hel.InvariantsFramework(inv.TorchModel(m.TORCH["full"])), hel.InvariantsFramework(inv.TorchModel(m.TORCH["neo"]))]
        return [hel.DeformationSpace(fws[0]), hel.DistortionalSpace(fws[1])], fws

    def w_options():
        fw = hel.InvariantsFramework(inv.ThirdOrderDeformation(**mech.TOD))
        return [hel.DistortionalSpace(fw, finalize=False), hel.DeformationSpace(fw, finalize=False), hel.DeformationSpace(fw, force=0, area=None)], [fw]

    def w_options2():
        fw = hel.StretchesFramework(m.StretchModel(m.COUPLED["e1e2"], "array"))
        return [hel.DistortionalSpace(fw, force=0), hel.DeformationSpace(fw, area=None), hel.DilatationalSpace(fw, finalize=False)], [fw]

    def w_linear():
        "constant derivatives: broadcast paths"
        fws = [hel.InvariantsFramework(inv.ThirdOrderDeformation(C10=0.5)), hel.InvariantsFramework(m.PolyModel([[0, 0, 1, 0.4]], "ones"))]
        return [hel.DeformationSpace(fws[0]), hel.DeformationSpace(fws[0], force=0), hel.DeformationSpace(fws[1])], fws

    def w_stored():
        "user models that return one and the same array objects in every call"
        a, b = StoredInvariants(), StoredStretches()
        fws = [hel.InvariantsFramework(a), hel.GeneralizedInvariantsFramework(a, fun=hel.models.generalized.strain, exponent=1.4), hel.StretchesFramework(b)]
        return [hel.DistortionalSpace(fws[0]), hel.DeformationSpace(fws[1]), hel.DeformationSpace(fws[2]), hel.DilatationalSpace(fws[2], force=0)], fws

    return dict(stored=w_stored, inv=w_spaces_inv, str=w_spaces_str, gen=w_spaces_gen, model=w_model, poly=w_poly, torch=w_torch,
                options=w_options, options2=w_options2, linear=w_linear)


def voigt(F):
    C = np.einsum("kI...,kJ...->IJ...", F, F)
    return np.ascontiguousarray(C[[0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]])


def operations(world):
    ums, fws = worlds()[world]()
    ops = [(w, u, f) for u in range(len(ums)) for f in range(3) for w in ("stress", "elasticity")]
    ops += [("overwrite F", 0, 0), ("overwrite F", 0, 2), ("overwrite result",)]
    ops += [("framework " + w, k, 1) for k in range(len(fws)) for w in ("gradient", "hessian")]
    ops += [("initial", u) for u in range(min(2, len(ums)))]
    ops += [("new", u) for u in range(min(2, len(ums)))]
    ops += [("piola", 0, 1)]
    return ops


def alike():
    "deformations that agree in many quantities: components up to their order or sign, C, invariants, sums"
    R, Q = ROT_GENERIC[0], ROT_GENERIC[1]
    out = [np.diag(d) for d in itertools.permutations((1.3, 0.9, 0.8))]
    for i, j in itertools.permutations(range(3), 2):
        for v in (0.3, -0.3):
            S = np.eye(3)
            S[i, j] = v
            out.append(S)
            if v > 0:
                out.append(np.diag((1.3, 0.9, 0.8)) @ S)
    G = np.array([[1.2, 0.1, -0.2], [0.3, 0.9, 0.1], [0.05, 0.2, 1.1]])
    out += [G, G.T, R @ G, G @ R, Q @ G @ R, G[::-1, ::-1], G[[1, 2, 0]][:, [1, 2, 0]], G * (1 + 1e-6), G + 1e-9, np.eye(3), R, 1.0001 * np.eye(3)]
    return [np.ascontiguousarray(f).reshape(3, 3, 1, 1) for f in out]


def similar(case, ctx):
    "all ordered pairs of alike deformations, directly after each other, by one object"
    name, u = case["world"], case["alike"]
    Fs = alike()
    ref = {}
    for what in ("stress", "elasticity"):
        for k, f in enumerate(Fs):
            ums, fws = worlds()[name]()
            ref[what, k] = np.array(perform(ums, fws, (what, u), f.copy())[0])
    ums, fws = worlds()[name]()
    for wa, wb in itertools.product(("stress", "elasticity"), repeat=2):
        for a, b in itertools.product(range(len(Fs)), repeat=2):
            for w, k in ((wa, a), (wb, b)):
                got = perform(ums, fws, (w, u), Fs[k])[0]
                require(same(got, ref[w, k]), f"world {name}, object {u}: {w} at deformation {k} in the history {wa} at {a}, {wb} at {b} differs from the evaluation by fresh objects")
                ctx.step()
            ctx.state(name, u, wa, wb, a, b)
    ctx.trace(4 * len(Fs) ** 2)
    ctx.outcome([len(Fs), u])
    ctx.sample(f"{name}: object {u}, all ordered pairs of {len(Fs)} alike deformations")


def cases(ctx):
    out = [dict(world=w, alike=u) for w in worlds() for u in range(len(worlds()[w]()[0]))]
    out += [dict(world=w, long=u, what=what, between=b) for w in worlds() for u in range(len(worlds()[w]()[0])) for what, b in (("stress", False), ("elasticity", False), ("both", True))]
    for w in worlds():
        n = len(operations(w))
        for a in range(n):
            if ctx.quick:
                out.append(dict(world=w, first=[a]))
            else:
                for b in range(n):
                    out.append(dict(world=w, first=[a, b]))
    return out


class World:
    def __init__(self, name):
        self.make = worlds()[name]
        self.F = Fset()
        self.alt = [f * np.array([1.1, 0.95, 1.05])[:, None, None, None] for f in self.F]
        self.version = [0, 0, 0]
        self.ums, self.fws = self.make()
        self.results = []  # (array, snapshot)

    def overwrite(self, k):
        new = self.alt[k] if self.version[k] == 0 else Fset()[k]
        self.F[k][...] = new
        self.version[k] ^= 1


class Expected:
    "results of fresh objects, by content of the argument"

    def __init__(self, name):
        self.make = worlds()[name]
        self.cache = {}
        self.F = [Fset(), World(name).alt]

    def get(self, op, version):
        key = (op, version)
        if key not in self.cache:
            ums, fws = self.make()
            what, u = op[0], op[1]
            if what == "initial":
                x = ums[u].x
                self.cache[key] = [np.array(ums[u].gradient(x)[0]), np.array(ums[u].hessian(x)[0])]
            else:
                F = self.F[version][op[2]].copy()
                self.cache[key] = [np.array(y) for y in perform(ums, fws, op, F)]
        return self.cache[key]


def perform(ums, fws, op, F):
    what, u = op[0], op[1]
    if what == "stress":
        P, sv = ums[u].gradient([F, None])
        require(sv is None, "state variables")
        return [P]
    if what == "elasticity":
        return [ums[u].hessian([F, None])[0]]
    if what == "framework gradient":
        return [fws[u].gradient(voigt(F), None)[0]]
    if what == "framework hessian":
        return [fws[u].hessian(voigt(F), None)]
    if what == "piola":
        S = voigt(F)
        C4 = np.einsum("i...,j...->ij...", S, S)
        return [ums[u].piola(F, S), ums[u].piola(F, S, C4=C4)]
    raise KeyError(what)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    sc = np.abs(b).max() if b.size else 0.0
    return bool(np.all(np.abs(a - b) <= 1e-12 * sc))


def apply(w, op, exp, ctx, hist):
    what = op[0]
    out = []
    if what == "overwrite F":
        w.overwrite(op[2])
        return
    if what == "overwrite result":
        for k in range(len(w.results)):
            r, s = w.results[-1 - k]
            if r.flags.writeable:
                r[...] = 77.0
                shared = [q for q, _ in w.results if q is not r and np.shares_memory(q, r)]
                require(not shared, f"two results share storage after {hist}")
                w.results[-1 - k] = (r, r.copy())
                break
        return
    if what == "new":
        u = w.ums[op[1]]
        w.ums[op[1]] = type(u)(u.material, finalize=u.finalize, force=u.force, area=u.area)
        return
    if what == "initial":
        x = w.ums[op[1]].x
        require(np.array_equal(x[0], np.eye(3)), f"initial deformation modified after {hist}")
        out = [w.ums[op[1]].gradient(x)[0], w.ums[op[1]].hessian(x)[0]]
        want = exp.get(op, 0)
    else:
        F = w.F[op[2]]
        before = F.tobytes()
        out = perform(w.ums, w.fws, op, F)
        require(F.tobytes() == before, f"argument modified by {op} after {hist}")
        want = exp.get(op, w.version[op[2]])
    ctx.step(len(out))
    for got, ref in zip(out, want):
        require(same(got, ref), f"{op} after {hist} differs from the evaluation by fresh objects")
        w.results.append((got, np.array(got)))


PATTERNS = ("same", "cycle", "revisit", "grow", "drop", "inplace")


def deformation(k, q=1):
    "k-th deformation of a long history, q points"
    t = 0.37 * k + 0.71 * np.arange(q)
    H = np.array([[np.sin(t), np.cos(1.3 * t), np.sin(2.1 * t + 1)], [np.cos(0.7 * t), np.sin(1.9 * t), np.sin(0.3 * t)], [np.sin(1.1 * t), np.cos(2.3 * t), np.cos(1.7 * t)]])
    return np.ascontiguousarray(np.eye(3)[..., None] + 0.25 * H)


def steps(pattern):
    "(number of the deformation, points) of each step"
    if pattern == "same":
        return [(0, 1)] * 300
    if pattern == "cycle":
        return [(k, 1) for k in range(70)] * 3
    if pattern == "revisit":
        return [x for k in range(1, 70) for x in ((k, 1), (0, 1))]
    if pattern == "grow":
        return [(k, k) for k in (*range(1, 41), *range(40, 0, -1))]
    return [(k, 1) for k in range(150)]


_single = {}


def long(case, ctx):
    name, u = case["world"], case["long"]
    make = worlds()[name]

    def fresh(what, v, d):
        key = (name, what, v, d)
        if key not in _single:
            ums, fws = make()
            _single[key] = np.array(perform(ums, fws, (what, v), deformation(*d))[0])
        return _single[key]

    for pattern in PATTERNS:
        ums, fws = make()
        kept = []
        args = {}
        F = None
        for n, d in enumerate(steps(pattern)):
            if pattern == "inplace":
                F = deformation(*d) if F is None else F
                F[...] = deformation(*d)
            elif pattern == "drop":
                F = deformation(*d)
            else:
                F = args.setdefault(d, deformation(*d))
            ops = [((case["what"] if case["what"] != "both" else ("stress", "elasticity")[n % 2]), u)]
            if case["between"]:
                ops.insert(0, ("stress" if n % 3 else "elasticity", (u + 1 + n) % len(ums)))
            for op in ops:
                got = perform(ums, fws, op, F)[0]
                ctx.step()
                require(same(got, fresh(*op, d)), f"world {name}: step {n} of the pattern {pattern} ({op}, deformation {d}) differs from the evaluation by fresh objects")
                if pattern != "drop":
                    kept.append((got, np.array(got)))
            ctx.state(name, u, case["what"], case["between"], pattern, n)
            require(np.array_equal(F, deformation(*d)), f"world {name}: argument modified in step {n} of the pattern {pattern}")
        require(all(np.array_equal(a, b, equal_nan=True) for a, b in kept), f"world {name}: an earlier result was changed during the pattern {pattern}")
        require(all(np.array_equal(f, deformation(*d)) for d, f in args.items()), f"world {name}: an earlier argument was changed during the pattern {pattern}")
        ctx.trace()
        ctx.outcome([PATTERNS.index(pattern), len(kept)])
    ctx.sample(f"{name}: object {u}, {case['what']}, long histories")


_exp = {}


def run(case, ctx):
    if "alike" in case:
        return similar(case, ctx)
    if "long" in case:
        return long(case, ctx)
    name = case["world"]
    if name not in _exp:
        _exp[name] = Expected(name)
    exp = _exp[name]
    ops = operations(name)
    depth = 3 if ctx.quick else 4
    for tail in itertools.product(range(len(ops)), repeat=depth - len(case["first"])):
        seq = [ops[k] for k in (*case["first"], *tail)]
        # the last operation has to be an evaluation
        if seq[-1][0] in ("overwrite F", "overwrite result", "new"):
            continue
        w = World(name)
        for n, op in enumerate(seq):
            apply(w, op, exp, ctx, seq[:n])
        for fw in w.fws:
            for mo in (fw.material, getattr(fw.material, "material", None)):
                if isinstance(mo, StoredInvariants):
                    mo.check()
        for k, (r, s) in enumerate(w.results):
            require(np.array_equal(r, s, equal_nan=True), f"result {k} handed out earlier was changed by a later operation of {seq}")
        want = [exp.F[w.version[k]][k] for k in range(3)]
        require(all(np.array_equal(a, b) for a, b in zip(w.F, want)), f"arguments modified in {seq}")
        ctx.state(name, seq)
        ctx.trace()
    ctx.outcome([len(ops), case["first"][0]])
    ctx.sample(f"{name}: {seq}")
