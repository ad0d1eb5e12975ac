"""Explicit-state exploration of increment histories: a softening user model with state
variables (the new ones are the running maximum of an invariant / stretch, the response
depends on the old ones) in 3 frameworks x 3 spaces x {finalize}, for every
history of length 4 (thorough: 5) over {trial evaluation at two deformations, elasticity at
two deformations, commit the trial, elasticity with the trial values, repeat}. The model state
is the committed and the trial state variables; after every step stress, elasticity and new
state variables are compared with a model without state variables whose moduli are frozen
from the model's own rule. Separately all kinds of state variables (None, empty, scalars,
arrays of several shapes, lists, tuples, dicts, opaque objects, read-only arrays) are
threaded through all frameworks x spaces x options (finalize, parallel, force, area). A state is one (configuration, history)."""
import itertools

import numpy as np

import hyperelastic as hel

from .. import materials as m
from ..core import require
from ..points import ROT_GENERIC

ASSUMPTIONS = ["state variables are opaque to the library"]
FW = ("inv", "str", "gen")
SP = ("def", "dis", "dil")


class Soft:
    """psi = (1 + 0.5 z) * base energy at frozen z; z_new = max(z, measure of the deformation);
    two state variables, the second counts increments"""

    def __init__(self, base, frozen=None):
        self.base, self.frozen = base, frozen
        self.log = []

    def z(self, statevars):
        return self.frozen if self.frozen is not None else statevars[0]

    def scale(self, v, z):
        return None if v is None else v * (1 + 0.5 * z)

    def new(self, args, statevars):
        if self.frozen is not None:
            return None
        x = args[0] if len(args) == 3 else args[0][0]
        return np.stack([np.maximum(statevars[0], np.broadcast_to(x, statevars[0].shape)), statevars[1] + 1])

    def gradient(self, *args):
        *I, sv = args
        self.log.append(("gradient", sv))
        g = list(self.base.gradient(*I, None))[:-1]
        if len(I) == 1:
            return [self.scale(v, self.z(sv)) for v in g[0]], self.new(I, sv)
        return (*[self.scale(v, self.z(sv)) for v in g], self.new(I, sv))

    def hessian(self, *args):
        *I, sv = args
        self.log.append(("hessian", sv))
        return [self.scale(v, self.z(sv)) for v in self.base.hessian(*I, None)]


MIX = [[1, 0, 0, 0.5], [0, 1, 0, 0.2], [0, 0, 1, -0.3], [2, 0, 0, 0.1], [0, 1, 1, 0.05]]


def base(fw):
    if fw == "str":
        return hel.models.stretches.Ogden([1.0, 0.3], [1.3, -2.0])
    return m.PolyModel(MIX, "none", (3, 3, 1) if fw == "inv" else (0, 0, 0))


def framework(fw, model, **kw):
    if fw == "inv":
        return hel.InvariantsFramework(model, **kw)
    if fw == "str":
        return hel.StretchesFramework(model, **kw)
    return hel.GeneralizedInvariantsFramework(model, fun=hel.models.generalized.strain, exponent=1.4, **kw)


def Fset():
    R, Q = ROT_GENERIC[0], ROT_GENERIC[1]
    a = [np.diag([1.2, 0.9, 1.1]) @ R, np.eye(3) * 1.1]
    b = [np.diag([0.7, 1.3, 1.6]) @ Q, np.array([[1.2, 0.1, -0.2], [0.3, 0.9, 0.1], [0, 0.2, 1.1]])]
    return [np.ascontiguousarray(np.moveaxis(np.array(x), 0, -1)).reshape(3, 3, 2, 1) for x in (a, b)]


OPS = [("trial", 0), ("trial", 1), ("hess", 0), ("hess", 1), ("commit",), ("hess-new", 1), ("repeat",)]


def cases(ctx):
    out = []
    for fw in FW:
        for sp in SP:
            for k in range(len(OPS)):
                out.append(dict(kind="history", fw=fw, space=sp, first=k, finalize=True))
            for k in range(len(OPS)):
                out.append(dict(kind="history", fw=fw, space=sp, first=k, finalize=False))
            out.append(dict(kind="kinds", fw=fw, space=sp))
            out.append(dict(kind="initial", fw=fw, space=sp))
    return out


def run(case, ctx):
    {"history": history, "kinds": kinds, "initial": initial}[case["kind"]](case, ctx)


def close(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    require(bool(np.all(np.abs(a - b) <= 1e-11 * max(np.abs(b).max(), 1e-30))), f"{what}: differs by {np.abs(a-b).max():.2e}")


class Oracle:
    "evaluations with frozen state variables, by fresh objects"

    def __init__(self, case):
        self.case = case
        self.F = Fset()
        self.cache = {}

    def get(self, k, z):
        key = (k, z.tobytes())
        if key not in self.cache:
            mo = Soft(base(self.case["fw"]), frozen=z.copy())
            um = m.SPACES[self.case["space"]](framework(self.case["fw"], mo), finalize=self.case["finalize"])
            P = um.gradient([self.F[k].copy(), None])[0]
            A = um.hessian([self.F[k].copy(), None])[0]
            self.cache[key] = np.array(P), np.array(A)
        return self.cache[key]

    def rule(self, k, sv):
        "the model's own update rule, on independently computed arguments"
        C = np.einsum("ki...,kj...->ij...", self.F[k], self.F[k])
        C = np.moveaxis(C, (0, 1), (-2, -1))
        J2 = np.linalg.det(C)
        sp, fw = self.case["space"], self.case["fw"]
        if sp == "dis":
            C = C * J2[..., None, None] ** (-1 / 3)
        elif sp == "dil":
            C = J2[..., None, None] ** (1 / 3) * np.eye(3)
        lam = np.sqrt(np.linalg.eigvalsh(C))
        if fw == "inv":
            x = np.trace(C, axis1=-2, axis2=-1)
        elif fw == "str":
            x = lam[..., 0]
        else:
            W, init, R = m.MEASURES["strain"]
            E, c1, c2 = m.gen_coefficients("strain", 1.4)
            x = c1 * (W(lam, 1.4).sum(-1) - 3 * E) + 3 * E
        return np.stack([np.maximum(sv[0], x), sv[1] + 1])


_oracle = {}


def history(case, ctx):
    key = (case["fw"], case["space"], case["finalize"])
    if key not in _oracle:
        _oracle[key] = Oracle(case)
    o = _oracle[key]
    depth = 4 if ctx.quick else 5
    for tail in itertools.product(range(len(OPS)), repeat=depth - 1):
        seq = [OPS[k] for k in (case["first"], *tail)]
        if seq[-1] == ("commit",):
            continue
        mo = Soft(base(case["fw"]))
        um = m.SPACES[case["space"]](framework(case["fw"], mo, nstatevars=2), finalize=case["finalize"])
        F = [f.copy() for f in o.F]
        sv = np.zeros((2, 2, 1))
        if case["fw"] == "gen" or case["fw"] == "str":
            sv[0] = 0.1
        trial, last = sv, None
        msv = sv.copy()  # model state: committed, trial
        mtrial = sv.copy()
        for n, op in enumerate(seq):
            if op[0] == "repeat":
                if last is None:
                    continue
                op = last
            else:
                last = op
            what = f"step {n} of {seq}"
            if op[0] == "commit":
                sv, msv = trial, mtrial
                continue
            k = op[1]
            use, muse = (trial, mtrial) if op[0] == "hess-new" else (sv, msv)
            snap = use.tobytes()
            P, A = o.get(k, muse[0])
            if op[0] == "trial":
                got, new = um.gradient([F[k], use])
                close(got, P, f"stress at {what}")
                mtrial = o.rule(k, muse)
                close(new, mtrial, f"new state variables at {what}")
                require(not np.shares_memory(new, use), f"new state variables share storage with the old ones at {what}")
                trial = new
            else:
                (got,) = um.hessian([F[k], use])
                close(got, A, f"elasticity at {what}")
            require(use.tobytes() == snap, f"old state variables modified at {what}")
            ctx.step()
        require(np.allclose(sv, msv, rtol=1e-12), f"committed state variables changed by {seq}")
        require(all(np.array_equal(a, b) for a, b in zip(F, o.F)), f"deformation modified by {seq}")
        ctx.state(key, seq)
        ctx.trace()
    ctx.outcome(msv)
    ctx.sample(f"{key}: {seq}")


class Opaque:
    pass


class Recorder:
    "records the state variables the model sees and returns a token as the new ones"

    def __init__(self, base, new):
        self.base, self.newsv, self.seen = base, new, []

    def gradient(self, *args):
        self.seen.append(("gradient", args[-1]))
        return (*list(self.base.gradient(*args[:-1], None))[:-1], self.newsv)

    def hessian(self, *args):
        self.seen.append(("hessian", args[-1]))
        return self.base.hessian(*args[:-1], None)


def values():
    ro = np.arange(6.0).reshape(3, 2, 1)
    ro.flags.writeable = False
    return [None, 0, 1.5, np.zeros(0), np.zeros(3), np.ones((1, 2, 1)), np.arange(10.0).reshape(5, 2, 1), ro, np.arange(6).reshape(6, 1, 1),
            np.ones((3, 3, 2, 1)), np.ones((2, 1), dtype=bool), [1.0, 2.0], (1.0, None), [np.zeros(2), np.ones((3, 1))], {"damage": np.ones(2)}, Opaque(), "text"]


def snapshot(v):
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v), [snapshot(x) for x in v])
    if isinstance(v, dict):
        return [(k, snapshot(x)) for k, x in v.items()]
    return v


def reaches(got, want, what):
    if isinstance(want, Opaque):
        require(got is want, f"{what}: another object")
    require(type(got) is type(want) and snapshot(got) == snapshot(want), f"{what}: {got!r} instead of {want!r}")


def kinds(case, ctx):
    opts = [dict(), dict(finalize=False), dict(parallel=True), dict(force=0), dict(area=None), dict(force=0, area=None)]
    F = Fset()[0]
    vals = values()
    for opt in opts:
        for a, old in enumerate(vals):
            for b, new in enumerate(vals):
                if not ctx.quick or a == b or b == (a + 5) % len(vals):
                    mo = Recorder(base(case["fw"]), new)
                    um = m.SPACES[case["space"]](framework(case["fw"], mo, nstatevars=2), **opt)
                    so, sn = snapshot(old), snapshot(new)
                    what = f"{case} {opt} old {old!r} new {new!r}"
                    res = um.gradient([F, old])
                    require(len(res) == 2, f"{what}: the stress evaluation must return stress and new state variables")
                    reaches(res[1], new, f"{what}: returned state variables")
                    require(len(mo.seen) >= 1 and {k for k, _ in mo.seen} == {"gradient"}, f"{what}: model calls {[k for k, _ in mo.seen]}")
                    res = um.hessian([F, old])
                    require(len(res) == 1, f"{what}: the elasticity evaluation must return one item")
                    require("hessian" in {k for k, _ in mo.seen}, f"{what}: the model's hessian is not evaluated")
                    for w, got in mo.seen:
                        reaches(got, old, f"{what}: state variables seen by the model's {w}")
                    require(snapshot(old) == so and snapshot(new) == sn, f"{what}: modified")
                    ctx.step(2)
                    ctx.state(case, opt, a, b)
                    ctx.trace()
    # frameworks evaluated directly
    C = np.einsum("ki...,kj...->ij...", F, F)[[0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]]
    for old in vals:
        for new in vals[:: 4 if ctx.quick else 1]:
            mo = Recorder(base(case["fw"]), new)
            fw = framework(case["fw"], mo)
            g, sv = fw.gradient(C, old)
            reaches(sv, new, f"{case} framework: returned state variables")
            fw.hessian(C, old)
            for w, got in mo.seen:
                reaches(got, old, f"{case} framework: state variables seen by the model's {w}")
            ctx.step(2)
    ctx.outcome([len(mo.seen)])


def initial(case, ctx):
    for n in range(0, 8):
        for share in (False, True):
            fw = framework(case["fw"], base(case["fw"]), nstatevars=n)
            ums = [m.SPACES[case["space"]](fw)]
            ums.append(m.SPACES[case["space"]](fw if share else framework(case["fw"], base(case["fw"]), nstatevars=n)))
            for um in ums:
                require(np.array_equal(um.x[0], np.eye(3)), "initial deformation")
                require(np.array_equal(um.x[-1], np.zeros(n)), f"initial state variables {um.x[-1]!r} for nstatevars={n}")
            # other numbers of state variables at the same time
            other = m.SPACES[case["space"]](framework(case["fw"], base(case["fw"]), nstatevars=n + 1))
            require(other.x[-1].shape == (n + 1,) and ums[0].x[-1].shape == (n,), "initial state variables of different materials")
            sv = ums[0].gradient(ums[0].x)[1]
            require(np.array_equal(sv, np.zeros(n)), "state variables of a stateless model")
            # the initial state of one material is set: others keep theirs, also those created later
            ums[0].x[-1][...] = 1.5
            later = m.SPACES[case["space"]](framework(case["fw"], base(case["fw"]), nstatevars=n))
            require(not later.x[-1].any(), "initial state variables of a material created later")
            if not share:
                require(not ums[1].x[-1].any(), "initial state variables of another material")
            sv = ums[0].gradient(ums[0].x)[1]
            require(np.array_equal(sv, np.full(n, 1.5)), "given initial state variables")
            ctx.step(2)
            ctx.state(case, n, share)
        fw = framework(case["fw"], base(case["fw"]))
        require(m.SPACES[case["space"]](fw).x[-1].shape == (0,), "default: no state variables")
    ctx.trace(8)
    ctx.outcome([1])
