"""Stateless exploration of two threads under a controlled scheduler with a scheduling point in
front of every executed library line: all schedules with one preemption for all ordered
pairs of 15 kinds of jobs (3 frameworks x 3 spaces, user and automatic-differentiation
models, options, load-case simulations, tensor math) with different parameters and
deformations, stress and elasticity, equal and different batch shapes (quick: every line
for jobs of equal kind, every third line for jobs of different kind); schedules with two
preemptions (thread 1 stops after i lines, thread 2 after j lines, thread 1 ends, thread 2
ends) for jobs of equal kind (thorough: every i and j, and a grid for different kinds;
quick: the pairs with (i + j) % s = 0, which cover every line of both threads); three
threads with one preemption each on a grid; "first use": the same with one preemption at every
line where the library is imported anew before each schedule (module-level state that is
initialised by the first evaluation). Objects are created inside the threads. Each
thread's results are compared with those it gets alone. A state is one (jobs, schedule)."""
import numpy as np
import torch

import hyperelastic as hel
from hyperelastic import lab, math

from .. import materials as m
from .. import mech
from .. import sched
from ..core import import_library, require
from ..points import ROT_GENERIC

ASSUMPTIONS = ["code outside of the library between two of its source lines (numpy, torch, scipy) is atomic",
               "threads share no material, framework or model object"]


def F(k):
    R, Q = ROT_GENERIC[0], ROT_GENERIC[1]
    a = {0: [np.diag([1.2, 0.9, 1.1]) @ R, np.eye(3)], 1: [Q @ np.diag([0.7, 0.7, 1.6]), np.array([[1.2, 0.1, -0.2], [0.3, 0.9, 0.1], [0, 0.2, 1.1]])],
         2: [np.diag([1.4, 0.8, 0.8]), Q @ np.diag([1.1, 1.3, 0.6]) @ R, np.array([[1, 0.4, 0], [0, 1, 0], [0, 0, 1.0]])]}[k]
    return np.ascontiguousarray(np.moveaxis(np.array(a), 0, -1)).reshape(3, 3, 1, -1)


PAR = {0: (0.5, 1.3, 1.4), 1: (0.8, -2.0, 0.7), 2: (1.1, 3.0, 2.5)}


def material(kind, k):
    a, al, ex = PAR[k]
    fw, sp = kind.split("-")[:2]
    tod = dict(C10=a, C01=0.3 * a, C11=0.02, C20=-0.05 * a, C30=0.01)
    if fw == "inv":
        f = m.framework(["tod", tod, False])
    elif fw == "str":
        f = m.framework(["ogden", [a, 0.3], [al, 1.7]])
    elif fw == "gen":
        f = m.framework(["gen", tod, True, "strain", ex])
    elif fw == "poly":
        f = m.framework(["poly", [[*t[:3], t[3] * a] for t in mech.MIXED], "none"])
    elif fw == "torch":
        W = m.TORCH["full"]
        f = hel.InvariantsFramework(hel.models.invariants.TorchModel(lambda I1, I2, I3, c: c * W(I1, I2, I3), c=a))
    o = dict(force=0, area=None) if kind.endswith("option") else dict(finalize=False) if kind.endswith("total") else {}
    return m.SPACES[sp](f, **o)


def simulation(kind, k):
    a, al, ex = PAR[k]
    lc = {0: lab.Uniaxial, 1: lab.Planar, 2: lab.Biaxial}[k]()

    def mat(**kw):
        return hel.DistortionalSpace(hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(**kw)))

    s = lab.Simulation(lc, np.linspace(0.7, 2.0, 3 + k // 2), ["C10", "C01", "C11"], mat, [a, 0.1, ex])
    return [s.stress(), np.array(s.stress_curve_fit(s.stretch * 1.1, al, a, 0.02))]


def tensors(kind, k):
    f = F(k)
    C = np.ascontiguousarray(np.einsum("kiab,kjab->ijab", f, f)[[0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]])
    D = C[::-1].copy()
    if kind == "math1":
        out = [math.det(C), math.inv(C), math.trace(C), math.dev(C), math.eye(C), math.dot(C, D), math.ddot(C, D), math.astensor(C)]
    elif kind == "math2":
        A = math.cdya(C, D)
        out = [math.dya(C, D), A, math.transpose(A), math.cdya_ik(C, D), math.cdya_il(C, D), math.astensor(A, 4), math.asvoigt(math.astensor(A, 4), 4)]
    else:
        A = math.cdya(C, D)
        out = [math.ddot(A, C, mode=(4, 2)), math.ddot(C, A, mode=(2, 4)), math.ddot(A, A, mode=(4, 4)), *math.eigh(C), *math.eigh(D, fun=np.square),
               math.cdya(C, C), math.triu_from_tril(A[..., 0, 0].copy()), math.tril_from_triu(A[..., 0, 0].copy())]
    return [np.array(x) for x in out]


KINDS = ["inv-def", "inv-dis", "inv-dil", "str-def", "str-dis", "gen-def", "gen-dil", "poly-dis", "torch-def", "inv-def-option", "gen-dis-total", "sim", "math1", "math2", "math3"]


def job(kind, w, k):
    "w: stress or elasticity, k: material parameters and deformation"
    if kind == "sim":
        return simulation(kind, k)
    if kind.startswith("math"):
        return tensors(kind, k)
    um = material(kind, k)
    f = F(k)
    if w == "stress":
        out = um.gradient([f, None])[0]
    elif w == "elasticity":
        out = um.hessian([f, None])[0]
    else:  # two evaluations: the thread's objects keep intermediates
        return [um.gradient([f, None])[0], um.hessian([f, None])[0]]
    require(np.array_equal(f, F(k)), "arguments modified")
    return [out]


def cases(ctx):
    out = []
    plain = lambda a: a == "sim" or a.startswith("math")
    for a in KINDS:
        for b in KINDS:
            for w in ("stress", "elasticity"):
                if plain(a) and plain(b) and w == "elasticity":
                    continue
                if ctx.quick and a != b and (w == "stress") != (plain(a) and plain(b)):
                    continue
                for k in (1, 2):
                    if ctx.quick and a != b and k != 1:
                        continue
                    out.append(dict(kind="one", a=a, b=b, w=w, shape=k, step=1 if a == b or not ctx.quick else 3))
    for a in KINDS:
        for w in ("stress", "elasticity"):
            if w == "elasticity" and (a == "sim" or a.startswith("math")):
                continue
            for k in (1, 2):
                parts = 2 if ctx.quick else 16
                for part in range(parts):
                    out.append(dict(kind="two", a=a, b=a, w=w, shape=k, part=part, parts=parts))
    for a in ("math1", "math2", "math3", "inv-def", "str-dis"):
        out.append(dict(kind="three", a=a, w="stress"))
    for a in KINDS:
        for w in ("stress", "elasticity") if not plain(a) else ("stress",):
            out.append(dict(kind="first", a=a, b=a, w=w, shape=1))
    if not ctx.quick:
        for a in KINDS:
            for b in KINDS:
                if a != b:
                    out.append(dict(kind="first", a=a, b=b, w="stress", shape=1))
                if a < b:
                    out.append(dict(kind="two", a=a, b=b, w="stress", shape=1, part=0, parts=1, grid=6))
    # the longest first
    return out


_codes = {}


def fresh():
    "import the library anew: as in a process that did not use it so far"
    import importlib.machinery as im
    import sys

    global hel, lab, math
    old = im.SourceFileLoader.get_code

    def get_code(self, name):
        if not name.startswith("hyperelastic"):
            return old(self, name)
        if name not in _codes:
            _codes[name] = old(self, name)
        return _codes[name]

    im.SourceFileLoader.get_code = get_code
    try:
        for k in [k for k in sys.modules if k.split(".")[0] == "hyperelastic"]:
            del sys.modules[k]
        import hyperelastic

        import_library()
        hel, lab, math = hyperelastic, hyperelastic.lab, hyperelastic.math
        m.hel = hel
        m.SPACES = {"def": hel.DeformationSpace, "dis": hel.DistortionalSpace, "dil": hel.DilatationalSpace}
    finally:
        im.SourceFileLoader.get_code = old


_alone = {}


def alone(kind, w, k):
    key = (kind, w, k)
    if key not in _alone:
        r, n, _ = sched.execute([lambda: job(kind, w, k)], [])
        _alone[key] = [np.array(x) for x in r[0]], n[0]
    return _alone[key]


def judge(res, want, what):
    for t, (r, w) in enumerate(zip(res, want)):
        require(len(r) == len(w), what)
        for x, y in zip(r, w):
            x = np.asarray(x)
            ok = x.shape == y.shape and bool(np.all(np.abs(x - y) <= 1e-12 * max(np.abs(y).max(), 1e-300)))
            require(ok, f"thread {t} gets another result than alone under the schedule {what}")


def explore(ctx, case, jobs, plans):
    want, n = zip(*[alone(*j) for j in jobs])
    free = 0
    for plan in plans:
        if case["kind"] == "first":
            fresh()
        try:
            res, counts, followed = sched.execute([lambda j=j: job(*j) for j in jobs], plan)
        except Exception as e:  # noqa
            require(False, f"{type(e).__name__}: {e} under the schedule {plan} of {jobs}")
        judge(res, want, f"{plan} of {jobs}")
        free += not followed
        ctx.state(jobs, plan)
        ctx.trace()
        ctx.step(sum(counts))
        if free > 3:
            ctx.cap("threads wait for each other: schedules beyond the first blocked ones not explored")
            break
    ctx.count("schedules_not_followed", free)
    ctx.outcome(np.concatenate([np.ravel(x)[:3] for x in want[0]]))


def run(case, ctx):
    torch.set_default_dtype(torch.float64)
    w = case["w"]
    if case["kind"] == "three":
        a = case["a"]
        jobs = [(a, w, 0), (a, w, 1), (a, w, 2)]
        n = [alone(*j)[1] for j in jobs]
        st = [max(1, x // (7 if ctx.quick else 14)) for x in n]
        plans = [[(0, i), (1, j), (2, k)] for i in range(1, n[0], st[0]) for j in range(1, n[1], st[1]) for k in range(1, n[2], st[2])]
        explore(ctx, case, jobs, plans)
        return
    jobs = [(case["a"], w, 0), (case["b"], w, case["shape"])]
    n1, n2 = (alone(*j)[1] for j in jobs)
    if case["kind"] == "first":
        fresh()
        n1 = sched.execute([lambda: job(*jobs[0])], [])[1][0]
    if case["kind"] in ("one", "first"):
        # the other order is the case with a and b exchanged
        plans = [[(0, i), (1, sched.INF)] for i in range(1, n1, case.get("step", 1))]
    else:
        g = case.get("grid", 1)
        ii, jj = range(1, n1, g), range(1, n2, g)
        if ctx.quick and n1 * n2 > 450:
            # every i with 1/s of the j (shifting), every j with 1/s of the i
            s = max(1, n1 * n2 // 450)
            plans = [[(0, i), (1, j)] for i in ii for j in jj if (i + j) % s == 0]
        else:
            plans = [[(0, i), (1, j)] for i in ii for j in jj]
        plans = plans[case["part"] :: case["parts"]]
    explore(ctx, case, jobs, plans)
    ctx.maximum("lines_of_a_thread", max(n1, n2))
    ctx.sample(f"{jobs}: {len(plans)} schedules, e.g. {plans[len(plans) // 2] if plans else None}")
