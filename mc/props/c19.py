"""Controlled scheduler in place of the thread pools: (1) for 6 framework / model kinds x 3 spaces x
{finalize} x {force} x {area}, 26 batch shapes (no axis, empty, 1 .. 1056 points, up to
three axes), pool sizes 1, 2, 3, 4, 7 and 16 and the global schedules {first-in-first-out,
last-in-first-out, eager, lazy} (quick: each pool size with one to three of the four); batches of
5003 and 20400 points under three schedules; (2)
for every space and pool size 2..4 every permutation of the chunks of every single parallel
product, all pairs of deviating products (quick, four workers: every 23rd pair of orders),
and preemption of a worker after each of its first 15 (thorough: 59) library lines; (3) histories of evaluations of serial and
parallel objects sharing one framework; (4) the real pools. Stress and elasticity are
compared with the serial object and checked after all pending tasks are drained. A state is
one (configuration, batch shape, pool size, schedule)."""
import itertools
import math

import numpy as np

import hyperelastic as hel

from .. import materials as m
from .. import mech
from .. import sched
from ..core import require
from ..points import pointset

ASSUMPTIONS = ["one numpy.einsum call of a worker is atomic w.r.t. the others (workers write to disjoint, private arrays)"]
SPECS = {"inv": ["tod", mech.TOD, False], "lin": ["tod", dict(C10=0.5), False], "str": ["ogden", [1.0, 0.3], [1.3, -2.0]],
         "gen": ["gen", mech.TOD, True, "strain", 1.4], "poly": ["poly", [[0, 0, 1, 0.4]], "ones"], "torch": ["torch", "full", "float64"]}
SHAPES = [(), (0,), (1,), (2,), (3,), (4,), (5,), (7,), (8,), (17,), (1, 1), (2, 3), (3, 2), (1, 6), (6, 1), (3, 3), (8, 2), (2, 0), (2, 1, 3), (1, 1, 4), (4, 3, 2)]
LARGE = [(65,), (130, 1), (3, 50), (1030,), (33, 4, 8)]
BIG = [(5003,), (3, 1700, 4)]
OPTS = [dict(finalize=f, force=fo, area=a) for f in (True, False) for fo in (None, 0) for a in (None, 0)]
POOLS = (1, 2, 3, 4, 7, 16)


def cases(ctx):
    out = []
    for fw in SPECS:
        for sp in ("def", "dis", "dil"):
            for o in OPTS:
                out.append(dict(kind="shapes", fw=fw, space=sp, **o))
            for o in OPTS[:1] + OPTS[3:4] if ctx.quick else OPTS:
                out.append(dict(kind="big", fw=fw, space=sp, **o))
            for o in OPTS[: 2 if ctx.quick else 4]:
                for n in (2, 3, 4):
                    out.append(dict(kind="schedules", fw=fw, space=sp, workers=n, **o))
            out.append(dict(kind="history", fw=fw, space=sp))
    out += [dict(kind="real", fw=fw) for fw in SPECS]
    return out


def batch(shape):
    F = pointset("tiny" if int(np.prod(shape)) < 30 else "small")[..., 3:]
    n = int(np.prod(shape))
    return np.ascontiguousarray(F[..., np.arange(n) * 3 % F.shape[-1]].reshape(3, 3, *shape))


def evaluate(um, F):
    "stress and elasticity of new objects"
    b = F.tobytes()
    P, A = um.gradient([F, None])[0], um.hessian([F, None])[0]
    require(F.tobytes() == b, "the deformation gradient is modified")
    return P, A


def close(got, want, what):
    for g, w, name in zip(got, want, ("stress", "elasticity")):
        g, w = np.asarray(g), np.asarray(w)
        require(g.shape == w.shape, f"{what}: {name} has shape {g.shape}, serial {w.shape}")
        require(bool(np.all(np.abs(g - w) <= 1e-12 * max(np.abs(w).max() if w.size else 0, 1e-12))), f"{what}: {name} differs from the serial one")


def pair(case, fwpar=True):
    o = {k: case[k] for k in ("finalize", "force", "area") if k in case}
    f = lambda p: m.SPACES[case["space"]](m.framework(SPECS[case["fw"]], parallel=p), parallel=p, **o)
    return f(False), f(True)


def under(p, s, um, F):
    sched.ControlledPool.schedule = s
    got = evaluate(um, F)
    early = [np.array(g) for g in got]
    s.drain()
    require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(early, got)), "results change after they are returned (a worker is still running)")
    return got


def run(case, ctx):
    {"shapes": shapes, "schedules": schedules, "history": history, "real": real, "big": big}[case["kind"]](case, ctx)


def shapes(case, ctx):
    with sched.patched() as p:
        for shape in SHAPES + LARGE:
            F = batch(shape)
            want = evaluate(pair(case)[0], F)
            for n in POOLS if shape in SHAPES else (4,) if ctx.quick else (4, 8):
                p.workers(n)
                for name, kw in (("fifo", {}), ("lifo", dict(order=-1)), ("eager", dict(mode="eager")), ("lazy", dict(mode="lazy"))):
                    if ctx.quick and n not in dict(fifo=(1, 2, 4, 16), lifo=(4,), eager=(3,), lazy=(2, 4))[name]:
                        continue
                    s = sched.Schedule(**kw)
                    got = under(p, s, pair(case)[1], F)
                    close(got, want, f"{case} batch {shape}, {n} workers, {name}")
                    ctx.step(s.tasks)
                    ctx.count("parallel_tasks", s.tasks)
                    ctx.state(case, shape, n, name)
                    ctx.trace()
    ctx.outcome(want[0].ravel()[:9])
    ctx.sample(f"{case}: batch {shape}")


def big(case, ctx):
    with sched.patched() as p:
        for shape in BIG:
            F = batch(shape)
            want = evaluate(pair(case)[0], F)
            for n, kw in ((4, {}), (3, dict(order=-1)), (7, dict(mode="lazy"))):
                p.workers(n)
                s = sched.Schedule(**kw)
                close(under(p, s, pair(case)[1], F), want, f"{case} batch {shape}, {n} workers, {kw}")
                ctx.step(s.tasks)
                ctx.state(case, shape, n, kw)
                ctx.trace()
    ctx.outcome(want[0].ravel()[:9])


def schedules(case, ctx):
    n = case["workers"]
    F = batch((5,))
    with sched.patched() as p:
        p.workers(n)
        want = evaluate(pair(case)[0], F)
        s = sched.Schedule()
        under(p, s, pair(case)[1], F)
        calls = s.waits
        plans = [dict(order=k, call=c) for c in range(calls) for k in range(math.factorial(n))]
        plans += [dict(order=k) for k in range(math.factorial(n))]
        plans += [dict(preempt=k) for k in range(1, 16 if ctx.quick else 60)]
        for kw in plans:
            s = sched.Schedule(**kw)
            close(under(p, s, pair(case)[1], F), want, f"{case} schedule {kw}")
            ctx.state(case, kw)
            ctx.step(s.tasks)
            ctx.trace()
        # two deviating products
        for a, b in itertools.combinations(range(calls), 2):
            for k, l in itertools.product(range(1, math.factorial(n)), repeat=2):
                if ctx.quick and n == 4 and (k + 5 * l) % 23:
                    continue
                s = Two({a: k, b: l})
                close(under(p, s, pair(case)[1], F), want, f"{case} schedule {a}:{k} {b}:{l}")
                ctx.state(case, a, b, k, l)
                ctx.step(s.tasks)
                ctx.trace()
    ctx.maximum("parallel_products", calls)
    ctx.outcome(want[0].ravel()[:9])


class Two(sched.Schedule):
    def __init__(self, orders):
        super().__init__()
        self.orders = orders

    def wait(self, r):
        if not r.finished:
            self.order, self.call = self.orders.get(self.waits), self.waits
        super().wait(r)


def history(case, ctx):
    "serial and parallel objects on one framework, all sequences of length 3"
    A, B = batch((5,)), batch((2, 3))
    fresh = lambda: m.framework(SPECS[case["fw"]])
    mk = m.SPACES[case["space"]]
    with sched.patched() as p:
        p.workers(3)
        want = {k: evaluate(mk(fresh()), F) for k, F in (("A", A), ("B", B))}
        ops = [(par, w, k) for par in (False, True) for w in (0, 1) for k in "AB"]
        for seq in itertools.product(ops, repeat=3):
            for mode in ("block", "lazy"):
                s = sched.ControlledPool.schedule = sched.Schedule(mode=mode)
                fw = fresh()
                um = {False: mk(fw), True: mk(fw, parallel=True)}
                kept = []
                for par, w, k in seq:
                    F = {"A": A, "B": B}[k]
                    got = (um[par].hessian if w else um[par].gradient)([F, None])[0]
                    close([got], [want[k][w]], f"{case}: {seq} at {(par, w, k)}")
                    kept.append((got, np.array(got)))
                s.drain()
                require(all(np.array_equal(a, b) for a, b in kept), f"{case}: earlier results of {seq} changed")
                ctx.state(case, seq, mode)
                ctx.step(3)
                ctx.trace()
    ctx.outcome(want["A"][0].ravel()[:9])


def real(case, ctx):
    "the real thread pools (schedules are up to the machine): conformance of the stand-in"
    for fw in (case["fw"],):
        for sp in ("def", "dis", "dil"):
            for o in OPTS:
                c = dict(fw=fw, space=sp, **o)
                for shape in SHAPES:
                    F = batch(shape)
                    a, b = pair(c)
                    want = evaluate(a, F)
                    close(evaluate(b, F), want, f"{c} batch {shape}, real pool")
                    ctx.step(2)
                    ctx.state("real", c, shape)
                    ctx.trace()
    ctx.outcome([1])
