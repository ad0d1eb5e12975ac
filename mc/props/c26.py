"""Lockstep (bisimulation) exploration of finite-element bodies on the real code: the same
FElupe body is driven once with the library's material and once with a material computed by
the reference model (spectral derivatives of the energy, no shared code). Enumerated: energies x
spaces x bodies (hexahedra, tetrahedra, plane strain, axisymmetric, mixed three-field,
nearly-incompressible) and, for each, every sequence of body operations up to the depth over
{assemble force / stiffness at 2 displacements, assemble again without a new extraction of the
kinematics, stress evaluation, accept the trial state variables, checkpoint, restore,
the same on a second body that shares the material object}. After every operation the assembled
vector or matrix, the stress, elasticity, kinematics and state variables held by the body are
compared. Complete Newton-Raphson jobs (uniaxial, shear, two materials on one field, mixed
fields) are compared including the number of iterations. A state is one (configuration,
history)."""
import itertools

import felupe as fem
import numpy as np

import hyperelastic as hel

from .. import materials as m
from .. import mech, ref
from ..core import require

ASSUMPTIONS = ["FElupe's bodies, fields and solver are trusted (both worlds use the same ones)"]

MIX = [[1, 0, 0, 0.5], [0, 1, 0, 0.2], [0, 0, 1, -0.3], [2, 0, 0, 0.1], [0, 0, 2, 0.6], [0, 1, 1, 0.05]]
SPECS = [
    ["tod", dict(C10=0.5, C20=-0.05, C30=0.02), False],
    ["tod", dict(C10=0.5), False],
    ["poly", MIX, "none"],
    ["poly", MIX, "array"],
    ["torch", "full", "float64"],
    ["ogden", [1.0, 0.3], [1.3, -2.0]],
    ["coup", "e1e2", "none"],
    ["gen", dict(C10=0.5, C01=0.2, C11=0.1), True, "strain", 1.4],
    ["genpoly", MIX, "deformation", 2.0],
]


class RefMaterial:
    "the same energy, by the reference model"

    def __init__(self, spec, space, soft=None):
        self.W = m.energy(spec)[0] if spec else None
        self.spec, self.space, self.soft = spec, space, soft
        self.x = [np.eye(3), np.zeros(2 if soft else 0)]
        self.memo = {}

    def eval(self, F, hess):
        G = np.ascontiguousarray(F)
        key = (G.tobytes(), G.shape)
        r = self.memo.get(key)
        if r is None or (hess and "A" not in r):
            if len(self.memo) > 500:
                self.memo.clear()
            r = ref.principal(self.W, self.space, G.reshape(3, 3, -1), hess)
            self.memo[key] = r
        return r

    def gradient(self, x):
        F, sv = x[0], x[-1]
        P = self.eval(F, False)["P"].reshape(F.shape).copy()
        if self.soft:
            P *= 1 + 0.5 * sv[0]
            sv = self.soft(F, sv)
        return [P, sv]

    def hessian(self, x):
        F, sv = x[0], x[-1]
        A = self.eval(F, True)["A"].reshape(3, 3, *F.shape).copy()
        if self.soft:
            A *= 1 + 0.5 * sv[0]
        return [A]


class Sum:
    "user-defined sum of two materials"

    def __init__(self, a, b):
        self.a, self.b, self.x = a, b, a.x

    def gradient(self, x):
        ga, gb = self.a.gradient(x), self.b.gradient(x)
        return [ga[0] + gb[0], ga[-1]]

    def hessian(self, x):
        return [self.a.hessian(x)[0] + self.b.hessian(x)[0]]


def materials(case):
    "(library, reference)"
    if case.get("soft"):
        from . import c18

        fw = case["soft"]
        o = c18.Oracle.__new__(c18.Oracle)
        o.case = dict(fw=fw, space=case["space"])
        spec = {"str": ["ogden", [1.0, 0.3], [1.3, -2.0]], "inv": ["poly", c18.MIX, "none"], "gen": ["genpoly", c18.MIX, "strain", 1.4]}[fw]

        def rule(F, sv):
            o.F = [F]
            return o.rule(0, sv)

        lib = m.SPACES[case["space"]](c18.framework(fw, c18.Soft(c18.base(fw)), nstatevars=2))
        return lib, RefMaterial(spec, case["space"], rule)
    kw = dict(parallel=True) if case.get("parallel") else {}
    lib, r = m.umat(case["spec"], case["space"], **kw), RefMaterial(case["spec"], case["space"])
    if case.get("with"):
        spec, space = case["with"]
        lib, r = Sum(lib, m.umat(spec, space)), Sum(r, RefMaterial(spec, space))
    return lib, r


# ------------------------------------------------------------------------------- bodies
def fields(body, n=None):
    if body in ("hex", "near", "three"):
        region = fem.RegionHexahedron(fem.Cube(n=n or (3, 2, 2)))
        if body == "three":
            return fem.FieldsMixed(region, n=3)
        return fem.FieldContainer([fem.Field(region, dim=3)])
    if body == "tet":
        mesh = fem.mesh.triangulate(fem.Cube(n=2))
        return fem.FieldContainer([fem.Field(fem.RegionTetra(mesh), dim=3)])
    if body == "hex20":
        mesh = fem.mesh.add_midpoints_edges(fem.Cube(n=2))
        return fem.FieldContainer([fem.Field(fem.RegionQuadraticHexahedron(mesh), dim=3)])
    region = fem.RegionQuad(fem.Rectangle(n=n or (3, 2)))
    if body == "plane":
        return fem.FieldContainer([fem.FieldPlaneStrain(region, dim=2)])
    if body == "planethree":
        return fem.FieldsMixed(region, n=3, planestrain=True)
    if body == "axi":
        return fem.FieldContainer([fem.FieldAxisymmetric(region, dim=2)])
    raise KeyError(body)


def make(body, umat, n=None):
    f = fields(body, n)
    if body == "near":
        return fem.SolidBodyNearlyIncompressible(umat, f, bulk=50.0)
    if body in ("three", "planethree"):
        umat = fem.ThreeFieldVariation(umat)
    return fem.SolidBody(umat, f)


BODIES = ["hex", "tet", "hex20", "plane", "axi", "near", "three", "planethree"]


def displacements(points):
    "a moderate inhomogeneous one, a large homogeneous one with shear, the undeformed state"
    x = points
    dim = x.shape[1]
    a = np.zeros_like(x)
    for i in range(dim):
        a[:, i] = 0.15 * np.sin(1.3 * (i + 1) * x[:, 0] + 0.7 * x[:, -1]) + 0.1 * x[:, i] * x[:, (i + 1) % dim]
    a -= a.min(0) * 0.2
    G = np.array([[0.6, 0.3, -0.1], [0.1, -0.25, 0.2], [0.05, 0.1, 0.3]])[:dim, :dim]
    return [a, x @ G.T, np.zeros_like(x)]


class World:
    def __init__(self, body, umat, nbodies):
        self.solids = [make(body, umat) for _ in range(nbodies)]
        self.u = displacements(self.solids[0].field.region.mesh.points)
        self.cp = [None] * nbodies
        self.near = body == "near"

    def apply(self, op):
        b, name, *k = op
        s = self.solids[b]
        if k:
            s.field[0].values[:] = self.u[k[0]]
        if name == "V":
            return [s.assemble.vector(s.field).toarray()], ["stress", "kinematics"]
        if name == "M":
            return [s.assemble.matrix(s.field).toarray()], ["elasticity", "kinematics"]
        if name == "v":
            return [s.assemble.vector().toarray()], ["stress", "kinematics"]
        if name == "m":
            return [s.assemble.matrix().toarray()], ["elasticity", "kinematics"]
        if name == "cauchy":
            return [s.evaluate.cauchy_stress(s.field)], ["stress"]
        if name == "commit":
            if getattr(s.results, "_statevars", None) is not None:
                s.results.update_statevars()
            return [], ["statevars"]
        if name == "cp":
            self.cp[b] = s.checkpoint()
            return [], []
        if name == "rs":
            if self.cp[b] is not None:
                s.restore(self.cp[b])
            return [], ["statevars"]
        raise KeyError(op)

    def held(self, s):
        out = {}
        for k in ("stress", "elasticity", "kinematics", "statevars", "_statevars", "force"):
            v = getattr(s.results, k, None)
            if v is None or isinstance(v, bool):
                continue
            vs = v if isinstance(v, (list, tuple)) else [v]
            for i, x in enumerate(vs):
                if x is not None:
                    out[k, i] = x.toarray() if hasattr(x, "toarray") else np.asarray(x)
        return out


def agree(a, b, what, tol=1e-9, scale=None):
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    if not b.size:
        return
    s = max(float(np.abs(b).max()), 1e-3) if scale is None else scale
    d = np.abs(a - b)
    require(bool(np.all(d <= tol * s)), f"{what}: differs by {np.nanmax(d):.3e} (size {s:.3e}) or is not a number")


OPS = [(0, "V", 0), (0, "V", 1), (0, "M", 0), (0, "M", 1), (0, "v", 2), (0, "m"), (0, "cauchy"), (0, "commit"), (0, "cp"), (0, "rs"), (1, "V", 1), (1, "M", 0)]


def cases(ctx):
    out = []
    for spec in SPECS:
        for space in m.SPACES:
            for body in BODIES:
                out.append(dict(kind="history", spec=spec, space=space, body=body, depth=1 if ctx.quick else 2))
    for body in BODIES:
        for space in m.SPACES:
            for first in range(len(OPS)):
                out.append(dict(kind="history", spec=SPECS[2], space=space, body=body, depth=2 if ctx.quick else 3, first=first))
    for fw in ("inv", "str", "gen"):
        for space in m.SPACES:
            for first in range(len(OPS)):
                for body in ("hex", "near") if ctx.quick else ("hex", "near", "plane", "three"):
                    out.append(dict(kind="history", soft=fw, space=space, body=body, depth=3 if ctx.quick and body == "hex" else 2 if ctx.quick else 4, first=first))
    vol = ["poly", [[0, 0, 1, 0.4], [0, 0, 2, 2.0]], "none"]
    for spec in SPECS:
        for load in ("uniaxial", "shear"):
            out.append(dict(kind="job", spec=spec, space="def", body="near", load=load))
            out.append(dict(kind="job", spec=spec, space="dis", body="near", load=load))
            for body in ("hex", "plane", "axi", "three", "tet"):
                if body == "axi" and load == "shear":
                    continue
                out.append({"kind": "job", "spec": spec, "space": "dis", "body": body, "load": load, "with": [vol, "dil"]})
            out.append({"kind": "job", "spec": vol, "space": "dil", "body": "hex", "load": load, "with": [spec, "dis"], "parallel": True})
    return out


def run(case, ctx):
    {"history": history, "job": job}[case["kind"]](case, ctx)


def history(case, ctx):
    heads = [OPS[case["first"]]] if "first" in case else OPS
    refmat = None
    for head in heads:
        for tail in itertools.product(OPS, repeat=case["depth"] - 1):
            seq = [head, *tail]
            if case["depth"] > 1 and seq[-1][1] in ("commit", "cp"):
                continue
            lib, r = materials(case)
            if refmat is not None:
                r.memo = refmat.memo
            refmat = r
            two = any(o[0] for o in seq)
            A, B = World(case["body"], lib, 1 + two), World(case["body"], r, 1 + two)
            for n, op in enumerate(seq):
                what = f"{op} (operation {n} of {seq})"
                ra, fresh = A.apply(op)
                rb, _ = B.apply(op)
                for x, y in zip(ra, rb):
                    agree(x, y, what)
                for i, (s, t) in enumerate(zip(A.solids, B.solids)):
                    ha, hb = A.held(s), B.held(t)
                    require(ha.keys() == hb.keys(), f"{what}: results of body {i}: {sorted(ha)} instead of {sorted(hb)}")
                    for k in hb:
                        agree(ha[k], hb[k], f"{what}: {k} held by body {i}")
                ctx.step()
            ctx.state(case, seq)
            ctx.trace()
    ctx.outcome(rb[0] if rb else [len(seq)])
    ctx.sample(f"{case}: {seq}")


def job(case, ctx):
    lib, r = materials(case)
    got = []
    for um in (lib, r):
        solid = make(case["body"], um, n=3 if case["body"] in ("hex", "near", "three", "plane", "axi") else None)
        field = solid.field
        if case["load"] == "uniaxial":
            bounds = fem.dof.uniaxial(field, clamped=True, sym=False, return_loadcase=False)
        else:
            bounds = fem.dof.shear(field, sym=False, return_loadcase=False)
        log = []

        def callback(stepnumber, substepnumber, substep):
            log.append((substep.iterations, substep.x[0].values.copy(), substep.fun.copy()))

        ramp = {bounds["move"]: fem.math.linsteps([0.15, 0.3], num=1)}
        step = fem.Step(items=[solid], ramp=ramp, boundaries=bounds)
        fem.Job(steps=[step], callback=callback).evaluate(verbose=False, tol=1e-10)
        log.append((0, np.array(solid.results.statevars), solid.assemble.vector().toarray()))
        got.append(log)
    require(len(got[0]) == len(got[1]), f"{case}: {len(got[0])} instead of {len(got[1])} substeps")
    for n, (a, b) in enumerate(zip(*got)):
        require(abs(a[0] - b[0]) <= 1, f"{case}: {a[0]} instead of {b[0]} iterations in substep {n}")
        agree(a[1], b[1], f"{case}: displacement in substep {n}", 1e-6)
        agree(np.asarray(a[2]), np.asarray(b[2]), f"{case}: residual in substep {n}", 1e-6, 1.0)
        ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.outcome(got[1][-1][2])
    ctx.sample(f"{case}: iterations {[g[0] for g in got[1][:-1]]}")
