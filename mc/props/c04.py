"""Every tensor helper x batch shapes (12, incl. none and empty; 9 with 1025 .. 20011 points) x memory layouts of each
operand (7: C, Fortran, strided, reversed, stride-0 broadcast, read-only, transposed axes)
x broadcast shape pairs, compared with the value of the same helper at each point alone on
fresh contiguous data; byte-wise comparison of all inputs before and after; all ordered
pairs and (thorough) triples of helper calls with re-evaluation, in-place modification of
results and arguments between the calls; destinations (contiguous, strided, Fortran, NaN
filled, dirty, the input itself) for inv, dya, cdya. A state is one call configuration."""
import itertools

import numpy as np

import hyperelastic.math as hm

from ..core import require

ASSUMPTIONS = ["float64 arrays; both operands of a product have the same number of axes"]

OPS = {
    "asvoigt2": (lambda T: hm.asvoigt(T), ("T2",)),
    "asvoigt4": (lambda T: hm.asvoigt(T, mode=4), ("T4",)),
    "astensor2": (lambda a: hm.astensor(a), ("2",)),
    "astensor4": (lambda a: hm.astensor(a, mode=4), ("4",)),
    "tril": (lambda a: hm.tril_from_triu(a), ("4",)),
    "triu": (lambda a: hm.triu_from_tril(a), ("4",)),
    "trace": (lambda a: hm.trace(a), ("2",)),
    "transpose": (lambda a: hm.transpose(a), ("4",)),
    "det": (lambda a: hm.det(a), ("2",)),
    "inv": (lambda a: hm.inv(a), ("2",)),
    "inv_det": (lambda a, d: hm.inv(a, determinant=d), ("2", "0")),
    "dot": (lambda a, b: hm.dot(a, b), ("2", "2")),
    "eye": (lambda a: hm.eye(a), ("2",)),
    "eye_none": (lambda a: hm.eye(), ("2",)),
    "dev": (lambda a: hm.dev(a), ("2",)),
    "ddot22": (lambda a, b: hm.ddot(a, b), ("2", "2")),
    "ddot24": (lambda a, b: hm.ddot(a, b, mode=(2, 4)), ("2", "4")),
    "ddot42": (lambda a, b: hm.ddot(a, b, mode=(4, 2)), ("4", "2")),
    "ddot44": (lambda a, b: hm.ddot(a, b, mode=(4, 4)), ("4", "4")),
    "dya": (lambda a, b: hm.dya(a, b), ("2", "2")),
    "cdya": (lambda a, b: hm.cdya(a, b), ("2", "2")),
    "cdya_ik": (lambda a, b: hm.cdya_ik(a, b), ("2", "2")),
    "cdya_il": (lambda a, b: hm.cdya_il(a, b), ("2", "2")),
    "eigh": (lambda a: hm.eigh(a), ("2",)),
    "eigh_sqrt": (lambda a: hm.eigh(a, fun=np.sqrt), ("2",)),
}
HEAD = {"0": (), "2": (6,), "4": (6, 6), "T2": (3, 3), "T4": (3, 3, 3, 3)}
SHAPES = [(), (1,), (2,), (3,), (6,), (0,), (2, 3), (3, 3), (6, 6), (3, 1, 2), (1, 6, 3), (2, 0)]
PAIRS = [((2, 1), (1, 3)), ((1,), (4,)), ((3, 1), (3, 3)), ((1, 1), (2, 6)), ((6, 1), (1, 6)), ((1, 3, 1), (2, 1, 2)), ((3,), (1,))]
LAYOUT = {
    "C": lambda x: x,
    "F": lambda x: np.asfortranarray(x) if x.ndim else x,
    "strided": lambda x: np.repeat(x, 2, axis=-1)[..., ::2] if x.ndim else x,
    "reversed": lambda x: np.ascontiguousarray(x[::-1])[::-1] if x.ndim else x,
    "stride0": lambda x: np.broadcast_to(x[..., :1], x.shape) if x.ndim and x.shape[-1] else x,
    "readonly": lambda x: _ro(x),
    "moved": lambda x: np.moveaxis(np.ascontiguousarray(np.moveaxis(x, -1, 0)), 0, -1) if x.ndim else x,
}


def _ro(x):
    y = x.copy()
    y.setflags(write=False)
    return y


def make(kind, shape, seed):
    h = HEAD[kind]
    n = int(np.prod(h + tuple(shape)))
    v = np.array(np.sin(np.arange(n) * 1.37 + seed * 0.71)).reshape((*h, *shape)) * 0.4
    if kind == "2":
        v = v + np.array([2.0, 3.1, 4.3, 0, 0, 0]).reshape(6, *[1] * len(shape))
    if kind == "0":
        v = v + 5
    if kind == "T2":
        v = (v + np.swapaxes(v, 0, 1)) / 2 + np.diag([2.0, 3, 4]).reshape(3, 3, *[1] * len(shape))
    if kind == "T4":
        v = v + np.swapaxes(v, 0, 1)
        v = v + np.swapaxes(v, 2, 3)
    return np.array(v)


def parts(r):
    return list(r) if isinstance(r, tuple) else [r]


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12)


def pointwise(name, args, shape):
    "evaluate every point of the (broadcast) batch on its own"
    fn, kinds = OPS[name]
    args = [np.broadcast_to(a, HEAD[k] + tuple(shape)) for a, k in zip(args, kinds)]
    out = None
    for idx in np.ndindex(*shape):
        r = parts(fn(*[np.array(a[(Ellipsis, *idx)]) if idx else np.array(a) for a in args]))
        if out is None:
            out = [np.zeros((*np.shape(x), *shape)) for x in r]
        for o, x in zip(out, r):
            o[(Ellipsis, *idx) if idx else Ellipsis] = x
    return out


def widen(name, r, args, s):
    "the identity has batch axes of size one; compare it at all points"
    if name == "eye":
        require(np.shape(r[0]) == (6, *[1] * len(s)), f"eye: shape {np.shape(r[0])} for batch {s}")
    if name == "eye_none":
        require(np.shape(r[0]) == (6,), f"eye: shape {np.shape(r[0])} without argument")
        return [np.broadcast_to(r[0].reshape(6, *[1] * len(s)), (6, *s))]
    return [np.broadcast_to(r[0], (6, *s))] if name == "eye" else r


def call(name, args, ctx, what):
    fn, _ = OPS[name]
    before = [a.tobytes() for a in args]
    r = fn(*args)
    for a, b in zip(args, before):
        require(a.tobytes() == b, f"{name} modified its input ({what})")
    ctx.step()
    return parts(r)


def cases(ctx):
    out = []
    for name, (fn, kinds) in OPS.items():
        for s in SHAPES:
            out.append(dict(kind="batch", op=name, shape=s))
        if len(kinds) == 2:
            out.append(dict(kind="broadcast", op=name))
        out.append(dict(kind="history", op=name))
        out.append(dict(kind="large", op=name))
    for s in SHAPES:
        out.append(dict(kind="out", shape=s))
    if not ctx.quick:
        for a in OPS:
            for b in OPS:
                out.append(dict(kind="triples", op=a, second=b))
    return out


def run(case, ctx):
    {"batch": batch, "broadcast": broadcast, "history": history, "large": large, "out": out_, "triples": triples}[case["kind"]](case, ctx)
    ctx.outcome([len(repr(case))])


def batch(case, ctx):
    name, s = case["op"], tuple(case["shape"])
    kinds = OPS[name][1]
    for layouts in itertools.product(LAYOUT, repeat=len(kinds)):
        if s == () and "stride0" in layouts:
            continue  # there is no batch axis to broadcast
        args = [LAYOUT[l](make(k, s, 3 + n)) for n, (k, l) in enumerate(zip(kinds, layouts))]
        what = f"batch {s}, layouts {layouts}"
        r = call(name, args, ctx, what)
        want = pointwise(name, args, s)
        r = widen(name, r, args, s)
        if want is not None:
            require(len(r) == len(want), f"{name}: {what}")
            for x, y in zip(r, want):
                require(close(x, y), f"{name}: batched result differs from the points on their own ({what})")
        else:
            for x in r:
                require(np.shape(x)[len(np.shape(x)) - len(s):] == s, f"{name}: shape of an empty batch ({what})")
        ctx.states(max(int(np.prod(s)), 1), case, layouts)
        ctx.trace()
    # one object for both operands
    if len(kinds) == 2 and kinds[0] == kinds[1]:
        a = make(kinds[0], s, 5)
        r = call(name, [a, a], ctx, "one object twice")
        r2 = call(name, [a, a.copy()], ctx, "equal operands")
        for x, y in zip(r, r2):
            require(close(x, y), f"{name}: one object passed twice, batch {s}")
    # mixed magnitudes within one batch
    if len(s) and int(np.prod(s)) > 1 and name not in ("inv_det",):
        fac = 10.0 ** (np.arange(int(np.prod(s))) % 7 * 3 - 9).reshape(s)
        args = [make(k, s, 8 + n) * fac for n, k in enumerate(kinds)]
        r = widen(name, call(name, args, ctx, "mixed magnitudes"), args, s)
        want = pointwise(name, args, s)
        for x, y in zip(r, want):
            ax = tuple(range(np.ndim(y) - len(s)))
            sc = np.abs(y).max(axis=ax) if ax else np.abs(y)
            if name in ("eye", "eye_none"):
                sc = 1
            require(np.shape(x) == np.shape(y) and np.all(np.abs(x - y) <= 1e-12 * sc + 0), f"{name}: batch of mixed magnitudes {s}")
    ctx.sample(f"{name} on batch shape {s}, all layout combinations")


BIG = [(1025,), (5003,), (20011,), (71, 73), (3, 1700), (1700, 3), (2, 3, 999), (999, 3, 2), (11, 12, 13, 6)]


def large(case, ctx):
    "batches of many points: every point as in a batch of seven points that is repeated"
    name = case["op"]
    kinds = OPS[name][1]
    few = [make(k, (7,), 4 + n) for n, k in enumerate(kinds)]
    base = pointwise(name, few, (7,))
    for s in BIG:
        n = int(np.prod(s))
        for at in (np.arange(n) % 7, (np.arange(n) * 7 // n), np.where(np.arange(n) == n - 1, 3, 0)):
            at = at.reshape(s)
            for layout in ("C", "F", "strided"):
                args = [LAYOUT[layout](f[..., at]) for f in few]
                what = f"batch {s}, layout {layout}"
                r = widen(name, call(name, args, ctx, what), args, s)
                require(len(r) == len(base), f"{name}: {what}")
                for x, y in zip(r, base):
                    require(close(x, y[..., at]), f"{name}: batched result differs from the points on their own ({what})")
                ctx.states(n, case, s, layout, int(at.ravel()[-1]), int(at.ravel()[1]))
                ctx.trace()
    ctx.sample(f"{name} on up to 20011 points")


def broadcast(case, ctx):
    name = case["op"]
    kinds = OPS[name][1]
    for s1, s2 in PAIRS + ([((3, 3), (3,)), ((3, 3), (3, 1)), ((3, 3), (1, 3)), ((2, 3, 3), (3, 3)), ((2, 3), ()), ((3, 3, 3), (3,))] if name == "inv_det" else []):
        for l1, l2 in itertools.product(LAYOUT, repeat=2):
            args = [LAYOUT[l](make(k, s, 11 + n)) for n, (k, s, l) in enumerate(zip(kinds, (s1, s2), (l1, l2)))]
            if name == "inv_det" and np.broadcast_shapes(s1, s2) != s1:
                args[1] = LAYOUT[l2](make("0", tuple(1 for _ in s1), 4))
            s = np.broadcast_shapes(*[a.shape[len(HEAD[k]):] for a, k in zip(args, kinds)])
            what = f"broadcast {s1} with {s2}, layouts {l1} {l2}"
            r = call(name, args, ctx, what)
            want = pointwise(name, args, s)
            for x, y in zip(r, want):
                require(close(x, y), f"{name}: {what}")
            ctx.states(int(np.prod(s)), case, s1, s2, l1, l2)
            ctx.trace()


def history(case, ctx):
    name = case["op"]
    fn, kinds = OPS[name]
    for s in [(), (3,), (2, 3)]:
        x1 = [make(k, s, 1 + n) for n, k in enumerate(kinds)]
        base = parts(fn(*[a.copy() for a in x1]))
        base = [np.array(b) for b in base]
        for other, (g, gk) in OPS.items():
            for s2 in {s, (4,)}:
                y = [make(k, s2, 20 + n) for n, k in enumerate(gk)]
                r1 = call(name, x1, ctx, "history")
                r2 = call(other, y, ctx, "history")
                for a, b in zip(r1, base):
                    require(close(a, b), f"{name}: earlier result changed by a later call of {other} (batch {s}, {s2})")
                for a in r2:  # the caller may modify what he got
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = 77.0
                r3 = call(name, x1, ctx, "history")
                for a, b in zip(r3, base):
                    require(close(a, b), f"{name}: result depends on a previous call of {other} (batch {s}, {s2})")
                ctx.state(name, other, s, s2)
                ctx.trace()
        # the caller modifies the result, then calls again (also with other batch shapes)
        for s2 in (s, (4,), (2, 3), ()):
            y = [make(k, s2, 1 + n) for n, k in enumerate(kinds)]
            keep = [a.copy() for a in y]
            first = [np.array(a) for a in call(name, y, ctx, "again")]
            for a in parts(fn(*y)):
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = -55.0
            for a, b in zip(y, keep):  # conversions may return views of their input
                a[...] = b
            for a, b in zip(call(name, y, ctx, "again"), first):
                require(close(a, b), f"{name}: result depends on what the caller did with an earlier result, batch {s2}")
            for a, b in zip(call(name, x1, ctx, "again"), base):
                require(close(a, b), f"{name}: result depends on what the caller did with an earlier result, batch {s} after {s2}")
            ctx.state(name, "again", s, s2)
        # the caller modifies its own arrays between two calls
        z = [a.copy() for a in x1]
        call(name, z, ctx, "reuse")
        for a, k in zip(z, kinds):
            a[...] = make(k, s, 31)
        r = call(name, z, ctx, "reuse")
        want = parts(fn(*[a.copy() for a in z]))
        for a, b in zip(r, want):
            require(close(a, b), f"{name}: stale result after the argument was modified in place")
        ctx.state(name, "reuse", s)


def triples(case, ctx):
    a, b = case["op"], case["second"]
    fa, ka = OPS[a]
    fb, kb = OPS[b]
    s = (2, 3)
    xa = [make(k, s, 1 + n) for n, k in enumerate(ka)]
    base = [np.array(x) for x in parts(fa(*[x.copy() for x in xa]))]
    for c, (fc, kc) in OPS.items():
        ra = call(a, xa, ctx, "triples")
        rb = call(b, [make(k, s, 40 + n) for n, k in enumerate(kb)], ctx, "triples")
        cb = [np.array(x) for x in rb]
        call(c, [make(k, s, 60 + n) for n, k in enumerate(kc)], ctx, "triples")
        for x, y in zip(ra, base):
            require(close(x, y), f"{a}: result changed after {b}, {c}")
        for x, y in zip(rb, cb):
            require(close(x, y), f"{b}: result changed after {c}")
        for x, y in zip(call(a, xa, ctx, "triples"), base):
            require(close(x, y), f"{a}: depends on {b}, {c}")
        ctx.state(a, b, c)
        ctx.trace()


def dests(shape):
    yield "zeros", np.zeros(shape)
    yield "nan", np.full(shape, np.nan)
    yield "dirty", np.full(shape, -123.0)
    yield "fortran", np.asfortranarray(np.full(shape, 7.0))
    yield "strided", np.full((*shape[:-1], shape[-1] * 2), 3.0)[..., ::2]
    yield "front", np.full((shape[0] * 2, *shape[1:]), 3.0)[::2]


def out_(case, ctx):
    s = tuple(case["shape"])
    a, b = make("2", s, 2), make("2", s, 9)
    d = hm.det(a)
    for name, fn, shape in [
        ("inv", lambda o: hm.inv(a, out=o), (6, *s)),
        ("inv with determinant", lambda o: hm.inv(a, determinant=d, out=o), (6, *s)),
        ("dya", lambda o: hm.dya(a, b, out=o), (6, 6, *s)),
        ("dya same", lambda o: hm.dya(a, a, out=o), (6, 6, *s)),
        ("cdya", lambda o: hm.cdya(a, b, out=o), (6, 6, *s)),
        ("cdya same", lambda o: hm.cdya(a, a, out=o), (6, 6, *s)),
    ]:
        want = np.array(fn(None))
        for kind, o in dests(shape):
            ba, bb, bd = a.tobytes(), b.tobytes(), np.asarray(d).tobytes()
            r = fn(o)
            require(r is o, f"{name}: the destination ({kind}) is not what is returned, batch {s}")
            require(close(o, want), f"{name}: destination ({kind}) does not hold the result, batch {s}")
            require((ba, bb, bd) == (a.tobytes(), b.tobytes(), np.asarray(d).tobytes()), f"{name}: input modified")
            # later calls do not touch it
            fn(None)
            fn(np.zeros(shape))
            require(close(o, want), f"{name}: destination overwritten by a later call")
            ctx.step(3)
            ctx.state(name, kind, s)
            ctx.trace()
    # the destination is the input
    for det_ in (False, True):
        x = a.copy()
        want = hm.inv(a)
        r = hm.inv(x, determinant=hm.det(a) if det_ else None, out=x)
        require(r is x and close(x, want), f"inv: destination is the input, batch {s}, determinant supplied {det_}")
        ctx.state("inv alias", det_, s)
        ctx.step()
    # the destination of the index-swapped products must not influence the result
    for name, fn in [("cdya_ik", hm.cdya_ik), ("cdya_il", hm.cdya_il)]:
        want = fn(a, b)
        for kind, o in dests((6, 6, *s)):
            require(close(fn(a, b, out=o), want), f"{name}: result with destination ({kind}), batch {s}")
            ctx.step()
            ctx.state(name, kind, s)
    # broadcast operands
    if len(s) == 2 and all(s):
        a1, b1 = make("2", (s[0], 1), 4), make("2", (1, s[1]), 6)
        for name, fn in [("dya", hm.dya), ("cdya", hm.cdya)]:
            want = np.array(fn(a1, b1))
            for kind, o in dests((6, 6, *s)):
                r = fn(a1, b1, out=o)
                require(r is o and close(o, want), f"{name}: broadcast operands, destination {kind}")
                ctx.step()
    # a destination of a larger shape: "a shape that the inputs broadcast to"
    ones = [k for k in itertools.product((0, 1), repeat=len(s)) if any(k)] if 0 < len(s) < 4 and all(s) else []
    for which in ones:
        t = tuple(1 if w else n for w, n in zip(which, s))
        big = tuple(3 if w and n == 1 else n for w, n in zip(which, s))
        a1, b1 = make("2", t, 4), make("2", t, 6)
        for name, fn, shape in [("inv", lambda o: hm.inv(a1, out=o), (6, *big)), ("inv with determinant", lambda o: hm.inv(a1, determinant=hm.det(a1), out=o), (6, *big)),
                                ("dya", lambda o: hm.dya(a1, b1, out=o), (6, 6, *big)), ("dya same", lambda o: hm.dya(a1, a1, out=o), (6, 6, *big)),
                                ("cdya", lambda o: hm.cdya(a1, b1, out=o), (6, 6, *big)), ("cdya same", lambda o: hm.cdya(a1, a1, out=o), (6, 6, *big))]:
            want = np.broadcast_to(np.array(fn(None)), shape)
            for kind, o in dests(shape):
                ba, bb = a1.tobytes(), b1.tobytes()
                r = fn(o)
                require(r is o and close(o, want), f"{name}: operands of shape {t}, destination ({kind}) of the larger shape {big}")
                require((ba, bb) == (a1.tobytes(), b1.tobytes()), f"{name}: input modified")
                ctx.step()
                ctx.state(name, kind, t, big)
                ctx.trace()
