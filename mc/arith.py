"""Arithmetic of coefficient objects (C08) and patterns (C09): all operators, operand kinds, orders and shape
pairs, and all short sequences of operations on shared objects, against plain arrays."""
import functools
import operator
import numpy as np
from mc import lib, ref
from mc.engine import short

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}
OTHER = ["string", "none", "list", "tuple", "dict", "object", "array right", "bytes"]
NUMBERS = [2, -3, True, 0.5, -1.25e-7, 2.5e9, 1 - 2j, 1j, np.float64(-0.75), np.complex128(0.5 + 1j), np.int64(7),
           np.float32(0.3), np.complex64(0.3 - 1j), np.uint8(200), 2 ** 62]
LEFT_ZERO = [0, 0.0, 0j]
ZEROS = [0, 0.0, -0.0, 0j, False, np.float64(0), np.complex128(0), np.int64(0)]


class Model(object):
    """comps: list of arrays (coefficients in mode order, or samples). sym: the double sphere is determined by them."""

    def __init__(self, kind, shape, comps, sym=True):
        self.kind, self.shape, self.comps, self.sym = kind, shape, comps, sym

    def clone(self):
        return Model(self.kind, self.shape, [c.copy() for c in self.comps], self.sym)


def two(kind):
    return kind in ("vcoef", "vpatt")


def iscoef(kind):
    return kind in ("scoef", "vcoef")


@functools.lru_cache(maxsize=32)
def generic_comps(kind, shape, j):
    comps = []
    for k in range(2 if two(kind) else 1):
        if iscoef(kind):
            a = lib.vecof(ref.dense(shape[0], shape[1], j + 5 * k), shape[0], shape[1])
            a = a + np.where(np.abs(a) < 0.05, 0.5, 0)
            if two(kind):
                a[0] = 0
        else:
            a = lib.generic_array(shape[0], shape[1], j + 5 * k)
            a = a + np.where(np.abs(a) < 0.05, 0.5, 0)
            a = lib.consistent_vector(a) if two(kind) else lib.consistent_scalar(a)
        comps.append(a)
    return comps


def make(kind, shape, j=0, mag=1.0):
    """A library object of generic values and its model."""
    sp = lib.sp
    comps = [a * mag for a in generic_comps(kind, shape, j)]
    if kind == "scoef":
        o = sp.ScalarCoefs(comps[0].copy(), *shape)
    elif kind == "vcoef":
        o = sp.VectorCoefs(comps[0].copy(), comps[1].copy(), *shape)
    elif kind == "spatt":
        o = sp.ScalarPatternUniform(comps[0].copy())
    else:
        o = sp.TransversePatternUniform(comps[0].copy(), comps[1].copy())
    return o, Model(kind, shape, comps)


def cls(kind):
    sp = lib.sp
    return {"scoef": sp.ScalarCoefs, "vcoef": sp.VectorCoefs, "spatt": sp.ScalarPatternUniform,
            "vpatt": sp.TransversePatternUniform}[kind]


def compare(ctx, o, M, what, tol=1e-13):
    kind = M.kind
    ctx.check(type(o) is cls(kind), lambda: "%s: result is a %s" % (what, type(o).__name__))
    if iscoef(kind):
        parts = [o.scoef1, o.scoef2] if two(kind) else [o]
        ctx.check(all((p.nmax, p.mmax) == M.shape for p in [o] + parts), lambda: "%s: size (%d,%d)" % (what, o.nmax, o.mmax))
        got = [lib.cvec(p) for p in parts]
        want = M.comps
    else:
        ctx.check(tuple(o.shape) == M.shape, lambda: "%s: shape %r, expected %r" % (what, o.shape, M.shape))
        if M.sym:
            got = list(o.doublesphere) if two(kind) else [o.doublesphere]
            want = [ref.double(c, -1 if two(kind) else 1) for c in M.comps]
            compare_arrays(ctx, list(o.array) if two(kind) else [o.array], M.comps, what, tol)
        else:
            got = [o.theta, o.phi] if two(kind) else [o.array]
            want = M.comps
    compare_arrays(ctx, got, want, what, tol)
    if kind == "vcoef":
        ctx.check(got[0][0] == 0 and got[1][0] == 0, lambda: "%s: the n=0 entry is %r" % (what, (got[0][0], got[1][0])))
    ctx.op()
    return got


def compare_arrays(ctx, got, want, what, tol):
    for k, (g, w) in enumerate(zip(got, want)):
        g = np.asarray(g)
        ctx.check(g.shape == w.shape, lambda: "%s: component %d has shape %r, expected %r" % (what, k, g.shape, w.shape))
        if np.array_equal(g, w):
            continue
        ok = np.isfinite(w)
        scale = np.max(np.abs(np.where(ok, w, 0))) if w.size else 0
        d = np.abs(np.where(ok, g, 0) - np.where(ok, w, 0))
        bad = ~(d <= tol * np.abs(np.where(ok, w, 0)) + tol * 1e-3 * scale)
        bad |= ~ok & np.isfinite(g)     # e.g. a quotient by zero
        ctx.check(not bad.any(), lambda: "%s: component %d at %s is %r, expected %r" % (
            what, k, [int(i[0]) for i in np.nonzero(bad)], g[bad][0], w[bad][0]))


def other(name):
    return {"string": "2", "none": None, "list": [1.0, 2.0], "tuple": (1.0, 2.0), "dict": {}, "object": object(),
            "array right": np.array([1.0, 2.0]), "bytes": b"1"}[name]


def expected(op, l, r, kind, shape, sym_l=True, sym_r=True):
    """Model of the result; l, r are Models or numbers."""
    with np.errstate(all="ignore"):
        n = len(l.comps) if isinstance(l, Model) else len(r.comps)
        L = l.comps if isinstance(l, Model) else [l] * n
        R = r.comps if isinstance(r, Model) else [r] * n
        out = []
        for a, b in zip(L, R):
            c = OPS[op](a, b)
            c = np.where(np.isfinite(c), c, np.nan)
            if kind == "vcoef":
                c[0] = 0
            out.append(c)
    sym = all(x.sym for x in (l, r) if isinstance(x, Model))
    if kind == "vpatt":
        both = isinstance(l, Model) and isinstance(r, Model)
        sym = sym and ((both and op in "+-") or (not both and op in "*/" and isinstance(l, Model)) or (op == "*" and not both))
    return Model(kind, shape, out, sym)


def shapes(kinds, tier, small=False):
    q = tier == "quick"
    if kinds == "coef":
        top = (5 if q else 8) if small else (8 if q else 12)
        return [(n, m) for n in range(top) for m in range(n + 1)]
    R, C = ((5, 6) if q else (9, 12)) if small else ((7, 10) if q else (10, 16))
    return [(r, c) for r in range(2, R + 1) for c in range(2, C + 1, 2)]


BIG = {"coef": [(66, 66), (130, 20), (300, 2)], "patt": [(66, 132), (5, 514), (300, 4), (130, 16)]}
BIGGER = {"coef": [(300, 300), (1030, 1)], "patt": [(260, 514), (1030, 2), (2, 4098)]}


def units(kinds, tier):
    q = tier == "quick"
    names = ("scoef", "vcoef") if kinds == "coef" else ("spatt", "vpatt")
    for kind in names:
        for s in shapes(kinds, tier):
            yield ["same", kind, s[0], s[1]]
            yield ["number", kind, s[0], s[1]]
            yield ["mismatch", kind, s[0], s[1], tier]
            if s[0] <= 4 and s[1] <= 6:
                yield ["structured", kind, s[0], s[1]]
        for s in BIG[kinds] + ([] if q else BIGGER[kinds]):
            yield ["same", kind, s[0], s[1]]
            yield ["number", kind, s[0], s[1]]
        for s in shapes(kinds, tier, True)[:8]:
            yield ["type", kind, s[0], s[1]]
        seq3 = [(2, 1), (1, 1)] if kinds == "coef" else [(3, 4), (2, 2)]
        for s in seq3:
            for first in range(len(alphabet(kind))):
                yield ["sequence", kind, s[0], s[1], 3, first]
        if not q:
            s = seq3[0]
            for first in range(len(alphabet(kind))):
                for second in range(len(alphabet(kind))):
                    yield ["sequence", kind, s[0], s[1], 4, first, second]


def cost(u):
    return 10 ** u[4] if u[0] == "sequence" else 1 + u[2] * u[3] // 20


# ------------------------------------------------------------------------------------ sequences
X = 1.5 - 0.5j


def alphabet(kind):
    ops = []
    for op in "+-*/":
        for l, r in (("a", "b"), ("b", "a"), ("a", "a"), ("a", "x"), ("x", "b"), ("x", "a")):
            ops.append(("bin", op, l, r))
        ops.append(("inplace", op, "a", "b"))
        ops.append(("inplace", op, "b", "x"))
    ops += [("swap",), ("alias",)]
    if iscoef(kind):
        ops += [("set", "a"), ("set", "b"), ("window", "a"), ("copy",)]
    ops += [("reject zero",), ("reject size",), ("reject type",)]
    return ops


def run_sequence(ctx, u):
    kind, shape, depth = u[1], (u[2], u[3]), u[4]
    fixed = u[5:]
    ops = alphabet(kind)
    slot, mod = {}, {}
    slot["a"], mod["a"] = make(kind, shape, 0)
    slot["b"], mod["b"] = make(kind, shape, 3)
    keep = []
    for step in range(depth):
        if step < len(fixed):
            op = ops[fixed[step]]
            ctx.note("op", op)
        else:
            op = ctx.choose("op", ops)
        if op[0] in ("bin", "inplace"):
            l = X if op[2] == "x" else slot[op[2]]
            r = X if op[3] == "x" else slot[op[3]]
            want = expected(op[1], mod.get(op[2], X), mod.get(op[3], X), kind, shape)
            got = (OPS if op[0] == "bin" else IOPS)[op[1]](l, r)
            what = "step %d: %s %s %s" % (step, op[2], op[1], op[3])
            for o in list(slot.values()) + [k[0] for k in keep]:
                ctx.check(got is not o, lambda: "%s: the result is an operand or an older object" % what)
            if step == depth - 1 or op[0] == "inplace":
                for o in list(slot.values()) + [k[0] for k in keep]:
                    ctx.check(not lib.share(got, o), lambda: "%s: the result shares its data with an operand or an older object" % what)
            t = op[2] if op[0] == "inplace" else "a"
            keep.append((slot[t], mod[t]))
            slot[t], mod[t] = got, want
        elif op[0] == "swap":
            slot["a"], slot["b"], mod["a"], mod["b"] = slot["b"], slot["a"], mod["b"], mod["a"]
        elif op[0] == "alias":
            keep.append((slot["b"], mod["b"]))
            slot["b"], mod["b"] = slot["a"], mod["a"]
        elif op[0] == "copy":
            keep.append((slot["b"], mod["b"]))
            slot["b"], mod["b"] = slot["a"].copy(), mod["a"].clone()
        elif op[0] == "set":
            n, m = shape
            i = ref.modes(n, m).index((n, -m))
            v = ref.generic(50 + step)
            M = mod[op[1]]
            if kind == "vcoef":
                slot[op[1]][n, -m] = (v, 2 * v)
                M.comps[0][i], M.comps[1][i] = v, 2 * v
            else:
                slot[op[1]][n, -m] = v
                M.comps[0][i] = v
        elif op[0] == "window":
            n, m = shape
            w = np.array([0.5 + 0.25 * k for k in range(n + 1)])
            M = mod["a"]
            if kind == "vcoef":
                slot["a"].scoef2.window(w)
                M.comps[1][:] = M.comps[1] * np.array([w[i] for i, _ in ref.modes(n, m)])
            else:
                slot["a"].window(w)
                M.comps[0][:] = M.comps[0] * np.array([w[i] for i, _ in ref.modes(n, m)])
        elif op[0] == "reject zero":
            rejects(ctx, lambda: slot["a"] / 0, ZeroDivisionError, "a / 0")
        elif op[0] == "reject size":
            o, _ = make(kind, (shape[0] + 1, shape[1]), 4)
            for f in OPS.values():
                rejects(ctx, lambda: f(slot["a"], o), ValueError, "different sizes")
        else:
            for f in OPS.values():
                rejects(ctx, lambda: f(slot["b"], "2"), TypeError, "a string")
    for t in "ab":
        compare(ctx, slot[t], mod[t], "at the end, object %s" % t, 1e-11)
    for i, (o, M) in enumerate(keep):
        compare(ctx, o, M, "object replaced earlier (%d)" % i, 1e-11)
    ctx.observe(*[c for t in "ab" for c in mod[t].comps])


def rejects(ctx, f, exc, what):
    try:
        r = f()
    except exc as e:
        if type(e) is exc:
            return
        raise
    ctx.check(False, lambda: "%s must raise %s, returned %s" % (what, exc.__name__, short(r)))


def run(ctx, u):
    if u[0] == "sequence":
        return run_sequence(ctx, u)
    what, kind = u[0], u[1]
    shape = (u[2], u[3])
    if what == "structured":
        return structured(ctx, kind, shape)
    if what == "type":
        o, M = make(kind, shape, 1)
        op = ctx.choose("operator", list("+-*/"))
        names = OTHER + [k for k in ("scoef", "vcoef", "spatt", "vpatt") if k != kind]
        name = ctx.choose("other operand", names)
        side = ctx.choose("side", ["right"] if name == "array right" else ["right", "left"])
        if name in ("scoef", "vcoef", "spatt", "vpatt"):
            s2 = shape if iscoef(name) == iscoef(kind) else (2, 1) if iscoef(name) else (3, 4)
            x, _ = make(name, s2, 2)
        else:
            x = other(name)
        f = (lambda: OPS[op](o, x)) if side == "right" else (lambda: OPS[op](x, o))
        rejects(ctx, f, TypeError, "%s %s %s (%s)" % (kind, op, name, side))
        compare(ctx, o, M, "operand after the rejection")
        ctx.observe(u, op, name, side)
        return
    if what == "mismatch":
        kinds = "coef" if iscoef(kind) else "patt"
        s2 = ctx.choose("other shape", [s for s in shapes(kinds, u[4]) if s != shape] + ([] if kinds == "coef" else [(shape[0], 1), (2, 1)]))
        op = ctx.choose("operator", list("+-*/"))
        a, A = make(kind, shape, 0)
        b, B = make(kind, s2, 1)
        rejects(ctx, lambda: OPS[op](a, b), ValueError, "%s of sizes %r %s %r" % (kind, shape, op, s2))
        if op == "+":
            compare(ctx, a, A, "left operand after the rejection")
            compare(ctx, b, B, "right operand after the rejection")
        ctx.op()
        ctx.observe(kind, op, shape, s2)
        return
    form = ctx.choose("form", ["plain", "in place"])
    ops = OPS if form == "plain" else IOPS
    op = ctx.choose("operator", list("+-*/"))
    big = shape[0] * shape[1] > 500
    mag = ctx.choose("magnitude", [1.0] if big else [1.0, 1e-120, 1e120])
    a, A = make(kind, shape, 0, mag)
    if what == "same":
        b, B = make(kind, shape, 7, 1e-3 if op in "*/" else mag)
        holes = ctx.choose("zeros", ["none", "right", "left"])
        if holes != "none":
            # every other value zero in one operand
            o, M = make(kind, shape, 7 if holes == "right" else 0, 1e-3 if holes == "right" and op in "*/" else mag)
            for c in M.comps:
                c.flat[::2] = 0
            if not iscoef(kind):
                M.comps = [lib.consistent_vector(c) if two(kind) else lib.consistent_scalar(c) for c in M.comps]
            o = cls(kind)(*([c.copy() for c in M.comps] + (list(shape) if iscoef(kind) else [])))
            if holes == "right":
                b, B = o, M
            else:
                a, A = o, M
        w = expected(op, A, B, kind, shape)
        r = ops[op](a, b)
        compare(ctx, r, w, "%s %s %s" % (kind, op, kind))
        for o in (a, b):
            ctx.check(not lib.share(r, o), "the result shares memory with an operand")
        separate(ctx, r, kind, "%s %s %s" % (kind, op, kind))
        compare(ctx, a, A, "left operand after the operation", 0)
        compare(ctx, b, B, "right operand after the operation", 0)
        if not iscoef(kind) and w.sym and shape[0] > 2 and form == "plain" and mag == 1.0 and holes == "none":
            transforms(ctx, kind, op, a, b, r)
    else:
        side = ctx.choose("number on the", ["right", "left"])
        nums = [2, 1 - 2j] if big else NUMBERS if side == "right" else NUMBERS + LEFT_ZERO
        x = ctx.choose("number", nums + (ZEROS[:2 if big else None] if (op == "/" and side == "right") else ["zero"] if op != "/" and side == "right" else []))
        if isinstance(x, str):
            x = 0
        f = (lambda: ops[op](a, x)) if side == "right" else (lambda: ops[op](x, a))
        if op == "/" and side == "right" and x == 0:
            rejects(ctx, f, ZeroDivisionError, "%s / %r" % (kind, x))
            compare(ctx, a, A, "operand after the rejection", 0)
            ctx.observe(u, repr(x))
            return
        w = expected(op, A, x, kind, shape) if side == "right" else expected(op, x, A, kind, shape)
        r = f()
        compare(ctx, r, w, "%s %s number %r (%s)" % (kind, op, x, side))
        ctx.check(not lib.share(r, a), "the result shares memory with the operand")
        separate(ctx, r, kind, "%s %s number %r (%s)" % (kind, op, x, side))
        compare(ctx, a, A, "operand after the operation", 0)
        if not iscoef(kind) and w.sym and shape[0] > 2 and form == "plain" and mag == 1.0 and side == "right" and op in "*/" and x in (2, 1j):
            transforms(ctx, kind, op, a, x, r)
    ctx.observe(*[np.nan_to_num(c) for c in w.comps])


def structured(ctx, kind, shape):
    """Operands with values in a relation to each other: zero, equal, constant, symmetric."""
    coef = iscoef(kind)
    sets = lib.shaped_sets(*shape) if coef else lib.shaped_arrays(*shape)
    name = ctx.choose("operand", [k for k in sets if " = " not in k or k[:2] == "c["])
    a = lib.vecof(sets[name], *shape) if coef else sets[name]()
    fix = (lambda x: x) if coef else lib.consistent_vector if two(kind) else lib.consistent_scalar
    g = make(kind, shape, 7)[1].comps
    A = list(lib.related(fix(a), g[-1], ctx.choose("components", ["equal", "second zero", "generic"]))) if two(kind) else [fix(a)]
    how = ctx.choose("other operand", ["generic", "equal", "negative", "zero", "ones", "itself"])
    one = fix(np.ones_like(g[0]))
    B = {"generic": g, "equal": A, "negative": [-x for x in A], "zero": [0 * x for x in A], "ones": [one] * len(A), "itself": A}[how]
    A, B = [x.copy() for x in A], [x.copy() for x in B]
    if kind == "vcoef":
        for x in A + B:
            x[0] = 0
    build = lambda X: cls(kind)(*([x.copy() for x in X] + (list(shape) if coef else [])))
    oa = build(A)
    ob = oa if how == "itself" else build(B)
    MA, MB = Model(kind, shape, A), Model(kind, shape, B)
    for op in "+-*/":
        for l, r, L, R in ((oa, ob, MA, MB), (ob, oa, MB, MA)):
            res = OPS[op](l, r)
            what = "%s %s %s" % ((name, op, how) if l is oa else (how, op, name))
            W = expected(op, L, R, kind, shape)
            compare(ctx, res, W, what)
            ctx.check(not lib.share(res, oa) and not lib.share(res, ob) and res is not oa and res is not ob, lambda: "%s: the result shares memory with an operand" % what)
            separate(ctx, res, kind, what)
    compare(ctx, oa, MA, "operand after the operations", 0)
    compare(ctx, ob, MB, "operand after the operations", 0)
    ctx.observe(kind, shape, name, how)


def separate(ctx, r, kind, what):
    """The components of a result are separate arrays."""
    if not two(kind):
        return
    x, y = (lib.arrays_of(r.scoef1), lib.arrays_of(r.scoef2)) if iscoef(kind) else ([r.doublesphere[0]], [r.doublesphere[1]])
    ctx.check(not any(np.shares_memory(s, t) for s in x for t in y), lambda: "%s: the components of the result share memory" % what)


def transforms(ctx, kind, op, a, b, r):
    """The transform of a sum, difference or multiple is that combination of the transforms."""
    sp = lib.sp
    nmax = a.nrows - 2
    mmax = min(nmax, a.ncols // 2 - 1)
    if kind == "spatt":
        if op in "*/" and not isinstance(b, (int, complex)):
            return
        t = lambda p: [lib.cvec(sp.spht(p, nmax, mmax))]
    else:
        def t(p):
            c = sp.vspht(p, nmax, mmax)
            return [lib.cvec(c.scoef1), lib.cvec(c.scoef2)]
    R, L = t(r), t(a)
    B = [b] * len(L) if isinstance(b, (int, complex)) else t(b)
    for k in range(len(L)):
        w = OPS[op](L[k], B[k])
        ctx.check(lib.maxerr(R[k], w) < 1e-12 * (1 + np.max(np.abs(L[k]))),
                  lambda: "transform of the result: " + lib.where(R[k], w))
    ctx.op(3)
