"""C26 values that are not finite: one or two at every place of every input of every call."""
import numpy as np
from mc import lib, ref, boot, arith
ID = "C26"
LEVEL = "model_checking"
RULE = ("one execution = one call on data with one or two values that are not finite (nan, +-inf, in either part) at one place or pair "
        "of places, or with a number that is not finite; the result is compared, place by place where places correspond, with "
        "where the value must show and with the values of all other places")
BOUNDS = {"quick": "coefficients nmax <= 4 and patterns to 5 x 8: 4 or 8 values at every place, all pairs of places for nmax <= 2 and patterns to 4 x 4; both back ends; 8 large shapes (places at the edges and in the middle); Bessel functions to order 40; sequences of 3 operations",
          "thorough": "coefficients nmax <= 6 and patterns to 8 x 10: 8 values at every place, all pairs of places for nmax <= 3 and patterns to 6 x 6; both back ends; 8 large shapes (places at the edges and in the middle); Bessel functions to order 200; sequences of 4 operations"}
ASSUMPTIONS = ["division by values that are not finite is not judged", "the n=0 entries of vector coefficients are not part of the data",
               "Bessel functions of infinity are not judged"]
HANG_S = 120
NAN, INF = float("nan"), float("inf")
BAD = [NAN, INF, -INF, complex(0, NAN), complex(0, INF), complex(NAN, INF), complex(1, -INF), complex(INF, INF)]
NUM = [NAN, INF, -INF, complex(0, NAN), complex(1, INF), np.float64(NAN), np.complex128(complex(NAN, 1))]


def setup(tier):
    lib.setup()


def units(tier):
    q = tier == "quick"
    N, R, C = (4, 5, 8) if q else (6, 8, 10)
    N2, R2, C2 = (2, 4, 4) if q else (3, 6, 6)
    for kind in ("scoef", "vcoef"):
        for n in range(1 if kind == "vcoef" else 0, N + 1):
            for m in range(n + 1):
                for g in ("transform", "measure", "arith", "access"):
                    yield ["one", kind, n, m, g, q and g in ("arith", "measure")]
                    if n <= N2 and n + m:
                        yield ["two", kind, n, m, g, q]
    for kind in ("spatt", "vpatt"):
        for r in range(3, R + 1):
            for c in range(2, C + 1, 2):
                for g in ("transform", "measure", "arith", "access"):
                    yield ["one", kind, r, c, g, q and g in ("arith", "measure")]
                    if r <= R2 and c <= C2:
                        yield ["two", kind, r, c, g, q]
    for kind in ("scoef", "vcoef"):
        for s in ((40, 40), (120, 3)):
            for g in ("transform", "measure", "arith", "access"):
                yield ["large", kind, s[0], s[1], g]
    for kind in ("spatt", "vpatt"):
        for s in ((42, 80), (130, 6)):
            for g in ("transform", "measure", "arith", "access"):
                yield ["large", kind, s[0], s[1], g]
    for kind, s in (("scoef", (2, 1)), ("vcoef", (2, 2)), ("spatt", (4, 4)), ("vpatt", (4, 6))):
        yield ["history", kind, s[0], s[1], 3 if q else 4]
    for n in (1, 2, 3, 10, 40) if q else (1, 2, 3, 10, 40, 100, 200):
        yield ["bessel", "", n, 0, ""]


def cost(u):
    n = u[2] * u[3] + 1
    return {"one": 20 * n, "two": 15 * n * n, "large": 30 * n, "history": 4000, "bessel": 50}[u[0]]


# ---------------------------------------------------------------------------------------- data
def places(kind, shape, large):
    """every place of the data: (component, index)"""
    if arith.iscoef(kind):
        idx = list(enumerate(ref.modes(*shape)))
        if large:
            n, m = shape
            keep = {(0, 0), (1, 0), (1, -1), (n, 0), (n, m), (n, -m), (n // 2, 1), (n - 1, -1), (m, m), (32, 1), (33, 0)}
            idx = [i for i in idx if i[1] in keep]
        idx = [i for i, (n, m) in idx if n or kind == "scoef"]
    elif large:
        idx = [(r, c) for r, c in ((0, 0), (1, 0), (1, shape[1] - 1), (shape[0] // 2, 1), (shape[0] // 2, shape[1] // 2), (33, 2), (shape[0] - 2, shape[1] - 1), (shape[0] - 1, 0))]
    else:
        idx = [(r, c) for r in range(shape[0]) for c in range(shape[1])] + [(0, None), (shape[0] - 1, None)]
    return [(k, i) for k in range(2 if arith.two(kind) else 1) for i in idx]


def put(comps, kind, where, v):
    k, i = where
    if not arith.iscoef(kind) and i[1] is None:
        comps[k][i[0], :] = v           # all samples of a pole at once
    else:
        comps[k][i] = v


def build(kind, shape, comps):
    sp = lib.sp
    if kind == "scoef":
        return sp.ScalarCoefs(comps[0].copy(), *shape)
    if kind == "vcoef":
        return sp.VectorCoefs(comps[0].copy(), comps[1].copy(), *shape)
    return sp.ScalarPatternUniform(comps[0].copy()) if kind == "spatt" else sp.TransversePatternUniform(comps[0].copy(), comps[1].copy())


def values(o, kind):
    """all values of an object (coefficients; samples of the whole double sphere)"""
    if kind == "scoef":
        return [lib.cvec(o)]
    if kind == "vcoef":
        return [lib.cvec(o.scoef1)[1:], lib.cvec(o.scoef2)[1:]]
    return [np.array(x) for x in (o.doublesphere if kind == "vpatt" else [o.doublesphere])]


def masks(kind, comps):
    if kind == "vcoef":
        return [~np.isfinite(c[1:]) for c in comps]
    if kind == "scoef":
        return [~np.isfinite(c) for c in comps]
    out = []
    for c in comps:
        d = np.abs(ref.double((~np.isfinite(c)).astype(complex), 1)) > 0
        for r in (0, c.shape[0] - 1):       # a sample of a pole is combined with its image
            d[r] |= np.roll(d[r], c.shape[1] // 2)
        out.append(d)
    return out


def exactly(ctx, o, kind, mask, plain, what, tol=1e-12):
    """o is not finite exactly at the mask and has the values of plain everywhere else"""
    got = values(o, kind)
    for k, (g, m, p) in enumerate(zip(got, mask, values(plain, kind))):
        ctx.check(g.shape == m.shape, lambda: "%s: shape %r" % (what, g.shape))
        bad = ~np.isfinite(g)
        ctx.check(not (m & ~bad).any(), lambda: "%s: component %d hides a value that is not finite at %s (it is %r)" % (what, k, first(m & ~bad), g[m & ~bad][0]))
        ctx.check(not (bad & ~m).any(), lambda: "%s: component %d is not finite at %s, which does not depend on it" % (what, k, first(bad & ~m)))
        e = np.abs(np.where(m, 0, g) - np.where(m, 0, p))
        lim = tol * np.abs(np.where(m, 0, p))
        ctx.check(not (e > lim).any(), lambda: "%s: component %d changed at %s" % (what, k, first(e > lim)))
    ctx.op()


def first(m):
    return tuple(int(x[0]) for x in np.nonzero(m))


def shows(ctx, xs, what):
    ctx.check(any(not np.all(np.isfinite(x)) for x in xs), lambda: "%s: the result is finite" % what)
    ctx.op()


# ---------------------------------------------------------------------------------------- calls
def limits(kind, shape):
    n = shape[0] - 2
    return n, min(n, shape[1] // 2 - 1)


def transform(ctx, kind, shape, o, mask, plain, comps):
    sp = lib.sp
    be = ctx.choose("back end", ["c", "py"])
    with boot.backend(be):
        if arith.iscoef(kind):
            f = sp.ispht if kind == "scoef" else sp.vispht
            how = ctx.choose("call", ["smallest grid", "larger grid", "odd rows"])
            n, m = shape
            g = [max(4, n + 2), 2 * m + 2] if how == "smallest grid" else [n + 6, 2 * m + 8] if how == "larger grid" else [n + 3 + n % 2, 2 * m + 4]
            r = f(o, *g)
            xs = [r.array] if kind == "scoef" else [r.theta, r.phi]
        else:
            f = sp.spht if kind == "spatt" else sp.vspht
            n, m = limits(kind, shape)
            how = ctx.choose("call", ["all", "half", "zonal"])
            r = f(o, n, m) if how == "all" else f(o, max(1, n // 2), min(m, n // 2)) if how == "half" else f(o, n, 0)
            xs = values(r, "scoef" if kind == "spatt" else "vcoef")
    shows(ctx, xs, "%s of %s (%s back end, %s)" % (f.__name__, kind, be, how))
    return xs


def measure(ctx, kind, shape, o, mask, plain, comps):
    sp = lib.sp
    calls = {}
    if arith.iscoef(kind):
        calls["L2_coef"] = lambda: sp.L2_coef(o)
        calls["LInf_coef"] = lambda: sp.LInf_coef(o)
        if kind == "scoef":
            calls["power"] = lambda: o.power()
            calls["compare_relative, first"] = lambda: sp.compare_relative(o, plain)
            calls["compare_relative, second"] = lambda: sp.compare_relative(plain, o)
            calls["compare_relative, both"] = lambda: sp.compare_relative(o, o.copy())
            calls["angular_power_spectrum"] = None
    else:
        calls["L2_patt"] = lambda: sp.L2_patt(o)
        calls["LInf_patt"] = lambda: sp.LInf_patt(o)
    for f in ("mag", "mag2") + (() if arith.two(kind) else ("abs",)):
        calls[f] = None
    name = ctx.choose("call", list(calls))
    if calls[name]:
        x = calls[name]()
        shows(ctx, [x], "%s of %s" % (name, kind))
        return [np.array(x)]
    if name == "angular_power_spectrum":
        s, p = np.array(o.angular_power_spectrum()), np.array(plain.angular_power_spectrum())
        bad = set(nm[0] for nm, b in zip(ref.modes(*shape), mask[0]) if b)
        for n in range(shape[0] + 1):
            ctx.check(np.isfinite(s[n]) == (n not in bad), lambda: "spectrum at n=%d is %r" % (n, s[n]))
            ctx.check(n in bad or abs(s[n] - p[n]) <= 1e-12 * p[n], lambda: "spectrum changed at n=%d" % n)
        ctx.op()
        return [s]
    r, p = getattr(sp, name)(o), getattr(sp, name)(plain)
    if not arith.iscoef(kind):
        ctx.check(isinstance(r, np.ndarray) and r.shape == tuple(shape), lambda: "%s of %s is a %s" % (name, kind, type(r).__name__))
        m = np.logical_or.reduce([x[:shape[0]] for x in mask])
        ctx.check(np.array_equal(~np.isfinite(r), m), lambda: "%s of %s is not finite at other places than the data" % (name, kind))
        ctx.check(np.all(np.abs(r[~m] - p[~m]) <= 1e-12 * p[~m]), lambda: "%s of %s changed at other places" % (name, kind))
        ctx.op()
        return [r]
    if kind == "vcoef":
        # one magnitude for both components: it is not finite where either component is not
        ctx.check(type(r) is lib.sp.ScalarCoefs, lambda: "%s of %s is a %s" % (name, kind, type(r).__name__))
        both = [np.concatenate([[not np.isfinite(lib.cvec(r)[0])], mask[0] | mask[1]])]
        exactly(ctx, r, "scoef", both, p, "%s of %s" % (name, kind))
        return values(r, "scoef")
    exactly(ctx, r, kind, mask, p, "%s of %s" % (name, kind))
    return values(r, kind)


def arithmetic(ctx, kind, shape, o, mask, plain, comps):
    b = arith.make(kind, shape, 3)[0]
    ops = {"o + b": lambda o: o + b, "b + o": lambda o: b + o, "o - b": lambda o: o - b, "b - o": lambda o: b - o, "o * 2": lambda o: o * 2,
           "1j * o": lambda o: 1j * o, "o / 4": lambda o: o / 4, "o += b": lambda o: iadd(o, b), "o - o": lambda o: o - o, "o * 0": lambda o: o * 0, "0 * o": lambda o: 0 * o}
    if kind != "vpatt":
        ops["o * b"] = lambda o: o * b
        ops["b * o"] = lambda o: b * o
    if kind != "vcoef" and kind != "vpatt":
        ops["o / b"] = lambda o: o / b
        ops["o + 1"] = lambda o: o + 1
        ops["1 - o"] = lambda o: 1 - o
    name = ctx.choose("operation", list(ops))
    r, p = ops[name](o), ops[name](plain)
    exactly(ctx, r, kind, mask, p, name)
    return values(r, kind)


def iadd(o, b):
    x = o * 1
    x += b
    return x


def access(ctx, kind, shape, o, mask, plain, comps):
    """reading, writing, cutting and copying"""
    if arith.iscoef(kind):
        how = ctx.choose("how", ["read", "write", "copy", "columns", "rows", "cut", "window"])
        if how == "read":
            for i, (n, m) in enumerate(ref.modes(*shape)):
                if n == 0 and kind == "vcoef":
                    continue
                x = np.atleast_1d(np.array(o[n, m]))
                ctx.check(same(x, [c[i] for c in comps]), lambda: "c[%d,%d] reads %r" % (n, m, x))
        elif how == "write":
            z = lib.sp.zeros_coefs(*shape) if kind == "scoef" else lib.sp.zeros_coefs(shape[0], shape[1], coef_type=lib.sp.vector)
            for i, (n, m) in enumerate(ref.modes(*shape)):
                if n or kind == "scoef":
                    z[n, m] = comps[0][i] if kind == "scoef" else (comps[0][i], comps[1][i])
            ctx.check(all(same(x, y) for x, y in zip(values(z, kind), values(o, kind))), lambda: "written coefficients differ")
        elif how == "window":
            # a window by zero does not remove what is not finite, and one that is not finite shows at its n
            w = np.arange(1.0, shape[0] + 2)
            form = ctx.choose("window", ["ramp", "ones", "zeros", "zero at 0", "zero at 1", "zero at last", "nan at 1", "inf at last", "complex"])
            at = {"0": 0, "1": min(1, shape[0]), "last": shape[0]}.get(form.split()[-1])
            if form in ("ones", "zeros", "complex"):
                w = {"ones": w * 0 + 1, "zeros": w * 0, "complex": w * (1 - 1j)}[form]
            elif at is not None:
                w[at] = {"zero": 0.0, "nan": NAN, "inf": INF}[form.split()[0]]
            x, p = o.copy(), plain.copy()
            w2 = np.where(np.isfinite(w), w, 1)
            lo = 1 if kind == "vcoef" else 0
            extra = np.array([not np.isfinite(w[n]) for n, m in ref.modes(*shape)])[lo:]
            comps_of = (lambda c: [c.scoef1, c.scoef2]) if kind == "vcoef" else (lambda c: [c])
            for s, r in zip(comps_of(x), comps_of(p)):
                s.window(w)
                r.window(w2)
            exactly(ctx, x, kind, [m | extra for m in mask], p, "window (%s)" % form)
        elif how == "copy":
            ctx.check(all(same(x, y) for x, y in zip(values(o.copy(), kind), values(o, kind))), "the copy differs")
        elif how == "columns":
            for k, s in enumerate([o] if kind == "scoef" else [o.scoef1, o.scoef2]):
                for m in range(-shape[1], shape[1] + 1):
                    want = [comps[k][i] for i, nm in enumerate(ref.modes(*shape)) if nm[1] == m]
                    got = np.array(s[:, m])
                    lo = 1 if kind == "vcoef" and m == 0 else 0
                    ctx.check(same(got[lo:], want[lo:]), lambda: "c[:, %d] reads %r" % (m, got))
        elif how == "rows":
            for k, s in enumerate([o] if kind == "scoef" else [o.scoef1, o.scoef2]):
                for n in range(1, shape[0] + 1):
                    want = {nm[1]: comps[k][i] for i, nm in enumerate(ref.modes(*shape)) if nm[0] == n}
                    got = np.array(s[n, :])
                    ctx.check(same(got, [want[m] for m in sorted(want)]), lambda: "c[%d, :] reads %r" % (n, got))
        else:
            for n in range(1, shape[0] + 1):
                r = o[0:n, :]
                k2 = min(shape[1], n)
                idx = {nm: i for i, nm in enumerate(ref.modes(*shape))}
                for k, s in enumerate([r] if kind == "scoef" else [r.scoef1, r.scoef2]):
                    want = [comps[k][idx[nm]] for nm in ref.modes(n, k2)]
                    lo = 0 if kind == "scoef" else 1
                    ctx.check(same(lib.cvec(s)[lo:], want[lo:]), lambda: "c[0:%d, :] differs" % n)
    else:
        got = [o.array] if kind == "spatt" else [o.theta, o.phi]
        for k, (g, c) in enumerate(zip(got, comps)):
            w = c.copy()
            w[mask[k][:shape[0]]] = NAN     # the two samples of a pole that are one another's image are both not finite
            ctx.check(same(g, w), lambda: "component %d of the pattern differs from its samples" % k)
        for k, (g, m) in enumerate(zip(values(o, kind), mask)):
            ctx.check(np.array_equal(~np.isfinite(g), m), lambda: "double sphere of component %d: not finite at other places" % k)
    ctx.op()
    return values(o, kind)


def same(x, y):
    x, y = np.array(x, dtype=np.complex128), np.array(y, dtype=np.complex128)
    return x.shape == y.shape and np.array_equal(np.isfinite(x), np.isfinite(y)) and np.array_equal(x[np.isfinite(x)], y[np.isfinite(y)])


GROUPS = {"transform": transform, "measure": measure, "arith": arithmetic, "access": access}


def run(ctx, u):
    if u[0] == "bessel":
        return bessel(ctx, u[2])
    kind, shape = u[1], (u[2], u[3])
    if u[0] == "history":
        return history(ctx, kind, shape, u[4])
    P = places(kind, shape, u[0] == "large")
    comps = [c.copy() for c in arith.generic_comps(kind, shape, 1)]
    plain = build(kind, shape, comps)
    if u[0] == "two":
        i = ctx.choose("place", range(len(P) - 1))
        j = ctx.choose("second place", range(i + 1, len(P)))
        v, w = ctx.choose("values", [(INF, -INF), (complex(0, INF), complex(0, -INF))] + ([] if u[5] else [(NAN, INF), (INF, INF)]))
        put(comps, kind, P[i], v)
        put(comps, kind, P[j], w)
    else:
        v = ctx.choose("value", [NAN, complex(0, INF)] if u[0] == "large" else BAD[:2] + BAD[4:6] if u[5:] and u[5] else BAD)
        put(comps, kind, ctx.choose("place", P), v)
    o = build(kind, shape, comps)
    before = lib.bytes_of(o)
    xs = GROUPS[u[4]](ctx, kind, shape, o, masks(kind, comps), plain, comps)
    ctx.check(lib.bytes_of(o) == before, "the call changed its operand")
    ctx.observe(*[np.isfinite(x) for x in xs])


def history(ctx, kind, shape, depth):
    """Operations one after the other: a value that is not finite stays where it is until it is overwritten."""
    comps = [c.copy() for c in arith.generic_comps(kind, shape, 1)]
    P = places(kind, shape, False)
    P = P[::max(1, len(P) // 3)]
    b = arith.make(kind, shape, 3)[0]
    where = ctx.choose("place", P)
    plain = build(kind, shape, comps)
    put(comps, kind, where, ctx.choose("value", BAD[:4]))
    o = build(kind, shape, comps)
    mask = masks(kind, comps)
    steps = {"+ b": lambda x: x + b, "b -": lambda x: b - x, "* 0": lambda x: x * 0, "/ 3": lambda x: x / 3, "+= b": lambda x: iadd(x, b), "- self": lambda x: x - x, "1j *": lambda x: 1j * x}
    if kind in ("scoef", "spatt"):
        steps["* b"] = lambda x: x * b
    if arith.iscoef(kind):
        steps["copy"] = lambda x: x.copy()
        steps["overwrite"] = None
        steps["write"] = None
    for _ in range(depth):
        s = ctx.choose("step", list(steps))
        if steps[s]:
            o, plain = steps[s](o), steps[s](plain)
        else:
            v = 1.5 if s == "overwrite" else NAN
            nm = ref.modes(*shape)[where[1]]
            for x in (o, plain):
                if kind == "scoef":
                    x[nm] = v if x is o else 1.5
                else:
                    x[nm] = (v, v) if x is o else (1.5, 1.5)
            for k in range(len(mask)):
                mask[k][where[1] - (1 if kind == "vcoef" else 0)] = s == "write"
        exactly(ctx, o, kind, mask, plain, "after %s" % s)
    ctx.observe(*values(o, kind))


def bessel(ctx, n):
    from spherepy import sbessel as B
    f = ctx.choose("function", ["sbesselj", "sbessely", "sbesselh1", "sbesselh2", "sbesselj_array", "sbessely_array"])
    x = ctx.choose("argument", [NAN, -NAN, np.float64(NAN)])
    if "array" not in f:
        r = np.array(getattr(B, f)(x, n))
        ctx.check(r.shape == (n,) and np.isnan(r).all(), lambda: "%s(nan, %d) is %r" % (f, n, r))
    else:
        xs = np.array([0.5, 1.0, 7.0, 2.0])
        k = ctx.choose("place", range(4))
        good = np.array(getattr(B, f)(xs, n))
        xs[k] = x
        r = np.array(getattr(B, f)(xs, n))
        bad = np.isnan(r)
        ax = [a for a in range(r.ndim) if r.shape[a] == 4]
        rows = np.array([[bad.take(i, axis=a).all() for i in range(4)] for a in ax])
        hit = [a for a, q in zip(ax, rows) if q[k]]
        ctx.check(hit and bad.sum() == n, lambda: "%s with nan at %d: nan at %r" % (f, k, np.argwhere(bad)[:4].tolist()))
        ctx.check(np.array_equal(r[~bad], good[~bad]), lambda: "%s with nan at %d changes other arguments" % (f, k))
    ctx.op()
    ctx.observe(f, n, np.isnan(r))
