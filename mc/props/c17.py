"""C17 spherical Bessel functions: a lattice of arguments and every order count, all short call histories."""
import os
from decimal import Decimal as D
import numpy as np
from mc import lib, bessel
ID = "C17"
LEVEL = "model_checking"
RULE = ("one execution = the four functions for one (argument, order count) of the lattice, one array call, or one sequence of "
        "calls whose results are all compared again at its end; every order compared with 80-digit decimal values")
BOUNDS = {"quick": "arguments of both signs: 2^k for every k in -996..16 with 3 mantissas, k/8 up to 40, the doubles around every zero of j_0..j_8 and y_0..y_4 below 30; order counts 1..12 and 16..60; arrays of 1..3 arguments; histories of 3 calls",
          "thorough": "arguments of both signs: 2^k for every k in -996..18 with 6 mantissas, k/32 up to 100, the doubles around every zero of j_0..j_25 and y_0..y_12 below 80; order counts 1..40 and up to 160; arrays of 1..4 arguments; histories of 4 calls"}
ASSUMPTIONS = ["|x| >= 1e-300; values of y_n beyond 1e300 and values of j_n below 1e-300 are not compared",
               "errors are measured against min(|h_n|, 1/(x^2 |h_n|)) for j_n and |h_n| for y_n, h_n = j_n + i y_n, and may be 1e-13 times max(1, x/10)"]
B = None


def setup(tier):
    global B
    lib.setup()
    np.seterr(all="ignore")
    from spherepy import sbessel
    B = sbessel


def units(tier):
    q = tier == "quick"
    mant = [1.0, 1.3, 1.9999999999999998] if q else [1.0, 1.0000000000000002, 1.3, 1.5, 1.7, 1.9999999999999998]
    for k in range(-996, 17 if q else 19):
        yield ["lattice", [m * 2.0 ** k for m in mant], [1, 2, 3, 5, 30] if k % 16 or q and k < 0 else [1, 2, 3, 4, 5, 6, 7, 12, 20, 33, 60, 150]]
    step, top = (8, 40) if q else (32, 100)
    for k in range(1, top * step, 4):
        yield ["lattice", [(k + i) / step for i in range(4)], list(range(1, 13)) + [16, 21, 32, 45, 60] if q else list(range(1, 41)) + [50, 64, 80, 120, 160]]
    for n in range(9 if q else 26):
        yield ["zeros", "j", n, 30 if q else 80]
    for n in range(5 if q else 13):
        yield ["zeros", "y", n, 30 if q else 80]
    for N in (1, 2, 3, 6):
        for L in range(1, 4 if q else 5):
            yield ["array", N, L]
    for a in range(len(CALLS)):
        yield ["history", a, 3 if q else 4]


def cost(u):
    return {"history": 10 ** 6, "zeros": 10 ** 5}.get(u[0], 1) + (u[1][-1] * len(u[2]) if u[0] == "lattice" else 0)


ARGS = [0.1, 1.0, 2.5, -7.25, 20.0]
FUN = ["sbesselj", "sbessely", "sbesselh1", "sbesselh2"]
CALLS = [(f, x, N) for f in FUN for x, N in ((0.5, 1), (0.5, 4), (-0.5, 4), (4.0, 4), (30.0, 9))] + \
        [("sbesselj_array", (0.5, 4.0), 4), ("sbessely_array", (4.0, 30.0), 3)]
CACHE = {}


def reference(x, N):
    """(j, y, size of j, size of y) as lists; the decimals of the most recent arguments are kept"""
    k = float(x)
    if k not in CACHE or len(CACHE[k][0]) < N:
        if len(CACHE) > 64:
            CACHE.clear()
        j, y = bessel.jy(k, N)
        h = [(a * a + b * b).sqrt(bessel.CTX) for a, b in zip(j, y)]
        X = D(k)
        CACHE[k] = (j, y, [min(v, 1 / (X * X * v)) for v in h], h)
    return [v[:N] for v in CACHE[k]]


def toflt(d):
    return float(d)


def compare(ctx, got, x, N, f):
    """got: vector returned by function f"""
    neg, x = x < 0, abs(x)
    j, y, sj, sy = reference(x, N)
    tol = 1e-13 * max(1.0, x / 10)
    got = np.asarray(got)
    ctx.check(got.shape == (N,), lambda: "%s(%r,%d) has shape %r" % (f, x, N, got.shape))
    for n in range(N):
        ok = [True, True]
        re, im = float(np.real(got[n])), float(np.imag(got[n]))
        if neg:                     # j_n(-x) = (-1)^n j_n(x), y_n(-x) = -(-1)^n y_n(x)
            s = (-1) ** n
            re, im = (-s * re if f == "sbessely" else s * re), -s * im
        if f == "sbessely":
            re, im = 0.0, re
        elif f == "sbesselh2":
            im = -im
        if f != "sbessely" and (f == "sbesselj" or abs(y[n]) < D("1e300")):
            w = toflt(j[n])
            ok[0] = abs(re - w) <= tol * toflt(sj[n]) + 1e-300
        if f != "sbesselj" and abs(y[n]) < D("1e300"):
            w = toflt(y[n])
            ok[1] = abs(im - w) <= tol * toflt(sy[n])
        if not all(ok):
            ctx.check(False, "%s(%r,%d)[%d] is %r, expected j = %.17g, y = %.17g%s" % (f, -x if neg else x, N, n, got[n], toflt(j[n]), toflt(y[n]), " at the positive argument" if neg else ""))


def four(ctx, x, N):
    jv = B.sbesselj(x, N)
    yv = B.sbessely(x, N)
    compare(ctx, jv, x, N, "sbesselj")
    compare(ctx, yv, x, N, "sbessely")
    compare(ctx, B.sbesselh1(x, N), x, N, "sbesselh1")
    compare(ctx, B.sbesselh2(x, N), x, N, "sbesselh2")
    ctx.op(4)
    ctx.observe(np.asarray(jv), np.asarray(yv))
    return jv, yv


def zeros(kind, n, top):
    """pairs of neighbouring doubles around the sign changes"""
    f = lambda x: bessel.jy(x, n + 1)[0 if kind == "j" else 1][n]
    xs = [n + 0.25 + 0.5 * k for k in range(2 * (top - n))]
    out = []
    vs = [f(x) for x in xs]
    for a, b, fa, fb in zip(xs, xs[1:], vs, vs[1:]):
        if (fa > 0) == (fb > 0):
            continue
        # secant/bisection down to neighbouring doubles
        while True:
            m = a - (b - a) * float(fa / (fb - fa))
            if not a < m < b:
                m = (a + b) / 2
            if not a < m < b:
                break
            for m in (m, m - 4 * np.spacing(m), m + 4 * np.spacing(m), (a + b) / 2):
                m = float(m)
                if not a < m < b:
                    continue
                fm = f(m)
                if (fm > 0) == (fa > 0):
                    a, fa = m, fm
                else:
                    b, fb = m, fm
        out += [a, b, float(np.nextafter(a, 0)), float(np.nextafter(b, 1e9))]
    return out


def run(ctx, u):
    if u[0] == "lattice":
        x = ctx.choose("x", u[1])
        N = ctx.choose("N", u[2])
        if x < 1e-300:
            ctx.observe(u)
            return
        kind = ctx.choose("type", ["float", "numpy", "int"]) if x == int(x) and x < 2 ** 31 and x > 0 else "float"
        arg = {"float": float, "numpy": np.float64, "int": int}[kind](x)
        if ctx.choose("sign", "+-") == "-":
            four(ctx, -arg, N)
            return
        jv, yv = four(ctx, arg, N)
        if kind == "float" and abs(reference(x, N + 1)[1][N]) < D("1e300"):
            e = B.sbessel_test_cross_product(x, N)
            ctx.check(0 <= e <= 1e-12 * max(1, x), lambda: "sbessel_test_cross_product(%r,%d) reports %r" % (x, N, e))
            if N >= 2 * x + 30:
                e = B.sbesselj_sum(x, N)
                ctx.check(0 <= e <= 1e-12, lambda: "sbesselj_sum(%r,%d) reports %r" % (x, N, e))
    elif u[0] == "zeros":
        _, kind, n, top = u
        Z = ZEROS.get(tuple(u))
        if Z is None:
            Z = ZEROS[tuple(u)] = zeros(kind, n, top)
        x = ctx.choose("x", Z) * ctx.choose("sign", [1, -1])
        N = ctx.choose("N", sorted({max(1, n + d) for d in (0, 1, 2, 3, 4, 5, 8, 13, 30)}))
        four(ctx, x, N)
    elif u[0] == "array":
        _, N, L = u
        xs = [ctx.choose("x%d" % i, ARGS) for i in range(L)]
        form = ctx.choose("form", ["list", "tuple", "array"])
        v = {"list": list, "tuple": tuple, "array": np.array}[form](xs)
        for f in ("sbesselj", "sbessely"):
            a = np.asarray(getattr(B, f + "_array")(v, N))
            ctx.check(a.shape == (N, L), lambda: "%s_array has shape %r for %d arguments and %d orders" % (f, a.shape, L, N))
            for i, x in enumerate(xs):
                compare(ctx, a[:, i], x, N, f)
            ctx.op()
            ctx.observe(a)
    else:
        _, first, depth = u
        seq = [CALLS[first]]
        ctx.note("call", CALLS[first])
        for d in range(1, depth):
            seq.append(ctx.choose("call", CALLS))
        got = []
        for f, x, N in seq:
            r = getattr(B, f)(list(x) if isinstance(x, tuple) else x, N)
            got.append((f, x, N, r, np.array(r).tobytes()))
            ctx.op()
        for i, (f, x, N, r, b) in enumerate(got):
            ctx.check(np.array(r).tobytes() == b, lambda: "a later call changed the result of %s(%r,%d)" % (f, x, N))
            for k, y in enumerate(x if isinstance(x, tuple) else (x,)):
                compare(ctx, np.asarray(r)[:, k] if isinstance(x, tuple) else r, y, N, f.replace("_array", ""))
            for g in got[:i]:
                ctx.check(not np.shares_memory(r, g[3]), "results of two calls share memory")
        # writing to a result does not change later results
        for g in got:
            g[3][...] = 7
        f, x, N = seq[0]
        r = getattr(B, f)(list(x) if isinstance(x, tuple) else x, N)
        for k, y in enumerate(x if isinstance(x, tuple) else (x,)):
            compare(ctx, np.asarray(r)[:, k] if isinstance(x, tuple) else r, y, N, f.replace("_array", ""))
        ctx.observe(repr(seq))


ZEROS = {}
