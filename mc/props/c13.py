"""C13 memory safety of the compiled code: every admissible size under sanitizers and an allocation monitor."""
import ctypes, gc, os, sys
import numpy as np
from mc import lib, ref, boot
ID = "C13"
LEVEL = "model_checking"
RULE = ("one execution = one call of a transform or compiled helper with one combination of sizes, in an interpreter whose "
        "extension is built with the address and undefined-behaviour sanitizers; each call is made with two different fill "
        "patterns of newly allocated memory, its results compared (a difference, or a deviation from the pure Python "
        "result, shows a read of uninitialised memory), and blocks and object references left behind are counted")
BOUNDS = {"quick": "transforms: nrows 2..10, ncols 2..14, all (nmax, mmax), both directions, scalar and vector; all nrows 2..70 with 2 columns; helpers: n <= 16, all m, lengths n+1..n+4; six large shapes up to 131 rows or 300 columns and nmax 258, harmonics up to n = 1000; 12 kinds of refused sizes and coefficient types for every shape nmax <= 5",
          "thorough": "transforms: nrows 2..16, ncols 2..24, all (nmax, mmax); all nrows 2..260 with 2 columns; helpers: n <= 48, all m; twelve large shapes up to nmax 520, harmonics up to n = 2000"}
ASSUMPTIONS = ["array storage is numpy's own; accesses inside of the array's storage but to a wrong element are left to C01-C05",
               "an uninitialised read whose value has no effect on any result is not detected"]
HANG_S = 120
LIVE = {}


def setup(tier):
    ext = boot.build_ext("asan", {
        "CFLAGS": "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all "
                  "-ftrivial-auto-var-init=pattern -include " + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim.h"),
        "LDFLAGS": "-fsanitize=address,undefined"})
    lib.sp = boot.load(ext)
    import _csphi
    so = ctypes.CDLL(_csphi.__file__)
    LIVE["live"] = ctypes.c_long.in_dll(so, "mc_live")
    LIVE["made"] = ctypes.c_long.in_dll(so, "mc_made")
    LIVE["fill"] = ctypes.c_int.in_dll(so, "mc_fill")


def units(tier):
    q = tier == "quick"
    R, C = (10, 14) if q else (16, 24)
    for nr in range(2, R + 1):
        for nc in range(2, C + 1, 2):
            yield ["analysis", nr, nc]
    for nmax in range(0, R - 1):
        for mmax in range(0, nmax + 1):
            yield ["synthesis", nmax, mmax, R, C]
    for nr in range(2, 71 if q else 261):
        yield ["long", nr]
    top = 17 if q else 49
    for n in range(top):
        yield ["harmonic", n]
    for nr in range(2, 20 if q else 60, 2):
        yield ["kernel", nr]
    for nr, nc in ((66, 132), (131, 20), (12, 300)) + (() if q else ((260, 40), (131, 262), (4, 4098))):
        yield ["large analysis", nr, nc]
    for nmax, mmax in ((64, 64), (129, 10), (258, 2)) + (() if q else ((258, 20), (129, 129), (520, 1))):
        yield ["large synthesis", nmax, mmax]
    for n in [31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000] + ([] if q else [511, 512, 513, 2000]):
        yield ["large harmonic", n]
    for nmax in range(0, 6):
        for mmax in range(0, nmax + 1):
            yield ["refused", nmax, mmax]


def cost(u):
    return u[1] * u[2] * (10 if u[0] == "analysis" else 4) if u[0] in ("analysis", "large analysis", "large synthesis") else 1 + u[1]


def monitored(ctx, f, what, want=None, scale=1.0):
    """f() -> list of arrays. Runs it under both fill patterns and looks for what it leaves behind."""
    outs = []
    made = LIVE["made"].value
    LIVE["fill"].value = 0x41
    outs.append(f())
    LIVE["fill"].value = 0xff
    a = LIVE["live"].value
    outs.append(f())
    b = LIVE["live"].value
    if b > a:
        f()
        c = LIVE["live"].value
        ctx.check(c <= b, lambda: "%s leaves %d allocated blocks behind at every call" % (what, c - b))
    for x, y in zip(*outs):
        ctx.check(np.array_equal(x, y), lambda: "%s reads uninitialised memory: the result depends on what it held (%s)" % (what, lib.where(x, y)))
    if want is not None:
        for x, y in zip(outs[0], want):
            ctx.check(lib.maxerr(x, y) <= 1e-10 * scale, lambda: "%s: %s" % (what, lib.where(x, y)))
    ctx.op(2)
    ctx.count("sanitized_calls", 2)
    ctx.count("blocks_allocated_and_tracked", LIVE["made"].value - made)
    return outs[0]


def blocks(ctx, f, what):
    """Repeated equal calls must not make the number of live Python objects grow."""
    f(), f()
    grow = [0, 0, 0]
    for i in range(3):
        gc.collect()
        base = sys.getallocatedblocks()
        f()
        gc.collect()
        grow[i] = sys.getallocatedblocks() - base
    ctx.check(min(grow) <= 0, lambda: "%s leaves Python objects behind at every call (%r)" % (what, grow))


def pattern(kind, nr, nc):
    a = [lib.generic_array(nr, nc, 2 + 5 * k) for k in range(2)]
    if kind == "scalar":
        return lib.sp.ScalarPatternUniform(a[0])
    return lib.sp.TransversePatternUniform(*a)


def flat(o):
    sp = lib.sp
    if isinstance(o, sp.ScalarCoefs):
        return [lib.cvec(o)]
    if isinstance(o, sp.VectorCoefs):
        return [lib.cvec(o.scoef1), lib.cvec(o.scoef2)]
    if isinstance(o, sp.ScalarPatternUniform):
        return [np.array(o.doublesphere)]
    return [np.array(x) for x in o.doublesphere]


def both(ctx, f, what, scale):
    """compiled result under the monitor against the pure Python one"""
    with boot.backend("py"):
        want = flat(f())
    with boot.backend("c"):
        got = monitored(ctx, lambda: flat(f()), what, want, scale)
    ctx.observe(*got)


def run(ctx, u):
    sp = lib.sp
    C = sp.csphi
    if u[0] == "analysis":
        _, nr, nc = u
        kind = ctx.choose("kind", ["scalar", "vector"])
        nmax = ctx.choose("nmax", range(0, nr - 1))
        mmax = ctx.choose("mmax", range(0, min(nmax, nc // 2 - 1) + 1))
        p = pattern(kind, nr, nc)
        t = sp.spht if kind == "scalar" else sp.vspht
        both(ctx, lambda: t(p, nmax, mmax), "%s(%dx%d, %d, %d)" % (t.__name__, nr, nc, nmax, mmax), nr * nr)
        if nmax == nr - 2:
            blocks(ctx, lambda: t(p, nmax, mmax), t.__name__)
    elif u[0] == "synthesis":
        _, nmax, mmax, R, Cc = u
        kind = ctx.choose("kind", ["scalar", "vector", "real"])
        nr = ctx.choose("nrows", [nmax + 1] * (kind != "vector") + list(range(nmax + 2, R + 2)))
        nc = ctx.choose("ncols", range(2 * mmax + 2, max(Cc, 2 * mmax + 4) + 2, 2))
        if kind == "vector":
            c = lib.vcoefs(ref.dense(nmax, mmax, 1), ref.dense(nmax, mmax, 2), nmax, mmax)
            f = lambda: sp.vispht(c, nr, nc)
        else:
            c = sp.ScalarCoefs(lib.vecof(ref.dense(nmax, mmax, 1), nmax, mmax), nmax, mmax)
            c = sp.mag(c) if kind == "real" else c
            f = lambda: sp.ispht(c, nr, nc)
        if nr == nmax + 1:
            # accepted although documented otherwise (known finding of C06): memory must be safe all the same
            with boot.backend("c"):
                try:
                    monitored(ctx, lambda: flat(f()), "ispht(%d,%d) on %dx%d" % (nmax, mmax, nr, nc))
                except ValueError:
                    pass
        else:
            both(ctx, f, "synthesis (%d,%d) on %dx%d" % (nmax, mmax, nr, nc), 10.0 * (nmax + 1) ** 2)
            if nr == nmax + 2 and nc == 2 * mmax + 2:
                blocks(ctx, f, "synthesis")
    elif u[0] == "long":
        nr = u[1]
        what = ctx.choose("call", ["spht", "vspht", "ispht", "vispht"])
        nmax = ctx.choose("nmax", sorted({0, 1, (nr - 2) // 2, nr - 2} & set(range(0, nr - 1))))
        if what in ("spht", "vspht"):
            p = pattern("scalar" if what == "spht" else "vector", nr, 2)
            f = lambda: getattr(sp, what)(p, nmax, 0)
        elif what == "ispht":
            c = sp.ScalarCoefs(lib.vecof(ref.dense(nmax, 0, 1), nmax, 0), nmax, 0)
            f = lambda: sp.ispht(c, nr, 2)
        else:
            c = lib.vcoefs(ref.dense(nmax, 0, 1), ref.dense(nmax, 0, 2), nmax, 0)
            f = lambda: sp.vispht(c, nr, 2)
        both(ctx, f, "%s with %d rows, nmax %d" % (what, nr, nmax), nr * nr)
    elif u[0] == "large analysis":
        _, nr, nc = u
        kind = ctx.choose("kind", ["scalar", "vector"])
        top = min(nr - 2, nc // 2 - 1)
        nmax, mmax = ctx.choose("request", sorted({(nr - 2, top), (nr - 2, 0), (0, 0), (1, 1), (nr // 2, min(nr // 2, top)), (nr - 3, min(nr - 3, top))}))
        p = pattern(kind, nr, nc)
        t = sp.spht if kind == "scalar" else sp.vspht
        with boot.backend("c"):
            ctx.observe(*monitored(ctx, lambda: flat(t(p, nmax, mmax)), "%s(%dx%d, %d, %d)" % (t.__name__, nr, nc, nmax, mmax)))
    elif u[0] == "large synthesis":
        _, nmax, mmax = u
        kind = ctx.choose("kind", ["scalar", "vector"])
        nr, nc = ctx.choose("grid", [(nmax + 2, 2 * mmax + 2), (nmax + 3, 2 * mmax + 8), (2 * nmax, 4 * mmax)])
        if kind == "vector":
            c = lib.vcoefs(ref.dense(nmax, mmax, 1), ref.dense(nmax, mmax, 2), nmax, mmax)
            f = lambda: flat(sp.vispht(c, nr, nc))
        else:
            c = sp.ScalarCoefs(lib.vecof(ref.dense(nmax, mmax, 1), nmax, mmax), nmax, mmax)
            f = lambda: flat(sp.ispht(c, nr, nc))
        with boot.backend("c"):
            ctx.observe(*monitored(ctx, f, "synthesis (%d,%d) on %dx%d" % (nmax, mmax, nr, nc)))
    elif u[0] == "large harmonic":
        n = u[1]
        m = ctx.choose("m", sorted({0, 1, -1, 2, n // 2, -(n // 2), n - 1, n, -n, n + 1}))
        L = ctx.choose("length", [n + 1, n + 2, n + 40])

        def f():
            z = np.full(L, 7.5)
            C.ynunm(n, m, z)
            return [z, np.array([C.ynnm(n, m)])]
        want = np.zeros(L)
        want[:n + 1] = np.asarray(sp.pysphi.ynunm(n, m, n + 1))[:n + 1] if abs(m) <= n else 0
        ctx.observe(*monitored(ctx, f, "ynunm(%d,%d,[%d])" % (n, m, L), [want], 10.0))
    elif u[0] == "harmonic":
        n = u[1]
        m = ctx.choose("m", range(-n - 2, n + 3))
        L = ctx.choose("length", range(n + 1, n + 5))

        def f():
            z = np.full(L, 7.5)
            C.ynunm(n, m, z)
            return [z, np.array([C.ynnm(n, m)])]
        want = np.zeros(L)
        want[:n + 1] = np.asarray(sp.pysphi.ynunm(n, m, n + 1))[:n + 1] if abs(m) <= n else 0
        got = monitored(ctx, f, "ynunm(%d,%d,[%d])" % (n, m, L), [want], 10.0)
        ctx.observe(*got)
    elif u[0] == "kernel":
        nr = u[1]
        nmax = ctx.choose("nmax", range(0, nr // 2))
        Q = ctx.choose("length", [C.FindQ(nr + nmax), nr + nmax + 1, nr + nmax + 6])

        def f():
            z = np.full(Q, 3 + 3j)
            C.SData(z, nr, nmax)
            return [z]
        got = monitored(ctx, f, "SData([%d],%d,%d)" % (Q, nr, nmax))
        ctx.observe(*got)
    else:
        _, nmax, mmax = u
        c = sp.ScalarCoefs(lib.vecof(ref.dense(nmax, mmax, 1), nmax, mmax), nmax, mmax)
        v = lib.vcoefs(ref.dense(nmax, mmax, 1), ref.dense(nmax, mmax, 2), nmax, mmax)
        p = pattern("scalar", nmax + 3, 2 * mmax + 4)
        t = pattern("vector", nmax + 3, 2 * mmax + 4)
        what = ctx.choose("call", ["ispht", "vispht", "spht", "vspht", "spht_slow", "ispht_slow"])
        if what in ("ispht", "vispht", "ispht_slow"):
            a = ctx.choose("nrows", [-1, 0, 1, nmax, nmax + 1, nmax + 2] + [None] * (what != "ispht_slow"))
            b = ctx.choose("ncols", [-2, 0, 1, 2 * mmax, 2 * mmax + 1, 2 * mmax + 2] + [None] * (what != "ispht_slow"))
            f = lambda: getattr(sp, what)(v if what == "vispht" else c, a, b)
        else:
            a = ctx.choose("nmax", [-2, -1, 0, nmax + 1, nmax + 2, 10 * nmax + 20] + [None] * (what != "spht_slow"))
            b = ctx.choose("mmax", [-2, -1, 0, mmax + 1, mmax + 2, nmax + 1, 10 * nmax + 20] + [None] * (what != "spht_slow"))
            f = lambda: getattr(sp, what)(t if what == "vspht" else p, a, b)
        try:
            with boot.backend("c"):
                monitored(ctx, lambda: flat(f()), "%s(%r,%r)" % (what, a, b))
                ctx.observe(u, what, a, b, "accepted")
        except (ValueError, ZeroDivisionError, IndexError, TypeError) as e:
            ctx.op()
            ctx.observe(u, what, a, b, type(e).__name__)
