"""C05 the compiled and the Python back end agree: differential exploration of every routine both have."""
import bisect
import numpy as np
from mc import lib, ref, boot
ID = "C05"
LEVEL = "model_checking"
RULE = ("one execution = one input given to both implementations and the results compared; inputs are all lengths up to "
        "a bound (transform-length helpers, also against the enumerated set of smooth numbers), all (n,m,length) for "
        "the harmonics' Fourier coefficients, all sizes for the kernel, every unit Fourier coefficient and every unit "
        "mode plus dense sets for the low level transforms, dense symmetric and asymmetric data for the four transforms")
BOUNDS = {
    "quick": "lengths 1..30000 and next to every smooth number up to 2^24 (compiled) and 2^18 (Python); n<=48, |m|<=n+2 and 15 n up to 1000; kernel rows<=40, nmax<=24; fc<->sc basis: rows<=12, cols<=8; transforms: nmax<=14 all mmax, plus nmax 20, 33, 50, 64",
    "thorough": "lengths 1..400000 and next to every smooth number up to 2^29 (compiled) and 2^21 (Python); n<=160, |m|<=n+2 and 15 n up to 1000; kernel rows<=100, nmax<=60; fc<->sc basis: rows<=20, cols<=14; transforms: nmax<=30 all mmax, plus 40, 50, 64, 100, 128",
}
ASSUMPTIONS = ["kernel compared for lengths > rows + nmax and Fourier data with an empty highest row, as the transforms use them",
               "tolerance 1e-12 relative to the largest value"]


def setup(tier):
    lib.setup()


def units(tier):
    q = tier == "quick"
    for a in range(1, 30001 if q else 400001, 2500):
        yield ["lengths", a, a + 2500]
    yield ["around", 2 ** 24 if q else 2 ** 29, 2 ** 18 if q else 2 ** 21]
    for n in range(0, 49 if q else 161):
        yield ["harmonic", n]
    for n in [64, 100, 128, 200, 256, 300, 400, 500, 511, 512, 513, 540, 600, 800, 1000]:
        yield ["harmonic", n]
    for nr in range(2, 42 if q else 102, 2):
        yield ["kernel", nr, 24 if q else 60]
    for nr in range(4, 14 if q else 22, 2):
        for nc in range(2, 10 if q else 16, 2):
            for nmax in range(0, nr // 2):
                for mmax in range(0, min(nmax, (nc - 1) // 2) + 1):
                    yield ["fc_to_sc", nr, nc, nmax, mmax]
    for nmax in range(0, 7 if q else 11):
        for mmax in range(0, nmax + 1):
            for nr in (2 * nmax + 2, 2 * nmax + 3, 2 * nmax + 4, 2 * nmax + 10):
                for nc in (2 * mmax + 2, 2 * mmax + 3, 2 * mmax + 8):
                    yield ["sc_to_fc", nr, nc, nmax, mmax]
    for nmax in range(0, 15 if q else 31):
        for mmax in range(0, nmax + 1):
            for dr, dc in ((2, 2), (3, 2), (2, 4), (7, 8)):
                yield ["transforms", nmax, mmax, nmax + dr, 2 * mmax + dc]
    for nmax in [20, 33, 50, 64] + ([] if q else [40, 100, 128]):
        for mmax in sorted({nmax, nmax - 1, nmax // 2, 1}):
            yield ["transforms", nmax, mmax, nmax + 2, 2 * mmax + 2]
            yield ["transforms", nmax, mmax, nmax + 9, 2 * mmax + 10]


def cost(u):
    if u[0] == "transforms":
        return u[1] ** 2 * (u[2] + 1)
    return 1e9 if u[0] == "around" else 20 + (u[2] if u[0] == "lengths" else 0)


_smooth = {}


def smooth(primes, top):
    k = (primes, top)
    if k not in _smooth:
        s = {1}
        for p in primes:
            add = set()
            for v in s:
                while v <= top:
                    add.add(v)
                    v *= p
            s = add
        _smooth[k] = sorted(s)
    return _smooth[k]


def agree(ctx, a, b, what, tol=1e-12, big=None):
    a = np.asarray(a)
    b = np.asarray(b)
    s = max(float(np.max(np.abs(b))) if b.size else 0.0, 1e-300) if big is None else big
    ctx.check(lib.maxerr(a, b) <= tol * s, lambda: "%s: compiled vs Python: %s" % (what, lib.where(a, b)))


def run(ctx, u):
    sp = lib.sp
    kind = u[0]
    C, P = sp.csphi, sp.pysphi
    if kind == "lengths":
        f = ctx.choose("helper", ["compiled", "python"])
        tab = smooth((2, 3, 5) if f == "compiled" else (2, 3, 5, 7), 2 * u[2] + 10)
        g = C.FindQ if f == "compiled" else P.smallest_prime_factor
        for s in range(u[1], u[2]):
            want = tab[bisect.bisect_left(tab, s)]
            got = g(s)
            ctx.op()
            if got != want:
                ctx.check(False, "length helper (%s) of %d is %r, not %d" % (f, s, got, want))
        ctx.observe(u[1], f)
        return
    if kind == "around":
        f = ctx.choose("helper", ["compiled", "python"])
        top = u[1] if f == "compiled" else u[2]
        tab = smooth((2, 3, 5) if f == "compiled" else (2, 3, 5, 7), 2 * top)
        g = C.FindQ if f == "compiled" else P.smallest_prime_factor
        for i, t in enumerate(tab):
            if t > top:
                break
            for s in sorted({t - 1, t, t + 1} - {0}):
                want = tab[bisect.bisect_left(tab, s)]
                got = g(s)
                ctx.op()
                if got != want:
                    ctx.check(False, "length helper (%s) of %d is %r, not %d" % (f, s, got, want))
        return
    if kind == "harmonic":
        n = u[1]
        m = ctx.choose("m", range(-n - 2, n + 3) if n < 49 or (n < 161 and n not in (64, 100, 128)) else
                       sorted({k for j in (0, 1, 2, 7, n // 3, n // 2, n - 2, n - 1, n, n + 1) for k in (-j, j)}))
        if abs(m) <= n:
            agree(ctx, C.ynnm(n, m), P.ynnm(n, m), "ynnm(%d,%d)" % (n, m))
        else:
            ctx.check(C.ynnm(n, m) == 0 and P.ynnm(n, m) == 0, "ynnm(%d,%d) is not zero" % (n, m))
        for L in (n + 1, n + 2, n + 5):
            z = np.full(L, 7.5)
            C.ynunm(n, m, z)
            w = P.ynunm(n, m, L)
            ctx.op(3)
            agree(ctx, z, w, "ynunm(%d,%d,%d)" % (n, m, L))
        ctx.observe(z)
        return
    if kind == "kernel":
        nr, top = u[1], u[2]
        nmax = ctx.choose("nmax", range(0, top + 1))
        for Q in (nr + nmax + 1, nr + nmax + 2, nr + nmax + 7):
            z = np.full(Q, 3 + 3j)
            C.SData(z, nr, nmax)
            w = P.s_data(nr, nmax, Q)
            ctx.op(2)
            agree(ctx, z, w, "kernel rows %d nmax %d length %d" % (nr, nmax, Q))
        ctx.observe(z)
        return
    if kind == "fc_to_sc":
        _, nr, nc, nmax, mmax = u
        what = ctx.choose("data", ["dense", "row"])
        f = lib.generic_array(nr, nc, 4)
        f[nr // 2, :] = 0
        if what == "row":
            r = ctx.choose("row", [i for i in range(nr) if i != nr // 2])
            c = ctx.choose("col", range(nc))
            v = ctx.choose("value", [1.0, 1j])
            f = np.zeros((nr, nc), dtype=np.complex128)
            f[r, c] = v
        f0 = f.copy()
        L = ref.ncoef(nmax, mmax)
        sc = np.full(L, 11 - 3j)
        C.fc_to_sc(f, sc, nmax, mmax)
        w = P.fc_to_sc(f, nmax, mmax)
        ctx.op(2)
        agree(ctx, sc, w, "fc_to_sc", 1e-12, 4 * nr)
        ctx.check(np.array_equal(f, f0), "fc_to_sc changed the Fourier data")
        ctx.observe(np.round(sc, 8))
        return
    if kind == "sc_to_fc":
        _, nr, nc, nmax, mmax = u
        L = ref.ncoef(nmax, mmax)
        what = ctx.choose("data", ["dense"] + list(range(L)))
        if what == "dense":
            v = lib.vecof(ref.dense(nmax, mmax, 2), nmax, mmax)
        else:
            v = np.zeros(L, dtype=np.complex128)
            v[what] = ctx.choose("value", [1.0, 1j])
        v0 = v.copy()
        f = np.zeros((nr, nc), dtype=np.complex128)
        C.sc_to_fc(f, v, nmax, mmax)
        w = P.sc_to_fc(v, nmax, mmax, nr, nc)
        ctx.op(2)
        agree(ctx, f, w, "sc_to_fc", 1e-12, 2.0)
        ctx.check(np.array_equal(v, v0), "sc_to_fc changed the coefficients")
        ctx.observe(np.round(f, 8))
        return
    _, nmax, mmax, nr, nc = u
    t = ctx.choose("transform", ["ispht", "spht", "vispht", "vspht"])
    if t == "ispht":
        c = sp.ScalarCoefs(lib.vecof(ref.dense(nmax, mmax, 2), nmax, mmax), nmax, mmax)
        res = []
        for be in ("c", "py"):
            with boot.backend(be):
                res.append(np.array(sp.ispht(c, nr, nc).doublesphere))
        res.append(np.array(sp.ispht_slow(c, nr, nc).doublesphere))
        ctx.op(3)
        agree(ctx, res[0], res[1], t)
        agree(ctx, res[0], res[2], "ispht_slow")
    elif t == "vispht":
        c = lib.vcoefs(ref.dense(nmax, mmax, 2), ref.dense(nmax, mmax, 3), nmax, mmax)
        res = []
        for be in ("c", "py"):
            with boot.backend(be):
                p = sp.vispht(c, nr, nc)
                res.append((np.array(p.doublesphere[0]), np.array(p.doublesphere[1])))
        ctx.op(2)
        s = max(1.0, np.max(np.abs(res[1][0])), np.max(np.abs(res[1][1])))
        for k in (0, 1):
            agree(ctx, res[0][k], res[1][k], t, 1e-12 * (nmax + 1), s)
    else:
        sym = ctx.choose("data", ["symmetric", "any"])
        a = lib.generic_array(2 * nr - 2, nc, 5)
        b = lib.generic_array(2 * nr - 2, nc, 6)
        if sym == "symmetric":
            if t == "spht":
                a = ref.double(lib.consistent_scalar(a[:nr]), 1)
            else:
                a = ref.double(lib.consistent_vector(a[:nr]), -1)
                b = ref.double(lib.consistent_vector(b[:nr]), -1)
        if t == "spht":
            p = sp.ScalarPatternUniform(a, doublesphere=True)
            res = []
            for be in ("c", "py"):
                with boot.backend(be):
                    res.append(lib.cvec(sp.spht(p, nmax, mmax)))
            res.append(lib.cvec(sp.spht_slow(p, nmax, mmax)))
            ctx.op(3)
            agree(ctx, res[0], res[1], t, 1e-12, 12.0)
            agree(ctx, res[0], res[2], "spht_slow", 1e-12, 12.0)
        else:
            p = sp.TransversePatternUniform(a, b, doublesphere=True)
            res = []
            for be in ("c", "py"):
                with boot.backend(be):
                    v = sp.vspht(p, nmax, mmax)
                    res.append((lib.cvec(v.scoef1), lib.cvec(v.scoef2)))
            ctx.op(2)
            for k in (0, 1):
                agree(ctx, res[0][k], res[1][k], t, 1e-12, 12.0)
    if nmax <= 5:
        ctx.observe(np.round(np.asarray(res[0]), 8))
