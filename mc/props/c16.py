"""C16 single spherical harmonics and their Fourier series: every (n,m), every grid, every buffer length, call histories."""
import functools
import numpy as np
from mc import lib, ref, boot
ID = "C16"
LEVEL = "model_checking"
RULE = ("one execution = one spherical harmonic on one grid compared with the recurrence in long double and with the inverse "
        "transform of the single mode; or the Fourier coefficients of one (n,m) in one buffer from one implementation, "
        "compared with the discrete Fourier integral of the reference harmonic; or one history of calls")
BOUNDS = {"quick": "harmonics: n<=6 with all |m|<=n, grids 2..9 rows x 1..13 columns, n<=16 on 4 grids, 7 large grids to 1030x1030; series: n<=40 and 17 sizes up to 400, |m|<=n+2, 4 buffer lengths; 7 sizes 511..1000 with 19 m; histories of 3 calls over 14",
          "thorough": "harmonics: n<=10, grids 2..14 rows x 1..20 columns, n<=40 on 4 grids, 7 large grids to 1030x1030; series: n<=120 and 20 sizes up to 800, |m|<=n+2, 4 buffer lengths; 21 sizes 511..1010 with 19 m; histories of 4 calls over 14"}
ASSUMPTIONS = ["n <= 1010 (beyond n ~ 1022 the first Fourier coefficient underflows)", "absolute tolerance 4e-15*(n+10)"]


def setup(tier):
    lib.setup()


LARGE = [41, 47, 48, 49, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 300, 399, 400]
LARGER = [130, 150, 199, 200, 255, 256, 257, 299, 300, 333, 399, 400, 450, 500, 511, 512, 513, 600, 700, 800]
HUGE = [511, 512, 513, 540, 700, 850, 1000]
HUGER = [520, 530, 537, 538, 539, 560, 600, 650, 750, 800, 900, 950, 990, 1010]


def units(tier):
    q = tier == "quick"
    N, R, C = (6, 9, 13) if q else (10, 14, 20)
    for n in range(N + 1):
        for r in range(2, R + 1):
            yield ["harmonic", n, r, list(range(1, C + 1))]
    for n in range(N + 1, 17 if q else 41):
        yield ["harmonic", n, n + 2, [2 * n + 2]]
        yield ["harmonic", n, 3, [4, 5]]
        yield ["harmonic", n, 12, [7]]
    for n, r, cs in ((0, 300, [3]), (1, 300, [4]), (3, 300, [2, 600]), (5, 1025, [8, 1]), (2, 1030, [1030]), (40, 300, [90]), (7, 4, [1025, 2050])):
        yield ["harmonic", n, r, cs]
    for n in range(41 if q else 121):
        yield ["series", n]
    for n in (LARGE if q else LARGER):
        yield ["series", n]
    for n in (HUGE if q else HUGE + HUGER):
        yield ["huge", n]
    for a in range(len(CALLS)):
        yield ["history", a, 3 if q else 4]


def cost(u):
    return u[1] ** 2 * 40 if u[0] == "huge" else u[1] ** 2 * 20 if u[0] == "series" else u[1] * u[2] * len(u[3]) * 100 if u[0] == "harmonic" else 10 ** 6


CALLS = [("c", 3, 1, 4), ("c", 3, -1, 4), ("c", 4, 2, 9), ("c", 0, 0, 1), ("c", 1, 2, 5), ("py", 3, 1, 4), ("py", 3, -1, 4), ("py", 4, 2, 9),
         ("py", 1, 2, 5), ("tp", 3, 1, (4, 6)), ("tp", 3, -1, (4, 6)), ("tp", 3, 1, (5, 4)), ("tp", 4, 2, (4, 6)), ("tp", 0, 0, (2, 2))]


@functools.lru_cache(maxsize=3)
def legendre(n):
    """Pbar_nm at theta = pi k/(n+1), k = 0..n+1"""
    c, s = ref.cossin(n + 2)
    return ref.Leg(c, s, n, n)


@functools.lru_cache(maxsize=3)
def kernel(n):
    """e^{-i nu theta_k}, nu = 0..n over the points of the double sphere"""
    K = 2 * n + 2
    r = ref.roots(K)
    nu, k = np.arange(n + 1), np.arange(K)
    return np.conj(r)[np.outer(nu, k) % K] / K


def column(n, m):
    """Pbar_nm at theta = pi k/(n+1), k = 0..n+1, by the recurrence in n for this m only"""
    c, s = ref.cossin(n + 2)
    a = abs(m)
    p = np.full(c.shape, np.sqrt(1 / (4 * ref.PI)), dtype=ref.LD)
    for k in range(1, a + 1):
        p = -p * s * np.sqrt(ref.LD(2 * k + 1) / ref.LD(2 * k))
    q = np.zeros_like(p)
    for k in range(a + 1, n + 1):
        f = np.sqrt(ref.LD(4 * k * k - 1) / ref.LD(k * k - a * a))
        g = np.sqrt(ref.LD((k - 1) ** 2 - a * a) / ref.LD(4 * (k - 1) ** 2 - 1))
        p, q = f * (c * p - g * q), p
    return -p if m < 0 and a % 2 else p


def series(n, m):
    """y(nu), nu = 0..n, by the discrete Fourier integral"""
    if abs(m) > n:
        return np.zeros(n + 1)
    p = legendre(n)(n, m) if n < 500 else column(n, m)
    d = np.concatenate([p, (-1) ** m * p[n:0:-1]])
    c = kernel(n) @ d
    c = c * np.conj(1j ** (m % 4))
    assert np.max(np.abs(c.imag)) < 1e-15 * (n + 10)
    return c.real.astype(np.float64)


@functools.lru_cache(maxsize=8)
def theta_part(n, nr):
    c, s = ref.cossin(nr)
    return ref.Leg(c, s, n, n)


def harmonic(n, m, nr, nc):
    r = ref.roots(nc)
    return (theta_part(n, nr)(n, m)[:, None] * r[(m * np.arange(nc)) % nc][None, :]).astype(np.complex128)


def tol(n):
    return 4e-15 * (n + 10)


def get_series(which, n, m, L):
    sp = lib.sp
    if which == "c":
        z = np.full(L, 7.25)
        sp.csphi.ynunm(n, m, z)
        return z
    return np.asarray(sp.pysphi.ynunm(n, m, L))


def compare_series(ctx, got, n, m, L, want, what):
    w = np.zeros(L)
    w[:n + 1] = want
    ctx.check(got.shape == (L,), lambda: "%s has shape %r" % (what, got.shape))
    e = np.abs(got - w)
    bad = ~(e <= tol(n))
    zero = np.arange(L)
    zero = (zero > n) | ((n - zero) % 2 == 1) | (abs(m) > n)
    bad |= zero & ~(np.abs(got) <= 1e-300)
    if bad.any():
        k = int(np.argmax(bad))
        ctx.check(False, "%s: y(%d|%d,%d) is %r, expected %r" % (what, k, n, m, float(got[k]), float(w[k])))


def run(ctx, u):
    sp = lib.sp
    if u[0] == "harmonic":
        _, n, nr, ncs = u
        nc = ctx.choose("columns", ncs)
        m = ctx.choose("m", range(-n, n + 1))
        got = np.asarray(sp.sph_harmonic_tp(nr, nc, n, m))
        want = harmonic(n, m, nr, nc)
        ctx.op()
        ctx.check(got.shape == (nr, nc), lambda: "sph_harmonic_tp has shape %r" % (got.shape,))
        ctx.check(lib.maxerr(got, want) <= tol(n), lambda: "sph_harmonic_tp(%d,%d,%d,%d) %s" % (nr, nc, n, m, lib.where(got, want)))
        if nc % 2 == 0 and nr >= n + 2 and nc >= 2 * abs(m) + 2 and nr * nc < 50000:
            for be in ("c", "py"):
                c = sp.zeros_coefs(n, abs(m))
                c[n, m] = 1.0
                with boot.backend(be):
                    p = sp.ispht(c, nr, nc).array
                ctx.op()
                ctx.check(lib.maxerr(p, got) <= 8 * tol(n) + 1e-14 * nr, lambda: "ispht of the mode and sph_harmonic_tp(%d,%d,%d,%d) differ %s" % (
                    nr, nc, n, m, lib.where(p, got)))
        ctx.observe(got)
    elif u[0] in ("series", "huge"):
        n = u[1]
        m = ctx.choose("m", range(-n - 2, n + 3) if u[0] == "series" else sorted({k for j in (0, 1, 2, 7, n // 3, n // 2, n - 2, n - 1, n, n + 1) for k in (-j, j)}))
        want = series(n, m)
        for which in ("c", "py") if n <= 130 or u[0] == "huge" else ("c",) if m % 16 else ("c", "py"):
            for L in sorted({n + 1, n + 2, n + 7, 2 * n + 5} if u[0] == "series" else {n + 1}):
                got = get_series(which, n, m, L)
                ctx.op()
                compare_series(ctx, got, n, m, L, want, "%s ynunm" % which)
        a, b = sp.csphi.ynnm(n, m), sp.pysphi.ynnm(n, m)
        for v, what in ((a, "c ynnm"), (b, "py ynnm")):
            ctx.check(abs(v - want[n]) <= tol(n), lambda: "%s(%d,%d) is %r, expected %r" % (what, n, m, v, want[n]))
        ctx.op(2)
        ctx.observe(want)
    else:
        _, first, depth = u
        seq = [CALLS[first]]
        ctx.note("call", CALLS[first])
        for _ in range(depth - 1):
            seq.append(ctx.choose("call", CALLS))
        got = []
        for which, n, m, L in seq:
            r = np.asarray(sp.sph_harmonic_tp(L[0], L[1], n, m)) if which == "tp" else get_series(which, n, m, L)
            got.append(r)
            ctx.op()
        for i, ((which, n, m, L), r) in enumerate(zip(seq, got)):
            if which == "tp":
                want = harmonic(n, m, *L)
                ctx.check(lib.maxerr(r, want) <= tol(n), lambda: "sph_harmonic_tp(%d,%d,%d,%d) %s" % (L + (n, m, lib.where(r, want))))
            elif n < L:
                compare_series(ctx, r, n, m, L, series(n, m), which + " ynunm")
            ctx.check(not any(np.shares_memory(r, g) for g in got[:i]), "results of two calls share memory")
            r[...] = -3
        ctx.observe(repr(seq))
