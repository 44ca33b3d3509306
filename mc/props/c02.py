"""C02 scalar analysis: every single-sample pattern, every harmonic, dense patterns, every request size."""
import functools
import numpy as np
from mc import lib, ref, boot
ID = "C02"
LEVEL = "model_checking"
RULE = ("one execution = one analysis of one pattern with one request size and one back end, every coefficient compared "
        "with the surface integral of the interpolated pattern (Gauss-Legendre quadrature, exact for it) or with the "
        "coefficients the pattern was synthesised from; patterns are every single sample times 1 and i (a basis), every "
        "harmonic within the band limit, patterns with structure, dense sets and scalings; requests are all admissible (nmax, mmax) incl. omitted")
BOUNDS = {
    "quick": "basis: nrows 2..9, ncols 2..12 even; requests: all for dense patterns; dense: nrows<=26 and large shapes of some 35 sizes up to 260 rows; few modes on grids up to 32770 rows or 4098 columns, small requests; structured patterns (zero, constant, zonal, checkerboards, symmetries, one row, one column) with all or seven requests for all basis shapes and three up to 22 x 44",
    "thorough": "basis: nrows 2..15, ncols 2..20 even; requests: all; dense: nrows<=60 and large shapes of some 35 sizes up to 522 rows; few modes on grids up to 65538 rows or columns, small requests; structured patterns for all basis shapes",
}
ASSUMPTIONS = ["long double Gauss-Legendre quadrature and explicit discrete Fourier sums as reference",
               "tolerance 4e-14*(nrows+5) relative to the largest sample (times 4 pi)"]
# few modes on many rows and / or columns
WIDE = [(0, 0), (1, 1), (3, 2), (10, 4)]
GRIDS = [(12, 300), (60, 1026), (200, 16), (257, 258), (520, 512), (1025, 10), (4098, 10), (12, 4098), (32770, 10)]


def setup(tier):
    lib.setup()


def units(tier):
    q = tier == "quick"
    for nr in range(2, 10 if q else 16):
        for nc in range(2, 14 if q else 22, 2):
            for be in ("c", "py", "slow"):
                yield ["basis", nr, nc, be]
                yield ["requests", nr, nc, be]
                yield ["structured", nr, nc, be]
    for nr in range(2, 27 if q else 61):
        for nc in sorted({2, 4, 2 * ((nr - 2) // 2) + 2, 2 * nr - 2, 2 * nr, 4 * nr + 6}):
            for be in ("c", "py"):
                if be == "py" and nr > (14 if q else 26):
                    continue
                yield ["dense", nr, nc, be]
    for nr, nc in ((13, 26), (18, 12), (22, 44)):
        yield ["structured", nr, nc, "c"]
    for n in [31, 32, 33, 63, 64, 65, 100, 128, 200, 258] + ([] if q else [127, 129, 255, 256, 257, 300, 400, 520]):
        yield ["large", n + 2, 2 * n + 2, "c"]
        yield ["large", n + 5, 2 * (n // 3) + 4, "c"]
    for n in [26, 27, 28, 29, 30, 34, 36, 37, 40, 41, 43, 46, 48, 50, 51, 54, 57, 60, 62, 72, 80, 96, 101, 120, 144]:
        for nr, nc in ((n + 2, 2 * n + 4), (n + 2, 6), (n + 3, 2), (n + 2, 2 * (n // 2) + 2), (n // 2, 2 * n)):
            yield ["large", nr, nc, "c"]
    for nr, nc in GRIDS + ([] if q else [(2050, 66), (66, 4098), (1030, 1030), (65538, 10), (14, 65538)]):
        yield ["wide", nr, nc, "c"]
        if nr * nc < 6000:
            yield ["wide", nr, nc, "py"]

def cost(u):
    if u[0] == "wide":
        return u[1] * u[2] * 20
    w = {"basis": 3, "requests": 2, "structured": 2, "dense": 1, "large": 1}[u[0]]
    return w * u[1] ** 2 * (u[2] + 3) * (4 if u[3] != "c" else 1)


@functools.lru_cache(maxsize=2)
def matrix(nr, nc):
    """coefficient vector (n <= nr-2, |m| < nc/2) as a matrix over the double-sphere samples."""
    nmax = nr - 2
    mmax = min(nmax, nc // 2 - 1)
    rows = []
    r = ref.roots(nc)
    col = np.arange(nc)
    for n, m in ref.modes(nmax, mmax):
        G = ref.scalar_functional(nr, nmax, m)[n - abs(m)]
        rows.append((np.outer(G, r[(-m * col) % nc]).ravel() / nc).astype(np.complex128))
    return nmax, mmax, np.array(rows).astype(np.complex128)


def requests(nmax, mmax):
    """All admissible requests of small shapes, the typical ones of others."""
    if nmax <= 4:
        return [(N, M) for N in range(nmax + 1) for M in range(min(N, mmax) + 1)]
    return sorted({(nmax, mmax), (0, 0), (1, min(1, mmax)), (1, 0), (nmax, 0), (nmax // 2, min(nmax // 2, mmax)),
                   (nmax - 1, min(nmax - 1, mmax))})


def analyse(be, p, nmax, mmax, form="positional"):
    sp = lib.sp
    if be == "slow":
        return sp.spht_slow(p, nmax, mmax)
    with boot.backend(be):
        if form == "positional":
            return sp.spht(p, nmax, mmax)
        if form == "keywords":
            return sp.spht(p, mmax=mmax, nmax=nmax)
        if form == "nmax only":
            return sp.spht(p, nmax)
        if form == "mmax only":
            return sp.spht(p, mmax=mmax)
        return sp.spht(p)


def compare(ctx, c, want, nmax, mmax, tol, scale=1.0):
    ctx.check(isinstance(c, lib.sp.ScalarCoefs), "result is a %s" % type(c).__name__)
    ctx.check((c.nmax, c.mmax) == (nmax, mmax), lambda: "result has (nmax, mmax) = %r, not %r" % ((c.nmax, c.mmax), (nmax, mmax)))
    got = lib.cvec(c) / scale
    e = lib.maxerr(got, want)
    if not e <= tol:
        md = ref.modes(nmax, mmax)
        if got.shape == np.shape(want):
            i = int(np.argmax(np.where(np.isnan(got), np.inf, np.abs(got - want))))
            ctx.check(False, "c[%d,%d] = %r, expected %r" % (md[i] + (complex(got[i]), complex(want[i]))))
        ctx.check(False, lib.where(got, want))
    return got


def build(ctx, a, how):
    sp = lib.sp
    if how == "ctor":
        return sp.ScalarPatternUniform(a)
    if how == "fortran":
        return sp.ScalarPatternUniform(np.asfortranarray(a))
    if how == "double":
        return sp.ScalarPatternUniform(ref.double(a, 1).astype(np.complex128), doublesphere=True)
    if how == "double, strided":
        d = ref.double(a, 1).astype(np.complex128)
        z = np.zeros((d.shape[0], 2 * d.shape[1]), dtype=np.complex128)
        z[:, ::2] = d
        return sp.ScalarPatternUniform(z[:, ::2], doublesphere=True)
    if how in ("complex64", "int64"):
        return sp.ScalarPatternUniform((a.real if how == "int64" else a).astype(how))
    if how == "sum":
        h = sp.ScalarPatternUniform(0.5 * a)
        return h + h
    raise KeyError(how)


def run(ctx, u):
    sp = lib.sp
    kind, nr, nc, be = u
    tol0 = 4e-14 * (nr + 5) * 12
    if kind == "large":
        nmax, mmax = nr - 2, min(nr - 2, nc // 2 - 1)
        j = ctx.choose("set", [0, 1])
        vals = ref.dense(nmax, mmax, j)
        a = ref.synth(vals, nmax, mmax, nr, nc).astype(np.complex128)
        p = sp.ScalarPatternUniform(ref.double(a, 1), doublesphere=True)
        for N, M in ((nmax, mmax), (nmax - 1, min(nmax - 1, mmax)), (nmax // 2, min(nmax // 2, mmax))):
            c = analyse(be, p, N, M)
            ctx.op()
            want = lib.vecof({k: v for k, v in vals.items()}, N, M)
            compare(ctx, c, want, N, M, tol0 * np.max(np.abs(a)))
        return
    if kind == "wide":
        N0, M0 = WIDE[-1]
        M0 = min(M0, nc // 2 - 1)
        vals = ref.dense(N0, M0, ctx.choose("set", [0, 1]))
        a = ref.synth(vals, N0, M0, nr, nc).astype(np.complex128)
        p = sp.ScalarPatternUniform(ref.double(a, 1), doublesphere=True)
        for N, M in WIDE + [(min(nr - 2, 40), min(nr - 2, nc // 2 - 1, 7))]:
            c = analyse(be, p, N, M)
            ctx.op()
            compare(ctx, c, lib.vecof(vals, N, M), N, M, tol0 * np.max(np.abs(a)))
        return
    if kind == "dense":
        nmax, mmax, K = nr - 2, min(nr - 2, nc // 2 - 1), None
    else:
        nmax, mmax, K = matrix(nr, nc)
    full = ref.modes(nmax, mmax)
    pos = {nm: i for i, nm in enumerate(full)}

    def reference(d, N, M):
        v = K.dot(np.asarray(d).ravel())
        return np.array([v[pos[nm]] for nm in ref.modes(N, M)])

    if kind == "basis":
        what = ctx.choose("pattern", ["sample", "harmonic"])
        if what == "sample":
            r = ctx.choose("row", range(nr))
            q = ctx.choose("col", range(nc))
            val = ctx.choose("value", [1.0, 1j])
            a = np.zeros((nr, nc), dtype=np.complex128)
            a[r, q] = val
            if r in (0, nr - 1):
                a[r, :] = val
            d = ref.double(a, 1)
            p = sp.ScalarPatternUniform(a)
            want = reference(d, nmax, mmax)
            big = 1.0
        else:
            k = ctx.choose("mode", range(len(full)))
            val = ctx.choose("value", [1.0, 1j])
            a = ref.synth({full[k]: val}, nmax, mmax, nr, nc).astype(np.complex128)
            p = sp.ScalarPatternUniform(a)
            want = lib.vecof({full[k]: val}, nmax, mmax)
            big = max(1.0, float(np.max(np.abs(a))))
        before = lib.bytes_of(p)
        c = analyse(be, p, nmax, mmax)
        ctx.op()
        got = compare(ctx, c, want, nmax, mmax, tol0 * big)
        ctx.check(lib.bytes_of(p) == before, "the pattern passed in was changed")
        if nr <= 5:
            ctx.observe(np.round(got, 9))
        return
    if kind == "requests":
        N = ctx.choose("nmax", range(nmax, -1, -1))
        M = ctx.choose("mmax", range(min(N, mmax), -1, -1))
        sets = ["complex"] if nr * nc > 60 else ["complex", "real", "imag", "scaled up", "scaled down", "inconsistent poles"]
        what = ctx.choose("set", sets)
        hows = ["ctor"]
        forms = ["positional"]
        if what == "complex":
            hows = ["ctor", "fortran", "double", "double, strided", "sum", "complex64", "int64"]
        how = ctx.choose("origin", hows)
        if be != "slow" and how == "ctor" and what == "complex":
            forms.append("keywords")
            if M == N:
                forms.append("nmax only")
            if N == nmax and nc // 2 - 1 <= nmax:
                forms.append("mmax only")
                if M == mmax:
                    forms.append("neither")
        form = ctx.choose("call", forms)
        a = lib.generic_array(nr, nc, 0, what if what in ("real", "imag") else "complex")
        if what != "inconsistent poles":
            a = lib.consistent_scalar(a)
        scale = {"scaled up": 2.0 ** 200, "scaled down": 2.0 ** -200}.get(what, 1.0)
        if how in ("complex64", "int64"):
            a = np.array(a, dtype=np.complex64).astype(np.complex128) if how[0] == "c" else np.round(3 * a.real) + 0j
        p = build(ctx, a * scale, how)
        d = np.array(p.doublesphere) / scale
        if what != "inconsistent poles":
            d = ref.double(a, 1)
        before = lib.bytes_of(p)
        c = analyse(be, p, N, M, form)
        ctx.op()
        compare(ctx, c, reference(d, N, M), N, M, tol0 * (5 if how == "int64" else 1.5), scale)
        ctx.check(lib.bytes_of(p) == before, "the pattern passed in was changed")
        return
    if kind == "structured":
        arrays = lib.shaped_arrays(nr, nc)
        a = lib.consistent_scalar(arrays[ctx.choose("pattern", list(arrays))]())
        p = sp.ScalarPatternUniform(ref.double(a, 1), doublesphere=True)
        v = K.dot(ref.double(a, 1).ravel())
        for N, M in requests(nmax, mmax):
            c = analyse(be, p, N, M)
            ctx.op()
            compare(ctx, c, np.array([v[pos[nm]] for nm in ref.modes(N, M)]), N, M, tol0 * max(1.0, float(np.max(np.abs(a)))))
        return
    # dense
    what = ctx.choose("set", ["generic", "band limited", "real", "round trip"])
    if what == "generic" or what == "real":
        a = lib.consistent_scalar(lib.generic_array(nr, nc, 2, "real" if what == "real" else "complex"))
        p = sp.ScalarPatternUniform(ref.double(a, 1).astype(np.complex128), doublesphere=True)
        want = lib.vecof(ref.analysis(ref.double(a, 1), nmax, mmax), nmax, mmax)
        big = 1.5
    else:
        vals = ref.dense(nmax, mmax, 3)
        want = lib.vecof(vals, nmax, mmax)
        if what == "band limited":
            a = ref.synth(vals, nmax, mmax, nr, nc).astype(np.complex128)
            p = sp.ScalarPatternUniform(ref.double(a, 1), doublesphere=True)
        else:
            with boot.backend(be):
                p = sp.ispht(sp.ScalarCoefs(want.copy(), nmax, mmax), nr, nc)
        big = max(1.0, float(np.max(np.abs(p.array))))
    c = analyse(be, p, nmax, mmax)
    ctx.op()
    compare(ctx, c, want, nmax, mmax, tol0 * big)
    for N, M in ((nmax // 2, min(nmax // 2, mmax)), (nmax, 0), (0, 0)):
        c = analyse(be, p, N, M)
        ctx.op()
        compare(ctx, c, np.array([want[pos[nm]] for nm in ref.modes(N, M)]), N, M, tol0 * big)
