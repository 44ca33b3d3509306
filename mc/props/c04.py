"""C04 vector analysis: every single-sample transverse pattern, every vector harmonic, dense patterns, all requests."""
import functools
import numpy as np
from mc import lib, ref, boot
ID = "C04"
LEVEL = "model_checking"
RULE = ("one execution = one analysis of one transverse pattern with one request size and one back end, every "
        "coefficient of both families compared with the surface integral of the interpolated field against the vector "
        "harmonics (Gauss-Legendre quadrature, exact for it) or with the coefficients it was synthesised from; patterns "
        "are every single sample of both components times 1 and i (a basis), every harmonic, patterns with structure, dense sets, scalings")
BOUNDS = {
    "quick": "basis: nrows 2..8, ncols 2..10 even; requests: all; dense: nrows<=22 and large shapes of some 35 sizes up to 260 rows; few modes on grids up to 32770 rows or 4098 columns, small requests; structured patterns x six relations between the components with all or seven requests for all basis shapes and two more",
    "thorough": "basis: nrows 2..13, ncols 2..18 even; requests: all; dense: nrows<=50 and large shapes of some 35 sizes up to 522 rows; few modes on grids up to 65538 rows or columns, small requests; structured patterns for all basis shapes",
}
ASSUMPTIONS = ["long double Gauss-Legendre quadrature and explicit discrete Fourier sums as reference",
               "tolerance 4e-14*(nrows+5)*12 relative to the largest sample"]
# few modes on many rows and / or columns
WIDE = [(0, 0), (1, 1), (3, 2), (10, 4)]
GRIDS = [(12, 300), (60, 1026), (200, 16), (257, 258), (520, 512), (1025, 10), (4098, 10), (12, 4098), (32770, 10)]


def setup(tier):
    lib.setup()


def units(tier):
    q = tier == "quick"
    for nr in range(2, 9 if q else 14):
        for nc in range(2, 12 if q else 20, 2):
            for be in ("c", "py"):
                yield ["basis", nr, nc, be]
                yield ["requests", nr, nc, be]
                yield ["structured", nr, nc, be]
    for nr in range(2, 23 if q else 51):
        for nc in sorted({2, 4, 2 * ((nr - 2) // 2) + 2, 2 * nr - 2, 2 * nr, 4 * nr + 6}):
            for be in ("c", "py"):
                if be == "py" and nr > (12 if q else 22):
                    continue
                yield ["dense", nr, nc, be]
    for nr, nc in ((13, 26), (18, 12)):
        yield ["structured", nr, nc, "c"]
    for n in [31, 32, 33, 63, 64, 65, 100, 128, 200, 258] + ([] if q else [127, 129, 255, 256, 257, 300, 520]):
        yield ["large", n + 2, 2 * n + 2, "c"]
        yield ["large", n + 5, 2 * (n // 3) + 4, "c"]
    for n in [26, 27, 28, 29, 30, 34, 36, 37, 40, 41, 43, 46, 48, 50, 51, 54, 57, 60, 62, 72, 80, 96, 101, 120, 144]:
        for nr, nc in ((n + 2, 2 * n + 4), (n + 2, 6), (n + 3, 2), (n + 2, 2 * (n // 2) + 2), (n // 2, 2 * n)):
            yield ["large", nr, nc, "c"]
    for nr, nc in GRIDS + ([] if q else [(2050, 66), (66, 4098), (1030, 1030), (65538, 10), (14, 65538)]):
        yield ["wide", nr, nc, "c"]
        if nr * nc < 6000:
            yield ["wide", nr, nc, "py"]

def cost(u):
    if u[0] == "wide":
        return u[1] * u[2] * 20
    w = {"basis": 4, "requests": 2, "structured": 4, "dense": 1, "large": 1}[u[0]]
    return w * u[1] ** 2 * (u[2] + 3) * (4 if u[3] != "c" else 1)


@functools.lru_cache(maxsize=2)
def matrix(nr, nc):
    nmax = nr - 2
    mmax = min(nmax, nc // 2 - 1)
    r = ref.roots(nc)
    col = np.arange(nc)
    K = [[], [], [], []]
    z = np.zeros((2 * nr - 2) * nc)
    for n, m in ref.modes(nmax, mmax):
        if n == 0:
            for k in K:
                k.append(z)
            continue
        f = ref.vector_functional(nr, nmax, m)
        e = r[(-m * col) % nc] / nc
        for k, g in zip(K, f):
            k.append(np.outer(g[n - max(1, abs(m))], e).ravel().astype(np.complex128))
    return (nmax, mmax) + tuple(np.array(k).astype(np.complex128) for k in K)


def analyse(be, p, nmax, mmax, form="positional"):
    sp = lib.sp
    with boot.backend(be):
        if form == "positional":
            return sp.vspht(p, nmax, mmax)
        if form == "keywords":
            return sp.vspht(p, mmax=mmax, nmax=nmax)
        if form == "nmax only":
            return sp.vspht(p, nmax)
        if form == "mmax only":
            return sp.vspht(p, mmax=mmax)
        return sp.vspht(p)


def compare(ctx, c, want, nmax, mmax, tol, scale=1.0):
    ctx.check(isinstance(c, lib.sp.VectorCoefs), "result is a %s" % type(c).__name__)
    ctx.check((c.nmax, c.mmax) == (nmax, mmax), lambda: "result has (nmax, mmax) = %r, not %r" % ((c.nmax, c.mmax), (nmax, mmax)))
    md = ref.modes(nmax, mmax)
    out = []
    for k, s in enumerate((c.scoef1, c.scoef2)):
        got = lib.cvec(s) / scale
        out.append(got)
        w = np.asarray(want[k], dtype=np.complex128).copy()
        w[0] = 0
        ctx.check(got.shape == w.shape, "wrong number of coefficients")
        d = np.abs(got - w)
        d = np.where(np.isnan(d), np.inf, d)
        i = int(np.argmax(d))
        ctx.check(d[i] <= tol, lambda: "family %d: c[%d,%d] = %r, expected %r" % ((k + 1,) + md[i] + (complex(got[i]), complex(w[i]))))
        ctx.check(got[0] == 0, lambda: "family %d has the n = 0 entry %r" % (k + 1, got[0]))
    return out


def build(a, b, how):
    sp = lib.sp
    if how == "ctor":
        return sp.TransversePatternUniform(a, b)
    if how == "double":
        return sp.TransversePatternUniform(ref.double(a, -1).astype(np.complex128), ref.double(b, -1).astype(np.complex128), doublesphere=True)
    if how in ("complex64", "int64"):
        return sp.TransversePatternUniform(*[(x.real if how == "int64" else x).astype(how) for x in (a, b)])
    if how == "sum":
        h = sp.TransversePatternUniform(0.5 * a, 0.5 * b)
        return h + h
    if how == "same array":
        d = ref.double(a, -1).astype(np.complex128)
        return sp.TransversePatternUniform(d, d, doublesphere=True)
    raise KeyError(how)


def run(ctx, u):
    sp = lib.sp
    kind, nr, nc, be = u
    tol0 = 4e-14 * (nr + 5) * 12
    h = nc // 2
    if kind == "large":
        nmax, mmax = nr - 2, min(nr - 2, nc // 2 - 1)
        j = ctx.choose("set", [0, 1])
        v1, v2 = ref.dense(nmax, mmax, j), ref.dense(nmax, mmax, j + 4)
        ft, fp = ref.vsynth(v1, v2, nmax, mmax, nr, nc)
        d = [ref.double(x, -1).astype(np.complex128) for x in (ft, fp)]
        p = sp.TransversePatternUniform(d[0], d[1], doublesphere=True)
        big = max(np.max(np.abs(d[0])), np.max(np.abs(d[1])))
        for N, M in ((nmax, mmax), (nmax // 2, min(nmax // 2, mmax))):
            c = analyse(be, p, N, M)
            ctx.op()
            compare(ctx, c, (lib.vecof(v1, N, M), lib.vecof(v2, N, M)), N, M, tol0 * big)
        return
    if kind == "wide":
        N0, M0 = WIDE[-1]
        M0 = min(M0, nc // 2 - 1)
        j = ctx.choose("set", [0, 1])
        v1, v2 = ref.dense(N0, M0, j), ref.dense(N0, M0, j + 4)
        d = [ref.double(x, -1).astype(np.complex128) for x in ref.vsynth(v1, v2, N0, M0, nr, nc)]
        p = sp.TransversePatternUniform(d[0], d[1], doublesphere=True)
        big = max(np.max(np.abs(d[0])), np.max(np.abs(d[1])))
        for N, M in WIDE + [(min(nr - 2, 40), min(nr - 2, nc // 2 - 1, 7))]:
            c = analyse(be, p, N, M)
            ctx.op()
            compare(ctx, c, (lib.vecof(v1, N, M), lib.vecof(v2, N, M)), N, M, tol0 * big)
        return
    if kind == "dense":
        nmax, mmax = nr - 2, min(nr - 2, nc // 2 - 1)
    else:
        nmax, mmax, KT, KP, HT, HP = matrix(nr, nc)
    full = ref.modes(nmax, mmax)
    pos = {nm: i for i, nm in enumerate(full)}

    def reference(dt, dp, N, M):
        t, p = np.asarray(dt, dtype=np.complex128).ravel(), np.asarray(dp, dtype=np.complex128).ravel()
        v, w = KT.dot(t) + KP.dot(p), HT.dot(t) + HP.dot(p)
        ix = [pos[nm] for nm in ref.modes(N, M)]
        return v[ix], w[ix]

    if kind == "basis":
        what = ctx.choose("pattern", ["sample", "harmonic"])
        if what == "sample":
            comp = ctx.choose("component", ["theta", "phi"])
            r = ctx.choose("row", range(nr))
            q = ctx.choose("col", range(nc if r not in (0, nr - 1) else h))
            val = ctx.choose("value", [1.0, 1j])
            a = np.zeros((nr, nc), dtype=np.complex128)
            a[r, q] = val
            if r in (0, nr - 1):
                a[r, q + h] = -val
            z = np.zeros_like(a)
            a, b = (a, z) if comp == "theta" else (z, a)
            want = reference(ref.double(a, -1), ref.double(b, -1), nmax, mmax)
            big = 1.0
        else:
            if nmax == 0:
                return
            k = ctx.choose("mode", range(1, len(full)))
            fam = ctx.choose("family", [1, 2])
            val = ctx.choose("value", [1.0, 1j])
            v1, v2 = ({full[k]: val}, {}) if fam == 1 else ({}, {full[k]: val})
            ft, fp = ref.vsynth(v1, v2, nmax, mmax, nr, nc)
            a, b = lib.consistent_vector(ft.astype(np.complex128)), lib.consistent_vector(fp.astype(np.complex128))
            want = (lib.vecof(v1, nmax, mmax), lib.vecof(v2, nmax, mmax))
            big = max(1.0, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
        p = sp.TransversePatternUniform(a, b)
        before = lib.bytes_of(p)
        c = analyse(be, p, nmax, mmax)
        ctx.op()
        got = compare(ctx, c, want, nmax, mmax, tol0 * big)
        ctx.check(lib.bytes_of(p) == before, "the pattern passed in was changed")
        if nr <= 5:
            ctx.observe(np.round(got[0], 9), np.round(got[1], 9))
        return
    if kind == "requests":
        N = ctx.choose("nmax", range(nmax, -1, -1))
        M = ctx.choose("mmax", range(min(N, mmax), -1, -1))
        sets = ["complex"] if nr * nc > 50 else ["complex", "real", "imag", "scaled up", "scaled down", "theta only",
                                                   "phi only", "inconsistent poles"]
        what = ctx.choose("set", sets)
        how = ctx.choose("origin", ["ctor", "double", "sum", "same array", "complex64", "int64"] if what == "complex" else ["ctor"])
        forms = ["positional"]
        if how == "ctor" and what == "complex":
            forms.append("keywords")
            if M == N:
                forms.append("nmax only")
            if N == nmax and nc // 2 - 1 <= nmax:
                forms.append("mmax only")
                if M == mmax:
                    forms.append("neither")
        form = ctx.choose("call", forms)
        k = what if what in ("real", "imag") else "complex"
        a, b = lib.generic_array(nr, nc, 0, k), lib.generic_array(nr, nc, 7, k)
        if what == "theta only":
            b = 0 * b
        if what == "phi only":
            a = 0 * a
        if what != "inconsistent poles":
            a, b = lib.consistent_vector(a), lib.consistent_vector(b)
        if how == "same array":
            b = a
        if how in ("complex64", "int64"):
            a, b = [np.array(x, dtype=np.complex64).astype(np.complex128) if how[0] == "c" else np.round(3 * x.real) + 0j for x in (a, b)]
        scale = {"scaled up": 2.0 ** 200, "scaled down": 2.0 ** -200}.get(what, 1.0)
        p = build(a * scale, b * scale, how)
        if what == "inconsistent poles":
            dt, dp = [np.array(x) for x in p.doublesphere]
        else:
            dt, dp = ref.double(a, -1), ref.double(b, -1)
        before = lib.bytes_of(p)
        c = analyse(be, p, N, M, form)
        ctx.op()
        compare(ctx, c, reference(dt, dp, N, M), N, M, tol0 * (5 if how == "int64" else 1.5), scale)
        ctx.check(lib.bytes_of(p) == before, "the pattern passed in was changed")
        return
    if kind == "structured":
        from mc.props.c02 import requests
        arrays = lib.shaped_arrays(nr, nc)
        a = lib.consistent_vector(arrays[ctx.choose("pattern", list(arrays))]())
        a, b = lib.related(a, lib.consistent_vector(lib.generic_array(nr, nc, 6)), ctx.choose("relation", lib.RELATIONS))
        dt, dp = ref.double(a, -1), ref.double(b, -1)
        p = sp.TransversePatternUniform(dt.copy(), dp.copy(), doublesphere=True)
        big = max(1.5, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
        want = reference(dt, dp, nmax, mmax)
        for N, M in requests(nmax, mmax):
            c = analyse(be, p, N, M)
            ctx.op()
            ix = [pos[nm] for nm in ref.modes(N, M)]
            compare(ctx, c, (want[0][ix], want[1][ix]), N, M, tol0 * big)
        return
    what = ctx.choose("set", ["generic", "band limited", "real", "round trip"])
    if what in ("generic", "real"):
        k = "real" if what == "real" else "complex"
        a, b = [lib.consistent_vector(lib.generic_array(nr, nc, j, k)) for j in (2, 8)]
        dt, dp = ref.double(a, -1).astype(np.complex128), ref.double(b, -1).astype(np.complex128)
        p = sp.TransversePatternUniform(dt, dp, doublesphere=True)
        w1, w2 = ref.vanalysis(dt, dp, nmax, mmax)
        want = (lib.vecof(w1, nmax, mmax), lib.vecof(w2, nmax, mmax))
        big = 1.5
    else:
        v1, v2 = ref.dense(nmax, mmax, 3), ref.dense(nmax, mmax, 9)
        v1[0, 0] = v2[0, 0] = 0
        want = (lib.vecof(v1, nmax, mmax), lib.vecof(v2, nmax, mmax))
        if what == "band limited":
            ft, fp = ref.vsynth(v1, v2, nmax, mmax, nr, nc)
            p = sp.TransversePatternUniform(ref.double(ft, -1).astype(np.complex128), ref.double(fp, -1).astype(np.complex128), doublesphere=True)
        else:
            with boot.backend(be):
                p = sp.vispht(sp.VectorCoefs(want[0].copy(), want[1].copy(), nmax, mmax), nr, nc)
        big = max(1.0, float(np.max(np.abs(p.theta))), float(np.max(np.abs(p.phi))))
    for N, M in ((nmax, mmax), (nmax // 2, min(nmax // 2, mmax)), (nmax, 0), (0, 0)):
        c = analyse(be, p, N, M)
        ctx.op()
        ix = [pos[nm] for nm in ref.modes(N, M)]
        compare(ctx, c, (want[0][ix], want[1][ix]), N, M, tol0 * big)
