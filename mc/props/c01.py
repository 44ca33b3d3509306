"""C01 scalar synthesis: every unit mode and dense coefficient sets on every grid in the bound."""
import numpy as np
from mc import lib, ref, boot
ID = "C01"
LEVEL = "model_checking"
RULE = ("one execution = one synthesis of one coefficient set on one grid with one back end, compared sample by "
        "sample (array and double sphere) with the explicit sum of harmonics; coefficient sets are every unit mode "
        "times 1 and i (a basis, the transform being linear), sets with structure, dense sets and their scalings")
BOUNDS = {
    "quick": "basis: nmax<=7, all mmax, nrows nmax+2..nmax+5, ncols 2mmax+2..2mmax+6; dense: nmax<=24 and large shapes of some 40 sizes up to nmax 258; four small sizes on grids up to 32770 rows or 4098 columns; some forty structured sets (zero, constant, one n, one |m|, symmetries) for nmax<=7 and 11, 16, 20",
    "thorough": "basis: nmax<=14, all mmax, nrows nmax+2..nmax+7, ncols 2mmax+2..2mmax+10; dense: nmax<=64 and large shapes of some 35 sizes up to nmax 520; four small sizes on grids up to 65538 rows or columns; structured sets for nmax<=14, 16, 20",
}
ASSUMPTIONS = ["long double associated Legendre recurrence as reference", "tolerance 2e-13*(nmax+5) relative to the sum of |c|"]
# few modes on many rows and / or columns
WIDE = [(0, 0), (1, 1), (3, 2), (10, 4)]
GRIDS = [(12, 300), (60, 1026), (200, 16), (257, 258), (520, 512), (1025, 10), (4098, 10), (12, 4098), (32770, 10)]


def setup(tier):
    lib.setup()


def units(tier):
    q = tier == "quick"
    for nmax in range(0, (8 if q else 15)):
        for mmax in range(nmax + 1):
            for dr in range(2, 6 if q else 8):
                for dc in range(2, 8 if q else 12, 2):
                    for be in ("c", "py", "slow"):
                        if be != "c" and not q and (dr > 4 or dc > 4):
                            continue
                        yield ["basis", nmax, mmax, nmax + dr, 2 * mmax + dc, be]
                    if dr in (2, 3) and dc in (2, 4):
                        for be in ("c", "py", "slow"):
                            yield ["structured", nmax, mmax, nmax + dr, 2 * mmax + dc, be]
    for nmax in range(0, 25 if q else 65):
        for mmax in sorted({0, min(1, nmax), min(2, nmax), nmax // 2, max(0, nmax - 1), nmax}):
            for nr in sorted({nmax + 2, nmax + 3, 2 * nmax + 7, 2 * nmax + 8}):
                for nc in sorted({2 * mmax + 2, 2 * mmax + 4, 4 * mmax + 10}):
                    for be in ("c", "py"):
                        if be == "py" and nmax > (12 if q else 24):
                            continue
                        yield ["dense", nmax, mmax, nr, nc, be]
    for nmax in (11, 16, 20):
        for mmax in (nmax, 5):
            yield ["structured", nmax, mmax, nmax + 2 + nmax % 2, 2 * mmax + 2, "c"]
    big = [31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 258] + ([] if q else [129, 255, 256, 257, 300, 400, 520])
    for nmax in big:
        for mmax in (nmax, nmax // 3):
            yield ["dense", nmax, mmax, nmax + 2, 2 * mmax + 2, "c"]
            if nmax <= 128:
                yield ["dense", nmax, mmax, nmax + 7, 2 * mmax + 10, "c"]
    for nmax in [26, 27, 28, 29, 30, 34, 36, 37, 40, 41, 43, 46, 48, 50, 51, 54, 57, 60, 62, 72, 80, 96, 101, 120, 144, 160]:
        for mmax, nr, nc in ((nmax, nmax + 3, 2 * nmax + 4), (nmax - 1, 2 * nmax + 4, 2 * nmax), (nmax // 2, nmax + 5, 2 * nmax + 2),
                             (2, 2 * nmax + 5, 10), (1, nmax + 2, 4), (0, nmax + 4, 2)):
            yield ["dense", nmax, mmax, nr, nc, "c"]
    for nmax, mmax in WIDE:
        for nr, nc in GRIDS + ([] if q else [(2050, 66), (66, 4098), (1030, 1030), (65538, 10), (14, 65538)]):
            yield ["dense", nmax, mmax, nr, nc, "c"]
            if nr * nc < 6000:
                yield ["dense", nmax, mmax, nr, nc, "py"]

def cost(u):
    return (u[1] ** 2 + u[3] * u[4] // 500) * (3 if u[5] != "c" else 1) * (1 if u[0] == "dense" else 2)


def origin(kind, vals, nmax, mmax):
    """The same coefficients, obtained in different ways."""
    sp = lib.sp
    if kind == "items":
        return lib.scoefs(vals, nmax, mmax)
    if kind == "ctor":
        return sp.ScalarCoefs(lib.vecof(vals, nmax, mmax), nmax, mmax)
    if kind == "strided":
        v = np.zeros(2 * ref.ncoef(nmax, mmax), dtype=np.complex128)
        v[1::2] = 9e9
        v[::2] = lib.vecof(vals, nmax, mmax)
        return sp.ScalarCoefs(v[::2], nmax, mmax)
    if kind == "cut":
        big = sp.zeros_coefs(nmax + 2, mmax + 1 if mmax == nmax else mmax)
        for n, m in ref.modes(big.nmax, big.mmax):
            big[n, m] = vals.get((n, m), 7.0)
        return big[0:nmax, :]
    if kind == "sum":
        a = lib.scoefs({k: v * 0.5 for k, v in vals.items()}, nmax, mmax)
        return a + a
    if kind == "columns":
        c = sp.zeros_coefs(nmax, mmax)
        for m in range(-mmax, mmax + 1):
            c[:, m] = np.array([vals.get((n, m), 0) for n in range(abs(m), nmax + 1)])
        return c
    if kind == "rows":
        c = sp.ones_coefs(nmax, mmax)
        for n in range(nmax + 1):
            k = min(n, mmax)
            c[n, :] = [vals.get((n, m), 0) for m in range(-k, k + 1)]
        return c.copy()
    raise KeyError(kind)


def call(be, c, nr, nc, form):
    sp = lib.sp
    if be == "slow":
        return sp.ispht_slow(c, nr, nc)
    with boot.backend(be):
        if form == "positional":
            return sp.ispht(c, nr, nc)
        if form == "keywords":
            return sp.ispht(c, ncols=nc, nrows=nr)
        return sp.ispht(c)


def run(ctx, u):
    kind, nmax, mmax, nr, nc, be = u
    md = ref.modes(nmax, mmax)
    if kind == "structured":
        sets = lib.shaped_sets(nmax, mmax)
        vals = sets[ctx.choose("set", list(sets))]
        scale = 1.0
        org, form = "ctor", "positional"
    elif kind == "basis":
        what = ctx.choose("set", ["complex", "real", "imag", "scaled up", "scaled down"] + list(range(len(md))))
        scale = 1.0
        org = "items"
        if isinstance(what, int):
            val = ctx.choose("value", [1.0, 1j])
            vals = {md[what]: val}
        else:
            if what == "complex":
                org = ctx.choose("origin", ["items", "ctor", "strided", "cut", "sum", "columns", "rows"])
            scale = {"scaled up": 2.0 ** 200, "scaled down": 2.0 ** -200}.get(what, 1.0)
            base = ref.dense(nmax, mmax, 0, what)
            vals = {k: v * scale for k, v in base.items()}
        forms = ["positional"]
        if what == "complex" and be != "slow":
            forms += ["keywords"] + (["defaults"] if (nr, nc) == (nmax + 2, 2 * mmax + 2) else [])
        form = ctx.choose("call", forms)
    else:
        j = ctx.choose("set", [1, 2])
        vals = ref.dense(nmax, mmax, j)
        scale = 1.0
        org, form = "ctor", "positional"
    c = origin(org, vals, nmax, mmax)
    before = lib.bytes_of(c)
    p = call(be, c, nr, nc, form)
    ctx.op()
    ctx.check(lib.bytes_of(c) == before, "the coefficients passed in were changed")
    ctx.check(isinstance(p, lib.sp.ScalarPatternUniform), "result is a %s" % type(p).__name__)
    ctx.check(p.shape == (nr, nc), lambda: "result has shape %r, not %r" % (p.shape, (nr, nc)))
    want = ref.synth({k: v / scale for k, v in vals.items()}, nmax, mmax, nr, nc)
    norm = max(1e-3, sum(abs(v / scale) for v in vals.values()) / (1 if len(vals) == 1 else 2))
    tol = 2e-13 * (nmax + 5) * norm
    got = np.array(p.array) / scale
    ctx.check(lib.maxerr(got, want) <= tol, lambda: "array: " + lib.where(got, want))
    gd = np.array(p.doublesphere) / scale
    wd = ref.double(want, 1)
    ctx.check(lib.maxerr(gd, wd) <= tol, lambda: "double sphere: " + lib.where(gd, wd))
    if nmax <= 4:
        ctx.observe(np.round(got, 9))
