"""C03 vector synthesis: every unit mode of both families and dense sets on every grid in the bound."""
import numpy as np
from mc import lib, ref, boot
ID = "C03"
LEVEL = "model_checking"
RULE = ("one execution = one vector synthesis of one coefficient set on one grid with one back end, both components "
        "compared sample by sample with the explicit sum of vector harmonics; sets are every unit mode of both "
        "families times 1 and i (a basis), sets with structure, dense sets and their scalings")
BOUNDS = {
    "quick": "basis: nmax<=6, all mmax, nrows nmax+2..nmax+5, ncols 2mmax+2..2mmax+6; dense: nmax<=20 and large shapes of some 40 sizes up to nmax 258; four small sizes on grids up to 32770 rows or 4098 columns; some forty structured sets x six relations between the families for nmax<=6 and 11, 16",
    "thorough": "basis: nmax<=12, all mmax, nrows nmax+2..nmax+6, ncols 2mmax+2..2mmax+10; dense: nmax<=48 and large shapes of some 40 sizes up to nmax 520; four small sizes on grids up to 65538 rows or columns; structured sets for nmax<=12, 16",
}
ASSUMPTIONS = ["long double recurrences for Pnm, dPnm/dtheta and m Pnm/sin(theta) as reference",
               "tolerance 2e-13*(nmax+5)^1.5 relative to the sum of |a|"]
# few modes on many rows and / or columns
WIDE = [(0, 0), (1, 1), (3, 2), (10, 4)]
GRIDS = [(12, 300), (60, 1026), (200, 16), (257, 258), (520, 512), (1025, 10), (4098, 10), (12, 4098), (32770, 10)]


def setup(tier):
    lib.setup()


def units(tier):
    q = tier == "quick"
    for nmax in range(0, (7 if q else 13)):
        for mmax in range(nmax + 1):
            for dr in range(2, 6 if q else 7):
                for dc in range(2, 8 if q else 12, 2):
                    for be in ("c", "py"):
                        if be == "py" and nmax > 8 and (dr > 3 or dc > 4):
                            continue
                        yield ["basis", nmax, mmax, nmax + dr, 2 * mmax + dc, be]
                    if dr in (2, 3) and dc in (2, 4):
                        for be in ("c", "py"):
                            yield ["structured", nmax, mmax, nmax + dr, 2 * mmax + dc, be]
    for nmax in range(0, 21 if q else 49):
        for mmax in sorted({0, min(1, nmax), min(2, nmax), nmax // 2, max(0, nmax - 1), nmax}):
            for nr in sorted({nmax + 2, nmax + 3, 2 * nmax + 7, 2 * nmax + 8}):
                for nc in sorted({2 * mmax + 2, 2 * mmax + 4, 4 * mmax + 10}):
                    for be in ("c", "py"):
                        if be == "py" and nmax > (10 if q else 20):
                            continue
                        yield ["dense", nmax, mmax, nr, nc, be]
    for nmax in (11, 16):
        for mmax in (nmax, 5):
            yield ["structured", nmax, mmax, nmax + 2 + nmax % 2, 2 * mmax + 2, "c"]
    for nmax in [31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 258] + ([] if q else [129, 255, 256, 300, 400, 520]):
        for mmax in (nmax, nmax // 3):
            yield ["dense", nmax, mmax, nmax + 2, 2 * mmax + 2, "c"]
            if nmax <= 128:
                yield ["dense", nmax, mmax, nmax + 7, 2 * mmax + 10, "c"]
    for nmax in [26, 27, 28, 29, 30, 34, 36, 37, 40, 41, 43, 46, 48, 50, 51, 54, 57, 60, 62, 72, 80, 96, 101, 120, 144, 160]:
        for mmax, nr, nc in ((nmax, nmax + 3, 2 * nmax + 4), (nmax - 1, 2 * nmax + 4, 2 * nmax), (nmax // 2, nmax + 5, 2 * nmax + 2),
                             (2, 2 * nmax + 5, 10), (1, nmax + 2, 4), (0, nmax + 4, 2)):
            yield ["dense", nmax, mmax, nr, nc, "c"]
    for nmax, mmax in WIDE:
        for nr, nc in GRIDS + ([] if q else [(2050, 66), (66, 4098), (1030, 1030), (65538, 10), (14, 65538)]):
            yield ["dense", nmax, mmax, nr, nc, "c"]
            if nr * nc < 6000:
                yield ["dense", nmax, mmax, nr, nc, "py"]

def cost(u):
    return (u[1] ** 2 + u[3] * u[4] // 500) * (3 if u[5] != "c" else 1) * (1 if u[0] == "dense" else 4)


def origin(kind, v1, v2, nmax, mmax):
    sp = lib.sp
    if kind == "items":
        return lib.vcoefs(v1, v2, nmax, mmax)
    a, b = lib.vecof(v1, nmax, mmax), lib.vecof(v2, nmax, mmax)
    if kind == "ctor":
        return sp.VectorCoefs(a, b, nmax, mmax)
    if kind == "strided":
        ab = np.empty((a.size, 2), dtype=np.complex128)
        ab[:, 0] = a
        ab[:, 1] = b
        return sp.VectorCoefs(ab[:, 0], ab[:, 1], nmax, mmax)
    if kind == "shared":            # both families are one and the same array
        return sp.VectorCoefs(a, a, nmax, mmax)
    if kind == "cut":
        big = sp.zeros_coefs(nmax + 2, mmax + 1 if mmax == nmax else mmax, coef_type=sp.vector)
        for n, m in ref.modes(big.nmax, big.mmax):
            if n:
                big[n, m] = (v1.get((n, m), 7.0), v2.get((n, m), 7.0))
        return big[0:nmax, :]
    if kind == "monopole":          # an n = 0 entry put in through the component
        c = lib.vcoefs(v1, v2, nmax, mmax)
        c.scoef1[0, 0] = 3.0 - 1j
        c.scoef2[0, 0] = 2j
        return c
    raise KeyError(kind)


def run(ctx, u):
    sp = lib.sp
    kind, nmax, mmax, nr, nc, be = u
    md = ref.modes(nmax, mmax)
    scale = 1.0
    org, form = "items", "positional"
    if kind == "structured":
        sets = lib.shaped_sets(nmax, mmax)
        s = sets[ctx.choose("set", list(sets))]
        v1, v2 = lib.related(s, ref.dense(nmax, mmax, 6), ctx.choose("relation", lib.RELATIONS))
        v1, v2 = [{k: x for k, x in v.items() if k[0]} for v in (v1, v2)]
        org = "ctor"
    elif kind == "basis":
        what = ctx.choose("set", ["complex", "real", "imag", "scaled up", "scaled down", "first only", "second only"]
                          + list(range(1, len(md))))
        if isinstance(what, int):
            fam = ctx.choose("family", [1, 2])
            val = ctx.choose("value", [1.0, 1j])
            v1, v2 = {md[what]: val}, {}
            if fam == 2:
                v1, v2 = v2, v1
        else:
            if what == "complex":
                org = ctx.choose("origin", ["items", "ctor", "strided", "shared", "cut", "monopole"])
                form = ctx.choose("call", ["positional", "keywords"] +
                                  (["defaults"] if (nr, nc) == (nmax + 2, 2 * mmax + 2) else []))
            scale = {"scaled up": 2.0 ** 200, "scaled down": 2.0 ** -200}.get(what, 1.0)
            k = what if what in ("real", "imag") else "complex"
            v1 = {q: v * scale for q, v in ref.dense(nmax, mmax, 0, k).items()}
            v2 = {q: v * scale for q, v in ref.dense(nmax, mmax, 5, k).items()}
            if what == "first only":
                v2 = {}
            if what == "second only":
                v1 = {}
    else:
        j = ctx.choose("set", [1, 2])
        v1, v2 = ref.dense(nmax, mmax, j), ref.dense(nmax, mmax, j + 3)
        org = "ctor"
    if org == "shared":
        v2 = v1
    c = origin(org, v1, v2, nmax, mmax)
    before = lib.bytes_of(c)
    with boot.backend(be):
        if form == "positional":
            p = sp.vispht(c, nr, nc)
        elif form == "keywords":
            p = sp.vispht(c, ncols=nc, nrows=nr)
        else:
            p = sp.vispht(c)
    ctx.op()
    ctx.check(lib.bytes_of(c) == before, "the coefficients passed in were changed")
    ctx.check(isinstance(p, sp.TransversePatternUniform), "result is a %s" % type(p).__name__)
    ctx.check(p.shape == (nr, nc), lambda: "result has shape %r, not %r" % (p.shape, (nr, nc)))
    s1 = {k: v / scale for k, v in v1.items()}
    s2 = {k: v / scale for k, v in v2.items()}
    wt, wp = ref.vsynth(s1, s2, nmax, mmax, nr, nc)
    tot = sum(abs(v) for v in s1.values()) + sum(abs(v) for v in s2.values())
    norm = max(1e-3, tot / (1 if len(s1) + len(s2) <= 2 else 2))
    tol = 2e-13 * (nmax + 5) ** 1.5 * norm
    gd = p.doublesphere
    for name, got, want, dbl in (("theta", p.theta, wt, gd[0]), ("phi", p.phi, wp, gd[1])):
        g = np.array(got) / scale
        ctx.check(lib.maxerr(g, want) <= tol, lambda: name + " component " + lib.where(g, want))
        g2 = np.array(dbl) / scale
        w2 = ref.double(want, -1)
        ctx.check(lib.maxerr(g2, w2) <= tol, lambda: name + " component, double sphere " + lib.where(g2, w2))
    if nmax <= 4:
        ctx.observe(np.round(np.array(p.theta) / scale, 9), np.round(np.array(p.phi) / scale, 9))
