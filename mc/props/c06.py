"""C06 size contracts: the complete lattice of size combinations, omitted arguments included."""
import numpy as np
from mc import lib, ref, boot
ID = "C06"
LEVEL = "model_checking"
RULE = ("one execution = one call with one combination of object size and requested size (each omitted, or on either "
        "side of its limits); outcome (ValueError, TypeError, or a result of exactly the predicted size with every mode "
        "or sample present) compared with the documented contract")
BOUNDS = {
    "quick": "nrows 2..8, ncols 1..12, nmax/mmax -2..9 or omitted; requests around the limits of nine large objects (up to 258 rows, 300 columns, nmax 300) and large factories; constructors: all lengths 0..30, nmax<=4",
    "thorough": "nrows 2..13, ncols 1..20, nmax/mmax -2..14 or omitted; requests around the limits of fourteen large objects (up to 1030 rows, 4098 columns, nmax 1030) and large factories; constructors: all lengths 0..90, nmax<=8",
}
ASSUMPTIONS = ["sizes are Python ints; negative requests must be refused with any of ValueError, TypeError and IndexError; float sizes and odd numbers of double-sphere rows are not explored"]
KEY = "ispht accepts nrows == nmax+1"


def setup(tier):
    lib.setup()


def units(tier):
    q = tier == "quick"
    R, Cc, N = (8, 12, 9) if q else (13, 20, 14)
    for nr in range(2, R + 1):
        for nc in range(1, Cc + 1):
            for f in ("spht", "vspht", "spht_slow"):
                yield ["analysis", f, nr, nc, N]
    for nmax in range(0, R - 1):
        for mmax in range(0, nmax + 1):
            for f in ("ispht", "vispht", "ispht_slow"):
                yield ["synthesis", f, nmax, mmax, R + 2, Cc + 4]
    for nr, nc in ((66, 132), (66, 10), (12, 300), (258, 8), (34, 67)) + (() if q else ((258, 516), (1030, 4), (4, 4098))):
        for f in ("spht", "vspht"):
            yield ["analysis", f, nr, nc, 0]
    for nmax, mmax in ((64, 64), (64, 3), (130, 130), (300, 2)) + (() if q else ((258, 258), (1030, 1))):
        for f in ("ispht", "vispht"):
            yield ["synthesis", f, nmax, mmax, 0, 0]
    for f in ("zeros_coefs", "ones_coefs", "random_coefs"):
        yield ["coefs large", f, q]
    for f in ("zeros_patt_uniform", "ones_patt_uniform", "random_patt_uniform"):
        yield ["patts large", f, q]
    for f in ("zeros_coefs", "ones_coefs", "random_coefs"):
        yield ["coefs", f, N]
    for f in ("zeros_patt_uniform", "ones_patt_uniform", "random_patt_uniform"):
        yield ["patts", f, R + 3, Cc + 3]
    for nmax in range(-2, 5 if q else 9):
        yield ["ctor", nmax, 30 if q else 90]
    yield ["patt ctor", 6 if q else 9]


class Outcome(Exception):
    pass


def outcome(f):
    try:
        return f()
    except (ValueError, TypeError, IndexError) as e:
        return type(e)


def same_size_coefs(ctx, c, N, M, cls):
    ctx.check(isinstance(c, cls), lambda: "expected %s of size (%d,%d), got %s" % (cls.__name__, N, M, getattr(c, "__name__", type(c).__name__)))
    ctx.check((c.nmax, c.mmax, c.size) == (N, M, ref.ncoef(N, M)),
              lambda: "size (%d,%d) with %d modes instead of (%d,%d) with %d" % (c.nmax, c.mmax, c.size, N, M, ref.ncoef(N, M)))
    for part in ([c] if cls is lib.sp.ScalarCoefs else [c.scoef1, c.scoef2]):
        v = lib.cvec(part)
        ctx.check(v.size == ref.ncoef(N, M) and (part.nmax, part.mmax) == (N, M), "modes missing")


def same_size_patt(ctx, p, nr, nc, cls):
    ctx.check(isinstance(p, cls), lambda: "expected %s of shape (%d,%d), got %s" % (cls.__name__, nr, nc, getattr(p, "__name__", type(p).__name__)))
    ctx.check((p.nrows, p.ncols, tuple(p.shape)) == (nr, nc, (nr, nc)), lambda: "shape %r instead of %r" % (p.shape, (nr, nc)))
    a, d = p.array, p.doublesphere
    for x, y in ([(a, d)] if cls is lib.sp.ScalarPatternUniform else list(zip(a, d))):
        ctx.check(x.shape == (nr, nc) and y.shape == (2 * nr - 2, nc), lambda: "array %r, double sphere %r" % (x.shape, y.shape))


def run(ctx, u):
    sp = lib.sp
    kind = u[0]
    if kind == "analysis":
        _, f, nr, nc, top = u
        vec = f == "vspht"
        d = np.ones((2 * nr - 2, nc), dtype=np.complex128)
        p = sp.TransversePatternUniform(d, d, doublesphere=True) if vec else sp.ScalarPatternUniform(d, doublesphere=True)
        slow = f == "spht_slow"
        if top:
            nmax = ctx.choose("nmax", ([] if slow else [None]) + list(range(-2, top + 1)))
            mmax = ctx.choose("mmax", ([] if slow else [None]) + list(range(-2, top + 1)))
            how = ctx.choose("call", ["c"] if slow else ["c", "py", "keywords"])
        else:       # a large shape: around the limits
            nmax = ctx.choose("nmax", [None, 0, nr - 3, nr - 2, nr - 1, nr, 2 * nr])
            mmax = ctx.choose("mmax", [None] + sorted({0, nc // 2 - 2, nc // 2 - 1, nc // 2, nc // 2 + 1, nc, nr - 2, nr - 1, (nmax or 0) + 1}))
            how = ctx.choose("call", ["c", "keywords"])
        kw = {}
        if nmax is not None:
            kw["nmax"] = nmax
        if mmax is not None:
            kw["mmax"] = mmax
        fn = getattr(sp, f)
        with boot.backend("py" if how == "py" else "c"):
            r = outcome((lambda: fn(p, **kw)) if how == "keywords" else (lambda: fn(p, nmax, mmax)))
        ctx.op()
        if nmax is None:
            N = nr - 2
            M = nc // 2 - 1 if mmax is None else mmax
        else:
            N = nmax
            M = nmax if mmax is None else mmax
        ok = 0 <= M <= N <= nr - 2 and 2 * M < nc and nc % 2 == 0
        if ok:
            same_size_coefs(ctx, r, N, M, sp.VectorCoefs if vec else sp.ScalarCoefs)
        else:
            ctx.check(r is ValueError or (min(N, M) < 0 and r in (TypeError, IndexError)), lambda: "%s of a (%d,%d) pattern with nmax=%r, mmax=%r must raise ValueError, got %s" % (
                f, nr, nc, nmax, mmax, getattr(r, "__name__", type(r).__name__)))
        ctx.observe(f, ok, N, M)
        return
    if kind == "synthesis":
        _, f, nmax, mmax, R, Cc = u
        vec = f == "vispht"
        slow = f == "ispht_slow"
        c = sp.ones_coefs(nmax, mmax, coef_type=sp.vector if vec else sp.scalar)
        if R:
            nr = ctx.choose("nrows", ([] if slow else [None]) + list(range(0, R + 1)))
            nc = ctx.choose("ncols", ([] if slow else [None]) + list(range(0, Cc + 1)))
            how = ctx.choose("call", ["c"] if slow else ["c", "py", "keywords"])
        else:       # large coefficients: around the limits
            nr = ctx.choose("nrows", [None, 2] + list(range(nmax - 1, nmax + 5)) + [2 * nmax])
            nc = ctx.choose("ncols", [None, 0] + list(range(2 * mmax - 1, 2 * mmax + 6)) + [4 * mmax, 4 * mmax + 1])
            how = ctx.choose("call", ["c", "keywords"])
        kw = {}
        if nr is not None:
            kw["nrows"] = nr
        if nc is not None:
            kw["ncols"] = nc
        fn = getattr(sp, f)
        with boot.backend("py" if how == "py" else "c"):
            r = outcome((lambda: fn(c, **kw)) if how == "keywords" else (lambda: fn(c, nr, nc)))
        ctx.op()
        NR = nmax + 2 if nr is None else nr
        NC = 2 * mmax + 2 if nc is None else nc
        ok = NR >= nmax + 2 and NC >= 2 * mmax + 2 and NC % 2 == 0
        if ok:
            same_size_patt(ctx, r, NR, NC, sp.TransversePatternUniform if vec else sp.ScalarPatternUniform)
        else:
            key = None
            if not vec and NR == nmax + 1 and NR >= 2 and NC >= 2 * mmax + 2 and NC % 2 == 0 and isinstance(r, sp.ScalarPatternUniform) \
                    and r.shape == (NR, NC):
                key = KEY
            ctx.check(r is ValueError, lambda: "%s of (%d,%d) coefficients with nrows=%r, ncols=%r must raise ValueError, got %s" % (
                f, nmax, mmax, nr, nc, getattr(r, "__name__", type(r).__name__)), key)
        ctx.observe(f, ok, NR, NC)
        return
    if kind == "coefs":
        _, f, top = u
        nmax = ctx.choose("nmax", range(-2, top + 1))
        mmax = ctx.choose("mmax", range(-2, top + 1))
        typ = ctx.choose("type", ["omitted", 0, 1, 2, -1, None, "scalar"])
        fn = getattr(sp, f)
        r = outcome((lambda: fn(nmax, mmax)) if typ == "omitted" else (lambda: fn(nmax, mmax, coef_type=typ)))
        ctx.op()
        good_t = typ in ("omitted", 0, 1) and typ is not None
        good_s = 0 <= mmax <= nmax
        if good_t and good_s:
            same_size_coefs(ctx, r, nmax, mmax, sp.VectorCoefs if typ == 1 else sp.ScalarCoefs)
        elif nmax < 0 or mmax < 0:
            ctx.check(r in (TypeError, ValueError, IndexError), lambda: "%s(%d,%d) must be rejected, got %r" % (f, nmax, mmax, r))
        elif good_t:
            ctx.check(r is ValueError, lambda: "%s(%d,%d) must raise ValueError, got %r" % (f, nmax, mmax, r))
        elif good_s:
            ctx.check(r is TypeError, lambda: "%s of kind %r must raise TypeError, got %r" % (f, typ, r))
        else:
            ctx.check(r in (TypeError, ValueError), lambda: "%s(%d,%d) of kind %r must be rejected, got %r" % (f, nmax, mmax, typ, r))
        ctx.observe(f, nmax, mmax, typ, good_t and good_s)
        return
    if kind == "patts":
        _, f, R, Cc = u
        nr = ctx.choose("nrows", range(2, R + 1))
        nc = ctx.choose("ncols", range(1, Cc + 1))
        typ = ctx.choose("type", ["omitted", 0, 1, 2, -1, None, "scalar"])
        fn = getattr(sp, f)
        r = outcome((lambda: fn(nr, nc)) if typ == "omitted" else (lambda: fn(nr, nc, patt_type=typ)))
        ctx.op()
        good_t = typ in ("omitted", 0, 1) and typ is not None
        if good_t and nc % 2 == 0:
            same_size_patt(ctx, r, nr, nc, sp.TransversePatternUniform if typ == 1 else sp.ScalarPatternUniform)
        elif good_t:
            ctx.check(r is ValueError, lambda: "%s(%d,%d) must raise ValueError, got %r" % (f, nr, nc, r))
        elif nc % 2 == 0:
            ctx.check(r is TypeError, lambda: "%s of kind %r must raise TypeError, got %r" % (f, typ, r))
        else:
            ctx.check(r in (TypeError, ValueError), lambda: "%s(%d,%d) of kind %r must be rejected, got %r" % (f, nr, nc, typ, r))
        ctx.observe(f, nr, nc, typ)
        return
    if kind in ("coefs large", "patts large"):
        _, f, q = u
        coef = kind[0] == "c"
        big = [64, 127, 300] if q else [64, 127, 255, 256, 300, 1030]
        a = ctx.choose("size", big)
        b = ctx.choose("second size", [0, 1, 2, 3, a // 2, a - 1, a, a + 1, a + 2] if coef else [2, 3, 4, a, a + 1, 2 * a])
        typ = ctx.choose("type", ["omitted", 0, 1, 2])
        fn = getattr(sp, f)
        if coef:
            calls = [((a, b), 0 <= b <= a)]
        else:
            calls = [((a, b), b % 2 == 0), ((max(2, b), a), a % 2 == 0)]
        for args, good in calls:
            kw = {} if typ == "omitted" else {("coef_type" if coef else "patt_type"): typ}
            r = outcome(lambda: fn(*args, **kw))
            ctx.op()
            if good and typ != 2:
                if coef:
                    same_size_coefs(ctx, r, args[0], args[1], sp.VectorCoefs if typ == 1 else sp.ScalarCoefs)
                else:
                    same_size_patt(ctx, r, args[0], args[1], sp.TransversePatternUniform if typ == 1 else sp.ScalarPatternUniform)
            else:
                want = TypeError if good else ValueError if typ != 2 else (TypeError, ValueError)
                ctx.check(r is want or (isinstance(want, tuple) and r in want), lambda: "%s%r of kind %r must be rejected, got %r" % (f, args, typ, r))
        ctx.observe(f, a, b, typ)
        return
    if kind == "ctor":
        _, nmax, top = u
        mmax = ctx.choose("mmax", range(-2, nmax + 3))
        L = ctx.choose("length", range(0, top + 1))
        L2 = ctx.choose("second length", [None, L, L + 1, max(0, L - 1), 0])
        v = np.arange(L) + 1.0j
        good = 0 <= mmax <= nmax and L == ref.ncoef(nmax, mmax)
        if L2 is None:
            r = outcome(lambda: sp.ScalarCoefs(v, nmax, mmax))
        else:
            w = np.arange(L2) - 1.0j
            r = outcome(lambda: sp.VectorCoefs(v, w, nmax, mmax))
            good = good and L2 == L
        ctx.op()
        if good:
            same_size_coefs(ctx, r, nmax, mmax, sp.ScalarCoefs if L2 is None else sp.VectorCoefs)
        else:
            ctx.check(r is ValueError, lambda: "coefficients of length %r, %r with (nmax,mmax) = (%d,%d) must raise ValueError, got %r" % (L, L2, nmax, mmax, r))
        ctx.observe(nmax, mmax, L, L2)
        return
    if kind == "patt ctor":
        top = u[1]
        shapes = [(r, c) for r in range(2, top + 1) for c in range(2, top + 2, 2)]
        s1 = ctx.choose("theta shape", shapes)
        s2 = ctx.choose("phi shape", [None] + shapes)
        ds = ctx.choose("doublesphere", [False, True])
        k = lambda s: ((2 * s[0] - 2) if ds else s[0], s[1])
        a = np.ones(k(s1), dtype=np.complex128)
        if s2 is None:
            same_size_patt(ctx, outcome(lambda: sp.ScalarPatternUniform(a, doublesphere=ds)), s1[0], s1[1], sp.ScalarPatternUniform)
        else:
            b = np.ones(k(s2), dtype=np.complex128)
            r = outcome(lambda: sp.TransversePatternUniform(a, b, doublesphere=ds))
            if s1 == s2:
                same_size_patt(ctx, r, s1[0], s1[1], sp.TransversePatternUniform)
            else:
                ctx.check(r is ValueError, lambda: "components of shapes %r and %r must raise ValueError, got %r" % (s1, s2, r))
        ctx.op()
        ctx.observe(s1, s2, ds)
