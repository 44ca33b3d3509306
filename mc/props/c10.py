"""C10 double sphere continuation: every sample position of every shape."""
import numpy as np
from mc import lib, ref
ID = "C10"
LEVEL = "model_checking"
RULE = ("one execution = one pattern built from one array (a single sample at every position, or dense data, in every input form) "
        "and read back through every accessor, or one corruption of one sample of a symmetric double sphere that the symmetry "
        "measure has to report")
BOUNDS = {"quick": "nrows 2..7, ncols 2..10 even, every position, 9 values from 5e-324 to 8e307, 8 input forms x dense and some thirty structured arrays, 7 narrow types of array with inconsistent poles; double_sphere of 5 types of symmetric, generic, half empty and one-sample data; 66 x 132, 130 x 4 and 5 x 66 with the ends, the middle and the neighbours of powers of two as positions",
          "thorough": "nrows 2..13, ncols 2..20 even, every position, 9 values from 5e-324 to 8e307, 8 input forms x dense and some thirty structured arrays, 7 narrow types of array with inconsistent poles; double_sphere of 5 types of symmetric, generic, half empty and one-sample data; eight large shapes up to 1030 rows or 4098 columns with the ends, the middle and the neighbours of powers of two as positions"}
ASSUMPTIONS = ["samples are finite and below half of the largest double", "the symmetry measure of synthesised patterns is not "
               "judged (it is relative to samples that may be round-off); their double sphere is compared in C01 and C03"]
KEY = "ones_patt_uniform vector"
VALUES = [1.0, -2.5j, 1 + 1j, 5e-324, 3e-308j, 1e-200 - 1e-200j, 8e307, -8e307j, 6e307 + 6e307j]
TYPES = ["float32", "complex64", "int64", "int8", "uint8", "float16", "bool"]
FORMS = ["complex", "float64", "int64", "complex64", "fortran", "strided", "read only", "period pi poles"]


def setup(tier):
    lib.setup()


def units(tier):
    R, C = (7, 10) if tier == "quick" else (13, 20)
    for nr in range(2, R + 1):
        for nc in range(2, C + 1, 2):
            for kind in ("scalar", "vector"):
                for what in ("one sample", "poles", "types", "restore", "dense", "detect", "factory"):
                    yield [what, kind, nr, nc]
    for nr, nc in ((66, 132), (130, 4), (5, 66)) + (() if tier == "quick" else ((130, 8), (5, 514), (260, 514), (1030, 4), (2, 4098))):
        for kind in ("scalar", "vector"):
            for what in ("poles", "types", "restore", "dense", "factory") + (("one sample", "detect") if nr * nc < 5000 else ()):
                yield [what, kind, nr, nc]


def cost(u):
    return u[2] * u[3] * (20 if u[2] * u[3] > 500 else 1)


def build(kind, a, b, **kw):
    return lib.sp.ScalarPatternUniform(a, **kw) if kind == "scalar" else lib.sp.TransversePatternUniform(a, b, **kw)


def same(ctx, got, want, what):
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, lambda: "%s: shape %r, expected %r" % (what, got.shape, want.shape))
    ctx.check(np.array_equal(got, want), lambda: "%s %s" % (what, lib.where(got, want)))
    ctx.op()


def image(d, sym):
    """the double sphere data seen from (2 pi - theta, phi + pi)"""
    n, nc = d.shape
    return sym * np.roll(d[[(-r) % n for r in range(n)]], nc // 2, axis=1)


def accessors(ctx, kind, p, comps, double=True, measure=True):
    """comps: the expected samples of each component (consistent with the symmetry)."""
    sp = lib.sp
    nr, nc = comps[0].shape
    ctx.check((p.nrows, p.ncols, tuple(p.shape)) == (nr, nc, (nr, nc)), lambda: "shape is %r, expected %r" % (p.shape, (nr, nc)))
    sym = 1 if kind == "scalar" else -1
    D = [ref.double(c, sym) for c in comps]
    if kind == "scalar":
        same(ctx, p.array, comps[0], "array")
        same(ctx, p.cdata, comps[0], "cdata")
        same(ctx, sp.array(p), comps[0], "array()")
        same(ctx, p.doublesphere, D[0], "doublesphere")
    else:
        for k, (one, two) in enumerate((("theta", "theta_double"), ("phi", "phi_double"))):
            same(ctx, p.array[k], comps[k], "array[%d]" % k)
            same(ctx, sp.array(p)[k], comps[k], "array()[%d]" % k)
            same(ctx, getattr(p, one), comps[k], one)
            same(ctx, getattr(p, two), D[k], two)
            same(ctx, p.doublesphere[k], D[k], "doublesphere[%d]" % k)
    if measure:
        sv = p.single_val
        ctx.check(np.max(sv) < 1e-14, lambda: "symmetry measure is %r for a symmetric pattern" % (sv,))
        ctx.check(p.is_symmetric == True, "is_symmetric is not True for a symmetric pattern")
        ctx.op(2)


def symmetrised(ctx, kind, p, comps, what):
    """Pole rows were inconsistent: interior kept, result symmetric, each pole pair is combined."""
    nr, nc = comps[0].shape
    h = nc // 2
    sym = 1 if kind == "scalar" else -1
    D = [p.doublesphere] if kind == "scalar" else list(p.doublesphere)
    for k, (d, a) in enumerate(zip(D, comps)):
        d = np.asarray(d)
        ctx.check(d.shape == (2 * nr - 2, nc), lambda: "%s: shape of the double sphere %r" % (what, d.shape))
        same(ctx, d[1:nr - 1], a[1:nr - 1] + 0j, what + ": rows between the poles, component %d" % k)
        same(ctx, d, image(d, sym), what + ": symmetry of component %d" % k)
        for r, g in ((0, d[0]), (nr - 1, d[nr - 1])):
            for c in range(nc):
                t, s = a[r, c], sym * a[r, (c + h) % nc]
                ok = abs(g[c] - (s / 2 + t / 2)) <= 1e-15 * (abs(s) + abs(t)) or ((s == 0 or t == 0) and g[c] == s + t) \
                    or (min(abs(s), abs(t)) < 1e-300 and abs(g[c] - (s / 2 + t / 2)) < 1e-323)
                ctx.check(ok, lambda: "%s: component %d, pole row %d, column %d is %r from %r and %r" % (what, k, r, c, g[c], t, s))
    sv = p.single_val
    ctx.check(np.max(sv) < 1e-14 and p.is_symmetric == True, lambda: "%s: symmetry measure is %r" % (what, sv))


def restore(ctx, kind, nr, nc, big):
    """double_sphere(data, sym) on its own: symmetric data come back, others become symmetric, each sample combined with its image."""
    sp = lib.sp
    sym = 1 if kind == "scalar" else -1
    n, h = 2 * nr - 2, nc // 2
    cons = lib.consistent_scalar if kind == "scalar" else lib.consistent_vector
    t = ctx.choose("type", ["complex128", "float64", "complex64", "float32", "int64"])
    how = ctx.choose("data", ["symmetric", "generic", "half missing", "one sample"] if t == "complex128" and not big else ["symmetric", "generic", "half missing"])
    if how == "symmetric":
        a = ref.double(cons(lib.generic_array(nr, nc, 5)), sym).astype(np.complex128)
    elif how == "one sample":
        a = np.zeros((n, nc), dtype=np.complex128)
        a[ctx.choose("row", range(n)), ctx.choose("column", range(nc))] = ctx.choose("value", [1 - 2j, 1e-200j])
    else:
        a = lib.generic_array(n, nc, 6)
        if how == "half missing":
            a[nr:] = 0
    if t != "complex128":
        a = (np.round(9 * a.real) if t == "int64" else a.real if t[0] == "f" else a).astype(t)
    b = a.copy()
    d = sp.double_sphere(b, sym)
    ctx.op()
    ctx.check(np.array_equal(a, b) and not np.shares_memory(b, d), "double_sphere changed or returned its input")
    ctx.check(isinstance(d, np.ndarray) and d.dtype == np.complex128, lambda: "double_sphere returns %r" % (getattr(d, "dtype", d),))
    w = a.astype(np.complex128)
    if how == "symmetric":
        same(ctx, d, w, "double_sphere of symmetric data")
        return
    same(ctx, d, image(d, sym), "double_sphere: symmetry of the result")
    m = image(w, sym)
    want = np.where((w == 0) | (m == 0), w + m, (w + m) / 2)
    eps = 1e-6 if t in ("complex64", "float32") else 1e-15
    bad = np.abs(d - want) > eps * (np.abs(w) + np.abs(m))
    ctx.check(not bad.any(), lambda: "double_sphere of %s %s" % (how, lib.where(d, want)))
    same(ctx, sp.double_sphere(d, sym), d, "double_sphere a second time")
    ctx.observe(d)


def places(ctx, rows, cols):
    """Every position, or those at the edges of a large shape."""
    if rows * cols <= 300:
        return ctx.choose("row", range(rows)), ctx.choose("column", range(cols))
    r = lib.edges(rows, rows // 2 - 1, rows // 2 + 1)
    c = lib.edges(cols)
    return ctx.choose("position", sorted({(i, j) for i in r for j in (0, 1, cols // 2, cols - 1)} |
                                         {(i, j) for i in (0, 1, rows // 2, rows - 1) for j in c}))


def run(ctx, u):
    what, kind, nr, nc = u
    sp = lib.sp
    h = nc // 2
    big = nr * nc > 300
    sym = 1 if kind == "scalar" else -1
    ncomp = 1 if kind == "scalar" else 2
    zero = lambda: np.zeros((nr, nc), dtype=np.complex128)
    cons = lib.consistent_scalar if kind == "scalar" else lib.consistent_vector
    if what == "restore":
        restore(ctx, kind, nr, nc, big)
    elif what == "one sample":
        r, c = places(ctx, nr, nc)
        k = ctx.choose("component", range(ncomp))
        v = ctx.choose("value", [1 - 2j] if big else VALUES)
        rest = ctx.choose("other samples", ["zero", "dense"])
        a = [zero() if rest == "zero" else cons(lib.generic_array(nr, nc, 3 + j)) for j in range(ncomp)]
        a[k][r, c] = v
        if r in (0, nr - 1):
            a[k][r, (c + h) % nc] = sym * v
        b = [x.copy() for x in a]
        p = build(kind, *(b + [None])[:2])
        accessors(ctx, kind, p, a, measure=rest == "zero")
        for x, y in zip(a, b):
            ctx.check(np.array_equal(x, y), "the array passed in was changed")
        ctx.observe(*a)
    elif what == "poles":
        r = ctx.choose("row", [0, nr - 1])
        c = ctx.choose("column", [0, 1, h - 1, h, nc - 1] if big else range(nc))
        k = ctx.choose("component", range(ncomp))
        v = ctx.choose("value", [1 - 2j] if big else VALUES)
        rest = ctx.choose("other samples", ["dense", "inconsistent"] if big else ["zero", "dense", "inconsistent"])
        a = [zero() if rest == "zero" else lib.generic_array(nr, nc, 3 + j) for j in range(ncomp)]
        if rest == "dense":
            a = [cons(x) for x in a]
        a[k][r, c] = v
        p = build(kind, *([x.copy() for x in a] + [None])[:2])
        symmetrised(ctx, kind, p, a, "inconsistent poles")
        ctx.observe(*a)
    elif what == "types":
        t = ctx.choose("type", TYPES)
        j = ctx.choose("data", range(3))
        a = [lib.generic_array(nr, nc, j + 9 * i) for i in range(ncomp)]
        if np.dtype(t).kind != "c":
            top = {"b": 1, "u": 255, "i": 127}.get(np.dtype(t).kind, 1)
            a = [x.real if np.dtype(t).kind in "if" else abs(x.real) for x in a]
            a = [(np.round(top * x / np.max(np.abs(x))) if top > 1 else x > 0.5 if t == "bool" else x / 3) for x in a]
        a = [x.astype(t) for x in a]
        w = [x.astype(np.complex128) for x in a]
        p = build(kind, *([x.copy() for x in a] + [None])[:2])
        ctx.check(all(np.asarray(d).dtype == np.complex128 for d in lib.arrays_of(p)), "the pattern does not keep double precision samples")
        symmetrised(ctx, kind, p, w, "inconsistent poles given as " + t)
        ctx.observe(*w)
    elif what == "dense":
        form = ctx.choose("form", FORMS)
        shaped = {} if big or form == "period pi poles" else lib.shaped_arrays(nr, nc)
        j = ctx.choose("data", list(range(4)) + list(shaped))
        if j in shaped:
            a = [cons(shaped[j]()) * (i + 1) for i in range(ncomp)]
        else:
            a = [cons(lib.generic_array(nr, nc, j + 9 * i)) for i in range(ncomp)]
        if form == "float64":
            a = [x.real.copy() for x in a]
        elif form == "int64":
            a = [np.round(9 * x.real).astype(np.int64) for x in a]
        elif form == "complex64":
            a = [x.astype(np.complex64) for x in a]
        elif form == "fortran":
            a = [np.asfortranarray(x) for x in a]
        elif form == "strided":
            a = [np.repeat(np.repeat(x, 2, axis=0), 3, axis=1)[::2, ::3] for x in a]
        elif form == "period pi poles":
            a = [lib.generic_array(nr, nc, j + 9 * i) for i in range(ncomp)]
            for x in a:
                for r in (0, nr - 1):
                    x[r, h:] = sym * x[r, :h]
        w = [x.astype(np.complex128) for x in a]
        if form == "read only":
            for x in a:
                x.flags.writeable = False
        p = build(kind, *(a + [None])[:2])
        accessors(ctx, kind, p, w)
        for x, y in zip(a, w):
            ctx.check(np.array_equal(x, y), "the array passed in was changed")
            ctx.check(not any(np.shares_memory(x, d) for d in lib.arrays_of(p)), "the pattern shares memory with the array")
        ctx.observe(*w)
    elif what == "detect":
        r, c = places(ctx, 2 * nr - 2, nc)
        k = ctx.choose("component", range(ncomp))
        how = ctx.choose("corruption", ["1e-6", "alone"] if big else ["1e-6", "1e-9 imaginary", "zeroed", "negated", "alone"])
        d = [ref.double(cons(lib.generic_array(nr, nc, 4 + j)), sym) for j in range(ncomp)]
        if how == "alone":
            d = [np.zeros_like(x) for x in d]
            d[k][r, c] = 1e-20
        elif how == "zeroed":
            d[k][r, c] = 0
        elif how == "negated":
            d[k][r, c] *= -1
        elif how == "1e-6":
            d[k][r, c] *= 1 + 1e-6
        else:
            d[k][r, c] += 1e-9j * abs(d[k][r, c])
        p = build(kind, *(d + [None])[:2], doublesphere=True)
        sv = p.single_val
        low = {"1e-6": 9e-7, "1e-9 imaginary": 9e-10}.get(how, 0.9)
        got = np.max(sv)
        ctx.check(got >= low, lambda: "a single asymmetric sample (row %d, column %d, component %d, %s) gives the measure %r" % (r, c, k, how, sv))
        ctx.check(p.is_symmetric == False, lambda: "is_symmetric is %r with an asymmetric sample" % p.is_symmetric)
        if kind == "vector":
            ctx.check(np.shape(sv) == (2,) and sv[1 - k] < 1e-14, lambda: "the other component's measure is %r" % (sv,))
        ctx.op(2)
        ctx.observe(np.array(sv))
    else:
        f = ctx.choose("factory", ["zeros", "ones", "random"])
        p = getattr(sp, f + "_patt_uniform")(nr, nc, patt_type=sp.scalar if kind == "scalar" else sp.vector)
        D = [p.doublesphere] if kind == "scalar" else list(p.doublesphere)
        key = KEY if f == "ones" and kind == "vector" else None
        ok = True
        for x in D:
            x = np.asarray(x)
            ctx.check(x.shape == (2 * nr - 2, nc), lambda: "%s_patt_uniform: double sphere has shape %r" % (f, x.shape))
            ok = ctx.check(np.array_equal(x, image(x, sym)), "%s_patt_uniform is not symmetric over the double sphere" % f, key) and ok
        if ok:
            ctx.check(p.is_symmetric == True and np.max(p.single_val) < 1e-14, "%s_patt_uniform: symmetry measure %r" % (f, p.single_val))
        ctx.observe(f, kind, nr, nc)
