"""C15 magnitudes, norms and powers: every mode and sample position, and histories of changes and measurements."""
import numpy as np
from mc import lib, ref
ID = "C15"
LEVEL = "model_checking"
RULE = ("one execution = one object (a value at one mode or sample on zeros or on dense data), with every measure of it compared "
        "with the definition; one pair of coefficient sets compared; one sequence of changes, copies and measurements compared "
        "with a model; or one type refused")
BOUNDS = {"quick": "coefficients nmax<=5, patterns to 6x8, every position, 8 values on 3 backgrounds; patterns given as unsymmetric double spheres alike; 4 large shapes to 61x200 and nmax 128; two changes at every pair of modes between measurements for nmax<=3; histories of 4 steps over 5 shapes and 4 kinds",
          "thorough": "coefficients nmax<=10, patterns to 11x14, every position, 8 values on 3 backgrounds; patterns given as unsymmetric double spheres alike; 6 large shapes to 513x32 and nmax 513; two changes at every pair of modes between measurements for nmax<=5; histories of 5 steps over 5 shapes and 4 kinds"}
ASSUMPTIONS = ["magnitudes between 1e-140 and 1e140 or zero, so that squares are representable", "relative tolerance 1e-13",
               "the norms of a pattern count the stored double sphere"]
VALUES = [1.0, -2.0, 3j, -3 - 4j, 1e140, 1e-140j, 5e-9 + 12e-9j, 0.0]


def setup(tier):
    lib.setup()


def units(tier):
    q = tier == "quick"
    N, R, C = (5, 6, 8) if q else (10, 11, 14)
    for n in range(N + 1):
        for m in range(n + 1):
            yield ["coef", "scalar", n, m]
            if n:
                yield ["coef", "vector", n, m]
                yield ["relative", n, m]
            if n <= (3 if q else 5):
                yield ["positions", "scalar", n, m]
                if n:
                    yield ["positions", "vector", n, m]
    yield ["relative", 0, 0]
    for r in range(2, R + 1):
        for c in range(2, C + 1, 2):
            yield ["patt", "scalar", r, c]
            yield ["patt", "vector", r, c]
            yield ["double", "scalar", 2 * r - 2, c]
            yield ["double", "vector", 2 * r - 2, c]
    for r, c in ((34, 40), (101, 64), (128, 128), (61, 200)) if q else ((34, 40), (101, 64), (128, 128), (61, 200), (300, 301 + 1), (513, 32)):
        yield ["large", r, c]
    yield ["types"]
    for kind in KINDS:
        for k in range(len(SHAPES[kind])):
            for a in range(len(STEPS)):
                yield ["history", kind, k, a, 4 if q else 5]


def cost(u):
    return u[2] * u[3] if u[0] in ("coef", "patt") else 10 ** 6 if u[0] == "history" else 1


TOL = 1e-13


def near(ctx, got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    ctx.check(got.shape == want.shape, lambda: "%s has shape %r, expected %r" % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= TOL * np.abs(want))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0]) if bad.ndim else ()
        ctx.check(False, "%s %s is %r, expected %r" % (what, list(i), got[i], want[i]))
    ctx.op()


def measure_coef(ctx, c, comps, n, m, again=True):
    """comps: one or two expected vectors in mode order; the magnitudes are measured themselves once more"""
    sp = lib.sp
    before = lib.bytes_of(c)
    vec = len(comps) == 2
    want = [np.abs(x) for x in comps]
    sq = sum(w ** 2 for w in want)
    res = [("mag", sp.mag(c), np.sqrt(sq)), ("mag2", sp.mag2(c), sq)] + ([] if vec else [("abs", sp.abs(c), want[0])])
    for name, r, w in res:
        ctx.check(isinstance(r, sp.ScalarCoefs) and (r.nmax, r.mmax) == (n, m),
                  lambda: "%s gives a %s of size %r" % (name, type(r).__name__, (getattr(r, "nmax", None), getattr(r, "mmax", None))))
        near(ctx, lib.cvec(r), w, name)
        ctx.check(not lib.share(r, c), "%s shares memory with its argument" % name)
    near(ctx, sp.L2_coef(c), np.sqrt(np.sum(sq)), "L2_coef")
    near(ctx, sp.LInf_coef(c), np.sqrt(sum(np.max(w) ** 2 for w in want)), "LInf_coef")
    if not vec:
        near(ctx, c.power(), np.sum(sq), "power")
        aps = np.zeros(n + 1)
        for (k, _), v in zip(ref.modes(n, m), sq):
            aps[k] += v
        near(ctx, c.angular_power_spectrum(), aps, "angular_power_spectrum")
    ctx.check(lib.bytes_of(c) == before, "measuring changed the coefficients")
    if again:
        measure_coef(ctx, res[0][1], [np.sqrt(sq)], n, m, False)
    ctx.observe(*[np.asarray(lib.cvec(r)) for _, r, _ in res])
    return [r for _, r, _ in res]


def measure_patt(ctx, p, comps, double=None):
    sp = lib.sp
    before = lib.bytes_of(p)
    vec = len(comps) == 2
    want = [np.abs(x) for x in comps]
    sq = sum(w ** 2 for w in want)
    res = [("mag", sp.mag(p), np.sqrt(sq)), ("mag2", sp.mag2(p), sq)] + ([] if vec else [("abs", sp.abs(p), want[0])])
    for name, r, w in res:
        near(ctx, r, w, name)
        ctx.check(not any(np.shares_memory(r, x) for x in lib.arrays_of(p)), "%s shares memory with its argument" % name)
    d = [np.abs(x) for x in double or [ref.double(x, -1 if vec else 1) for x in comps]]
    near(ctx, sp.L2_patt(p), np.sqrt(sum(np.sum(x ** 2) for x in d)), "L2_patt")
    near(ctx, sp.LInf_patt(p), np.sqrt(sum(np.max(x) ** 2 for x in d)), "LInf_patt")
    ctx.check(lib.bytes_of(p) == before, "measuring changed the pattern")
    ctx.observe(*[np.asarray(r) for _, r, _ in res])
    return [r for _, r, _ in res]


def background(ctx, size, j):
    b = ctx.choose("background", ["zero", "ones", "dense"])
    return {"zero": lambda k: 0.0, "ones": lambda k: 1.0, "dense": lambda k: ref.generic(k, j)}[b]


def run(ctx, u):
    sp = lib.sp
    if u[0] == "coef":
        _, kind, n, m = u
        two = kind == "vector"
        modes = ref.modes(n, m)
        pos = ctx.choose("mode", [x for x in modes if not (two and x[0] == 0)])
        comp = ctx.choose("component", range(1 + two))
        v = ctx.choose("value", VALUES)
        f = background(ctx, len(modes), 3)
        comps = [np.array([0 if (two and x[0] == 0) else f(i + 50 * k) for i, x in enumerate(modes)], dtype=np.complex128) for k in range(1 + two)]
        comps[comp][modes.index(pos)] = v
        if two:
            c = sp.zeros_coefs(n, m, coef_type=sp.vector)
            for i, x in enumerate(modes):
                if x[0]:
                    c[x] = (comps[0][i], comps[1][i])
        else:
            c = sp.ScalarCoefs(comps[0].copy(), n, m)
        measure_coef(ctx, c, comps, n, m)
    elif u[0] == "positions":
        # measured, changed at one mode, measured, changed or exchanged at another, measured
        from mc import arith
        _, kind, n, m = u
        two = kind == "vector"
        o, M = arith.make("vcoef" if two else "scoef", (n, m), 2)
        modes = ref.modes(n, m)
        live = [i for i, x in enumerate(modes) if x[0] or not two]
        measure_coef(ctx, o, M.comps, n, m, False)
        p = ctx.choose("first", live)
        q = ctx.choose("second", live)
        how = ctx.choose("change", ["set", "exchange", "negate", "double one component"] if two else ["set", "exchange", "negate"])

        def put(i):
            o[modes[i]] = tuple(x[i] for x in M.comps) if two else M.comps[0][i]
        for x in M.comps[:1 if how == "double one component" else 2]:
            if how == "exchange":
                x[p], x[q] = x[q], x[p]
            elif how == "set":
                x[p] = 9 - 2j
            else:
                x[p] *= -1 if how == "negate" else 2
        put(p)
        put(q)
        measure_coef(ctx, o, M.comps, n, m, False)
        M.comps[0][q] = 4j
        put(q)
        measure_coef(ctx, o, M.comps, n, m)
    elif u[0] == "patt":
        _, kind, nr, nc = u
        two = kind == "vector"
        r = ctx.choose("row", range(nr))
        c = ctx.choose("column", range(nc if r not in (0, nr - 1) else nc // 2))
        comp = ctx.choose("component", range(1 + two))
        v = ctx.choose("value", VALUES)
        f = background(ctx, nr * nc, 4)
        comps = [np.array([[f(k * 200 + a * nc + b) for b in range(nc)] for a in range(nr)], dtype=np.complex128) for k in range(1 + two)]
        comps = [(lib.consistent_vector if two else lib.consistent_scalar)(x) for x in comps]
        comps[comp][r, c] = v
        if r in (0, nr - 1):
            comps[comp][r, (c + nc // 2) % nc] = -v if two else v
        p = sp.TransversePatternUniform(*[x.copy() for x in comps]) if two else sp.ScalarPatternUniform(comps[0].copy())
        measure_patt(ctx, p, comps)
    elif u[0] == "double":
        # a double sphere given as such need not have the symmetry; the norms count all of it
        _, kind, nd, nc = u
        two = kind == "vector"
        r = ctx.choose("row", range(nd))
        c = ctx.choose("column", range(nc))
        comp = ctx.choose("component", range(1 + two))
        v = ctx.choose("value", VALUES)
        f = background(ctx, nd * nc, 4)
        comps = [np.array([[f(k * 200 + a * nc + b) for b in range(nc)] for a in range(nd)], dtype=np.complex128) for k in range(1 + two)]
        comps[comp][r, c] = v
        D = [x.copy() for x in comps]
        p = sp.TransversePatternUniform(*D, doublesphere=True) if two else sp.ScalarPatternUniform(D[0], doublesphere=True)
        measure_patt(ctx, p, [x[:nd // 2 + 1] for x in comps], comps)
    elif u[0] == "large":
        _, nr, nc = u
        nd = 2 * nr - 2
        k = ctx.choose("position", range(8))
        what = ctx.choose("object", ["scalar double", "vector double", "scalar", "vector", "coefs", "vcoefs"])
        two = what.startswith("v")
        others = ctx.choose("others", [1, 1e-5])       # one large value among many that are small, but not as a sum
        if "coefs" in what:
            n, m = nr, min(nr, nc // 2)
            comps = [lib.vecof({x: ref.generic(i + 3 * j, 2) for i, x in enumerate(ref.modes(n, m))}, n, m) for j in range(1 + two)]
            for x in comps:
                x *= others
                if two:
                    x[0] = 0
            comps[-1][[1, n // 2, n, n + 1, -1, -2, -n // 2, len(comps[0]) // 2][k]] = 700 - 300j if others == 1 else 0.7 - 0.3j
            o = [x.copy() for x in comps]
            measure_coef(ctx, sp.VectorCoefs(o[0], o[1], n, m) if two else sp.ScalarCoefs(o[0], n, m), comps, n, m)
        else:
            comps = [lib.generic_array(nd, nc, 2 + 3 * j) for j in range(1 + two)]
            for x in comps:
                x *= others
            comps[-1][[(0, 0), (0, nc - 1), (nr - 1, 1), (nr - 2, nc // 2), (1, nc - 1), (nr // 2, nc // 3), (nr // 3, 0), (2, 2)][k]] = 700 - 300j if others == 1 else 0.7 - 0.3j
            if "double" not in what:
                comps = [ref.double((lib.consistent_vector if two else lib.consistent_scalar)(x[:nr]), -1 if two else 1) for x in comps]
            D = [x.copy() for x in comps]
            p = sp.TransversePatternUniform(*D, doublesphere=True) if two else sp.ScalarPatternUniform(D[0], doublesphere=True)
            measure_patt(ctx, p, [x[:nr] for x in comps], comps)
    elif u[0] == "relative":
        _, n, m = u
        modes = ref.modes(n, m)
        a = np.array([ref.generic(i, 2) for i in range(len(modes))])
        k = ctx.choose("mode", range(len(modes)))
        v = ctx.choose("value", VALUES)
        how = ctx.choose("sets", ["one differs", "one mode only", "unrelated", "scaled"])
        b = a.copy()
        if how == "one differs":
            b[k] += v
        elif how == "one mode only":
            a = np.zeros_like(a)
            a[k] = 2 - 1j
            b = np.zeros_like(a)
            b[-1 - k] = v
        elif how == "unrelated":
            b = np.array([ref.generic(i + k, 5) for i in range(len(modes))])
            b[k] = v
        else:
            b = a * (v if v else 1)
        A, Bc = sp.ScalarCoefs(a.copy(), n, m), sp.ScalarCoefs(b.copy(), n, m)
        near(ctx, sp.compare_relative(A, Bc), np.sum(np.abs(a - b)) / np.sum(np.abs(a)), "compare_relative")
        ctx.check(sp.compare_relative(A, A) == 0 and sp.compare_relative(A, A.copy()) == 0, "compare_relative of equal sets is not 0")
        ctx.check(np.array_equal(lib.cvec(A), a) and np.array_equal(lib.cvec(Bc), b), "comparing changed the coefficients")
        ctx.observe(a, b)
    elif u[0] == "types":
        f = ctx.choose("function", ["abs", "mag", "mag2", "array"])
        kinds = ["None", "int", "float", "complex", "list", "tuple", "ndarray", "str", "dict"]
        if f == "abs":
            kinds += ["VectorCoefs", "TransversePatternUniform"]
        if f == "array":
            kinds += ["ScalarCoefs", "VectorCoefs"]
        k = ctx.choose("type", kinds)
        v = {"None": lambda: None, "int": lambda: 3, "float": lambda: 2.5, "complex": lambda: 1j, "list": lambda: [1.0, 2.0],
             "tuple": lambda: (1, 2), "ndarray": lambda: np.ones((3, 4)), "str": lambda: "abc", "dict": lambda: {},
             "VectorCoefs": lambda: sp.ones_coefs(2, 2, coef_type=sp.vector), "ScalarCoefs": lambda: sp.ones_coefs(2, 2),
             "TransversePatternUniform": lambda: sp.zeros_patt_uniform(4, 6, patt_type=sp.vector)}[k]()
        try:
            r = getattr(sp, f)(v)
        except TypeError:
            ctx.op()
            ctx.observe(f, k)
            return
        ctx.check(False, "%s of a %s returned %r instead of raising TypeError" % (f, k, r))
    else:
        history(ctx, u)


# ------------------------------------------------------------------------------------ histories
KINDS = ["scoef", "vcoef", "spatt", "vpatt"]
SHAPES = {"scoef": [(0, 0), (2, 1), (3, 3)], "vcoef": [(1, 0), (2, 2), (3, 2)], "spatt": [(3, 2), (4, 4)], "vpatt": [(3, 2), (4, 4)]}
STEPS = ["measure", "change first", "change last", "change result", "copy", "back"]


def history(ctx, u):
    sp = lib.sp
    from mc import arith
    _, kind, k, first, depth = u
    shape = SHAPES[kind][k]
    coef = "coef" in kind
    o, M = arith.make(kind, shape, 2)
    comps = [x.copy() for x in M.comps]
    other = None
    results = []
    held = []
    for d in range(depth):
        if d == 0:
            s = STEPS[first]
            ctx.note("step", s)
        else:
            s = ctx.choose("step", STEPS)
        if s == "measure":
            rs = measure_coef(ctx, o, comps, *shape) if coef else measure_patt(ctx, o, comps)
            results += rs
            held += [lib.bytes_of(r) for r in rs]
        elif s in ("change first", "change last"):
            v = ref.generic(90 + d, 1) * 5
            if coef:
                modes = ref.modes(*shape)
                i = (1 if kind == "vcoef" else 0) if s == "change first" else len(modes) - 1
                if kind == "vcoef":
                    o[modes[i]] = (v, 2 * v)
                    comps[0][i], comps[1][i] = v, 2 * v
                else:
                    o[modes[i]] = v
                    comps[0][i] = v
            else:       # patterns have no assignment: they are replaced
                a, b = (shape[0] // 2, 0) if s == "change first" else (shape[0] // 2, shape[1] - 1)
                for x in comps:
                    x[a, b] = v
                o = sp.ScalarPatternUniform(comps[0].copy()) if len(comps) == 1 else sp.TransversePatternUniform(comps[0].copy(), comps[1].copy())
        elif s == "change result":
            for i, r in enumerate(results):
                if coef:
                    r[shape[0], 0] = -7.0
                else:
                    r[...] = -7.0
                held[i] = lib.bytes_of(r)
        elif s == "copy":
            other = (o.copy() if coef else o + 0 if kind == "spatt" else o * 1, [x.copy() for x in comps])
        elif other is not None:
            (o, comps), other = other, (o, comps)
    (measure_coef(ctx, o, comps, *shape) if coef else measure_patt(ctx, o, comps))
    if other is not None:
        (measure_coef(ctx, other[0], other[1], *shape) if coef else measure_patt(ctx, other[0], other[1]))
    for r, h in zip(results, held):
        ctx.check(lib.bytes_of(r) == h, "a result returned earlier changed")
