"""C20 factories: every size and kind, argument forms, and histories of factory calls and changes of what they returned."""
import numpy as np
from mc import lib, ref
ID = "C20"
LEVEL = "model_checking"
RULE = ("one execution = one factory call of one size, kind, argument form (and mean and deviation) with every mode or sample "
        "read, or one history of factory calls and changes of the returned objects, all compared at the end")
BOUNDS = {"quick": "nmax<=7 and three large sizes up to 300, patterns 2..8 rows x 2..10 columns and three large shapes up to 300 rows or 600 columns, 4 argument forms, 5 means, 4 deviations; histories of 4 calls over 12",
          "thorough": "nmax<=14 and five large sizes up to 1030, patterns 2..14 rows x 2..18 columns and five large shapes up to 1030 rows or 600 columns, 4 argument forms, 5 means, 4 deviations; histories of 5 calls over 12"}
ASSUMPTIONS = ["the distribution of random values is not decided here (see C22): they must be finite, distinct, scaled by the "
               "deviation within factors that a normal variable passes with probability above 1 - 1e-15, and exactly the mean "
               "for deviation 0", "pole rows of random patterns are symmetrised pairs of draws"]
MEANS = [0.0, 1.0, -2.5, 1e6, -1e-6]
DEVS = [0.0, 1.0, 1e-3, 1e4]


def setup(tier):
    lib.setup()


def worker_init():
    np.random.seed(20150101)


def units(tier):
    q = tier == "quick"
    N, R, C = (7, 8, 10) if q else (14, 14, 18)
    for n in range(N + 1):
        for m in range(n + 1):
            for f in ("zeros_coefs", "ones_coefs", "random_coefs"):
                for kind in ("scalar", "vector"):
                    yield ["coefs", f, kind, n, m]
    for r in range(2, R + 1):
        for c in range(2, C + 1, 2):
            for f in ("zeros_patt_uniform", "ones_patt_uniform", "random_patt_uniform"):
                for kind in ("scalar", "vector"):
                    yield ["patt", f, kind, r, c]
    for f in ("zeros_coefs", "ones_coefs", "random_coefs"):
        for kind in ("scalar", "vector"):
            for n, m in ((66, 66), (200, 20), (300, 2)) + (() if q else ((300, 300), (1030, 2))):
                yield ["coefs", f, kind, n, m]
    for f in ("zeros_patt_uniform", "ones_patt_uniform", "random_patt_uniform"):
        for kind in ("scalar", "vector"):
            for r, c in ((66, 132), (4, 600), (300, 6)) + (() if q else ((300, 600), (1030, 2))):
                yield ["patt", f, kind, r, c]
    for a in range(len(CALLS)):
        for b in range(len(CALLS)):
            yield ["history", a, b, 4 if q else 5]


def cost(u):
    return 10 ** 4 if u[0] == "history" else u[3] * u[4]


def comps_of(o):
    sp = lib.sp
    if isinstance(o, sp.ScalarCoefs):
        return [lib.cvec(o)]
    if isinstance(o, sp.VectorCoefs):
        return [lib.cvec(o.scoef1), lib.cvec(o.scoef2)]
    if isinstance(o, sp.ScalarPatternUniform):
        return [np.array(o.array)]
    return [np.array(o.theta), np.array(o.phi)]


def check_object(ctx, o, f, kind, a, b, mu=0.0, sigma=1.0):
    sp = lib.sp
    coef = "coefs" in f
    cls = {("scalar", True): sp.ScalarCoefs, ("vector", True): sp.VectorCoefs, ("scalar", False): sp.ScalarPatternUniform,
           ("vector", False): sp.TransversePatternUniform}[kind, coef]
    ctx.check(isinstance(o, cls), lambda: "%s returned a %s" % (f, type(o).__name__))
    size = (o.nmax, o.mmax) if coef else tuple(o.shape)
    ctx.check(size == (a, b), lambda: "%s(%d,%d) has size %r" % (f, a, b, size))
    comps = comps_of(o)
    modes = ref.modes(a, b) if coef else None
    live = np.array([not (kind == "vector" and x[0] == 0) for x in modes]) if coef else np.ones((a, b), dtype=bool)
    for k, x in enumerate(comps):
        ctx.check(x.shape == live.shape, lambda: "%s(%d,%d): component %d has shape %r" % (f, a, b, k, x.shape))
        if coef and kind == "vector":
            ctx.check(x[0] == 0, lambda: "%s: c[0,0] of component %d is %r" % (f, k, x[0]))
        v = x[live]
        if not f.startswith("random"):
            w = 1.0 if f.startswith("ones") else 0.0
            ctx.check(np.all(v == w), lambda: "%s(%d,%d): component %d has the value %r" % (f, a, b, k, v[np.argmax(v != w)]))
    if f.startswith("random"):
        if coef:
            allv = np.concatenate([x[live] for x in comps])
        else:       # interior samples are single draws, those of the poles are pairs
            allv = np.concatenate([x[1:-1].ravel() for x in comps])
            for x in comps:
                for row in (x[0], x[-1]):
                    h = row[:b // 2]
                    ctx.check(np.all(h.real != 0) and np.all(h.imag != 0) and np.max(np.abs(row.view(float))) < 12, lambda: "%s(%d,%d): pole samples are %r" % (f, a, b, row))
                    ctx.check(len(set(h.real)) == len(h) == len(set(h.imag)) and np.all(np.isfinite(row)), "%s: pole samples repeat" % f)
                if kind == "vector":
                    ctx.check(np.allclose(x[[0, -1], :b // 2], -x[[0, -1], b // 2:], rtol=1e-12), "%s: pole samples are not antisymmetric" % f)
        parts = np.concatenate([allv.real, allv.imag])
        ctx.check(np.all(np.isfinite(parts)), "%s: not finite" % f)
        if sigma == 0:
            ctx.check(np.all(parts == mu), lambda: "%s with deviation 0 and mean %r has the value %r" % (f, mu, allv[np.argmax((allv.real != mu) | (allv.imag != mu))]))
        elif len(parts):
            d = (parts - mu) / sigma
            if abs(mu) < 1e6 * sigma:       # otherwise rounding to the grid of doubles can make draws equal
                ctx.check(len(set(parts)) == len(parts), "%s: two modes or samples have the same value" % f)
            ctx.check(np.max(np.abs(d)) < 12, lambda: "%s with mean %r, deviation %r has the value %r" % (f, mu, sigma, parts[np.argmax(np.abs(d))]))
            n = len(parts)
            if n >= 40:
                for p, what in ((allv.real, "real"), (allv.imag, "imaginary")):
                    e = (p - mu) / sigma
                    h = len(e)
                    ctx.check(abs(np.mean(e)) < 8.5 / np.sqrt(h), lambda: "%s: mean of the %s parts is off by %r deviations" % (f, what, np.mean(e)))
                    ctx.check(np.median(np.abs(e)) > (0.02 if h < 80 else 0.1) and np.sqrt(np.mean(e * e)) < (5 if h < 80 else 2.5), lambda: "%s: %s parts have deviation %r of the requested one" % (f, what, np.sqrt(np.mean(e * e))))
    ctx.op()


def call(ctx, f, kind, a, b, form, mu=None, sigma=None):
    sp = lib.sp
    F = getattr(sp, f)
    t = sp.scalar if kind == "scalar" else sp.vector
    coef = "coefs" in f
    key = "coef_type" if coef else "patt_type"
    kw = {}
    if mu is not None:
        kw = {"mu": mu, "sigma": sigma}
    if form == "positional":
        if f == "random_coefs":
            return F(a, b, 0.0 if mu is None else mu, 1.0 if sigma is None else sigma, t)
        return F(a, b, t)
    if form == "keyword":
        kw[key] = t
        return F(a, b, **kw)
    if form == "all keywords":
        kw[key] = t
        return F(**dict(kw, **({"nmax": a, "mmax": b} if coef else {"nrows": a, "ncols": b})))
    if kind == "scalar":
        return F(a, b, **kw)
    return F(a, b, **dict(kw, **{key: 1}))


FORMS = ["positional", "keyword", "all keywords", "default"]


def run(ctx, u):
    if u[0] in ("coefs", "patt"):
        _, f, kind, a, b = u
        form = ctx.choose("form", FORMS)
        mu = sigma = None
        if f == "random_coefs":
            mu = ctx.choose("mean", [None] + (MEANS if a < 50 else MEANS[:1]))
            if mu is not None:
                sigma = ctx.choose("deviation", DEVS)
        o = call(ctx, f, kind, a, b, form, mu, sigma)
        args = (0.0, 1.0) if mu is None else (mu, sigma)
        check_object(ctx, o, f, kind, a, b, *args)
        first = comps_of(o)
        p = call(ctx, f, kind, a, b, form, mu, sigma)
        check_object(ctx, p, f, kind, a, b, *args)
        ctx.check(not lib.share(o, p), "%s: two calls return objects that share memory" % f)
        if kind == "vector":
            x, y = (lib.arrays_of(o.scoef1), lib.arrays_of(o.scoef2)) if "coefs" in f else ([o.theta_double], [o.phi_double])
            ctx.check(not any(np.shares_memory(s, t) for s in x for t in y), "%s: the components share memory" % f)
        if f.startswith("random") and args[1] != 0 and abs(args[0]) < 1e6 * args[1]:
            for x, y in zip(first, comps_of(p)):
                ctx.check(not np.any((x == y) & (x != 0)), "%s: two calls return equal values" % f)
        ctx.observe(u, form, repr(mu), repr(sigma))
    else:
        history(ctx, u)


CALLS = [("zeros_coefs", "scalar", 2, 1), ("zeros_coefs", "vector", 2, 1), ("ones_coefs", "scalar", 2, 1), ("ones_coefs", "vector", 2, 1),
         ("random_coefs", "scalar", 2, 1), ("zeros_coefs", "scalar", 3, 0), ("zeros_patt_uniform", "scalar", 3, 4), ("zeros_patt_uniform", "vector", 3, 4),
         ("ones_patt_uniform", "scalar", 3, 4), ("ones_patt_uniform", "vector", 3, 4), ("random_patt_uniform", "scalar", 3, 4), ("change", "", 0, 0)]


def history(ctx, u):
    sp = lib.sp
    objs = []
    for d in range(u[3]):
        if d < 2:
            c = CALLS[u[1 + d]]
            ctx.note("call", c)
        else:
            c = ctx.choose("call", CALLS)
        if c[0] == "change":
            # everything returned so far is overwritten
            for i, (o, what, h) in enumerate(objs):
                if isinstance(o, sp.ScalarCoefs):
                    o[:, 0] = np.full(o.nmax + 1, 5.5)
                elif isinstance(o, sp.VectorCoefs):
                    o[1, 0] = (3.0, 4.0)
                elif isinstance(o, sp.ScalarPatternUniform):
                    o.array[...] = -1
                else:
                    o.theta[...] = -2
                    o.phi[...] = -3
                objs[i] = (o, None, lib.bytes_of(o))
            ctx.op()
            continue
        o = call(ctx, *c[:4] + ("keyword",))
        check_object(ctx, o, *c)
        for p, _, _ in objs:
            ctx.check(not lib.share(o, p), "%s returned an object that shares memory with one returned earlier" % c[0])
        objs.append((o, c, lib.bytes_of(o)))
    for o, c, h in objs:
        ctx.check(lib.bytes_of(o) == h, "an object returned earlier by a factory changed")
        if c is not None:
            check_object(ctx, o, *c)
    ctx.observe(repr([c for _, c, _ in objs]))
