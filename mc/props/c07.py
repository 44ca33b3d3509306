"""C07 coefficient indexing: all indices on all shapes, and all short operation sequences against a dict model."""
import numpy as np
from mc import lib, ref
ID = "C07"
LEVEL = "model_checking"
RULE = ("one execution = one index expression on one shape, or one sequence of indexing operations (element, row and "
        "column assignment, window, with values in every form of array, reading everything, copy, truncation, rejected accesses), after which every mode, "
        "row, column and truncation is read back and compared with a dictionary model")
BOUNDS = {
    "quick": "indices: nmax<=5, all mmax, n and m from -3 beyond to 3 beyond, 16 slice forms; values handed over in 11 forms of array x 10 kinds of values for nmax<=3; four large sizes up to nmax 1030; sequences: depth 3 on 3 scalar and 2 vector shapes up to (2,1), depth 2 on all shapes nmax<=3 and (4,2)",
    "thorough": "indices: nmax<=9; values handed over in 11 forms of array x 10 kinds of values for nmax<=5; seven large sizes up to nmax 2050; sequences: depth 4 on 3 scalar and 2 vector shapes up to (2,1), depth 3 on all scalar shapes nmax<=3 and vector shapes nmax<=2, depth 2 on nmax<=6",
}
ASSUMPTIONS = ["indices are Python ints and slices; numpy integers, booleans and single (non pair) indices are not explored"]


def setup(tier):
    lib.setup()


PARTS = ["get", "set", "get slice", "set slice", "tuple length"]

# values handed over as arrays of every kind: stored exactly, the caller's array left alone
FORMS = ["complex array", "float array", "int array", "complex64 array", "float32 array", "read-only complex", "read-only float",
         "every second element", "reversed view", "row of a matrix", "column of a matrix"]
SHADES = {"plain": [1.5, -2.25, 3.0, 0.75], "tiny": [1e-305, -5e-324, 2e-310, 1.0], "huge": [1e300, -3e305, 8e307, 1.0],
          "zeros": [0.0, -0.0, 0.0, 1.0], "ones": [1.0, 1.0, 1.0, 1.0], "equal": [2.5, 2.5, 2.5, 2.5], "all zero": [0.0, 0.0, 0.0, 0.0],
          "near one": [1.0, 1 - 2.0 ** -53, 1 + 2.0 ** -52, 1 + 1e-9], "descending": [4.0, 3.0, 2.0, 1.0], "above one": [1.0, 1e3, 1e6, 1e9]}


def given(form, shade, L):
    """(the object to hand over, its base, the values as complex numbers)"""
    v = np.array([SHADES[shade][i % 4] for i in range(L)])
    if shade == "huge" and form in ("float32 array", "complex64 array"):
        v = v * 1e-275
    if form == "int array":
        v = np.round(np.clip(v, -1e6, 1e6))
        a = v.astype(np.int64)
    elif form == "float array" or form == "read-only float":
        a = v.copy()
    elif form == "float32 array":
        with np.errstate(all="ignore"):
            a = v.astype(np.float32)
        v = a.astype(float)
    elif form == "complex64 array":
        with np.errstate(all="ignore"):
            a = (v * (1 + 0.5j)).astype(np.complex64)
        v = a.astype(complex)
    else:
        v = v * (1 - 0.5j)
        a = v.copy()
    base = a
    if form.startswith("read-only"):
        a.flags.writeable = False
    elif form == "every second element":
        base = np.full(2 * L, 7.5 + 0j)
        base[::2] = v
        a = base[::2]
    elif form == "reversed view":
        base = v[::-1].copy()
        a = base[::-1]
    elif form == "row of a matrix":
        base = np.full((3, L), 7.5 + 0j)
        base[1] = v
        a = base[1]
    elif form == "column of a matrix":
        base = np.full((L, 3), 7.5 + 0j)
        base[:, 1] = v
        a = base[:, 1]
    return a, base, v.astype(complex)


def forms(ctx, kind, nmax, mmax):
    c, M = make(kind, nmax, mmax)
    k = ctx.choose("component", [0, 1] if kind == "vector" else [0])
    s = (c.scoef1, c.scoef2)[k] if kind == "vector" else c
    what = ctx.choose("what", ["window", "row", "column", "element"])
    form = ctx.choose("form", FORMS)
    shade = ctx.choose("values", sorted(SHADES))
    v = M.v[k]
    if what == "window":
        a, base, x = given(form, shade, nmax + 1)
        old = base.copy()
        if shade == "huge":
            for nm in v:
                v[nm] *= 2.0 ** -10
                if kind == "scalar" or nm[0]:
                    s[nm] = v[nm]
        s.window(a)
        for n, m in v:
            v[n, m] = v[n, m] * complex(x[n])
    elif what == "row":
        n = ctx.choose("n", range(1 if kind == "vector" else 0, nmax + 1))
        ms = range(-min(n, mmax), min(n, mmax) + 1)
        a, base, x = given(form, shade, len(ms))
        old = base.copy()
        s[n, :] = a
        for m, y in zip(ms, x):
            v[n, m] = complex(y)
    elif what == "column":
        m = ctx.choose("m", [m for m in range(-mmax, mmax + 1) if m or kind == "scalar"] or [0])
        ns = range(abs(m), nmax + 1)
        a, base, x = given(form, shade, len(ns))
        if kind == "vector" and m == 0:
            return
        old = base.copy()
        s[:, m] = a
        for n, y in zip(ns, x):
            v[n, m] = complex(y)
    else:
        modes = [nm for nm in ref.modes(nmax, mmax) if nm[0] or kind == "scalar"]
        a, base, x = given(form, shade, len(modes))
        old = base.copy()
        for nm, y, z in zip(modes, a, x):
            s[nm] = y
            v[nm] = complex(z)
    ctx.check(np.array_equal(base, old) and np.array_equal(np.signbit(base.real), np.signbit(old.real)), "the array handed over was changed")
    ctx.check(a.flags.writeable == (not form.startswith("read-only")), "the array handed over was made (not) writeable")
    for sub in ((c.scoef1, c.scoef2) if kind == "vector" else (c,)):
        ctx.check(not any(np.shares_memory(d, base) for d in lib.arrays_of(sub)), "the array handed over is kept")
    for i, sub in enumerate((c.scoef1, c.scoef2) if kind == "vector" else (c,)):
        got, want = lib.cvec(sub), lib.vecof(M.v[i], nmax, mmax)
        if what == "window" and i == k:
            ok = np.all(np.abs(got - want) <= 4e-16 * np.abs(want) + 2e-323)
        else:
            ok = np.array_equal(got, want)
        ctx.check(ok, lambda: "%s from a %s: component %d is %r, expected %r" % (what, form, i, got, want))
    ctx.op()
    ctx.observe("forms", kind, nmax, mmax, what, form, shade)


def units(tier):
    q = tier == "quick"
    top = 6 if q else 10
    for nmax in range(top):
        for mmax in range(nmax + 1):
            for kind in ("scalar", "vector"):
                if 0 < nmax <= (3 if q else 5):
                    yield ["forms", kind, nmax, mmax]
                for part in PARTS + (["value length"] if kind == "vector" else []):
                    yield ["index", kind, nmax, mmax, part]
    for nmax, mmax in ((66, 66), (130, 20), (300, 2), (1030, 0)) + (() if q else ((258, 258), (300, 300), (2050, 3))):
        for kind in ("scalar", "vector"):
            yield ["large", kind, nmax, mmax]
    d2 = [(n, m) for n in range(4 if q else 7) for m in range(n + 1)] + ([(4, 2)] if q else [])
    d3 = {"scalar": [(1, 0), (1, 1), (2, 1)], "vector": [(1, 0), (1, 1)]} if q else \
         {"scalar": [(n, m) for n in range(4) for m in range(n + 1)], "vector": [(n, m) for n in range(3) for m in range(n + 1)]}
    d4 = {"scalar": [] if q else [(1, 0), (1, 1), (2, 1)], "vector": [] if q else [(1, 0), (1, 1)]}
    for kind in ("scalar", "vector"):
        for depth, shapes in ((2, d2), (3, d3[kind]), (4, d4[kind])):
            for s in shapes:
                for first in range(len(alphabet(kind, s[0], s[1]))):
                    yield ["sequence", kind, s[0], s[1], depth, first]


def cost(u):
    if u[0] == "large":
        return u[2] * (u[3] + 1) * 4
    if u[0] == "forms":
        return 400 * (1 + u[2]) * (1 + u[3])
    return (40 ** (u[4] - 2)) * (u[2] + 1) if u[0] == "sequence" else 50 * (1 + u[2]) * (1 + u[3])


SLICES = [slice(None), slice(0, None), slice(None, 2), slice(None, None, 1), slice(None, None, 2), slice(1, 3),
          slice(0, 2, 1), slice(0, 1), slice(0, 2), slice(0, -1), slice(0, -2), slice(-1, None), slice(1, 2), slice(0, 99),
          slice(0, 0), slice(None, None, -1)]


class Model(object):
    """values per component; the vector kind has two components"""

    def __init__(self, kind, nmax, mmax, vals=None):
        self.kind, self.nmax, self.mmax = kind, nmax, mmax
        self.v = vals if vals is not None else [dict.fromkeys(ref.modes(nmax, mmax), 0.0 + 0.0j)
                                                for _ in range(2 if kind == "vector" else 1)]

    def cut(self, k):
        m = min(k, self.mmax)
        return Model(self.kind, k, m, [{nm: c[nm] for nm in ref.modes(k, m)} for c in self.v])

    def clone(self):
        return Model(self.kind, self.nmax, self.mmax, [dict(c) for c in self.v])


def make(kind, nmax, mmax, j=0):
    sp = lib.sp
    vals = [ref.dense(nmax, mmax, j + 11 * k) for k in range(2 if kind == "vector" else 1)]
    if kind == "vector":
        for c in vals:
            c[0, 0] = 0j
        return lib.vcoefs(vals[0], vals[1], nmax, mmax), Model(kind, nmax, mmax, vals)
    return sp.ScalarCoefs(lib.vecof(vals[0], nmax, mmax), nmax, mmax), Model(kind, nmax, mmax, vals)


def rejects(ctx, f, what):
    try:
        f()
    except AttributeError:
        return
    ctx.check(False, lambda: what() + " must raise AttributeError")


def eq(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def light(ctx, c, M):
    """Sizes and all values, column by column."""
    ctx.check((c.nmax, c.mmax) == (M.nmax, M.mmax), lambda: "size (%r,%r), expected (%d,%d)" % (c.nmax, c.mmax, M.nmax, M.mmax))
    for k, s in enumerate((c.scoef1, c.scoef2) if M.kind == "vector" else (c,)):
        ctx.check((s.nmax, s.mmax) == (M.nmax, M.mmax), "size of a component")
        got, want = lib.cvec(s), lib.vecof(M.v[k], M.nmax, M.mmax)
        ctx.check(np.array_equal(got, want), lambda: "values of component %d are %r, expected %r" % (k, got, want))
    ctx.op(2 * M.mmax + 1)


def verify(ctx, c, M, deep=True):
    """Everything that can be read agrees with the model."""
    sp = lib.sp
    nmax, mmax = M.nmax, M.mmax
    ctx.check((c.nmax, c.mmax) == (nmax, mmax), lambda: "size (%r,%r), expected (%d,%d)" % (c.nmax, c.mmax, nmax, mmax))
    ctx.check(c.size == len(M.v[0]), lambda: "size is %r, there are %d modes" % (c.size, len(M.v[0])))
    if M.kind == "vector":
        for k, s in enumerate((c.scoef1, c.scoef2)):
            verify(ctx, s, Model("scalar", nmax, mmax, [M.v[k]]), deep)
        for n, m in M.v[0]:
            if n:
                got = c[n, m]
                ctx.check(len(got) == 2 and got[0] == M.v[0][n, m] and got[1] == M.v[1][n, m],
                          lambda: "c[%d,%d] is %r, expected %r" % (n, m, got, (M.v[0][n, m], M.v[1][n, m])))
        for n in range(1, nmax + 1):
            k = min(n, mmax)
            got = c[n, :]
            for i in (0, 1):
                want = [M.v[i][n, m] for m in range(-k, k + 1)]
                ctx.check(len(got) == 2 and eq(got[i], want), lambda: "c[%d,:][%d] is %r, expected %r" % (n, i, got[i], want))
        for m in range(-mmax, mmax + 1):
            got = c[:, m]
            for i in (0, 1):
                want = [M.v[i][n, m] for n in range(abs(m), nmax + 1)]
                ctx.check(len(got) == 2 and eq(got[i], want), lambda: "c[:,%d][%d] is %r, expected %r" % (m, i, got[i], want))
    else:
        v = M.v[0]
        for (n, m), want in v.items():
            got = c[n, m]
            ctx.check(got == want, lambda: "c[%d,%d] is %r, expected %r" % (n, m, got, want))
        for n in range(nmax + 1):
            k = min(n, mmax)
            want = [v[n, m] for m in range(-k, k + 1)]
            got = c[n, :]
            ctx.check(eq(got, want), lambda: "c[%d,:] is %r, expected %r" % (n, got, want))
        for m in range(-mmax, mmax + 1):
            want = [v[n, m] for n in range(abs(m), nmax + 1)]
            got = c[:, m]
            ctx.check(eq(got, want), lambda: "c[:,%d] is %r, expected %r" % (m, got, want))
    ctx.op(len(M.v[0]) + nmax + 2 * mmax + 2)
    if deep:
        for k in range(nmax + 1):
            t = c[0:k, :]
            ctx.check(type(t) is type(c), "truncation returned a %s" % type(t).__name__)
            light(ctx, t, M.cut(k))


# ------------------------------------------------------------------------------------- sequences
def alphabet(kind, nmax, mmax):
    ops = []
    for n, m in ref.modes(nmax, mmax):
        if kind == "scalar" or n:
            ops.append(("set", n, m))
    for k in range(2 if kind == "vector" else 1):
        for n in range(nmax, -1, -1):
            ops.append(("row", k, n))
        for m in range(-mmax, mmax + 1):
            ops.append(("col", k, m))
        ops.append(("window", k, 0))
    ops += [("use copy", 0, 0), ("spoil copy", 0, 0), ("read", 0, 0)]
    for k in sorted({0, nmax // 2, max(0, nmax - 1), nmax}):
        ops += [("use cut", k, 0), ("spoil cut", k, 0)]
    ops += [("bad set", 0, 0), ("bad row", 0, 0), ("bad col", 0, 0), ("bad get", 0, 0)]
    return ops


def apply(ctx, c, M, op, step, retained):
    """Returns the object and model to go on with."""
    kind = M.kind
    nmax, mmax = M.nmax, M.mmax
    what, a, b = op
    comp = (lambda k: (c.scoef1, c.scoef2)[k]) if kind == "vector" else (lambda k: c)

    def val(i):
        # zeros among the values: assigning zero over a non-zero mode matters
        return 0j if (i + step) % 3 == 1 else ref.generic(1000 * (step + 1) + i, 3)
    if what == "set":
        if kind == "vector":
            c[a, b] = (val(1), val(2))
            M.v[0][a, b], M.v[1][a, b] = val(1), val(2)
        else:
            c[a, b] = val(1)
            M.v[0][a, b] = val(1)
    elif what == "row":
        if b > nmax:
            return c, M
        k = min(b, mmax)
        ms = range(-k, k + 1)
        v = [val(i) for i, _ in enumerate(ms)]
        if kind == "vector" and b == 0:
            v = [0j]
        comp(a)[b, :] = v if step % 2 else np.array(v)
        for m, x in zip(ms, v):
            M.v[a][b, m] = x
    elif what == "col":
        if abs(b) > mmax:
            return c, M
        ns = range(abs(b), nmax + 1)
        v = [val(i) for i, _ in enumerate(ns)]
        if kind == "vector" and b == 0:
            v[0] = 0j
        comp(a)[:, b] = v if step % 2 else np.array(v)
        for n, x in zip(ns, v):
            M.v[a][n, b] = x
    elif what == "window":
        w = np.array([2.0 ** (1 - n) for n in range(nmax + 1)]) * (1 if step % 2 else -1)
        comp(a).window(w)
        for n, m in M.v[a]:
            M.v[a][n, m] = M.v[a][n, m] * float(w[n])
        ctx.check(np.array_equal(w, np.array([2.0 ** (1 - n) for n in range(nmax + 1)]) * (1 if step % 2 else -1)), "window changed its argument")
    elif what == "read":
        verify(ctx, c, M, False)
    elif what in ("use copy", "use cut"):
        if what == "use cut" and a > nmax:
            return c, M
        d, N = (c.copy(), M.clone()) if what == "use copy" else (c[0:a, :], M.cut(a).clone())
        ctx.check(not lib.share(c, d), "%s shares memory with the original" % what)
        retained.append((c, M))
        return d, N
    elif what in ("spoil copy", "spoil cut"):
        if what == "spoil cut" and a > nmax:
            return c, M
        d = c.copy() if what == "spoil copy" else c[0:a, :]
        for s in ((d.scoef1, d.scoef2) if kind == "vector" else (d,)):
            for n, m in ref.modes(d.nmax, d.mmax):
                s[n, m] = 5.5 + step
    elif what == "bad set":
        for i, j in ((nmax + 1, 0), (-1, 0), (nmax, mmax + 1), (nmax, -mmax - 1), (0, 1)):
            if kind == "vector":
                rejects(ctx, lambda: c.__setitem__((i, j), (9.0, 9.0)), lambda: "c[%d,%d] = (9,9)" % (i, j))
            else:
                rejects(ctx, lambda: c.__setitem__((i, j), 9.0), lambda: "c[%d,%d] = 9" % (i, j))
    elif what == "bad row":
        for k in range(2 if kind == "vector" else 1):
            for n in range(nmax + 1):
                L = 2 * min(n, mmax) + 1
                for bad in (L - 1, L + 1, L + 2):
                    rejects(ctx, lambda: comp(k).__setitem__((n, slice(None)), [9.0] * bad), lambda: "c[%d,:] = %d values" % (n, bad))
            rejects(ctx, lambda: comp(k).__setitem__((nmax + 1, slice(None)), [9.0] * (2 * mmax + 1)), lambda: "c[nmax+1,:] =")
            rejects(ctx, lambda: comp(k).__setitem__((-1, slice(None)), [9.0] * (2 * mmax + 1)), lambda: "c[-1,:] =")
    elif what == "bad col":
        for k in range(2 if kind == "vector" else 1):
            for m in range(-mmax, mmax + 1):
                L = nmax - abs(m) + 1
                for bad in (L - 1, L + 1):
                    rejects(ctx, lambda: comp(k).__setitem__((slice(None), m), [9.0] * bad), lambda: "c[:,%d] = %d values" % (m, bad))
            rejects(ctx, lambda: comp(k).__setitem__((slice(None), mmax + 1), [9.0] * (nmax - mmax)), lambda: "c[:,mmax+1] =")
    elif what == "bad get":
        for i, j in ((nmax + 1, 0), (-1, 0), (nmax, mmax + 1), (nmax, -mmax - 1), (slice(None), mmax + 1), (nmax + 1, slice(None))):
            rejects(ctx, lambda: c[i, j], lambda: "c[%r,%r]" % (i, j))
    ctx.op()
    return c, M


def large(ctx, kind, nmax, mmax):
    """Large objects: filled in every way, changed at single places, truncated, copied, refused."""
    sp = lib.sp
    c, M = make(kind, nmax, mmax)
    comps = (lambda o: (o.scoef1, o.scoef2)) if kind == "vector" else (lambda o: (o,))
    how = ctx.choose("what", ["fill by element", "fill by row", "fill by column", "one element", "one row", "one column", "truncate", "copy", "refuse"])
    if how.startswith("fill"):
        o = sp.zeros_coefs(nmax, mmax, coef_type=sp.vector if kind == "vector" else sp.scalar)
        if how == "fill by element":
            for n, m in ref.modes(nmax, mmax):
                if kind == "scalar":
                    o[n, m] = M.v[0][n, m]
                elif n:
                    o[n, m] = (M.v[0][n, m], M.v[1][n, m])
        elif how == "fill by row":
            for s, v in zip(comps(o), M.v):
                for n in range(nmax + 1):
                    k = min(n, mmax)
                    s[n, :] = [v[n, m] for m in range(-k, k + 1)]
        else:
            for s, v in zip(comps(o), M.v):
                for m in range(-mmax, mmax + 1):
                    s[:, m] = [v[n, m] for n in range(abs(m), nmax + 1)]
        verify(ctx, o, M, False)
    elif how == "one element":
        m = ctx.choose("m", sorted({-mmax, -1 if mmax else 0, 0, min(1, mmax), mmax // 2, mmax}))
        for n in lib.edges(nmax + 1):
            if n >= abs(m) and (n or kind == "scalar"):
                x = ref.generic(n, 17)
                c[n, m] = (x, -x) if kind == "vector" else x
                M.v[0][n, m] = x
                if kind == "vector":
                    M.v[1][n, m] = -x
                light(ctx, c, M)
    elif how == "one row":
        for n in lib.edges(nmax + 1):
            if n:
                k = min(n, mmax)
                for i, (s, v) in enumerate(zip(comps(c), M.v)):
                    x = [ref.generic(m, 19 + i) for m in range(-k, k + 1)]
                    s[n, :] = x
                    v.update({(n, m): y for m, y in zip(range(-k, k + 1), x)})
                light(ctx, c, M)
    elif how == "one column":
        for m in sorted({-mmax, -1 if mmax else 0, 0, min(1, mmax), mmax // 2, mmax}):
            for i, (s, v) in enumerate(zip(comps(c), M.v)):
                x = [0j if n == 0 and kind == "vector" else ref.generic(n, 23 + i) for n in range(abs(m), nmax + 1)]
                s[:, m] = x
                v.update({(n, m): y for n, y in zip(range(abs(m), nmax + 1), x)})
            light(ctx, c, M)
    elif how == "truncate":
        for k in lib.edges(nmax + 1):
            t = c[0:k, :]
            light(ctx, t, M.cut(k))
            ctx.check(not lib.share(t, c), "the truncation shares memory with the original")
    elif how == "copy":
        d = c.copy()
        light(ctx, d, M)
        ctx.check(not lib.share(d, c), "the copy shares memory with the original")
        for n in lib.edges(nmax + 1):
            if n:
                d[n, 0] = (9.0, 9.0) if kind == "vector" else 9.0
    else:
        one = (9.0, 9.0) if kind == "vector" else 9.0
        for n in lib.edges(nmax + 1) + [-1, nmax + 1, nmax + 2, 2 * nmax, 2 ** 16 + 1, 2 ** 32 + 1, -2 ** 32 + 1]:
            for m in (-mmax - 1, mmax + 1, n + 1, -n - 1, 2 ** 16, 2 ** 32, -2 ** 32) + (() if 0 <= n <= nmax else (0, mmax)):
                if 0 <= n <= nmax and abs(m) <= min(n, mmax):
                    continue
                rejects(ctx, lambda: c[n, m], lambda: "c[%d,%d]" % (n, m))
                rejects(ctx, lambda: c.__setitem__((n, m), one), lambda: "c[%d,%d] =" % (n, m))
            ctx.op()
        for k in (nmax + 1, 2 * nmax, 2 ** 32):
            rejects(ctx, lambda: c[0:k, :], lambda: "c[0:%d, :]" % k)
    verify(ctx, c, M, False)
    ctx.observe(kind, nmax, mmax, how)


def run(ctx, u):
    sp = lib.sp
    if u[0] == "sequence":
        _, kind, nmax, mmax, depth, first = u
        ops = alphabet(kind, nmax, mmax)
        c, M = make(kind, nmax, mmax)
        retained = []
        for step in range(depth):
            if step == 0 and first >= 0:
                op = ops[first]
                ctx.note("op", op)
            else:
                op = ctx.choose("op", ops)
            if op[0] in ("set",) and (op[1] > M.nmax or abs(op[2]) > M.mmax):
                continue
            c, M = apply(ctx, c, M, op, step, retained)
            if step == depth - 1:
                verify(ctx, c, M, depth < 4)
                for c0, M0 in retained:
                    verify(ctx, c0, M0, False)
        ctx.observe(repr(sorted(M.v[0].items())), repr(M.v[1:]))
        return
    if u[0] == "large":
        return large(ctx, *u[1:])
    if u[0] == "forms":
        return forms(ctx, *u[1:])
    _, kind, nmax, mmax, part = u
    c, M = make(kind, nmax, mmax)
    before = [dict(v) for v in M.v]
    rng_n, rng_m = range(-3, nmax + 4), range(-mmax - 3, mmax + 4)
    if part in ("get", "set"):
        n = ctx.choose("n", rng_n)
        m = ctx.choose("m", rng_m)
        ok = 0 <= n <= nmax and abs(m) <= min(n, mmax) and not (kind == "vector" and n == 0)
        if part == "get":
            if not ok:
                rejects(ctx, lambda: c[n, m], lambda: "c[%d,%d]" % (n, m))
            else:
                got = c[n, m]
                want = (M.v[0][n, m], M.v[1][n, m]) if kind == "vector" else M.v[0][n, m]
                ctx.check(got == want, lambda: "c[%d,%d] is %r, expected %r" % (n, m, got, want))
        else:
            val = ctx.choose("value", [1.5 - 2j, 3, 2.5, np.complex128(1j), 0, 0.0])
            if kind == "vector":
                pair = ctx.choose("pair", ["tuple", "list"])
                x = (val, -val) if pair == "tuple" else [val, -val]
                if ok:
                    c[n, m] = x
                    M.v[0][n, m], M.v[1][n, m] = complex(val), complex(-val)
                else:
                    rejects(ctx, lambda: c.__setitem__((n, m), x), lambda: "c[%d,%d] =" % (n, m))
            elif ok:
                c[n, m] = val
                M.v[0][n, m] = complex(val)
            else:
                rejects(ctx, lambda: c.__setitem__((n, m), val), lambda: "c[%d,%d] =" % (n, m))
    elif part == "get slice":
        form = ctx.choose("form", ["row", "column", "both"])
        if form == "row":
            n = ctx.choose("n", rng_n)
            s = ctx.choose("slice", SLICES)
            if s == slice(None) and 0 <= n <= nmax and not (kind == "vector" and n == 0):
                verify(ctx, c, M)
            else:
                rejects(ctx, lambda: c[n, s], lambda: "c[%d,%r]" % (n, s))
        elif form == "column":
            s = ctx.choose("slice", SLICES)
            m = ctx.choose("m", rng_m)
            if not (s == slice(None) and abs(m) <= mmax):
                rejects(ctx, lambda: c[s, m], lambda: "c[%r,%d]" % (s, m))
        else:
            s1 = ctx.choose("slice", SLICES + [slice(0, k) for k in range(-3, nmax + 4)])
            s2 = ctx.choose("slice 2", SLICES)
            ok = s2 == slice(None) and s1.start == 0 and s1.step is None and s1.stop is not None and 0 <= s1.stop <= nmax
            if ok:
                t = c[s1, s2]
                verify(ctx, t, M.cut(s1.stop))
                ctx.check(not lib.share(t, c), "the truncation shares memory with the original")
            else:
                rejects(ctx, lambda: c[s1, s2], lambda: "c[%r,%r]" % (s1, s2))
    elif part == "set slice":
        form = ctx.choose("form", ["row", "column", "both"])
        if form == "row":
            n = ctx.choose("n", rng_n)
            s = ctx.choose("slice", SLICES)
            L = ctx.choose("count", range(0, 2 * mmax + 4))
            x = [ref.generic(i, 9) for i in range(L)]
            if kind == "vector":
                rejects(ctx, lambda: c.__setitem__((n, s), (x, x)), lambda: "c[%d,%r] = pair" % (n, s))
            else:
                k = min(n, mmax)
                if s == slice(None) and 0 <= n <= nmax and L == 2 * k + 1:
                    c[n, s] = x
                    for i, m in enumerate(range(-k, k + 1)):
                        M.v[0][n, m] = x[i]
                else:
                    rejects(ctx, lambda: c.__setitem__((n, s), x), lambda: "c[%d,%r] = %d values" % (n, s, L))
        elif form == "column":
            s = ctx.choose("slice", SLICES)
            m = ctx.choose("m", rng_m)
            L = ctx.choose("count", range(0, nmax + 4))
            x = np.array([ref.generic(i, 9) for i in range(L)], dtype=np.complex128)
            if kind == "vector":
                rejects(ctx, lambda: c.__setitem__((s, m), (x, x)), lambda: "c[%r,%d] = pair" % (s, m))
            elif s == slice(None) and abs(m) <= mmax and L == nmax - abs(m) + 1:
                c[s, m] = x
                for i, n in enumerate(range(abs(m), nmax + 1)):
                    M.v[0][n, m] = x[i]
            else:
                rejects(ctx, lambda: c.__setitem__((s, m), x), lambda: "c[%r,%d] = %d values" % (s, m, L))
        else:
            s1 = ctx.choose("slice", SLICES)
            s2 = ctx.choose("slice 2", SLICES)
            x = (1.0, 2.0) if kind == "vector" else [1.0]
            rejects(ctx, lambda: c.__setitem__((s1, s2), x), lambda: "c[%r,%r] =" % (s1, s2))
    elif part == "tuple length":
        idx = ctx.choose("index", [(), (0,), (1,), (1, 0, 0), (0, 0, 0), (slice(None),), (1, "0"), ("1", 0), (1.0, 0), (1, None), (None, None)])
        rejects(ctx, lambda: c[idx], lambda: "c[%r]" % (idx,))
        rejects(ctx, lambda: c.__setitem__(idx, (1.0, 2.0)), lambda: "c[%r] =" % (idx,))
    else:
        n = ctx.choose("n", rng_n)
        x = ctx.choose("value", [(), (1.0,), (1.0, 2.0, 3.0), 1.0, 2j, [1.0], [], None, "ab"])
        rejects(ctx, lambda: c.__setitem__((n, 0), x), lambda: "c[%d,0] = %r" % (n, x))
    ctx.op()
    light(ctx, c, M)
    if part in ("set", "set slice"):
        if M.v != before:
            verify(ctx, c, M, False)
    ctx.observe(part, repr(ctx.log[1:]))
