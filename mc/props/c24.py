"""C24 Fourier domain operators: every entry of every shape, and all short sequences of operators on the same data."""
import numpy as np
from mc import lib, ref
ID = "C24"
LEVEL = "model_checking"
RULE = ("one execution = one operator applied to one array of Fourier data (one entry times 1 or i: a basis, the operators being "
        "linear; dense data; data of known fields), or one sequence of operators on the same array, compared entry by entry with "
        "the multiplication by i m, i k, sin(theta) or its inverse in a model indexed by frequency")
BOUNDS = {"quick": "rows 4..16 even, columns 2..10 even, every entry, 4 memory layouts; large arrays up to 258 x 130; sequences of 4 operators over 8",
          "thorough": "rows 4..30 even, columns 2..20 even, every entry, 4 memory layouts; large arrays up to 1030 x 258; sequences of 5 operators over 8"}
ASSUMPTIONS = ["row and column counts are even, as the operators document", "division by sin(theta) is judged for data that are divisible by it"]


def setup(tier):
    lib.setup()


OPS = ["fix", "sin", "divsin", "dtheta", "dphi", "L", "sinLdot", "pad"]


def units(tier):
    q = tier == "quick"
    R, C = (16, 10) if q else (30, 20)
    for nr in range(4, R + 1, 2):
        for nc in range(2, C + 1, 2):
            for op in OPS:
                yield ["basis", op, nr, nc]
                yield ["dense", op, nr, nc]
            if nr >= 6:
                yield ["field", "", nr, nc]
    for nr, nc in ((66, 34), (130, 8), (258, 130), (8, 258)) + (() if q else ((258, 258), (1030, 66), (62, 1030))):
        for op in OPS:
            yield ["dense", op, nr, nc]
        yield ["field", "", nr, nc]
    for a in range(len(SEQ)):
        for b in range(len(SEQ)):
            yield ["sequence", "", a, b, 4 if q else 5]


def cost(u):
    return 3000 if u[0] == "sequence" else u[2] * u[3] * (u[2] * u[3] if u[0] == "basis" else 5)


# --------------------------------------------------------------------------------------- the model
def freq(n):
    return np.array([k if k < n // 2 else k - n for k in range(n)])


def at(a, k):
    """row of frequency k (0 outside of the open interval of the frequencies kept)"""
    return a[k % a.shape[0]]


def model(op, a):
    n, c = a.shape
    M = n // 2
    out = np.zeros_like(a)
    if op == "fix":
        out[:] = a
        out[M] = 0
    elif op == "dtheta":
        out[:] = 1j * freq(n)[:, None] * a
    elif op == "dphi":
        out[:] = 1j * freq(c)[None, :] * a
    elif op == "sin":
        b = a.copy()
        b[M - 1] = 0
        b[M + 1] = 0
        for k in range(-M, M):
            out[k % n] = (at(b, k - 1) - at(b, k + 1)) / 2j
    else:
        raise KeyError(op)
    return out


def divisible(g):
    """sin(theta) times g, for g with frequencies |k| <= M-2"""
    n = g.shape[0]
    return np.array([(at(g, k - 1) - at(g, k + 1)) / 2j for k in range(n)])


def band(g):
    n = g.shape[0]
    M = n // 2
    g = g.copy()
    for k in (M - 1, M, M + 1):
        g[k] = 0
    return g


LAYOUTS = ["plain", "columns first", "every other column", "every other row"]


def lay(a, how):
    if how == "columns first":
        return np.asfortranarray(a)
    if how == "every other column":
        z = np.full((a.shape[0], 2 * a.shape[1]), 9e9 + 9e9j)
        z[:, ::2] = a
        return z[:, ::2]
    if how == "every other row":
        z = np.full((2 * a.shape[0], a.shape[1]), 9e9 + 9e9j)
        z[::2] = a
        return z[::2]
    return a.copy()


def close(ctx, got, want, what, tol=1e-13):
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, lambda: "%s: shape %r" % (what, got.shape))
    big = tol * (1 + np.max(np.abs(want)))
    ctx.check(lib.maxerr(got, want) <= big, lambda: "%s: %s" % (what, lib.where(got, want)))
    ctx.op()


def apply(ctx, op, a, how="plain", b=None):
    """Applies one operator to arrays with these values and compares what it did."""
    from spherepy import ops as O
    x = lay(a, how)
    base = x.base if x.base is not None and x.base.shape != x.shape else None
    if op in ("fix", "sin", "dtheta", "dphi"):
        f = {"fix": O.fix_even_row_data_fc, "sin": O.sin_fc, "dtheta": O.dtheta_fc, "dphi": O.dphi_fc}[op]
        r = f(x)
        ctx.check(r is None or r is x, lambda: "%s returned a %s" % (op, type(r).__name__))
        close(ctx, x, model(op, a), op)
        out = [np.array(x)]
    elif op == "divsin":
        g = band(a)
        x = lay(divisible(g), how)
        base = x.base if x.base is not None and x.base.shape != x.shape else None
        O.divsin_fc(x)
        close(ctx, x, g, "divsin of sin times g", 1e-13 * a.shape[0])
        out = [np.array(x)]
    elif op == "L":
        g = band(a)
        x = lay(np.array(1.0 * divisible(g)), how)
        s = np.array(x)
        base = x.base if x.base is not None and x.base.shape != x.shape else None
        r = O.L_fc(x)
        ctx.check(isinstance(r, tuple) and len(r) == 2, "L_fc must return two arrays")
        close(ctx, r[0], 1j * model("dphi", g), "L, first component", 1e-13 * a.shape[0])
        close(ctx, r[1], -1j * model("dtheta", s), "L, second component")
        ctx.check(not np.shares_memory(r[0], r[1]), "the components of L share memory")
        out = [np.array(k) for k in r]
    elif op == "sinLdot":
        b = a[::-1, ::-1].copy() if b is None else b
        y = lay(b, how)
        r = O.sinLdot_fc(x, y)
        want = 1j * (model("dphi", a) - model("dtheta", model("sin", b)))
        close(ctx, r, want, "sinLdot")
        out = [np.array(r)]
    else:
        n, c = a.shape
        M = n // 2
        out = []
        for extra in (0, 1, 2, 5, n, 7 * n):
            y = lay(np.full((n + extra, c), 3 - 7j), how)
            O.pad_rows_fdata(x, y)
            want = np.zeros((n + extra, c), dtype=np.complex128)
            for k in range(-M + 1, M):
                want[k % (n + extra)] = a[k % n]
            ctx.check(np.array_equal(y, want), lambda: "padding %d rows by %d: %s" % (n, extra, lib.where(y, want)))
            ctx.check(np.array_equal(x, a), "padding changed the data it read")
            ctx.op()
        for less in (1, 2):
            y = np.full((n - less, c), 3 - 7j)
            try:
                O.pad_rows_fdata(x, y)
            except Exception:
                ctx.check(np.array_equal(x, a), "refused padding changed the data")
                continue
            ctx.check(False, "padding into %d rows fewer must be refused" % less)
        return [want]
    if base is not None:
        keep = base[:, 1::2] if how == "every other column" else base[1::2]
        ctx.check(np.all(keep == 9e9 + 9e9j), lambda: "%s wrote outside of the array it was given" % op)
    return out


SEQ = ["fix", "sin", "dtheta", "dphi", "divsin", "L", "sinLdot", "pad"]


def run(ctx, u):
    kind, op, nr, nc = u[:4]
    if kind == "sequence":
        return sequence(ctx, u)
    if kind == "basis":
        r = ctx.choose("row", range(nr))
        c = ctx.choose("column", range(nc))
        v = ctx.choose("value", [1.0, 1j])
        a = np.zeros((nr, nc), dtype=np.complex128)
        a[r, c] = v
        b = None
        if op == "sinLdot" and ctx.choose("argument", ["first", "second"]) == "second":
            a, b = np.zeros_like(a), a
        elif op == "sinLdot":
            b = np.zeros_like(a)
        ctx.observe(*apply(ctx, op, a, "plain", b))
    elif kind == "dense":
        how = ctx.choose("layout", LAYOUTS)
        j = ctx.choose("data", [0, 1, 2])
        a = lib.generic_array(nr, nc, j, "real" if j == 2 else "complex")
        a = a * ctx.choose("scale", [1.0, 2.0 ** 300, 2.0 ** -300]) if op in ("fix", "pad") else a
        ctx.observe(*apply(ctx, op, a, how))
    else:
        # meaning on the sphere: fields of a few frequencies, differentiated and multiplied point by point
        from spherepy import ops as O
        k = ctx.choose("theta frequency", lib.edges(nr // 2 - 2))
        m = ctx.choose("phi frequency", lib.edges(nc // 2))
        s1, s2 = ctx.choose("signs", [(1, 1), (1, -1), (-1, 1), (-1, -1)])
        ct, st = np.array(ref.roots(nr).real, dtype=float), np.array(ref.roots(nr).imag, dtype=float)
        et, ep = ref.roots(nr)[(s1 * k * np.arange(nr)) % nr], ref.roots(nc)[(s2 * m * np.arange(nc)) % nc]
        f = np.outer(et, ep).astype(np.complex128)
        back = lambda x: np.fft.ifft2(x) * nr * nc
        F = np.fft.fft2(f) / (nr * nc)
        for what, g, want in (("dtheta", O.dtheta_fc, 1j * s1 * k * f), ("dphi", O.dphi_fc, 1j * s2 * m * f), ("sin", O.sin_fc, st[:, None] * f)):
            x = F.copy()
            g(x)
            close(ctx, back(x), want, "%s of the field exp(i(%d theta + %d phi))" % (what, s1 * k, s2 * m), 1e-12 * (nr + nc))
        x = np.fft.fft2(st[:, None] * f) / (nr * nc)
        O.divsin_fc(x)
        close(ctx, back(x), f, "sin(theta) times a field, divided by it", 1e-12 * nr * nr)
        ctx.observe(np.round(f, 6))


def sequence(ctx, u):
    """The same array goes through several operators."""
    from spherepy import ops as O
    nr, nc = 8, 4
    a = lib.generic_array(nr, nc, 5)
    x = a.copy()
    other = lib.generic_array(nr, nc, 6)
    o0 = other.copy()
    for d in range(u[4]):
        op = SEQ[u[2 + d]] if d < 2 else ctx.choose("op", SEQ)
        if d < 2:
            ctx.note("op", op)
        if op in ("fix", "sin", "dtheta", "dphi"):
            {"fix": O.fix_even_row_data_fc, "sin": O.sin_fc, "dtheta": O.dtheta_fc, "dphi": O.dphi_fc}[op](x)
            a = model(op, a)
        elif op == "divsin":
            a = band(a)
            x = divisible(a)
            O.divsin_fc(x)
        elif op == "L":
            a = band(a)
            x = divisible(a)
            r = O.L_fc(x)
            x, a = r[0], 1j * model("dphi", a)
        elif op == "sinLdot":
            y = other.copy()
            x = O.sinLdot_fc(x, y)
            a = 1j * (model("dphi", a) - model("dtheta", model("sin", other)))
        else:
            y = np.empty((nr, nc), dtype=np.complex128)
            O.pad_rows_fdata(x, y)
            b = np.zeros_like(a)
            for k in range(-nr // 2 + 1, nr // 2):
                b[k % nr] = a[k % nr]
            x, a = y, b
        ctx.op()
    close(ctx, x, a, "after %r" % ([v for _, v in ctx.log],), 1e-11)
    ctx.check(np.array_equal(other, o0), "an operator changed other data")
    ctx.observe(np.round(a, 9))
