"""C19 printing: every mode position of every shape, and histories of changes and printing."""
import contextlib, io, math, re
import numpy as np
from mc import lib, ref
ID = "C19"
LEVEL = "model_checking"
RULE = ("one execution = one coefficient set (a value at one mode, on zeros or dense data) or one history of changes, copies and "
        "truncations, printed by pretty_coefs, str and repr; the text is parsed back and compared with the coefficients")
BOUNDS = {"quick": "nmax<=6 (pretty_coefs from nmax=2), every mode, 12 values, 3 backgrounds; 12 larger shapes up to nmax=1001; histories of 4 steps",
          "thorough": "nmax<=12, every mode, 12 values, 3 backgrounds; 20 larger shapes up to nmax=2500; histories of 6 steps"}
ASSUMPTIONS = ["finite values; two significant digits are what the pretty printer promises, every digit what str promises"]
VALUES = [1.0, -1.0, 3j, -2.5 + 0.75j, 1e-17 - 3.3e20j, 123456.0 + 0.000123j, 0.1 + 0.2j, -0.0999j, 9.96 - 1.04j, 5e-324, 1e300 + 1e-300j, 0.0]


def setup(tier):
    lib.setup()


def units(tier):
    N = 6 if tier == "quick" else 12
    for n in range(N + 1):
        for m in range(n + 1):
            yield ["print", n, m]
    for n, m in LARGE if tier == "quick" else LARGE + LARGER:
        yield ["large", n, m]
    for k in range(len(SHAPES)):
        for a in range(len(STEPS)):
            yield ["history", k, a, 4 if tier == "quick" else 6]


def cost(u):
    return u[1] * u[2] if u[0] == "print" else 10 ** 5


LARGE = [(9, 9), (10, 2), (11, 11), (25, 3), (32, 32), (64, 1), (99, 0), (100, 1), (101, 2), (130, 40), (600, 1), (1001, 0)]
LARGER = [(49, 49), (50, 50), (51, 3), (127, 127), (128, 128), (200, 100), (1500, 2), (2500, 0)]
SHAPES = [(2, 0), (2, 1), (2, 2), (4, 1), (3, 3)]
STEPS = ["print", "set 2 last", "set 1 first", "set row", "copy and change", "double"]


def text_of(f, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a)
    return out.getvalue()


def close(got, want):
    """two significant digits"""
    for g, w in ((got.real, want.real), (got.imag, want.imag)):
        if w == 0 or abs(w) < 1e-307:
            if abs(g - w) > 1e-307:
                return False
        elif not abs(g - w) <= 0.5001 * 10.0 ** (math.floor(math.log10(abs(w))) - 1):
            return False
    return True


def number(t):
    t = re.sub(r"^np\.\w+\((.*)\)$", r"\1", t.strip())
    return complex(t.strip("()"))


def check_pretty(ctx, vals, n, m, text):
    rows = {}
    labels = None
    for line in text.splitlines():
        k = re.match(r"\s*(\d+):(.*)$", line)
        if k:
            r = int(k.group(1))
            ctx.check(r not in rows, "pretty_coefs: two rows n=%d" % r)
            rows[r] = [(x.group(), x.start() + len(x.group()) / 2.0) for x in re.finditer(r"\S+", " " * k.start(2) + k.group(2))]
        elif "m = " in line:
            labels = {int(x.group(1)): (x.start() + x.end()) / 2.0 for x in re.finditer(r"m = (-?\d+)", line)}
    ctx.check(set(rows) == {0, 1, 2} and labels is not None and set(labels) == {-2, -1, 0, 1, 2}, lambda: "pretty_coefs printed %r" % text)
    for r in range(3):
        ms = [k for k in range(-r, r + 1) if abs(k) <= m]
        ctx.check(len(rows[r]) == len(ms), lambda: "pretty_coefs: row n=%d shows %d values, expected %d: %r" % (r, len(rows[r]), len(ms), text))
        fits = all(len(t) <= 13 for t, _ in rows[r])
        for (t, pos), k in zip(rows[r], ms):
            w = vals[r, k]
            try:
                g = number(t)
            except ValueError:
                g = complex("nan")
            ctx.check(close(g, w), lambda: "pretty_coefs shows %r for c[%d,%d] = %r" % (t, r, k, w))
            if fits:
                col = min(labels, key=lambda c: abs(labels[c] - pos))
                ctx.check(col == k, lambda: "pretty_coefs shows c[%d,%d] in the column m = %d: %r" % (r, k, col, text))
    ctx.op()
    ctx.observe(text)


def split_list(s):
    return [t for t in (x.strip() for x in s.split(",")) if t]


def check_str(ctx, vals, n, m, text):
    L = text.strip().splitlines()
    ctx.check([int(x) for x in re.findall(r"=\s*(-?\d+)", L[0])] == [n, m] and "nmax" in L[0] and "mmax" in L[0] and L[0].index("nmax") < L[0].index("mmax"),
              lambda: "str starts with %r for sizes (%d,%d)" % (L[0], n, m))
    ctx.check(len(L) == n + 2, lambda: "str has %d lines, expected %d" % (len(L), n + 2))
    for k in range(n + 1):
        h = re.match(r"\s*n\s*=\s*(\d+)\s*::\s*\[(.*)\]\s*$", L[k + 1])
        ctx.check(h and int(h.group(1)) == k, lambda: "str line %d is %r" % (k + 1, L[k + 1]))
        got = [number(t) for t in split_list(h.group(2))]
        want = [vals[k, j] for j in range(-min(k, m), min(k, m) + 1)]
        ctx.check(got == want, lambda: "str shows %r for n=%d, expected %r" % (got, k, want))
    ctx.op()


def check_repr(ctx, vals, n, m, text):
    h = re.match(r"ScalarCoefs\(\(nmax = (\d+), mmax = (\d+)\)(.*)$", text, re.S)
    ctx.check(h and (int(h.group(1)), int(h.group(2))) == (n, m), lambda: "repr starts with %r" % text[:60])
    rows = re.findall(r"\[([^\[\]]*)\]", h.group(3))
    want = [[vals[k, j] for j in range(-min(k, m), min(k, m) + 1)] for k in range(n + 1)]
    got = [[number(t) for t in split_list(r)] for r in rows]
    ctx.check(got == want, lambda: "repr shows %r, expected %r" % (got, want))
    ctx.op()


def printed(ctx, c, vals, n, m):
    sp = lib.sp
    before = lib.bytes_of(c)
    if n >= 2:
        check_pretty(ctx, vals, n, m, text_of(sp.pretty_coefs, c))
    check_str(ctx, vals, n, m, str(c))
    check_str(ctx, vals, n, m, text_of(print, c))
    check_repr(ctx, vals, n, m, repr(c))
    ctx.check(lib.bytes_of(c) == before, "printing changed the coefficients")


def run(ctx, u):
    sp = lib.sp
    if u[0] == "large":
        _, n, m = u
        how = ctx.choose("values", ["dense", "one", "long"])
        vals = {x: complex({"one": 1, "dense": ref.generic(i, 6), "long": (-1.25e-7 - 3.5e-9j) * ref.generic(i, 2)}[how])
                for i, x in enumerate(ref.modes(n, m))}
        printed(ctx, sp.ScalarCoefs(lib.vecof(vals, n, m), n, m), vals, n, m)
        return
    if u[0] == "print":
        _, n, m = u
        modes = ref.modes(n, m)
        pos = ctx.choose("mode", modes)
        v = ctx.choose("value", VALUES)
        how = ctx.choose("others", ["zero", "ones", "dense"])
        vals = {x: complex({"zero": 0, "ones": 1, "dense": ref.generic(i, 6)}[how]) for i, x in enumerate(modes)}
        vals[pos] = complex(v)
        c = sp.ScalarCoefs(lib.vecof(vals, n, m), n, m)
        printed(ctx, c, vals, n, m)
        if v == VALUES[3] and how == "dense":
            r = {k: complex(abs(x)) for k, x in vals.items()}
            c = sp.mag(c)
            got = {k: complex(x) for k, x in lib.read(c).items()}
            ctx.check(all(abs(got[k] - r[k]) < 1e-12 * abs(r[k]) for k in r), "mag")
            printed(ctx, c, got, n, m)
            r = sp.zeros_coefs(max(n, 1), min(m, max(n, 1)), coef_type=sp.vector)
            ctx.check(re.findall(r"=\s*(\d+)", repr(r)) == [str(r.nmax), str(r.mmax)], lambda: "repr of vector coefficients is %r" % repr(r))
        return
    _, k, first, depth = u
    n, m = SHAPES[k]
    modes = ref.modes(n, m)
    vals = {x: complex(ref.generic(i, 2)) for i, x in enumerate(modes)}
    c = sp.ScalarCoefs(lib.vecof(vals, n, m), n, m)
    others = []
    for d in range(depth):
        if d == 0:
            s = STEPS[first]
            ctx.note("step", s)
        else:
            s = ctx.choose("step", STEPS)
        v = complex(ref.generic(60 + d, 1))
        if s == "print":
            printed(ctx, c, vals, n, m)
        elif s == "set 2 last":
            c[2, min(m, 2)] = vals[2, min(m, 2)] = v
        elif s == "set 1 first":
            c[1, -min(m, 1)] = vals[1, -min(m, 1)] = v
        elif s == "set row":
            w = [v * (j + 1) for j in range(2 * min(2, m) + 1)]
            c[2, :] = np.array(w)
            for j, x in zip(range(-min(2, m), min(2, m) + 1), w):
                vals[2, j] = x
        elif s == "copy and change":
            others.append((c, dict(vals)))
            c = c.copy()
            c[0, 0] = vals[0, 0] = v
        else:
            c = c * 2
            vals = {x: y * 2 for x, y in vals.items()}
    printed(ctx, c, vals, n, m)
    for o, w in others:
        printed(ctx, o, w, n, m)
