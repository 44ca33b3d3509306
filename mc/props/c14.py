"""C14 files: every value position, every documented text form, and all short histories of saves and loads."""
import os
import numpy as np
from mc import lib, ref, boot, arith
ID = "C14"
LEVEL = "model_checking"
RULE = ("one execution = one save and load of one object (a special value at every position, every binary exponent), one file "
        "written by the check in a documented text form and loaded, one verification of a consistent or deviating set of "
        "files, or one sequence of saves, loads, changes over two paths compared with a model of the paths' content")
BOUNDS = {"quick": "positions: nmax<=4 / 5x6 patterns, 12 values, and 36 combinations of infinite parts, nan and signed zeros (nmax<=3, 3-4 rows); all 2098 binary exponents with 3 mantissas; text forms: nmax<=3, patterns to 4x6; histories: depth 4 over 4 objects and 2 paths; verification: every single deviation, nmax<=3; 6 large coefficient sets to nmax 1000 (33 000 lines at 181, 65 000 at 255) and 5 large patterns; 15 file names, relative and absolute",
          "thorough": "positions: nmax<=7 / 8x10 patterns; histories: depth 5; text forms nmax<=5; verification: nmax<=5; 9 large coefficient sets to nmax 5000 (263 000 lines at 512) and 7 large patterns; 15 file names, relative and absolute"}
ASSUMPTIONS = ["pole samples are finite and below half of the largest double; the sign of a zero is compared for coefficients and load_fdata only",
               "patterns have the double-sphere symmetry", "paths are strings"]
SPECIAL = [0.1, -1 / 3, np.pi * 1e-300, 5e-324, -2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308,
           -1e22, 123456789.123456789, 1 + 2 ** -52, 9007199254740993.0, 6.02214076e23]
DIR = []


def setup(tier):
    lib.setup()


def worker_init():
    d = os.path.join(boot.scratch, "files%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    DIR[:] = [d]


EXACT = [float("inf"), float("-inf"), float("nan"), -0.0, 0.0]


def bits(ctx, got, want, what):
    """the same values, signs of zeros included; nan is nan"""
    ctx.check(got.shape == want.shape, lambda: "%s: shape %r" % (what, got.shape))
    for part in ("real", "imag"):
        g, w = getattr(got, part), getattr(want, part)
        ok = np.where(np.isnan(w), np.isnan(g), (g == w) & (np.signbit(g) == np.signbit(w)))
        ctx.check(ok.all(), lambda: "%s: the %s part of number %d is %r, expected %r" % (what, part, np.argmin(ok.ravel()), g[~ok].ravel()[0], w[~ok].ravel()[0]))


def exact(ctx, u):
    """infinite values, nan and signed zeros in both parts of the number at every place"""
    from spherepy import file as F
    sp = lib.sp
    _, kind, n, m = u
    re, im = ctx.choose("real part", EXACT + [1.5]), ctx.choose("imaginary part", EXACT + [-2.5])
    if kind == "coef":
        vals = lib.vecof(ref.dense(n, m, 5), n, m)
        k = ctx.choose("position", range(-1, vals.size))
        vals[k if k >= 0 else slice(None)] = complex(re, im)
        how = ctx.choose("file", ["saved", "by hand", "vector, first", "vector, second"])
        if how == "saved":
            F.save_coef(sp.ScalarCoefs(vals.copy(), n, m), path("c"))
            bits(ctx, lib.cvec(F.load_coef(path("c"))), vals, "save_coef/load_coef")
        elif how == "by hand":
            write_coef(path("c"), n, m, [vals], "repr", ",", "\n")
            bits(ctx, lib.cvec(F.load_coef(path("c"))), vals, "load_coef")
        elif k != 0 and k >= 0:
            w = lib.vecof(ref.dense(n, m, 6), n, m)
            vals[0] = w[0] = 0
            pair = [vals, w] if "first" in how else [w, vals]
            write_coef(path("c"), n, m, pair, "repr", ",", "\n", 2.5)
            r = F.load_vcoef(path("c"))[0]
            for g, x, t in ((r.scoef1, pair[0], "first"), (r.scoef2, pair[1], "second")):
                bits(ctx, lib.cvec(g)[1:], x[1:], "load_vcoef, %s component" % t)
    else:
        a = lib.consistent_scalar(lib.generic_array(n, m, 5))
        r, c = ctx.choose("row", range(1, n - 1)), ctx.choose("column", range(m))
        a[r, c] = complex(re, im)
        how = ctx.choose("file", ["saved", "load_patt", "load_fdata", "load_vpatt"])
        if how == "load_fdata":
            write_patt(path("p"), a)
            bits(ctx, F.load_fdata(path("p")), a, "load_fdata")
        elif how == "load_vpatt":
            t = [lib.consistent_vector(a), lib.consistent_vector(lib.generic_array(n, m, 6))]
            t[0][r, c] = complex(re, im)
            for f, x in zip("pq", t):
                write_patt(path(f), x)
            p = F.load_vpatt(path("p"), path("q"))
            for g, x in ((p.theta, t[0]), (p.phi, t[1])):
                values(ctx, g, x, "load_vpatt")
        else:
            if how == "saved":
                F.save_patt(sp.ScalarPatternUniform(a.copy()), path("p"))
                bits(ctx, F.load_fdata(path("p"))[1:-1], np.array(sp.ScalarPatternUniform(a.copy()).array)[1:-1], "save_patt/load_fdata")
            else:
                write_patt(path("p"), a)
            values(ctx, F.load_patt(path("p")).array, a, how)
    ctx.op()
    ctx.observe(repr((re, im, how)))


def values(ctx, got, want, what):
    """as bits, without the signs of zeros (the two halves of the double sphere are added)"""
    for part in ("real", "imag"):
        g, w = np.array(getattr(got, part)), np.array(getattr(want, part))
        g[g == 0] = 0
        w[w == 0] = 0
        ok = np.where(np.isnan(w), np.isnan(g), g == w)
        ctx.check(g.shape == w.shape and ok.all(), lambda: "%s: the %s part of number %d is %r, expected %r" % (what, part, np.argmin(ok.ravel()), g[~ok].ravel()[0], w[~ok].ravel()[0]))


def path(name):
    return os.path.join(DIR[0], name)


def units(tier):
    q = tier == "quick"
    N, R, C = (4, 5, 6) if q else (7, 8, 10)
    for n in range(N + 1):
        for m in range(n + 1):
            yield ["coef", n, m]
            if n <= 3:
                yield ["exact", "coef", n, m]
    for r in range(2, R + 1):
        for c in range(2, C + 1, 2):
            yield ["patt", r, c]
            if 3 <= r <= 4 and c <= 4:
                yield ["exact", "patt", r, c]
    for e in range(-1074, 1024, 64):
        yield ["exponents", e, min(1024, e + 64)]
    for n in range(4 if q else 6):
        for m in range(n + 1):
            yield ["text coef", n, m]
            yield ["text vcoef", n, m]
            yield ["verify", n, m]
    for r in range(2, 5 if q else 7):
        for c in range(2, 7 if q else 11, 2):
            yield ["text patt", r, c]
    for n, m in LARGE if q else LARGE + LARGER:
        yield ["large coef", n, m]
    for r, c in ((40, 30), (19, 66), (130, 128), (2, 1000), (360, 2)) if q else ((40, 30), (19, 66), (130, 128), (2, 1000), (360, 2), (257, 514), (1001, 100)):
        yield ["large patt", r, c]
    for k in range(len(PATHS)):
        yield ["path", k]
    ops = range(len(OPS))
    for a in ops:
        for b in ops:
            yield ["history", a, b, 4 if q else 5]


def cost(u):
    return 10 ** 6 if u[0] == "history" else 10 ** 7 if "large" in u[0] else 1


LARGE = [(32, 32), (50, 3), (128, 128), (181, 181), (255, 255), (1000, 1)]
LARGER = [(300, 300), (512, 512), (5000, 2)]
PATHS = ["plain", "a.txt", "with space.csv", "\u00fcml\u00e4ut", "coefs.gz", "x.npz", "dir/inner", "./rel", "dir/../up", "a,b;c", "%d.txt", "~", "$HOME", "trailing.", ".hidden"]


def load_save_coef(ctx, c, vals, f, what):
    sp = lib.sp
    from spherepy import file as F
    before = lib.bytes_of(c)
    F.save_coef(c, f)
    ctx.check(lib.bytes_of(c) == before, "saving changed the object")
    d = F.load_coef(f)
    same_coef(ctx, d, vals, c.nmax, c.mmax, what)
    ctx.op(2)
    return d


def same_coef(ctx, d, vals, n, m, what):
    sp = lib.sp
    ctx.check(isinstance(d, sp.ScalarCoefs) and (d.nmax, d.mmax) == (n, m), lambda: "%s: loaded a %s of size %r, expected (%d,%d)" % (
        what, type(d).__name__, (getattr(d, "nmax", None), getattr(d, "mmax", None)), n, m))
    got = lib.cvec(d)
    ctx.check(np.array_equal(got, vals), lambda: "%s: %s" % (what, lib.where(got, vals)))


def same_patt(ctx, p, comps, what):
    sp = lib.sp
    two = len(comps) == 2
    cls = sp.TransversePatternUniform if two else sp.ScalarPatternUniform
    ctx.check(isinstance(p, cls) and tuple(p.shape) == comps[0].shape, lambda: "%s: loaded a %s of shape %r, expected %r" % (
        what, type(p).__name__, getattr(p, "shape", None), comps[0].shape))
    got = list(p.doublesphere) if two else [p.doublesphere]
    for g, w in zip(got, comps):
        w = ref.double(w, -1 if two else 1)
        ctx.check(np.array_equal(g, w), lambda: "%s: %s" % (what, lib.where(g, w)))


def read_lines(f):
    with open(f) as g:
        return g.read().splitlines()


# ------------------------------------------------------------------------------------ histories
OPS = [("save", o, p) for o in ("small coef", "big coef", "small patt", "big patt") for p in "AB"] + \
      [("load", "A", ""), ("load", "B", ""), ("change", "small coef", ""), ("change", "big coef", ""), ("copy", "A", "B")]


def freeze(x):
    """The clock stands still: every file carries the same time stamps."""
    os.utime(path(x), ns=(10 ** 18, 10 ** 18))


def history(ctx, u):
    from spherepy import file as F
    sp = lib.sp
    objs = {}
    for name, kind, shape in (("small coef", "scoef", (1, 1)), ("big coef", "scoef", (3, 2)), ("small patt", "spatt", (2, 2)), ("big patt", "spatt", (4, 4))):
        objs[name] = arith.make(kind, shape, shape[0])
    disk = {}
    depth = u[3]
    for x in "AB":
        if os.path.exists(path(x)):
            os.unlink(path(x))
    loaded = []

    def check(x, where):
        kind, comp = disk[x]
        d = (F.load_coef if kind == "coef" else F.load_patt)(path(x))
        ctx.op()
        if kind == "coef":
            same_coef(ctx, d, comp[1], comp[0][0], comp[0][1], where)
        else:
            same_patt(ctx, d, [comp[1]], where)
        return d, kind, comp

    for step in range(depth):
        if step < 2:
            op = OPS[u[1 + step]]
            ctx.note("op", op)
        else:
            op = ctx.choose("op", OPS)
        what, a, b = op
        if what == "save":
            o, M = objs[a]
            before = lib.bytes_of(o)
            (F.save_coef if "coef" in a else F.save_patt)(o, path(b))
            ctx.op()
            ctx.check(lib.bytes_of(o) == before, "saving changed the object")
            freeze(b)
            disk[b] = ("coef" if "coef" in a else "patt", (M.shape, M.comps[0].copy()))
        elif what == "load":
            if a in disk:
                d, kind, comp = check(a, "step %d: load %s" % (step, a))
                loaded.append((d, kind, comp))
                # the loaded object takes the place of the saved one
                name = ("small " if comp[0] in ((1, 1), (2, 2)) and kind in ("coef", "patt") and comp[1].size <= 4 else "big ") + kind
                objs[name] = (d, arith.Model(kind, comp[0], [comp[1].copy()]))
        elif what == "change":
            o, M = objs[a]
            n, m = M.shape
            # twice the value: its text is as long as before
            v = M.comps[0][ref.modes(n, m).index((n, -m))] * 2
            for l in loaded:
                if l[0] is o:
                    loaded.remove(l)
                    break
            o[n, -m] = v
            M.comps[0][ref.modes(n, m).index((n, -m))] = v
        else:
            if a in disk:
                with open(path(a), "rb") as f, open(path(b), "wb") as g:
                    g.write(f.read())
                freeze(b)
                disk[b] = disk[a]
    for x in disk:
        check(x, "at the end: load %s" % x)
    for d, kind, comp in loaded:
        (same_coef(ctx, d, comp[1], comp[0][0], comp[0][1], "object loaded earlier") if kind == "coef" else
         same_patt(ctx, d, [comp[1]], "object loaded earlier"))
    ctx.observe(*[repr(sorted((k, v[0]) for k, v in disk.items()))] + [disk[k][1][1] for k in sorted(disk)])


# ------------------------------------------------------------------------------------ text forms
NUM = {"repr": lambda v: repr(float(v)), "exp": lambda v: "%.17e" % v, "plus": lambda v: "%+.17g" % v, "EXP": lambda v: "%.16E" % v}
ENDS = {"newline": "\n", "crlf": "\r\n"}


def write_coef(f, n, m, v, num, sep, end, extra=None, brk="break"):
    lines = [sep.join([str(n), str(m)] + ([] if extra is None else [NUM[num](extra)]))]
    for part in v:
        lines += [sep.join([NUM[num](x.real), NUM[num](x.imag)]) for x in part]
        lines.append(brk)
    lines.pop()
    with open(f, "w", newline="") as g:
        g.write(end.join(lines))
        if end == "\n":
            g.write(end)


def write_patt(f, a, num=None, sep=",", end="\n", order="rows"):
    num = num or "repr"
    nr, nc = a.shape
    idx = [(r, c) for r in range(nr) for c in range(nc)]
    if order == "columns":
        idx.sort(key=lambda i: (i[1], i[0]))
    elif order == "reversed":
        idx.reverse()
    with open(f, "w", newline="") as g:
        g.write(sep.join([str(nr), str(nc)]) + end)
        g.write(end.join(sep.join([str(r), str(c), NUM[num](a[r, c].real), NUM[num](a[r, c].imag)]) for r, c in idx))
        if end == "\n":
            g.write(end)


def run(ctx, u):
    from spherepy import file as F
    sp = lib.sp
    kind = u[0]
    if kind == "history":
        return history(ctx, u)
    if kind == "exact":
        return exact(ctx, u)
    if kind == "coef":
        _, n, m = u
        k = ctx.choose("position", range(-1, ref.ncoef(n, m)))
        v = ctx.choose("value", SPECIAL)
        part = ctx.choose("part", ["real", "imaginary", "both"])
        rest = ctx.choose("others", ["dense", "zero"])
        vals = lib.vecof(ref.dense(n, m, 5), n, m) if rest == "dense" else np.zeros(ref.ncoef(n, m), dtype=np.complex128)
        x = v if part == "real" else complex(0, v) if part == "imaginary" else complex(v, -v)
        if k < 0:
            vals[:] = x
        else:
            vals[k] = x
        c = sp.ScalarCoefs(vals.copy(), n, m)
        load_save_coef(ctx, c, vals, path("c"), "save_coef/load_coef")
        if part == "both" and v == SPECIAL[0]:
            # the documented text form
            L = read_lines(path("c"))
            ctx.check(L[0].replace(" ", "") == "%d,%d" % (n, m) and len(L) == 1 + vals.size, lambda: "file starts %r and has %d lines" % (L[0], len(L)))
            for i, x in enumerate(vals):
                a = [float(t) for t in L[i + 1].split(",")]
                ctx.check(len(a) == 2 and a[0] == x.real and a[1] == x.imag, lambda: "line %d of the file is %r for %r" % (i + 1, L[i + 1], x))
            r = sp.mag(c)
            load_save_coef(ctx, r, lib.cvec(r), path("c"), "save_coef/load_coef of magnitudes")
        ctx.observe(vals)
    elif kind == "patt":
        _, nr, nc = u
        r = ctx.choose("row", range(nr))
        c = ctx.choose("column", range(nc))
        v = ctx.choose("value", SPECIAL)
        if r in (0, nr - 1) and abs(v) > 8e307:
            v = v / 2
        part = ctx.choose("part", ["real", "imaginary", "both"])
        a = lib.consistent_scalar(lib.generic_array(nr, nc, 5))
        x = v if part == "real" else complex(0, v) if part == "imaginary" else complex(v, -v)
        a[r, c] = x
        if r in (0, nr - 1):
            a[r, (c + nc // 2) % nc] = x
        p = sp.ScalarPatternUniform(a.copy())
        before = lib.bytes_of(p)
        F.save_patt(p, path("p"))
        ctx.check(lib.bytes_of(p) == before, "saving changed the object")
        d = F.load_patt(path("p"))
        ctx.op(2)
        same_patt(ctx, d, [a], "save_patt/load_patt")
        if part == "both" and v == SPECIAL[0]:
            L = read_lines(path("p"))
            ctx.check(L[0].replace(" ", "") == "%d,%d" % (nr, nc) and len(L) == 1 + a.size, lambda: "file starts %r and has %d lines" % (L[0], len(L)))
            seen = {}
            for t in L[1:]:
                t = t.split(",")
                ctx.check(len(t) == 4, lambda: "line %r" % (t,))
                seen[int(t[0]), int(t[1])] = (float(t[2]), float(t[3]))
            ctx.check(seen == {(i, j): (a[i, j].real, a[i, j].imag) for i in range(nr) for j in range(nc)}, "the file does not hold the samples")
            ctx.check(np.array_equal(F.load_fdata(path("p")), a), "load_fdata of a saved pattern")
        ctx.observe(a)
    elif kind == "large coef":
        _, n, m = u
        vals = np.array([ref.generic(i, 3) for i in range(ref.ncoef(n, m))], dtype=np.complex128)
        vals *= np.array([1, -1e-17, 1e200, 3, 1 / 3])[np.arange(vals.size) % 5]
        what = ctx.choose("file", ["saved", "written by hand", "vector"])
        if what == "saved":
            load_save_coef(ctx, sp.ScalarCoefs(vals.copy(), n, m), vals, path("c"), "save_coef/load_coef")
        elif what == "written by hand":
            write_coef(path("c"), n, m, [vals], "repr", ",", "\n")
            same_coef(ctx, F.load_coef(path("c")), vals, n, m, "load_coef")
        else:
            w = vals[::-1].copy()
            w[0] = 0
            vals[0] = 0
            write_coef(path("c"), n, m, [vals, w], "repr", ",", "\n", 2.5)
            r = F.load_vcoef(path("c"))
            ctx.check(r[1] == 2.5 and (r[0].nmax, r[0].mmax) == (n, m), "load_vcoef: sizes or directivity")
            same_coef(ctx, r[0].scoef1, vals, n, m, "load_vcoef, first component")
            same_coef(ctx, r[0].scoef2, w, n, m, "load_vcoef, second component")
        ctx.op()
        ctx.observe(vals)
    elif kind == "large patt":
        _, nr, nc = u
        a = lib.generic_array(nr, nc, 5) * np.array([1, -1e-17, 1e200, 3, 1 / 3])[np.arange(nr) % 5][:, None]
        what = ctx.choose("file", ["saved", "load_patt", "load_fdata", "load_vpatt"])
        if what == "load_vpatt":
            b = [lib.consistent_vector(a), lib.consistent_vector(a[:, ::-1].copy())]
            for f, x in zip("pq", b):
                write_patt(path(f), x)
            same_patt(ctx, F.load_vpatt(path("p"), path("q")), b, what)
        elif what == "load_fdata":
            write_patt(path("p"), a)
            got = F.load_fdata(path("p"))
            ctx.check(np.array_equal(got, a), lambda: "load_fdata: " + lib.where(got, a))
        else:
            a = lib.consistent_scalar(a)
            if what == "saved":
                F.save_patt(sp.ScalarPatternUniform(a.copy()), path("p"))
            else:
                write_patt(path("p"), a)
            same_patt(ctx, F.load_patt(path("p")), [a], what)
        ctx.op(2)
        ctx.observe(a)
    elif kind == "path":
        # every way to name a file, relative to a working directory; nothing else may appear or change there
        here = os.path.join(DIR[0], "cwd")
        os.makedirs(os.path.join(here, "dir"), exist_ok=True)
        old = os.getcwd()
        name = PATHS[u[1]]
        rel = ctx.choose("path", ["relative", "absolute"])
        what = ctx.choose("object", ["coef", "patt"])
        before = ctx.choose("before", ["absent", "longer file"])
        f = os.path.join(here, name)
        try:
            os.chdir(here)
            for x in os.listdir(here):
                if x != "dir":
                    os.unlink(x)
            if before == "longer file":
                with open(f, "w") as g:
                    g.write("1,1\n" * 500)
            g = name if rel == "relative" else f
            if what == "coef":
                c, M = arith.make("scoef", (3, 2), 5)
                F.save_coef(c, g)
                same_coef(ctx, F.load_coef(g), M.comps[0], 3, 2, "path %r" % g)
                L = read_lines(f)
                ctx.check(L[0].replace(" ", "") == "3,2" and len(L) == 1 + M.comps[0].size, "the file with the name given does not hold the coefficients")
            else:
                p, M = arith.make("spatt", (4, 4), 5)
                F.save_patt(p, g)
                same_patt(ctx, F.load_patt(g), M.comps, "path %r" % g)
                L = read_lines(f)
                ctx.check(L[0].replace(" ", "") == "4,4" and len(L) == 17, "the file with the name given does not hold the pattern")
            there = sorted(os.path.relpath(os.path.join(a, x), here) for a, _, fs in os.walk(here) for x in fs)
            ctx.check(there == [os.path.normpath(name)], lambda: "saving to %r left the files %r" % (name, there))
            os.unlink(f)
        finally:
            os.chdir(old)
        ctx.op(2)
        ctx.observe(name, what)
    elif kind == "exponents":
        _, lo, hi = u
        vals = []
        for e in range(lo, hi):
            for man in (1.0, 1 + 2 ** -52, 2 - 2 ** -52, 4 / 3):
                v = np.ldexp(man, e)
                vals.append(v)
        vals = np.array(vals)
        n = 0
        while ref.ncoef(n, n) < vals.size:
            n += 1
        x = np.zeros(ref.ncoef(n, n), dtype=np.complex128)
        x.real[:vals.size] = vals
        x.imag[:vals.size] = -vals[::-1]
        x = x[np.argsort(np.arange(x.size) * 7919 % x.size, kind="stable")] if ctx.choose("order", [0, 1]) else x
        load_save_coef(ctx, sp.ScalarCoefs(x.copy(), n, n), x, path("c"), "exponents %d..%d" % (lo, hi))
        ctx.observe(x)
    elif kind in ("text coef", "text vcoef"):
        _, n, m = u
        num, sep, end = ctx.choose("numbers", sorted(NUM)), ctx.choose("separator", [",", ", ", " , "]), ctx.choose("lines", sorted(ENDS))
        v = [lib.vecof(ref.dense(n, m, 3 + 4 * k), n, m) for k in range(2)]
        if kind == "text coef":
            write_coef(path("c"), n, m, v[:1], num, sep, ENDS[end])
            same_coef(ctx, F.load_coef(path("c")), v[0], n, m, "load_coef")
        else:
            brk = ctx.choose("directivity", [3.5, 0.1, -1e3 / 3])
            word = ctx.choose("break", ["break", "break ", "  break", "\tbreak\t"])
            for x in v:
                x[0] = 0
            write_coef(path("c"), n, m, v, num, sep, ENDS[end], brk, word)
            r = F.load_vcoef(path("c"))
            ctx.check(len(r) == 2 and r[1] == brk, lambda: "load_vcoef: directivity %r, expected %r" % (r[1], brk))
            ctx.check(isinstance(r[0], sp.VectorCoefs) and (r[0].nmax, r[0].mmax) == (n, m), "load_vcoef: wrong size")
            same_coef(ctx, r[0].scoef1, v[0], n, m, "load_vcoef, first component")
            same_coef(ctx, r[0].scoef2, v[1], n, m, "load_vcoef, second component")
        ctx.op()
        ctx.observe(*v)
    elif kind == "text patt":
        _, nr, nc = u
        num, sep, end = ctx.choose("numbers", sorted(NUM)), ctx.choose("separator", [",", ", "]), ctx.choose("lines", sorted(ENDS))
        order = ctx.choose("order", ["rows", "columns", "reversed"])
        what = ctx.choose("loader", ["load_patt", "load_fdata", "load_vpatt"])
        a = [lib.generic_array(nr, nc, 2 + 4 * k) for k in range(2)]
        if what == "load_patt":
            a = [lib.consistent_scalar(a[0])]
        elif what == "load_vpatt":
            a = [lib.consistent_vector(x) for x in a]
        for f, x in zip("pq", a):
            write_patt(path(f), x, num, sep, ENDS[end], order)
        if what == "load_fdata":
            got = F.load_fdata(path("p"))
            ctx.check(np.array_equal(got, a[0]), lambda: "load_fdata: " + lib.where(got, a[0]))
        elif what == "load_patt":
            same_patt(ctx, F.load_patt(path("p")), a, "load_patt")
        else:
            same_patt(ctx, F.load_vpatt(path("p"), path("q")), a, "load_vpatt")
        ctx.op()
        ctx.observe(*a)
    else:
        verify(ctx, u)


def near(ctx, got, want, what, scale=1.0):
    ctx.check(abs(got - want) <= 1e-11 * scale + 1e-11 * abs(want), lambda: "%s is %r, expected %r" % (what, got, want))


def tuple4(ctx, got, l2, linf, L2, LINF, what):
    ctx.check(len(got) == 4, lambda: "%s returned %r" % (what, got))
    for g, w, t in zip(got, (l2, linf, l2 / L2, linf / LINF), ("L2 error", "maximum error", "relative L2 error", "relative maximum error")):
        near(ctx, g, w, "%s: %s" % (what, t))


def norms_coef(comps):
    return np.sqrt(sum(np.sum(np.abs(c) ** 2) for c in comps)), np.sqrt(sum(np.max(np.abs(c)) ** 2 for c in comps))


def verify(ctx, u):
    from spherepy import verify as W
    _, n, m = u
    which = ctx.choose("routine", ["spht", "ispht", "fdata", "vspht", "vispht"])
    dr, dc = ctx.choose("grid", [(2, 2), (3, 4)])
    nr, nc = n + dr, 2 * m + dc
    vec = which in ("vspht", "vispht")
    if vec and n == 0:
        ctx.observe(u)
        return
    d1, d2 = ref.dense(n, m, 3), ref.dense(n, m, 8)
    if vec:
        d1[0, 0] = d2[0, 0] = 0
        P = [np.array(x).astype(np.complex128) for x in ref.vsynth(d1, d2, n, m, nr, nc)]
        V = [lib.vecof(d1, n, m), lib.vecof(d2, n, m)]
        for x in P:
            for r in (0, nr - 1):
                x[r, nc // 2:] = -x[r, :nc // 2]
    else:
        P = [np.array(ref.synth(d1, n, m, nr, nc)).astype(np.complex128)]
        V = [lib.vecof(d1, n, m)]
    D = [ref.double(x, -1 if vec else 1) for x in P]
    delta = 0.375 - 0.25j
    side = {"spht": "coef", "vspht": "coef", "ispht": "patt", "vispht": "patt", "fdata": "fdata"}[which]
    comp = ctx.choose("component", range(len(P)))
    if side == "coef":
        pos = ctx.choose("deviation", [None] + [i for i in range(V[0].size) if not (vec and i == 0)])
        dev = [np.zeros_like(x) for x in V]
        if pos is not None:
            dev[comp][pos] = delta
        W_ = [x + y for x, y in zip(V, dev)]
        write_all(P, W_, n, m)
        got = W.verify_vspht(path("p0"), path("p1"), path("c0"), path("c1")) if vec else W.verify_spht(path("p0"), path("c0"))
        l2, linf = norms_coef(dev)
        L2, LINF = norms_coef(W_)
        tuple4(ctx, got, l2, linf, L2, LINF, "verify_" + which)
    elif side == "patt":
        pos = ctx.choose("deviation", [None] + [(r, c) for r in range(1, nr - 1) for c in range(nc)])
        dev = [np.zeros_like(x) for x in P]
        if pos is not None:
            dev[comp][pos] = delta
        Q = [x + y for x, y in zip(P, dev)]
        write_all(Q, V, n, m)
        got = W.verify_vispht(path("p0"), path("p1"), path("c0"), path("c1")) if vec else W.verify_ispht(path("p0"), path("c0"))
        s = -1 if vec else 1
        l2, linf = norms_coef([ref.double(x, s) for x in dev])
        L2, LINF = norms_coef([ref.double(x, s) for x in Q])
        tuple4(ctx, got, l2, linf, L2, LINF, "verify_" + which)
    else:
        F = np.fft.fft2(D[0]) / D[0].size
        pos = ctx.choose("deviation", [None] + [(r, c) for r in range(F.shape[0]) for c in range(F.shape[1])])
        if pos is not None:
            F[pos] += delta
        write_patt(path("f"), F)
        write_all(P, V, n, m)
        got = W.verify_fdata(path("f"), path("c0"))
        near(ctx, got, 0 if pos is None else abs(delta), "verify_fdata")
    ctx.op()
    ctx.observe(u, which, repr(pos), np.array(got))


def write_all(P, V, n, m):
    for k, x in enumerate(P):
        write_patt(path("p%d" % k), x)
    for k, x in enumerate(V):
        write_coef(path("c%d" % k), n, m, [x], "repr", ",", "\n")
