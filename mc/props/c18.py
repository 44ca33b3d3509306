"""C18 plots: what matplotlib was asked to show, for every shape and position, and for all short sequences of plots."""
import itertools
import numpy as np
from mc import lib, ref
ID = "C18"
LEVEL = "model_checking"
RULE = ("one execution = one plot of one object (a value at one mode or sample on zeros or on dense data, or structured data), or one sequence of "
        "plots and changes of objects; the artists present when the plot is shown are compared with the data")
BOUNDS = {"quick": "coefficients nmax<=5 with every mode, patterns to 6x8 with every sample, structured data for nmax<=4 and patterns to 6x6, three large coefficient sets up to nmax 300 and four large patterns up to 101 x 102, simple_plot for n<=3 and 6 modes up to n=48, sequences of 3 plots; 5 ways in which matplotlib is missing",
          "thorough": "coefficients nmax<=9 with every mode, patterns to 9x12 with every sample, structured data for nmax<=4 and patterns to 9x6, five large coefficient sets up to nmax 520 and seven large patterns up to 201 x 200, simple_plot for n<=9 and 12 modes up to n=48, sequences of 4 plots; 5 ways in which matplotlib is missing"}
ASSUMPTIONS = ["the Agg back end; artists are inspected at the call of plt.show (after which figures are closed)",
               "the relative tolerance of positions and distances is 1e-12; the last point of the coefficient lines beyond nmax is not judged"]
SHOWN = []


def setup(tier):
    lib.setup()
    import matplotlib
    matplotlib.use("Agg")


def worker_init():
    import matplotlib.pyplot as plt
    from spherepy import plot_sphere  # noqa

    def show(*a, **k):
        take()
    plt.show = show


def take():
    import matplotlib.pyplot as plt
    for n in plt.get_fignums():
        SHOWN.append(extract(plt.figure(n)))
    plt.close("all")


def extract(fig):
    """the content of the first axes: surfaces, meshes, lines"""
    out = {"quads": [], "meshes": [], "lines": [], "axes": len(fig.axes)}
    if not fig.axes:
        return out
    ax = fig.axes[0]
    for c in ax.collections:
        if type(c).__name__ == "Poly3DCollection":
            out["quads"] += [np.array(f, dtype=float) for f in c._faces]
        elif type(c).__name__ == "QuadMesh":
            out["meshes"].append((np.array(c.get_coordinates(), dtype=float), np.ma.filled(np.ma.array(c.get_array(), dtype=float), np.nan), c.get_clim()))
    if not hasattr(ax, "get_zlim"):
        out["limits"] = (ax.get_xlim(), ax.get_ylim())
        for l in ax.lines:
            out["lines"].append(np.array(l.get_xydata(), dtype=float))
    return out


def units(tier):
    q = tier == "quick"
    N, R, C = (5, 6, 8) if q else (9, 9, 12)
    for n in range(N + 1):
        for m in range(n + 1):
            yield ["pcolor", n, m]
            yield ["lines", n, m]
            if n <= 4:
                yield ["coefs structured", n, m]
    for r in range(2, R + 1):
        for c in range(2, C + 1, 2):
            for kind in ("scalar", "vector", "array"):
                yield ["sphere", kind, r, c]
                if c <= 6:
                    yield ["sphere structured", kind, r, c]
    M = [(n, m) for n in range(4 if q else 10) for m in range(-n, n + 1)] + [(48, 0), (48, 48), (48, -48), (47, 31), (12, -5), (5, 5)] + \
        ([] if q else [(30, 0), (48, 1), (24, -24), (31, -16), (40, 39), (17, 2)])
    for n, m in M:
        yield ["simple", n, m]
    for n, m in ((60, 60), (130, 5), (300, 1)) + (() if q else ((101, 101), (520, 2))):
        yield ["pcolor large", n, m]
        yield ["lines large", n, m]
    for r, c in ((60, 4), (4, 120), (60, 124), (101, 102)) + (() if q else ((3, 520), (520, 2), (201, 200))):
        for kind in ("scalar", "vector", "array"):
            yield ["sphere large", kind, r, c]
    for blocked in BLOCKED:
        yield ["missing", blocked]
    for a in range(len(STEPS)):
        for b in range(len(STEPS)):
            yield ["sequence", a, b, 3 if q else 4]


def cost(u):
    if u[0] == "sphere large":
        return u[2] * u[3] * 40
    return {"sphere": 30, "sphere structured": 60, "simple": 20, "sequence": 200}.get(u[0], 1) * (u[2] * u[3] if u[0] == "sphere" else 20)


BLOCKED = [[], ["matplotlib"], ["mpl_toolkits"], ["matplotlib.pyplot"], ["mpl_toolkits.mplot3d"], ["matplotlib", "mpl_toolkits"]]
CHILD = '''
import sys, json
blocked = json.loads(sys.argv[2])
sys.path[:0] = json.loads(sys.argv[1])
class Block(object):
    def find_spec(self, name, path=None, target=None):
        if any(name == b or name.startswith(b + ".") for b in blocked):
            raise ImportError("no module named " + name)
sys.meta_path.insert(0, Block())
import numpy as np
out = {}
try:
    import spherepy as sp
    c = sp.zeros_coefs(3, 2); c[2, 1] = 1.0 - 2j
    p = sp.ispht(c, 6, 8)
    d = sp.spht(p, 3, 2)
    v = sp.vspht(sp.vispht(sp.ones_coefs(2, 1, coef_type=sp.vector)), 2, 1)
    out["transform"] = max(abs(d[n, m] - c[n, m]) for n in range(4) for m in range(-min(n, 2), min(n, 2) + 1)) + abs(v[2, 1][1] - 1)
    from spherepy import plot_sphere as P
    if not blocked:
        import matplotlib.pyplot as plt
        plt.show = lambda *a, **k: plt.close("all")
    for name, arg in (("simple_plot", (1, 0)), ("plot_mag_on_sphere", (np.ones((3, 4)),)), ("plot_sphere_mag", (p,)), ("pcolor_coefs", (c,)), ("plot_coefs", (c,))):
        try:
            getattr(P, name)(*arg)
            out[name] = "drawn"
        except BaseException as e:
            out[name] = type(e).__name__
except BaseException as e:
    out["error"] = repr(e)
print("RESULT" + json.dumps(out))
'''
STEPS = ["pcolor A", "pcolor B", "lines A", "lines B", "sphere S", "sphere V", "array", "change A", "change S"]


def shown(ctx, what):
    if not SHOWN:
        take()
    ctx.check(len(SHOWN) == 1, lambda: "%s showed %d figures" % (what, len(SHOWN)))
    r = SHOWN.pop()
    SHOWN.clear()
    ctx.op()
    return r


def check_pcolor(ctx, vals, n, m, art):
    ctx.check(len(art["meshes"]) == 1, lambda: "pcolor_coefs drew %d meshes" % len(art["meshes"]))
    xy, z, (lo, hi) = art["meshes"][0]
    z = z.reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    cells = {}
    for i in range(z.shape[0]):
        for j in range(z.shape[1]):
            q = np.array([xy[i, j], xy[i, j + 1], xy[i + 1, j + 1], xy[i + 1, j]])
            cx, cy = q.mean(axis=0)
            wx, wy = np.ptp(q[:, 0]), np.ptp(q[:, 1])
            key = (int(round(cy)), int(round(cx)))
            ctx.check(abs(cx - key[1]) < 1e-9 and abs(cy - key[0]) < 1e-9 and abs(wx - 1) < 1e-9 and abs(wy - 1) < 1e-9,
                      lambda: "pcolor_coefs: a cell is centred at m=%r, n=%r with size %r x %r" % (cx, cy, wx, wy))
            ctx.check(key not in cells, lambda: "pcolor_coefs: two cells at n=%d, m=%d" % key)
            cells[key] = z[i, j]
    want = {(a, b): 0.0 for a in range(n + 1) for b in range(-m, m + 1)}
    for k, v in zip(ref.modes(n, m), vals):
        want[k] = abs(v)
    ctx.check(set(cells) == set(want), lambda: "pcolor_coefs: cells missing or too many at %r" % (sorted(set(cells) ^ set(want))[:4],))
    for k in want:
        ctx.check(abs(cells[k] - want[k]) <= 1e-12 * want[k], lambda: "pcolor_coefs: cell n=%d m=%d shows %r, expected %r" % (k + (cells[k], want[k])))
    ctx.check(lo <= min(want.values()) and hi >= max(want.values()) * (1 - 1e-12), lambda: "pcolor_coefs: the colours cover %r..%r" % (lo, hi))
    (x0, x1), (y0, y1) = art["limits"]
    ctx.check(x0 <= -m and x1 >= m and y0 <= 0 and y1 >= n, lambda: "pcolor_coefs: visible range is %r" % (art["limits"],))
    ctx.observe(z)


def check_lines(ctx, vals, n, m, art):
    L = art["lines"]
    ctx.check(len(L) == 2 * m + 1, lambda: "plot_coefs drew %d lines, expected %d" % (len(L), 2 * m + 1))
    want = {k: abs(v) for k, v in zip(ref.modes(n, m), vals)}
    free = list(range(len(L)))

    def fits(xy, mm):
        got = {}
        for x, y in xy:
            if np.isfinite(y) and x <= n + 0.25:
                if x != round(x) or int(x) in got:
                    return "has a point at n=%r" % x
                got[int(x)] = y
        for k in range(n + 1):
            if k < abs(mm):
                if k in got:
                    return "has a point at n=%d, where the mode does not exist" % k
            elif k not in got:
                return "has no point at n=%d" % k
            elif not abs(got[k] - want[k, mm]) <= 1e-12 * want[k, mm]:
                return "shows %r at n=%d, expected %r" % (got[k], k, want[k, mm])

    for i, mm in enumerate(range(-m, m + 1)):
        first = fits(L[i], mm) if i in free else "is used"
        if first is None:
            free.remove(i)
            continue
        hit = [j for j in free if fits(L[j], mm) is None]
        ctx.check(hit, lambda: "plot_coefs: no line for m=%d (line %d %s)" % (mm, i, first))
        free.remove(hit[0])
    ctx.observe(*L)


def points(T):
    nr, nc = T.shape
    P = np.zeros((nr, nc + 1, 3))
    c, s = ref.cossin(nr)
    r = ref.roots(nc)
    for j in range(nc + 1):
        k = j % nc
        P[:, j, 0] = T[:, k] * s * r.real[k]
        P[:, j, 1] = T[:, k] * s * r.imag[k]
        P[:, j, 2] = T[:, k] * c
    return P


def same_centres(Q, want):
    """The two sets of faces have the same centres, in any order."""
    tol = 1e-7 * (np.max(np.abs(want)) or 1.0)
    free = {}
    for c in Q.mean(axis=1):
        free.setdefault(tuple(np.floor(c / tol).astype(int)), []).append(c)
    for c in want.mean(axis=1):
        k = np.floor(c / tol).astype(int)
        for near in itertools.product((0, -1, 1), repeat=3):
            cell = free.get((k[0] + near[0], k[1] + near[1], k[2] + near[2]), [])
            i = next((i for i, x in enumerate(cell) if np.max(np.abs(x - c)) <= tol / 2), None)
            if i is not None:
                cell.pop(i)
                break
        else:
            return False
    return True


def check_sphere(ctx, T, art, what):
    P = points(T)
    nr, nc = T.shape
    want = np.array([[P[i, j], P[i, j + 1], P[i + 1, j + 1], P[i + 1, j]] for i in range(nr - 1) for j in range(nc)])
    Q = art["quads"]
    ctx.check(len(Q) == len(want) and all(q.shape == (4, 3) for q in Q), lambda: "%s: the surface has %d faces, expected %d" % (what, len(Q), len(want)))
    Q = np.array(Q)
    tol = 1e-12 * (np.max(np.abs(T)) or 1.0)
    orders = [(0, 1, 2, 3), (1, 2, 3, 0), (2, 3, 0, 1), (3, 0, 1, 2), (0, 3, 2, 1), (3, 2, 1, 0), (2, 1, 0, 3), (1, 0, 3, 2)]

    def dist(a, w):
        return min(float(np.max(np.abs(a[list(o)] - w))) for o in orders)

    if np.max(np.abs(Q[:, [0, 3, 2, 1]] - want)) > tol and np.max(np.abs(Q - want)) > tol:
        if len(Q) > 1000:       # any order of the faces: compare the sets of their centres
            ctx.check(same_centres(Q, want), lambda: "%s: the surface is not that of the %d x %d samples" % (what, nr, nc))
            ctx.observe(Q)
            return
        free = list(range(len(Q)))
        for i, w in enumerate(want):
            d = [dist(Q[j], w) for j in free]
            k = int(np.argmin(d))
            if d[k] > tol:
                r, c = divmod(i, nc)
                ctx.check(False, "%s: no face of the surface joins the samples at rows %d,%d and columns %d,%d; expected corners %s" % (
                    what, r, r + 1, c, (c + 1) % nc, np.array2string(w, precision=6).replace("\n", "")))
            free.pop(k)
    ctx.observe(Q)


SCALES = [1.0, 2e4, 3e-7]


def draw(ctx, kind, comps, what):
    """Draws the magnitude of the components and compares the picture; nothing passed in changes."""
    sp = lib.sp
    from spherepy import plot_sphere as P
    T = np.sqrt(sum(np.abs(x) ** 2 for x in comps))
    if kind == "array":
        arg = T.copy()
        P.plot_mag_on_sphere(arg)
        ok = np.array_equal(arg, T)
    else:
        p = (sp.TransversePatternUniform if kind == "vector" else sp.ScalarPatternUniform)(*[x.copy() for x in comps])
        before = lib.bytes_of(p)
        P.plot_sphere_mag(p)
        ok = lib.bytes_of(p) == before
    check_sphere(ctx, T, shown(ctx, kind), what)
    ctx.check(ok, "%s changed what was plotted" % what)


def build_coefs(ctx, n, m):
    modes = ref.modes(n, m)
    k = ctx.choose("mode", range(len(modes)))
    v = ctx.choose("value", [1.0, -3j, 3 - 4j, 5e5j, 2e-9])
    how = ctx.choose("others", ["zero", "dense"])
    vals = np.array([ref.generic(i, 3) for i in range(len(modes))]) if how == "dense" else np.zeros(len(modes), dtype=np.complex128)
    vals[k] = v
    if abs(v) > 1e3 or abs(v) < 1e-3:
        vals *= abs(v)
        vals[k] = v
    return vals, lib.sp.ScalarCoefs(vals.copy(), n, m)


def run(ctx, u):
    sp = lib.sp
    from spherepy import plot_sphere as P
    SHOWN.clear()
    if u[0] in ("pcolor", "lines"):
        what, n, m = u
        vals, c = build_coefs(ctx, n, m)
        if what == "pcolor":
            P.pcolor_coefs(c)
            check_pcolor(ctx, vals, n, m, shown(ctx, what))
        else:
            P.plot_coefs(c)
            check_lines(ctx, vals, n, m, shown(ctx, what))
        ctx.check(np.array_equal(lib.cvec(c), vals), "plotting changed the coefficients")
    elif u[0] in ("pcolor large", "lines large"):
        _, n, m = u
        vals = np.array([ref.generic(i, 3) for i in range(ref.ncoef(n, m))])
        how = ctx.choose("values", ["dense", "one at the end", "only the highest"])
        if how != "dense":
            vals = vals * (0 if how == "only the highest" else 1)
            vals[-1] = 7.0
        c = sp.ScalarCoefs(vals.copy(), n, m)
        if u[0][0] == "p":
            P.pcolor_coefs(c)
            check_pcolor(ctx, vals, n, m, shown(ctx, "pcolor"))
        else:
            P.plot_coefs(c)
            check_lines(ctx, vals, n, m, shown(ctx, "lines"))
        ctx.check(np.array_equal(lib.cvec(c), vals), "plotting changed the coefficients")
    elif u[0] == "sphere large":
        _, kind, nr, nc = u
        how = ctx.choose("values", ["dense", "peak in the last column", "peak in the last row but one", "peak in the middle"])
        comps = [lib.generic_array(nr, nc, 2 + 3 * k) for k in range(2 if kind == "vector" else 1)]
        comps = [(lib.consistent_vector if kind == "vector" else lib.consistent_scalar)(x) for x in comps]
        if how != "dense":
            r, c = {"peak in the last column": (nr // 2, nc - 1), "peak in the last row but one": (nr - 2, nc // 3), "peak in the middle": (nr // 2, nc // 2)}[how]
            comps[-1][r, c] = 9.0
        s = ctx.choose("scale", SCALES if nr * nc < 1000 else SCALES[:2])
        draw(ctx, kind, [x * s for x in comps], "the plot of a large " + kind)
    elif u[0] == "coefs structured":
        _, n, m = u
        sets = lib.shaped_sets(n, m)
        vals = lib.vecof(sets[ctx.choose("set", list(sets))], n, m)
        c = sp.ScalarCoefs(vals.copy(), n, m)
        if ctx.choose("plot", ["pcolor", "lines"]) == "pcolor":
            P.pcolor_coefs(c)
            check_pcolor(ctx, vals, n, m, shown(ctx, "pcolor"))
        else:
            P.plot_coefs(c)
            check_lines(ctx, vals, n, m, shown(ctx, "lines"))
        ctx.check(np.array_equal(lib.cvec(c), vals), "plotting changed the coefficients")
    elif u[0] == "sphere structured":
        _, kind, nr, nc = u
        arrays = lib.shaped_arrays(nr, nc)
        a = arrays[ctx.choose("pattern", list(arrays))]()
        if kind == "array":
            comps = [a]
        elif kind == "scalar":
            comps = [lib.consistent_scalar(a)]
        else:
            a, b = lib.related(lib.consistent_vector(a), lib.consistent_vector(lib.generic_array(nr, nc, 6)),
                               ctx.choose("relation", ["second zero", "first zero", "times i", "generic"]))
            comps = [a, b]
        s = ctx.choose("scale", SCALES)
        draw(ctx, kind, [x * s for x in comps], "the plot of a structured " + kind)
    elif u[0] == "sphere":
        _, kind, nr, nc = u
        r, c = ctx.choose("row", range(nr)), ctx.choose("column", range(nc))
        how = ctx.choose("others", ["zero", "ones", "dense"])
        if kind == "array":
            T = np.array([[abs(ref.generic(i * nc + j, 2)) for j in range(nc)] for i in range(nr)]) if how == "dense" else np.full((nr, nc), float(how == "ones"))
            T[r, c] = 5.0
            arg = T.copy()
            P.plot_mag_on_sphere(arg)
            check_sphere(ctx, T, shown(ctx, "plot_mag_on_sphere"), "plot_mag_on_sphere")
            ctx.check(np.array_equal(arg, T), "plotting changed the samples")
        else:
            two = kind == "vector"
            comps = [lib.generic_array(nr, nc, 2 + 3 * k) if how == "dense" else np.full((nr, nc), complex(how == "ones")) for k in range(1 + two)]
            comps = [(lib.consistent_vector if two else lib.consistent_scalar)(x) for x in comps]
            for k, x in enumerate(comps):
                x[r, c] = 3 - 4j + k
                if r in (0, nr - 1):
                    x[r, (c + nc // 2) % nc] = x[r, c] * (-1 if two else 1)
            p = (sp.TransversePatternUniform if two else sp.ScalarPatternUniform)(*[x.copy() for x in comps])
            before = lib.bytes_of(p)
            P.plot_sphere_mag(p)
            check_sphere(ctx, np.sqrt(sum(np.abs(x) ** 2 for x in comps)), shown(ctx, "plot_sphere_mag"), "plot_sphere_mag")
            ctx.check(lib.bytes_of(p) == before, "plotting changed the pattern")
    elif u[0] == "missing":
        import json, subprocess, sys
        from mc import boot
        r = subprocess.run([sys.executable, "-c", CHILD, json.dumps(sys.path[:2]), json.dumps(u[1])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200, cwd=boot.scratch)
        res = [l[6:] for l in r.stdout.splitlines() if l.startswith("RESULT")]
        ctx.check(res, lambda: "without %r: %s" % (u[1], r.stdout[-300:]))
        got = json.loads(res[0])
        ctx.check("error" not in got, lambda: "without %r: %s" % (u[1], got["error"]))
        ctx.check(got.pop("transform") < 1e-12, "without %r the transforms are wrong" % (u[1],))
        want = "ImportError" if u[1] else "drawn"
        for k in sorted(got):
            ctx.check(got[k] == want, lambda: "without %r: %s gives %s, expected %s" % (u[1], k, got[k], want))
        ctx.op(8)
        ctx.observe(repr(u))
    elif u[0] == "simple":
        _, n, m = u
        P.simple_plot(n, m)
        T = np.abs(ref.synth({(n, m): 1.0}, 48, 48, 100, 100)).astype(float)
        art = shown(ctx, "simple_plot")
        Pt = points(T)
        Q = np.array(art["quads"])
        ctx.check(Q.shape == (99 * 100, 4, 3), lambda: "simple_plot: the surface has %d faces" % len(Q))
        want = np.array([[Pt[i, j], Pt[i, j + 1], Pt[i + 1, j + 1], Pt[i + 1, j]] for i in range(99) for j in range(100)])
        e = min(np.max(np.abs(Q[:, o] - want)) for o in ([0, 1, 2, 3], [0, 3, 2, 1]))
        if not e <= 1e-11:      # any order of the faces: compare the sets of their centres
            ctx.check(same_centres(Q, want), lambda: "simple_plot(%d,%d): the surface is not that of the harmonic" % (n, m))
        ctx.observe(Q)
    else:
        sequence(ctx, u)


def sequence(ctx, u):
    sp = lib.sp
    from spherepy import plot_sphere as P
    A = [np.array([ref.generic(i, 1) for i in range(ref.ncoef(2, 1))]), 2, 1]
    B = [np.array([ref.generic(i, 4) for i in range(ref.ncoef(3, 3))]), 3, 3]
    cA, cB = sp.ScalarCoefs(A[0].copy(), 2, 1), sp.ScalarCoefs(B[0].copy(), 3, 3)
    S = [lib.consistent_scalar(lib.generic_array(4, 4, 1))]
    V = [lib.consistent_vector(lib.generic_array(3, 6, 2 + k)) for k in range(2)]
    pS, pV = sp.ScalarPatternUniform(S[0].copy()), sp.TransversePatternUniform(*[v.copy() for v in V])
    T = np.abs(lib.generic_array(3, 4, 6))
    for d in range(u[3]):
        if d < 2:
            s = STEPS[u[1 + d]]
            ctx.note("step", s)
        else:
            s = ctx.choose("step", STEPS)
        if s[:6] in ("pcolor", "lines "):
            c, (v, n, m) = (cA, A) if s[-1] == "A" else (cB, B)
            if s[0] == "p":
                P.pcolor_coefs(c)
                check_pcolor(ctx, v, n, m, shown(ctx, s))
            else:
                P.plot_coefs(c)
                check_lines(ctx, v, n, m, shown(ctx, s))
        elif s[:6] == "sphere":
            p, comps = (pS, S) if s[-1] == "S" else (pV, V)
            P.plot_sphere_mag(p)
            check_sphere(ctx, np.sqrt(sum(np.abs(x) ** 2 for x in comps)), shown(ctx, s), s)
        elif s == "array":
            P.plot_mag_on_sphere(T)
            check_sphere(ctx, T, shown(ctx, s), s)
        elif s == "change A":
            cA[2, -1] = A[0][4] = 9 + d
        else:
            S[0] = S[0].copy()
            S[0][1, 1] = 6j + d
            pS = sp.ScalarPatternUniform(S[0].copy())
    ctx.check(np.array_equal(lib.cvec(cA), A[0]) and np.array_equal(lib.cvec(cB), B[0]), "plotting changed coefficients")
    ctx.check(lib.bytes_of(pS) == lib.bytes_of(sp.ScalarPatternUniform(S[0].copy())), "plotting changed a pattern")
