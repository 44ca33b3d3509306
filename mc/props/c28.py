"""C28 pipelines: every chain of operations of all parts of the library, compared step by step with the same chain on plain arrays."""
import copy, functools, os, pickle
import numpy as np
from mc import lib, ref, boot, arith
ID = "C28"
LEVEL = "model_checking"
RULE = ("one execution = one chain of operations, each applied to the object that the one before returned (transforms, arithmetic, "
        "magnitudes, assignments, windows, truncations, files, copies, pickles, changes of kind); after every step the object is "
        "compared with the same chain applied to plain arrays (sums of harmonics, quadrature), and the objects before it must be unchanged")
BOUNDS = {"quick": "all chains of 3 operations (4 for one shape of each kind) over 16 to 22 operations per kind from 4 kinds of object in 3 shapes and 2 back ends",
          "thorough": "all chains of 4 operations over 16 to 22 operations per kind from 4 kinds of object in 4 shapes and 2 back ends"}
ASSUMPTIONS = ["results are compared to 1e-12 of the size of the values that they were computed from", "sizes stay below nmax 12 and 14 rows (larger results end a chain)",
               "complex values are not assigned to the real valued coefficients that the magnitude functions return"]
START = {"scoef": [(2, 2), (3, 1), (0, 0), (4, 4)], "vcoef": [(2, 2), (3, 1), (1, 0), (4, 3)], "spatt": [(4, 6), (5, 4), (3, 2), (6, 10)], "vpatt": [(4, 6), (5, 4), (3, 4), (6, 8)]}
DIR = []


def setup(tier):
    lib.setup()


def worker_init():
    d = os.path.join(boot.scratch, "chain%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    DIR[:] = [d]


def units(tier):
    q = tier == "quick"
    for kind in START:
        for i, s in enumerate(START[kind][:3 if q else 4]):
            for be in ("c", "py"):
                for a in range(len(ops(kind, s))):
                    depth = 4 if not q or i == 0 and be == "c" else 3
                    yield [kind, list(s), be, depth, a]


def cost(u):
    return 18 ** (u[3] - 1)


# ------------------------------------------------------------------------------------------ model
@functools.lru_cache(maxsize=256)
def synth_matrix(n, m, nr, nc):
    return np.array([ref.synth({k: 1.0}, n, m, nr, nc).astype(np.complex128).ravel() for k in ref.modes(n, m)]).T.copy()


@functools.lru_cache(maxsize=256)
def vsynth_matrix(n, m, nr, nc):
    out = []
    for k in ref.modes(n, m):
        for w in (0, 1):
            t, p = ref.vsynth({k: 1.0} if not w else {}, {k: 1.0} if w else {}, n, m, nr, nc)
            out.append(np.concatenate([t.astype(np.complex128).ravel(), p.astype(np.complex128).ravel()]))
    return np.array(out).T.copy()


class M(object):
    """kind, shape and components as plain arrays; real: the object may hold real numbers only"""

    def __init__(self, kind, shape, comps, real=False):
        self.kind, self.shape, self.comps, self.real = kind, tuple(shape), [np.array(c, dtype=np.complex128) for c in comps], real
        if kind == "vcoef":
            for c in self.comps:
                c[0] = 0

    def map(self, f, real=False):
        return M(self.kind, self.shape, [f(c) for c in self.comps], real)


def gain(name, x):
    """how much an error in x may grow by the operation"""
    if name.startswith("synthesis"):
        return 3.0 * x.comps[0].size
    if name.startswith("analysis"):
        return 13.0
    if name == "* (1-2j)":
        return 2.3
    if name in ("* 2", "+ itself", "as both components", "* other"):
        return 2.0
    if name == "/ other":
        return 20.0
    if "mag2" in name:
        return 4 * max(np.max(np.abs(c)) for c in x.comps)
    return 1.0


def inverse(x, nr, nc):
    n, m = x.shape
    if x.kind == "scoef":
        return M("spatt", (nr, nc), [synth_matrix(n, m, nr, nc).dot(x.comps[0]).reshape(nr, nc)])
    v = np.array(x.comps).T.ravel()
    r = vsynth_matrix(n, m, nr, nc).dot(v).reshape(2, nr, nc)
    return M("vpatt", (nr, nc), [r[0], r[1]])


def forward(x, n, m):
    sym = 1 if x.kind == "spatt" else -1
    d = [ref.double(c, sym) for c in x.comps]
    a = [ref.analysis(d[0], n, m)] if sym == 1 else ref.vanalysis(d[0], d[1], n, m)
    return M("scoef" if sym == 1 else "vcoef", (n, m), [np.array([complex(k.get(nm, 0)) for nm in ref.modes(n, m)]) for k in a])


def index(x, nm):
    return ref.modes(*x.shape).index(nm)


def assigned(x, k, modes, values):
    c = [y.copy() for y in x.comps]
    for nm, v in zip(modes, values):
        c[k][index(x, nm)] = v
    return M(x.kind, x.shape, c, x.real)


# ------------------------------------------------------------------------------------- operations
def partner(kind, shape):
    """another object of the same shape (values away from zero)"""
    o, m = arith.make(kind, shape, 9)
    return o, m.comps


def ops(kind, shape, real=False):
    """{name: (f(object) -> object, g(model) -> model, in place)}"""
    sp = lib.sp
    from spherepy import file as F
    O = {}

    def add(name, f, g, inplace=False):
        O[name] = (f, g, inplace)
    same = lambda x: M(x.kind, x.shape, x.comps, x.real)
    add("* 2", lambda o: o * 2, lambda x: x.map(lambda c: c * 2, x.real))
    add("1j *", lambda o: 1j * o, lambda x: x.map(lambda c: 1j * c))
    add("* (1-2j)", lambda o: o * (1 - 2j), lambda x: x.map(lambda c: c * (1 - 2j)))
    add("+ other", lambda o: o + partner(kind, shape)[0], lambda x: M(kind, shape, [a + b for a, b in zip(x.comps, partner(kind, shape)[1])]))
    add("other -", lambda o: partner(kind, shape)[0] - o, lambda x: M(kind, shape, [b - a for a, b in zip(x.comps, partner(kind, shape)[1])]))
    add("+ itself", lambda o: o + o, lambda x: x.map(lambda c: c + c, x.real))
    add("pickle", lambda o: pickle.loads(pickle.dumps(o, 2)), same)
    add("deepcopy", copy.deepcopy, same)
    if kind in ("scoef", "spatt"):
        add("* other", lambda o: o * partner(kind, shape)[0], lambda x: M(kind, shape, [x.comps[0] * partner(kind, shape)[1][0]]))
        add("/ other", lambda o: o / partner(kind, shape)[0], lambda x: M(kind, shape, [x.comps[0] / partner(kind, shape)[1][0]]))
        add("+ 1j", lambda o: o + 1j, lambda x: x.map(lambda c: c + 1j))
        add("1 -", lambda o: 1 - o, lambda x: x.map(lambda c: 1 - c, x.real))
    if arith.iscoef(kind):
        n, m = shape
        two = kind == "vcoef"
        inv = sp.vispht if two else sp.ispht
        if n <= 8 and not (two and real):
            add("synthesis", lambda o: inv(o), lambda x: inverse(x, n + 2, 2 * m + 2))
            add("synthesis, larger", lambda o: inv(o, n + 4, 2 * m + 6), lambda x: inverse(x, n + 4, 2 * m + 6))
        add("copy", lambda o: o.copy(), same)
        # writes of real numbers, which every coefficient set can hold
        def put(f):
            def g(o):
                f(o)
                return o
            return g
        if two:
            if n:
                add("c[n,-m] =", put(lambda o: o.__setitem__((n, -m), (1.25, -0.5))), lambda x: assigned(assigned(x, 0, [(n, -m)], [1.25]), 1, [(n, -m)], [-0.5]), True)
                add("scoef2[n,m] =", put(lambda o: o.scoef2.__setitem__((n, m), 0.75)), lambda x: assigned(x, 1, [(n, m)], [0.75]), True)
            add("scoef1", lambda o: o.scoef1, lambda x: M("scoef", shape, x.comps[:1], x.real))
            add("scoef2", lambda o: o.scoef2, lambda x: M("scoef", shape, x.comps[1:], x.real))
        else:
            add("c[n,-m] =", put(lambda o: o.__setitem__((n, -m), 1.25)), lambda x: assigned(x, 0, [(n, -m)], [1.25]), True)
            row = [(n, k) for k in range(-min(n, m), min(n, m) + 1)]
            add("c[n,:] =", put(lambda o: o.__setitem__((n, slice(None)), np.arange(len(row)) - 0.5)), lambda x: assigned(x, 0, row, np.arange(len(row)) - 0.5), True)
            col = [(k, m) for k in range(m, n + 1)]
            add("c[:,m] =", put(lambda o: o.__setitem__((slice(None), m), np.arange(len(col)) + 0.25)), lambda x: assigned(x, 0, col, np.arange(len(col)) + 0.25), True)
            w = np.arange(n + 1) * 0.5 - 0.75
            add("window", put(lambda o: o.window(w)), lambda x: x.map(lambda c: c * np.array([w[k[0]] for k in ref.modes(n, m)]), x.real), True)
            add("as both components", lambda o: sp.VectorCoefs(lib.cvec(o) + 0j, lib.cvec(o) * 2 + 0j, n, m), lambda x: M("vcoef", shape, [x.comps[0], x.comps[0] * 2]))
            add("file", lambda o: files(F.save_coef, F.load_coef, o), lambda x: M(kind, shape, x.comps))
        if n:
            k = n - 1
            add("truncate", lambda o: o[0:k, :], lambda x: M(kind, (k, min(k, m)), [np.array([c[index(x, nm)] for nm in ref.modes(k, min(k, m))]) for c in x.comps], x.real))
        mag = lambda x: np.sqrt(sum(np.abs(c) ** 2 for c in x.comps))
        add("mag", lambda o: sp.mag(o), lambda x: M("scoef", shape, [mag(x)], True))
        add("mag2", lambda o: sp.mag2(o), lambda x: M("scoef", shape, [mag(x) ** 2], True))
    else:
        nr, nc = shape
        n = nr - 2
        m = min(n, nc // 2 - 1)
        two = kind == "vpatt"
        fwd = sp.vspht if two else sp.spht
        if n >= 0 and nr <= 12:
            add("analysis", lambda o: fwd(o, n, m), lambda x: forward(x, n, m))
            if n:
                add("analysis, less", lambda o: fwd(o, n - 1, min(n - 1, m, 1)), lambda x: forward(x, n - 1, min(n - 1, m, 1)))
        if two:
            add("rebuild", lambda o: sp.TransversePatternUniform(o.theta, o.phi), same)
            add("rebuild from array", lambda o: sp.TransversePatternUniform(*o.array), same)
            add("rebuild from double sphere", lambda o: sp.TransversePatternUniform(o.doublesphere[0], o.doublesphere[1], doublesphere=True), same)
            add("exchange components", lambda o: sp.TransversePatternUniform(o.phi, o.theta), lambda x: M(kind, shape, x.comps[::-1]))
            add("/ 4", lambda o: o / 4, lambda x: x.map(lambda c: c / 4))
        else:
            add("rebuild", lambda o: sp.ScalarPatternUniform(o.array), same)
            add("rebuild from double sphere", lambda o: sp.ScalarPatternUniform(o.doublesphere, doublesphere=True), same)
            add("file", lambda o: files(F.save_patt, F.load_patt, o), same)
            add("conjugate", lambda o: sp.ScalarPatternUniform(np.conj(o.array)), lambda x: x.map(np.conj))
        add("pattern of mag", lambda o: sp.ScalarPatternUniform(sp.mag(o)), lambda x: M("spatt", shape, [np.sqrt(sum(np.abs(c) ** 2 for c in x.comps))]))
        add("pattern of mag2", lambda o: sp.ScalarPatternUniform(sp.mag2(o)), lambda x: M("spatt", shape, [sum(np.abs(c) ** 2 for c in x.comps)]))
    return O


def files(save, load, o):
    f = os.path.join(DIR[0], "x")
    save(o, f)
    return load(f)


def values(o, kind):
    if kind == "scoef":
        return [lib.cvec(o)]
    if kind == "vcoef":
        return [lib.cvec(o.scoef1), lib.cvec(o.scoef2)]
    return [np.array(x) for x in (o.doublesphere if kind == "vpatt" else [o.doublesphere])]


def compare(ctx, o, x, what, tol, size):
    ctx.check(type(o) is arith.cls(x.kind), lambda: "%s: a %s instead of %s" % (what(), type(o).__name__, x.kind))
    if arith.iscoef(x.kind):
        parts = [o] + ([o.scoef1, o.scoef2] if x.kind == "vcoef" else [])
        ctx.check(all((p.nmax, p.mmax) == x.shape for p in parts), lambda: "%s: size (%d,%d), expected %r" % (what(), o.nmax, o.mmax, x.shape))
        want = x.comps
    else:
        ctx.check(tuple(o.shape) == x.shape and (o.nrows, o.ncols) == x.shape, lambda: "%s: shape %r, expected %r" % (what(), o.shape, x.shape))
        want = [ref.double(c, 1 if x.kind == "spatt" else -1) for c in x.comps]
    for k, (g, w) in enumerate(zip(values(o, x.kind), want)):
        ctx.check(g.shape == w.shape and lib.maxerr(g, w) <= tol * size, lambda: "%s: component %d %s" % (what(), k, lib.where(g, w)))


def run(ctx, u):
    kind, shape, be, depth, a = u[0], tuple(u[1]), u[2], u[3], u[4]
    o, m0 = arith.make(kind, shape, 1)
    x = M(kind, shape, m0.comps)
    past = []
    names = []
    size = max(np.max(np.abs(c)) for c in x.comps)
    with boot.backend(be):
        for step in range(depth):
            O = ops(x.kind, x.shape, x.real)
            if step == 0:
                name = list(O)[a]
                ctx.note("step", name)
            else:
                name = ctx.choose("step", list(O))
            f, g, inplace = O[name]
            names.append(name)
            if not inplace:
                past.append((o, x, size))
            y = g(x)
            if not all(np.all(np.isfinite(c)) for c in y.comps):
                break
            o = f(o)
            ctx.op()
            if inplace:
                # what was made from the object's storage follows it
                past = [(p, q, z) for p, q, z in past if not lib.share(p, o)]
            # results are compared relative to the size of the values that they were computed from
            size = max([size * gain(name, x)] + [np.max(np.abs(c)) for c in y.comps])
            x = y
            compare(ctx, o, x, lambda: "after %s (%s back end)" % (", ".join(names), be), 1e-12, size)
        for i, (p, q, z) in enumerate(past):
            compare(ctx, p, q, lambda: "after %s, the object before step %d" % (", ".join(names), i + 1), 1e-12, z)
    ctx.observe(*values(o, x.kind))
