"""C11 calls are pure: all sequences of calls with every object retained, compared with the same call in a fresh process."""
import os, pickle
import numpy as np
from mc import lib, ref, boot, arith
from mc.engine import short
ID = "C11"
LEVEL = "model_checking"
RULE = ("one execution = one sequence of calls on shared objects, some results overwritten or fed into a further call in "
        "between; every result is compared with the same call made first in a process of its own, and after every call "
        "every input and every earlier result is compared with its snapshot and checked for shared memory")
BOUNDS = {"quick": "all pairs of 83 calls (sizes to nmax 9, many sizes to 28, and nmax 70), each followed by nothing / overwriting the result / a further transform of the result; all triples of 26 transform calls (refused ones included) with and without overwriting; all calls and 130 on five larger sizes with the inputs changed in 6 ways before the result is looked at for the first time in 9 ways",
          "thorough": "all triples of 83 calls; all quadruples of 26 transform calls (refused ones included); both with and without overwriting results"}
ASSUMPTIONS = ["results are compared to 1e-12 of their largest value"]

TABLE = {}


def inputs():
    """Fresh objects shared by the calls of one execution."""
    P = {}
    for nr, nc in ((4, 4), (6, 8), (6, 10), (5, 8), (7, 8), (12, 16)):
        P["P%d_%d" % (nr, nc)] = arith.make("spatt", (nr, nc), nr)[0]
        P["T%d_%d" % (nr, nc)] = arith.make("vpatt", (nr, nc), nr + 1)[0]
    for n, m in ((2, 2), (4, 2), (4, 4), (3, 2), (9, 7)):
        P["C%d_%d" % (n, m)] = arith.make("scoef", (n, m), n)[0]
        P["V%d_%d" % (n, m)] = arith.make("vcoef", (n, m), n + 1)[0]
    # real valued coefficients, as the magnitude functions return them
    P["R4_2"] = lib.sp.ScalarCoefs(np.abs(lib.cvec(P["C4_2"])), 4, 2)
    P["P6_8b"] = arith.make("spatt", (6, 8), 31)[0]
    P["T6_8b"] = arith.make("vpatt", (6, 8), 32)[0]
    P["C4_2b"] = arith.make("scoef", (4, 2), 33)[0]
    P["V4_2b"] = arith.make("vcoef", (4, 2), 34)[0]
    return P


def fresh_scoef(sp, alt):
    c = arith.make("scoef", (4, 2), 41)[0]
    if alt:
        c[3, -1] = 2.25 - 1j
    return c


def changed_between(kind):
    """the same object is transformed, changed and transformed again; 'direct' does only the last call."""
    def f(sp, P, direct=False):
        if kind == "coef":
            c = arith.make("scoef", (4, 2), 41)[0]
            if not direct:
                sp.ispht(c)
            c[3, -1] = 2.25 - 1j
            return sp.ispht(c)
        if kind == "vcoef":
            c = arith.make("vcoef", (4, 2), 42)[0]
            if not direct:
                sp.vispht(c)
            c[3, -1] = (2.25 - 1j, 0.5)
            c.scoef2[2, 0] = 3.0
            return sp.vispht(c)
        if kind == "patt":
            a, = arith.make("spatt", (6, 8), 43)[1].comps
            p = sp.ScalarPatternUniform(ref.double(a, 1), doublesphere=True)
            if not direct:
                sp.spht(p)
            d = p.doublesphere
            d *= 0.5
            d += 1j
            return sp.spht(p)
        if kind == "norm":
            c = arith.make("scoef", (4, 2), 44)[0]
            if not direct:
                sp.L2_coef(c), sp.LInf_coef(c), c.power(), c.angular_power_spectrum(), sp.mag2(c), str(c)
            c[:, 1] = [1.0, 2.0, 3.0, 4j]
            return [sp.L2_coef(c), sp.LInf_coef(c), c.power(), c.angular_power_spectrum(), sp.mag2(c), str(c)]
    return f


def temporaries(sp, P, direct=False):
    """short-lived objects of one shape: each must be transformed by its own values"""
    out = []
    for j in range(1 if direct else 3):
        k = 2 if direct else j
        out = [sp.ispht(arith.make("scoef", (4, 2), 50 + k)[0]).array.copy(), sp.spht(arith.make("spatt", (6, 8), 50 + k)[0])]
    return out


def sp_half(v, second):
    """Vector coefficients whose second component the compiled code refuses to read."""
    r = lib.sp.VectorCoefs(lib.cvec(v.scoef1), lib.cvec(v.scoef2), v.nmax, v.mmax)
    r.scoef2 = second
    return r


def refused(*fs):
    def g(sp, P):
        out = []
        for f in fs:
            try:
                f(sp, P)
                out.append("accepted")
            except Exception as e:
                out.append(type(e).__name__)
        return out
    return g


CROWDED = {}
CROWD = [(n, n % 3 if n > 2 else 0) for n in range(1, 29)]


def crowd(sp, k):
    """One transform of every kind in each of many sizes (more than a bounded cache would hold)."""
    out = []
    for n, m in CROWD[:k]:
        if (k, n) not in CROWDED:
            CROWDED[k, n] = arith.make("scoef", (n, m), n)[0], arith.make("vcoef", (n, m), n + 1)[0]
        c, v = CROWDED[k, n]
        p, t = sp.ispht(c), sp.vispht(v)
        out += [p, t, sp.spht(p, n, m), sp.vspht(t, n, m)]
    return out


def py(f):
    def g(sp, P):
        with boot.backend("py"):
            return f(sp, P)
    return g


def calls():
    from spherepy import csphi, pysphi, ops, sbessel
    C = {}
    core = []

    def add(name, f, is_core=False):
        C[name] = f
        if is_core:
            core.append(name)
    for p, k in (("P4_4", 1), ("P6_8", 1), ("P6_8b", 1), ("P6_10", 0), ("P5_8", 1), ("P7_8", 0), ("P12_16", 0)):
        add("spht " + p, lambda sp, P, p=p: sp.spht(P[p], min(P[p].nrows - 2, P[p].ncols // 2 - 1), min(P[p].nrows - 2, P[p].ncols // 2 - 1)), k)
        q = p.replace("P", "T")
        add("vspht " + q, lambda sp, P, p=q: sp.vspht(P[p], min(P[p].nrows - 2, P[p].ncols // 2 - 1), min(P[p].nrows - 2, P[p].ncols // 2 - 1)), k)
    add("spht P6_8 (2,1)", lambda sp, P: sp.spht(P["P6_8"], 2, 1), 1)
    add("spht P6_8 (4,2)", lambda sp, P: sp.spht(P["P6_8"], 4, 2))
    add("vspht T6_8 (2,1)", lambda sp, P: sp.vspht(P["T6_8"], 2, 1), 1)
    add("vspht T6_8 (4,2)", lambda sp, P: sp.vspht(P["T6_8"], 4, 2))
    for c, k in (("C2_2", 1), ("C4_2", 1), ("C4_2b", 1), ("C4_4", 0), ("C3_2", 0), ("C9_7", 0)):
        add("ispht " + c, lambda sp, P, c=c: sp.ispht(P[c]), k)
        v = c.replace("C", "V")
        add("vispht " + v, lambda sp, P, c=v: sp.vispht(P[c]), k)
    add("ispht C2_2 on 7x10", lambda sp, P: sp.ispht(P["C2_2"], 7, 10), 1)
    add("vispht V2_2 on 7x10", lambda sp, P: sp.vispht(P["V2_2"], 7, 10), 1)
    add("py spht P6_8", py(lambda sp, P: sp.spht(P["P6_8"], 3, 3)), 1)
    add("py vspht T6_8", py(lambda sp, P: sp.vspht(P["T6_8"], 3, 3)), 1)
    add("py ispht C4_2", py(lambda sp, P: sp.ispht(P["C4_2"])), 1)
    add("py vispht V4_2", py(lambda sp, P: sp.vispht(P["V4_2"])), 1)
    add("spht_slow P6_8", lambda sp, P: sp.spht_slow(P["P6_8"], 3, 3))
    add("ispht_slow C4_2", lambda sp, P: sp.ispht_slow(P["C4_2"], 6, 8))
    add("C4_2 + C4_2b", lambda sp, P: P["C4_2"] + P["C4_2b"])
    add("2 * C2_2", lambda sp, P: 2 * P["C2_2"])
    add("V4_2 - V4_2b", lambda sp, P: P["V4_2"] - P["V4_2b"])
    add("P6_8 * P6_8b", lambda sp, P: P["P6_8"] * P["P6_8b"])
    add("1j / P6_8", lambda sp, P: 1j / P["P6_8"])
    add("T6_8 + T6_8b", lambda sp, P: P["T6_8"] + P["T6_8b"])
    add("mag C4_2", lambda sp, P: sp.mag(P["C4_2"]))
    add("mag2 V4_2", lambda sp, P: sp.mag2(P["V4_2"]))
    add("mag T6_8", lambda sp, P: sp.mag(P["T6_8"]))
    add("abs P6_8", lambda sp, P: sp.abs(P["P6_8"]))
    add("truncate C4_2", lambda sp, P: P["C4_2"][0:2, :])
    add("truncate V4_4", lambda sp, P: P["V4_4"][0:4, :])
    add("copy V4_2", lambda sp, P: P["V4_2"].copy())
    for f in ("mag", "abs", "mag2"):
        add(f + " R4_2", lambda sp, P, f=f: getattr(sp, f)(P["R4_2"]))
    add("ispht R4_2", lambda sp, P: sp.ispht(P["R4_2"]))
    add("truncate C4_2 (all)", lambda sp, P: P["C4_2"][0:4, :])
    add("neutral C4_2", lambda sp, P: [P["C4_2"] + 0, 0 + P["C4_2"], P["C4_2"] * 1, P["C4_2"] / 1, P["C4_2"] - 0, 1.0 * P["R4_2"]])
    add("neutral V4_2", lambda sp, P: [P["V4_2"] + 0, P["V4_2"] * 1, 1 * P["V4_2"], P["V4_2"] - 0])
    add("neutral P6_8", lambda sp, P: [P["P6_8"] + 0, 0 + P["P6_8"], P["P6_8"] * 1, P["P6_8"] / 1, P["P6_8"] - 0])
    add("neutral T6_8", lambda sp, P: [P["T6_8"] * 1, 1 * P["T6_8"], P["T6_8"] / 1])
    add("norms", lambda sp, P: [sp.L2_coef(P["C4_2"]), sp.LInf_coef(P["V4_2"]), sp.L2_patt(P["P6_8"]), sp.LInf_patt(P["T6_8"]),
                                sp.compare_relative(P["C4_2"], P["C4_2b"]), P["C4_2"].power(), P["C4_2"].angular_power_spectrum()])
    add("str", lambda sp, P: [str(P["C4_2"]), P["P6_8"].single_val, P["T6_8"].is_symmetric])
    add("sph_harmonic_tp", lambda sp, P: sp.sph_harmonic_tp(6, 8, 3, -2))
    add("ynunm c", lambda sp, P: out_c(csphi, 5, 2))
    add("ynunm py", lambda sp, P: pysphi.ynunm(5, 2, 6))
    add("bessel", lambda sp, P: [sbessel.sbesselj(3.7, 5), sbessel.sbessely(3.7, 5), sbessel.sbesselh1(3.7, 5)])
    add("zeros", lambda sp, P: [sp.zeros_coefs(4, 2), sp.zeros_patt_uniform(6, 8)])
    add("ones", lambda sp, P: [sp.ones_coefs(4, 2, coef_type=sp.vector), sp.ones_patt_uniform(6, 8, patt_type=sp.vector)])
    for k in ("coef", "vcoef", "patt", "norm"):
        add("changed " + k, changed_between(k))
    add("temporaries", temporaries)
    add("many sizes", lambda sp, P: crowd(sp, 28))

    # shapes of another order of magnitude, with two sets of data
    big = {}

    def large(j, N, nr, nc):
        def f(sp, P):
            if j not in big:
                big[j] = [arith.make(k, s, 60 + j)[0] for k, s in (("scoef", (70, 70)), ("vcoef", (70, 70)), ("spatt", (72, 142)), ("vpatt", (72, 142)))]
            c, v, p, t = big[j]
            return [sp.ispht(c, nr, nc), sp.vispht(v, nr, nc), sp.spht(p, N, N), sp.vspht(t, N, N), c + c, p * 2]
        return f
    add("large 0", large(0, 20, 72, 142))
    add("large 1", large(1, 20, 72, 142))
    add("large 1 (other sizes)", large(1, 70, 75, 150))

    # calls that are refused: whatever they did before raising must not be seen by later calls
    bad2 = lambda P: sp_half(P["V4_2"], P["R4_2"])
    add("refused vispht", refused(lambda sp, P: sp.vispht(bad2(P)), lambda sp, P: sp.vispht(P["V4_2"], 6, 7), lambda sp, P: sp.vispht(P["V4_4"], 4, 8)), 1)
    add("refused ispht", refused(lambda sp, P: sp.ispht(P["C4_4"], 4, 8), lambda sp, P: sp.ispht(P["C4_2"], 6, 7), lambda sp, P: sp.ispht(P["C4_2"], 6, 2)), 1)
    add("refused spht", refused(lambda sp, P: sp.spht(P["P6_8"], 9, 2), lambda sp, P: sp.spht(P["P6_8"], 3, 5), lambda sp, P: sp.spht(sp.ScalarPatternUniform(np.array(P["P6_8"].array)[:, :1]), 2, 0)), 1)
    add("refused vspht", refused(lambda sp, P: sp.vspht(P["T6_8"], 9, 2), lambda sp, P: sp.vspht(P["T6_8"], 3, 5)), 1)
    add("refused arithmetic", refused(lambda sp, P: P["C4_2"] + P["C4_4"], lambda sp, P: P["V4_2"] - P["V2_2"], lambda sp, P: P["P6_8"] / P["P6_10"],
                                      lambda sp, P: P["T6_8"] + P["T6_10"], lambda sp, P: P["C4_2"] * "x", lambda sp, P: P["C4_2"] / P["C2_2"]))
    add("refused access", refused(lambda sp, P: P["C4_2"][5, 0], lambda sp, P: P["V4_2"][4, 3], lambda sp, P: P["C4_2"][0:9, :],
                                  lambda sp, P: sp.zeros_coefs(2, 3), lambda sp, P: sp.ones_patt_uniform(6, 7), lambda sp, P: sp.random_coefs(2, 3)))
    return C, core


def out_c(csphi, n, m):
    z = np.zeros(6, dtype=np.float64)
    csphi.ynunm(n, m, z)
    return z


def feed(sp, r):
    """A further call on a result (by its kind); None if there is none."""
    if isinstance(r, sp.ScalarCoefs):
        return sp.ispht(r, r.nmax + 3, 2 * r.mmax + 4)
    if isinstance(r, sp.VectorCoefs):
        return sp.vispht(r, r.nmax + 3, 2 * r.mmax + 4)
    n = min(r.nrows - 2, r.ncols // 2 - 1) if isinstance(r, (sp.ScalarPatternUniform, sp.TransversePatternUniform)) else 0
    if isinstance(r, sp.ScalarPatternUniform):
        return sp.spht(r, n, n)
    if isinstance(r, sp.TransversePatternUniform):
        return sp.vspht(r, n, n)
    return None


def flat(r):
    """Values of a result as a list of arrays and strings."""
    sp = lib.sp
    if isinstance(r, (list, tuple)):
        return [x for y in r for x in flat(y)]
    if isinstance(r, sp.ScalarCoefs):
        return [(r.nmax, r.mmax), lib.cvec(r)]
    if isinstance(r, sp.VectorCoefs):
        return [(r.nmax, r.mmax), lib.cvec(r.scoef1), lib.cvec(r.scoef2)]
    if isinstance(r, sp.ScalarPatternUniform):
        return [np.array(r.doublesphere)]
    if isinstance(r, sp.TransversePatternUniform):
        return [np.array(x) for x in r.doublesphere]
    if isinstance(r, (str, tuple)) or r is None:
        return [r]
    return [np.array(r)]


def parts(r):
    return [x for y in r for x in parts(y)] if isinstance(r, (list, tuple)) else [r]


def agree(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if np.array_equal(x, y):
                continue
            if x.shape != y.shape or lib.maxerr(x, y) > 1e-12 * (1e-300 + (np.max(np.abs(y)) if y.size else 0)):
                return False
        elif x != y:
            return False
    return True


def overwrite(r):
    """Spoil a result through its interface."""
    sp = lib.sp
    for o in parts(r):
        if isinstance(o, sp.ScalarCoefs):
            for m in range(-o.mmax, o.mmax + 1):
                o[:, m] = [77.0 + m] * (o.nmax - abs(m) + 1)
        elif isinstance(o, sp.VectorCoefs):
            overwrite([o.scoef1, o.scoef2])
        elif isinstance(o, (sp.ScalarPatternUniform, sp.TransversePatternUniform)):
            for d in lib.arrays_of(o):
                d[...] = 55.5
        elif isinstance(o, np.ndarray) and o.flags.writeable:
            o[...] = 44


def in_child(f, crashed=lambda why: ("error", why)):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, "wb") as g:
                g.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as g:
        data = g.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return crashed("ended by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "ended with status %d" % st)
    return pickle.loads(data)


POOL = []
NAMES = []
CORE = []
CALLS = {}


def setup(tier):
    sp = lib.setup()
    C, core = calls()
    CALLS.update(C)
    CORE.extend(core)
    NAMES.extend(C)

    def both(f):
        try:
            r = f(sp, inputs(), **({"direct": True} if f is temporaries or f.__qualname__.startswith("changed_between") else {}))
            a = flat(r)
            b = feed(sp, r)
        except Exception as e:
            return ("error", repr(e)), None
        return a, None if b is None else flat(b)
    LATE.update(late_calls())

    def alone(n, f):
        try:
            return flat(f(sp, LATE_IN(n)))
        except Exception as e:
            return ("error", repr(e))
    for n, f in LATE.items():
        LATE_TABLE[n] = in_child(lambda: alone(n, f))
    for n, f in C.items():
        TABLE[n] = in_child(lambda: both(f), lambda why: (("error", why), None))


# ---------------------------------------------------------------- results that are looked at late
BIGGER = [((12, 12), (14, 26)), ((20, 3), (24, 10)), ((33, 33), (35, 68)), ((64, 2), (70, 8)), ((3, 3), (40, 20))]


def late_inputs(j):
    Q = {}
    for i, (c, p) in enumerate(BIGGER):
        if i != j:
            continue
        for k, s in (("scoef", c), ("vcoef", c), ("spatt", p), ("vpatt", p)):
            Q[k, i] = arith.make(k, s, 70 + i)[0]
    return Q


def late_calls():
    L = {}

    def add(n, f):
        L[n] = f
    for i, ((n, m), (nr, nc)) in enumerate(BIGGER):
        for b in ("c", "py") if i < 2 else ("c",):
            w = py if b == "py" else (lambda f: f)
            add("%s ispht %d" % (b, i), w(lambda sp, Q, i=i: sp.ispht(Q["scoef", i])))
            add("%s ispht %d on grid" % (b, i), w(lambda sp, Q, i=i, g=(nr, nc): sp.ispht(Q["scoef", i], *g)))
            add("%s vispht %d" % (b, i), w(lambda sp, Q, i=i: sp.vispht(Q["vcoef", i])))
            add("%s vispht %d on grid" % (b, i), w(lambda sp, Q, i=i, g=(nr, nc): sp.vispht(Q["vcoef", i], *g)))
            add("%s spht %d" % (b, i), w(lambda sp, Q, i=i, r=(n, m): sp.spht(Q["spatt", i], *r)))
            add("%s vspht %d" % (b, i), w(lambda sp, Q, i=i, r=(n, m): sp.vspht(Q["vpatt", i], *r)))
        for k in ("scoef", "vcoef", "spatt", "vpatt"):
            add("arithmetic %s %d" % (k, i), lambda sp, Q, k=k, i=i: [Q[k, i] + Q[k, i], Q[k, i] - Q[k, i] * 0.5, Q[k, i] * 1, Q[k, i] / 3, 2 * Q[k, i]])
            add("magnitudes %s %d" % (k, i), lambda sp, Q, k=k, i=i: [sp.mag(Q[k, i]), sp.mag2(Q[k, i])])
        add("truncation %d" % i, lambda sp, Q, i=i, n=n: [Q["scoef", i][0:n, :], Q["vcoef", i][0:n - 1, :], Q["scoef", i].copy(), Q["vcoef", i].copy()])
        add("rows %d" % i, lambda sp, Q, i=i, n=n: [Q["scoef", i][n, :].copy(), Q["scoef", i].angular_power_spectrum()])
    return L


LOOK = {"double sphere": lambda o: o.doublesphere, "array": lambda o: o.array, "coefficients": lambda o: o[o.nmax, 0], "spectrum": lambda o: o.angular_power_spectrum(),
        "text": str, "norm": lambda o: lib.sp.L2_patt(o) if hasattr(o, "nrows") else lib.sp.L2_coef(o), "copy": lambda o: o.copy() if hasattr(o, "copy") else o * 1,
        "use": lambda o: feed(lib.sp, o)}


def late(ctx, group, name):
    """the inputs are changed after the call and before its result is looked at for the first time"""
    sp = lib.sp
    P = inputs() if group == "table" else LATE_IN(name)
    f = CALLS[name] if group == "table" else LATE[name]
    want = TABLE[name][0] if group == "table" else LATE_TABLE[name]
    ctx.check(want[0:1] != ("error",), lambda: "%s fails: %s" % (name, want[1]))
    r = f(sp, P)
    first = ctx.choose("in between", ["coefficients changed by element", "coefficients changed by column", "windowed", "arrays overwritten", "deleted", "same call on changed inputs"])
    look = ctx.choose("looked at", ["at once"] + sorted(LOOK))
    for o in P.values():
        if first == "deleted":
            continue
        comps = [o] if isinstance(o, sp.ScalarCoefs) else [o.scoef1, o.scoef2] if isinstance(o, sp.VectorCoefs) else []
        for s in comps:
            if first.endswith("element"):
                for n, m in ((s.nmax, -s.mmax), (s.nmax, 0), (min(2, s.nmax), 0)):
                    s[n, m] = 31.5
            elif first.endswith("column"):
                s[:, s.mmax] = [17.25] * (s.nmax - s.mmax + 1)
            elif first == "windowed":
                s.window(np.arange(2.0, s.nmax + 3.0))
        if first in ("arrays overwritten", "same call on changed inputs"):
            overwrite(o)
        elif not comps:
            for d in lib.arrays_of(o):
                d *= 3
    if first == "deleted":
        P.clear()
    elif first.startswith("same"):
        try:
            f(sp, P)
        except Exception:
            pass
    if look != "at once":
        for o in parts(r):
            if look in ("use", "copy", "norm", "text") or hasattr(o, "nrows") == (look in ("double sphere", "array")):
                if hasattr(o, "nmax") or hasattr(o, "nrows"):
                    if look == "norm" and not isinstance(o, (sp.ScalarCoefs, sp.VectorCoefs, sp.ScalarPatternUniform, sp.TransversePatternUniform)):
                        continue
                    if look == "spectrum" and not isinstance(o, sp.ScalarCoefs):
                        continue
                    LOOK[look](o)
    ctx.op(2)
    ctx.check(agree(flat(r), want), lambda: "the result of %s, looked at after its inputs were changed, is another one" % name)
    ctx.observe("late", name, first, look)


LATE = {}
LATE_TABLE = {}


def LATE_IN(name):
    return late_inputs(int(name.replace(" on grid", "")[-1]))


def units(tier):
    n = len(NAMES)
    for k in NAMES:
        yield ["late", "table", k]
    for k in LATE:
        yield ["late", "bigger", k]
    for i in range(n):
        yield ["all", 2, i]
    for i in range(len(CORE)):
        for j in range(len(CORE)):
            yield ["core", 3, i, j]
    if tier == "thorough":
        for i in range(n):
            for j in range(n):
                yield ["all", 3, i, j]
        for i in range(len(CORE)):
            for j in range(len(CORE)):
                yield ["core", 4, i, j]


def cost(u):
    if u[0] == "late":
        return 30
    return {"all": len(NAMES) ** (u[1] - 1), "core": len(CORE) ** (u[1] - 2)}[u[0]]


def run(ctx, u):
    sp = lib.sp
    if u[0] == "late":
        return late(ctx, *u[1:])
    group, depth, fixed = u[0], u[1], u[2:]
    names = NAMES if group == "all" else CORE
    after = ["nothing", "overwrite", "feed"] if (group == "all" and depth == 2) else ["nothing", "overwrite"]
    if not POOL:
        P = inputs()
        POOL.append((P, {k: flat(o) for k, o in P.items()}, {k: lib.arrays_of(o) for k, o in P.items()}))
    # the inputs are only ever read: the same ones serve all executions of a process
    P, snap, mem = POOL[0]
    kept = []       # (name, result, snapshot)

    def overlap(xs, ys):
        return any(np.may_share_memory(x, y) and np.shares_memory(x, y) for x in xs for y in ys)

    def still(what, last=False):
        for k, o in P.items():
            if not last and k not in what:
                continue
            ctx.check(agree_exact(flat(o), snap[k]), lambda: "%s changed the input %s" % (what, k))
        for n, o, s, _ in kept:
            ctx.check(agree_exact(flat(o), s), lambda: "%s changed the earlier result of %s" % (what, n))

    for step in range(depth):
        if step < len(fixed):
            name = names[fixed[step]]
            ctx.note("call", name)
        else:
            name = ctx.choose("call", names)
        want, want2 = TABLE[name]
        ctx.check(want[0:1] != ("error",), lambda: "%s fails in a fresh process: %s" % (name, want[1]))
        r = CALLS[name](sp, P)
        ctx.op()
        got = flat(r)
        ctx.check(agree(got, want), lambda: "%s gives another result after %s" % (name, [k[0] for k in kept] or "nothing"))
        arrs = [x for y in parts(r) for x in lib.arrays_of(y)]
        for k in P:
            ctx.check(not overlap(arrs, mem[k]), lambda: "the result of %s shares memory with the input %s" % (name, k))
        for n, o, s, old in kept:
            ctx.check(not overlap(arrs, old), lambda: "the result of %s shares memory with the earlier result of %s" % (name, n))
        still(name, step == depth - 1)
        kept.append((name, r, got, arrs))
        if step == depth - 1:
            break
        act = ctx.choose("then", after)
        if act == "overwrite":
            kept.pop()
            overwrite(r)
            kept.append((name, r, flat(r), arrs))
            still("overwriting the result of " + name)
        elif act == "feed" and want2 is not None:
            f = feed(sp, r)
            ctx.op()
            got = flat(f)
            ctx.check(agree(got, want2), lambda: "a further transform of the result of %s gives another result" % name)
            still("a further transform of the result of " + name)
            arrs = lib.arrays_of(f)
            for n, o, s, old in kept:
                ctx.check(not overlap(arrs, old), lambda: "the further transform shares memory with the result of %s" % n)
            kept.append(("feed " + name, f, got, arrs))
    ctx.observe(repr([k[0] for k in kept]), *[x if isinstance(x, np.ndarray) else repr(x) for k in kept[-1:] for x in k[2]])


def agree_exact(a, b):
    return len(a) == len(b) and all((np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y) for x, y in zip(a, b))
