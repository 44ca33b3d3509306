"""C23 interrupted calls: an exception raised before every line that a call executes, in a process of its own each time."""
import os, signal, sys
import numpy as np
from mc import lib, ref, boot, arith, ambient
from mc.props import c11
from mc.props.c21 import open_fds
ID = "C23"
LEVEL = "fault_enumeration"
RULE = ("one execution = one call interrupted (KeyboardInterrupt or MemoryError) before one line that it executes, in a process of "
        "its own in which it is the first call, followed by the same call, by other calls, by a second interruption and by the "
        "same call once more; or one interrupted change of a coefficient set, before or after everything was read from it")
BOUNDS = {"quick": "every line executed by 67 calls (transforms of both back ends with nmax <= 4, arithmetic, measures, factories, saving and loading): KeyboardInterrupt in a fresh process, then MemoryError at the same line; both exceptions at every line executed by 14 kinds of change on 2 shapes",
          "thorough": "as quick with larger shapes (nmax <= 6, python back ends too), both orders of the exceptions, and every pair of lines of 8 calls"}
ASSUMPTIONS = ["interruptions arrive between lines, not within the compiled code or numpy", "results are compared to 1e-12 of their largest value"]
HANG_S = 300
TABLE = {}
LINES = {}
CALLS = {}
P = {}
SNAP = {}
DIR = []
PROBES = ["spht", "vspht", "ispht", "vispht", "norms", "a + b"]


def inputs(big):
    Q = {}
    for t, (nr, nc), (n, m) in [("", (4, 4), (2, 1)), ("b", (5, 6), (3, 2))] + ([("c", (8, 10), (6, 4))] if big else []):
        Q["P" + t] = arith.make("spatt", (nr, nc), 1)[0]
        Q["T" + t] = arith.make("vpatt", (nr, nc), 2)[0]
        Q["C" + t] = arith.make("scoef", (n, m), 3)[0]
        Q["V" + t] = arith.make("vcoef", (n, m), 4)[0]
    Q["P2"], Q["T2"], Q["C2"], Q["V2"] = [arith.make(k, s, 7)[0] for k, s in (("spatt", (4, 4)), ("vpatt", (4, 4)), ("scoef", (2, 1)), ("vcoef", (2, 1)))]
    Q["C0"], Q["Cz"], Q["Vz"] = [arith.make(k, s, 5)[0] for k, s in (("scoef", (0, 0)), ("scoef", (3, 0)), ("vcoef", (1, 0)))]
    Q["P0"], Q["Pz"], Q["Tz"] = [arith.make(k, s, 5)[0] for k, s in (("spatt", (2, 2)), ("spatt", (5, 2)), ("vpatt", (3, 2)))]
    Q["C zero"], Q["V zero"] = [0 * arith.make(k, (2, 1), 5)[0] for k in ("scoef", "vcoef")]
    Q["P zero"], Q["T zero"] = [0 * arith.make(k, (4, 4), 5)[0] for k in ("spatt", "vpatt")]
    return Q


def limits(p):
    n = p.nrows - 2
    return n, min(n, p.ncols // 2 - 1)


def path(name):
    return os.path.join(DIR[0], "%s_%d" % (name, os.getpid()))


def calls(big):
    sp = lib.sp
    from spherepy import file as F, pysphi, csphi, sbessel
    import io, contextlib
    C = {}
    for t in ["", "b"] + (["c"] if big else []):
        for be, f in (("", lambda g: g), ("py ", c11.py))[:1 if t == "b" and not big else 2]:
            C[be + "spht" + t] = f(lambda sp, P, t=t: sp.spht(P["P" + t], *limits(P["P" + t])))
            C[be + "vspht" + t] = f(lambda sp, P, t=t: sp.vspht(P["T" + t], *limits(P["T" + t])))
            C[be + "ispht" + t] = f(lambda sp, P, t=t: sp.ispht(P["C" + t]))
            C[be + "vispht" + t] = f(lambda sp, P, t=t: sp.vispht(P["V" + t]))
        C["ispht grid" + t] = lambda sp, P, t=t: sp.ispht(P["C" + t], 9, 12)
        C["vispht grid" + t] = lambda sp, P, t=t: sp.vispht(P["V" + t], 9, 12)
        C["spht (1,1)" + t] = lambda sp, P, t=t: sp.spht(P["P" + t], 1, 1)
        C["vspht (1,1)" + t] = lambda sp, P, t=t: sp.vspht(P["T" + t], 1, 1)
    for t in ("0", "z", " zero"):
        for be, f in (("", lambda g: g), ("py ", c11.py)):
            C[be + "spht of" + t] = f(lambda sp, P, t=t: sp.spht(P["P" + t], *limits(P["P" + t])))
            C[be + "ispht of" + t] = f(lambda sp, P, t=t: sp.ispht(P["C" + t]))
        if t != "0":
            C["vspht of" + t] = lambda sp, P, t=t: sp.vspht(P["T" + t], *limits(P["T" + t]))
            C["vispht of" + t] = lambda sp, P, t=t: sp.vispht(P["V" + t])
            C["measures of" + t] = lambda sp, P, t=t: [sp.L2_patt(P["T" + t]), np.array(P["P" + t].single_val), np.array(P["T" + t].single_val), sp.LInf_coef(P["V" + t]), sp.mag(P["V" + t]), P["C" + t].angular_power_spectrum()]
            C["arithmetic of" + t] = lambda sp, P, t=t: [P["C" + t] + P["C" + t], P["V" + t] / 2, 3 - P["P" + t], P["T" + t] - P["T" + t], P["C" + t][0:1, :]]
    C["spht_slow"] = lambda sp, P: sp.spht_slow(P["P"], 2, 1)
    C["ispht_slow"] = lambda sp, P: sp.ispht_slow(P["C"], 4, 4)
    for op in "+-*/":
        for a, b in (("C", "C2"), ("V", "V2"), ("P", "P2"), ("T", "T2")):
            C["%s %s %s" % (a, op, b)] = lambda sp, P, a=a, b=b, op=op: arith.OPS[op](P[a], P[b])
    C["a + b"] = lambda sp, P: [P["C"] + P["C2"], 2 * P["V"], P["P"] - 1j, P["T"] * 0.5]
    for a in "CVPT":
        C["2 * " + a] = lambda sp, P, a=a: 2 * P[a]
        C["in place " + a] = lambda sp, P, a=a: inplace(P[a], P[a + "2"])
    for f in ("mag", "mag2"):
        for a in "CVPT":
            C["%s %s" % (f, a)] = lambda sp, P, f=f, a=a: getattr(sp, f)(P[a])
    C["norms"] = lambda sp, P: [sp.L2_coef(P["C"]), sp.LInf_coef(P["V"]), sp.L2_patt(P["P"]), sp.LInf_patt(P["T"]), P["C"].power(),
                                P["C"].angular_power_spectrum(), sp.compare_relative(P["C"], P["C2"])]
    C["symmetry"] = lambda sp, P: [P["P"].single_val, P["T"].is_symmetric]
    C["read"] = lambda sp, P: [P["C"][2, :], P["C"][:, -1], P["V"][1, :], P["C"][0:1, :], P["V"][0:2, :], P["V"].copy()]
    C["text"] = lambda sp, P: [str(P["C"]), repr(P["C"])]

    def pretty(sp, P):
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            sp.pretty_coefs(P["C"])
        return s.getvalue()
    C["pretty"] = pretty
    C["factories"] = lambda sp, P: [sp.zeros_coefs(2, 1), sp.ones_coefs(2, 1, coef_type=sp.vector), sp.zeros_patt_uniform(4, 4, patt_type=sp.vector), sp.ones_patt_uniform(4, 4)]
    C["patterns"] = lambda sp, P: [sp.ScalarPatternUniform(lib.consistent_scalar(lib.generic_array(4, 4))), sp.TransversePatternUniform(*[lib.consistent_vector(lib.generic_array(4, 4, k)) for k in (0, 1)])]
    C["harmonic"] = lambda sp, P: sp.sph_harmonic_tp(4, 5, 3, -2)
    C["series py"] = lambda sp, P: pysphi.ynunm(4, 2, 5)
    C["bessel"] = lambda sp, P: [sbessel.sbesselj(3.7, 4), sbessel.sbessely(3.7, 4), sbessel.sbesselh2(0.7, 3), sbessel.sbesselj_array([1.0, 2.0], 3)]

    def save(sp, P):
        F.save_coef(P["C"], path("c"))
        F.save_patt(P["P"], path("p"))
        out = []
        for n in "cp":
            with open(path(n)) as f:
                out.append(f.read())
        os.unlink(path("c"))
        os.unlink(path("p"))
        return out

    def load(sp, P):
        return [F.load_coef(os.path.join(DIR[0], "c")), F.load_patt(os.path.join(DIR[0], "p")), F.load_vpatt(os.path.join(DIR[0], "p"), os.path.join(DIR[0], "p"))]
    C["save"] = save
    C["load"] = load
    return C


def inplace(a, b):
    a += b
    a -= 2 * b
    return a


class At(object):
    """Raise exc before the k-th line executed in the package; k None: only count."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.where = k, exc, 0, None
        self.watch = os.path.join(os.path.realpath(boot.REPO), "spherepy") + os.sep

    def local(self, frame, event, arg):
        if event == "line":
            if self.n == self.k:
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name)
                self.n += 1
                raise self.exc("interrupted")
            self.n += 1
        return self.local

    def start(self, frame, event, arg):
        if os.path.realpath(frame.f_code.co_filename).startswith(self.watch):
            return self.local
        return None

    def run(self, f, *a):
        sys.settrace(self.start)
        try:
            return "value", f(*a)
        except BaseException as e:
            return "raised", type(e).__name__
        finally:
            sys.settrace(None)


def setup(tier):
    sp = lib.setup()
    big = tier == "thorough"
    P.update(inputs(big))
    boot.make_scratch()
    d = os.path.join(boot.scratch, "interrupt")
    os.makedirs(d, exist_ok=True)
    DIR[:] = [d]
    # the files to be loaded are written in a child: this process stays cold
    CALLS.update(calls(big))
    SNAP.update({k: lib.bytes_of(o) for k, o in P.items()})

    def files():
        from spherepy import file as F
        F.save_coef(P["C"], os.path.join(d, "c"))
        F.save_patt(P["P"], os.path.join(d, "p"))
        return True
    c11.in_child(files)
    for name, f in CALLS.items():
        def both():
            t = At(None, None)
            try:
                kind, r = t.run(f, sp, P)
                if kind == "raised":
                    return ("error", r), t.n
                return c11.flat(r), t.n
            except Exception as e:
                return ("error", repr(e)), t.n
        TABLE[name], LINES[name] = c11.in_child(both, lambda why: (("error", why), 1))
    for kind, shape in SETS:
        for name in changes(kind, shape):
            LINES[kind, shape, name] = c11.in_child(lambda: count_change(kind, shape, name), lambda why: 1)


CHUNK = 60


def units(tier):
    for name in CALLS:
        for exc in ("KeyboardInterrupt", "MemoryError")[:1 if tier == "quick" else 2]:
            for lo in range(0, LINES[name], CHUNK):
                yield ["call", name, exc, lo]
    for kind, shape in SETS:
        for name in changes(kind, shape):
            for warm in (False, True):
                yield ["change", kind, list(shape), name, warm]
    if tier == "thorough":
        for name in ("spht", "vspht", "ispht", "vispht", "a + b", "save", "load", "norms"):
            for lo in range(LINES[name]):
                yield ["pair", name, lo]


def cost(u):
    return CHUNK if u[0] == "call" else 20 if u[0] == "change" else LINES[u[1]]


def problem(name, got):
    """None, or what is wrong with the outcome of the call."""
    if TABLE[name][0:1] == ("error",):
        return "fails in a fresh process: %s" % (TABLE[name][1],)
    if not c11.agree(c11.flat(got), TABLE[name]):
        return "gives another result"
    for k, o in P.items():
        if lib.bytes_of(o) != SNAP[k]:
            return "changed the object %s" % k


def interrupted(name, k, exc):
    """Interrupt and look at what is left; None or a message."""
    t = At(k, exc)
    fds = open_fds()
    amb = ambient.snapshot(ambient.CHEAP)
    kind, r = t.run(CALLS[name], lib.sp, P)
    if kind == "value":
        bad = problem(name, r)
        if bad:
            return "%s, interrupted before %r, went on and %s" % (name, t.where, bad)
    del r
    left = [p for n, p in open_fds().items() if fds.get(n) != p and p.startswith(DIR[0])]
    if left:
        return "%s, interrupted before %r, leaves %r open" % (name, t.where, left)
    for key, o in P.items():
        if lib.bytes_of(o) != SNAP[key]:
            return "%s, interrupted before %r, changed the object %s" % (name, t.where, key)
    diff = ambient.changed(amb, ambient.snapshot(ambient.CHEAP))
    if diff:
        return "%s, interrupted before %r, leaves other %s" % (name, t.where, ", ".join(diff))
    return None


def again(name, after):
    try:
        bad = problem(name, CALLS[name](lib.sp, P))
    except Exception as e:
        bad = "raises %r" % e
    return bad and "%s after %s" % (name + " " + bad, after)


def one(name, ks, exc, exc2):
    signal.alarm(60)
    for k in ks:
        what = "%s was interrupted before line %d of its run" % (name, k)
        bad = interrupted(name, k, exc) or again(name, what)
        for p in PROBES:
            bad = bad or again(p, what)
        bad = bad or interrupted(name, k, exc2) or again(name, what + " for the second time")
        if bad:
            return bad
    signal.alarm(0)
    return None


# ------------------------------------------------------------------------------------ changes
SETS = [("scoef", (2, 1)), ("scoef", (3, 3)), ("vcoef", (2, 1)), ("vcoef", (3, 3))]


def changes(kind, shape):
    """{name: (f(object), {component: {mode: new value}}, repeatable)}"""
    n, m = shape
    v = lambda i: ref.generic(70 + i, 5)
    out = {}
    if kind == "scoef":
        comps = [(0, lambda o: o)]
        out["set"] = (lambda o: o.__setitem__((n, -m), v(0)), {0: {(n, -m): v(0)}}, True)
    else:
        comps = [(0, lambda o: o.scoef1), (1, lambda o: o.scoef2)]
        out["set pair"] = (lambda o: o.__setitem__((n, -m), (v(0), v(1))), {0: {(n, -m): v(0)}, 1: {(n, -m): v(1)}}, True)
    for k, c in comps:
        for nn in (1, n):
            ms = range(-min(nn, m), min(nn, m) + 1)
            x = [v(2 + i) for i, _ in enumerate(ms)]
            out["row %d of %d" % (nn, k)] = (lambda o, c=c, nn=nn, x=x: c(o).__setitem__((nn, slice(None)), x), {k: {(nn, mm): x[i] for i, mm in enumerate(ms)}}, True)
        for mm in (-m, 0):
            ns = range(max(abs(mm), 0), n + 1)
            x = [v(9 + i) for i, _ in enumerate(ns)]
            if kind == "vcoef" and mm == 0:
                x[0] = 0
            out["column %d of %d" % (mm, k)] = (lambda o, c=c, mm=mm, x=x: c(o).__setitem__((slice(None), mm), x), {k: {(nn, mm): x[i] for i, nn in enumerate(ns)}}, True)
        out["window %d" % k] = (lambda o, c=c: c(o).window(np.array([2.0 ** -i for i in range(n + 1)])), {k: "window"}, False)
    return out


def read_all(o, kind):
    parts = [o.scoef1, o.scoef2] if kind == "vcoef" else [o]
    for p in parts:
        for nn in range(p.nmax + 1):
            p[nn, :]
        for mm in range(-p.mmax, p.mmax + 1):
            p[:, mm]
        p.power(), p.angular_power_spectrum(), str(p)
    lib.sp.L2_coef(o)
    return (lib.sp.vispht if kind == "vcoef" else lib.sp.ispht)(o)


def count_change(kind, shape, name):
    o, M = arith.make(kind, shape, 2)
    t = At(None, None)
    t.run(changes(kind, shape)[name][0], o)
    return t.n


def consistent(o, kind, shape, old, new, what):
    """Every mode has its old or its new value, however it is read; measures and transforms are those of these values."""
    sp = lib.sp
    n, m = shape
    modes = ref.modes(n, m)
    parts = [o.scoef1, o.scoef2] if kind == "vcoef" else [o]
    now = []
    for k, p in enumerate(parts):
        vals = {x: complex(p[x]) for x in modes}
        for x in modes:
            if vals[x] not in (old[k][x], new[k][x]):
                return "%s: component %d has %r at %r, before %r, to be %r" % (what, k, vals[x], x, old[k][x], new[k][x])
        for nn in range(n + 1):
            a = min(nn, m)
            if not np.array_equal(p[nn, :], [vals[nn, j] for j in range(-a, a + 1)]):
                return "%s: row %d of component %d is %r" % (what, nn, k, p[nn, :])
        for mm in range(-m, m + 1):
            if not np.array_equal(p[:, mm], [vals[j, mm] for j in range(abs(mm), n + 1)]):
                return "%s: column %d of component %d is %r" % (what, mm, k, p[:, mm])
        w = sum(abs(x) ** 2 for x in vals.values())
        if not abs(p.power() - w) <= 1e-12 * w:
            return "%s: the power of component %d is %r, that of its modes %r" % (what, k, p.power(), w)
        now.append(vals)
    if kind == "vcoef":
        q = sp.vispht(o)
        want = ref.vsynth(now[0], now[1], n, m, n + 2, 2 * m + 2)
        got = (q.theta, q.phi)
    else:
        got, want = (sp.ispht(o).array,), (ref.synth(now[0], n, m, n + 2, 2 * m + 2),)
    for g, w in zip(got, want):
        if lib.maxerr(g, w.astype(np.complex128)) > 1e-11:
            return "%s: the synthesis is not that of the modes" % what
    return None


def change(kind, shape, name, k, exc, warm):
    signal.alarm(60)
    f, target, repeat = changes(kind, shape)[name]
    o, M = arith.make(kind, shape, 2)
    modes = ref.modes(*shape)
    old = [{x: complex(v) for x, v in zip(modes, c)} for c in M.comps]
    new = [dict(c) for c in old]
    for j, t in target.items():
        if t == "window":
            new[j] = {x: v * 2.0 ** -x[0] for x, v in old[j].items()}
        else:
            new[j].update({x: complex(v) for x, v in t.items()})
    if warm:
        read_all(o, kind)
    t = At(k, exc)
    t.run(f, o)
    what = "%s of %s%r interrupted before %r" % (name, kind, shape, t.where)
    bad = consistent(o, kind, shape, old, new, what)
    if not bad and repeat:
        f(o)
        bad = consistent(o, kind, shape, new, new, what + " and repeated")
    signal.alarm(0)
    return bad


def run(ctx, u):
    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
    if u[0] == "call":
        _, name, e, lo = u
        for k in range(lo, min(lo + CHUNK, LINES[name])):
            bad = c11.in_child(lambda: one(name, [k], exc[e], [x for n, x in exc.items() if n != e][0]), lambda why: "%s interrupted before line %d of its run: the process %s" % (name, k, why))
            ctx.op(3 + len(PROBES))
            ctx.state()
            ctx.count("faults_fired", 2)
            ctx.check(bad is None, bad)
    elif u[0] == "pair":
        _, name, i = u
        for j in range(LINES[name]):
            bad = c11.in_child(lambda: one(name, [i, j], KeyboardInterrupt, MemoryError), lambda why: "%s interrupted before lines %d and %d: the process %s" % (name, i, j, why))
            ctx.op(6)
            ctx.state()
            ctx.count("faults_fired", 4)
            ctx.check(bad is None, bad)
    else:
        _, kind, shape, name, warm = u
        shape = tuple(shape)
        for k in range(LINES[kind, shape, name]):
            for e in exc:
                bad = c11.in_child(lambda: change(kind, shape, name, k, exc[e], warm), lambda why: "%s interrupted before line %d: the process %s" % (name, k, why))
                ctx.op(4)
                ctx.state()
                ctx.count("faults_fired")
                ctx.check(bad is None, bad)
    ctx.observe(repr(u))
