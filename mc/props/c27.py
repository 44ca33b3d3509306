"""C27 copies and pickles: every way of copying, of objects with every past, followed by every change of either object."""
import copy, os, pickle, subprocess, sys
import numpy as np
from mc import lib, ref, boot, arith
from mc.props import c11
ID = "C27"
LEVEL = "model_checking"
RULE = ("one execution = one object with one past, copied or pickled in one way, compared with the original through everything that can "
        "be read from or computed with it; then one of them is changed in one way and both are compared with a model again; or one "
        "sequence of copies and changes; or one set of pickles read by an interpreter of its own")
BOUNDS = {"quick": "coefficients nmax <= 4 and patterns to 5 x 8 (odd row counts included), 12 pasts, 8 ways of copying, every kind of change of either object; 4 large shapes; sequences of 4 copies and changes; pickles of all protocols read in a new interpreter, and in a forked one",
          "thorough": "coefficients nmax <= 7 and patterns to 8 x 10, 12 pasts, 8 ways of copying, every kind of change of either object; 4 large shapes; sequences of 5 copies and changes; pickles of all protocols read in a new interpreter, and in a forked one"}
ASSUMPTIONS = ["copy.copy may share arrays with the original (as the standard library documents); it is compared but not changed"]
KINDS = ("scoef", "vcoef", "spatt", "vpatt")
WAYS = ["copy", "deepcopy"] + ["pickle %d" % p for p in range(pickle.HIGHEST_PROTOCOL + 1)]


def setup(tier):
    lib.setup()


def units(tier):
    q = tier == "quick"
    N, R, C = (4, 5, 8) if q else (7, 8, 10)
    for kind in ("scoef", "vcoef"):
        for n in range(N + 1):
            for m in range(n + 1):
                yield ["one", kind, n, m]
    for kind in ("spatt", "vpatt"):
        for r in range(2, R + 1):
            for c in range(2, C + 1, 2):
                yield ["one", kind, r, c]
    for kind, s in zip(KINDS, ((40, 40), (40, 2), (34, 66), (35, 40))):
        yield ["one", kind, s[0], s[1]]
    for kind, s in zip(KINDS, ((2, 1), (2, 2), (4, 4), (4, 6))):
        for a in range(len(ACTS)):
            yield ["sequence", kind, s[0], s[1], a, 4 if q else 5]
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        for how in ("interpreter", "fork"):
            yield ["process", how, p]


def cost(u):
    return {"one": lambda: 50 + u[2] * u[3], "sequence": lambda: 1000, "process": lambda: 300}[u[0]]()


def dup(o, way):
    return copy.copy(o) if way == "copy" else copy.deepcopy(o) if way == "deepcopy" else pickle.loads(pickle.dumps(o, int(way.split()[1])))


# ------------------------------------------------------------------------------------ pasts of an object
def pasts(kind, shape):
    """{name: f() -> object}"""
    sp = lib.sp
    new = lambda j=1: arith.make(kind, shape, j)[0]
    P = {"new": new}

    def used():
        o = new()
        read(o)
        return o

    def changed():
        o = new()
        read(o)
        change(o, kind, 0)
        return o
    P["used"] = used
    P["used and changed"] = changed
    P["sum"] = lambda: new() + new(2)
    P["in place"] = lambda: iadd(new(), new(2))
    P["copied"] = lambda: copy.deepcopy(used())
    if arith.iscoef(kind):
        P["zeros"] = lambda: sp.zeros_coefs(shape[0], shape[1], coef_type=sp.vector if kind == "vcoef" else sp.scalar)
        P["own copy"] = lambda: new().copy()
        P["truncated"] = lambda: bigger(kind, shape)[0:shape[0], :]
        P["magnitude"] = lambda: sp.mag(new())
        P["magnitude of a sum"] = lambda: sp.mag2(new() + new(2))
        n, m = shape
        if n or kind == "scoef":
            P["analysed"] = lambda: sp.spht(sp.ispht(new()), n, m) if kind == "scoef" else sp.vspht(sp.vispht(new()), n, m)
    else:
        P["zeros"] = lambda: sp.zeros_patt_uniform(shape[0], shape[1], patt_type=sp.vector if kind == "vpatt" else sp.scalar)
        P["reversed array"] = lambda: flipped(kind, shape)
        if shape[0] >= 3:
            k = "scoef" if kind == "spatt" else "vcoef"
            P["synthesised"] = lambda: (sp.ispht if kind == "spatt" else sp.vispht)(arith.make(k, (shape[0] - 2, 0), 3)[0], shape[0], shape[1])
        P["given double sphere"] = lambda: given(kind, shape)
        P["quotient"] = lambda: new() / 4
    return P


def iadd(a, b):
    a += b
    return a


def bigger(kind, shape):
    return arith.make(kind, (shape[0] + 2, shape[1]), 1)[0]


def flipped(kind, shape):
    """built from arrays with negative strides"""
    c = [x[::-1, ::-1] for x in arith.generic_comps(kind, shape, 4)]
    return lib.sp.ScalarPatternUniform(c[0]) if kind == "spatt" else lib.sp.TransversePatternUniform(*c)


def given(kind, shape):
    c = [ref.double(x, -1 if kind == "vpatt" else 1) for x in arith.generic_comps(kind, shape, 5)]
    return lib.sp.ScalarPatternUniform(c[0], doublesphere=True) if kind == "spatt" else lib.sp.TransversePatternUniform(c[0], c[1], doublesphere=True)


# --------------------------------------------------------------------------------- what can be seen of an object
def read(o):
    """everything that can be read from an object or computed with it"""
    sp = lib.sp
    out = []

    def add(f):
        try:
            out.extend(c11.flat(f()))
        except Exception as e:
            out.append(type(e).__name__)
    out.append(type(o).__name__)
    if isinstance(o, (sp.ScalarCoefs, sp.VectorCoefs)):
        out += [o.nmax, o.mmax, repr(o.size) if isinstance(o, sp.ScalarCoefs) else ""]
        for f in (lambda: o[0:o.nmax, :], lambda: sp.L2_coef(o), lambda: sp.LInf_coef(o), lambda: sp.mag2(o), lambda: o * 2, lambda: o + o, lambda: o.copy()) + (() if o.nmax > 20 else (lambda: str(o), lambda: repr(o))):
            add(f)
        if isinstance(o, sp.ScalarCoefs):
            add(lambda: o.power())
            add(lambda: o.angular_power_spectrum())
            add(lambda: sp.ispht(o))
            add(lambda: o[o.nmax, o.mmax])
        else:
            add(lambda: [o.scoef1, o.scoef2])
            if np.iscomplexobj(lib.cvec(o.scoef1)):
                add(lambda: sp.vispht(o))
    else:
        n = o.nrows - 2
        m = min(n, o.ncols // 2 - 1)
        out += [repr(tuple(o.shape)), o.nrows, o.ncols]
        for f in (lambda: list(o.array) if isinstance(o, sp.TransversePatternUniform) else o.array, lambda: o.is_symmetric, lambda: sp.L2_patt(o), lambda: sp.LInf_patt(o), lambda: sp.mag(o), lambda: o * 2,
                  lambda: o + o, lambda: repr(type(o.doublesphere))):
            add(f)
        if n >= 0:
            add(lambda: sp.spht(o, n, m) if isinstance(o, sp.ScalarPatternUniform) else sp.vspht(o, n, m))
    return out + c11.flat(o)


def equal(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) else x == y for x, y in zip(a, b))


# ---------------------------------------------------------------------------------------------- changes
def change(o, kind, k):
    """the k-th way of changing an object; None when there is no such way"""
    sp = lib.sp
    if isinstance(o, sp.ScalarCoefs):
        n, m = o.nmax, o.mmax
        ways = [lambda: setitem(o, (n, -m), 7.5), lambda: setitem(o, (slice(None), 0), np.arange(n + 1) + 0.5), lambda: setitem(o, (n, slice(None)), np.arange(2 * m + 1) - 3.25),
                lambda: setitem(o, (0, 0), -2.0), lambda: o.window(np.arange(n + 1) * 2.0 + 3)]
    elif isinstance(o, sp.VectorCoefs):
        n, m = o.nmax, o.mmax
        ways = [lambda: setitem(o, (n, -m), (7.5, -1.5)), lambda: setitem(o.scoef1, (n, m), 3.5), lambda: setitem(o.scoef2, (n, m), 4.5), lambda: setitem(o.scoef2, (slice(None), 0), np.arange(n + 1) + 0.5),
                lambda: o.scoef1.window(np.arange(n + 1) * 2.0 + 3)]
        if n == 0:
            return None if k else (setitem(o.scoef1, (0, 0), 1.0) or True)
    else:
        ds = lambda: list(o.doublesphere) if isinstance(o, sp.TransversePatternUniform) else [o.doublesphere]
        ways = [lambda: ds()[0].__setitem__((1, 1), 9.5), lambda: ds()[-1].__setitem__((0, slice(None)), 8.5), lambda: ds()[-1].__imul__(3)]
    if k >= len(ways):
        return None
    ways[k]()
    return True


def setitem(o, key, v):
    o[key] = v


NCHANGES = 5
NSEQ = 3


def run(ctx, u):
    if u[0] == "sequence":
        return sequence(ctx, u)
    if u[0] == "process":
        return process(ctx, u)
    _, kind, a, b = u
    shape = (a, b)
    P = pasts(kind, shape)
    past = ctx.choose("past", list(P) if a + b < 40 else ["used and changed", "sum", "zeros"])
    way = ctx.choose("way", WAYS if a + b < 40 else ["deepcopy", "pickle 2"])
    o = P[past]()
    before = memo(u, past, -1, lambda: read(P[past]()))
    d = dup(o, way)
    after = read(o)
    ctx.check(equal(after, before), lambda: "%s changed the original (%s)" % (way, past))
    r = read(d)
    ctx.check(equal(r, before), lambda: "%s of an object (%s) reads or computes differently: %s" % (way, past, diff(before, r)))
    ctx.check(type(d) is type(o) and d is not o, lambda: "%s gives a %s" % (way, type(d).__name__))
    ctx.op(2)
    if way != "copy":
        ctx.check(not lib.share(o, d), lambda: "%s shares memory with the original (%s)" % (way, past))
        k = ctx.choose("change", range(NCHANGES))
        first = ctx.choose("changed object", ["copy", "original"])
        x, y = (d, o) if first == "copy" else (o, d)
        m = dup(x, "deepcopy")
        if change(x, kind, k) is None:
            return
        ctx.check(equal(read(y), before), lambda: "changing the %s also changed the other object (%s, %s)" % (first, way, past))
        change(m, kind, k)
        ctx.check(equal(read(x), read(m)), lambda: "the %s and a copy of it differ after the same change (%s, %s)" % (first, way, past))
        ctx.check(equal(read(m), memo(u, past, k, lambda: fresh_after(kind, P[past], k))), lambda: "a change after %s reads differently from the same change without (%s)" % (way, past))
        ctx.op(2)
    ctx.observe(*[x if isinstance(x, np.ndarray) else repr(x) for x in r])


MEMO = {}


def memo(u, past, k, f):
    """readings of an object that is never copied (the same for every way of copying)"""
    if MEMO.get("unit") != u:
        MEMO.clear()
        MEMO["unit"] = u
    if (past, k) not in MEMO:
        MEMO[past, k] = f()
    return MEMO[past, k]


def fresh_after(kind, make, k):
    o = make()
    change(o, kind, k)
    return read(o)


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if not equal([x], [y]):
            return "item %d is %s instead of %s" % (i, str(y)[:60], str(x)[:60])
    return "%d items instead of %d" % (len(b), len(a))


# ------------------------------------------------------------------------------------------- sequences
ACTS = ["change original", "change newest", "change first copy", "deepcopy original", "pickle original", "deepcopy newest", "pickle newest", "newest replaces original", "add newest"]


def sequence(ctx, u):
    """objects and, for each, the list of changes made to its values: objects with the same list must read the same"""
    kind, shape = u[1], (u[2], u[3])
    o = arith.make(kind, shape, 1)[0]
    objs = [(o, [])]
    for step in range(u[5]):
        if step == 0:
            act = ACTS[u[4]]
            ctx.note("act", act)
        else:
            act = ctx.choose("act", ACTS)
        if act.startswith("change"):
            i = 0 if "original" in act else -1 if "newest" in act else min(1, len(objs) - 1)
            x, past = objs[i]
            k = len(past) % NSEQ
            change(x, kind, k)
            objs[i] = (x, past + [k])
        elif act == "newest replaces original":
            objs[0], objs[-1] = objs[-1], objs[0]
        elif act == "add newest":
            x, past = objs[0]
            objs.append((x + objs[-1][0], [(past, objs[-1][1])]))
        else:
            x, past = objs[0 if "original" in act else -1]
            objs.append((dup(x, "deepcopy" if "deepcopy" in act else "pickle 2"), past))
        ctx.op()
    for i, (x, past) in enumerate(objs):
        got = c11.flat(x)
        want = c11.flat(replay(kind, shape, past))
        ctx.check(equal(got, want), lambda: "object %d differs from one with the same changes %r: %s" % (i, past, diff(want, got)))
        for j in range(i):
            ctx.check(x is objs[j][0] or not lib.share(x, objs[j][0]), lambda: "objects %d and %d share memory" % (i, j))
    ctx.observe(*[repr(p) for _, p in objs], *c11.flat(objs[-1][0])[-1:])


def replay(kind, shape, past):
    if past and isinstance(past[0], tuple):
        o = replay(kind, shape, past[0][0]) + replay(kind, shape, past[0][1])
        past = past[1:]
    else:
        o = arith.make(kind, shape, 1)[0]
    for k in past:
        change(o, kind, k)
    return o


# ------------------------------------------------------------------------------------------- processes
CHILD = '''
import sys, pickle
sys.dont_write_bytecode = True
sys.path[:0] = %r
with open(sys.argv[1], "rb") as f:
    objs = pickle.load(f)
from mc import lib
import spherepy as sp, numpy as np
np.seterr(all="ignore")
lib.sp = sp
from mc.props import c27
with open(sys.argv[2], "wb") as f:
    pickle.dump(([c27.read(o) for o in objs], objs), f, %d)
'''


def process(ctx, u):
    _, how, proto = u
    objs, want = [], []
    for kind, s in zip(KINDS, ((3, 2), (3, 3), (4, 6), (5, 8))):
        for name, f in pasts(kind, s).items():
            objs.append(f())
            want.append(read(objs[-1]))
    if how == "fork":
        got, back = c11.in_child(lambda: ([read(o) for o in objs], objs), lambda why: (None, why))
        ctx.check(got is not None, lambda: "the process failed: %s" % back)
    else:
        d = os.path.join(boot.scratch, "pickles%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "in"), "wb") as f:
            pickle.dump(objs, f, proto)
        ext = [p for p in sys.path if os.path.isdir(p) and any(x.startswith("_csphi") for x in os.listdir(p))]
        path = ext + [boot.REPO, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))]
        r = subprocess.run([boot.PY, "-c", CHILD % (path, proto), os.path.join(d, "in"), os.path.join(d, "out")], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        ctx.check(r.returncode == 0, lambda: "pickles (protocol %d) cannot be read in a new interpreter: %s" % (proto, r.stderr.decode(errors="replace")[-300:]))
        with open(os.path.join(d, "out"), "rb") as f:
            got, back = pickle.load(f)
    for w, g, b in zip(want, got, back):
        ctx.check(c11.agree(g, w), lambda: "an object pickled (protocol %d) reads differently in another process: %s" % (proto, diff(w, g)))
        ctx.check(c11.agree(read(b), w), lambda: "an object that came back from another process reads differently: %s" % diff(w, read(b)))
        ctx.op(2)
    ctx.observe(how, proto)
