"""C25 process-wide settings: every call under every setting (and pair of settings), and what every call leaves behind."""
import json, os, pickle, subprocess, sys
from contextlib import ExitStack
import numpy as np
from mc import lib, boot, ambient
from mc.props import c11, c18, c23
ID = "C25"
LEVEL = "model_checking"
RULE = ("one execution = one call under one combination of process-wide settings (made around the call, before the package is imported, "
        "or by the flags and environment of the interpreter), compared with the same call in a plain process of its own; "
        "all process-wide settings are read before and after every call and import and compared")
BOUNDS = {"quick": "about 150 calls (the calls of C11 and C23, refused ones included, and the plots) under 24 settings, all pairs of settings for those that are quick, the smallest and largest sizes of the calls and some 270 calls on special values (zero, constant, real, imaginary, tiny, huge, nan, infinite); each setting followed by plain calls; "
                   "24 settings at import and 17 sets of interpreter flags and environments with all calls",
          "thorough": "as quick, and all triples of settings for 24 calls; all pairs of settings at import"}
ASSUMPTIONS = ["where numpy errors or warnings are turned into exceptions, a call may raise FloatingPointError or a Warning instead",
               "the text of patterns (numpy's own) is not judged", "results are compared to 1e-12 of their largest value",
               "plots run with the Agg back end", "random patterns and coefficients advance numpy's random state and are left out"]
HANG_S = 300
TABLE = {}
CALLS = {}
EDGES = {}          # calls at the smallest and at large sizes, and on special values
NAMES = []          # calls that are cheap enough for pairs
P = {}
EXT = []
SLOW = ("large", "many sizes")


def plots():
    from spherepy import plot_sphere as G
    from mc import arith
    D = {}

    def drawn(f):
        def g(sp, P):
            c18.SHOWN[:] = []
            f()
            if not c18.SHOWN:
                c18.take()
            s = [(len(a["quads"]), len(a["meshes"]), len(a["lines"])) for a in c18.SHOWN]
            out = [repr(s)] + [x for a in c18.SHOWN for x in [m[1] for m in a["meshes"]] + a["lines"] + a["quads"]]
            c18.SHOWN[:] = []
            return out
        return g
    c = arith.make("scoef", (3, 2), 3)[0]
    p = arith.make("spatt", (4, 6), 4)[0]
    t = arith.make("vpatt", (4, 6), 5)[0]
    D["plot pcolor"] = drawn(lambda: G.pcolor_coefs(c))
    D["plot lines"] = drawn(lambda: G.plot_coefs(c))
    D["plot pattern"] = drawn(lambda: G.plot_sphere_mag(p))
    D["plot transverse"] = drawn(lambda: G.plot_sphere_mag(t))
    D["plot array"] = drawn(lambda: G.plot_mag_on_sphere(np.arange(12.0).reshape(3, 4)))
    D["plot mode"] = drawn(lambda: G.simple_plot(2, 1))
    return D


def edges(directory):
    """every call at the sizes where loops run zero times or once, and at large ones"""
    from mc import arith
    from spherepy import file as F, pysphi, csphi, sbessel, ops, verify
    import contextlib, io
    sp = lib.sp
    E = {}

    def both(name, f):
        E["c " + name] = f
        E["py " + name] = c11.py(f)

    def printed(c):
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            sp.pretty_coefs(c)
        return s.getvalue()

    def stored(save, load, o):
        p = os.path.join(directory, "edge%d" % os.getpid())
        try:
            save(o, p)
            return load(p)
        finally:
            os.unlink(p)
    for kind in ("scoef", "vcoef"):
        for n, m in ((0, 0), (1, 0), (1, 1), (2, 1), (12, 0), (45, 1), (12, 12)):
            if kind == "vcoef" and n == 0:
                continue
            o, b = arith.make(kind, (n, m), 3)[0], arith.make(kind, (n, m), 4)[0]
            t = "%s(%d,%d)" % (kind, n, m)
            inv = sp.ispht if kind == "scoef" else sp.vispht
            both("synthesis " + t, lambda sp, P, o=o, inv=inv: inv(o))
            E["arithmetic " + t] = lambda sp, P, o=o, b=b: [o + b, b - o, 2 * o, o / 3, 1j * o]
            E["measures " + t] = lambda sp, P, o=o: [sp.L2_coef(o), sp.LInf_coef(o), sp.mag(o), sp.mag2(o)] + ([o.power(), o.angular_power_spectrum(), sp.abs(o)] if hasattr(o, "power") else [])
            E["copies " + t] = lambda sp, P, o=o, n=n: [o.copy(), o[0:n, :], o[0:n // 2, :], o[n, 0] if n else o.copy(), o.size]
            E["text " + t] = lambda sp, P, o=o: [str(o), repr(o)] if hasattr(o, "power") else [repr(o)]
            if kind == "scoef":
                E["file " + t] = lambda sp, P, o=o: stored(F.save_coef, F.load_coef, o)
                E["compare " + t] = lambda sp, P, o=o, b=b: sp.compare_relative(o, b)
                if n > 1:
                    E["pretty " + t] = lambda sp, P, o=o: printed(o)
            E["factories " + t] = lambda sp, P, n=n, m=m, k=sp.scalar if kind == "scoef" else sp.vector: [sp.zeros_coefs(n, m, coef_type=k), sp.ones_coefs(n, m, coef_type=k)]
    for kind in ("spatt", "vpatt"):
        for r, c in ((2, 2), (2, 4), (3, 2), (3, 4), (5, 2), (4, 12), (40, 4), (14, 26)):
            o, b = arith.make(kind, (r, c), 3)[0], arith.make(kind, (r, c), 4)[0]
            t = "%s(%d,%d)" % (kind, r, c)
            fwd = sp.spht if kind == "spatt" else sp.vspht
            if r > 2 or kind == "spatt":
                both("analysis " + t, lambda sp, P, o=o, fwd=fwd, r=r, c=c: fwd(o, r - 2, min(r - 2, c // 2 - 1)))
            E["arithmetic " + t] = lambda sp, P, o=o, b=b: [o + b, b - o, 2 * o, o / 3, 1j * o]
            E["measures " + t] = lambda sp, P, o=o: [sp.L2_patt(o), sp.LInf_patt(o), sp.mag(o), sp.mag2(o), np.array(o.single_val), bool(o.is_symmetric)]
            E["samples " + t] = lambda sp, P, o=o: [np.array(o.array), np.array(o.doublesphere), o.shape]
            if kind == "spatt":
                E["file " + t] = lambda sp, P, o=o: stored(F.save_patt, F.load_patt, o)
            E["factories " + t] = lambda sp, P, r=r, c=c, k=sp.scalar if kind == "spatt" else sp.vector: [sp.zeros_patt_uniform(r, c, patt_type=k), sp.ones_patt_uniform(r, c, patt_type=k)]
    for N in (1, 2, 3, 40):
        for x in (1e-3, 1.0, 7.5, 60.0):
            for f in ("sbesselj", "sbessely", "sbesselh1", "sbesselh2"):
                if f != "sbesselj" and N * np.log10(40 / x) > 150:
                    continue
                E["%s(%g,%d)" % (f, x, N)] = lambda sp, P, f=f, x=x, N=N: getattr(sbessel, f)(x, N)
        E["bessel arrays (%d)" % N] = lambda sp, P, N=N: [sbessel.sbesselj_array([1.0, 3.0], N), sbessel.sbessely_array([2.0], N)]
    for n, m in ((0, 0), (1, -1), (6, 0), (40, 40), (150, -4)):
        E["harmonic (%d,%d)" % (n, m)] = lambda sp, P, n=n, m=m: [sp.sph_harmonic_tp(3, 2, n, m), pysphi.ynunm(n, m, n + 1), pysphi.ynnm(n, m), csphi.ynnm(n, m)]
    for r, c in ((4, 2), (4, 4), (6, 2), (8, 10), (34, 4)):
        for f in ("sin_fc", "dtheta_fc", "dphi_fc", "divsin_fc"):
            E["%s (%d,%d)" % (f, r, c)] = lambda sp, P, f=f, r=r, c=c: operated(getattr(ops, f), r, c)
    E = {"edge %s" % k: v for k, v in E.items()}
    E.update(special(stored))
    return E


KINDS = {"zero": lambda z: 0 * z, "one": lambda z: 0 * z + 1, "real": lambda z: z.real + 0j, "imaginary": lambda z: 1j * z.imag,
         "one entry": lambda z: np.where(np.arange(z.size).reshape(z.shape) == z.size // 2, z, 0), "half": lambda z: np.where(np.arange(z.size).reshape(z.shape) * 2 < z.size, z, 0),
         "tiny": lambda z: z * 1e-300, "huge": lambda z: z * 1e200, "wide": lambda z: z * 10.0 ** (-(np.arange(z.size).reshape(z.shape) % 30)),
         "nan": lambda z: np.where(np.arange(z.size).reshape(z.shape) == z.size // 2, np.nan, z), "inf": lambda z: np.where(np.arange(z.size).reshape(z.shape) == z.size // 2, np.inf, z),
         "float": lambda z: z.real.copy()}


def special(stored):
    """calls on zeros, constants, real and imaginary, very small and large and non-finite values"""
    from mc import arith
    from spherepy import file as F
    sp = lib.sp
    E = {}
    for kind in ("scoef", "vcoef", "spatt", "vpatt"):
        for name, f in KINDS.items():
            shape = (4, 3) if arith.iscoef(kind) else (5, 6)
            z = [f(a) for a in arith.generic_comps(kind, shape, 6)]
            if kind in ("vcoef", "vpatt") and name == "float":
                continue
            for a in z:
                if kind == "vcoef":
                    a[0] = 0
            o = {"scoef": lambda: sp.ScalarCoefs(z[0], *shape), "vcoef": lambda: sp.VectorCoefs(z[0], z[1], *shape),
                 "spatt": lambda: sp.ScalarPatternUniform(z[0]), "vpatt": lambda: sp.TransversePatternUniform(z[0], z[1])}[kind]()
            b = arith.make(kind, shape, 4)[0]
            t = "special %s of %s values" % (kind, name)
            if arith.iscoef(kind):
                inv = sp.ispht if kind == "scoef" else sp.vispht
                E[t + ", c synthesis"] = lambda sp, P, o=o, inv=inv: inv(o, 7, 10)
                E[t + ", py synthesis"] = c11.py(E[t + ", c synthesis"])
                E[t + ", measures"] = lambda sp, P, o=o: [sp.L2_coef(o), sp.LInf_coef(o), sp.mag(o), sp.mag2(o)] + ([o.power(), o.angular_power_spectrum(), sp.abs(o)] if hasattr(o, "power") else [])
                E[t + ", text"] = lambda sp, P, o=o: [str(o), repr(o)] if hasattr(o, "power") else [repr(o)]
                E[t + ", copies"] = lambda sp, P, o=o: [o.copy(), o[0:2, :], o[4, 1], o[3, :] if hasattr(o, "power") else 0]
            else:
                fwd = sp.spht if kind == "spatt" else sp.vspht
                E[t + ", c analysis"] = lambda sp, P, o=o, fwd=fwd: fwd(o, 3, 2)
                E[t + ", py analysis"] = c11.py(E[t + ", c analysis"])
                E[t + ", measures"] = lambda sp, P, o=o: [sp.L2_patt(o), sp.LInf_patt(o), sp.mag(o), sp.mag2(o)]
                E[t + ", symmetry"] = lambda sp, P, o=o: [np.array(o.single_val), bool(o.is_symmetric)]
                E[t + ", built again"] = lambda sp, P, o=o, kind=kind: sp.ScalarPatternUniform(o.array) if kind == "spatt" else sp.TransversePatternUniform(*o.array)
            E[t + ", arithmetic"] = lambda sp, P, o=o, b=b: [o + b, b - o, 2 * o, o * o, o / 3, b / o, o + 1, 1 / o]
            if kind == "scoef":
                E[t + ", compared"] = lambda sp, P, o=o, b=b: [sp.compare_relative(o, b), sp.compare_relative(b, o)]
                E[t + ", stored"] = lambda sp, P, o=o: stored(F.save_coef, F.load_coef, o)
            if kind == "spatt":
                E[t + ", stored"] = lambda sp, P, o=o: stored(F.save_patt, F.load_patt, o)
    return E


def agree(a, b):
    """as c11.agree; entries that are not finite agree with each other"""
    def clear(x):
        if not isinstance(x, np.ndarray) or x.dtype.kind not in "fc" or np.isfinite(x).all():
            return [x]
        return [np.isfinite(x), np.where(np.isfinite(x), x, 0)]
    return c11.agree([y for x in a for y in clear(x)], [y for x in b for y in clear(x)])


def operated(f, r, c):
    a = lib.generic_array(r, c, 5).astype(np.complex128)
    f(a)
    return a


def build(sp, directory):
    """all calls and their inputs (in this process and in the interpreters started with other flags)"""
    c11.CALLS.clear()
    C, _ = c11.calls()
    CALLS.update({"%s." % k: f for k, f in C.items()})
    c23.DIR[:] = [directory]
    CALLS.update(c23.calls(False))
    CALLS.update(plots())
    EDGES.update(edges(directory))
    P.update(c11.inputs())
    P.update(c23.inputs(False))


def evaluate(name):
    try:
        return c11.flat((EDGES if name in EDGES else CALLS)[name](lib.sp, P))
    except Exception as e:
        return ("error", type(e).__name__, repr(e)[:200])


def setup(tier):
    sp = lib.setup()
    c18.setup(tier)
    c18.worker_init()
    boot.make_scratch()
    EXT[:] = [p for p in sys.path if any(f.startswith("_csphi") for f in (os.listdir(p) if os.path.isdir(p) else []))]
    d = os.path.join(boot.scratch, "ambient")
    os.makedirs(d, exist_ok=True)
    build(sp, d)

    def files():
        from spherepy import file as F
        F.save_coef(P["C"], os.path.join(d, "c"))
        F.save_patt(P["P"], os.path.join(d, "p"))
        return True
    c11.in_child(files)
    for name in list(CALLS) + list(EDGES):
        TABLE[name] = c11.in_child(lambda: evaluate(name), lambda why: ("error", "crash", why))
    NAMES[:] = [n for n in CALLS if not n.startswith("plot") and not n.startswith(SLOW)]


def units(tier):
    q = tier == "quick"
    S = list(ambient.SETTINGS)
    yield ["single", "none"]
    yield ["edge", "none"]
    for i, s in enumerate(S):
        yield ["single", s]
        yield ["edge", s]
        yield ["then", s]
        yield ["import", s]
        for t in S[i + 1:]:
            yield ["pair", s, t]
            if not q:
                yield ["import", s, t]
        if not q:
            for j in range(i + 1, len(S)):
                for k in range(j + 1, len(S)):
                    yield ["triple", s, S[j], S[k]]
    for k in range(len(FLAGS)):
        yield ["flags", k]


def cost(u):
    return {"edge": 30, "pair": 20, "single": 30, "then": 100, "import": 60, "triple": 4, "flags": 60}[u[0]]


FLAGS = [([], {}), (["-O"], {}), (["-OO"], {}), (["-bb"], {}), (["-X", "dev"], {}), (["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0"}),
         (["-O"], {"PYTHONHASHSEED": "1"}), ([], {"PYTHONHASHSEED": "1"}), ([], {"PYTHONHASHSEED": "77"}), ([], {"PYTHONMALLOC": "debug"}), ([], {"MALLOC_PERTURB_": "0"}),
         ([], {"MALLOC_PERTURB_": "255"}), ([], {"OMP_NUM_THREADS": "8", "OPENBLAS_NUM_THREADS": "8"}), ([], {"PYTHONINTMAXSTRDIGITS": "640"}),
         (["-s", "-B"], {"HOME": "/nonexistent", "LANG": "de_DE.UTF-8", "TZ": "Asia/Tokyo"}), (["-X", "frozen_modules=off", "-X", "importtime"], {}), ([], {"PYTHONPROFILEIMPORTTIME": "", "PYTHONFAULTHANDLER": "1"})]


def raising(names):
    return any(n in ("errors raise", "warnings raise") for n in names)


def differs(name, got, settings):
    """None, or what is wrong with this outcome"""
    want = TABLE[name]
    if want[0:1] == ("error",):
        return "fails in a plain process: %r" % (want[1:],)
    if got[0:1] == ("error",):
        if "errors raise" in settings and "FloatingPointError" in got[1] or "warnings raise" in settings and got[1].endswith("Warning"):
            return None
        return "raises %s" % (got[2],)
    if raising(settings) and name.startswith("refused"):
        return None
    if not agree(got, want):
        return "gives another result"


def named(n):
    return n.rstrip(".")


def under(ctx, name, settings):
    with ExitStack() as st:
        for s in settings:
            st.enter_context(ambient.SETTINGS[s]())
        a = ambient.snapshot()
        got = evaluate(name)
        b = ambient.snapshot()
    bad = differs(name, got, settings)
    what = "%s %s" % (named(name), "under " + " and ".join(settings) if settings else "in a plain process")
    ctx.check(bad is None, lambda: "%s %s" % (what, bad))
    diff = [k for k in ambient.changed(a, b) if k != "threads"]
    ctx.check(not diff, lambda: "%s changed %s" % (what, ", ".join(diff)))
    ctx.op()
    return got


def run(ctx, u):
    kind = u[0]
    if kind == "single":
        name = ctx.choose("call", list(CALLS))
        got = under(ctx, name, [] if u[1] == "none" else [u[1]])
        ctx.observe(*[x if isinstance(x, np.ndarray) else repr(x) for x in got])
    elif kind == "edge":
        name = ctx.choose("call", list(EDGES))
        got = under(ctx, name, [] if u[1] == "none" else [u[1]])
        ctx.observe(*[x if isinstance(x, np.ndarray) else repr(x) for x in got])
    elif kind == "pair":
        name = ctx.choose("call", NAMES)
        got = under(ctx, name, u[1:3])
        ctx.observe(repr(u[1:3]), *[x if isinstance(x, np.ndarray) else repr(x) for x in got])
    elif kind == "triple":
        name = ctx.choose("call", c23.PROBES + ["save", "load", "text", "symmetry", "read", "harmonic", "bessel", "factories", "patterns", "C * C2", "P / P2", "py spht", "py vispht",
                                                "refused ispht.", "refused access.", "refused arithmetic.", "in place V", "mag T"])
        got = under(ctx, name, u[1:4])
        ctx.observe(repr(u[1:4]), *[x if isinstance(x, np.ndarray) else repr(x) for x in got])
    elif kind == "then":
        # in a process of its own: the first call of the process is made under the setting, the next ones without
        name = ctx.choose("first call", NAMES)

        def both():
            a0 = ambient.snapshot()
            with ambient.SETTINGS[u[1]]():
                first = evaluate(name)
            second = evaluate(name)
            third = [(p, evaluate(p)) for p in c23.PROBES if p != name][:3]
            a1 = ambient.snapshot()
            return first, [(name, second)] + third, ambient.changed(a0, a1)
        r = c11.in_child(both)
        ctx.check(r[0] != "error", lambda: "%s under %s: %s" % (named(name), u[1], r[1]))
        bad = differs(name, r[0], [u[1]])
        ctx.check(bad is None, lambda: "%s, the first call of a process, under %s %s" % (named(name), u[1], bad))
        for n, got in r[1]:
            bad = differs(n, got, [])
            ctx.check(bad is None, lambda: "%s after %s under %s %s" % (named(n), named(name), u[1], bad))
        diff = [k for k in r[2] if k != "threads"]
        ctx.check(not diff, lambda: "calls after %s changed %s" % (u[1], ", ".join(diff)))
        ctx.op(5)
        ctx.observe(u[1], name)
    else:
        child(ctx, u)



CHILD = '''
import sys, json, pickle, os
A = json.loads(sys.argv[1])
sys.path[:0] = A["path"]
sys.pycache_prefix = A["pyc"]
sys.dont_write_bytecode = True
out = open(A["out"], "wb")
import numpy as np, six.moves, matplotlib, matplotlib.pyplot, mpl_toolkits.mplot3d, warnings, imp_quiet
from mc import lib, boot, ambient, arith, bessel, ref
import contextlib
boot.scratch = A["dir"]
matplotlib.use("Agg")
with contextlib.ExitStack() as st:
    for s in A["settings"]:
        st.enter_context(ambient.SETTINGS[s]())
    a = ambient.snapshot()
    import spherepy as sp
    import spherepy.file, spherepy.ops, spherepy.pysphi, spherepy.csphi, spherepy.sbessel, spherepy.plot_sphere, spherepy.verify
    b = ambient.snapshot()
    left = ambient.changed(a, b)
import _csphi
lib.sp = sp
from mc.props import c25, c18
c18.worker_init()
c25.build(sp, A["dir"])
got = {n: c25.evaluate(n) for n in list(c25.CALLS) + list(c25.EDGES)}
pickle.dump((os.path.realpath(sp.__file__), os.path.realpath(_csphi.__file__), left, got), out)
out.close()
'''


def child(ctx, u):
    settings = u[1:] if u[0] == "import" else []
    flags, env = FLAGS[u[1]] if u[0] == "flags" else ([], {})
    what = "importing under " + " and ".join(settings) if settings else "python %s with %r" % (" ".join(flags), env)
    d = os.path.join(boot.scratch, "child%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    for n in "cp":
        with open(os.path.join(boot.scratch, "ambient", n), "rb") as f, open(os.path.join(d, n), "wb") as g:
            g.write(f.read())
    # the deprecated module that the package imports warns; the warning is the interpreter's own
    with open(os.path.join(d, "imp_quiet.py"), "w") as f:
        f.write("import warnings\nwith warnings.catch_warnings():\n    warnings.simplefilter('ignore')\n    try:\n        import imp\n    except ImportError:\n        pass\n")
    out = os.path.join(d, "out")
    arg = json.dumps({"path": EXT + [boot.REPO, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), d], "pyc": os.path.join(d, "pyc"),
                      "out": out, "dir": d, "settings": settings})
    e = dict(os.environ)
    e.update(env)
    r = subprocess.run([boot.PY] + flags + ["-c", CHILD, arg], env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=250)
    if os.path.getsize(out) == 0 and raising(settings):
        last = r.stderr.decode(errors="replace").strip().splitlines()[-1:]
        ctx.check(last and ("Warning" in last[0] or "FloatingPointError" in last[0]), lambda: "%s: %s" % (what, last))
        ctx.observe(what)
        return
    ctx.check(os.path.getsize(out) > 0, lambda: "%s ends with status %d: %s" % (what, r.returncode, r.stderr.decode(errors="replace")[-400:]))
    with open(out, "rb") as f:
        mod, ext, left, got = pickle.load(f)
    ctx.check(mod.startswith(os.path.realpath(boot.REPO)) and os.path.dirname(ext) in [os.path.realpath(p) for p in EXT], lambda: "%s: other code was imported (%s, %s)" % (what, mod, ext))
    ctx.check(not left, lambda: "%s changed %s" % (what, ", ".join(left)))
    ctx.check(set(got) == set(TABLE), "the calls differ")
    for n in sorted(got):
        bad = differs(n, got[n], settings)
        ctx.check(bad is None, lambda: "%s: %s %s" % (what, named(n), bad))
        ctx.op()
    ctx.observe(what)
