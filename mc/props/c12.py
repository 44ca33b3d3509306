"""C12 threads: stateless model checking of two or three threads calling the library, preemption bounded."""
import ctypes, os, pickle, subprocess, sys, threading
import numpy as np
from mc import lib, boot, arith, sched
from mc.props import c11
from mc.engine import Violation
ID = "C12"
LEVEL = "model_checking"
RULE = ("one execution = one schedule of two (or three) threads, each making one library call, under a scheduler that lets exactly "
        "one thread run and switches it at a chosen line or byte code of spherepy; both results are compared with the call "
        "made alone in a fresh process, shared inputs with their snapshot; 'cold' schedules run in a process in which the "
        "library has not been called before; the compiled routines are built so that every basic block that runs without the interpreter lock is a switch point too")
BOUNDS = {
    "quick": "line level: every single preemption of all pairs of 4 transforms (compiled; inputs the same object, equal shapes, different shapes), cold and warm, and of equal pairs with the Python back end, and of 17 other operations with themselves and the scalar transforms; every two preemptions of equal pairs of small operations and of spht with ispht; byte code level: every single preemption of scalar transform and operation pairs; three threads with two preemptions; every single preemption of each transform, made once before, by a thread that transforms 28 (Python back end: 10) other sizes; compiled code: every single preemption inside of it, at every basic block run without the interpreter lock (none on a tree that keeps the lock), of all pairs of 4 transforms (cold: equal pairs)",
    "thorough": "as quick with all pairs in both back ends, two preemptions for every pair of transforms on the smallest shapes, byte code level for all transforms",
}
ASSUMPTIONS = ["threads switch only between lines (or byte codes) of spherepy's Python files, and inside of the compiled routines where these "
               "give up the interpreter lock; numpy keeps the lock or touches only the call's own arrays", "calls that select the back end by global variable are not mixed"]
HANG_S = 120

T = ["spht", "ispht", "vspht", "vispht"]
MISC = ["add", "scale", "padd", "mag", "mag2", "truncate", "vtruncate", "pattern", "vpattern", "measure", "norms", "harmonic", "power", "load", "load patterns", "save", "save pattern"]
SMALL = ["spht", "ispht", "add", "mag", "truncate", "norms"]
MODES = ["same object", "equal shapes", "different shapes"]


def inputs():
    P = {}
    for v, (nr, nc), (n, m) in (("a", (3, 4), (1, 1)), ("b", (3, 4), (1, 1)), ("c", (4, 6), (2, 1))):
        j = ord(v)
        P["P" + v] = arith.make("spatt", (nr, nc), j)[0]
        P["T" + v] = arith.make("vpatt", (nr, nc), j + 1)[0]
        P["C" + v] = arith.make("scoef", (n, m), j + 2)[0]
        P["V" + v] = arith.make("vcoef", (n, m), j + 3)[0]
        if v not in FILES:
            f = [os.path.join(boot.scratch, "c12 %s%s %d.txt" % (k, v, os.getpid())) for k in "CPQ"]
            c, p, q = P["C" + v], P["P" + v].array, P["T" + v].array[1]
            with open(f[0], "w") as h:
                h.write("%d,%d\n" % (c.nmax, c.mmax) + "".join("%.16e,%.16e\n" % (z.real, z.imag) for z in lib.cvec(c)))
            for name, a in ((f[1], p), (f[2], q)):
                with open(name, "w") as h:
                    h.write("%d,%d\n" % a.shape + "".join("%d,%d,%.16e,%.16e\n" % (i, j, a[i, j].real, a[i, j].imag) for i in range(nr) for j in range(nc)))
            FILES[v] = f
        P["A" + v] = lib.generic_array(nr, nc, j)
    return P


def saved(f, o):
    name = os.path.join(boot.scratch, "c12 saved by %d in %d.txt" % (threading.get_ident(), os.getpid()))
    f(o, name)
    with open(name) as h:
        text = h.read()
    os.remove(name)
    return text


def call(name, v):
    sp = lib.sp
    n, m = (2, 1) if v == "c" else (1, 1)
    return {
        "spht": lambda P: sp.spht(P["P" + v], n, m),
        "vspht": lambda P: sp.vspht(P["T" + v], n, m),
        "ispht": lambda P: sp.ispht(P["C" + v]),
        "vispht": lambda P: sp.vispht(P["V" + v]),
        "add": lambda P: P["C" + v] + P["C" + v] * 2,
        "scale": lambda P: P["V" + v] / 3,
        "padd": lambda P: P["T" + v] - P["T" + v] * 3,
        "mag": lambda P: sp.mag(P["V" + v]),
        "mag2": lambda P: sp.mag2(P["T" + v]),
        "truncate": lambda P: P["C" + v][0:1, :],
        "vtruncate": lambda P: P["V" + v][0:1, :],
        "pattern": lambda P: sp.ScalarPatternUniform(P["A" + v]),
        "vpattern": lambda P: sp.TransversePatternUniform(P["A" + v], P["A" + v]),
        "measure": lambda P: [P["P" + v].single_val, P["T" + v].single_val],
        "norms": lambda P: [sp.L2_coef(P["C" + v]), sp.LInf_coef(P["V" + v]), sp.compare_relative(P["C" + v], P["C" + v])],
        "harmonic": lambda P: sp.sph_harmonic_tp(4, 4, 2, -1),
        "load": lambda P: [sp.file.load_coef(FILES[v][0]), sp.file.load_patt(FILES[v][1])],
        "load patterns": lambda P: [sp.file.load_vpatt(FILES[v][1], FILES[v][2]), sp.file.load_fdata(FILES[v][2])],
        "save": lambda P: saved(sp.file.save_coef, P["C" + v]),
        "save pattern": lambda P: saved(sp.file.save_patt, P["P" + v]),
        "crowd": lambda P: c11.crowd(sp, 28 if v == "a" else 10),
        "power": lambda P: [P["C" + v].power(), P["C" + v].angular_power_spectrum(), str(P["C" + v])],
    }[name]


EXPECT = {}
FILES = {}
STEPS = {}
WATCH = os.path.join(boot.REPO, "spherepy") + os.sep
POOL = []


def solo(be, name, v, gran):
    """number of steps of the call alone, in a fresh process: first and second call"""
    with boot.backend(be):
        P = inputs()
        out = []
        for i in range(2):
            r = sched.Run([lambda: call(name, v)(P)], [], WATCH, gran == "opcode")
            res = r.run()
            out.append(r.steps[0])
        return max(out)


def expect(be, name, v):
    with boot.backend(be):
        try:
            return c11.flat(call(name, v)(inputs()))
        except Exception as e:
            return ("error", repr(e))


HOOK = []


def setup(tier):
    boot.make_scratch()
    so = os.path.join(boot.scratch, "gil.so")
    subprocess.check_call(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "gil.c"), "-lpthread"])
    HOOK.append(ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL))
    HOOK[0].mc_gil_init()
    HOOK[0].mc_gil_arm.argtypes = [ctypes.c_long]
    HOOK[0].mc_gil_count.restype = ctypes.c_long
    lib.sp = boot.load(boot.build_ext("ext", {"CFLAGS": "-O1 -fsanitize-coverage=trace-pc"}))
    inputs()
    for name in T:
        for v in "ac":
            # basic blocks that the compiled code runs without the interpreter lock
            BLOCKS[name, v] = c11.in_child(lambda: unlocked(inputs(), [[name, v]], -1, name, v)[1])
    for be in ("c", "py"):
        v = "a" if be == "c" else "b"
        EXPECT[be, "crowd", v] = c11.in_child(lambda: expect(be, "crowd", v))
        for name in T + (MISC if be == "c" else []):
            for v in "abc":
                EXPECT[be, name, v] = c11.in_child(lambda: expect(be, name, v))
                for g in ("line", "opcode"):
                    STEPS[be, name, v, g] = c11.in_child(lambda: solo(be, name, v, g), lambda why: 1) + 2


BLOCKS = {}


def unlocked(P, calls, stop, *alone):
    """(results, blocks counted, stopped): the first call stops before its block number stop, the second runs as a whole."""
    h = HOOK[0]
    res = [None] * len(calls)

    def make(i):
        try:
            res[i] = ("value", call(*calls[i])(P))
        except BaseException as e:
            res[i] = ("raised", "%s: %s" % (type(e).__name__, e))

    def watched():
        h.mc_gil_arm(stop)
        try:
            make(0)
        finally:
            h.mc_gil_disarm()
    t = threading.Thread(target=watched)
    t.start()
    hit = h.mc_gil_wait()       # (gives up the interpreter lock while it waits)
    for i in range(1, len(calls)):
        make(i)
    h.mc_gil_go_on()
    t.join()
    return (None if alone else res), h.mc_gil_count(), hit


def compiled(ctx, u):
    _, calls, temp, lo, hi = u
    k = ctx.choose("basic blocks without the lock", range(lo, hi))

    def go():
        P = inputs() if temp == "cold" or not POOL else POOL[0]
        if temp == "warm":
            POOL[:] = [P]
        snap = {n: c11.flat(o) for n, o in P.items()}
        res, n, hit = unlocked(P, calls, k)
        at = "the compiled part of %s stopped before basic block %d of %d" % (calls[0][0], k, n) if hit else "one after the other"
        for i, (name, v) in enumerate(calls):
            kind, val = res[i]
            if kind == "raised":
                return "%s raised %s (%s)" % (name, val, at), hit
            if not c11.agree(c11.flat(val), EXPECT["c", name, v]):
                return "%s in thread %d gives another result than alone (%s)" % (name, i, at), hit
        for n, o in P.items():
            if not c11.agree_exact(c11.flat(o), snap[n]):
                return "the shared input %s was changed (%s)" % (n, at), hit
        return None, hit
    with boot.backend("c"):
        msg, hit = c11.in_child(go, lambda why: ("the process was " + why, 0)) if temp == "cold" else go()
    ctx.check(msg is None, msg)
    ctx.op(len(calls))
    ctx.count("schedules")
    ctx.count("preemptions_in_compiled_code", hit)
    ctx.observe(repr(u[1]), temp, str(k), str(hit))


def second(mode):
    return {"same object": "a", "equal shapes": "b", "different shapes": "c"}[mode]


def units(tier):
    q = tier == "quick"
    for temp in ("cold", "warm"):
        for a in T:
            for b in T:
                for va, vb in ("aa", "ab", "ca", "ac") if a == b else ("ca",):
                    if temp == "cold" and (a != b or va == vb) and q:
                        continue
                    K = max(1, BLOCKS[a, va])
                    for lo in range(0, K, 400):
                        yield ["compiled", [[a, va], [b, vb]], temp, lo, min(K, lo + 400)]

    def unit(temp, be, a, b, mode, gran, bound, extra=None):
        first = "c" if mode == "different shapes" and bound == 1 and extra is None else "a"
        va, vb = ("c", "a") if extra == "swap" else ("a", second(mode))
        K = STEPS[be, a, va, gran]
        chunk = K if bound == 1 and temp == "warm" else max(8, K // 12)
        for lo in range(0, K, chunk):
            yield [temp, be, [[a, va], [b, vb]], gran, bound, lo, min(K, lo + chunk)]
    for temp in ("cold", "warm"):
        for a in T:
            for b in T:
                for mode in MODES:
                    if temp == "cold" and q and a != b and mode != "equal shapes":
                        continue
                    yield from unit(temp, "c", a, b, mode, "line", 1)
                    if mode == "different shapes" and not (q and temp == "cold"):
                        yield from unit(temp, "c", a, b, mode, "line", 1, "swap")
                    if a == b or not q:
                        if temp == "warm" or mode != "same object":
                            if not (q and temp == "cold" and a[0] == "v"):
                                yield from unit(temp, "py", a, b, mode, "line", 1)
        for a in MISC:
            for mode in MODES:
                if temp == "cold" and q and mode != "equal shapes":
                    continue
                yield from unit(temp, "c", a, a, mode, "line", 1)
                for b in T[:2]:
                    if mode == "equal shapes" or not q:
                        yield from unit(temp, "c", a, b, mode, "line", 1)
                        yield from unit(temp, "c", b, a, mode, "line", 1)
    for a in SMALL:
        for b in SMALL:
            if q and not (a == b or set((a, b)) == set(("spht", "ispht"))):
                continue
            for mode in MODES:
                if mode == "equal shapes" or not q or (a == b and mode == "different shapes"):
                    yield from unit("warm", "c", a, b, mode, "line", 2)
            yield from unit("warm", "c", a, b, "equal shapes", "opcode", 1)
    for a in T[:2] if q else T:
        for be in ("c", "py"):
            for mode in MODES[1:]:
                yield from unit("warm", be, a, a, mode, "opcode", 1)
    for a in T:
        for be in ("c", "py"):
            for v in "ac" if be == "c" and (a[0] != "v" or not q) else "a":
                for lo in range(0, STEPS[be, a, v, "line"], 8):
                    yield ["crowded", be, [[a, v], ["crowd", "a" if be == "c" else "b"]], "line", 1, lo, min(lo + 8, STEPS[be, a, v, "line"])]
    if not q:
        for a in T:
            for b in T:
                yield from unit("warm", "c", a, b, "equal shapes", "line", 2)
        for a in T[:2]:
            yield from unit("warm", "py", a, a, "equal shapes", "line", 2)
    for tri in ([["ispht", "a"], ["ispht", "b"], ["ispht", "c"]], [["spht", "a"], ["spht", "b"], ["ispht", "c"]]):
        yield ["warm", "c", tri, "line", 2, 0, STEPS["c", tri[0][0], tri[0][1], "line"]]


def cost(u):
    if u[0] == "compiled":
        return (1e9 if u[2] == "cold" else 0) + u[4] - u[3]
    temp, be, calls, gran, bound, lo, hi = u
    if temp == "crowded":
        return 1e6
    n = (hi - lo) * (1 if bound == 1 else STEPS[be, calls[1][0], calls[1][1], gran])
    # every cold unit is started before any warm one: the processes must not have called the library
    return (1e9 if temp == "cold" else 0) + n


def execute(be, calls, gran, schedule, P):
    """Returns (message or None, preemptions)."""
    snap = {k: c11.flat(o) for k, o in P.items()}
    with boot.backend(be):
        fs = [lambda n=n, v=v: call(n, v)(P) for n, v in calls]
        r = sched.Run(fs, schedule, WATCH, gran == "opcode", whole=[i for i, (n, _) in enumerate(calls) if n == "crowd"])
        try:
            res = r.run()
        except sched.Deadlock as e:
            return str(e), 0
    at = "thread %s" % ", ".join("%d stopped before %s:%d" % (t, f, l) for t, _, f, l in r.where) if r.where else "no preemption"
    for i, (n, v) in enumerate(calls):
        want = EXPECT[be, n, v]
        kind, val = res[i]
        if kind == "raised":
            return "%s in thread %d raised %s (%s)" % (n, i, val, at), r.fired
        if want[0:1] == ("error",):
            return "%s fails alone: %s" % (n, want[1]), r.fired
        if not c11.agree(c11.flat(val), want):
            return "%s in thread %d gives another result than alone (%s)" % (n, i, at), r.fired
    for i in range(len(calls)):
        for j in range(i):
            for x in c11.parts(res[i][1]):
                for y in c11.parts(res[j][1]):
                    if lib.share(x, y):
                        return "the results of two threads share memory (%s)" % at, r.fired
    for k, o in P.items():
        if not c11.agree_exact(c11.flat(o), snap[k]):
            return "the shared input %s was changed (%s)" % (k, at), r.fired
    return None, r.fired


def run(ctx, u):
    if u[0] == "compiled":
        return compiled(ctx, u)
    temp, be, calls, gran, bound, lo, hi = u
    ks = [ctx.choose("steps of thread 0", range(lo, hi))]
    for i in range(1, bound):
        n, v = calls[i]
        ks.append(ctx.choose("steps of thread %d" % i, range(STEPS[be, n, v, gran])))
    ctx.note("calls", calls)
    if temp == "cold":
        msg, fired = c11.in_child(lambda: execute(be, calls, gran, ks, inputs()), lambda why: ("the process was " + why, 0))
    else:
        if not POOL:
            POOL.append(inputs())
        if temp == "crowded":
            with boot.backend(be):
                call(*calls[0])(POOL[0])
        msg, fired = execute(be, calls, gran, ks, POOL[0])
    ctx.check(msg is None, msg)
    ctx.op(len(calls))
    ctx.count("schedules")
    ctx.count("preemptions", fired)
    ctx.count("cold_schedules" if temp == "cold" else "warm_schedules")
    ctx.observe(repr(u[2]), repr(ks), str(fired))
