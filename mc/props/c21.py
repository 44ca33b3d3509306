"""C21 failing saves: the file system stops accepting data at every byte position of every file."""
import errno, os, resource, signal
import numpy as np
from mc import lib, ref, boot
ID = "C21"
LEVEL = "fault_enumeration"
RULE = ("one execution = one save during which the file system refuses everything beyond byte k (soft file size limit of the "
        "process, EFBIG; for good, or only until one write has failed), or that cannot open its path, or whose device is full, possibly repeated at a second position, "
        "followed by a retry and a load")
BOUNDS = {"quick": "every byte position of the files of 10 coefficient sets and 7 patterns (7 bytes to 9 kB), and the beginning, the end and every multiple of 1024 and its neighbours of two files of about 100 kB (files up to 3 kB: over 3 previous contents of the path); all pairs of positions for 3 small objects",
          "thorough": "every byte position of the files of 21 coefficient sets and 13 patterns (7 bytes to 40 kB), and the beginning, the end and every multiple of 1024 and its neighbours of five files up to 240 kB (files up to 3 kB: over 3 previous contents of the path); all pairs of positions for 7 small objects"}
ASSUMPTIONS = ["a write beyond the limit fails after the bytes below it were written, as on a full disk", "Linux, /proc/self/fd"]
DIR = []


def setup(tier):
    lib.setup()


def worker_init():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    d = os.path.join(boot.scratch, "fault%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    DIR[:] = [d]


def objects(tier):
    q = tier == "quick"
    out = [["coef", n, m] for n in range(3 if q else 5) for m in range(n + 1)] + [["coef", 5, 2], ["coef", 13, 13], ["coef", 20, 2], ["coef", 9, 0]]
    out += [] if q else [["coef", 28, 28], ["coef", 8, 8]]
    out += [["patt", r, c] for r, c in ((2, 2), (2, 4), (3, 2), (3, 4), (4, 6), (5, 8), (12, 14))]
    out += [] if q else [["patt", 6, 6], ["patt", 8, 2], ["patt", 2, 12], ["patt", 7, 10], ["patt", 20, 20], ["patt", 26, 30]]
    return out


def units(tier):
    for o in objects(tier):
        for chunk in range(16 if o[1] * o[2] > 60 else 1):
            yield ["at", o, chunk, 16 if o[1] * o[2] > 60 else 1]
        yield ["paths", o]
        if o[1] <= (1 if tier == "quick" else 2) and o[2] <= 2:
            for chunk in range(8):
                yield ["pair", o, chunk, 8]
    for o in (["coef", 45, 45], ["patt", 36, 60]) + (() if tier == "quick" else (["coef", 70, 70], ["coef", 900, 1], ["patt", 4, 900])):
        for chunk in range(16):
            yield ["coarse", o, chunk, 16]
    for a in range(len(STEPS)):
        yield ["history", a, 4 if tier == "quick" else 5]


def cost(u):
    return 10 ** 4 if u[0] in ("pair", "history") else u[1][1] * u[1][2]


SIZES = {}
STEPS = ["save A", "save B", "fail A early", "fail A late", "fail B early", "fail B late", "change A", "full A", "load"]


def make(o, j=0):
    sp = lib.sp
    if o[0] == "coef":
        v = np.array([ref.generic(i, 3 + j) for i in range(ref.ncoef(o[1], o[2]))])
        return sp.ScalarCoefs(v.copy(), o[1], o[2]), v
    a = lib.consistent_scalar(lib.generic_array(o[1], o[2], 2 + j))
    return sp.ScalarPatternUniform(a.copy()), a


def save(o, x, f):
    from spherepy import file as F
    (F.save_coef if o[0] == "coef" else F.save_patt)(x, f)


def loads_back(ctx, o, v, f, what):
    from spherepy import file as F
    sp = lib.sp
    if o[0] == "coef":
        d = F.load_coef(f)
        ctx.check((d.nmax, d.mmax) == tuple(o[1:]) and np.array_equal(lib.cvec(d), v), lambda: "%s does not load back exactly" % what)
    else:
        d = F.load_patt(f)
        ctx.check(tuple(d.shape) == tuple(o[1:]) and np.array_equal(d.array, v), lambda: "%s does not load back exactly" % what)
    ctx.op()


def open_fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[n] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return out


def failing(ctx, o, x, f, limit, what, once=None):
    """One save with the given limit (None: the path itself fails); has to raise.
    once: only the first write beyond the limit fails; a save that returns then must have saved (once() checks it)."""
    before = lib.bytes_of(x)
    fds = open_fds()
    raised = None
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    if limit is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    left = None
    if once:
        signal.signal(signal.SIGXFSZ, lambda *a: resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard)))
    try:
        save(o, x, f)
    except Exception as e:
        raised = e
        left = [p for n, p in open_fds().items() if fds.get(n) != p and p.startswith(DIR[0])]
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    ctx.op()
    ctx.count("faults_fired")
    if once and raised is None:
        once()
        ctx.check(lib.bytes_of(x) == before, lambda: "%s changed the object" % what)
        return
    ctx.check(raised is not None, lambda: "%s returned as if it had succeeded" % what)
    kind = type(raised)
    ctx.check(isinstance(raised, (OSError, ValueError)), lambda: "%s raised %r" % (what, raised))
    ctx.check(not left, lambda: "%s leaves %r open" % (what, left))
    raised = None
    ctx.check(not [p for n, p in open_fds().items() if fds.get(n) != p and p.startswith(DIR[0])], lambda: "%s leaves a file open" % what)
    ctx.check(lib.bytes_of(x) == before, lambda: "%s changed the object" % what)
    return kind


def size_of(o, x, f, key):
    """length of the complete file (of the harness' own first save)"""
    if key is None or key not in SIZES:
        g = f + "_size"
        save(o, x, g)
        SIZES[key] = os.path.getsize(g)
        os.unlink(g)
    return SIZES[key]


def prepare(f, how, o):
    if os.path.lexists(f):
        os.unlink(f)
    if how == "longer file":
        with open(f, "w") as g:
            g.write("9,9\n" + "1,1\n" * 4000)
    elif how == "same object":
        y, v = make(o, 7)
        save(o, y, f)


def run(ctx, u):
    what = u[0]
    f = os.path.join(DIR[0], "file")
    if what == "history":
        return history(ctx, u)
    o = u[1]
    x, v = make(o)
    L = size_of(o, x, f, tuple(o))
    if what in ("at", "coarse"):
        # the number of positions depends on the file the library writes: it is covered by a loop here, not by a choice
        how = ctx.choose("before", ["nothing", "longer file", "same object"] if u[3] == 1 else ["nothing"])
        step = 1024 if what == "coarse" else 1
        lo, hi = L * u[2] // u[3], L * (u[2] + 1) // u[3]
        ks = [k for k in range(lo, hi) if step == 1 or k % step in (0, 1, step - 1) or k < 4 or k > L - 8]
        for k in ks:
            prepare(f, how, o)
            kind = failing(ctx, o, x, f, k, "saving %r with the file system full at byte %d of %d" % (o, k, L))
            save(o, x, f)
            ctx.op()
            ctx.state()
            loads_back(ctx, o, v, f, "the retry after a failure at byte %d of %d" % (k, L))
            prepare(f, how, o)
            once = lambda: loads_back(ctx, o, v, f, "what was saved although one write failed at byte %d of %d" % (k, L))
            failing(ctx, o, x, f, k, "saving %r with one write failing at byte %d of %d" % (o, k, L), once)
            save(o, x, f)
            loads_back(ctx, o, v, f, "the retry after one write failed at byte %d of %d" % (k, L))
        # exactly enough room is not a failure
        prepare(f, how, o)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (L, hard))
        try:
            save(o, x, f)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        loads_back(ctx, o, v, f, "a save with exactly enough room")
        ctx.observe(repr(o), how, lo, hi)
    elif what == "pair":
        lo, hi = L * u[2] // u[3], L * (u[2] + 1) // u[3]
        for k in range(lo, hi):
            for l in range(L):
                failing(ctx, o, x, f, k, "saving %r with the file system full at byte %d" % (o, k))
                failing(ctx, o, x, f, l, "saving %r again with the file system full at byte %d" % (o, l))
                save(o, x, f)
                ctx.state()
                loads_back(ctx, o, v, f, "the retry after failures at bytes %d and %d of %d" % (k, l, L))
        ctx.observe(repr(o), lo, hi)
    else:
        p = ctx.choose("path", ["missing directory", "is a directory", "dangling link", "full device", "empty", "closed number", "file as directory"])
        g = {"missing directory": os.path.join(DIR[0], "no", "file"), "is a directory": DIR[0], "dangling link": os.path.join(DIR[0], "link"),
             "full device": "/dev/full", "empty": "", "closed number": os.path.join(DIR[0], "x" * 300), "file as directory": os.path.join(f, "x")}[p]
        prepare(f, "longer file", o)
        if p == "dangling link":
            if os.path.lexists(g):
                os.unlink(g)
            os.symlink(os.path.join(DIR[0], "no", "target"), g)
        failing(ctx, o, x, g, None, "saving %r to a path that fails (%s)" % (o, p))
        save(o, x, f)
        loads_back(ctx, o, v, f, "a save after one to a path that fails")
        if p == "missing directory":
            os.makedirs(os.path.dirname(g))
            save(o, x, g)
            loads_back(ctx, o, v, g, "the retry after the directory was made")
            os.unlink(g)
            os.rmdir(os.path.dirname(g))
        ctx.observe(repr(o), p)


def history(ctx, u):
    objs = {"A": (["coef", 3, 2],) + make(["coef", 3, 2]), "B": (["patt", 3, 4],) + make(["patt", 3, 4])}
    f = os.path.join(DIR[0], "h")
    if os.path.lexists(f):
        os.unlink(f)
    disk = None
    for d in range(u[2]):
        if d == 0:
            s = STEPS[u[1]]
            ctx.note("step", s)
        else:
            s = ctx.choose("step", STEPS)
        w = s.split()
        if w[0] == "save":
            o, x, v = objs[w[1]]
            save(o, x, f)
            disk = (o, v.copy())
        elif w[0] == "fail":
            o, x, v = objs[w[1]]
            failing(ctx, o, x, f, 5 if w[2] == "early" else size_of(o, x, f, None) - 1, s)
            disk = None
        elif w[0] == "full":
            failing(ctx, objs["A"][0], objs["A"][1], "/dev/full", None, s)
        elif w[0] == "change":
            o, x, v = objs["A"]
            x[2, -1] = v[ref.modes(3, 2).index((2, -1))] = d + 1j
        elif disk is not None:
            loads_back(ctx, disk[0], disk[1], f, "after %s" % s)
    for k in "AB":
        o, x, v = objs[k]
        save(o, x, f)
        loads_back(ctx, o, v, f, "the last save")
    ctx.observe(u, repr(ctx.log))
