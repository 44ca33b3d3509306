"""Process-wide settings: a snapshot of them, and ways of changing them."""
import builtins, cmath, contextlib, copy, decimal, gc, io, locale, logging, math, os, random, signal, sys, threading, time, warnings
import numpy as np
from mc import boot


def _members(m):
    return {k: id(v) for k, v in vars(m).items() if callable(v)}


def _handlers():
    out = {}
    for s in signal.valid_signals():
        try:
            out[int(s)] = signal.getsignal(s)
        except ValueError:
            pass
    return out


def _umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def _mpl():
    m = sys.modules.get("matplotlib")
    return None if m is None else {k: repr(v) for k, v in m.rcParams.items() if k != "backend"}


def _style():
    p = sys.modules.get("matplotlib.pyplot")
    return None if p is None else (p.isinteractive(), id(p.show))


READ = {
    "numpy error handling": lambda: np.geterr(),
    "numpy error callback": lambda: id(np.geterrcall()) if np.geterrcall() else None,
    "numpy print options": lambda: repr(sorted(np.get_printoptions().items(), key=lambda k: k[0])),
    "numpy buffer size": lambda: np.getbufsize(),
    "numpy random state": lambda: (lambda s: (s[0], s[1].tobytes()) + tuple(s[2:]))(np.random.get_state()),
    "random state": lambda: hash(random.getstate()),
    "warning filters": lambda: list(warnings.filters),
    "warning output": lambda: (id(warnings.showwarning), id(warnings.formatwarning)),
    "decimal context": lambda: repr(decimal.getcontext()).split("flags")[0],
    "working directory": lambda: _cwd(),
    "environment": lambda: {k: v for k, v in os.environ.items()},
    "module path": lambda: list(sys.path),
    "program arguments": lambda: list(sys.argv),
    "standard streams": lambda: (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
    "recursion limit": lambda: sys.getrecursionlimit(),
    "thread switch interval": lambda: sys.getswitchinterval(),
    "digits in numbers": lambda: sys.get_int_max_str_digits(),
    "locale": lambda: locale.setlocale(locale.LC_ALL),
    "signal handlers": lambda: _handlers(),
    "timers": lambda: [signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
    "garbage collection": lambda: (gc.isenabled(), gc.get_threshold()),
    "hooks": lambda: (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
    "profiling": lambda: id(sys.getprofile()),
    "threads": lambda: threading.active_count(),
    "file mode mask": lambda: _umask(),
    "logging": lambda: (logging.root.level, [id(h) for h in logging.root.handlers]),
    "numpy functions": lambda: _members(np),
    "numpy.fft functions": lambda: _members(np.fft),
    "numpy.linalg functions": lambda: _members(np.linalg),
    "numpy.random functions": lambda: {k: v for k, v in _members(np.random).items()},
    "math functions": lambda: (_members(math), _members(cmath)),
    "builtin functions": lambda: _members(builtins),
    "os functions": lambda: _members(os),
    "back end of the package": lambda: getattr(sys.modules.get("spherepy.spherepy"), "use_cext", None),
    "plot settings": lambda: _mpl(),
    "plot mode": lambda: _style(),
}


def _cwd():
    try:
        return os.getcwd()
    except OSError:
        return None


CHEAP = [k for k in READ if "functions" not in k and "plot" not in k and k != "signal handlers"]


def snapshot(names=None):
    return {k: READ[k]() for k in names or READ}


def changed(a, b):
    """The settings that differ between two snapshots (a setting that did not exist before may appear)."""
    out = []
    for k in a:
        if a[k] != b[k] and not (a[k] is None and k.startswith(("plot", "back end"))):
            if "functions" in k:
                x, y = (a[k], b[k]) if isinstance(a[k], tuple) else ((a[k],), (b[k],))
                if all(q.get(n, 0) == v for p, q in zip(x, y) for n, v in p.items()):
                    continue
            out.append(k)
    return out


# ------------------------------------------------------------------------------ settings to call under
class Closed(object):
    """A stream that cannot be written."""

    def write(self, *a):
        raise ValueError("I/O operation on closed file")
    flush = write


@contextlib.contextmanager
def err(**how):
    old = np.seterr(**how)
    cb = np.geterrcall()
    try:
        yield
    finally:
        np.seterr(**old)
        np.seterrcall(cb)


@contextlib.contextmanager
def err_log(**how):
    log = io.StringIO()
    old, cb = np.seterr(**how), np.geterrcall()
    np.seterrcall(log)
    try:
        yield
    finally:
        np.seterr(**old)
        np.seterrcall(cb)


@contextlib.contextmanager
def printing(**o):
    old = np.get_printoptions()
    np.set_printoptions(**o)
    try:
        yield
    finally:
        np.set_printoptions(**old)


@contextlib.contextmanager
def warn(action):
    with warnings.catch_warnings(record=True):
        warnings.simplefilter(action)
        yield


@contextlib.contextmanager
def call(set_, *a):
    """set_(new) returns the old value, or a function that restores it"""
    old = set_(*a)
    try:
        yield
    finally:
        old()


def restoring(get, set_):
    def f(v):
        old = get()
        set_(v)
        return lambda: set_(old)
    return f


def seeded(k):
    s, t = np.random.get_state(), random.getstate()
    np.random.seed(k)
    random.seed(k)

    def back():
        np.random.set_state(s)
        random.setstate(t)
    return back


def moved(kind):
    old = os.getcwd()
    if kind == "deleted":
        d = os.path.join(boot.scratch, "gone%d" % os.getpid())
        os.mkdir(d)
        os.chdir(d)
        os.rmdir(d)
    else:
        os.chdir("/")
    return lambda: os.chdir(old)


def streams(out):
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, out

    def back():
        sys.stdout, sys.stderr = old
    return back


def collector(mode):
    on, th = gc.isenabled(), gc.get_threshold()
    if mode == "off":
        gc.disable()
    else:
        gc.set_threshold(5, 2, 2)

    def back():
        gc.set_threshold(*th)
        (gc.enable if on else gc.disable)()
    return back


def environment(new):
    old = dict(os.environ)
    os.environ.update(new)

    def back():
        os.environ.clear()
        os.environ.update(old)
    return back


def traced(f):
    """another tool (a debugger, a coverage or profiling tool) watches the calls"""
    old, oldp = sys.gettrace(), sys.getprofile()
    (sys.setprofile if f == "profile" else sys.settrace)(lambda *a: None)

    def back():
        sys.settrace(old)
        sys.setprofile(oldp)
    return back


def ticking(_):
    """a timer signal with a harmless handler keeps arriving"""
    old = signal.signal(signal.SIGVTALRM, lambda *a: None)
    signal.setitimer(signal.ITIMER_VIRTUAL, 0.002, 0.002)

    def back():
        signal.setitimer(signal.ITIMER_VIRTUAL, 0, 0)
        signal.signal(signal.SIGVTALRM, old)
    return back


SETTINGS = {
    "errors ignored": lambda: err(all="ignore"),
    "errors warn": lambda: err(all="warn"),
    "errors raise": lambda: err(all="raise"),
    "errors logged": lambda: err_log(all="log"),
    "warnings raise": lambda: warn("error"),
    "warnings always": lambda: warn("always"),
    "few digits": lambda: printing(precision=2, suppress=True, threshold=3, linewidth=20, edgeitems=1, floatmode="fixed", sign="+"),
    "many digits": lambda: printing(precision=30, threshold=10 ** 6),
    "decimal 3 digits": lambda: call(restoring(lambda: decimal.getcontext().copy(), decimal.setcontext), decimal.Context(prec=3, Emax=9, Emin=-9)),
    "seed 0": lambda: call(seeded, 0),
    "seed 1": lambda: call(seeded, 1),
    "other directory": lambda: call(moved, "/"),
    "deleted directory": lambda: call(moved, "deleted"),
    "no output": lambda: call(streams, None),
    "closed output": lambda: call(streams, Closed()),
    "collector off": lambda: call(collector, "off"),
    "collector eager": lambda: call(collector, "eager"),
    "small buffers": lambda: call(restoring(np.getbufsize, np.setbufsize), 16 * 16),
    "fast switching": lambda: call(restoring(sys.getswitchinterval, sys.setswitchinterval), 1e-6),
    "file mode mask": lambda: call(restoring(_umask, os.umask), 0o177),
    "environment": lambda: call(environment, {"LANG": "de_DE", "LC_ALL": "tr_TR", "LC_NUMERIC": "de_DE", "TZ": "Asia/Tokyo", "OMP_NUM_THREADS": "7",
                                              "TMPDIR": "/nonexistent", "HOME": "/nonexistent"}),
    "profiler": lambda: call(traced, "profile"),
    "tracer": lambda: call(traced, "trace"),
    "timer": lambda: call(ticking, 0),
}
