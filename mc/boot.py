"""Build /repo's C extension from the current tree into a scratch directory and import spherepy
from /repo, so that a check judges exactly the code that is in the working tree now."""
import atexit, glob, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("MC_REPO", "/repo")
PY = "/opt/venv/bin/python"
_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "PYTHONWARNINGS": "ignore",
    "MC_BOOTED": "1", "PYTHONNOUSERSITE": "1",
    "MALLOC_PERTURB_": "128",       # memory that was never written reads as 1.4e306
}
scratch = None


def reexec(extra=None):
    """Make sure that we run in the right interpreter with a known environment."""
    if os.environ.get("MC_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(_ENV)
    env.update(extra or {})
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONSTARTUP", None)
    os.execve(PY, [PY, "-u"] + sys.argv, env)


def make_scratch():
    global scratch
    if scratch is None:
        scratch = tempfile.mkdtemp(prefix="mc_")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(scratch, ignore_errors=True)
        atexit.register(clean)
        sys.pycache_prefix = os.path.join(scratch, "pyc")
        os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    return scratch


def build_ext(name="ext", env_extra=None):
    """Compile the extension as setup.py describes it; returns the directory holding _csphi*.so."""
    make_scratch()
    lib = os.path.join(scratch, name)
    tmp = os.path.join(scratch, name + "_tmp")
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    env.update(env_extra or {})
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--force", "--build-lib", lib, "--build-temp", tmp],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    so = glob.glob(os.path.join(lib, "**", "_csphi*.so"), recursive=True)
    if r.returncode != 0 or len(so) != 1:
        sys.stderr.write("the C extension does not build:\n" + r.stdout[-4000:] + "\n")
        sys.exit(2)
    shutil.rmtree(tmp, ignore_errors=True)
    return os.path.dirname(so[0])


def load(extdir=None):
    """Import spherepy (from /repo) on top of the freshly built extension."""
    if extdir is None:
        extdir = build_ext()
    sys.path[:] = [extdir, REPO] + [p for p in sys.path if p not in ("", REPO, extdir)]
    import numpy as np
    np.seterr(all="ignore")
    import _csphi
    assert os.path.realpath(_csphi.__file__).startswith(os.path.realpath(extdir)), _csphi.__file__
    import spherepy as sp
    assert os.path.realpath(sp.__file__).startswith(os.path.realpath(REPO) + "/"), sp.__file__
    assert sp.csphi._csphi.__file__ == _csphi.__file__
    return sp


def sanitizer_env():
    """Environment of an interpreter that can load an extension built with address and undefined sanitizers."""
    libs = []
    for n in ("libasan.so", "libubsan.so"):
        f = subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip()
        libs.append(os.path.realpath(f))
    return {"LD_PRELOAD": ":".join(libs),
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:max_malloc_fill_size=0:quarantine_size_mb=16",
            "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1:halt_on_error=1"}


class backend(object):
    """Select the compiled ('c') or the pure Python ('py') low level routines."""

    def __init__(self, which):
        self.which = which

    def __enter__(self):
        import spherepy.spherepy as core
        self.core = core
        self.old = core.use_cext
        core.use_cext = self.old if self.which == "c" else False
        if self.which == "c" and not self.old:
            core.use_cext = "True"

    def __exit__(self, *a):
        self.core.use_cext = self.old
        return False
