"""Helpers shared by the property harnesses: they use spherepy's public interface only."""
import functools
import numpy as np
from mc import boot, ref
from mc.engine import Violation, short

sp = None


def setup():
    global sp
    sp = boot.load()
    return sp


def scoefs(vals, nmax, mmax):
    c = sp.zeros_coefs(nmax, mmax)
    for (n, m), v in vals.items():
        c[n, m] = v
    return c


def vcoefs(v1, v2, nmax, mmax):
    c = sp.zeros_coefs(nmax, mmax, coef_type=sp.vector)
    for (n, m) in ref.modes(nmax, mmax):
        if n:
            c[n, m] = (v1.get((n, m), 0), v2.get((n, m), 0))
    return c


def read(c):
    """{(n,m): value} of a ScalarCoefs object through indexing."""
    return {(n, m): c[n, m] for n, m in ref.modes(c.nmax, c.mmax)}


def vecof(vals, nmax, mmax):
    return np.array([vals.get(nm, 0) for nm in ref.modes(nmax, mmax)], dtype=np.complex128)


def cvec(c):
    """Values of a ScalarCoefs object in mode order, column by column through c[:, m]."""
    parts = [np.array(c[:, 0])]
    for m in range(1, c.mmax + 1):
        parts.append(np.array(c[:, -m]))
        parts.append(np.array(c[:, m]))
    return np.concatenate(parts)


def maxerr(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    e = np.max(np.abs(a - b))
    return np.inf if np.isnan(e) else float(e)


def where(a, b):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return "shape %r instead of %r" % (a.shape, b.shape)
    d = np.abs(a - b)
    d = np.where(np.isnan(d), np.inf, d)
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    return "at %s: got %r, expected %r" % (tuple(int(k) for k in i), complex(a[i]), complex(b[i]))


def cell(k):
    """(row, col) generic values"""
    return ref.generic(k)


@functools.lru_cache(maxsize=64)
def _generic_array(nrows, ncols, j):
    return np.array([[ref.generic(r * ncols + c, j) for c in range(ncols)] for r in range(nrows)])


def generic_array(nrows, ncols, j=0, kind="complex"):
    a = _generic_array(nrows, ncols, j).copy()
    return a.real + 0j if kind == "real" else 1j * a.imag if kind == "imag" else a


def consistent_scalar(a):
    """Make the pole rows single valued."""
    a = a.copy()
    a[0, :] = a[0, 0]
    a[-1, :] = a[-1, 0]
    return a


def consistent_vector(a):
    """Make the pole rows antisymmetric under phi + pi."""
    a = a.copy()
    h = a.shape[1] // 2
    for r in (0, -1):
        a[r, h:] = -a[r, :h] if h else 0
    return a


def bytes_of(o):
    """Exact content of a library object (for before/after comparison)."""
    if isinstance(o, sp.ScalarCoefs):
        return (o.nmax, o.mmax, cvec(o).tobytes())
    if isinstance(o, sp.VectorCoefs):
        return (bytes_of(o.scoef1), bytes_of(o.scoef2), o.nmax, o.mmax)
    if isinstance(o, sp.ScalarPatternUniform):
        return (o.shape, np.array(o.doublesphere).tobytes())
    if isinstance(o, sp.TransversePatternUniform):
        d = o.doublesphere
        return (o.shape, np.array(d[0]).tobytes(), np.array(d[1]).tobytes())
    if isinstance(o, np.ndarray):
        return (o.shape, str(o.dtype), np.array(o).tobytes())
    return repr(o)


def arrays_of(o):
    """The arrays that hold an object's data (to look for shared memory)."""
    if isinstance(o, sp.ScalarCoefs):
        out = [o[:, 0]]
        if o.mmax:
            out += [o[:, o.mmax]]
        return out + ([o._vec] if isinstance(getattr(o, "_vec", None), np.ndarray) else [])
    if isinstance(o, sp.VectorCoefs):
        return arrays_of(o.scoef1) + arrays_of(o.scoef2)
    if isinstance(o, sp.ScalarPatternUniform):
        return [o.doublesphere]
    if isinstance(o, sp.TransversePatternUniform):
        return list(o.doublesphere)
    if isinstance(o, np.ndarray):
        return [o]
    return []


def share(a, b):
    return any(np.may_share_memory(x, y) and np.shares_memory(x, y) for x in arrays_of(a) for y in arrays_of(b))


def edges(n, *more):
    """range(n), or for long ranges its ends, its middle, the powers of two in it and their neighbours."""
    if n <= 24:
        return list(range(n))
    keep = set(more)
    for k in [0, n // 2, n - 1] + [2 ** i for i in range(3, 14)]:
        keep |= {k - 1, k, k + 1}
    return sorted(k for k in keep if 0 <= k < n)


# ------------------------------------------------------------------------------- data with structure
# Values with a relation between them (equal, zero, symmetric, periodic): what a shortcut would look for.
def shaped_arrays(nr, nc):
    """{name: f} with f() a (nr, nc) complex array, for every structured kind of this shape."""
    g = lambda r, q, j=0: ref.generic(r * nc + q, j)
    h = nc // 2
    base = 2.0 - 1j
    out = {"zero": lambda r, q: 0.0, "constant": lambda r, q: base, "constant one": lambda r, q: 1.0,
           "tiny constant": lambda r, q: 1e-9j,
           "zonal": lambda r, q: g(r, 0), "checkerboard in columns": lambda r, q: base * (-1) ** q,
           "checkerboard": lambda r, q: base * (-1) ** (r + q), "rows alternate": lambda r, q: base * (-1) ** r,
           "equal columns but one": lambda r, q: g(r, 0) + (1.0 if q == nc - 1 else 0.0),
           "columns only": lambda r, q: g(0, q), "separable": lambda r, q: g(0, q) * g(r, 0, 3),
           "even in z": lambda r, q: g(min(r, nr - 1 - r), q),
           "odd in z": lambda r, q: 0.0 if 2 * r == nr - 1 else g(r, q) if 2 * r < nr - 1 else -g(nr - 1 - r, q),
           "half turn even": lambda r, q: g(r, q % h), "half turn odd": lambda r, q: g(r, q % h) * (1 if q < h else -1),
           "even in phi": lambda r, q: g(r, min(q, (nc - q) % nc)),
           "odd in phi": lambda r, q: 0.0 if q in (0, h) else g(r, q) if q < h else -g(r, nc - q),
           "upper half": lambda r, q: g(r, q) if 2 * r < nr - 1 else 0.0,
           "lower half": lambda r, q: g(r, q) if 2 * r > nr - 1 else 0.0,
           "first columns": lambda r, q: g(r, q) if q < h else 0.0,
           "inner rows": lambda r, q: g(r, q) if 0 < r < nr - 1 else 0.0,
           "poles only": lambda r, q: g(r, q) if r in (0, nr - 1) else 0.0,
           "real": lambda r, q: g(r, q).real, "imaginary": lambda r, q: 1j * g(r, q).imag,
           "ripple on a constant": lambda r, q: 1.0 + 1e-10 * g(r, q), "ripple on a sample": lambda r, q: 1.0 if (r, q) == (nr // 2, h) else 1e-10 * g(r, q),
           "whole numbers": lambda r, q: float((3 * r + 5 * q) % 7 - 3), "huge range": lambda r, q: g(r, q) * 10.0 ** (-((r + 2 * q) % 9))}
    for k in range(nr):
        out["constant but row %d" % k] = lambda r, q, k=k: base + (1.0 if r == k else 0.0)
        out["row %d only" % k] = lambda r, q, k=k: g(r, q) if r == k else 0.0
    for k in range(nc):
        out["column %d only" % k] = lambda r, q, k=k: g(r, q) if q == k else 0.0
    return {name: (lambda f=f: np.array([[f(r, q) for q in range(nc)] for r in range(nr)], dtype=np.complex128))
            for name, f in out.items()}


def shaped_sets(nmax, mmax):
    """{name: {(n, m): value}} coefficient sets with structure."""
    md = ref.modes(nmax, mmax)
    d = ref.dense(nmax, mmax, 0)
    keep = lambda f: {k: v for k, v in d.items() if f(*k)}
    out = {"zero": {}, "ones": {k: 1.0 for k in md}, "constant": {k: 2.0 - 1j for k in md},
           "alternating": {(n, m): (-1.0) ** n for n, m in md},
           "zonal": keep(lambda n, m: m == 0), "not zonal": keep(lambda n, m: m != 0),
           "sectoral": keep(lambda n, m: abs(m) == n), "monopole": keep(lambda n, m: n == 0),
           "no monopole": keep(lambda n, m: n > 0),
           "m > 0": keep(lambda n, m: m > 0), "m < 0": keep(lambda n, m: m < 0), "m >= 0": keep(lambda n, m: m >= 0),
           "even n": keep(lambda n, m: n % 2 == 0), "odd n": keep(lambda n, m: n % 2 == 1),
           "even m": keep(lambda n, m: m % 2 == 0), "odd m": keep(lambda n, m: m % 2 == 1),
           "even n + m": keep(lambda n, m: (n + m) % 2 == 0), "odd n + m": keep(lambda n, m: (n + m) % 2 == 1),
           "n = nmax": keep(lambda n, m: n == nmax), "n < nmax": keep(lambda n, m: n < nmax),
           "|m| = mmax": keep(lambda n, m: abs(m) == mmax), "|m| < mmax": keep(lambda n, m: abs(m) < mmax),
           "low half": keep(lambda n, m: n <= nmax // 2),
           "real field": {(n, m): (d[n, abs(m)] if m > 0 else complex(d[n, 0].real) if m == 0 else
                                   (-1) ** m * d[n, -m].conjugate()) for n, m in md},
           "imaginary field": {(n, m): 1j * (d[n, abs(m)] if m > 0 else complex(d[n, 0].real) if m == 0 else
                                             (-1) ** m * d[n, -m].conjugate()) for n, m in md},
           "c[n,-m] = c[n,m]": {(n, m): d[n, abs(m)] for n, m in md},
           "c[n,-m] = -c[n,m]": {(n, m): 0 if m == 0 else d[n, abs(m)] * (1 if m > 0 else -1) for n, m in md},
           "depends on n": {(n, m): d[n, 0] for n, m in md},
           "real": {k: complex(v.real) for k, v in d.items()}, "imaginary": {k: 1j * v.imag for k, v in d.items()},
           "whole numbers": {k: float(i % 5 - 2) for i, k in enumerate(md)},
           "ripple on the first": {k: 1.0 if i == 0 else 1e-10 * v for i, (k, v) in enumerate(d.items())},
           "ripple on the last": {k: 1.0 if i == len(md) - 1 else 1e-10 * v for i, (k, v) in enumerate(d.items())},
           "huge range": {k: v * 10.0 ** (-2 * (i % 6)) for i, (k, v) in enumerate(d.items())}}
    for k in range(nmax + 1):
        out["n = %d" % k] = keep(lambda n, m: n == k)
        out["all but n = %d" % k] = keep(lambda n, m: n != k)
    for k in range(1, mmax + 1):
        out["|m| = %d" % k] = keep(lambda n, m: abs(m) == k)
    return out


RELATIONS = ["second zero", "first zero", "equal", "negative", "times i", "generic"]


def related(a, b, how):
    """The two components of a vector quantity built from two scalar ones (arrays or dicts)."""
    if isinstance(a, dict):
        f = lambda z: {k: z * v for k, v in a.items()}
    else:
        f = lambda z: z * a
    return {"second zero": (a, f(0)), "first zero": (f(0), a), "equal": (a, f(1)), "negative": (a, f(-1)),
            "times i": (a, f(1j)), "generic": (a, b)}[how]
