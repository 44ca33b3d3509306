"""Independent reference model of the spherical harmonic transforms (no code of spherepy is used).

Ynm(theta, phi) = Pbar_nm(cos theta) e^{i m phi}, orthonormal on the sphere, Condon-Shortley phase.
Everything is computed in long double from stable recurrences and explicit sums.
"""
import functools
import numpy as np

LD = np.longdouble
CLD = np.clongdouble
PI = LD("3.14159265358979323846264338327950288419716939937510582")


def modes(nmax, mmax):
    """(n, m) in the order of the stored vector: m = 0, -1, 1, -2, 2, ..., n ascending."""
    out = [(n, 0) for n in range(nmax + 1)]
    for m in range(1, mmax + 1):
        out += [(n, -m) for n in range(m, nmax + 1)]
        out += [(n, m) for n in range(m, nmax + 1)]
    return out


def ncoef(nmax, mmax):
    return sum(2 * min(n, mmax) + 1 for n in range(nmax + 1))


def legendre(x, s, nmax, mmax):
    """P[m][n] (m >= 0) = Pbar_nm at cos = x, sin = s (arrays of long double)."""
    P = {}
    pmm = np.full(x.shape, 1 / np.sqrt(4 * PI), dtype=LD)
    for m in range(0, mmax + 1):
        if m > 0:
            pmm = -np.sqrt(LD(2 * m + 1) / LD(2 * m)) * s * pmm
        rows = {}
        rows[m] = pmm
        if nmax > m:
            rows[m + 1] = np.sqrt(LD(2 * m + 3)) * x * pmm
        for n in range(m + 2, nmax + 1):
            a = np.sqrt(LD(4 * n * n - 1) / LD(n * n - m * m))
            b = np.sqrt(LD((n - 1) ** 2 - m * m) / LD(4 * (n - 1) ** 2 - 1))
            rows[n] = a * (x * rows[n - 1] - b * rows[n - 2])
        P[m] = rows
    return P


class Leg(object):
    """Pbar_nm for all signs of m, zero outside of the triangle."""

    def __init__(self, x, s, nmax, mmax):
        self.P = legendre(x, s, nmax, min(mmax, nmax))
        self.zero = np.zeros(x.shape, dtype=LD)

    def __call__(self, n, m):
        a = abs(m)
        if n < 0 or a > n or a not in self.P:
            return self.zero
        p = self.P[a][n]
        return -p if (m < 0 and a % 2) else p


def dpdtheta(L, n, m):
    """d/dtheta Pbar_nm, no division by sin(theta)."""
    return (np.sqrt(LD((n - m) * (n + m + 1))) * L(n, m + 1) - np.sqrt(LD((n + m) * (n - m + 1))) * L(n, m - 1)) / 2


def mp_over_sin(L, n, m):
    """m * Pbar_nm / sin(theta), finite at the poles."""
    if n == 0 or m == 0:
        return L.zero
    f = np.sqrt(LD(2 * n + 1) / LD(2 * n - 1)) / 2
    return -f * (np.sqrt(LD((n - m) * (n - m - 1))) * L(n - 1, m + 1) + np.sqrt(LD((n + m) * (n + m - 1))) * L(n - 1, m - 1))


def cossin(nrows):
    """cos and sin of pi*k/(nrows-1), exact at 0, pi/2, pi."""
    N = nrows - 1
    c, s = [], []
    for k in range(nrows):
        if 2 * k <= N:
            t = PI * k / N
            if 4 * k <= N:
                c.append(np.cos(t)); s.append(np.sin(t))
            else:
                u = PI * (N - 2 * k) / (2 * N)
                c.append(np.sin(u)); s.append(np.cos(u))
        else:
            kk = N - k
            t = PI * kk / N
            if 4 * kk <= N:
                c.append(-np.cos(t)); s.append(np.sin(t))
            else:
                u = PI * (N - 2 * kk) / (2 * N)
                c.append(-np.sin(u)); s.append(np.cos(u))
    return np.array(c, dtype=LD), np.array(s, dtype=LD)


def roots(ncols):
    """e^{2 pi i k/ncols}"""
    k = np.arange(ncols)
    t = 2 * PI * k.astype(LD) / ncols
    r = np.cos(t) + 1j * np.sin(t)
    if ncols % 4 == 0:
        r[ncols // 4] = 1j; r[3 * ncols // 4] = -1j
    if ncols % 2 == 0:
        r[ncols // 2] = -1
    r[0] = 1
    return r


@functools.lru_cache(maxsize=4)
def theta_basis(nrows, nmax, mmax):
    c, s = cossin(nrows)
    return Leg(c, s, nmax, min(nmax, mmax + 1))


@functools.lru_cache(maxsize=4)
def scalar_theta(nrows, nmax, mmax):
    L = theta_basis(nrows, nmax, mmax)
    return {(n, m): L(n, m) for n, m in modes(nmax, mmax)}


@functools.lru_cache(maxsize=4)
def vector_theta(nrows, nmax, mmax):
    """(T, P) such that X_theta = T e^{im phi}, X_phi = P e^{im phi} (complex)."""
    L = theta_basis(nrows, nmax, mmax)
    out = {}
    for n, m in modes(nmax, mmax):
        if n == 0:
            out[n, m] = (L.zero + 0j, L.zero + 0j)
            continue
        q = 1 / np.sqrt(LD(n * (n + 1)))
        # L = -i r x grad:  L_theta = (i/sin) d/dphi, L_phi = -i d/dtheta
        out[n, m] = (-mp_over_sin(L, n, m) * q + 0j, -1j * dpdtheta(L, n, m) * q)
    return out


def _columns(x, s, nmax, top):
    """Yield (m, {n: Pbar_nm}) for m = 0..top one at a time (little memory)."""
    pmm = np.full(x.shape, 1 / np.sqrt(4 * PI), dtype=LD)
    for m in range(0, top + 1):
        if m > 0:
            pmm = -np.sqrt(LD(2 * m + 1) / LD(2 * m)) * s * pmm
        rows = {m: pmm}
        if nmax > m:
            rows[m + 1] = np.sqrt(LD(2 * m + 3)) * x * pmm
        for n in range(m + 2, nmax + 1):
            a = np.sqrt(LD(4 * n * n - 1) / LD(n * n - m * m))
            b = np.sqrt(LD((n - 1) ** 2 - m * m) / LD(4 * (n - 1) ** 2 - 1))
            rows[n] = a * (x * rows[n - 1] - b * rows[n - 2])
        yield m, rows


def synth_big(vals, nmax, mmax, nrows, ncols):
    c, s = cossin(nrows)
    r = roots(ncols)
    col = np.arange(ncols)
    out = np.zeros((nrows, ncols), dtype=CLD)
    for m, rows in _columns(c, s, nmax, mmax):
        for mm in ((m, -m) if m else (0,)):
            sg = -1 if mm < 0 and m % 2 else 1
            g = np.zeros(nrows, dtype=CLD)
            for n in range(m, nmax + 1):
                g += CLD(sg * vals.get((n, mm), 0)) * rows[n]
            out += g[:, None] * r[(mm * col) % ncols][None, :]
    return out


def vsynth_big(v1, v2, nmax, mmax, nrows, ncols):
    c, s = cossin(nrows)
    r = roots(ncols)
    col = np.arange(ncols)
    ft = np.zeros((nrows, ncols), dtype=CLD)
    fp = np.zeros((nrows, ncols), dtype=CLD)
    L = Leg.__new__(Leg)
    L.P = {}
    L.zero = np.zeros(nrows, dtype=LD)

    def one(m):
        for mm in ((m, -m) if m else (0,)):
            gt = np.zeros(nrows, dtype=CLD)
            gp = np.zeros(nrows, dtype=CLD)
            for n in range(max(1, m), nmax + 1):
                x1, x2 = CLD(v1.get((n, mm), 0)), CLD(v2.get((n, mm), 0))
                q = 1 / np.sqrt(LD(n * (n + 1)))
                T = -mp_over_sin(L, n, mm) * q
                P = -1j * dpdtheta(L, n, mm) * q
                gt += x1 * T - 1j * x2 * P
                gp += x1 * P + 1j * x2 * T
            e = r[(mm * col) % ncols][None, :]
            ft[...] += gt[:, None] * e
            fp[...] += gp[:, None] * e

    for m, rows in _columns(c, s, nmax, min(nmax, mmax + 1)):
        L.P[m] = rows
        if m >= 1 and m - 1 <= mmax:
            one(m - 1)
        L.P.pop(m - 2, None)
    if mmax == nmax:
        one(mmax)
    return ft, fp


def synth(vals, nmax, mmax, nrows, ncols):
    """Scalar pattern of the coefficients vals {(n,m): value} on the grid (long double complex)."""
    if nmax > 30:
        return synth_big(vals, nmax, mmax, nrows, ncols)
    B = scalar_theta(nrows, nmax, mmax)
    r = roots(ncols)
    col = np.arange(ncols)
    out = np.zeros((nrows, ncols), dtype=CLD)
    by = {}
    for (n, m), v in vals.items():
        if v != 0:
            by.setdefault(m, []).append((n, v))
    for m, lst in by.items():
        g = np.zeros(nrows, dtype=CLD)
        for n, v in lst:
            g = g + CLD(v) * B[n, m]
        out += g[:, None] * r[(m * col) % ncols][None, :]
    return out


def vsynth(v1, v2, nmax, mmax, nrows, ncols):
    """F_theta, F_phi of  sum a1 X + a2 (i rhat x X);  rhat x X = (-X_phi, X_theta)."""
    if nmax > 30:
        return vsynth_big(v1, v2, nmax, mmax, nrows, ncols)
    B = vector_theta(nrows, nmax, mmax)
    r = roots(ncols)
    col = np.arange(ncols)
    ft = np.zeros((nrows, ncols), dtype=CLD)
    fp = np.zeros((nrows, ncols), dtype=CLD)
    by = {}
    for k, v in ((0, v1), (1, v2)):
        for (n, m), x in v.items():
            if x != 0 and n > 0:
                by.setdefault(m, []).append((k, n, x))
    for m, lst in by.items():
        gt = np.zeros(nrows, dtype=CLD)
        gp = np.zeros(nrows, dtype=CLD)
        for k, n, x in lst:
            T, P = B[n, m]
            x = CLD(x)
            if k == 0:
                gt = gt + x * T; gp = gp + x * P
            else:
                gt = gt - 1j * x * P; gp = gp + 1j * x * T
        e = r[(m * col) % ncols][None, :]
        ft += gt[:, None] * e
        fp += gp[:, None] * e
    return ft, fp


def double(a, sym):
    """Continuation of single sphere samples over the double sphere."""
    nrows, ncols = a.shape
    h = ncols // 2
    back = sym * np.roll(a[nrows - 2:0:-1], h, axis=1)
    d = np.concatenate([a, back]) if nrows > 2 else np.array(a)
    return d


# ------------------------------------------------------------------------------- analysis
@functools.lru_cache(maxsize=16)
def gauss(npts):
    """Gauss-Legendre nodes and weights in long double (Newton on the Legendre recurrence)."""
    x0, _ = np.polynomial.legendre.leggauss(npts)
    x = x0.astype(LD)
    for _ in range(4):
        p0 = np.ones_like(x); p1 = x.copy()
        if npts == 1:
            p1 = x
        for k in range(2, npts + 1):
            p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        dp = npts * (x * p1 - p0) / (x * x - 1) if npts > 1 else np.ones_like(x)
        x = x - p1 / dp
    p0 = np.ones_like(x); p1 = x.copy()
    for k in range(2, npts + 1):
        p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
    dp = npts * (x * p1 - p0) / (x * x - 1) if npts > 1 else np.ones_like(x)
    w = 2 / ((1 - x * x) * dp * dp)
    return x, w


@functools.lru_cache(maxsize=4)
def _fourier_theta(nrows, npts):
    """Matrix from double-sphere samples in theta to the interpolant (highest frequency dropped)
    at the Gauss nodes."""
    D = 2 * nrows - 2
    x, w = gauss(npts)
    th = np.arccos(x)
    M = nrows - 1
    nus = np.arange(-(M - 1), M)
    r = roots(D)
    k = np.arange(D)
    A = r[(-np.outer(nus, k)) % D] / D                      # nu x k
    E = np.exp(1j * np.outer(th, nus.astype(LD)))           # node x nu
    return E.dot(A)                                         # node x k


def fourier_phi(d, m):
    ncols = d.shape[1]
    r = roots(ncols)
    return d.astype(CLD).dot(r[(-m * np.arange(ncols)) % ncols]) / ncols


@functools.lru_cache(maxsize=128)
def scalar_functional(nrows, nmax, m):
    """G[n-|m|, k]: c[n,m] = sum_k G * (m-th phi Fourier coefficient of double-sphere row k)."""
    npts = max(2, (nrows + nmax) // 2 + 2)
    x, w = gauss(npts)
    L = Leg(x, np.sqrt(1 - x * x), nmax, abs(m))
    T = _fourier_theta(nrows, npts)
    a = abs(m)
    rows = [(2 * PI) * (w * L(n, m)).dot(T) for n in range(a, nmax + 1)]
    return np.array(rows)


def analysis(d, nmax, mmax):
    """Coefficients {(n,m)} of the double-sphere data d (exact integration of the interpolant)."""
    nrows = d.shape[0] // 2 + 1
    out = {}
    for m in range(-mmax, mmax + 1):
        v = scalar_functional(nrows, nmax, m).dot(fourier_phi(d, m))
        for i, n in enumerate(range(abs(m), nmax + 1)):
            out[n, m] = v[i]
    return out


@functools.lru_cache(maxsize=128)
def vector_functional(nrows, nmax, m):
    """GT, GP with a1[n,m] = GT.ft_m + GP.fp_m and a2 likewise (HT, HP)."""
    npts = max(2, (nrows + nmax) // 2 + 3)
    x, w = gauss(npts)
    L = Leg(x, np.sqrt(1 - x * x), nmax, abs(m) + 1)
    T = _fourier_theta(nrows, npts)
    gt, gp, ht, hp = [], [], [], []
    for n in range(max(1, abs(m)), nmax + 1):
        q = 1 / np.sqrt(LD(n * (n + 1)))
        XT = -mp_over_sin(L, n, m) * q + 0j
        XP = -1j * dpdtheta(L, n, m) * q
        # i rhat x X = (-i XP, i XT)
        gt.append(2 * PI * (w * XT.conj()).dot(T)); gp.append(2 * PI * (w * XP.conj()).dot(T))
        ht.append(2 * PI * (w * (-1j * XP).conj()).dot(T)); hp.append(2 * PI * (w * (1j * XT).conj()).dot(T))
    return [np.array(z) for z in (gt, gp, ht, hp)]


def vanalysis(dt, dp, nmax, mmax):
    nrows = dt.shape[0] // 2 + 1
    a1, a2 = {(0, 0): 0}, {(0, 0): 0}
    for m in range(-mmax, mmax + 1):
        if nmax < 1:
            break
        gt, gp, ht, hp = vector_functional(nrows, nmax, m)
        t = fourier_phi(dt, m); p = fourier_phi(dp, m)
        u = gt.dot(t) + gp.dot(p); v = ht.dot(t) + hp.dot(p)
        for i, n in enumerate(range(max(1, abs(m)), nmax + 1)):
            a1[n, m] = u[i]; a2[n, m] = v[i]
    return a1, a2


# ------------------------------------------------------------------------------- data
def generic(k, j=0):
    """A deterministic value of generic position (golden-ratio lattice), |value| <~ 1.5."""
    a = ((k + 1) * 0.6180339887498949 + j * 0.7548776662466927) % 1.0
    b = ((k + 1) * 0.5698402909980532 + j * 0.3247179572447461) % 1.0
    return complex(2 * a - 1, 2 * b - 1)


def dense(nmax, mmax, j=0, kind="complex"):
    out = {}
    for k, nm in enumerate(modes(nmax, mmax)):
        v = generic(k, j)
        out[nm] = complex(v.real, 0) if kind == "real" else complex(0, v.imag) if kind == "imag" else v
    return out
