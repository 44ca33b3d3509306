"""Reference spherical Bessel functions in 80-digit decimal arithmetic (no code of spherepy is used)."""
import decimal
from decimal import Decimal as D

CTX = decimal.Context(prec=80, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[decimal.DivisionByZero, decimal.InvalidOperation])
PI = D("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651328230664709")


def _series(t, sine):
    """sin(t)/t or cos(t) for |t| <= pi"""
    q = CTX.multiply(t, t)
    term = s = D(1)
    k = 1 if sine else 0
    while True:
        term = CTX.divide(CTX.multiply(-term, q), D((k + 1) * (k + 2)))
        k += 2
        s2 = CTX.add(s, term)
        if s2 == s:
            return s
        s = s2


def sincos(x):
    """sin and cos of a decimal 0 < x < 1e30"""
    k = int(CTX.divide(x, 2 * PI).to_integral_value())
    t = CTX.subtract(x, CTX.multiply(D(2 * k), PI)) if k else x
    return CTX.multiply(t, _series(t, True)), _series(t, False)


def jy(x, N):
    """([j_0..j_{N-1}], [y_0..y_{N-1}]) as decimals for the double x > 0"""
    x = D(float(x))
    s, c = sincos(x)
    j0 = CTX.divide(s, x)
    y = [CTX.divide(-c, x)]
    y.append(CTX.divide(CTX.subtract(y[0], s), x))
    inv = CTX.divide(D(1), x)
    for n in range(2, N):
        y.append(CTX.subtract(CTX.multiply(CTX.multiply(D(2 * n - 1), inv), y[-1]), y[-2]))
    # downward recurrence from far above, normalised with the cross product j1*y0 - j0*y1 = 1/x^2
    top = max(N, int(x) + int(25 * float(x) ** 0.34)) + 60
    a, b = D(0), D("1e-100000")
    out = {}
    for n in range(top, 0, -1):
        a, b = b, CTX.subtract(CTX.multiply(CTX.multiply(D(2 * n + 1), inv), b), a)
        if n - 1 < max(N, 2):
            out[n - 1] = b
    w = CTX.subtract(CTX.multiply(out[1], y[0]), CTX.multiply(out[0], y[1]))
    f = CTX.divide(CTX.multiply(inv, inv), w)
    return [CTX.multiply(out[n], f) for n in range(N)], y[:N]
