#!/usr/bin/env python3
"""setup: check that the interpreter and the compiler the checks need are there, and that the reference
model agrees with itself (orthonormality of Ynm and Xnm by quadrature, known values)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import boot
boot.reexec()
import numpy as np
from mc import ref
x, w = ref.gauss(24)
L = ref.Leg(x, np.sqrt(1 - x * x), 12, 12)
for m in range(-10, 11):
    for a in range(abs(m), 11):
        for b in range(abs(m), 11):
            v = 2 * ref.PI * np.sum(w * L(a, m) * L(b, m))
            assert abs(v - (a == b)) < 1e-15, (a, b, m, v)
c, s = ref.cossin(7)
L = ref.Leg(c, s, 3, 3)
P = ref.PI
for got, want in ((L(0, 0), np.sqrt(1 / (4 * P)) + 0 * c), (L(1, 0), np.sqrt(3 / (4 * P)) * c), (L(1, 1), -np.sqrt(3 / (8 * P)) * s),
                  (L(1, -1), np.sqrt(3 / (8 * P)) * s), (L(2, 1), -np.sqrt(15 / (8 * P)) * s * c), (L(2, 2), np.sqrt(15 / (32 * P)) * s * s),
                  (L(3, -2), np.sqrt(105 / (32 * P)) * c * s * s), (L(3, 3), -np.sqrt(35 / (64 * P)) * s ** 3)):
    assert np.max(np.abs(got - want)) < 1e-16, (got, want)
# Bessel functions: known values, cross products and the addition theorem sum (2n+1) j_n^2 = 1
import math
from decimal import Decimal as D
from mc import bessel
for x in (1e-3, 0.5, 1.0, math.pi, 4.493409457909064, 25.0, 100.5):
    j, y = bessel.jy(x, 160)
    for n in range(100):
        w = bessel.CTX.subtract(j[n + 1] * y[n], j[n] * y[n + 1]) * D(x) * D(x)
        assert abs(w - 1) < D("1e-25"), (x, n, w)
    assert abs(sum((2 * n + 1) * j[n] * j[n] for n in range(160)) - 1) < D("1e-25"), x
    assert abs(float(j[0]) - math.sin(x) / x) < 1e-16 and abs(float(y[0]) + math.cos(x) / x) <= 1e-15 * abs(float(y[0])), x


# the explorer visits every choice vector once, and reports the one that violates
from mc import engine


class Toy(object):
    ID = "toy"
    seen = []

    @staticmethod
    def run(ctx, u):
        a = ctx.choose("a", [0, 1, 2])
        b = ctx.choose("b", list(range(a + 1)))
        Toy.seen.append((a, b))
        ctx.check((a, b) != (2, u), "bad")


for u, n in ((9, 6), (1, 5)):
    Toy.seen = []
    ctx = engine.Ctx()
    r = engine.explore_unit(Toy, ctx, u)
    assert len(set(Toy.seen)) == len(Toy.seen) == n, Toy.seen
    assert bool(r) == (u == 1), r

# the scheduler finds every outcome of two unprotected increments
import tempfile
from mc import sched
d = tempfile.mkdtemp(prefix="selftest_")
try:
    with open(d + "/toy.py", "w") as f:
        f.write("x = 0\ndef inc():\n    global x\n    t = x\n    x = t + 1\n    return t\n")
    mod = {}
    exec(compile(open(d + "/toy.py").read(), d + "/toy.py", "exec"), mod)
    got = set()
    for k in range(5):
        mod["x"] = 0
        r = sched.Run([mod["inc"]] * 2, [k], d).run()
        got.add((mod["x"], r[0][1], r[1][1]))
    assert got == {(2, 0, 1), (2, 1, 0), (1, 0, 0)}, got
finally:
    os.remove(d + "/toy.py")
    os.rmdir(d)
boot.load()
print("ok")
