"""C08 arithmetic of coef objects."""
from mc import lib, arith
ID = "C08"
LEVEL = "model_checking"
RULE = ("one execution = one operator application with one choice of operand kinds, shapes, order, number and magnitude, or one "
        "sequence of operations on shared objects; every value of the result, of the operands and of every object made "
        "before is compared with plain arrays, and memory sharing is checked")
BOUNDS = {"quick": "all shapes nmax<=7 and all pairs of different shapes; three large sizes up to nmax 300; structured operands (zero, equal, negative, constant, symmetric) on small shapes; sequences: depth 3 on two shapes, both kinds",
          "thorough": "all shapes nmax<=11 and all pairs of different shapes; five large sizes up to nmax 1030; structured operands (zero, equal, negative, constant, symmetric) on small shapes; sequences: depth 4 on one shape and depth 3 on another, both kinds"}
ASSUMPTIONS = ["where the exact result is not finite (division by a zero value), the result must not be finite either; which of nan and the infinities is left open",
               "numpy arrays as the left operand and number types without complex arithmetic (Decimal, Fraction) are not explored"]


def setup(tier):
    lib.setup()


def units(tier):
    return arith.units("coef", tier)


cost = arith.cost
run = arith.run
