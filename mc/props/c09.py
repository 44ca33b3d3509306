"""C09 arithmetic of patt objects."""
from mc import lib, arith
ID = "C09"
LEVEL = "model_checking"
RULE = ("one execution = one operator application with one choice of operand kinds, shapes, order, number and magnitude, or one "
        "sequence of operations on shared objects; every value of the result, of the operands and of every object made "
        "before is compared with plain arrays, and memory sharing is checked")
BOUNDS = {"quick": "nrows 2..7, ncols 2..10 and all pairs of different shapes; four large shapes up to 300 rows or 514 columns; structured operands (zero, equal, negative, constant, symmetric) on small shapes; sequences: depth 3 on two shapes, both kinds",
          "thorough": "nrows 2..10, ncols 2..16 and all pairs of different shapes; seven large shapes up to 1030 rows or 4098 columns; structured operands (zero, equal, negative, constant, symmetric) on small shapes; sequences: depth 4 on one shape and depth 3 on another, both kinds"}
ASSUMPTIONS = ["where the exact result is not finite (division by a zero value), the result must not be finite either; which of nan and the infinities is left open",
               "numpy arrays as the left operand and number types without complex arithmetic (Decimal, Fraction) are not explored",
               "products and quotients of transverse patterns, and their sums with numbers, are compared on the single sphere only"]


def setup(tier):
    lib.setup()


def units(tier):
    return arith.units("patt", tier)


cost = arith.cost
run = arith.run
