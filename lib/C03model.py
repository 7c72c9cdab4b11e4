"""Small integer model shared by checks."""
from values import s64


def f(op, a, b):
    if op == "+":
        return s64(a + b)
    if op == "-":
        return s64(a - b)
    if op == "*":
        return s64(a * b)
    if op == "bit-and":
        return a & b
    if op == "rem":
        q = abs(a) // abs(b)
        q = q if (a < 0) == (b < 0) else -q
        return a - b * q
    raise ValueError(op)
