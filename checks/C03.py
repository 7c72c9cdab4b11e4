"""Integer arithmetic: every operation on every pair of edge integers, in every
way a program can apply it, against exact (Python) integers reduced to 64 bits."""
from common import *

ck = Check("C03", "model_checking")


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def trem(a, b):
    return a - b * tdiv(a, b)


def ipow(a, b):
    if b < 0:
        if a == 0:
            return EXC
        return 1 if a == 1 else 0 if a != -1 else (-1 if b & 1 else 1)
    return pow(a, b, 1 << 64)


def sh(a, b, left):
    if b < 0 or b > 63:
        return 0
    return (a << b) if left else ((a & (1 << 64) - 1) >> b)


U = (1 << 64) - 1
BIN = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "add/int": lambda a, b: a + b, "sub/int": lambda a, b: a - b, "mul/int": lambda a, b: a * b,
    "div/int": lambda a, b: EXC if b == 0 else tdiv(a, b),
    "mod/int": lambda a, b: EXC if b == 0 else trem(a, b),
    "rem": lambda a, b: EXC if b == 0 else trem(a, b),
    "pow": ipow,
    "bit-and": lambda a, b: a & b, "bit-or": lambda a, b: a | b, "bit-xor": lambda a, b: a ^ b,
    "bit-shift-left": lambda a, b: sh(a, b, True), "bit-shift-right": lambda a, b: sh(a, b, False),
    "min": min, "max": max,
}
UN = {
    "-": lambda a: -a, "+": lambda a: a, "bit-not": lambda a: ~a, "popcount": lambda a: bin(a & U).count("1"), "abs": abs,
    "inc/int": lambda a: a + 1, "inc": lambda a: a + 1, "dec": lambda a: a - 1,
    "odd?": lambda a: a % 2 == 1, "even?": lambda a: a % 2 == 0, "zero?": lambda a: a == 0, "neg?": lambda a: a < 0,
    "zero-neg?": lambda a: a <= 0, "not-zero?": lambda a: a != 0, "int": lambda a: a,
}
BITPOS = {
    "bit-test?": lambda v, p: (v >> p) & 1 == 1, "bit-set": lambda v, p: v | (1 << p),
    "bit-flip": lambda v, p: v ^ (1 << p), "bit-clear": lambda v, p: v & ~(1 << p),
}


def exp(v):
    return v if callable(v) else canon(v)


def binary(ints, ops=BIN):
    for a in ints:
        for b in ints:
            for op, f in ops.items():
                e = exp(f(a, b))
                for m in modes(op, [lit(a), lit(b)]).values():
                    yield m, e


def unary(ints):
    for a in ints:
        for op, f in UN.items():
            for m in modes(op, [lit(a)]).values():
                yield m, exp(f(a))


def bits(vals):
    for a in vals:
        for p in range(64):
            for op, f in BITPOS.items():
                yield "(%s %s %d)" % (op, lit(a), p), exp(f(a, p))


def nary(ints):
    for a in ints:
        for b in ints:
            for c in ints:
                for op in ("+", "-", "*", "bit-or", "bit-and", "bit-xor"):
                    e = canon(BIN[op](BIN[op](a, b), c))
                    yield "(%s %s %s %s)" % (op, lit(a), lit(b), lit(c)), e
                    yield "(let* (def a %s) (def b %s) (def c %s) (%s a b c))" % (lit(a), lit(b), lit(c), op), e


def pairs(aa, bb, ops):
    for a in aa:
        for b in bb:
            for op in ops:
                for m in modes(op, [lit(a), lit(b)]).values():
                    yield m, exp(BIN[op](a, b))


ALL = sorted(set(INTS) | set(s64((1 << k) + d) for k in range(64) for d in (-1, 0, 1)) | set(-(1 << k) + d for k in range(1, 63) for d in (-1, 0, 1)))
if ck.thorough:
    ck.cases("binary operations", binary(ALL), chunk=8000)
    ck.cases("unary operations", unary(ALL))
    ck.cases("bit positions", bits(ALL))
    ck.cases("three operands", nary(sorted(set(INTS_SMALL) | {5, -64, 1 << 62})))
else:
    ck.cases("binary operations", binary(INTS), chunk=8000)
    ck.cases("unary operations", unary(ALL))
    ck.cases("bit positions", bits(INTS_SMALL))
    ck.cases("three operands", nary(INTS_SMALL[::2]))
ck.cases("shifts by every amount", pairs(INTS_SMALL, range(-3, 70), ["bit-shift-left", "bit-shift-right"]))
ck.cases("powers", pairs([-10, -3, -2, -1, 0, 1, 2, 3, 10, I64MAX, I64MIN], range(-3, 70), ["pow"]))
ck.cases("small operands", binary(range(-9, 10), {k: BIN[k] for k in ("+", "-", "*", "div/int", "mod/int", "rem", "min", "max")}))
ck.assumptions = ["integers of the model are exact and reduced modulo 2^64; division truncates; shifts are logical and leave 0 for amounts outside 0..63"]
ck.finish()
