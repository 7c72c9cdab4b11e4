"""Floating-point arithmetic: every operation on every pair of edge numbers
(ints and floats mixed) against IEEE doubles of Python; a result that is not a
finite number has to be an exception."""
from common import *
import math

ck = Check("C04", "model_checking")


def fin(f):
    def g(*a):
        try:
            r = f(*[float(x) for x in a])
        except ValueError:
            return EXC          # C would give NaN (or an infinity: pow(0, -1))
        except OverflowError:
            return EXC
        if isinstance(r, complex) or r != r or r in (math.inf, -math.inf):
            return EXC
        return canon(float(r))
    return g


def div(a, b):
    if b == 0:
        raise ValueError
    return a / b


def fmod(a, b):
    if b == 0:
        raise ValueError
    return math.fmod(a, b)


def rnd(x):
    if abs(x) >= 2.0 ** 52:
        return x
    f = math.floor(abs(x))
    r = f + 1 if abs(x) - f >= 0.5 else f
    return math.copysign(float(r), x)


def flo(x):
    return x if abs(x) >= 2.0 ** 52 else math.copysign(float(math.floor(x)), x) if math.floor(x) == 0 else float(math.floor(x))


def cei(x):
    return x if abs(x) >= 2.0 ** 52 else math.copysign(float(math.ceil(x)), x) if math.ceil(x) == 0 else float(math.ceil(x))


BIN = {"+": fin(lambda a, b: a + b), "-": fin(lambda a, b: a - b), "*": fin(lambda a, b: a * b), "/": fin(div), "rem": fin(fmod), "pow": fin(math.pow), "atan2": fin(math.atan2)}
ANYNUM = {"sqrt": fin(math.sqrt), "cbrt": fin(math.cbrt), "float": fin(float)}
PRED = {"zero?": lambda a: a == 0, "not-zero?": lambda a: a != 0, "pos?": lambda a: a >= 0, "neg?": lambda a: a < 0, "zero-neg?": lambda a: a <= 0}
FLOATONLY = {"floor": fin(flo), "ceil": fin(cei), "round": fin(rnd), "sin": fin(math.sin), "cos": fin(math.cos), "tan": fin(math.tan), "abs": fin(abs), "-": fin(lambda a: -a)}


def toint(x):
    if x >= 2.0 ** 63 or x < -2.0 ** 63:
        return EXC
    return canon(int(x))


def near(e, got):
    """libm is allowed the last bits"""
    if not got.startswith("d"):
        return False
    a, = struct.unpack(">d", bytes.fromhex(e[1:]))
    b, = struct.unpack(">d", bytes.fromhex(got[1:]))
    return a == b or abs(a - b) <= 4e-16 * max(abs(a), abs(b)) or abs(a - b) <= 1e-323


def approx(e):
    if not isinstance(e, str):
        return e
    f = lambda got: near(e, got)
    f.text = e + " up to the last bit"
    return f


LIBM = {"pow", "atan2", "cbrt", "sin", "cos", "tan"}


def binary(vals):
    for a in vals:
        for b in vals:
            isf = isinstance(a, float) or isinstance(b, float)
            for op, f in BIN.items():
                if not isf and op not in ("/", "atan2"):
                    continue
                e = f(a, b)
                if op in LIBM:
                    e = approx(e)
                for m in modes(op, [lit(a), lit(b)]).values():
                    yield m, e


def unary(vals):
    for a in vals:
        for op, f in list(ANYNUM.items()) + (list(FLOATONLY.items()) if isinstance(a, float) else []):
            e = f(a)
            if op in LIBM:
                e = approx(e)
            for m in modes(op, [lit(a)]).values():
                yield m, e
        if isinstance(a, float):
            for m in modes("int", [lit(a)]).values():
                yield m, toint(a)
        for op, f in PRED.items():
            for m in modes(op, [lit(a)]).values():
                yield m, canon(f(a))
        for op, f in (("inc", lambda a: a + 1.0), ("dec", lambda a: a - 1.0)):
            if isinstance(a, float):
                for m in modes(op, [lit(a)]).values():
                    yield m, fin(f)(a)


def specials():
    # whatever the bits of a double, what is read from memory is a number or an exception
    for x in (math.inf, -math.inf, math.nan):
        yield "(:type-of (ref (:f64 #m%s #t) 0))" % struct.pack("<d", x).hex().upper(), EXC
        yield "(:type-of (ref (:f32 #m%s #t) 0))" % struct.pack("<f", x).hex().upper(), EXC


NUMS = FLOATS + [0, 1, -1, 2, 3, -7, 16777217, -123456789, 1234567890123, (1 << 53) - 1, 0x123456789ABCDEF, 1 << 53, (1 << 53) + 1, 1 << 62, -(1 << 62), 3 << 61, I64MAX, I64MIN, 4611686018427387904.0, -4611686018427387904.0, 6917529027641081856.0, -6917529027641081856.0]
extra = []
if ck.thorough:
    for m in (1.0, 1.25, 1.9999999999999998):
        for e in range(-1074, 1024, 61):
            try:
                extra += [math.ldexp(m, e), -math.ldexp(m, e)]
            except OverflowError:
                pass
    NUMS = NUMS + INTS[3::4] + sorted(set(extra))
quarters = [k / 4 for k in range(-13, 14)]
ck.cases("binary operations", binary(NUMS), chunk=8000)
ck.cases("quarters", binary(quarters if not ck.thorough else [k / 4 for k in range(-25, 26)]), chunk=8000)
# integers that a double can't hold, close to halfway between two that it can
close = sorted({sg * v for e in range(53, 63) for d in range(2, e - 50) for v in [(1 << e) + (1 << (e - 53)) + o for o in (-1, 0, 1)] + [(3 << (e - 1)) + (3 << max(0, e - 54)) + o for o in (-1, 0, 1)] + [(1 << e) + k for k in (1, 2, 3, 5, 6, 7)] for sg in (1, -1) if v < 1 << 63} | {I64MAX, I64MAX - 1, I64MAX - 511, I64MAX - 512, I64MAX - 513, I64MAX - 1023, I64MAX - 1024, I64MIN, I64MIN + 1, I64MIN + 511, I64MIN + 512, I64MIN + 513})
ck.cases("integers no double can hold", unary(close))
ck.cases("unary operations", unary(sorted(set(NUMS + quarters + [k + d for k in (1e6, 4503599627370495.0) for d in (0.25, 0.5, 0.75)]), key=repr)))
ck.cases("numbers from memory", specials())
ck.assumptions = ["Python's floats are the reference for IEEE doubles; for pow, cbrt and the trigonometric functions the last bits may differ"]
ck.finish()
