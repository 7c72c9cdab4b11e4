"""Edge values and how to write them as Nujel source."""
import math, struct

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1

INTS = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, -10, 16, 62, 63, 64, 65, -63, -64, 100, 127, 128, -128, -129, 255, 256, -256,
        32767, 32768, -32768, -32769, 65535, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
        (1 << 53) - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 3037000499, 3037000500, 1 << 62, -(1 << 62), I64MAX - 1, I64MAX, I64MIN, I64MIN + 1,
        0x0123456789ABCDEF, -0x0123456789ABCDEF]
INTS_SMALL = [0, 1, -1, 2, 3, -7, 63, 64, 255, 1 << 31, -(1 << 31), 1 << 32, (1 << 53) + 1, I64MAX, I64MIN, I64MIN + 1]

FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, 2.0, 3.0, -3.0, 0.1, 0.2, 0.3, 1 / 3, 7.25, -7.25, 10.0, 100.125, 1e-5, 1e10, -1e10, 123456.789,
          2147483647.0, 2147483648.5, 4294967296.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 4503599627370495.5,
          9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709551616.0,
          1e100, -1e100, 1e-100, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -5e-324, math.pi, 0.49999999999999994]


def s64(n):
    n &= (1 << 64) - 1
    return n - (1 << 64) if n >> 63 else n


def lit_float_bits(x):
    return "(ref (:f64 #m%s #t) 0)" % struct.pack("<d", x).hex().upper()


def lit(v):
    """source text that evaluates to v (atoms)"""
    if v is None:
        return "#nil"
    if v is True:
        return "#t"
    if v is False:
        return "#f"
    if isinstance(v, int):
        # decimal literals have up to 18 digits
        return str(v) if abs(v) < 10 ** 18 else "#x%016X" % (v & (1 << 64) - 1)
    if isinstance(v, float):
        s = repr(v)
        if "e" in s or "n" in s or v == 0 and math.copysign(1, v) < 0:
            return lit_float_bits(v)
        return s
    raise TypeError(v)
