"""Numbers as text.  Integers around every power of two and ten, floats of every
exponent with mantissas of every kind, all multiples of small fractions: the text
is the exact decimal (six digits, rounded) of the number, in every base the digits
of its 64 bits, and reading it gives the number back."""
from common import *
import math, struct

ERR = [Kw("err")]
U = (1 << 64) - 1


def fl(x):
    s = ("%f" % x).rstrip("0")
    return s + "0" if s.endswith(".") else s


def ints(thorough):
    s = set(range(-1100, 1101))
    w = 40 if thorough else 3
    for e in range(64):
        for k in range(-w, w + 1):
            s |= {s64((1 << e) + k), s64(-(1 << e) + k)}
    for e in range(19):
        for k in range(-w, w + 1):
            for m in (1, 2, 5, 9):
                s |= {s64(m * 10 ** e + k), s64(-m * 10 ** e + k)}
    for pat in (0x5555555555555555, 0xAAAAAAAAAAAAAAAA, 0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xF0F0F0F0F0F0F0F0, 0x00FF00FF00FF00FF):
        for sh in range(64):
            s |= {s64(pat >> sh), s64(pat << sh & U)}
    return sorted(s)


def texts(ns):
    for i in range(0, len(ns), 4):
        part = ns[i:i + 4]
        calls, want = [], []
        for n in part:
            v = lit(n)
            calls += ["(:string %s)" % v, "(int->string %s)" % v, "(int->string/decimal %s)" % v, "(string/write %s)" % v, "(cat %s)" % v, "(int->string/binary %s)" % v, "(int->string/octal %s)" % v]
            d = str(n)
            want += [d, d, d, d, d, bin(n & U)[2:], oct(n & U)[2:]]
            calls += ["(int->string/HEX %s)" % v, "(int->string/hex %s)" % v] if n >= 0 else [attempt("(int->string/HEX %s)" % v), attempt("(int->string/hex %s)" % v)]
            want += ["%X" % n, "%x" % n] if n >= 0 else [ERR, ERR]
            calls += ["(read/single (cat \"#b\" (int->string/binary %s)))" % v, "(read/single (cat \"#o\" (int->string/octal %s)))" % lit(n & (1 << 63) - 1), "(read (cat \"#x\" (int->string/hex %s)))" % lit(n & (1 << 63) - 1)]
            want += [n, n & (1 << 63) - 1, [n & (1 << 63) - 1]]
            if abs(n) < 10 ** 18:
                calls += ["(read/int (:string %s))" % v, "(read/float (:string %s))" % v]
                want += [n, float(n)]
        yield "(list %s)" % " ".join(calls), canon(want)
    # built by arithmetic instead of literals
    for sgn in ("", "-"):
        yield "(let* (def r #nil) (def v %s1) (dotimes (i 63) (set! r (cons (:string v) r)) (set! v (* v 2))) r)" % sgn, canon([str(int(sgn + "1") << k) for k in range(62, -1, -1)])
        yield "(let* (def r #nil) (def v %s7) (dotimes (i 18) (set! r (cons (:string v) r)) (set! v (+ (* v 10) %s7))) r)" % (sgn, sgn), canon([sgn + "7" * k for k in range(18, 0, -1)])


MANT = [0, 1, (1 << 51), (1 << 52) - 1, 0x5555555555555, 0xAAAAAAAAAAAAA, 0x8000000000001, 0x999999999999A, 1 << 30, (1 << 52) - (1 << 20)]


def floats(thorough):
    out = []
    for e in range(0, 2047):
        for m in MANT if thorough or 1000 < e < 1100 else MANT[:4] if e % 4 == 0 or e > 2040 or e < 5 else MANT[4:5]:
            for sg in (0, 1):
                out.append(struct.unpack(">d", struct.pack(">Q", sg << 63 | e << 52 | m))[0])
    # ties and carries in the sixth digit
    for k in range(0, 64):
        for b in (0.0, 0.9999995, 0.0000005, 0.5, 999999.9999995, 1e-6, 9.9999995, 0.1234565):
            out.append(b + k * 2.0 ** -20)
            out.append(-(b + k * 2.0 ** -20))
            out.append(math.nextafter(b, 10) if k == 0 else b * (k + 1))
    for e in range(0, 309):
        for m in ("1e%d", "9.999999999999999e%d", "5e%d"):
            x = float(m % e)
            if x < math.inf:
                out.append(x)
    return [x for x in out if abs(x) < math.inf]


def ftexts(xs):
    for i in range(0, len(xs), 12):
        part = xs[i:i + 12]
        yield "(let* (def v (:f64 #m%s #t)) (def r #nil) (dotimes (i %d) (set! r (cons (:string (ref v i)) r)) (when (= i 0) (set! r (cons (string/write (ref v 0)) (cons (cat (ref v 0)) r))))) r)" % (
            b"".join(struct.pack("<d", x) for x in part).hex().upper(), len(part)), canon([fl(x) for x in part[:0:-1]] + [fl(part[0])] * 3)


def back(thorough):
    """numbers of up to six decimals and 18 digits are read back exactly"""
    fs = set()
    for d in range(0, 7):
        for n in list(range(0, 120)) + [10 ** k + j for k in range(2, 11) for j in (-1, 0, 1)] + [123456789, 987654321, 111111111111, 999999999999 % 10 ** 11]:
            fs.add(n / 10 ** d)
    fs |= {n / 64 for n in range(0, 640)} | {n + 1 / 64 for n in (10 ** 3, 10 ** 6, 10 ** 9)}
    fs = sorted(f for f in fs if float(fl(f)) == f)
    for i in range(0, len(fs), 10):
        part = fs[i:i + 10]
        yield "(list %s)" % " ".join("(let* (def x (ref (:f64 #m%s #t) 0)) (def y (- 0.0 x)) (list (= x (read/float (:string x))) (= y (read/float (:string y))) (= x (car (read (string/write x))))))" % struct.pack("<d", x).hex().upper() for x in part), canon([[True] * 3] * len(part))
    # all numbers of a number of decimals, in one loop each
    step = 1 if thorough else 7
    for d, top in ((1, 10 ** 4), (2, 10 ** 4), (3, 10 ** 5), (6, 10 ** 6)):
        for lo in range(0, top, 5000):
            if (lo // 5000) % step and d > 2:
                continue
            yield "(let* (def bad #nil) (def k %d) (while (< k %d) (def x (/ (float k) %s)) (when (not= x (read/float (:string x))) (set! bad (cons k bad))) (set! k (+ k 1))) bad)" % (lo, lo + 5000, float(10 ** d)), canon(None)


def reading():
    for t, i, f in [("12", 12, 12.0), ("12.9", 12, 12.9), ("-12.9", -12, -12.9), (" 12 13", 12, 12.0), ("#xFF", 255, 255.0), ("#b-101", -5, -5.0), ("0", 0, 0.0), ("-0", 0, 0.0), ("007", 7, 7.0), ("1_000", 1000, 1000.0), ("#\\A", 65, 65.0), ("999999999999999999", 10 ** 18 - 1, 1e18)]:
        yield "(list (read/int %s) (read/float %s) (int (read/float %s)) (float (read/int %s)))" % ((lit_str(t),) * 4), canon([i, f, int(f), float(i)])
    for t in ("", "abc", "(1 2)", '"1"', ":a", "(", ")", "1x", "--1", "#z", "#nil", "1.2.3"):
        yield "(list %s %s)" % (attempt("(read/int %s)" % lit_str(t)), attempt("(read/float %s)" % lit_str(t))), canon([ERR, ERR])
    for bad in ("1", "#nil", "'a", ":a", "1.5", "(list \"1\")", "(array/new \"1\")"):
        yield "(list %s %s %s)" % (attempt("(read/int %s)" % bad), attempt("(read/float %s)" % bad), attempt("(read/single %s)" % bad)), canon([ERR] * 3)
    for f in ("int->string/binary", "int->string/octal", "int->string/HEX", "int->string/hex"):
        for bad in ("1.5", '"1"', "'a", "(list 1)", "(array/new)", "car"):
            yield attempt("(%s %s)" % (f, bad)), canon(ERR)


def main():
    ck = Check("C21", "model_checking")
    ck.cases("integers", texts(ints(ck.thorough)))
    ck.cases("floats", ftexts(floats(ck.thorough)))
    ck.cases("read back", back(ck.thorough), stall=60)
    ck.cases("reading numbers", reading())
    ck.assumptions += ["decimal rounding of a double is the one of Python's '%f'"]
    ck.finish()


main()
