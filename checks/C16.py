"""Buffers are bytes in memory that views show as numbers.  (1) every view type x
buffer length x index x value; (2) every combination of lengths and offsets of
copying, cutting, cloning, growing and converting; (3) every sequence of
operations on two buffers, views of them and their aliases, against byte arrays;
(4) everything immutable against everything that writes."""
from common import *
import ctypes, itertools, math, struct

TYPES = {"u8": (1, "B"), "s8": (1, "b"), "u16": (2, "H"), "s16": (2, "h"), "u32": (4, "I"), "s32": (4, "i"), "f32": (4, "f"), "s64": (8, "q"), "f64": (8, "d")}
ERR = [Kw("err")]


def pack(t, v):
    """bytes of a number in a view, or None if it isn't one that fits its kind"""
    size, f = TYPES[t]
    if f in "fd":
        if type(v) not in (int, float):
            return None
        x = ctypes.c_float(v).value if f == "f" else float(v)
        return struct.pack("<" + f, x) if not (f == "f" and math.isinf(x)) else struct.pack("<f", x)
    if type(v) is not int:
        return None
    return (v & ((1 << 8 * size) - 1)).to_bytes(size, "little")


def unpack(t, b):
    x = struct.unpack("<" + TYPES[t][1], b)[0]
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        raise Err()
    return x


INTS_ = [300, 0x0102030405060708, -0x0102030405060708] + sorted({k for b in (0, 7, 8, 15, 16, 24, 31, 32, 33, 53, 62) for k in ((1 << b) - 1, 1 << b, (1 << b) + 1, -(1 << b) + 1, -(1 << b), -(1 << b) - 1)} | {I64MAX, I64MAX - 1, I64MIN, I64MIN + 1})
FLTS = [0.0, -0.0, 1.5, -2.25, 0.1, 1e10, 3.4e38, 1e39, 1e300, 5e-324, 1e-40]
BAD = ["#nil", "#t", '"a"', "'a", "(list 1)", "[1]"]
IDX = [-1, 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 61, I64MAX, I64MIN]


def fill(n):
    return bytes((0x11 * (i + 1) + 0x80 * (i & 1)) & 0xFF for i in range(n))


def mkbuf(data):
    return "(:clone #m%s #f)" % data.hex().upper() if data else "(buffer/allocate 0)"


def elements():
    for t, (size, f) in TYPES.items():
        for ln in (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24):
            data = fill(ln)
            n = ln // size
            obs = []
            for i in IDX:
                try:
                    obs.append(unpack(t, data[i * size:(i + 1) * size]) if 0 <= i < n else ERR)
                except Err:
                    obs.append(ERR)
            yield "(let* (def b %s) (def v (:%s b)) (list (:length v) (:immutable? v) (= (:length (:buffer v)) %d) %s))" % (
                mkbuf(data), t, ln, " ".join(attempt("(ref v %s)" % lit(i)) for i in IDX)), canon([n, False, True] + obs)
        for ln in (size * 3, size * 3 + size - 1):
            data = fill(ln)
            for i in (-1, 0, 1, 2, 3, 1 << 32, (1 << 64) // size - (1 << 64) if size > 1 else I64MIN):
                for v in INTS_ + FLTS:
                    p = pack(t, v)
                    b = bytearray(data)
                    ok = p is not None and 0 <= i < 3
                    if ok:
                        b[i * size:(i + 1) * size] = p
                    try:
                        back = unpack(t, p) if ok else ERR
                    except Err:
                        back = ERR
                    yield "(let* (def b %s) (def v (:%s b)) (list %s %s b))" % (mkbuf(data), t, attempt("(do (set! v %s %s) 1)" % (lit(i), lit(v))), attempt("(ref v %s)" % lit(i)) if ok else "0"), \
                        canon([1 if ok else ERR, back if ok else 0, Buf(b)])
                for v in BAD:
                    yield "(let* (def b %s) (def v (:%s b)) (list %s b))" % (mkbuf(data), t, attempt("(set! v %s %s)" % (lit(i), v))), canon([ERR, Buf(data)])
            for k in BAD + ["1.0"]:
                yield "(let* (def b %s) (def v (:%s b)) (list %s %s b))" % (mkbuf(data), t, attempt("(set! v %s 1)" % k), attempt("(ref v %s)" % k)), canon([ERR, ERR, Buf(data)])
    data = fill(5)
    for i in IDX:
        yield "(list %s %s)" % (attempt("(ref %s %s)" % (mkbuf(data), lit(i))), attempt("(ref (buffer->string %s) %s)" % (mkbuf(data), lit(i)))), canon([data[i] if 0 <= i < 5 else ERR] * 2)
        for v in INTS_ + [1.0]:
            b = bytearray(data)
            ok = 0 <= i < 5 and type(v) is int
            if ok:
                b[i] = v & 255
            yield "(let* (def b %s) (list %s b))" % (mkbuf(data), attempt("(do (set! b %s %s) 1)" % (lit(i), lit(v)))), canon([1 if ok else ERR, Buf(b)])


def opt(x):
    return "#nil" if x is None else lit(x)


def copies():
    N = range(0, 6)
    for dl, sl in itertools.product((0, 1, 3, 5), (0, 1, 3, 5)):
        d, s = fill(dl), bytes(b ^ 0xFF for b in fill(sl))
        for off in (-1, 0, 1, 2, 3, 4, 5, 6, 1 << 32, I64MAX):
            for ln in (None, -1, 0, 1, 2, 3, 4, 5, 6, 1 << 32, I64MAX):
                l = sl if ln is None else ln
                ok = off >= 0 and l >= 0 and l <= sl and off + l <= dl
                b = bytearray(d)
                if ok:
                    b[off:off + l] = s[:l]
                for src in (mkbuf(s), "(buffer->string %s)" % mkbuf(s)):
                    yield "(let* (def d %s) (def s %s) (list %s d (:length s)))" % (mkbuf(d), src, attempt("(= d (buffer/copy d s %s %s))" % (lit(off), opt(ln)))), canon([True if ok else ERR, Buf(b), sl])
    for dl in (1, 4, 6):       # onto itself
        d = fill(dl)
        for off, ln in itertools.product(range(dl + 2), range(dl + 2)):
            ok = off + ln <= dl
            b = bytearray(d)
            if ok:
                b[off:off + ln] = d[:ln]
            yield "(let* (def d %s) (list %s d))" % (mkbuf(d), attempt("(do (buffer/copy d d %d %d) 1)" % (off, ln))), canon([1 if ok else ERR, Buf(b)])
    for bad in ("1", "#nil", "'a", "[1]", "(:u8 (buffer/allocate 2))", "{}", "1.5"):
        yield "(let* (def d (buffer/allocate 2)) (list %s %s %s d))" % (attempt("(buffer/copy d %s 0 1)" % bad), attempt("(buffer/copy %s d 0 1)" % bad), attempt("(buffer/copy d d %s 1)" % (bad if bad != "1" else "9"))), canon([ERR, ERR, ERR, Buf(b"\0\0")])


RANGE = [None, I64MIN, -2, -1, 0, 1, 2, 3, 4, 5, 6, 1 << 32, I64MAX]


def cuts():
    for n in (0, 1, 2, 4, 5):
        d = fill(n)
        for s, e in itertools.product(RANGE, RANGE):
            lo, hi = max(0, s or 0), n if e is None else min(n, max(0, e))
            r = d[lo:hi] if lo < hi else b""
            if s is not None:
                # the piece is a buffer of its own
                yield "(let* (def b %s) (def r (:cut b %s %s)) (def r2 (:clone r)) (:length! r (+ 1 (:length r))) (set! r (- (:length r) 1) 7) (when (> (:length r2) 0) (set! r 0 1)) (list b r2 r))" % (
                    mkbuf(d), opt(s), opt(e)), canon([Buf(d), Buf(r), Buf((b"\1" + r[1:] if r else b"") + b"\7")])
            else:
                yield attempt("(:cut %s #nil %s)" % (mkbuf(d), opt(e))), canon(ERR)
            # buffer->string: length and offset
            ln, off = s, e
            if ln is not None and ln < 0:
                x = None
            elif off is not None and off > min(n, n if ln is None else ln):
                x = b""
            elif off is not None and off < 0:
                x = ERR
            else:
                x = d[(off or 0):min(n, n if ln is None else ln)]
            yield "(let* (def b %s) (def s %s) (when (> (:length b) 0) (set! b 0 65)) s)" % (mkbuf(d), attempt("(buffer->string b %s %s)" % (opt(ln), opt(off)))), oneof("s", canon(ERR)) if x is None else canon(x)
        for s, e in itertools.product(RANGE, RANGE):
            lo, hi = max(0, s or 0), n if e is None else min(n, max(0, e))
            if s is not None:
                yield "(let* (def s (buffer->string %s)) (list (:cut s %s %s) s))" % (mkbuf(d), opt(s), opt(e)), canon([d[lo:hi] if lo < hi else b"", d])


def sizes():
    for a in (0, 1, 2, 7, 8, 100, 4096):
        yield "(buffer/allocate %d)" % a, canon(Buf(bytes(a)))
        for b in (0, 1, 2, 7, 8, 9, 100, 5000):
            d = fill(a)
            ok = b >= a
            yield "(let* (def b %s) (def v (:u8 b)) (list %s b (:length v) (if (> (:length v) 0) (ref v 0) 0)))" % (mkbuf(d), attempt("(= b (:length! b %d))" % b)), canon([True if ok else ERR, Buf(d + bytes(max(0, b - a))), a, d[0] if a else 0])
    for bad in ("-1", lit(I64MIN), lit(I64MAX), lit(1 << 31), lit(1 << 32), lit((1 << 32) + 4), "#nil", "1.0", '"1"', "'a"):
        yield "(let* (def b #m0102) (def c (:clone b #f)) (list %s %s c))" % (attempt("(do (buffer/allocate %s) 1)" % bad), attempt("(do (:length! c %s) 1)" % bad)), canon([ERR, ERR, Buf(b"\1\2")])


LONG = [255, 256, 257, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 99999, 100001, 131073, 262145]


def long_ones(thorough):
    """every byte of long buffers; fresh ones are zero"""
    for n in LONG + ([1 << 20, (1 << 20) + 1] if thorough else []):
        pre = "(def n %d) (def b (buffer/allocate n)) (def bad 0) (def zero (fn (t from) (def i from) (def l (:length t)) (while (< i l) (when-not (zero? (ref t i)) (inc! bad)) (set! i (+ i 1))))) (zero b 0) (def at (fn (i) (rem (* i (+ 7 (div/int i 251))) 256))) (dotimes (i n) (set! b i (at i))) (def same (fn (t off len toff) (dotimes (i len) (when-not (= (ref t (+ i toff)) (at (+ i off))) (inc! bad)))))" % n
        for m in (n + 1, n + 300, 2 * n, 2 * n + 5000):
            yield "(let* %s (def v (:u8 b)) (:length! b %d) (zero b n) (same b 0 n 0) (def w (:u8 b)) (list bad (:length b) (:length v) (:length w) (ref w %d)))" % (pre, m, m - 1), canon([0, m, n, m, 0])
        yield "(let* %s (def c (:clone b)) (def d (:clone b #t)) (set! b 0 9) (set! b %d 9) (same c 0 n 0) (same d 0 n 0) (list bad (:length c) (:length d)))" % (pre, n - 1), canon([0, n, n])
        for x, y in ((0, n - 1), (1, n), (n // 2, n), (3, n - 3)):
            yield "(let* %s (def c (:cut b %d %d)) (same c %d %d 0) (def d (buffer/allocate (+ n 7))) (buffer/copy d b 5 n) (same d 0 n 5) (buffer/copy d c 1 (:length c)) (same d %d %d 1) (list bad (:length c) (ref d 0) (ref d %d)))" % (pre, x, y, x, y - x, x, y - x, n + 6), canon([0, y - x, 0, 0])
        for t, (size, _) in [(t, (TYPES[t][0], 0)) for t in TYPES]:
            k = n // size
            if not k:
                continue
            raw = bytes((i * (7 + i // 251)) % 256 for i in range((k - 1) * size, k * size))
            try:
                last = unpack(t, raw)
            except Exception:
                continue
            if isinstance(last, float) and (last != last or last in (float("inf"), -float("inf"))):
                continue
            yield "(let* %s (def v (:%s b)) (def x (ref v %d)) (set! v %d 1) (set! v %d x) (same b 0 n 0) (list bad x (:length v) %s))" % (pre, t, k - 1, k - 1, k - 1, attempt("(ref v %d)" % k)), canon([0, last, k, ERR])


WRITES = ["(set! x 0 1)", "(set! x 0 255)", "(:length! x 50)", "(buffer/copy x #m01 0 1)", '(buffer/copy x "a" 0)', "(set! (:u8 x #f) 0 1)", "(set! (:u8 x) 0 1)", "(set! (:s16 x) 0 1)", "(set! (:s64 x #f) 0 1)", "(set! (:f64 x) 0 1.5)",
          "(set! (:u8 x #t) 0 1)", "(set! (:f32 x #t) 0 1.5)", "(:u8 x #f)", "(set! (:u8 (:buffer (:u8 x))) 0 1)", "(set! (:buffer (:u8 x #t)) 0 1)", "(sort x)", "(set! x :a 1)", "(array/swap x 0 1)", "(nreverse x)"]


def immutable():
    h = bytes(range(0x41, 0x41 + 16))
    for name, src, mut in (("literal", "#m" + h.hex().upper(), None), ("string", '"%s"' % h.decode(), False), ("string of buffer", "(buffer->string (:clone #m%s #f))" % h.hex().upper(), False), ("immutable clone", "(:clone #m%s #t)" % h.hex().upper(), False),
                      ("clone of immutable clone", "(:clone (:clone #m%s #t) #t)" % h.hex().upper(), False), ("symbol name", "(:string 'ABCDEFGHIJKLMNOP)", False), ("cut string", '(:cut "x%sx" 1 17)' % h.decode(), False), ("cat", '(cat "ABCDEFGH" "IJKLMNOP")', False),
                      ("mutable clone of immutable", "(:clone (:clone #m%s #t) #f)" % h.hex().upper(), True), ("cut of immutable", "(:cut (:clone #m%s #t) 0 16)" % h.hex().upper(), True)):
        if mut is None:
            continue
        for w in WRITES:
            if not mut:
                e = lambda g, s=canon(h): g.endswith(" " + (("s" if s[0] == "s" else "b") + s[1:]) + ")") or g.endswith(" b" + s[1:] + ")")
                e.text = "contents as before"
                yield "(let* (def x %s) (list %s x))" % (src, attempt("(do %s 1)" % w)), e
        if not mut:
            yield "(let* (def x %s) %s)" % (src, attempt("(set! x 0 1)")), canon(ERR)
            yield "(let* (def x %s) (list (= (hash/adler32 x) (hash/adler32 x)) %s))" % (src, attempt("(set! (:u8 x #f) 0 1)")) if False else "(let* (def x %s) %s)" % (src, attempt("(set! (:u8 x #f) 0 1)")), canon(ERR)
        else:
            yield "(let* (def x %s) (def y x) (set! x 0 1) (:length! x 17) (list y (:immutable? x)))" % src, canon([Buf(b"\1" + h[1:] + b"\0"), False])
    # buffers of any length, also those too short for a view of one element
    for t in TYPES:
        for n, bi, vi in itertools.product((0, 1, 2, 3, 7), (True, False), ("#t", "#f", "")):
            made = "(:clone #m%s %s)" % (h[:n].hex().upper(), "#t" if bi else "#f")
            yield "(let* (def b %s) %s)" % (made, attempt("(let* (def v (:%s b %s)) (list (:immutable? b) (:immutable? v) (:immutable? (:buffer v)) (:length v)))" % (t, vi))), \
                canon(ERR if bi and vi == "#f" else [bi, bi or vi == "#t", bi, n // TYPES[t][0]])
    # a view of each kind, mutable or not, over a buffer that is or isn't
    for t in TYPES:
        for bi, vi in itertools.product((True, False), ("#t", "#f", "", "#nil")):
            made = "(:clone #m%s %s)" % (h.hex().upper(), "#t" if bi else "#f")
            e_imm = bi or vi == "#t"
            if bi and vi == "#f":
                yield "(let* (def b %s) (list %s b))" % (made, attempt("(:%s b %s)" % (t, vi))), canon([ERR, Buf(h)])
                continue
            size = TYPES[t][0]
            b = h if e_imm else pack(t, 1) + h[size:]
            yield "(let* (def b %s) (def v (:%s b %s)) (list (:immutable? b) (:immutable? v) %s b))" % (made, t, vi, attempt("(do (set! v 0 1) 1)")), canon([bi, e_imm, ERR if e_imm else 1, Buf(b)])
            # the buffer of an immutable view stays what it was
            yield "(let* (def b %s) (def v (:%s b %s)) (list (:immutable? (:buffer v)) %s b))" % (made, t, vi, attempt("(do (set! (:buffer v) 0 90) 1)")), canon([bi, ERR if bi else 1, Buf(h if bi else b"Z" + h[1:])])


# ---- sequences
def ops():
    def w(v, i, x):
        def f(st):
            b, t = st[v] if v in ("v", "w") else (st[v], "u8")
            if b is None:
                raise Err()
            n = st["len" + v] if v in ("v", "w") else len(b)
            size = TYPES[t][0]
            if not 0 <= i < n:
                raise Err()
            b[i * size:(i + 1) * size] = pack(t, x)
            return 1
        return f

    def view(v, src, t):
        def f(st):
            st[v] = (st[src], t)
            st["len" + v] = len(st[src]) // TYPES[t][0]
            return st["len" + v]
        return f

    def grow(b, n):
        def f(st):
            if n < len(st[b]):
                raise Err()
            st[b].extend(bytes(n - len(st[b])))
            return n
        return f

    def alias(st):
        st["c"] = st["b"]
        return 1

    def clone(st):
        st["c"] = bytearray(st["b"])
        return 1

    def cut(st):
        st["c"] = bytearray(st["b"][1:5])
        return 1

    def cp(st):
        if len(st["b"]) < 2 or len(st["c"]) < 3:
            raise Err()
        st["c"][1:3] = bytes(st["b"][:2])
        return 1

    def back(st):
        st["b"] = st["v"][0]
        return len(st["b"])

    return [("(do (set! b 0 200) 1)", w("b", 0, 200)), ("(do (set! c 2 7) 1)", w("c", 2, 7)), ("(do (set! v 1 -2) 1)", w("v", 1, -2)), ("(do (set! w 0 70000) 1)", w("w", 0, 70000)),
            ("(:length (set! v (:s16 b)))", view("v", "b", "s16")), ("(:length (set! w (:u32 c)))", view("w", "c", "u32")), ("(:length (set! v (:u8 c)))", view("v", "c", "u8")),
            ("(:length (:length! b 9))", grow("b", 9)), ("(:length (:length! c 12))", grow("c", 12)), ("(do (set! c b) 1)", alias), ("(do (set! c (:clone b)) 1)", clone), ("(do (set! c (:clone b #f)) 1)", clone),
            ("(do (set! c (:cut b 1 5)) 1)", cut), ("(do (buffer/copy c b 1 2) 1)", cp), ("(:length (set! b (:buffer v)))", back)]


def start():
    b, c = bytearray(fill(6)), bytearray(b"\x01\x02\x03\x04")
    return {"b": b, "c": c, "v": (b, "u8"), "w": (c, "u16"), "lenv": 6, "lenw": 2}


OBS = "(list b c (= b c) (= (:buffer v) b) (= (:buffer w) c) v w (buffer->string b))"


def obsm(st):
    def vw(k):
        b, t = st[k]
        s = TYPES[t][0]
        return View(unpack(t, bytes(b[i * s:(i + 1) * s])) for i in range(st["len" + k]))
    same = lambda x, y: x is y
    return [Buf(st["b"]), Buf(st["c"]), same(st["b"], st["c"]), same(st["v"][0], st["b"]), same(st["w"][0], st["c"]), vw("v"), vw("w"), bytes(st["b"])]


if __name__ == "__main__":
    ck = Check("C16", "model_checking")
    ck.cases("elements of buffers and views", elements())
    ck.cases("copying", copies())
    ck.cases("cutting and converting", cuts())
    ck.cases("sizes", sizes())
    ck.cases("long ones", long_ones(ck.thorough), variant="plain", chunk=8, stall=100)
    ck.cases("immutable buffers", immutable())
    ck.cases("sequences of operations", explore("(def b %s) (def c #m01020304) (set! c (:clone c #f)) (def v (:u8 b)) (def w (:u16 c))" % mkbuf(fill(6)), start, ops(), 4 if ck.thorough else 3, OBS, obsm))
    ck.finish()
