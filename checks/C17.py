"""Strings.  Every range of cutting and searching, every short text through the
string library, every size around the growth of the ports concatenation uses,
against sequences of bytes."""
from common import *
import itertools

ERR = [Kw("err")]
IDX = [I64MIN, -(1 << 32), -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 1 << 31, 1 << 32, (1 << 32) + 1, I64MAX]


def mk(b):
    """an expression for any sequence of bytes"""
    if isinstance(b, str):
        b = b.encode()
    if all(32 <= c < 127 and c not in b'"\\' for c in b):
        return '"%s"' % b.decode()
    return "(buffer->string #m%s)" % b.hex().upper()


def words(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t) if isinstance(alpha, str) else bytes(t)


def find(s, n, start):
    if not n:
        return -1
    p = max(0, start if start is not None else 0)
    if p > len(s) - len(n):
        return -3
    return s.find(n, p)


def rfind(s, n, start):
    if not n:
        return -1
    p = min(start if start is not None else len(s), len(s) - len(n))
    for i in range(p, -1, -1):
        if s[i:i + len(n)] == n:
            return i
    return -1


def search(n, m):
    for alpha, n, m in (("ab", n, m), (b"\0a\xff", 3, 2)):
        for s in words(alpha, n):
            for w in words(alpha, m):
                starts = [None] + (IDX if alpha == "ab" else [-1, 0, 1, 2])
                yield "(let* (def s %s) (def n %s) (list %s %s))" % (mk(s), mk(w), " ".join("(:index-of s n %s)" % ("" if i is None else lit(i)) for i in starts), " ".join("(:last-index-of s n %s)" % ("" if i is None else lit(i)) for i in starts)), \
                    canon([find(s, w, i) for i in starts] + [rfind(s, w, i) for i in starts])
    for bad in ("#nil", "1", "'a", "#\\a", "[\"a\"]", ":a", "#m61"):
        yield "(list %s %s)" % (attempt("(:index-of \"abc\" %s)" % bad), attempt("(:last-index-of \"abc\" %s)" % bad)), canon([ERR, ERR])
    # long ones, a needle at every position
    for n in (63, 64, 65, 255, 256, 1000):
        for at in (0, 1, n // 2, n - 3, n - 2):
            s = "a" * at + "bb" + "a" * (n - at - 2)
            yield "(let* (def s %s) (list (:index-of s \"bb\") (:last-index-of s \"bb\") (:index-of s \"bb\" %d) (:index-of s \"bb\" %d) (:last-index-of s \"bb\" %d) (:last-index-of s \"bb\" %d) (:length s)))" % (mk(s), at, at + 1, at, at - 1), \
                canon([at, at, at, find(s, "bb", at + 1), at, -1, n])


def long_needles():
    """needles of any length up to that of the string, found at its start, its end and in between, or not"""
    for n in (1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000):
        w = "".join(chr(97 + (i * 7 + i // 26) % 26) for i in range(n - 1)) + "!"
        for pre, post in itertools.product((0, 1, 2, 40), repeat=2):
            s = "-" * pre + w + "+" * post
            bad = w[:-1] + "?"
            q = [None, 0, pre, pre + 1, pre - 1, len(s)]
            yield "(let* (def s %s) (def n %s) (def m %s) (list %s %s (:index-of s m) (:last-index-of s m) (:index-of n s) (:last-index-of s s) (:index-of s s) (split s n) (:starts-with? s n) (:ends-with? s n)))".replace("(:starts-with? s n) (:ends-with? s n)", "(= n (:cut s %d %d))" % (pre, pre + n)) % (
                mk(s), mk(w), mk(bad), " ".join("(:index-of s n %s)" % ("" if i is None else i) for i in q), " ".join("(:last-index-of s n %s)" % ("" if i is None else i) for i in q)), \
                canon([find(s, w, i) for i in q] + [rfind(s, w, i) for i in q] + [find(s, bad, None), rfind(s, bad, None), find(w, s, None), 0, 0, [x for x in s.split(w)], True])


def cutm(s, a, b):
    off = max(0, a)
    end = min(len(s), max(0, b) if b is not None else len(s))
    return s[off:end] if off < end else s[:0]


def cuts():
    for n in range(0, 7):
        for s in ("abcdef"[:n], bytes([0, 255, 0, 10, 128, 0][:n])):
            for a in IDX:
                yield "(let* (def s %s) (list %s s (= s %s)))" % (mk(s), " ".join(["(:cut s %s)" % lit(a)] + ["(:cut s %s %s)" % (lit(a), lit(b)) for b in IDX] + ["(cut s %s %s)" % (lit(a), lit(b)) for b in IDX]), mk(s)), \
                    canon([cutm(s, a, None)] + [cutm(s, a, b) for b in IDX] * 2 + [s, True])
            yield "(let* (def s %s) (list %s))" % (mk(s), " ".join(attempt("(ref s %s)" % lit(i)) for i in IDX)), canon([(s[i] if isinstance(s, bytes) else ord(s[i])) if 0 <= i < n else ERR for i in IDX])
            yield "(let* (def s %s) (list %s (:length s)))" % (mk(s), " ".join(attempt("(ref s %s)" % i) for i in ("#nil", "\"0\"", "'a", "1.0", "#t", ":a"))), canon([ERR] * 6 + [n])
            yield "(let* (def s %s) (list %s s))" % (mk(s), " ".join(attempt("(set! s %d 65)" % i) for i in (-1, 0, 1, n, 100))), canon([ERR] * 5 + [s])
    for bad in ("#nil", "\"1\"", "'a", "1.5", "#t"):
        yield "(list %s (:cut \"abc\" 1 %s))" % (attempt("(:cut \"abc\" %s)" % bad), bad), canon([ERR, "bc"])


def lower(b):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


def upper(b):
    return bytes(c - 32 if 97 <= c <= 122 else c for c in b)


def capital(b):
    out, caps = bytearray(), True
    for c in b:
        out += (upper if caps else lower)(bytes([c]))
        caps = c in b" \t\n\v\f\r"
    return bytes(out)


def trim(b):
    return b.strip(b" \t\n\v\f\r")


def case_(n):
    texts = list(words(b"aZ \n", n)) + [bytes([b]) for b in range(256)] + [p + bytes([b]) + q for b in range(256) for p, q in ((b"a", b"b"), (b"", b"x"), (b"x", b""))]
    for s in texts:
        yield "(let* (def s %s) (list (upper-case s) (lower-case s) (capitalize s) (trim s) s))" % mk(s), canon([upper(s), lower(s), capital(s), trim(s), s])


def pads():
    for n in range(0, 6):
        t = "abcdef"[:n]
        for w in range(0, 14):
            for p in (None, " ", "-", "xy", "xyz", "1234567890abcdef"):
                pp = p or " "
                a = t
                while len(a) < w:
                    a = pp + a
                b = t
                while len(b) < w:
                    b = b + pp
                c = t
                while len(c) < w:
                    c = pp + c + pp
                e = (len(c) - w) // 2
                s0 = len(c) - w - e
                x = "" if p is None else mk(p)
                yield "(let* (def t %s) (list (pad-start t %d %s) (pad-end t %d %s) (pad-middle t %d %s) t))" % (mk(t), w, x, w, x, w, x), canon([a[len(a) - w:] if len(a) > w else a, b[:w], c[s0:s0 + w] if len(c) > w else c, t])
    for v, d in (("12", "12"), ("'ab", "ab"), (":ab", "ab"), ("1.5", "1.5"), ("#nil", "")):
        yield "(list (pad-start %s 6) (pad-end %s 6) (pad-middle %s 6))" % (v, v, v), canon([d.rjust(6), d.ljust(6), d.rjust(6)[:0] + " " * ((6 - len(d)) // 2) + d + " " * ((6 - len(d)) // 2) if len(d) % 2 == 0 else " " * ((6 - len(d)) // 2) + d + " " * (6 - len(d) - (6 - len(d)) // 2)])
    for bad in ("1", "'a", "[1]"):
        yield "(list %s)" % " ".join(attempt("(%s \"a\" 4 %s)" % (f, bad)) for f in ("pad-start", "pad-end", "pad-middle")), canon([ERR] * 3)


def splits(n):
    for s in words("ab,", n):
        for sep in ("", ",", ",,", "ab", "aba", "b,", "abcabc"):
            r = list(s) if sep == "" else s.split(sep)
            src = "(let* (def s %s) (def l (split s %s)) (list l (join l %s) s))" % (mk(s), mk(sep), mk(sep))
            yield src, canon([r, s, s])
    for s in (b"\0a\0b\0", b"a\xc3\xa4b\xc3\xa4", b"\r\n\r\n", b"x\r\ny"):
        for sep in (b"\0", b"\xc3\xa4", b"\r\n", b"\n"):
            yield "(split %s %s)" % (mk(s), mk(sep)), canon(s.split(sep))
    for k in (100, 1000, 5000):
        yield "(let* (def s \"\") (def p (:new StringOutputPort)) (dotimes (i %d) (:block-write p \"ab,\")) (def l (split (:return-string p) \",\")) (list (:length l) (:length (join l \",\")) (car l)))" % k, canon([k + 1, 3 * k, "ab"])
    for bad in ("#nil", "1", "'a", "[1]"):
        yield "(list %s %s)" % (attempt("(split %s \",\")" % bad), attempt("(split \"a,b\" %s)" % bad)), canon([ERR, ERR])


SHOW = [('"a"', "a"), ('""', ""), ('"bc"', "bc"), ("12", "12"), ("-7", "-7"), ("#nil", ""), ("'sym", "sym"), (":kw", ":kw"), ("#t", "#t"), ("#f", "#f"), ("1.5", "1.5"), ("(list 1 \"x\")", "(1 x)"), ("[1 :b]", "##(1 :b)"), ("{:a 1}", "#@(a: 1)"), ("(list)", ""), ("'(quote x)", "'x"), ("(cons 1 2)", "(1 . 2)")]


def cats(n):
    for k in range(0, n + 1):
        pool = SHOW if k < 3 else SHOW[:9]
        for t in itertools.product(pool, repeat=k):
            a = " ".join(x for x, _ in t)
            yield "(cat %s)" % a, canon("".join(d for _, d in t))
            if k:
                yield "(list (join (list %s) \"--\") (join (list %s)) (join [%s] \"+\") (apply cat (list %s)))" % (a, a, a, a), canon(["--".join(d for _, d in t), "".join(d for _, d in t), "+".join(d for _, d in t), "".join(d for _, d in t)])
    yield "(list (join #nil \",\") (join (list) \",\") (join [] \",\") (join {} \",\"))", canon(["", "", "", ""])
    # sizes around every growth of a string port
    sizes = list(range(0, 40)) + list(range(100, 150)) + list(range(250, 270)) + [383, 384, 385, 511, 512, 513, 4095, 4096, 4097]
    for a in sizes:
        s = "".join(chr(97 + i % 26) for i in range(a))
        bs = sizes[:40:3] + [14, 15, 16, 17, 112, 127, 128, 129, 240, 256, 4096]
        yield "(let* (def s %s) (def bad #nil) (doseq (n (list %s)) (def t (:cut s2 0 n)) (def r (cat s t)) (when (or (not= (:length r) (+ %d n)) (not= (:cut r 0 %d) s) (not= (:cut r %d) t) (not= (cat t s) (cat \"\" t \"\" s))) (set! bad (cons n bad)))) bad)".replace("(def bad #nil)", "(def s2 %s) (def bad #nil)" % mk("".join(chr(65 + i % 26) for i in range(4096)))) % (mk(s), " ".join(map(str, bs)), a, a, a), canon(None)


LONG = [255, 256, 257, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 99999, 100001, 131073, 262145]


def long_ones(thorough):
    """every byte of what comes out of long strings"""
    for n in LONG + ([1 << 20, (1 << 20) + 1] if thorough else []):
        pre = ("(def n %d) (def b (buffer/allocate n)) (dotimes (i n) (set! b i (+ 33 (rem (* i (+ 7 (div/int i 251))) 64)))) (def s (buffer->string b))"
               " (def bad 0) (def same (fn (t off len) (when-not (= (:length t) len) (inc! bad)) (dotimes (i len) (when-not (= (ref t i) (ref b (+ i off))) (inc! bad)))))") % n
        for x, y in ((0, n), (0, n - 1), (1, n), (n // 2, n), (n - 2, n), (3, n - 3)):
            yield "(let* %s (def t (:cut s %d %d)) (same t %d %d) (list bad (= t (:cut s %d %d)) (= t (buffer->string b %d %d)) (= t (buffer->string (:cut b %d %d)))))" % (pre, x, y, x, y - x, x, y, y, x, x, y), canon([0, True, True, True])
        yield "(let* %s (same s 0 n) (def t (cat s s)) (same (:cut t 0 n) 0 n) (same (:cut t n) 0 n) (list bad (:length t)))" % pre, canon([0, 2 * n])
        yield "(let* %s (def t (join (list s \"~~\" s) \"~\")) (same (:cut t 0 n) 0 n) (same (:cut t (+ n 4)) 0 n) (def l (split t \"~\")) (map l (fn (x) (when (> (:length x) 0) (same x 0 n)))) (list bad (:length t) (:length l) (:index-of t \"~\") (:last-index-of t \"~\") (:index-of t \"~~~~\") (:index-of t \"~~~~~\") (:index-of t s) (:last-index-of t s)))" % pre, \
            lambda g, n=n: g.startswith("(i0 i%d i5 i%d i%d i%d i-1 i0 i%d)" % (2 * n + 4, n, n + 3, n, n + 4)) or g.startswith("(i0 i%d i5 i%d i%d i%d i-3 i0 i%d)" % (2 * n + 4, n, n + 3, n, n + 4))
        yield "(let* %s (def t (cat \"  \" s \"\\n \")) (same (trim t) 0 n) (def u (upper-case s)) (def l (lower-case s)) (dotimes (i n) (def c (ref s i)) (when-not (and (= (ref l i) (if (and (>= c 65) (<= c 90)) (+ c 32) c)) (= (ref u i) (if (and (>= c 97) (<= c 122)) (- c 32) c))) (inc! bad))) (list bad (:length u) (:length l) (= s (:string (:clone b)))))" % pre, canon([0, n, n, True])
        yield "(let* %s (def t (buffer->string (:clone b #f))) (set! b %d 1) (def u (buffer->string b)) (list (= s t) (= s u) (= t u) (equal? s t) (= (:cut s 0 %d) (:cut u 0 %d)) (< u s) (> s u)))" % (pre, n - 1, n - 1, n - 1), canon([True, False, False, True, True, True, True])
        yield "(let* %s (def e (read (string/write s))) (list (= (car e) s) (:length e)))" % pre, canon([True, 1])


def every_byte(thorough):
    """every byte at every end of strings of all sizes"""
    for n in (1, 2, 3, 30, 31, 32, 63, 64, 93, 94, 200, 511, 512, 1023, 1024, 1025, 1030, 2049, 4097) + ((4096, 5000, 70000) if thorough else ()):
        for pos in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            yield ("(let* (def n %d) (def p %d) (def b (buffer/allocate n)) (dotimes (i n) (set! b i 97)) (def bad #nil) (def good (fn (t len at) (and (= (:length t) len) (= (ref t at) c) (= (ref t 0) (if (= at 0) c 97)) (= (ref t (- len 1)) (if (= at (- len 1)) c 97))))) (def c 0)"
                   " (while (< c 256) (set! b p c) (def s (buffer->string b)) (def x (cat \"a\" s)) (def y (cat s \"a\"))"
                   " (when-not (and (good s n p) (good x (+ n 1) (+ p 1)) (good y (+ n 1) p) (= s (:cut x 1) (:cut y 0 n) (cat s) (cat s \"\") (join (list s)) (car (read (string/write s))) (:clone s) (:string s)) (good (:cut s p) (- n p) 0) (good (:cut s 0 (+ p 1)) (+ p 1) p)"
                   " (= (:index-of s (from-char-code c)) (if (= c 97) 0 p)) (= (:last-index-of s (from-char-code c)) (if (= c 97) (- n 1) p)) (spit \"eb\" s) (= (slurp \"eb\") s)) (set! bad (cons c bad))) (set! c (+ c 1))) bad)") % (n, pos), canon(None)


def codes():
    for l in ([], [0], [65, 66], [255, 0, 1], list(range(1, 256)), list(range(255))):
        yield "(from-char-code %s)" % " ".join(map(str, l)), canon(bytes(l))
        yield "(apply from-char-code (list %s))" % " ".join(map(str, l)), canon(bytes(l))
    for bad in ("-1", "256", "#nil", "\"a\"", "1.0", "'a", str(1 << 32), lit(I64MIN)):
        for pos in range(3):
            a = ["65", "66", "67"]
            a[pos] = bad
            yield attempt("(from-char-code %s)" % " ".join(a)), canon(ERR)


def paths(n):
    for s in words("a./", n):
        def ext(p):
            return p[p.rindex(".") + 1:] if "." in p else p
        wo = s[:s.rindex(".")] if "." in s else s
        dn = s[:s.rindex("/")] if "/" in s else ""
        bn = s[s.rindex("/") + 1:] if "/" in s else s
        yield "(let* (def s %s) (list (path/extension s) (path/without-extension s) (path/dirname s) (path/basename s) ((path/ext?! \"a\") s) ((path/ext?! (list \"aa\" \"a\")) s)))" % mk(s), canon([ext(s), wo, dn, bn, ext(s) == "a", ext(s) in ("a", "aa")])
    for s in ("", "1", "1.", "1.5", "1.23456", "-0.5", ".5", "a.b.c", "12.0"):
        for d in (0, 1, 2, 3, 9):
            yield "(string/round %s %d)" % (mk(s), d), canon(s[:s.rindex(".") + 1 + d] if "." in s else s)


if __name__ == "__main__":
    ck = Check("C17", "model_checking")
    T = ck.thorough
    ck.cases("searching", search(6 if T else 5, 3))
    ck.cases("long needles", long_needles())
    ck.cases("cutting and indexing", cuts())
    ck.cases("case and whitespace", case_(6 if T else 5))
    ck.cases("padding", pads())
    ck.cases("splitting and joining", splits(7 if T else 6))
    ck.cases("concatenating", cats(4 if T else 3))
    ck.cases("long ones", long_ones(T), variant="plain", chunk=8, stall=100)
    ck.cases("every byte", every_byte(T), chunk=4, stall=100, variant="plain")
    ck.cases("characters", codes())
    ck.cases("paths", paths(6 if T else 5))
    ck.finish()
