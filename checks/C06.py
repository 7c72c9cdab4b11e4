"""Comparison: <, <=, =, >=, >, not= over all pairs of edge numbers, strings,
symbols and keywords against the mathematical order, in all ways of applying
them; equality of every pair of values incl. nested ones; all triples for
min, max and transitivity via sorting of every triple."""
from common import *
import itertools

ck = Check("C06", "model_checking")
OPS = {"<": lambda c: c < 0, "<=": lambda c: c <= 0, "=": lambda c: c == 0, ">=": lambda c: c >= 0, ">": lambda c: c > 0, "not=": lambda c: c != 0}


def cmp(a, b):
    return (a > b) - (a < b)      # Python compares ints and floats exactly, bytes lexicographically


def compare(vals, lits, ops=OPS):
    for a, la in zip(vals, lits):
        for b, lb in zip(vals, lits):
            for op, f in ops.items():
                e = canon(f(cmp(a, b)))
                for m in modes(op, [la, lb]).values():
                    yield m, e


NUMS = FLOATS + INTS if ck.thorough else FLOATS + INTS[::2] + [I64MAX, I64MIN, (1 << 53) + 1]
ck.cases("numbers", compare(NUMS, [lit(v) for v in NUMS], OPS if ck.thorough else OPS), chunk=8000)
STR = [b"", b"a", b"b", b"A", b"aa", b"ab", b"abc", b"abcd", b"abd", b"B", b"a b", b" a", b"0", b"9", b"10", "ä".encode(), b"z", b"\x7f", b"a" * 300, b"a" * 300 + b"b", b"a" * 299 + b"b",
       b"a\0", b"a\0b", b"a\0c", b"\0", b"\0\0", b"ab\0", b"\x80", b"\xff", b"\xff\0", b"a" * 299 + b"\0", b"x" * 4096 + b"a", b"x" * 4096 + b"b", b"x" * 4097, b"x" * 70000, b"x" * 69999 + b"y"]


def str_lit(s):
    if len(s) > 1000:   # not in the source
        k = len(s.rstrip(s[-1:])) if s[:1] != s[-1:] else len(s)
        return "(let* (def l \"xxxxxxxxxxxxxxxx\") (dotimes (i 13) (set! l (cat l l))) (cat (:cut l 0 %d) %s))" % (k, lit_str(s[k:]))
    return lit_str(s) if b"\0" not in s and all(c < 128 for c in s) else "(buffer->string #m%s)" % s.hex().upper()


ck.cases("strings", compare(STR, [str_lit(s) for s in STR]), stall=60)
SY = [b"a", b"b", b"A", b"aa", b"ab", b"abc", b"abcd", b"abd", "ä".encode(), b"z", b"a1", b"a" * 23, b"a" * 22 + b"b", b"a" * 22, b"a" * 47 + b"b", b"a" * 48, b"a" * 48 + b"b", b"a" * 63 + b"b", b"a" * 64 + b"b", b"a" * 64, b"a" * 91 + b"b", b"a" * 92, b"if", b"x/y", b"+", b"!"]
SY = [b""] + SY + [b"b" * n for n in (61, 62, 63)]
ck.cases("symbols", compare(SY, ["'" + s.decode() if s else '(:symbol "")' for s in SY]))
ck.cases("keywords", compare(SY, [":" + s.decode() if s else '(:keyword "")' for s in SY]))

# equality of values of every kind: (source, model); equal iff the models are
EQ = [("#nil", None), ("#t", True), ("#f", False), ("0", 0), ("0.0", 0), ("-0.0", 0), ("1", 1), ("1.0", 1), ("1.5", 1.5), ('""', b""), ('"a"', b"a"), ("'a", ("sym", "a")), (":a", ("kw", "a")),
      ("'(1)", ("l", 1)), ("'(1 2)", ("l", 1, 2)), ("'(2 1)", ("l", 2, 1)), ("'(1 (2))", ("l", 1, ("l", 2))), ("'(1 . 2)", ("p", 1, 2)), ("'((1) 2)", ("l", ("l", 1), 2)), ("'(1 #nil)", ("l", 1, None)),
      ("[]", ("a",)), ("[1]", ("a", 1)), ("[1 2]", ("a", 1, 2)), ("[1 [2]]", ("a", 1, ("a", 2))), ("[1 #nil]", ("a", 1, None)), ("[\"a\"]", ("a", b"a")),
      ("{:a 1}", ("t", ("a", 1))), ("{:b 1}", ("t", ("b", 1))), ("{:a 1 :b 2}", ("t", ("a", 1), ("b", 2))), ("{:b 2 :a 1}", ("t", ("a", 1), ("b", 2))), ("{:a [1]}", ("t", ("a", ("a", 1)))), ("{}", ("t",)), ("{:a #nil}", ("t", ("a", None)))]


def kind(m):
    return type(m).__name__ if not isinstance(m, tuple) else ("l" if m[0] == "p" else m[0])


def equality():
    for (sa, ma), (sb, mb) in itertools.product(EQ, EQ):
        numbers = isinstance(ma, (int, float)) and isinstance(mb, (int, float)) and not isinstance(ma, bool) and not isinstance(mb, bool)
        e = type(ma) is type(mb) and ma == mb if not numbers else ma == mb
        if numbers and ("." in sa) != ("." in sb):
            continue        # equal? of an integer and a float: not part of the property
        yield "(equal? %s %s)" % (sa, sb), canon(e)
        yield "(not-equal? %s %s)" % (sa, sb), canon(not e)
        yield "(let* (def a %s) (def b %s) (equal? (list a 1) (list b 1)))" % (sa, sb), canon(e)
        yield "(equal? (array/new 1 %s) (array/new 1 %s))" % (sa, sb), canon(e)
        yield "(equal? (tree/new :k %s) (tree/new :k %s))" % (sa, sb), canon(e)
        if not isinstance(ma, tuple) or ma[0] in ("sym", "kw"):
            for m in modes("=", [sa, sb]).values():
                yield m, canon(e)
            for m in modes("not=", [sa, sb]).values():
                yield m, canon(not e)


ck.cases("equality", equality())


def triples(vals):
    lits = [(v, lit(v)) for v in vals]
    for t in itertools.product(lits, repeat=3):
        v = [x[0] for x in t]
        s = " ".join(x[1] for x in t)
        # equal values of different types may stand for each other
        lo, hi = min(v), max(v)
        yield "(let* (def m (min %s)) (list (= m %s) (or (< m %s) #f)))" % (s, lit(lo), lit(lo)), "(t f)"
        yield "(let* (def m (max %s)) (list (= m %s) (or (> m %s) #f)))" % (s, lit(hi), lit(hi)), "(t f)"
        yield "(let* (def a %s) (def b %s) (def c %s) (if (and (<= a b) (<= b c)) (<= a c) #t))" % tuple(x[1] for x in t), "t"


TR = [0, -1, 1, (1 << 53) + 1, float(1 << 53), 0.5, -0.5, I64MAX, 9223372036854775808.0, I64MIN, -1e100]
ck.cases("triples", triples(TR if ck.thorough else TR[::1]))
ck.assumptions = ["Python compares integers and floats exactly", "values of different kinds are only compared for equality"]
ck.finish()
