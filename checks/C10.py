"""Code of any size.  Operands of instructions have 8 or 16 bits, jumps 16: every
number of literals around those limits followed by an instruction of every kind
that uses a literal, and every size of a block around the limits of jumps (one
byte at a time) in every construct that jumps over it, or back."""
from common import *

# source using literals nothing before it uses, and its value
PROBES = [
    ("string", '"probe"', "probe"),
    ("keyword", ":probe-key", Kw("probe-key")),
    ("symbol", "'probe-sym", Sym("probe-sym")),
    ("integer", "1234567890123", 1234567890123),
    ("float", "2.5", 2.5),
    ("list", "'(1 (2 \"x\") . y)", Raw("(i1 (i2 s78) . yy)")),
    ("array", '["p" 2]', Arr(["p", 2])),
    ("tree", '{:k "p"}', Tree(k="p")),
    ("buffer", "#m0102", Buf(b"\1\2")),
    ("get", "outer-variable", 77),
    ("get function", "(outer-function 5)", 10),
    ("library", "(list-take '(1 2 3) 2)", [1, 2]),
    ("def", "(do (def fresh-variable 3) (list fresh-variable outer-variable))", [3, 77]),
    ("def two", "(do (def fresh-a 3) (def fresh-b 4) (set! fresh-a 5) (list fresh-a fresh-b))", [5, 4]),
    ("set!", "(do (set! set-variable 9) (list set-variable outer-variable))", [9, 77]),
    ("set! outer", "(do (set! outer-box 4 :x) outer-box)", None),
    ("let", "(let ((la 1) (lb 2)) (set! la (+ la lb)) (list la lb))", [3, 2]),
    ("lambda", "((fn (pa pb) (list pa pb \"in\")) 1 2)", [1, 2, "in"]),
    ("lambda rest", "((fn (pa . pr) (list pa pr)) 1 2 3)", [1, [2, 3]]),
    ("named", "(do (defn named-fun (pa) \"documentation\" (list pa outer-variable)) (list (named-fun 3) (:arguments named-fun)))", [[3, 77], [Sym("pa")]]),
    ("closure", "(do (def counter 0) (def bump (fn () (set! counter (+ counter 1)))) (bump) (bump) counter)", 2),
    ("method", "(:probe-method outer-object 3)", [3, 5]),
    ("native method", '(:length "probe-length")', 12),
    ("try", "(try (fn (e) (list :handled e)) (throw :probe-error))", [Kw("handled"), [Kw("probe-error")]]),
    ("catch", "(try car (list-take-unknown 1))", Kw("unbound-variable")),
    ("if", "(if (= outer-variable 77) :yes-branch :no-branch)", Kw("yes-branch")),
    ("case", "(case outer-variable (1 :case-a) (77 :case-b) (otherwise :case-c))", Kw("case-b")),
    ("while", "(let ((wi 0) (wr #nil)) (while (< wi 3) (set! wr (cons wi wr)) (set! wi (+ wi 1))) wr)", [2, 1, 0]),
    ("macro", "(do (defmacro twice-probe (x) (list 'list x x)) (def bb 1) bb)", 1),
    ("environment", "(do (def env-x 5) (ref (current-closure) 'env-x))", 5),
    ("quasi", "`(a ,outer-variable (b ~outer-variable))", None),
]
PROBES = [p for p in PROBES if p[0] not in ("set! outer", "quasi")] + [
    ("quasi", "`(qa ~outer-variable (qb ~@outer-list))", [Sym("qa"), 77, [Sym("qb"), 1, 2]])]
PRE = "(def acc 0) (def outer-variable 77) (def set-variable 1) (def outer-list (list 1 2)) (def outer-function (fn (x) (* x 2))) (def outer-object (tree/new :probe-method (fn (self v) (list v (ref self :f))) :f 5)) "


def pad(n, kind):
    if kind == "strings":
        return " ".join('(set! acc "s%d")' % i for i in range(n)), ("s%d" % (n - 1) if n else 0)
    if kind == "keywords":
        return " ".join("(set! acc :s%d)" % i for i in range(n)), (Kw("s%d" % (n - 1)) if n else 0)
    if kind == "integers":
        return " ".join("(set! acc %d)" % (10 ** 9 + i) for i in range(n)), (10 ** 9 + n - 1 if n else 0)
    if kind == "functions":
        return " ".join("(set! acc (fn () %d))" % i for i in range(n)), None
    if kind == "variables":
        return " ".join("(def v%d %d)" % (i, i) for i in range(n)), 0


def literals(ns, kind):
    for n in ns:
        p, a = pad(n, kind)
        acc = "(acc)" if kind == "functions" and n else "acc"
        av = (n - 1 if n else 0) if kind == "functions" else a
        for name, src, v in PROBES:
            if name == "macro" and n % 8:
                continue
            yield "(let* %s %s (list acc-value 1 %s 2 %s acc-value))".replace("acc-value", acc) % (PRE, p, src, src), canon([av, 1, v, 2, v, av])
            yield "(let* %s (def fun (fn (arg) %s (list arg %s))) (list (fun 1) (fun 2) set-variable outer-variable))" % (PRE, p, src), canon([[1, v], [2, v], 9 if name == "set!" else 1, 77])


def all_used(ns):
    """every literal and variable is used again after the last one was added"""
    for n in ns:
        d = " ".join("(def v%d %d)" % (i, 3 * i) for i in range(n))
        parts = [range(i, min(n, i + 200)) for i in range(0, n, 200)]
        get = " ".join("(list %s)" % " ".join("v%d" % i for i in q) for q in parts)
        st = " ".join("(set! v%d (+ v%d %d))" % (i, i, i) for i in range(n))
        yield "(let* %s (list %s))" % (d, get), canon([[3 * i for i in q] for q in parts])
        yield "(let* (def f (fn () %s %s (list %s))) (list (f) (f)))" % (d, st, get), canon([[[4 * i for i in q] for q in parts]] * 2)
        lits = " ".join("(list %s)" % " ".join(['"a%d" :b%d' % (i, i) for i in q][:100]) for q in parts)
        ex = [[x for i in q for x in ("a%d" % i, Kw("b%d" % i))][:200] for q in parts]
        yield "(let* (def f (fn () (list %s))) (list (f) (f)))" % lits, canon([ex, ex])
        fns = " ".join("(list %s)" % " ".join("(fn (x) (list x %d))" % i for i in q) for q in parts)
        yield "(let* (def fs (list %s)) (map fs (fn (l) (map l (fn (f) (f :arg))))))" % fns, canon([[[Kw("arg"), i] for i in q] for q in parts])


def many_literals(ns):
    """so many literals that their indices need every one of the 16 bits but the last ones"""
    for n, make, val in [(n, m, v) for n in ns for m, v in ((lambda i: str(10 ** 9 + i), lambda i: 10 ** 9 + i), (lambda i: ":k%d" % i, lambda i: Kw("k%d" % i)), (lambda i: '"s%d"' % i, lambda i: "s%d" % i))]:
        parts = [range(i, min(n, i + 200)) for i in range(0, n, 200)]
        yield "(let* (def f (fn () (set! r #nil) %s r)) (def r 0) (f) (list (f) r))" % " ".join("(set! r (cons (list %s) r))" % " ".join(make(i) for i in q) for q in parts), \
            canon([[[val(i) for i in q] for q in reversed(parts)]] * 2)


def block(b, v):
    """a block of about b bytes of code that has the value v and adds to acc once"""
    out, n = [], 0
    b -= 12
    while b > 0:
        k = min(b, 500)
        odd = k & 1
        out.append("(set! junk (list %s))" % " ".join(["1"] * (k // 2 - odd) + ["#t"] * odd))
        b -= k
    return "(do %s (set! acc (+ acc 1)) %s)" % (" ".join(out), v)


JUMPS = [
    ("then", "(if c B 0)", lambda c: (7, 1) if c else (0, 0)),
    ("else", "(if c 0 B)", lambda c: (0, 0) if c else (7, 1)),
    ("both", "(if c B B8)", lambda c: (7, 1) if c else (8, 1)),
    ("not", "(if (not c) B 0)", lambda c: (0, 0) if c else (7, 1)),
    ("when", "(when c B)", lambda c: (7, 1) if c else (None, 0)),
    ("when-not", "(when-not c B)", lambda c: (None, 0) if c else (7, 1)),
    ("condition", "(if B 1 2)", lambda c: (1, 1)),
    ("and first", "(and B 3)", lambda c: (3, 1)),
    ("and second", "(and c B)", lambda c: (7, 1) if c else (False, 0)),
    ("and third", "(and c B c)", lambda c: (True, 1) if c else (False, 0)),
    ("or second", "(or c B)", lambda c: (True, 0) if c else (7, 1)),
    ("or first", "(or B 3)", lambda c: (7, 1)),
    ("cond", "(cond ((not c) B) (c 5))", lambda c: (5, 0) if c else (7, 1)),
    ("case", "(case (if c 1 2) (1 B) (2 B8) (3 9))", lambda c: (7, 1) if c else (8, 1)),
    ("while body", "(let ((i 0)) (while (< i 2) B (set! i (+ i 1))) i)", lambda c: (2, 2)),
    ("while test", "(let ((i 0)) (while (if (= B 7) (< i 2) #f) (set! i (+ i 1))) i)", lambda c: (2, 3)),
    ("dotimes", "(dotimes (i 3 i) B)", lambda c: (3, 3)),
    ("try", "(try (fn (e) :handler) (if c (throw 1) 2) B)", lambda c: (Kw("handler"), 0) if c else (7, 1)),
    ("try all", "(try (fn (e) :handler) B (throw 1))", lambda c: (Kw("handler"), 1)),
    ("handler", "(try (fn (e) B) (throw 1))", lambda c: (7, 1)),
    ("return", "(do (when c (return 3)) B)", lambda c: (3, 0) if c else (7, 1)),
    ("let", "(let ((x B)) (if c x 2))", lambda c: (7, 1) if c else (2, 1)),
    ("argument", "(list (if c 1 2) B (if c 1 2))", lambda c: ([1, 7, 1] if c else [2, 7, 2], 1)),
]


def jumps(sizes):
    for b in sizes:
        for n, src, f in JUMPS:
            far = b > 30000     # two of them are more than the heap of pairs holds while compiling
            body = src.replace("B8", block(20 if far else b, 8)).replace("B", block(b, 7))
            e = []
            for c in (True, False):
                v, k = f(c)
                e.append([v, 5 + k])
            e = canon(e + [5])
            yield "(let* (def junk 0) (def acc 5) (def f (fn (c) %s)) (def g (fn (c) (set! acc 5) (def r (f c)) (def a acc) (set! acc 5) (list r a))) (list (g #t) (g #f) acc))" % body, \
                (oneof(e, "!kout-of-bounds") if b > 32500 else e)


def many_blocks():
    """more code than 16 bits can count, every jump of it short enough"""
    for b, n in ((3000, 8), (3000, 12), (10000, 4), (15000, 3)):
        src = " ".join("(if c %s 0) (set! trace (cons %d trace))" % (block(b, 7), i) for i in range(n))
        yield "(let* (def junk 0) (def trace #nil) (def acc 0) (def f (fn (c) %s (list acc trace))) (list (f #t) (f #f)))" % src, \
            canon([[n, list(range(n))[::-1]], [n, (list(range(n)) * 2)[::-1]]])


if __name__ == "__main__":
    ck = Check("C10", "model_checking")
    near = list(range(222, 262)) if not ck.thorough else list(range(0, 300)) + list(range(500, 530))
    ck.cases("literals before an instruction", literals([0, 1] + near, "strings"), variant="plain")
    for k in ("keywords", "integers", "functions", "variables"):
        ck.cases("%s before an instruction" % k, literals([0] + (near if ck.thorough else near[16:36:3]), k), variant="plain")
    ck.cases("all of them used", all_used([1, 2, 100, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 700] + ([1000, 1500, 2000] if ck.thorough else [])), variant="plain", chunk=4)
    ck.cases("thousands of literals", many_literals([1030, 2060, 4100] + ([8200] if ck.thorough else [])), variant="plain", chunk=1, stall=200)
    ck.cases("thousands of variables", all_used([1030, 2060]), variant="plain", chunk=1, stall=200)
    sizes = [13] + list(range(100, 140)) + list(range(225, 265)) + [510, 511, 512, 513, 1000, 5000]
    ck.cases("sizes of blocks", jumps(sizes), variant="plain")
    big = [32000, 32500] + list(range(32690, 32780, 6)) + [33000, 40000]
    if ck.thorough:
        big = list(range(32600, 32800)) + [16383, 16384, 33000, 40000, 49000]
    ck.cases("sizes of blocks near the limit of jumps", jumps(big if ck.thorough else big[::2]), variant="plain", chunk=8)
    ck.cases("many large blocks", many_blocks(), variant="plain", chunk=1)
    ck.assumptions = ["code whose jumps are too far is rejected when it is compiled, with :out-of-bounds"]
    ck.finish()
