"""Calls of any arity and depth: every combination of parameters, rest parameter
and arguments in every way of calling; the limits of what a call can take; every
recursion depth around the sizes at which the stacks of the machine grow, with
any number of operands, scopes and handlers pending in every frame."""
from common import *
import itertools


def calls(nmax):
    for n, m, rest in itertools.product(range(nmax + 1), range(nmax + 1), (False, True)):
        ps = ["p%d" % i for i in range(m)]
        params = "(%s)" % " ".join(ps + [". r"] if rest and m else ps) if not (rest and m == 0) else "r"
        args = [str(10 + i) for i in range(n)]
        got = [10 + i if i < n else None for i in range(m)]
        exp = got + ([[10 + i for i in range(m, n)]] if rest else [])
        body = "(list %s)" % " ".join(ps + (["r"] if rest else []))
        f = "(fn %s %s)" % (params, body)
        a = " ".join(args)
        e = canon(exp)
        yield "(%s %s)" % (f, a), e
        yield "(let* (def f %s) (list (f %s) 7))" % (f, a), canon([exp, 7])
        yield "(let* (defn f %s %s) (list 1 2 (f %s) (f %s) 7))" % (params, body, a, a), canon([1, 2, exp, exp, 7])
        yield "(apply %s (list %s))" % (f, a), e
        yield "(let* (def l (list %s)) (list (apply %s l) l))" % (a, f), canon([exp, [10 + i for i in range(n)]])
        yield "(let* (def t (array/new 1 2 %s)) (let ((x 3)) ((ref t 2) %s)))" % (f, a), e
        yield "(map (list 1) (fn (x) (%s %s)))" % (f, a), canon([exp])
        # parameters hide variables around, given or not
        names = ps + ["r"]
        outer = [Kw("o" + x) for x in names]
        for bind in ("(let* %s %%s)" % " ".join("(def %s :o%s)" % (x, x) for x in names), "(let (%s) %%s)" % " ".join("(%s :o%s)" % (x, x) for x in names), "((fn (%s) %%s) %s)" % (" ".join(names), " ".join(":o" + x for x in names))):
            yield bind % ("(list (%s %s) (apply %s (list %s)) (try (fn (e) e) (apply %s (list %s))) %s)" % (f, a, f, a, f, a, " ".join(names))), canon([exp, exp, exp] + outer)
            yield bind % ("(list (let* (def f %s) (f %s)) (let ((k 1)) (apply %s (list %s))) (map (list 1) (fn (u) (%s %s))) %s)" % (f, a, f, a, f, a, " ".join(names))), canon([exp, exp, [exp]] + outer)
        if m:
            # calls of itself with ever fewer arguments
            yield "(let* (def f (fn %s (list %s (if %s (f %s) :end)))) (f %s))" % (params, " ".join(ps), ps[-1], " ".join(ps[1:]), a), canon(again(got))
        yield "(let* (def o (tree/new :m %s)) (list (= o (car (:m o %s))) (cdr (:m o %s))))" % (f, a, a) if m else "(let* (def o (tree/new :m %s)) (:length (:m o %s)))" % (f, a), \
            (canon([True, exp_method(m, rest, n)]) if m else (canon(1) if rest else canon(0)))
        if n:
            yield "(let* (def g (fn (h) (h %s))) (g %s))" % (a, f), e
            # arguments are computed by calls themselves
            yield "(let* (def id (fn (x) (if x x 0))) (%s %s))" % (f, " ".join("(id %s)" % x for x in args)), e
            yield "(%s %s)" % (f, " ".join("(%s %s)" % (f, x) if i == n - 1 else x for i, x in enumerate(args))), \
                canon(nest(got, m, rest, n))


def again(got):
    return got + [again(got[1:] + [None]) if got[-1] is not None else Kw("end")]


def inner(m, rest, last):
    return [last if i == 0 else None for i in range(m)] + (([[last]] if m == 0 else [[]]) if rest else [])


def nest(got, m, rest, n):
    args = [10 + i for i in range(n - 1)] + [inner(m, rest, 10 + n - 1)]
    return [args[i] if i < n else None for i in range(m)] + ([args[m:]] if rest else [])


def exp_method(m, rest, n):
    """parameters after the receiver"""
    out = [10 + i if i < n else None for i in range(m - 1)]
    return out + ([[10 + i for i in range(m - 1, n)]] if rest else [])


def wide():
    for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300, 511, 512, 513):
        ns = list(range(n))
        a = " ".join(str(i) for i in ns)
        ps = " ".join("v%d" % i for i in ns)
        lim = (lambda x: x) if n <= 255 else (lambda x: "!karity-error")
        yield "(list %s)" % a, lim(canon(ns))
        yield "((fn l l) %s)" % a, lim(canon(ns))
        yield "((fn (a . l) (list a l)) %s)" % a, lim(canon([0, ns[1:]]))
        yield "((fn (%s) (list v0 v%d v%d)) %s)" % (ps, n // 2, n - 1, a), lim(canon([0, n // 2, n - 1]))
        yield "(let* (def f (fn (%s) (list v0 v%d v%d))) (list 1 (f %s) (f %s)))" % (ps, n // 2, n - 1, a, a), lim(canon([1, [0, n // 2, n - 1], [0, n // 2, n - 1]]))
        yield "((fn (%s) (list v0 v%d)) 1)" % (ps, n - 1), canon([1, None])
        yield "(apply (fn l l) (range %d))" % n, canon(ns)
        yield "(apply (fn (%s) (list v0 v%d)) (range %d))" % (ps, n - 1, n), canon([0, n - 1])
        yield "(apply list (range %d))" % n, canon(ns)
        yield "(let* (def f (fn (%s) (list v0 v%d))) (list 1 2 (apply f (range %d))))" % (ps, n - 1, n), canon([1, 2, [0, n - 1]])
        yield "(+ %s)" % a, canon(sum(ns))
        yield "[%s]" % a, lim(canon(Arr(ns)))
        yield "{%s}" % " ".join(":a%d %d" % (i, i) for i in ns[:n // 2]), canon(Tree({"a%d" % i: i for i in ns[:n // 2]})) if n // 2 * 2 <= 255 else "!karity-error"
        yield "(let* %s (list v0 v%d))" % (" ".join("(def v%d %d)" % (i, i + 1) for i in ns), n - 1), canon([1, n])
        yield "(let (%s) (list v0 v%d))" % (" ".join("(v%d %d)" % (i, i + 1) for i in ns), n - 1), canon([1, n])
        yield "(do %s)" % " ".join("(list %d \"s%d\")" % (i, i) for i in ns), canon([n - 1, "s%d" % (n - 1)])
        # natives of every number of parameters drop what they have no parameter for
        for fun, first, exp in (("time", (), lambda g: g.startswith("[17 ")), ("car", ("(list 1 2)",), canon([17, 1])), ("cons", (1, 2), canon([17, Pair(1, 2)])), ("int", (2.5,), canon([17, 2])), ("buffer->string", ("b", 3, 1), canon([17, "bc"])), ("buffer/copy", ("b", '"xy"', 1, 2), None)):
            if fun == "time":
                exp = lambda g: not g.startswith("!")
            sur = " ".join([str(f) for f in first] + [str(i) for i in ns[len(first):]])
            if fun == "buffer/copy":
                exp = canon([17, "axyd"])
            post = "(let ((r (%s))) (list 17 %s))" % ("%s", "(buffer->string r)" if fun == "buffer/copy" else "r")
            pre = "(let* (def b (buffer/allocate 4)) (buffer/copy b \"abcd\" 0 4) %s)"
            if n <= 255:
                yield pre % post % (fun + " " + sur), exp
                yield pre % post % ("(do %s) " % fun + sur), exp
            yield pre % post % ("apply %s (append (list %s) (range %d))" % (fun, " ".join(str(f) for f in first), n)), exp
        # operands nested instead of side by side
        yield "(car %s)" % ("(list " * n + "7" + ")" * n), NOCRASH if n > 255 else (lambda g: not g.startswith("!"))
        yield ("(+ 1 " * n + "0" + ")" * n), canon(n) if n < 200 else oneof(canon(n), "!kread-error", "!kstack-overflow")


DEPTHS = [1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 126, 127, 128, 129, 254, 255, 256, 257, 258, 509, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049]


def depth(ds, pend):
    for d in ds:
        s = d * (d + 1) // 2
        for k in pend:
            if d * k > 150000:     # more variables than there are cells for them
                continue
            ops = " ".join(["n"] * k)
            yield "(let* (def f (fn (n) (if (= n 0) 0 (let* (def r (list %s (f (- n 1)))) (+ n (last r)))))) (def last (fn (l) (while (cdr l) (set! l (cdr l))) (car l))) (list (f %d) (f 2)))" % (ops, d), canon([s, 3])
            ps = " ".join("q%d" % i for i in range(k))
            yield "(let* (def f (fn (n %s) (if (= n 0) 0 (+ n (f (- n 1) %s))))) (list 1 (f %d) (f 2)))" % (ps, " ".join(["n"] * k), d), canon([1, s, 3])
        for w, ww in (("let", "(let ((m n)) (+ m %s))"), ("try", "(try (fn (e) 0) (+ n %s))"), ("while", "(let ((i 0) (x 0)) (while (< i 1) (set! i 1) (set! x (+ n %s))) x)"), ("lets", "(let ((m n)) (let ((o m)) (let ((p o)) (+ p %s))))"),
                      ("apply", "(+ n (apply (fn (x) x) (list %s)))"), ("map", "(+ n (car (map (list n) (fn (y) %s))))"), ("try let", "(try (fn (e) 0) (let ((m n)) (try (fn (e) 1) (let ((k m)) (+ k %s)))))"), ("rest", "(+ n ((fn l (car l)) %s 1 2))")):
            yield "(let* (def f (fn (n) (if (= n 0) 0 %s))) (list (f %d) (f 2)))" % (ww % "(f (- n 1))", d), canon([s, 3])
        yield "(let* (def even (fn (n) (if (= n 0) #t (odd (- n 1))))) (def odd (fn (n) (if (= n 0) #f (even (- n 1))))) (list (even %d) (odd %d)))" % (d, d), canon([d % 2 == 0, d % 2 == 1])


def pending(thorough):
    """many values waiting in one piece of code, which is built as it is too deep to be read"""
    for n in (100, 200, 250, 255, 256, 257, 300, 500, 510, 512, 514, 600, 800, 1000) + ((1500, 2000, 3000) if thorough else (1500,)):
        for d in (0, 5, 50) if n < 1500 else (0,):
            build = "(def code 'x) (dotimes (i %d) (set! code (list '%s 1 code)))" % (n, "%s")
            wrap = "(defn down (k) (if (= k 0) (f 5) (let ((r (down (- k 1)))) r))) (list (down %d) (f 6))" % d
            yield "(let* %s (def f (eval (list 'fn '(x) code))) %s)" % (build % "+", wrap), canon([5 + n, 6 + n])
            yield "(let* (def code 'x) (dotimes (i %d) (set! code (list '+ 1 2 3 (list '* 1 code)))) (def f (eval (list 'fn '(x) code))) %s)" % (min(n, 500), wrap), canon([5 + 6 * min(n, 500), 6 + 6 * min(n, 500)])
            yield "(let* (def code 'x) (dotimes (i %d) (set! code (list 'list 1 2 3 4 5 6 7 8 9 code))) (def f (eval (list 'fn '(x) code))) (defn depth (l) (def r 0) (while (pair? l) (set! l (ref l 9)) (set! r (+ r 1))) (list r l)) (defn down (k) (if (= k 0) (f 5) (let ((r (down (- k 1)))) r))) (list (depth (down %d)) (depth (f 6))))" % (min(n, 500), d), canon([[min(n, 500), 5], [min(n, 500), 6]])
    # wide rather than deep: compiling it takes far less of the stack than running it
    for n, wd in ((20, 50), (40, 100), (60, 200), (100, 200), (40, 250), (250, 60)):
        yield "(let* (def ones (range %d)) (def code 'x) (dotimes (i %d) (set! code (cons 'list (append ones (list code))))) (def f (eval (list 'fn '(x) code))) (defn depth (l) (def r 0) (while (pair? l) (set! l (ref l %d)) (inc! r)) (list r l)) (list (depth (f 5)) (depth (f 6))))" % (wd, n, wd), canon([[n, 5], [n, 6]])
    for n in (600, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 20000):
        for d in (0, 3, 100):
            w = "(let* (defn down (k g) (if (= k 0) (g) (let ((r (down (- k 1) g))) r))) (def l (range %d)) (list (down %d (fn () %%s)) 7 (down 1 (fn () 8))))" % (n, d)
            yield w % "(:length (apply list l))", canon([n, 7, 8])
            yield w % "(let ((r (apply (fn (a b . r) (list a b (car r) (:length r))) l))) r)", canon([[0, 1, 2, n - 2], 7, 8])
            yield w % "(let ((r (apply (fn r (list (car r) (:length r))) l))) r)", canon([[0, n], 7, 8])
            yield w % "(let ((r (apply (fn (a b) (list a b)) l))) r)", canon([[0, 1], 7, 8])


def ways():
    """code that has far more values waiting than anything before it, as the first such thing called in each way: what
    `compile` makes of a number, without its last byte, as often as it takes"""
    for n in (400, 500, 600, 1000, 3000, 20000):
        pre = ("(let* (def small (:array (compile 5))) (def x (- (:length small) 1)) (def n (* x %d)) (def big (:alloc Array (+ n 1))) (dotimes (i n) (set! big i (ref small (rem i x)))) (set! big n (ref small x)) (def code (:bytecode-array big [])) (def c (compile '(fn () 5))) (def l (:literals c)) (def ls (:alloc Array (:length l)))"
               " (dotimes (i (:length l)) (set! ls i (if (= (:type-name (ref l i)) :bytecode-array) code (ref l i)))) (def f (bytecode-eval* (:bytecode-array (:array c) ls) (current-closure))) %s)")
        for call in ("(f)", "(apply f '())", "(apply f (list 1))", "(try f (throw 1))", "(try f (+ 1 (car (list 2 3 (throw 1)))))", "(car (map '(1) f))", "(let ((g f)) (try (fn (e) e) (g)))", "(bytecode-eval* code (current-closure))", "(+ 0 (bytecode-eval* code (current-closure)))", "(try (fn (e) e) (bytecode-eval* code (current-closure)))"):
            yield pre % (n, call), canon(5)


def dotted():
    """what isn't in the list isn't an argument"""
    for args, got in (("'(1 . 2)", [1]), ("'(1 2 . 3)", [1, 2]), ("'(1 2 3 . 4)", [1, 2, 3]), ("7", []), ('"ab"', []), ("#nil", []), (":k", []), ("1.5", []), ("(array/new 1 2)", []), ("{:a 1}", [])):
        pad = lambda n: (got + [None] * n)[:n]
        for m in range(1, 5):
            ps = " ".join("p%d" % i for i in range(m))
            yield "(apply (fn (%s) (list %s)) %s)" % (ps, ps, args), canon(pad(m))
        yield "(let* (def p1 5) (list (apply (fn (p0 p1) (list p0 p1)) %s) p1))" % args, canon([pad(2), 5])
        yield "(apply cons %s)" % args, canon(Pair(*pad(2)) if pad(2)[1] is not None else [pad(2)[0]])
    for kw, recv, v in ((":length", '"abc"', 3), (":immutable?", "#m0102", True), (":length", "(list 1 2)", 2)):
        for end in ("5", "#f", '"s"', ":k", "#nil"):
            yield "(apply %s (cons %s %s))" % (kw, recv, end), canon(v)
    for env in ("(fn (x) 1)", "car", "{}", "#nil", "1", "(list 1)", "'a", "(macro (x) 1)"):
        for op in ("bytecode-eval*", "mutable-eval*"):
            yield attempt("(%s (compile 5) %s)" % (op, env)), canon([Kw("err")])
    for code in ("5", "#nil", "'(+ 1 2)", "(fn () 1)", '"x"', "#m01"):
        for op in ("bytecode-eval*", "mutable-eval*"):
            yield attempt("(%s %s (current-closure))" % (op, code)), canon([Kw("err")])


def fewer():
    """natives called with fewer arguments than they have parameters, right after values that could be taken for the
    missing ones: those are #nil"""
    err = [Kw("err")]
    for fun, args, outs in (("buffer/copy", ("b", '"xy"', "1", "2"), (err, err, err, Buf(b"axyd"), Buf(b"axyd"))), ("buffer->string", ("b", "2", "1"), (err, b"abcd", b"ab", b"b")), ("cons", ("1", "2"), (Pair(None, None), [1], Pair(1, 2))),
                            ("car", ("(list 8 9)",), (None, 8)), ("cdr", ("(list 8 9)",), (None, [9])), ("int", ("2.5",), (err, 2)), ("file/write*", ("stdout*", "b", "4", "0"), (err, err)), ("file/read*", ("stdin*", "b", "4", "0"), (err, err)), ("file/seek*", ("stdin*", "0", "0"), (err, err, err)),
                            ("mkdir", ('"made"',), (err,)), ("cd", ('"/"',), (err,)), ("rm", ('"nothing"',), (err, b"nothing"))):
        for k, out in enumerate(outs):
            for n in range(len(args), len(args) + 3):
                stale = "(list 0 %s)" % " ".join((args + ("7", "8"))[:n])
                for call in ("(%s %s)" % (fun, " ".join(args[:k])), "(apply %s (list %s))" % (fun, " ".join(args[:k])) if k else "(apply %s #nil)" % fun, "((fn () %s (%s %s)))" % (stale, fun, " ".join(args[:k]))):
                    yield "(let* (def b (buffer/allocate 4)) (buffer/copy b \"abcd\" 0 4) (list 1 (try (fn (e) (list :err)) (do %s %s))))" % (stale, call), canon([1, out])


if __name__ == "__main__":
    ck = Check("C09", "model_checking")
    ck.cases("parameters and arguments", calls(8 if ck.thorough else 5))
    ck.cases("wide calls", wide(), chunk=20)
    ck.cases("values pending", pending(ck.thorough), chunk=10, stall=60)
    ck.cases("dotted lists of arguments and what isn't code", dotted(), chunk=20)
    ck.cases("fewer arguments than parameters", fewer(), chunk=20)
    ck.cases("values pending, ways to call", ways(), chunk=1, variant="asan", stall=60)
    ck.cases("depth", depth(list(range(1, 1100)) if ck.thorough else DEPTHS, [0, 1, 3, 30, 60, 120, 240] if ck.thorough else [0, 1, 5, 60, 240]), chunk=60)
    deep = [5000, 10000] + ([12000, 12500, 13000] if ck.thorough else [])
    ck.cases("very deep", depth(deep, [0, 3]), chunk=4, variant="plain", stall=60)
    ck.assumptions = ["recursion beyond the fixed number of scopes (2^17) ends the process by design and isn't explored"]
    ck.finish()
