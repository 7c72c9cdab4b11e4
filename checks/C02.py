"""Exceptions and early returns: every chain of control constructs up to a depth
with every kind of leaf that leaves it early - thrown values, errors of built-in
operations, returns - against the reference interpreter.  What is observed: the
value, which handler ran, the side effects in order, and all variables after."""
from common import *
import itertools, multiprocessing
import refinterp as R
import C01
from C01 import H, K, fill


def ctxs(d):
    i, v, f, q, z = ("%s%d" % (c, d) for c in "ivfqz")
    return [
        ("list", ("t", 1), H, ("t", 2)), ("if", "x", H, ("t", 2)), ("or", False, H), ("do", ("t", 1), H, ("t", 6)),
        ("let", (("x", H),), ("set!", "x", 7), ("list", "x", "y")), ("let", (("x", 7),), H, "x"), ("set!", "x", H),
        (("fn", ("x",), ("list", H, "x")), ("t", 4)), (("fn", ("x",), ("return", H), ("t", 9)), 5),
        ("let", ((i, 0),), ("while", ("<", i, 2), ("set!", i, ("+", i, 1)), ("t", H))),
        ("try", ("fn", ("e",), ("list", K("h"), ("car", "e"), "x")), ("let", (("x", 8),), ("t", 3), H)),
        ("try", ("fn", ("e",), H), ("t", ("throw", 5))),
        ("try", ("fn", ("x",), ("throw", ("list", K("again"), ("car", "x")))), H),
        ("try", ("fn", ("e",), ("return", ("list", "e", H)) if False else ("return", H), ("t", 8)), ("throw", 1)),
        ("list", ("try", ("fn", ("e",), ("set!", "y", ("car", "e")), ("t", 7)), ("list", 1, 2, H)), "x", "y"),
        ("list", 1, ("try", "car", ("let", (("x", 9), (q, 1)), ("list", "x", H))), "x"),
        ("list", 1, ("try", "resolves?", ("list", 7, ("let", ((q, 9),), ("list", "x", H)))), "x"), ("list", 1, ("try", "int", ("list", 2, H)), 3),
        ("throw", ("list", K("a"), H)), ("throw", H),
        ("map", ("list", 1, 2), ("fn", (z,), ("t", z), H)), ("reduce", ("list", 1, 2), ("fn", (q, z), ("list", q, z, H)), 0), ("apply", ("fn", (z, q), ("list", q, H)), ("list", 1, 2)),
        ("let", ((f, None),), ("set!", f, ("fn", ("m",), ("if", ("=", "m", 0), H, ("list", "m", (f, ("-", "m", 1)))))), (f, 2)),
        ("doseq", (v, ("list", 1, 2), ("list", "x", "y")), ("set!", "y", ("list", v, H))),
        ("case", H, (5, K("five")), ((None, 1), K("nil")), ("otherwise", "x")), ("cond", (("not", H), ("t", 1)), (True, "x")),
    ]


LEAVES = [("t", 5), ("throw", 3), ("throw", None), ("throw", ("list", K("b"), "x")), ("return", 9), ("set!", "x", 8), ("identity", "undefined"), ("set!", "undefined", 1), ("+", 1, ("list", 2)), ("let", (("q", 5),), ("q", 1)),
          ("try", None, ("throw", 1)), ("try", ("fn", ("e",), ("throw", "x")), ("throw", 1))]
SHORT = [LEAVES[k] for k in (0, 1, 4, 6)]


def case(e):
    p = C01.program(e)
    x = C01.expected(p)
    return None if x is None else (R.src(p), x)


def job(args):
    outer, depth, leaves = args
    out = []
    levels = [ctxs(k) for k in range(depth)]
    for chain in itertools.product(*levels[1:]):
        for l in leaves:
            e = l
            for c in reversed(chain):
                e = fill(c, e)
            r = case(fill(levels[0][outer], e))
            if r:
                out.append(r)
    return out


if __name__ == "__main__":
    ck = Check("C02", "model_checking")
    n = len(ctxs(0))
    sp = [("depth 1", 1, LEAVES), ("depth 2", 2, LEAVES), ("depth 3", 3, SHORT[:3] if not ck.thorough else LEAVES)]
    if ck.thorough:
        sp.append(("depth 4", 4, SHORT[1:3]))
    with multiprocessing.Pool(JOBS) as pool:
        for name, d, leaves in sp:
            jobs = [(o, d, leaves) for o in range(n)]
            for out in pool.imap(job, jobs, chunksize=1) if d == 4 else [sum(pool.map(job, jobs, chunksize=1), [])]:
                if out:
                    ck.cases(name, out, variant="plain" if d > 2 and not (ck.thorough and d == 3) else "asan")

    # deep unwinding: an exception or a return from far below passes every frame
    def deep():
        for n in (1, 2, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1000, 5000):
            yield "(let* (def f (fn (n) (if (= n 0) (throw :end) (let ((m (f (- n 1)))) (list m n))))) (list (try car (f %d)) (try car (f 3)) 7))" % n, canon([K("end"), K("end"), 7])
            yield "(let* (def c 0) (def f (fn (n) (try (fn (e) (set! c (+ c 1)) (throw (car e))) (if (= n 0) (throw :end) (f (- n 1)))))) (list (try car (f %d)) c))" % n, canon([K("end"), n + 1])
            yield "(let* (def c 0) (def f (fn (n) (if (= n 0) 0 (try (fn (e) (set! c (+ c 1)) (return 5)) (let ((x n)) (list x (f (- n 1)) (throw x))))))) (list (f %d) c))" % n, canon([5, n])
            yield "(let* (def c 0) (def i 0) (while (< i %d) (set! i (+ i 1)) (try (fn (e) (set! c (+ c (car e)))) (list 1 2 (let ((y i)) (throw y))))) (list i c))" % n, canon([n, n * (n + 1) // 2])
            yield "(let* (def i 0) (def g (fn (k) (while #t (list 1 2 (let ((y k)) (try (fn (e) 1) (return y))))))) (def s 0) (while (< i %d) (set! s (+ s (g i))) (set! i (+ i 1))) s)" % n, canon(n * (n - 1) // 2)
        # returns from every depth, and what a trace counts
        for n in list(range(0, 80)) + [126, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 3000]:
            for body, v in (("(return 5)", 5), ("(try (fn (e) 1) (return 5))", 5), ("(let ((q 1)) (try (fn (e) 1) (let ((r 2)) (return (list q r)))))", [1, 2]), ("(return (try (fn (e) (return 7) 8) (throw 1)))", 7), ("(return (try (fn (e) (return (car e)) 8) (try (fn (e) (throw (list 9 e))) (let ((q 1)) (throw 2)))))", 9),
                            ("(while #t (try (fn (e) 1) (while #t (let ((q 3)) (return q)))))", 3), ("(try (fn (e) 4) (g 0) (return 3))", 3), ("(list 1 2 (try (fn (e) 1) (list 3 4 (return 5))))", 5)):
                yield "(let* (defn g (x) (return x) 9) (defn f (n) (if (= n 0) (do %s 6) (let ((m (f (- n 1)))) (list m n)))) (def r (f %d)) (def d 0) (while (and (pair? r) (cdr r) (= (cadr r) (- %d d))) (set! r (car r)) (set! d (+ d 1))) (list r d))" % (body, n, n), canon([v, n]) if v != [1, 2] else oneof(canon([v, n]), canon([1, n + 1]))
                yield "(let* (defn g (x) (return x) 9) (defn f (n) (if (= n 0) (do %s 6) (try (fn (e) 0) (list (f (- n 1)))))) (def r (f %d)) (def d 0) (while (and (pair? r) (< d %d)) (set! r (car r)) (set! d (+ d 1))) (list r d))" % (body, n, n), canon([v, n])
            yield "(let* (defn f (n) (if (= n 0) (throw (list :a 1)) (list (f (- n 1))))) (defn len (n) (try (fn (e) (:length (ref e 2))) (f n))) (- (len %d) (len 0)))" % n, canon(n)
            yield "(let* (defn f (n) (if (= n 0) (throw (list :a 1)) (let ((x n)) (list (f (- n 1)))))) (defn len (n) (try (fn (e) (:length (ref e 2))) (f n))) (def a (- (len (+ 1 %d)) (len %d))) (def b (- (len 2) (len 1))) (= a b))" % (n, n), "t"
    # a list that is thrown stays as it is, the handler gets all of it
    def thrown():
        for n in (1, 2, 3, 4, 5, 10, 100, 255, 256, 999, 1000, 1001, 1002, 5000):
            for d in (0, 1, 3):
                f = "(def l #nil) (def i %d) (while (> i 0) (set! i (- i 1)) (set! l (cons i l))) (defn f (k) (if (= k 0) (throw l) (list (f (- k 1))))) (defn sum (l) (def r 0) (def i 0) (while (< i %d) (set! r (+ r (* (+ i 1) (car l)))) (set! l (cdr l)) (set! i (+ i 1))) r)" % (n, n)
                t = sum((i + 1) * i for i in range(n))
                yield "(let* %s (def r (try (fn (e) (list (sum e) (>= (:length e) %d) (= e l))) (f %d))) (list r (:length l) (sum l) (ref l %d)))" % (f, n, d, n - 1), canon([[t, True, False], n, t, n - 1])
                yield "(let* %s (def r (try (fn (e) (list (sum e) (>= (:length e) %d))) (try (fn (e) (throw e)) (f %d)))) (def q (try (fn (e) (sum e)) (try (fn (e) (throw l)) (f %d)))) (list r q (:length l) (sum l)))" % (f, n, d, d), canon([[t, True], t, n, t])
                yield "(let* %s (def q '(1)) (def r (list (try car (throw '(:a))) (try (fn (e) (:length e)) (throw q)) q (try (fn (e) (car e)) (throw '(:a 2 3 4))))) (def times 0) (while (< times 3) (set! times (+ times 1)) (try car (throw q)) (try car (throw l))) (list (car r) q (:length l) (sum l)))" % f, canon([K("a"), [1], n, t])
    ck.cases("thrown lists", thrown(), chunk=30)
    ck.cases("deep and repeated unwinding", deep(), chunk=60)
    ck.assumptions = ["the reference interpreter (lib/refinterp.py) states what the language means", "handlers compare the first element of an error, not its text or stack trace"]
    ck.finish()
