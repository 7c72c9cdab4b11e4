"""Arrays are sequences of slots.  (1) every length x index x way of reading and
writing; (2) changing the length from every length to every other, and what the
slots contain afterwards; (3) cutting, appending, duplicating for all ranges;
(4) every sequence of operations on two arrays that may alias, against lists."""
from common import *
import itertools

ERR = [Kw("err")]
IDX = [I64MIN, -(1 << 32), -2, -1, 0, 1, 2, 3, 4, 5, 6, 255, 256, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 60, 1 << 61, I64MAX]
BADKEY = ["#nil", "1.0", '"0"', "'a", ":a", "#t", "[0]", "(list 0)"]


def mk(l):
    return "(array/new %s)" % " ".join(map(str, l))


def elements():
    for n in range(0, 6):
        a = list(range(10, 10 + n))
        for i in IDX:
            ok = 0 <= i < n
            b = list(a)
            if ok:
                b[i] = Kw("new")
            yield "(let* (def a %s) (list (:has? a %s) %s %s a (:length a)))" % (mk(a), lit(i), attempt("(ref a %s)" % lit(i)), attempt("(= a (set! a %s :new))" % lit(i))), \
                canon([ok, a[i] if ok else ERR, True if ok else ERR, Arr(b), n])
        for k in BADKEY:
            yield "(let* (def a %s) (list %s %s %s a))" % (mk(a), attempt("(ref a %s)" % k), attempt("(set! a %s 1)" % k), attempt("(:has? a %s)" % k)), canon([ERR, ERR, ERR, Arr(a)])
        for ctor in (mk(a), "[%s]" % " ".join(map(str, a)), "(let* (def r (:alloc Array %d)) %s r)" % (n, " ".join("(set! r %d %d)" % (i, v) for i, v in enumerate(a))), "(apply array/new (list %s))" % " ".join(map(str, a)),
                     "(let* (def r (array/new)) %s r)" % " ".join("(array/push r %d)" % v for v in a), "(array/dup %s)" % mk(a)):
            yield "(let* (def a %s) (def b a) (def s 0) (dotimes (i (:length a)) (set! s (+ s (ref a i)))) (list a (= a b) (= a (array/dup a)) (array/equal? a %s) (equal? a (array/dup a)) (:length a) s (array? a) (:type-name a)))" % (ctor, mk(a)), \
                canon([Arr(a), True, False, True, True, n, sum(a), True, Kw("array")])


def lengths():
    N = (0, 1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 100, 257, 1000)
    for a, b in itertools.product(N, N):
        src = "(let* (def a (:alloc Array %d)) (dotimes (i %d) (set! a i (+ i 1))) (def r (:length! a %d)) (list (= r a) (:length a) a))" % (a, a, b)
        cur = [i + 1 if i < min(a, b) else None for i in range(b)]
        yield src, canon([True, b, Arr(cur)])
        # shrunk and grown again: what was cut off is gone
        for c in (0, 1, a // 2, a + 1):
            if b <= a:
                yield "(let* (def a (:alloc Array %d)) (dotimes (i %d) (set! a i (+ i 1))) (:length! a %d) (:length! a %d) (list (:length a) a))" % (a, a, b, c), \
                    canon([c, Arr([i + 1 if i < min(a, b, c) else None for i in range(c)])])
    for bad in ("-1", lit(I64MIN), lit(I64MAX), lit(1 << 31), lit((1 << 31) - 1), lit(1 << 32), lit((1 << 32) + 2), lit(1 << 61), "#nil", "1.0", '"1"', "'a", "#t"):
        yield "(let* (def a (array/new 1 2)) (list %s %s a (:length a)))" % (attempt("(do (:length! a %s) 1)" % bad), attempt("(do (:alloc Array %s) 1)" % bad)), canon([ERR, ERR, Arr([1, 2]), 2])
    for n in (0, 1, 2, 5, 100):
        yield "(:alloc Array %d)" % n, canon(Arr([None] * n))
        yield "(let* (def a (array/fill! (:alloc Array %d) :x)) (list (:length a) a))" % n, canon([n, Arr([Kw("x")] * n)])


def pieces():
    for n in range(0, 6):
        a = [10 + i for i in range(n)]
        for s, e in itertools.product((-3, -1, 0, 1, 2, 3, 5, 6, 1 << 32), (-3, -1, 0, 1, 2, 3, 5, 6, 1 << 32)):
            lo, hi = max(0, s), min(n, e)
            r = a[lo:hi] if lo < hi else []
            yield "(let* (def a %s) (def r (cut a %s %s)) (def r0 (array/dup r)) (array/push r 1) (set! r 0 :changed) (list r0 r a))" % (mk(a), lit(s), lit(e)), \
                canon([Arr(r), Arr([Kw("changed")] + (r + [1])[1:]), Arr(a)])
        for m in range(0, 4):
            b = [20 + i for i in range(m)]
            yield "(let* (def a %s) (def b %s) (def r (array/append a b)) (array/push r 9) (list r a b))" % (mk(a), mk(b)), canon([Arr(a + b + [9]), Arr(a), Arr(b)])
            yield "(list (array/equal? %s %s) (equal? %s %s))" % (mk(a), mk(b), mk(a), mk(a[:m] + b[:max(0, n - m)])), canon([a == b, n == 0 or m >= n or a == a[:m] + b[:max(0, n - m)]])
        for i, j in itertools.product(range(-1, n + 1), range(-1, n + 1)):
            ok = 0 <= i < n and 0 <= j < n
            b = list(a)
            if ok:
                b[i], b[j] = b[j], b[i]
                yield "(array/swap %s %d %d)" % (mk(a), i, j), canon(Arr(b))
            else:
                yield attempt("(array/swap %s %d %d)" % (mk(a), i, j)), canon(ERR)
        for bad in ("#nil", "1", "'(1)", '"a"', "{}"):
            yield "(list %s %s)" % (attempt("(array/append %s %s)" % (mk(a), bad)), attempt("(array/append %s %s)" % (bad, mk(a)))), canon([ERR, ERR])
        yield "(filter %s odd?)" % mk(a), canon(Arr(x for x in a if x % 2))
        yield "(let* (def a %s) (def r (filter a (fn (x) (> x 11)))) (list a r (= a r)))" % mk(a), canon([Arr(a), Arr(x for x in a if x > 11), False])
        yield "(reduce %s (fn (a b) (cons b a)) 0)" % mk(a), canon(fold(a))
        yield "(let* (def a %s) (def r (map a (fn (x) (* x 2)))) (list r (= a r)))" % mk(a), canon([Arr(2 * x for x in a), True])
        yield "(let* (def a %s) (dotimes (i %d) (array/++ a i) (array/+= a i 5)) a)" % (mk(a), n), canon(Arr(x + 6 for x in a))


LONG = [255, 256, 257, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 99999, 100001, 131073, 262145]


def long_ones(thorough):
    """every element of long arrays; fresh ones are nil"""
    for n in LONG + ([1 << 20] if thorough else []):
        pre = "(def n %d) (def a (:alloc Array n)) (def bad 0) (def none (fn (t from) (def i from) (def l (:length t)) (while (< i l) (when-not (nil? (ref t i)) (inc! bad)) (set! i (+ i 1))))) (none a 0) (dotimes (i n) (set! a i (* i 3))) (def same (fn (t off len toff) (dotimes (i len) (when-not (= (ref t (+ i toff)) (* 3 (+ i off))) (inc! bad)))))" % n
        for m in (n + 1, n + 300, 2 * n, 2 * n + 5000):
            yield "(let* %s (:length! a %d) (none a n) (same a 0 n 0) (:length! a n) (:length! a (div/int n 2)) (same a 0 (div/int n 2) 0) (:length! a n) (none a (div/int n 2)) (list bad (:length a)))" % (pre, m), canon([0, n])
        yield "(let* %s (def c (array/dup a)) (set! a 0 :x) (set! a %d :x) (same c 0 n 0) (list bad (:length c)))" % (pre, n - 1), canon([0, n])
        yield "(let* %s (def c (array/append a a)) (same c 0 n 0) (same c 0 n n) (def d (:cut-of c)) (list bad (:length c)))".replace("(def d (:cut-of c)) ", "") % pre, canon([0, 2 * n])
        for x, y in ((0, n - 1), (1, n), (n // 2, n), (3, n - 3)):
            yield "(let* %s (def c (cut a %d %d)) (same c %d %d 0) (same a 0 n 0) (list bad (:length c)))" % (pre, x, y, x, y - x), canon([0, y - x])
        yield "(let* %s (def c (filter a even?)) (def s (reduce a + 0)) (array/push a :end) (same a 0 n 0) (map a (fn (x) (if (int? x) (+ x 3) x))) (same a 1 n 0) (list bad (:length c) s (ref a n) (:length a)))" % pre, canon([0, (n + 1) // 2, 3 * n * (n - 1) // 2, Kw("end"), n + 1])


def fold(a):
    r = 0
    for x in a:
        r = Pair(x, r)
    return r


def ops():
    def put(v, i, x):
        def f(st):
            if i >= len(st[v]):
                raise Err()
            st[v][i] = st["b"] if x is st else x
            return 1
        return f

    def ln(v, n):
        def f(st):
            del st[v][n:]
            st[v].extend([None] * (n - len(st[v])))
            return n
        return f

    def alias(st):
        st["b"] = st["a"]
        return 1

    def dup(st):
        st["b"] = Arr(st["a"])
        return 1

    def push(v, x):
        def f(st):
            st[v].append(x)
            return len(st[v])
        return f

    def app(st):
        st["b"] = Arr(list(st["a"]) + list(st["b"]))
        return len(st["b"])

    def cut(st):
        st["b"] = Arr(st["a"][1:3])
        return len(st["b"])

    def swap(st):
        a = st["a"]
        if len(a) < 3:
            raise Err()
        a[0], a[2] = a[2], a[0]
        return 1

    def fill(st):
        st["b"][:] = [7] * len(st["b"])
        return 1

    def mapp(st):
        st["a"][:] = [[x] for x in st["a"]]
        return 1

    def filt(st):
        st["b"] = Arr(x for x in st["a"] if type(x) is int)
        return len(st["b"])
    return [("(do (set! a 0 100) 1)", put("a", 0, 100)), ("(do (set! b 2 :x) 1)", put("b", 2, Kw("x"))), ("(:length (:length! a 1))", ln("a", 1)), ("(:length (:length! a 5))", ln("a", 5)), ("(:length (:length! b 4))", ln("b", 4)),
            ("(do (set! b a) 1)", alias), ("(do (set! b (array/dup a)) 1)", dup), ("(:length (array/push a 9))", push("a", 9)), ("(:length (array/push b \"p\"))", push("b", "p")),
            ("(:length (set! b (array/append a b)))", app), ("(:length (set! b (cut a 1 3)))", cut), ("(do (array/swap a 0 2) 1)", swap), ("(do (array/fill! b 7) 1)", fill), ("(do (map a list) 1)", mapp), ("(:length (set! b (filter a int?)))", filt)]


if __name__ == "__main__":
    ck = Check("C13", "model_checking")
    ck.cases("elements", elements())
    ck.cases("lengths", lengths())
    ck.cases("pieces", pieces())
    ck.cases("long ones", long_ones(ck.thorough), variant="plain", chunk=8, stall=100)
    ck.cases("sequences of operations", explore("(def a (array/new 1 2 3)) (def b (array/new 4))", lambda: {"a": Arr([1, 2, 3]), "b": Arr([4])}, ops(), 4 if ck.thorough else 3,
                                                "(list a b (= a b) (:length a) (:length b) (equal? a b))", lambda st: [st["a"], st["b"], st["a"] is st["b"], len(st["a"]), len(st["b"]), st["a"] == st["b"]]))
    ck.finish()
