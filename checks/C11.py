"""Trees are maps.  (1) Every order of inserting up to 7 (thorough 8) keys, which
are interned in a known order so that every rotation of the balanced tree takes
place: every lookup, membership test, the keys, the values, the size and the
height.  (2) Every sequence of operations up to a depth on two variables that may
alias, against dictionaries."""
from common import *
import itertools, math

KEYS = ["ka", "kb", "kc", "kd", "ke", "kf", "kg", "kh", "ki"]


def orders(n, mk):
    setup = "(list %s)" % " ".join(":" + k for k in KEYS)     # interned in this order
    for p in itertools.permutations(range(n)):
        yield mk(setup, p, n)


HEIGHT = "(def height (fn (t) (if (nil? t) 0 (+ 1 (max (height (:left* t)) (height (:right* t)))))))"


def limit(n):
    return 0 if n == 0 else int(1.4405 * math.log2(n + 2) - 0.3277)


def by_set(setup, p, n):
    v = Tree({KEYS[k]: i for i, k in enumerate(p)})
    line = "(let* %s %s (def t (tree/new)) %s (list t (:length t) (:length (:keys t)) (sort (:values t)) (map (list %s) (fn (k) (list (:has? t k) (ref t k)))) (<= (height t) %d)))" % (
        setup, HEIGHT, " ".join("(set! t :%s %d)" % (KEYS[k], i) for i, k in enumerate(p)), " ".join(":" + k for k in KEYS[:8]), limit(n))
    return line, canon([v, n, n, list(range(n)), [[k in v, v.get(k)] for k in KEYS[:8]], True])


def by_new(setup, p, n):
    v = Tree({KEYS[k]: i for i, k in enumerate(p)})
    # a tree literal, all keys set again in a different order, and a copy that is changed
    line = "(let* %s (def t {%s}) (def c (:clone t)) %s (set! c :%s :changed) (list t c (map (list %s) (fn (k) (ref t k)))))" % (
        setup, " ".join(":%s %d" % (KEYS[k], i) for i, k in enumerate(p)), " ".join("(set! t :%s %d)" % (KEYS[k], 10 + k) for k in sorted(p)), KEYS[8], " ".join(":" + k for k in KEYS[:8]))
    t = Tree({KEYS[k]: 10 + k for k in p})
    c = Tree(dict(v, **{KEYS[8]: Kw("changed")}))
    return line, canon([t, c, [t.get(k) for k in KEYS[:8]]])


def duplicates():
    """tree literals and tree/new in which a key turns up again: the last one counts"""
    ks = KEYS[:4]
    for n in range(2, 6):
        for p in itertools.product(range(3), repeat=n):
            if len(set(p)) == n:
                continue
            v = Tree({ks[k]: i for i, k in enumerate(p)})
            body = " ".join(":%s %d" % (ks[k], i) for i, k in enumerate(p))
            sym = " ".join("'%s %d" % (ks[k], i) for i, k in enumerate(p))
            odd = Tree({**v, ks[3]: None})
            yield "(let* (def a {%s}) (def b (tree/new %s)) (def c (apply tree/new (list %s))) (list a b c (:length a) (:length b) (count c) (:length (:keys a)) (sum (:values b)) (ref a :%s)))" % (body, sym, body, ks[p[0]]), \
                canon([v, v, v, len(v), len(v), len(v), len(v), sum(v.values()), v[ks[p[0]]]])
            # a key at the end without a value
            yield "(let* (def a {%s :%s}) (def b (tree/new %s :%s)) (list a b (:length a)))" % (body, ks[3], body, ks[3]), canon([odd, odd, len(odd)])


def by_copy(setup, p, n):
    """a copy made in the middle: both go on growing, balanced, on their own"""
    for at in range(1, n):
        a, b = p[:at], p[at:]
        line = "(let* %s %s (def t (tree/new)) %s (def c (:clone t)) %s %s (list t c (<= (height c) %d) (<= (height t) %d) (:length t) (:length c)))" % (
            setup, HEIGHT, " ".join("(set! t :%s %d)" % (KEYS[k], k) for k in a), " ".join("(set! c :%s %d)" % (KEYS[k], k) for k in b),
            "(set! t :%s 99)" % KEYS[b[-1]], limit(n), limit(at + 1))
        yield line, canon([Tree({**{KEYS[k]: k for k in a}, KEYS[b[-1]]: 99}), Tree({KEYS[k]: k for k in p}), True, True, at + 1, n])


def copies(n):
    setup = "(list %s)" % " ".join(":" + k for k in KEYS)
    for p in itertools.permutations(range(n)):
        yield from by_copy(setup, p, n)


def by_env(setup, p, n):
    """variables of a scope are kept in the same kind of tree"""
    line = "(let* %s (def e (let* %s (current-closure))) %s (list %s))" % (
        setup, " ".join("(def %s %d)" % (KEYS[k], i) for i, k in enumerate(p)), "(def x 0)", " ".join("(ref e '%s)" % KEYS[k] for k in range(n)))
    pos = {k: i for i, k in enumerate(p)}
    return line, canon([pos[k] for k in range(n)])


def ops():
    def s(v, k, x):
        def f(st):
            st[v][k] = x
            return st[v]
        return f

    def get(v, k):
        return lambda st: st[v].get(k)

    def alias(st):
        st["u"] = st["t"]
        return st["u"]

    def clone(st):
        st["u"] = Tree(st["t"])
        return st["u"]

    def inc(st):
        a = st["t"].get("a")
        st["t"]["a"] = (a or 0) + 5
        return st["t"]

    def merge(st):
        st["t"] = Tree({**st["t"], **st["u"]})
        return st["t"]

    def filt(st):
        st["u"] = Tree({k: v for k, v in st["t"].items() if v is not None and v > 1})
        return st["u"]

    def nest(st):
        st["t"] = Tree({"b": 3, "c": st["t"].get("a")})
        return 0

    return [
        ("(set! t :a 1)", s("t", "a", 1)), ("(set! t :b 2)", s("t", "b", 2)), ("(set! u :a 3)", s("u", "a", 3)), ("(set! u 'c 4)", s("u", "c", 4)), ("(set! t :a #nil)", s("t", "a", None)),
        ("(set! u t)", alias), ("(set! u (:clone t))", clone), ("(tree/+= t :a 5)", inc), ("(set! t (tree/merge t u))", merge),
        ("(set! u (filter t (fn (v) (and (int? v) (> v 1)))))", filt), ("(do (set! t {:b 3 :c (ref t :a)}) 0)", nest),
        ("(list (ref t :a) (ref t :c) (:has? t :a) (:has? u :c) (:length t))", lambda st: [st["t"].get("a"), st["t"].get("c"), "a" in st["t"], "c" in st["u"], len(st["t"])]),
        ("(set! u 1 2)", raising), ("(ref t \"a\")", raising),
        ("(list (tree/equal? t u) (equal? t u))", lambda st: [dict(st["t"]) == dict(st["u"])] * 2),
    ]


OBS = "(list t u (= t u) (:length t) (:length u) (count u) (:length (:values t)) (sum (map (:values u) (fn (v) (or v 0)))))"


def obsm(st):
    t, u = st["t"], st["u"]
    return [t, u, t is u, len(t), len(u), len(u), len(t), sum(v or 0 for v in u.values())]


def many():
    """many keys, in orders with long runs"""
    for n in (10, 31, 32, 33, 100, 128, 255, 256, 257, 700) + ((2000, 5000) if ck.thorough else ()):
        for name, f in (("up", "i"), ("down", "(- N (+ i 1))"), ("stride", "(rem (* i 7919) N)"), ("zigzag", "(if (odd? i) (div/int i 2) (- (- N 1) (div/int i 2)))")):
            line = ("(let* %s (def N %d) (def syms (array/new)) (:length! syms N) (dotimes (i N) (set! syms i (:keyword (cat \"m\" i)))) (def t {}) (dotimes (i N) (let ((k %s)) (set! t (ref syms k) k)))"
                    " (def ok 0) (dotimes (i N) (when (= i (ref t (ref syms i))) (set! ok (+ ok 1)))) (list ok (:length t) (:length (:keys t)) (<= (height t) %d) (sum (:values t)) (ref t :absent)))") % (HEIGHT, n, f, limit(n))
            yield line, canon([n, n, n, True, n * (n - 1) // 2, None])
            again = line.replace("(def ok 0)", "(def u (:clone t)) (dotimes (j N) (let* (def i (rem (* j 7) N)) (set! t (ref syms i) (case (rem i 4) (0 #nil) (1 #f) (2 (- 0 i)) (3 :k))))) (def bad 0) (dotimes (i N) (when-not (equal? (ref t (ref syms i)) (if (= 0 (rem N 7)) (if (= 0 (rem i 7)) (case (rem i 4) (0 #nil) (1 #f) (2 (- 0 i)) (3 :k)) i) (case (rem i 4) (0 #nil) (1 #f) (2 (- 0 i)) (3 :k)))) (inc! bad))) (def n2 (:length t)) (def h2 (height t)) (set! t u) (def ok 0)")
            yield again.replace("(list ok", "(list bad n2 (= h2 (height t)) ok"), canon([0, n, True, n, n, n, True, n * (n - 1) // 2, None])
            for at in (1, n // 2, n - 1):
                yield line.replace("(dotimes (i N) (let ((k", "(dotimes (i N) (when (= i %d) (set! t (:clone t))) (let ((k" % at), canon([n, n, n, True, n * (n - 1) // 2, None])


def walked(n):
    """values of every kind at every node: the functions that walk a tree, looking it up
    by symbols and keywords, and what a node is that isn't there"""
    vals = [("#nil", None), ("#f", False), ("#t", True), ("0", 0), (":kw", Kw("kw")), ('""', ""), ("'(1)", [1]), ("{}", Tree())]
    for p in itertools.permutations(range(n)):
        for off in range(len(vals)):
            m = {k: vals[(k * 3 + off) % len(vals)] for k in range(n)}
            line = "(let* (list %s) (def t (tree/new)) %s (def out #nil) (defn walk (t) (when t (when (:length t) (walk (:left* t)) (set! out (cons (list (:key* t) (:value* t)) out)) (walk (:right* t))))) (walk t) (list (nreverse out) (map (list %s) (fn (k) (list (:has? t k) (:has? t (:symbol (:string k))) (ref t k) (ref t (:symbol (:string k)))))) (:length t)))".replace("(when (:length t) (walk", "(when (:key* t) (walk") % (
                " ".join(":" + k for k in KEYS), " ".join("(set! t %s%s %s)" % ("'" if (i + off) % 2 else ":", KEYS[k], m[k][0]) for i, k in enumerate(p)), " ".join(":" + k for k in KEYS[:n + 1]))
            yield line, WALK([[KEYS[k], m[k][1]] for k in range(n)], [[k in m, k in m] + [m[k][1] if k in m else None] * 2 for k in range(n + 1)], n)
    yield "(let* (def t (tree/new)) (list (:key* t) (:value* t) (:left* t) (:right* t) (:has? t :a) (:length t)))", canon([None, None, None, None, False, 0])
    for v, m in vals:
        yield "(let* (def t (tree/new :ka %s)) (list (:value* t) (:left* t) (:right* t) (:has? t :ka) (:has? t 'ka)))" % v, canon([m, None, None, True, True])


def WALK(nodes, found, n):
    return canon([[[Kw(k), v] for k, v in nodes], found, n])


if __name__ == "__main__":
    ck = Check("C11", "model_checking")
    for n in range(1, 9 if ck.thorough else 7):
        ck.cases("orders of %d keys, inserted" % n, orders(n, by_set))
        if n < 8:
            ck.cases("orders of %d keys, literal and copy" % n, orders(n, by_new))
            ck.cases("orders of %d variables" % n, orders(n, by_env))
    ck.cases("orders of 7 keys, inserted", orders(7, by_set)) if not ck.thorough else None
    for n in range(2, 8 if ck.thorough else 7):
        ck.cases("orders of %d keys, copied in between" % n, copies(n))
    ck.cases("keys that turn up again", duplicates())
    for n in range(1, 7 if ck.thorough else 6):
        ck.cases("walking %d keys" % n, walked(n))
    ck.cases("many keys", many(), chunk=5)
    ck.cases("sequences of operations", explore("(def t {}) (def u {:z 9})", lambda: {"t": Tree(), "u": Tree(z=9)}, ops(), 4 if ck.thorough else 3, OBS, obsm))
    ck.finish()
