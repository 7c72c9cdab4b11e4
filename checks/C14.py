"""The collection library.  Every list, array and tree of up to a number of
elements over a few values, through every function with every kind of function
argument, every range of cutting and counting, every pair of values for equality,
and all multisets up to a size for sorting."""
from common import *
import itertools

ERR = [Kw("err")]
EL = [(None, "#nil"), (False, "#f"), (1, "1"), (2, "2"), ("a", '"a"')]


def src(v):
    if isinstance(v, Arr):
        return "(array/new %s)" % " ".join(map(src, v))
    if isinstance(v, Tree):
        return "(tree/new %s)" % " ".join(":%s %s" % (k, src(x)) for k, x in v.items())
    if type(v) is list:
        return "(list %s)" % " ".join(map(src, v))
    if type(v) is str:
        return lit_str(v)
    if type(v) is Kw:
        return ":" + v
    if type(v) is Sym:
        return "'" + v
    return lit(v)


def seqs(n, el=None):
    for k in range(n + 1):
        for t in itertools.product([e[0] for e in (el or EL)], repeat=k):
            yield list(t)


def truth(v):
    return not (v is None or v is False or type(v) is list and not v)


def eq(a, b):
    return type(a) is type(b) and a == b


PRED = [("identity", truth), ("(fn (x) (= x 1))", lambda x: eq(x, 1)), ("nil?", lambda x: x is None), ("int?", lambda x: type(x) is int), ("(fn (x) #t)", lambda x: True), ("(fn (x) #nil)", lambda x: False), ("string?", lambda x: type(x) is str)]


def lists(n):
    for l in seqs(n):
        a, t = Arr(l), Tree(zip("abcdefgh", l))
        log = []
        calls = "(def L %s) (def A %s) (def T %s) (def log #nil) (defn note (x) (set! log (cons x log)) (list x))" % (src(l), src(a), src(t))
        yield "(let* %s (list (reverse L) (map L note) log (nreverse (reverse L)) (count L) (count A) (count T) (flatten L) (list? L) (collection? L) (collection? A) (collection? T) (array/dup A) (last-pair L) (except-last-pair L) (map (array/dup A) (fn (x) (list x))) L A T))" % calls, \
            canon([l[::-1], [[x] for x in l], l[::-1], l, len(l), len(l), len(l), l, len(l) > 0, len(l) > 0, True, True, a, l[-1:], l[:-1], Arr([[x] for x in l]), l, a, t])
        for p, f in PRED:
            yes, no = [x for x in l if f(x)], [x for x in l if not f(x)]
            yield "(let* %s (def p %s) (list (filter L p) (filter A p) (filter T p) (remove L p) (remove A p) (remove T p) (count L p) (count A p) (count T p) (boolean (every? L p)) (boolean (every? A p)) (boolean (every? T p)) L A T))" % (calls, p), \
                canon([yes, Arr(yes), Tree((k, x) for k, x in t.items() if f(x)), no, Arr(no), Tree((k, x) for k, x in t.items() if not f(x)), len(yes), len(yes), len(yes), all(map(f, l)), all(map(f, l)), all(map(f, l)), l, a, t])
        for e, s in EL:
            d = [x for x in l if not eq(x, e)]
            yield "(let* %s (list (delete L %s) (delete A %s) (delete T %s) (list/replace L %s :r) L A T))" % (calls, s, s, s, s if e is not None else ":none"), \
                canon([d, Arr(d), Tree((k, x) for k, x in t.items() if not eq(x, e)), [Kw("r") if e is not None and eq(x, e) else x for x in l], l, a, t])
        yield "(let* %s (list (reduce L (fn (a b) (cons b a)) :z) (reduce A (fn (a b) (cons b a)) :z) (reduce L (fn (a b) (list a b)) #nil) (reduce #nil + 5) L A))" % calls, canon([_pairs(l), _pairs(l), _fold(l), 5, l, a])
        # what the function throws gets out, nothing is changed
        k = len(l) // 2
        yield "(let* %s (def n 0) (defn boom (x . r) (when (= n %d) (throw (list :boom n))) (set! n (+ n 1)) x) %s (list r0 r1 r2 r3 r4 r5 L A T))" % (
            calls, k, " ".join("(set! n 0) (def r%d (try (fn (e) (list (car e) (cadr e))) %s :done))" % (i, c) for i, c in enumerate(("(map L boom)", "(filter L boom)", "(filter A boom)", "(for-each L boom)", "(every? L (fn (x) (boom x) #t))", "(reduce A (fn (a b) (boom b)) 0)")))), \
            canon([[Kw("boom"), k] if l else Kw("done")] * 6 + [l, a, t])


def _pairs(l):
    r = Kw("z")
    for x in l:
        r = Pair(x, r)
    return r


def _fold(l):
    r = None
    for x in l:
        r = [r, x]
    return r


def two(n):
    small = EL[:3]
    for l in seqs(n, small):
        for m in seqs(n, small):
            yield "(let* (def l %s) (def m %s) (def a %s) (def b %s) (list (append l m) (array/append a b) (equal? l m) (equal? a b) (list/equal? l m) (array/equal? a b) (not-equal? l m) (equal? l a) l m a b))" % (src(l), src(m), src(Arr(l)), src(Arr(m))), \
                canon([l + m, Arr(l + m), eqs(l, m), eqs(l, m), eqs(l, m), eqs(l, m), not eqs(l, m), False, l, m, Arr(l), Arr(m)])
    keys = "abc"
    trees = [Tree((k, v) for k, v in zip(keys, vs) if v != "-") for vs in itertools.product(["-", None, 1, 2], repeat=3)]
    for s in trees:
        for t in trees:
            m = Tree(s)
            m.update(t)
            yield "(let* (def s %s) (def t %s) (def m (tree/merge s t)) (set! m :z 1) (list m (equal? s t) (tree/equal? s t) (tree/merge s #nil) (tree/merge #nil t) s t))" % (src(s), src(t)), \
                canon([Tree(m, z=1), same(s, t), same(s, t), s, t, s, t])


def eqs(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def same(a, b):
    if type(a) is list and not a:
        a = None
    if type(b) is list and not b:
        b = None
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, Arr)):
        return eqs(a, b)
    if isinstance(a, Tree):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def equality(thorough):
    atoms = [None, False, True, 0, 1, 1.0, 0.0, "", "a", Kw("a"), Sym("a"), [], Arr(), Tree()]
    vals = list(atoms)
    for x in atoms[:11] if not thorough else atoms:
        vals += [[x], [x, x], Arr([x]), Tree(a=x), [[x]], Arr([[x]]), [1, x], Tree(b=x)]
    vals += [[1, [2, [3]]], [[1], 2, [3]], [1, 2, 3], [1, 2], Arr([1, 2, 3]), Tree(a=Tree(b=1)), Tree(a=1, b=2), Tree(b=2, a=1), Tree(a=1, b=3), Tree(a=1, c=2)]
    for i in range(0, len(vals)):
        yield "(let* (def v %s) (list %s))" % (src(vals[i]), " ".join("(equal? v %s)" % src(w) for w in vals)), canon([same(vals[i], w) for w in vals])
    for s, w in (("(cons 1 2)", "(cons 1 2)"), ("(cons 1 (cons 2 3))", "(cons 1 (cons 2 3))")):
        yield "(list (equal? %s %s) (equal? %s (cons 1 3)) (equal? %s (list 1 2)) (equal? car car) (equal? car cdr) (equal? + +) (let* (def f (fn () 1)) (equal? f f)))" % (s, w, s, s), canon([True, False, False, True, False, True, True])


def ranges():
    R = [-3, -1, 0, 1, 2, 3, 4, 7]
    for n in range(0, 5):
        l = list(range(10, 10 + n))
        for a in R:
            yield "(let* (def l %s) (def v (array/new %s)) (list %s l v))" % (src(l), " ".join(map(str, l)), " ".join("(cut v %d %d)" % (a, b) for b in R)), canon([Arr(l[max(0, a):max(0, b)]) for b in R] + [l, Arr(l)])
            if n:
                yield "(let* (def l %s) (list %s l))" % (src(l), " ".join("(cut l %d %d)" % (a, b) for b in R)), canon([[l[i] if i < n else None for i in range(max(0, a), b)] for b in R] + [l])
            yield "(let* (def l %s) (list (list-take l %d) (list-drop l %d) l))" % (src(l), a, a), canon([[l[i] if i < n else None for i in range(a)], l[max(0, a):], l])
    for a in range(-4, 8):
        for b in range(-4, 8):
            for s in (1, 2, 3, -1, -2, 7):
                yield "(range %d %d %d)" % (b, a, s), canon(list(range(a, b, s)))
        yield "(list (range %d) (range %d 2))" % (a, a), canon([list(range(a)), list(range(2, a))])
    for a in (-1.5, 0.5, 2.5):
        yield "(list (range %s) (range 3 %s) (range %s 0 0.5))" % (a, a, a), canon([[float(x) if False else x for x in range(0, 9) if x < a], [a + i for i in range(9) if a + i < 3], [0 if not i else i * 0.5 for i in range(9) if i * 0.5 < a]])
    for n in (1000, 5000, 20000):
        yield "(let* (def l (range %d)) (list (:length l) (sum l) (:length (map l inc)) (:length (filter l odd?)) (car (reverse l)) (sum (reverse l)) (:length (append l l)) (reduce l max -1) (count l even?) (:length (list-take l 1000)) (:length (list-drop l %d)) (car (last-pair l)) (equal? l (range %d))))" % (n, n - 3, n), \
            canon([n, n * (n - 1) // 2, n, n // 2, n - 1, n * (n - 1) // 2, 2 * n, n - 1, (n + 1) // 2, 1000, 3, n - 1, True])


def nested(thorough):
    leaf = [1, "a", None]

    def gen(d):
        for x in leaf:
            yield x
        if d:
            sub = list(gen(d - 1))
            for k in (1, 2) if d > 1 or thorough else (1, 2, 3):
                for t in itertools.product(sub, repeat=k):
                    yield list(t)
                    yield Arr(t)

    def flat(v):
        if isinstance(v, Tree):
            return [y for x in v.values() for y in flat(x)]
        if isinstance(v, (list, Arr)):
            return [y for x in v for y in flat(x)]
        return [v]
    for v in gen(2 if thorough else 1):
        yield "(let* (def v %s) (list (flatten v) v))" % src(v), canon([flat(v) if isinstance(v, (list, Arr)) else v, v])
    for v in gen(1):
        w = [v, [1, v], Arr([v, 2])]
        yield "(flatten %s)" % src(w), canon(flat(w))


def small_functions():
    for ks in itertools.product("ab", repeat=3):
        for n in range(4):
            vs = [1, None, "x"][:n]
            t = Tree()
            for i, k in enumerate(ks):
                t[k] = vs[i] if i < n else None
            yield "(tree/zip (list %s) %s)" % (" ".join(":" + k for k in ks), src(vs)), canon(t)
    for v in (0, 1, -5, I64MAX):
        for k in (1, -1, 7):
            yield "(let* (def t (tree/new :a %s)) (def a (array/new 1 %s)) (tree/+= t :a %d) (tree/+= t :b %d) (tree/++ t :c) (tree/-- t :d) (tree/-= t :a 2) (array/+= a 1 %d) (array/++ a 0) (list t a))" % (lit(v), lit(v), k, k, k), \
                canon([Tree(a=s64(v + k - 2), b=k, c=1, d=-1), Arr([2, s64(v + k)])])
    for n in range(6):
        a = list(range(n))
        for i in range(n):
            for j in range(n):
                b = list(a)
                b[i], b[j] = b[j], b[i]
                yield "(let* (def a %s) (def r (array/swap a %d %d)) (list a (= a r)))" % (src(Arr(a)), i, j), canon([Arr(b), True])
        yield "(let* (def a %s) (def r (array/push a :new)) (def f (array/fill! (array/dup a) 7)) (list a (= a r) f (array/push (array/push f 1) #nil)))" % src(Arr(a)), canon([Arr(a + [Kw("new")]), True, Arr([7] * (n + 1) + [1, None]), Arr([7] * (n + 1) + [1, None])])
    for n in range(0, 7):
        l = list(range(n))
        nth = [l[i] if i < n else None for i in range(7)]
        yield "(let* (def l %s) (list (car l) (cadr l) (caddr l) (cadddr l) (caddddr l) (cddr l) (cdddr l) (cddddr l) (cdddddr l)))" % src(l), canon(nth[:5] + [l[2:], l[3:], l[4:], l[5:]])
        yield "(let* (def l %s) (def d (append l 9)) (list (:length l) (:length d) d l))" % src(l), canon([n, n + 1 if n else 0, Raw("(%s . i9)" % " ".join("i%d" % i for i in l)) if n else 9, l])
        at = [0, 1, 2, n - 1, n, n + 1, 254, 65535, 65536] + [k + o for k in (1 << 31, 1 << 32, 1 << 33, 3 << 32, 1 << 40, 1 << 62) for o in (-1, 0, 1, 2)]
        if n:
            yield "(let* (def l %s) (list %s))" % (src(l), " ".join("(ref l %s)" % lit(i) for i in at if i >= 0)), canon([l[i] if i < n else None for i in at if i >= 0])
            yield "(let* (def l %s) (list %s l))" % (src(l), " ".join(attempt("(ref l %s)" % i) for i in ("-1", "-4294967296", "-2147483648", "1.0", "#nil", '"0"', ":a", "'(0)", "#t"))), canon([ERR] * 9 + [l])
    for f in ("filter", "map", "reduce", "count", "every?", "remove"):
        for bad in ("1", '"abc"', ":a", "'a", "1.5", "car", "#t", "(buffer/allocate 2)"):
            yield attempt("(%s %s identity)" % (f, bad)), canon(ERR)
    for bad in ("1", ":a", "'a", "1.5", "car", "#t", '"abc"'):
        yield "(list %s %s)" % (attempt("(sort %s)" % bad), attempt("(sum %s)" % bad)), canon([ERR, ERR])
    yield "(list %s %s %s)" % (attempt("(array/append (array/new 1) (list 1))"), attempt("(array/append 1 (array/new 1))"), attempt("(range)")), canon([ERR] * 3)


def sorts(thorough):
    n = 7 if thorough else 6
    for k in range(0, n + 1):
        for p in itertools.permutations(range(k)):
            yield "(let* (def l %s) (def a %s) (list (sort l) (sort a) (list/sort l >) l))" % (src(list(p)), src(Arr(p))), canon([sorted(p), Arr(sorted(p)), sorted(p, reverse=True), list(p)])
    for k in range(1, 6 if thorough else 5):
        for t in itertools.product((3, -1, 2, 3.5, "z") if k < 3 else (3, -1, 2), repeat=k):
            if any(type(x) is str for x in t) and not all(type(x) is str for x in t):
                continue
            s = sorted(t)
            yield "(let* (def l %s) (list (sort l) (sort %s) l))" % (src(list(t)), src(Arr(t))), canon([s, Arr(s), list(t)])
    for k in range(1, 4):
        for t in itertools.product(["", "a", "ab", "b", "B"], repeat=k):
            yield "(let* (def l %s) (list (sort l) (sort %s)))" % (src(list(t)), src(Arr(t))), canon([sorted(t), Arr(sorted(t))])
    for nn in (100, 1000, 3000):
        for mul in (7, 31, 997):
            v = [(i * mul) % 1009 for i in range(nn)]
            yield "(let* (def l #nil) (def a (:alloc Array %d)) (dotimes (i %d) (set! l (cons (rem (* i %d) 1009) l)) (set! a i (rem (* i %d) 1009))) (list (sort l) (sort a)))" % (nn, nn, mul, mul), canon([sorted(v), Arr(sorted(v))])


def main():
    ck = Check("C14", "model_checking")
    t = ck.thorough
    ck.cases("one collection", lists(5 if t else 3))
    ck.cases("two collections", two(4 if t else 3))
    ck.cases("equality", equality(t))
    ck.cases("ranges", ranges(), stall=60)
    ck.cases("nested collections", nested(t))
    ck.cases("small functions", small_functions())
    ck.cases("sorting", sorts(t), stall=60)
    ck.assumptions += ["taking more elements than a list has yields #nil for them; map changes arrays in place, both as documented by the tests"]
    ck.finish()


main()
