"""Garbage collection is transparent.  The runtime only collects at safepoints
(jumps, calls, handlers); which of them it takes depends on the fill level of the
heaps.  A hook makes the collector run at exactly the safepoints a schedule
names.  Every program of (values x places that hold the only reference to them)
runs under every schedule: one collection at each single safepoint, every pair of
safepoints, and a collection at all of them.  Freed cells are poisoned, so any
later use of one is seen even if its contents survived."""
from common import *
import itertools, re

S = "(s)"    # a safepoint: a call and a jump
PRE = "(defn s () (if #t 1 2)) "

# (name, expression making a fresh value, how to observe it)
VALUES = [
    ("pair", "(cons 1 2)", "%s"),
    ("list", "(list 1 (list 2 (list (:cut \"-l3-\" 1 3))))", "%s"),
    ("string", "(:cut \"-abcd-\" 1 5)", "%s"),
    ("buffer", "(let ((b (buffer/allocate 5))) (set! b 2 77) b)", "%s"),
    ("view", "(let ((w (:s16 (buffer/allocate 6) #f))) (set! w 1 -5) w)", "%s"),
    ("view of a buffer", "(let ((b (buffer/allocate 4))) (set! b 3 9) (:u8 b #f))", "(list (:length %s) (ref %s 3))"),
    ("read-only view", "(let ((b (buffer/allocate 4))) (set! b 3 9) (:u8 b #t))", "(list (:length %s) (ref %s 3))"),
    ("float view", "(let ((b (buffer/allocate 16))) (let ((v (:f64 b #f))) (set! v 1 2.5) (:f64 b #t)))", "(list (:length %s) (ref %s 1))"),
    ("keys of nothing", "(let ((t (tree/new))) (set! t (:keyword (cat \"ke\" \"y1\")) #nil) (set! t (:keyword (cat \"ke\" \"y2\")) 5) (set! t (:symbol (cat \"ke\" \"y3\")) #f) t)", "(sort (map (:keys %s) :string))"),
    ("scope of nothing", "(let* (def e (current-closure)) (set! e (:symbol (cat \"dy\" \"n1\")) #nil) (set! e (:symbol (cat \"dy\" \"n2\")) 1) e)", "(sort (filter (map (:keys (:data %s)) :string) (fn (x) (= (ref x 0) #\\d))))"),
    ("arguments", "(eval (list 'fn (list (:symbol (cat \"ar\" \"g1\")) (:symbol (cat \"ar\" \"g2\"))) 1))", "(:arguments %s)"),
    ("array", "(array/new 1 (:cut \"-xy-\" 1 3) (list 3))", "%s"),
    ("nested array", "(array/new (array/new (array/new (cons 1 2))))", "%s"),
    ("tree", "(tree/new :a (list 1) :b (:cut \"-pq-\" 1 3) :c (array/new 5))", "%s"),
    ("nested tree", "(tree/new :a (tree/new :b (tree/new :c (cons 4 5))))", "%s"),
    ("symbol", "(:symbol (:cut \"-fresh-symbol-\" 1 13))", "%s"),
    ("long names", "(cons (:symbol (cat \"a name that is much longer than most \" \"of them are, but still short enough\")) (:keyword (cat \"another one that is a little shorter\" \" and a keyword\")))", "%s"),
    ("keyword", "(:keyword (:cut \"-fresh-keyword-\" 1 14))", "%s"),
    ("lambda", "(let ((q (list 7 8))) (fn () q))", "(%s)"),
    ("lambda in lambda", "(let ((q (:cut \"-78-\" 1 3))) (fn () (fn () q)))", "((%s))"),
    ("environment", "(let ((q (list 7 8))) (current-closure))", "(ref %s 'q)"),
    ("number", "(+ 40 2)", "%s"),
    ("object", "(tree/new :prototype* (tree/new :get (fn (self) (ref self :v))) :v (list 1 2))", "(:get %s)"),
    ("bound meta", "(:meta! (fn () 1) :k (list 6 7))", "(:meta %s :k)"),
    ("exception", "(try identity (throw (list :e (:cut \"-mn-\" 1 3))))", "(list (car %s) (cadr %s))"),
    ("image", "(buffer->string (buffer/allocate 3) 2)", "%s"),
]


def obs(o, x):
    return o.replace("%s", x)


# (name, program around V; OBS(x) observes it)
HOLD = [
    ("def", "(def x V) (s) OBS(x)"),
    ("let", "(let ((x V)) (s) (s) OBS(x))"),
    ("let*", "(let* (def x V) (s) OBS(x))"),
    ("shadowed", "(let ((x V)) (let ((x 1)) (s) (s)) OBS(x))"),
    ("set!", "(def x 1) (set! x V) (s) OBS(x)"),
    ("operand", "(def x (list V (s) V (s))) (list OBS((ref x 0)) OBS((ref x 2)))"),
    ("deep operand", "(def x (list 1 2 (list 3 (list V (s)) (s)) (s))) OBS((ref (ref (ref x 2) 1) 0))"),
    ("argument", "((fn (x) (s) OBS(x)) V)"),
    ("rest argument", "((fn x (s) OBS((cadr x))) 1 V)"),
    ("rest argument 2", "((fn (a . x) (s) OBS((car x))) 1 V 2)"),
    ("argument of a caller", "(def g (fn (k) (if k (s) 1))) ((fn (x y) (g 1) (g 2) OBS(x)) V 1)"),
    ("closed over", "(def f ((fn (x) (fn () x)) V)) (s) OBS((f))"),
    ("closed over twice", "(def f ((fn (x) (fn (y) (fn () (list x y)))) V)) (s) (def g (f 1)) (s) OBS((car (g)))"),
    ("shared by closures", "(def f ((fn (x) (list (fn (v) (set! x v)) (fn () x))) 0)) ((car f) V) (s) OBS(((cadr f)))"),
    ("tree value", "(def t (tree/new :a V)) (s) OBS((ref t :a))"),
    ("tree set!", "(def t (tree/new)) (dotimes (i 5) (set! t (ref '(:a :b :c :d :e) i) V) (s)) (list OBS((ref t :a)) OBS((ref t :e)))"),
    ("tree duplicate", "(def t (:clone (tree/new :a V :b 1))) (s) OBS((ref t :a))"),
    ("array slot", "(def t (:alloc Array 3)) (set! t 1 V) (s) OBS((ref t 1))"),
    ("between nothing", "(def t (array/new #nil V #nil)) (s) OBS((ref t 1))"),
    ("after nothing", "(def t (cons #nil (cons #f V))) (s) OBS((cddr t))"),
    ("before nothing", "(def t (cons (cons V #nil) #nil)) (s) OBS((caar t))"),
    ("beside nothing", "(def t (tree/new :a #nil :b V :c #nil)) (s) OBS((ref t :b))"),
    ("array grown", "(def t (array/new V)) (:length! t 20) (s) OBS((ref t 0))"),
    ("car", "(def t (cons V 1)) (s) OBS((car t))"),
    ("cdr", "(def t (cons 1 V)) (s) OBS((cdr t))"),
    ("list built", "(def l #nil) (dotimes (i 4) (set! l (cons V l)) (s)) OBS((ref l 3))"),
    ("thrown", "(try (fn (e) (s) OBS((car e))) (s) (throw (list V)))"),
    ("thrown through calls", "(def f (fn (n) (if (= n 0) (throw (list V)) (+ 1 (f (- n 1)))))) (try (fn (e) (s) OBS((car e))) (f 3))"),
    ("rethrown", "(try (fn (e) (s) OBS((car e))) (try (fn (e) (s) (throw (list (car e)))) (throw (list V))))"),
    ("handler", "(try (let ((v V)) (fn (e) (s) OBS(v))) (s) (throw 1))"),
    ("nested handlers", "(try (let ((v V)) (fn (e) (s) OBS(v))) (try (let ((w V)) (fn (e) (s) (throw w))) (s) (throw 2)) (s))"),
    ("result of try", "(def x (try (fn (e) 1) (s) V)) (s) OBS(x)"),
    ("below a try", "(def x (list V (try (fn (e) (s) (car e)) (list 1 2 (throw 3))) (s))) OBS((car x))"),
    ("in a try body", "(try (fn (e) 1) (def x V) (s) OBS(x))"),
    ("returned", "(def f (fn () (while #t (let ((x V)) (s) (return x))))) (def r (f)) (s) OBS(r)"),
    ("returned from a try", "(def f (fn () (list 1 (try (fn (e) 2) (let ((x V)) (s) (return x)))))) (def r (f)) (s) OBS(r)"),
    ("on the stack of callers", "(def f (fn (n) (if (= n 0) (do (s) #nil) (cons V (f (- n 1)))))) (def r (f 3)) OBS((ref r 2))"),
    ("applied", "(apply (fn (a x) (s) OBS(x)) (list 1 V))"),
    ("applied rest", "(apply (fn l (s) OBS((cadr l))) (list 1 V))"),
    ("mapped", "(def r (map (list 1 2) (fn (i) (s) V))) (list OBS((car r)) OBS((cadr r)))"),
    ("mapped array", "(def r (map (array/new 1 2) (fn (i) (s) V))) (list OBS((ref r 0)) OBS((ref r 1)))"),
    ("reduced", "(def r (reduce (list 1 2 3) (fn (a b) (s) (cons V a)) #nil)) OBS((caddr r))"),
    ("filtered", "(def r (filter (list V V) (fn (x) (s) #t))) OBS((cadr r))"),
    ("sorted", "(def r (sort (list 3 1 2))) (def x V) (s) (list r OBS(x))"),
    ("iterated over", "(def r 0) (doseq (x (list V V)) (s) (set! r OBS(x))) r"),
    ("method receiver", "(defn meth (self y) (s) (s) (list y OBS((ref self :v)))) (:m (tree/new :m meth :v V) 3)"),
    ("prototype", "(def p (tree/new :m (fn (self) (s) (ref self :v)) :v V)) (def o (tree/new :prototype* p :v V)) (s) OBS((:m o))"),
    ("meta", "(def f (fn () 1)) (:meta! f :k V) (s) OBS((:meta f :k))"),
    ("environment", "(def e (let ((x V)) (current-closure))) (s) OBS((ref e 'x))"),
    ("environment set!", "(def e (environment* (def x 1))) (set! e 'x V) (s) OBS((ref e 'x))"),
    ("appended", "(def r (append (list 1 2) (list V))) (s) OBS((caddr r))"),
    ("nreversed", "(def r (nreverse (list V 1))) (s) OBS((cadr r))"),
    ("case", "(case (do (s) 2) (1 2) (2 (s) OBS(V)))"),
    ("and or", "(def x (and (s) (or #nil V))) (s) OBS(x)"),
    ("string port", "(def p (:new StringOutputPort)) (def x V) (dotimes (i 3) (:block-write p \"abc\") (s)) (list (:return-string p) OBS(x))"),
    ("dynamic lambda", "(def mk (fn (v) (fn () (s) v))) (def fs (list (mk V) (mk V))) (s) OBS(((cadr fs)))"),
]

# the only way to a value leads through scopes of every kind
SCOPES = [("fn", "((fn (p%d) %s) 0)"), ("let", "(let ((p%d 1)) %s)"), ("empty let", "(let () %.0d%s)"), ("let*", "(let* (def p%d 2) %s)"), ("try", "(try (fn (e) 1) (def p%d 1) %s)"), ("empty try", "(try (fn (e) 1) %.0d%s)"), ("try of a native", "(try car (def p%d 1) %s)"),
          ("handler", "(try (fn (p%d) %s) (throw 1))"), ("caught", "(try (fn (e) ((car e))) (throw (let ((p%d 1)) (fn () %s))))"), ("evaluated", "(eval-in (let ((p%d 1)) (current-closure)) '%s)"), ("while", "(let ((r #nil)) (while (nil? r) (def p%d 1) (set! r %s)) r)")]


def scoped(depth):
    for n in range(1, depth + 1):
        for t in itertools.product(SCOPES, repeat=n):
            names = " in ".join(x[0] for x in reversed(t))
            for kind, inner, use in (("function", "(fn () x)", "((f))"), ("scope", "(current-closure)", "((ref f 'x))")):
                e = inner
                for i, x in enumerate(reversed(t)):
                    e = x[1] % (i, e)
                yield "%s of %s" % (kind, names), "(def f ((fn (x) %s) V)) (s) OBS%s" % (e, use if kind == "function" else "((eval-in f 'x))")


# containers of any size: every element is a fresh string
SIZES = [1, 100, 255, 256, 1000, 4095, 4096, 4097, 9000, 16000]
BIG = [("array", "(let ((a (:alloc Array %d))) (dotimes (i (:length a)) (set! a i (cat \"v\" i))) a)", "(list (:length %s) (ref %s 0) (ref %s (div/int (:length %s) 2)) (ref %s (- (:length %s) 1)) (reduce %s (fn (a b) (+ a (:length b))) 0))"),
       ("list", "(let ((a #nil)) (dotimes (i %d) (set! a (cons (cat \"v\" i) a))) a)", "(list (:length %s) (car %s) (ref %s (- (:length %s) 1)) (reduce %s (fn (a b) (+ a (:length b))) 0))"),
       ("tree", "(let ((a (tree/new)) (n (min 14000 %d))) (dotimes (i n) (set! a (:keyword (cat \"v\" i)) (if (= (rem i 2) 0) #nil (cat \"w\" i)))) a)", "(list (:length (:keys %s)) (ref %s :v1) (reduce (:keys %s) (fn (a b) (+ a (:length (:string b)))) 0) (reduce (:values %s) (fn (a b) (+ a (if b (:length b) 1))) 0))"),
       ("chain of pairs", "(let ((a #nil)) (dotimes (i %d) (set! a (cons a (cat \"v\" i)))) a)", "(let ((n 0) (x %s)) (while (pair? x) (set! n (+ n (:length (cdr x)))) (set! x (car x))) n)"),
       ("chain of arrays", "(let ((a #nil)) (dotimes (i (min 6000 %d)) (set! a (array/new a (cat \"v\" i)))) a)", "(let ((n 0) (x %s)) (while x (set! n (+ n (:length (ref x 1)))) (set! x (ref x 0))) n)"),
       ("chain of trees", "(let ((a #nil)) (dotimes (i %d) (set! a (tree/new :n a :v (cat \"v\" i)))) a)", "(let ((n 0) (x %s)) (while x (set! n (+ n (:length (ref x :v)))) (set! x (ref x :n))) n)"),
       ("chain of scopes", "(let ((a #nil)) (dotimes (i %d) (def b a) (def v (cat \"v\" i)) (set! a ((fn (n s) (fn (k) (if k n s))) b v))) a)", "(let ((n 0) (x %s)) (while x (set! n (+ n (:length (x #f)))) (set! x (x #t))) n)"),
       ("metadata", "(let ((f (fn () 7)) (n (min 3000 %d))) (dotimes (i n) (:meta! f (:keyword (cat \"mk\" i)) (cat \"v\" i))) (array/new n f))", "(let ((n 0) (f (ref %s 1))) (dotimes (i (ref %s 0)) (set! n (+ n (:length (:meta f (:keyword (cat \"mk\" i))))))) (list n (f)))"),
       ("operands", "((fn f (let ((k %d)) (def g (fn (k) (if (= k 0) #nil (cons (cat \"v\" k) (g (- k 1)))))) (g (min k 9000)))))", "(list (:length %s) (car %s) (ref %s (- (:length %s) 1)))")]

SYMS = [   # symbols that only exist as symbols while collections run
    "(def a (:symbol (cat \"zz\" \"1\"))) (s) (def b (:symbol (cat \"zz\" \"1\"))) (s) (list a b (= a b))",
    "(def t (tree/new)) (dotimes (i 4) (set! t (:keyword (cat \"key\" i)) i) (s)) (list (ref t :key0) (ref t (:keyword (cat \"key\" 3))) (:length t))",
    "(def l #nil) (dotimes (i 5) (:symbol (cat \"garbage\" i)) (s) (set! l (cons (:symbol (cat \"kept\" i)) l)) (s)) (list l (= (car l) (:symbol \"kept4\")))",
    "(def e (let* (current-closure))) (set! e (:symbol (cat \"dyn\" 1)) (list 1 2)) (s) (ref e (:symbol (cat \"dyn\" 1)))",
    "(def v (read \"(fresh-sym-a :fresh-key-b {:fresh-key-c fresh-sym-d} [fresh-sym-e])\")) (s) v",
]

IO = [     # the reader, the compiler and the image code while collections run
    "(def v (read \"(1 \\\"str\\\" [2 3] {:a (4)} #m0102)\")) (s) (car v)",
    "(eval '(let ((x (list 1 2))) (map x inc)))",
    "(def f (eval '(fn (x . r) (let ((y (cons x r))) (fn () y))))) (s) ((f 1 2 3))",
    "(try car (eval '(throw (list :a (cat \"b\" \"c\")))))",
    "(macroexpand '(when 1 (unless 2 3)))",
    "(string/write (list 1 \"a\" 'b :c [1 2] (tree/new :a 1)))",
    "(def i (image/serialize (list 1 \"two\" (array/new 3 (cat \"f\" \"our\")) (tree/new :five 5)))) (s) (image/deserialize i)",
    "(def f (image/deserialize (image/serialize (fn (x) (list x (cat \"a\" x)))))) (s) (f 1)",
    "(sort (list 5 2 9 1 7 3))",
    "(split (cat \"a,b,\" \"c\") \",\")",
    "(join (list \"a\" \"b\" 1) \"-\")",
    "(def M (module (def secret (list 1 2)) (export get (fn () secret)))) (s) ((ref (ref M :exports) :get))",
]


# everything the runtime itself keeps: its functions with their argument lists and
# documentation, methods of its types, the environment of the library
ROOTS = [
    "(def r (list)) (doseq (k (:keys (:data root-closure))) (def f (ref root-closure k)) (when (%s f) (set! r (cons (list k (:arguments f) (:meta f :documentation) (:meta f :source) (:meta f :pure)) r)))) (s) r" % t
    for t in ("lambda?", "native?", "macro?")] + [
    "(list (map (list 1 2 3) inc) (ref '(1 2) 1) (:length \"abc\") (int 3.5) (abs -5) (resolves? 'car) (:keys (tree/new :a 1)) (:string 'a) (:keyword \"b\") (map (list Int Array Tree Lambda) (fn (t) (:name t))))",
    "(list (map (list #nil 1 2.5 \"s\" 'a :b '(1 . 2) [1] {:a 1} car inc Int) (fn (v) (list (:type-name v) (:length v) (:meta v :documentation)))) stdout*)",
]


def programs(thorough=False):
    for (vn, v, o), (hn, h) in itertools.product(VALUES, HOLD):
        p = re.sub(r"OBS\(((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*)\)", lambda m: obs(o, m.group(1)), h)
        yield "%s held by %s" % (vn, hn), PRE + p.replace("V", v)
    for (hn, h), (vn, v, o) in itertools.product(scoped(2), [v for v in VALUES if v[0] in (("string", "array", "lambda") if thorough else ("string",))]):
        p = re.sub(r"OBS\(((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*)\)", lambda m: obs(o, m.group(1)), h)
        yield "%s held by %s" % (vn, hn), PRE + p.replace("V", v)
    for n, p in enumerate(SYMS):
        yield "symbols %d" % n, PRE + p


def wrap(p, arm):
    return "(verify/arm %s) (def result (let* %s)) (verify/disarm) result" % (arm, p)


if __name__ == "__main__":
    ck = Check("C07", "model_checking")
    ps = list(programs(ck.thorough))
    plain = Runner(ck.tree.binary("plain"))
    want = plain.run_parallel([p for _, p in ps])
    for (n, p), w in zip(ps, want):
        if w.startswith("!"):
            # with other bugs around even the plain run may fail: nothing to compare with then
            print("note: %s doesn't run without collections: %s" % (n, w))
    r = Runner(ck.tree.binary("ahook"))
    roots = r.run_parallel(["(let* " + PRE + "%s)" % p for p in ROOTS], chunk=1)
    ck.cases("values of the runtime itself", [(l % p, w) for p, w in zip(ROOTS, roots) for l in (
        "(let* " + PRE + "(verify/arm :every) (s) (s) (verify/disarm) (let* %s))",
        "(let* " + PRE + "(verify/arm :every) (s) (s) (verify/disarm) (def junk (list)) (dotimes (i 20000) (set! junk (cons i junk))) (let* %s))",
        "(let* " + PRE + "(verify/arm 1 3) (s) (s) (s) (verify/disarm) (let* (def j (list 1 2 3)) %s))")], runner=r, chunk=1, stall=100)
    counts = r.run_parallel(["(verify/arm -1 -1) (def result (let* %s)) (verify/count)" % p for _, p in ps])
    single, pairs, every = [], [], []
    total = 0
    for (n, p), w, c in zip(ps, want, counts):
        if not re.fullmatch(r"i\d+", c):
            every.append((wrap(p, "-1 -1"), w))
            continue
        c = int(c[1:])
        total += c
        every.append((wrap(p, ":every"), w))
        if c <= 150 or ck.thorough or " of " not in n:
            single += [(wrap(p, "%d -1" % k), w) for k in range(c)]
        if c <= (60 if ck.thorough else 8):
            pairs += [(wrap(p, "%d %d" % (a, b)), w) for a in range(c) for b in range(a + 1, c)]
    ck.cases("a collection at every safepoint", every, runner=r, chunk=50)
    ck.cases("a collection at each single safepoint", single, runner=r, chunk=800)
    ck.cases("collections at each pair of safepoints", pairs, runner=r, chunk=800)

    bigs = [(n, PRE + "(def x %s) %%s %s" % (v % size, o.replace("%s", "x"))) for n, v, o in BIG for size in SIZES]
    want = plain.run_parallel(["(let* %s)" % (p % "1") for _, p in bigs], chunk=1)
    for (n, p), w in zip(bigs, want):
        if w.startswith("!"):
            print("note: %s doesn't run without collections: %s" % (n, w))
    ck.cases("containers of every size", [("(let* %s)" % (p % "(verify/arm :every) (s) (verify/disarm) (def junk (list)) (dotimes (i 2000) (set! junk (cons (cat \"junk\" i) junk)))"), w) for (n, p), w in zip(bigs, want)], runner=r, chunk=1, stall=100)

    # the reader, the compiler, the printer and images run thousands of safepoints
    want = plain.run_parallel(["(let* %s)" % (PRE + p) for p in IO], chunk=1)
    counts = r.run_parallel(["(verify/arm -1 -1) (def result (let* %s)) (verify/count)" % (PRE + p) for p in IO], chunk=1)
    ev, si = [], []
    for p, w, c in zip(IO, want, counts):
        if not re.fullmatch(r"i\d+", c) or w.startswith("!!"):
            continue
        c = int(c[1:])
        total += c
        ev.append((wrap(PRE + p, ":every"), w))
        if ck.thorough or c < 900:
            si += [(wrap(PRE + p, "%d -1" % k), w) for k in range(c)]
    ck.cases("runtime parts, a collection at every safepoint", ev, runner=r, chunk=1, stall=200)
    ck.cases("runtime parts, at each single safepoint", si, runner=r, chunk=800)
    ck.assumptions = ["the result without forced collections is the expected one", "collections only happen at the safepoints the hook sees"]
    ck.finish(programs=len(ps) + len(IO), safepoints=total, schedules=len(single) + len(pairs) + len(every) + len(ev) + len(si))
