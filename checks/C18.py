"""Images.  (1) Every graph of up to three nodes (pairs, arrays, trees, buffers,
views) and atoms: the copy has the same shape with the same sharing, changing a
node of it shows wherever it is shared and never in the original; (2) every
kind of value at every position of an image, up to its size limit; (3) functions
keep their behaviour and share the variables they shared; (4) images cut off at
every length and with every byte changed are read errors or values."""
from common import *
import itertools

SLOTS = "xy"


def graphs(k, atoms):
    refs = [str(i) for i in range(k)] + list(atoms)
    per = []
    for i in range(k):
        opts = []
        for kind in "pat":
            for a, b in itertools.product(refs, repeat=2):
                opts.append(kind + a + b)
        opts.append("bxx")
        for j in range(k):
            opts.append("v%dx" % j)
        per.append(opts)
    for g in itertools.product(*per):
        ok = True
        for i, n in enumerate(g):
            if n[0] == "p" and any(c in "0123" and g[int(c)][0] in "pv" and int(c) <= i for c in n[1:]):
                ok = False      # pairs can't refer to what is made after them
            if n[0] == "v" and (g[int(n[1])][0] != "b"):
                ok = False
            if n[0] == "v" and False:
                ok = False
        if not ok:
            continue
        # everything can be got at
        reach, todo = {0}, [0]
        while todo:
            for c in g[todo.pop()][1:]:
                if c in "0123" and int(c) not in reach:
                    reach.add(int(c))
                    todo.append(int(c))
        if len(reach) == k:
            yield g


class N:
    __slots__ = ("kind", "a", "b", "byte")


def build(g):
    ns = [N() for _ in g]
    for n, s in zip(ns, g):
        n.kind = s[0]
        n.byte = 7
        n.a, n.b = [ns[int(c)] if c in "0123" else {"x": "300", "y": "'str'", "z": "_"}[c] for c in s[1:]]
    return ns


def shape(root):
    seen = []

    def rec(v):
        if isinstance(v, str):
            return v
        for i, s in enumerate(seen):
            if s is v:
                return "%%%d" % i
        seen.append(v)
        k = v.kind
        if k == "p":
            a = rec(v.a)
            return "(" + a + " " + rec(v.b) + ")"
        if k == "a":
            a = rec(v.a)
            return "[" + a + " " + rec(v.b) + "]"
        if k == "t":
            a = rec(v.a)
            return "T(:a " + a + ";:b " + rec(v.b) + ";)"
        if k == "b":
            return "<%d,>" % v.byte
        return "v1" + rec(v.a)
    return rec(root), seen


def graph_cases(k, atoms):
    for g in graphs(k, atoms):
        ns = build(g)
        s, seen = shape(ns[0])
        out = s + " ="
        for i in range(len(seen)):
            ns = build(g)
            _, seen2 = shape(ns[0])
            v = seen2[i]
            if v.kind in "at":
                v.a = ":mut"
            elif v.kind == "b":
                v.byte = 9
            elif v.kind == "v":
                v.a.byte = 9
            out += " " + shape(ns[0])[0]
        yield "g" + "".join(g), out


VALS = [("#nil", None), ("#t", True), ("#f", False)] + [(lit(i), i) for i in [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 1 << 31, (1 << 31) - 1, -(1 << 31), -(1 << 31) - 1, 1 << 32, I64MAX, I64MIN + 1]] + [(lit(i), i) for k in (9, 11, 13, 17, 19, 21, 22, 23, 24, 30, 40, 62) for i in (1 << k, -(1 << k), 5 << k - 2)] + \
    [(lit(f), f) for f in [0.0, -0.0, 1.5, -2.25, 5e-324, 1.7976931348623157e308, 0.1]] + \
    [('""', ""), ('"a"', "a"), ('"a\\0b\\0"', "a\0b\0"), ("(:cut \"abcdef\" 1 3)", "bc"), ("(:cut \"abcdef\" 1 5)", "bcde")] + [('"%s"' % ("s" * n), "s" * n) for n in (3, 15, 16, 17, 255, 256, 300)] + \
    [("'a", Sym("a")), (":a", Kw("a")), ("(:symbol \"\")", Sym("")), ("(:keyword \"%s\")" % ("k" * 93), Kw("k" * 93)), ("'ref", Sym("ref"))] + \
    [("(list)", None), ("(list 1)", [1]), ("(list 1 2 #nil #f)", [1, 2, None, False]), ("(cons 1 2)", Pair(1, 2)), ("(cons #nil #nil)", [None]), ("(cons 1 #f)", Pair(1, False)), ("(cons #f 1)", Pair(False, 1))] + \
    [("(array/new)", Arr()), ("(array/new #nil)", Arr([None])), ("(array/new 1 (array/new 2 \"x\"))", Arr([1, Arr([2, "x"])])), ("(:alloc Array 300)", Arr([None] * 300)), ("(tree/new)", Tree()), ("(tree/new :a 1)", Tree(a=1)),
     ("(tree/new :a #nil :b #f :c (tree/new :a 2))", Tree(a=None, b=False, c=Tree(a=2))), ("(buffer/allocate 0)", Buf(b"")), ("#m00FF10", Buf(b"\x00\xff\x10")), ("(buffer/allocate 300)", Buf(bytes(300))),
     ("(:s16 #m0102FEFF03)", View([513, -2])), ("(:u8 (buffer/allocate 0))", View([])), ("(:f64 #m000000000000F83F)", View([1.5])), ("(:u32 #m0102)", View([])), ("car", Raw("L")), ("+", Raw("L")), ("Int", Raw("Tint")), ("Array", Raw("Tarray")), ("stdout*", Raw("H")), ("(tree/new :v \"%s\" :w 'v)" % ("x" * 20), Tree(v="x" * 20, w=Sym("v")))]


def rt(v):
    return "(image/deserialize (image/serialize %s))" % v


def values():
    for v, c in VALS:
        yield rt(v), canon(c)
        yield rt("(list 1 %s 2)" % v), canon([1, c, 2])
        yield rt("(array/new %s \"y\" %s)" % (v, v)), canon(Arr([c, "y", c]))
        yield rt("(tree/new :k %s :l 1 :m %s)" % (v, v)), canon(Tree(k=c, l=1, m=c))
        yield rt(rt(v)), canon(c)
        yield "(let* (def v %s) (= (image/serialize v) (image/serialize v)) (list (:type-name (image/serialize v)) v))" % v, canon([Kw("buffer"), c])
    for (v, c), (w, d) in itertools.product(VALS, VALS):
        yield rt("(array/new %s %s)" % (v, w)), canon(Arr([c, d]))
    # what is immutable stays so
    for v, e in (("\"abc\"", "s"), ("#m0102", "i"), ("(buffer/allocate 2)", "m"), ("(:u8 (buffer/allocate 2) #f)", "m"), ("(:u8 (buffer/allocate 2) #t)", "i"), ("(:u16 #m0102)", "i")):
        yield "(let* (def v %s) (list %s))" % (rt(v), attempt("(do (set! v 0 5) (ref v 0))")), canon([5] if e == "m" else [[Kw("err")]])
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32, 33, 100, 127, 128, 255, 256, 257, 300, 1000):
        keys = ["k%d" % (i * 7919 % 10007) for i in range(n)]
        tree = Tree({k: i for i, k in enumerate(keys)})
        more = Tree({**{k: i for i, k in enumerate(keys)}, "kx": 5})
        frozen = "(car (read \"#@(%s)\"))" % " ".join(":%s %d" % (k, i) for i, k in enumerate(keys))
        for put, get in (("v", "c"), ("(list v v)", "(car c)"), ("(cons 1 v)", "(cdr c)"), ("(tree/new :a v)", "(ref c :a)"), ("(array/new 1 v)", "(ref c 1)"), ("(let ((w v)) (fn () w))", "(c)"), ("(:clone v)", "c"), ("v", "(:clone c)"), ("(list v (:clone v))", "(car c)"), ("(list v (:clone v))", "(cadr c)")):
            e = "clone" in get or put == "(:clone v)" or get == "(cadr c)"
            yield "(let* (def v %s) (def c %s) (def d %s) (list d %s d (:length d)))" % (frozen, rt(put), get, attempt("(do (set! d :kx 5) (ref d :kx))")), canon([more, 5, more, n + 1] if e else [tree, [Kw("err")], tree, n])
    yield "(let* (def f (file/open-input* \"driver.nuj\")) (list %s %s))" % (attempt("(image/serialize f)"), attempt("(image/serialize (list 1 [f]))")), canon([[Kw("err")]] * 2)
    for bad in ("#nil", "1", "\"NujI\"", "'a", "(list 1)", "(array/new 1)", "(buffer/allocate 0)", "#m4E", "#m4E756A", "#m4E756A49", "#m4E756A4A00", "#m6E756A4900"):
        yield attempt("(image/deserialize %s)" % bad), canon([Kw("err")])


KINDS = ["(array/new)", "(tree/new)", "{}", "(buffer/allocate 0)", "(array/new 1)", "(:alloc Array 3)", "(tree/new :a 1)", "(tree/new :a)", "(buffer/allocate 1)", "(cons #nil #nil)", "(list 1)", "(:u8 (buffer/allocate 0) #f)", "(:u8 (buffer/allocate 3) #t)", "(:f64 (buffer/allocate 8) #f)",
         "(fn () 1)", "(fn (x . y) x)", "(let ((k 1)) (fn () k))", "(let () (current-closure))", "(let ((z 1)) (current-closure))", "(:code (fn () 1))", "(let* (defmacro mm (x) x) mm)", "(:clone (tree/new))", "(:clone (tree/new :a 1 :b 2))", "(:clone (buffer/allocate 4))", "(:cut (buffer/allocate 4) 1 1)"]


def sharing():
    """what is one thing, whatever it holds, is one thing in the copy, and what is two stays two"""
    for v in KINDS:
        for w in KINDS[:16]:
            yield "(let* (def v %s) (def w %s) (def c %s) (def u (ref (ref c 2) :k)) (list (= (ref c 0) u) (= (ref c 1) (car (ref c 3))) (= (ref c 1) (cdr (ref c 3))) (= (ref c 0) (ref c 1)) (= (ref c 4) u) (= u v) (equal? (:type-of u) (:type-of v))))" % (
                v, w, rt("(array/new v w (tree/new :k v) (cons w w) v)")), canon([True, True, True, False, True, False, True])
        # two copies share nothing
        yield "(let* (def v %s) (def i (image/serialize (list v v))) (def c (image/deserialize i)) (def d (image/deserialize i)) (list (= (car c) (cadr c)) (= (car d) (cadr d)) (= (car c) (car d))))" % v, canon([True, True, False])
    # the buffer below views
    for k in (0, 1, 8, 9):
        for t, u in itertools.product(("u8", "s16", "f32"), repeat=2):
            yield "(let* (def b (buffer/allocate %d)) (def v (:%s b #f)) (def w (:%s b #t)) (def c %s) (list (= (:buffer (ref c 0)) (ref c 2)) (= (:buffer (ref c 1)) (ref c 2)) (= (ref c 0) (ref c 3)) (= (ref c 0) (ref c 1)) (:length (ref c 0)) (:length (ref c 1)) (:immutable? (ref c 0)) (:immutable? (ref c 1)) (:immutable? (ref c 2))))" % (
                k, t, u, rt("(array/new v w b v)")), canon([True, True, True, False, k // {"u8": 1, "s16": 2, "f32": 4}[t], k // {"u8": 1, "s16": 2, "f32": 4}[u], False, True, False])


def terminated():
    """texts out of images, given to what needs them to end where they do"""
    for n in range(0, 70):
        w = "abcdefghij"[:1] * 0 + "".join("abcdefghij"[i % 10] for i in range(n))
        for rest in ("", "\"zz\"", "5", "'zz"):
            yield "(let* (def c %s) (def s (car c)) (list s (:symbol s) (:keyword s) (:length (:string (:symbol s))) (read s) (ref (file/stat s) :error?) (cdr (popen (ref c 1))) (mkdir (ref c 2)) (rmdir (ref c 2)) (spit (ref c 3) \"x\") (slurp (ref c 3)) (do (rm (ref c 3)) (file/file? (ref c 3)))))" % (
                rt("(list \"%s\" \"echo -n %s\" \"d%s\" \"f%s\" %s)" % (w, w, w, w, rest))), canon([w, Sym(w), Kw(w), n, [Sym(w)] if n else [None], True, w, True, True, True, "x", None])


def offsets(thorough):
    """values at every offset around the limits of 8, 16 and 24 bits"""
    tail = ["1", "-300", "70000", "5000000000", "1.5", "\"str\"", "'sym", ":kw", "(cons 1 2)", "(array/new 1 \"x\")", "(tree/new :a 1 :b 'c)", "#m0102", "(:u16 #m0102)", "car", "Int", "#t", "#nil"]
    vals = [1, -300, 70000, 5000000000, 1.5, "str", Sym("sym"), Kw("kw"), Pair(1, 2), Arr([1, "x"]), Tree(a=1, b=Sym("c")), Buf(b"\1\2"), View([513]), Raw("L"), Raw("Tint"), True, None]
    for base in (0, 200, 32500, 65280) + ((130800, 8388350) if thorough else ()):
        for n in range(base, base + 300, 3 if not thorough and base else 1):
            yield "(cdr (image/deserialize (image/serialize (list (buffer/allocate %d) %s))))" % (n, " ".join(tail)), canon(vals)
    for k in range(17, 24):
        for n in ((1 << k) - 150, (1 << k) - 40, (1 << k) + 20, 3 << k - 1):
            yield "(cdr (image/deserialize (image/serialize (list (buffer/allocate %d) %s))))" % (n, " ".join(tail)), canon(vals)
    # close to and beyond what an image can hold: the same values or an exception, never others
    top = (1 << 24) - 1
    want = frozenset([canon(vals), canon([Kw("err")])])
    for n in list(range(top - 420, top - 200, 10 if not thorough else 1)) + [top - 4, top - 1, top, top + 1, top + 1000, 1 << 25]:
        yield "(let* (def r %s) (if (= (car r) :err) r (cdr r)))" % attempt("(image/deserialize (image/serialize (list (buffer/allocate %d) %s)))" % (n, " ".join(tail))), want if n < top - 4 else canon([Kw("err")])
    yield attempt("(image/serialize (array/new (:alloc Array 3000000) (:alloc Array 2000000)))"), canon([Kw("err")])
    for n in (1, 2, 10, 1000, 20000, 60000):
        yield "(let* (def l #nil) (dotimes (i %d) (set! l (cons i l))) (def m %s) (def bad 0) (dotimes (i %d) (when (not= (car m) (- %d i)) (inc! bad)) (cdr! m)) (list bad m))" % (n, rt("l"), n, n - 1), canon([0, None])
    for k in range(24 if thorough else 20):
        for n in ((1 << k) + 1, 3 << k >> 1):
            # a length of every bit, with something at both ends
            yield "(let* (def b (buffer/allocate %d)) (set! b 0 1) (set! b %d 2) (def c %s) (list (:length c) (ref c 0) (ref c %d) (= (buffer->string b) (buffer->string c))))" % (n, n - 1, rt("b"), n - 1), canon([n, 1 if n > 1 else 2, 2, True])
            yield "(let* (def b (buffer/allocate %d)) (set! b 0 1) (set! b %d 2) (def c (:u8 b)) (def d %s) (list (:length d) (ref d 0) (ref d %d)))" % (n, n - 1, rt("c"), n - 1), canon([n, 1 if n > 1 else 2, 2])
            if k < 20:
                yield "(let* (def b (:alloc Array %d)) (set! b 0 :a) (set! b %d :b) (def c %s) (list (:length c) (ref c 0) (ref c %d)))" % (n, n - 1, rt("b"), n - 1), canon([n, Kw("a") if n > 1 else Kw("b"), Kw("b")])
    for n in (1500, 2047, 2048, 2500, 4095, 4096, 5000, 9000, 15000):
        yield "(let* (def t (tree/new)) (dotimes (i %d) (set! t (:symbol (cat \"k\" i)) i)) (def u %s) (def bad 0) (dotimes (i %d) (when (not= i (ref u (:symbol (cat \"k\" i)))) (inc! bad))) (list bad (:length u)))" % (n, rt("t"), n), canon([0, n])
    for n in (1, 2, 10, 1000, 20000, 60000):
        if n <= 1000:
            yield "(let* (def t (tree/new)) (dotimes (i %d) (set! t (:symbol (cat \"k\" i)) i)) (def u %s) (def bad 0) (dotimes (i %d) (when (not= i (ref u (:symbol (cat \"k\" i)))) (inc! bad))) (list bad (:length u)))" % (n, rt("t"), n), canon([0, n])
            yield "(let* (def l #nil) (dotimes (i %d) (set! l (array/new l))) (def m %s) (def d 0) (while m (set! m (ref m 0)) (inc! d)) d)" % (n, rt("l")), canon(n)
            yield "(let* (def t #nil) (dotimes (i %d) (set! t (tree/new :a t))) (def m %s) (def d 0) (while m (set! m (ref m :a)) (inc! d)) d)" % (n, rt("t")), canon(n)


FNS = [
    ("(fn (x) (+ x 1))", "(F 4)", 5), ("(fn (x . r) (list x r))", "(F 1 2 3)", [1, [2, 3]]), ("(fn r r)", "(F 1 2)", [1, 2]), ("(let ((k 3)) (fn (x) (+ x k)))", "(F 4)", 7),
    ("(let ((k 3)) (fn () (set! k (+ k 1)) k))", "(list (F) (F))", [4, 5]), ("(fn (x) (try (fn (e) (list :c e)) (throw x)))", "(F 9)", [Kw("c"), [9]]), ("(fn (x) (if (> x 300) :big :small))", "(list (F 1) (F 301))", [Kw("small"), Kw("big")]),
    ("(fn (l) (map l (fn (x) (* x x))))", "(F (list 1 2 3))", [1, 4, 9]), ("(let* (defn fac (n) (if (< n 2) 1 (* n (fac (- n 1))))) fac)", "(F 5)", 120), ("(fn () \"text\")", "(F)", "text"), ("(fn () 123456789012)", "(F)", 123456789012), ("(fn () 1.25)", "(F)", 1.25),
    ("(fn () '(a :b #\\c))", "(F)", [Sym("a"), Kw("b"), 99]), ("(fn () (def a 1) (def b 2) (let ((a 5)) (list a b)))", "(F)", [5, 2]), ("(fn (n) (def i 0) (while (< i n) (set! i (+ i 2))) i)", "(F 7)", 8), ("(fn (x) \"Documented\" (return x) 1)", "(F 3)", 3),
    ("(fn (t) (ref t :a))", "(F {:a 5})", 5), ("(fn (s) (:cut s 1 2))", "(F \"abc\")", "b"), ("car", "(F (list 7 8))", 7), ("(fn (v) (type-of-test v))".replace("type-of-test", ":type-name"), "(F 1)", Kw("int")), ("(let ((t (tree/new :n 1))) (fn () (set! t :n (+ 1 (ref t :n))) (ref t :n)))", "(list (F) (F))", [2, 3]),
]


def functions():
    for f, use, want in FNS:
        fc = use.replace("F", "g")
        yield "(let* (def f %s) (def g %s) %s)" % (f, rt("f"), fc), canon(want)
        yield "(let* (def f %s) (def img (image/serialize f)) (def g (image/deserialize img)) (def h (image/deserialize img)) (list %s %s %s))" % (f, use.replace("F", "g"), use.replace("F", "h"), use.replace("F", "f")), canon([want] * 3)
        yield "(let* (def t %s) (def g (ref t :f)) %s)" % (rt("(tree/new :f %s :g 1)" % f), fc), canon(want)
        yield "(let* (def g %s) %s)" % (rt(rt(f)), fc), canon(want)
    # two functions of the same scope keep sharing it, apart from the originals
    pair = "(let ((n 0)) (list (fn () (set! n (+ n 1)) n) (fn () n)))"
    yield "(let* (def p %s) ((car p)) (def q %s) ((car q)) ((car q)) ((car p)) (list ((cadr p)) ((cadr q))))" % (pair, rt("p")), canon([2, 3])
    yield "(let* (def p %s) (def q %s) (def r (image/deserialize (image/serialize (cadr p)))) ((car q)) (list ((cadr p)) ((cadr q)) (r)))" % (pair, rt("p")), canon([0, 1, 0])
    yield "(let* (def e (let ((a 1) (b 2)) (current-closure))) (def g %s) (list (eval-in g '(list a b)) (eval-in g '(set! a 5)) (eval-in g 'a) (eval-in e 'a)))" % rt("e"), lambda g: g.startswith("((i1 i2)") and g.endswith("i5 i1)")
    yield "(let* (defmacro mm (x) \"d\" (list '+ x 1)) (def n %s) (list (:type-name n) (= (:meta n :documentation) (:meta mm :documentation)) (:arguments n)))" % rt("mm"), canon([Kw("macro"), True, [Sym("x")]])
    yield "(let* (defmacro mm (x) (list '+ x 1)) (def mm %s) (eval-in (current-closure) '(mm 5)))" % rt("mm"), canon(6)
    yield "(let* (def f (fn (a b) \"Doc\" a)) (def g %s) (list (:arguments g) (= (:meta f :documentation) (:meta g :documentation)) (:length (:code g)) (= (:length (:code f)) (:length (:code g)))))" % rt("f"), lambda g: g.startswith("((ya yb) t ") and g.endswith(" t)")
    yield "(let* (def o (tree/new :inc (fn (self) (set! self :n (+ 1 (ref self :n))) self) :n 1)) (def p (tree/new :prototype* o :n 5)) (def q %s) (:inc q) (list (ref q :n) (ref p :n) (ref o :n)))" % rt("p"), canon([6, 5, 1])
    yield "(let* (def c (:code (fn (x) (+ x 42)))) (def d %s) (list (:type-name d) (= (:length c) (:length d)) (:length (:literals d))))" % rt("c"), lambda g: g.startswith("(kbytecode-array t i")


SAMPLES = ["#nil", "1", "300", "70000", "5000000000", "1.5", "\"abc\"", "'sym", ":kw", "(list 1 2)", "(cons 1 2)", "(array/new 1 2)", "(tree/new :a 1 :b \"x\")", "(array/new (array/new 1) (list 2 3))", "#m0102", "(:u16 (buffer/allocate 6) #f)", "(let* (def b (buffer/allocate 3)) (array/new b (:u8 b)))",
           "(array/new Array Int)", "(let* (def a (array/new 1 2)) (set! a 0 a) a)", "(list \"abc\" 'sym :kw)", "stdout*", "(list (tree/new :a (tree/new :b 1)) 2)"]


if __name__ == "__main__":
    ck = Check("C18", "model_checking")
    r = Runner(ck.tree.binary("ahook"), "image.nuj")
    ck.cases("graphs of one and two nodes", list(graph_cases(1, "xyz")) + list(graph_cases(2, "xyz")), runner=r, variant="ahook", driver="image.nuj")
    ck.cases("graphs of three nodes", graph_cases(3, "z" if not ck.thorough else "xyz"), runner=Runner(ck.tree.binary("plain"), "image.nuj"), variant="plain", driver="image.nuj")
    ck.cases("values", values())
    ck.cases("sharing", sharing())
    ck.cases("ends of texts", terminated())
    ck.cases("functions", functions(), chunk=4)
    ck.cases("offsets and sizes", offsets(ck.thorough), variant="plain", chunk=20, stall=60)
    ck.cases("damaged images", (("d" + s, "ok") for s in SAMPLES), runner=r, variant="ahook", driver="image.nuj", chunk=1, stall=100)
    ck.assumptions = ["functions from damaged images aren't called: bytecode isn't verified"]
    ck.finish()
