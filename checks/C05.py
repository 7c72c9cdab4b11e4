"""Transparency: a built-in operation has one meaning, whatever the compiler
makes of it - folded at compile time, an opcode, inlined, a call of a native
function.  All operations x all tuples of values of every type x all ways of
applying them; the call through apply is the reference of the others."""
from common import *

ck = Check("C05", "model_checking")

VALS = ["#nil", "#t", "#f", "0", "1", "-7", "70", "#x7FFFFFFFFFFFFFFF", "#x8000000000000000", "0.0", "-0.5", "3.75", "100000000000000000000.0",
        '""', '"abc"', '"abd"', "'sym", "'abc", ":abc", "'(1 2 3)", "'(4 . 5)", "'((1 2) 3)", "[1 2 3]", "[]", "{:a 1}", "car", "(fn (x) x)", "(buffer/allocate 4)", "Int", "'quote"]
BINARY = ["+", "-", "*", "/", "rem", "pow", "add/int", "sub/int", "mul/int", "div/int", "mod/int", "bit-and", "bit-or", "bit-xor", "bit-shift-left", "bit-shift-right",
          "<", "<=", "=", ">=", ">", "not=", "cons", "list", "equal?", "not-equal?", "atan2", "min", "max"]
UNARY = ["-", "+", "*", "/", "rem", "pow", "bit-not", "inc/int", "inc", "dec", "zero?", "not-zero?", "pos?", "neg?", "zero-neg?", "not", "boolean", "identity", "nil?", "car", "cdr", "cadr", "caar", "cdar", "cddr",
         "cadar", "caddr", "cdddr", "cadddr", "last?", "int?", "float?", "number?", "bool?", "pair?", "array?", "string?", "symbol?", "keyword?", "environment?", "tree?", "collection?",
         "macro?", "lambda?", "native?", "procedure?", "int", "float", "abs", "sqrt", "cbrt", "floor", "ceil", "round", "popcount", "list", "odd?", "even?", "string?", "numeric?", "empty?", "buffer?", "list/length", "not"]


def expand(ops, tuples):
    todo = []
    for op in ops:
        for t in tuples:
            todo.append((op, t, modes(op, list(t))))
    ref = ck.runner.run_parallel([m["apply"] for _, _, m in todo])
    cases = []
    for (op, t, m), r in zip(todo, ref):
        e = EXC if r.startswith("!") and not r.startswith("!!") else r
        m = dict(m)
        names = " ".join("a%d" % i for i in range(len(t)))
        m["folded inside"] = "(cadr (list 1 (%s %s) 2))" % (op, " ".join(t))
        m["condition"] = "(let* (def q (fn (%s) (list (if (%s %s) 1 2) (%s %s)))) (cadr (q %s)))" % (names, op, names, op, names, " ".join(t))
        for k, l in m.items():
            cases.append((l, e))
    return cases


ck.runner = Runner(ck.tree.binary("asan"))
ck.cases("unary operations", expand(sorted(set(UNARY)), [(v,) for v in VALS]), runner=ck.runner)
small = VALS if ck.thorough else [v for i, v in enumerate(VALS) if i not in (6, 12, 15, 17, 20, 21, 23, 27, 29)]
ck.cases("binary operations", expand(BINARY, [(a, b) for a in small for b in small]), runner=ck.runner, chunk=8000)


def nested():
    """constant expressions in expressions: folding must not change nesting"""
    ops = ["+", "-", "*", "bit-and", "rem"]
    for o1 in ops:
        for o2 in ops:
            for a, b, c in ((1, 2, 3), (7, -3, 2), (5, 0, 9), ("x", 2, 3), (1, "x", 3), (1, 2, "x")):
                if o1 == "rem" and c == 0 or o2 == "rem" and b == 0:
                    continue
                f = lambda q: "(%s (%s %s %s) %s)" % (o1, o2, a, b, c) if q else "(%s %s (%s %s %s))" % (o1, a, o2, b, c)
                for q in (0, 1):
                    if not q and o1 == "rem" and isinstance(b, int):
                        pass
                    yield f(q), q, o1, o2, a, b, c


def fresh():
    """values an operation creates are new ones in every form: changing one of
    them (the only thing that tells) changes neither an operand nor another one"""
    for n in range(0, 4):
        ns = list(range(1, n + 1))
        a = " ".join(map(str, ns))
        for k, f in {"direct": "(list %s)" % a, "apply": "(apply list l)", "apply alias": "(apply f l)",
                     "apply literal": "(apply list '(%s))" % a, "apply in a function": "((fn (q) (apply list q)) l)", "passed": "((fn (q) (apply q l)) list)", "apply of a call": "(apply list (idl))",
                     "alias": "(f %s)" % a, "array": "(array/new %s)" % a, "array apply": "(apply array/new l)", "array literal": "[%s]" % a, "array alias": "(g %s)" % a}.items():
            pre = "(def l (list %s)) (def idl (fn () l)) (def f list) (def g array/new) (def mk (fn () %s)) " % (a, f)
            if "array" in k:
                m = "(set! r 0 :new)" if n else "0"
                e = Arr(([Kw("new")] + ns[1:]) if n else [])
                yield "(let* %s (def r (mk)) (def r2 (mk)) %s (list r r2 l (= r r2)))" % (pre, m), canon([e, Arr(ns), ns, False])
            elif n:
                yield "(let* %s (def r (mk)) (def r2 (mk)) (def r3 (nreverse r)) (list r3 r2 l))" % pre, canon([ns[::-1], ns, ns])
                yield "(let* %s (def r (mk)) (list (= r l) (equal? r l)))" % pre, canon([False, True])
    for x in ("(cons 1 2)", "(cons 1 (cons 2 3))"):
        v = {"(cons 1 2)": "(i1 . i2)", "(cons 1 (cons 2 3))": "(i1 i2 . i3)"}[x]
        yield "(apply list %s)" % x, v
        yield "(let* (def f list) (apply f %s))" % x, v
    for op, e in (("(cons 1 #nil)", [1]), ("(list 1)", [1]), ("(buffer/allocate 2)", Buf(b"\0\0")), ("(tree/new :a 1)", Tree(a=1)), ("{:a 1}", Tree(a=1))):
        yield "(let* (def mk (fn () %s)) (def r (mk)) (def r2 (mk)) (list r r2 (= r r2)))" % op, canon([e, e, False])


ck.cases("values created anew", fresh(), runner=ck.runner)


def effects():
    """compiling a call does nothing but compile: what it does happens when, and as often as, it is run"""
    n = 0
    HAS = "(def has (fn (p) (:length (filter (ls \".\") (fn (n) (= n p)))))) "
    for setup, call, seen, want in (
        ("", "(mkdir P)", "(has P)", [0, True, 1, False, 1]),
        ("(mkdir P)", "(rmdir P)", "(has P)", [1, True, 0, False, 0]),
        ("(spit P \"x\")", "(do (rm P) 5)", "(has P)", [1, 5, 0, 5, 0]),
        ("", "(file/close* (file/open-output* P :replace))", "(has P)", [0, None, 1, None, 1]),
        ("", "(do (spit P \"x\") 7)", "(has P)", [0, 7, 1, 7, 1]),
        ("", "(car (popen \"echo >>Q\"))", "(try (fn (e) 0) (:length (file/read P)))", [0, 0, 1, 0, 2]),
        ("(mkdir P)", "(cd P)", "(if (= here (cwd)) 0 1)", [0, True, 1, False, 1]),
        ("(def n 0)", "(do (spit P (cat \"\" (inc! n))) (file/read P))", "n", [0, "1", 1, "2", 2]),
        ("(def n 0)", "(do (inc! n) (ref (file/stat P) :size))", "(do (spit P (cat \"\" (* n 50000 n))) n)", [0, 1, 1, 5, 2]),
        ("(mkdir P) (def k 0)", "(do (set! k (+ k 1)) (:length (ls P)))", "(do (spit (cat P \"/\" k) \"x\") k)", [0, 1, 1, 2, 2]),
    ):
        n += 1
        p = "effect-%d" % n
        P = lambda t: t.replace("Q", p).replace("P)", "\"%s\")" % p).replace("P ", "\"%s\" " % p)
        hide = lambda v: "(do %s #nil)" % v if want[1] is None else v
        yield "(let* %s(def here (cwd)) %s (def f (fn () %s)) (def a %s) (def b (f)) (def c %s) (def d (f)) (def e %s) (cd here) (list a b c d e))" % (HAS, P(setup), P(hide(call)), P(seen), P(seen), P(seen)), canon(want)
    for call in ("(exit 3)", "(throw 1)", "(car 1)", "(ref 1 2)", "(popen \"kill $PPID\")", "(+ 1 :a)", "(div/int 1 0)", "(:none 1)", "(buffer/allocate -1)", "(file/read \"missing\")", "(image/deserialize \"a\")"):
        yield "(let* (def f (fn () %s)) (def g (fn (x) (if x %s 5))) (list (:type-name f) (g #f)))" % (call, call), canon([Kw("lambda"), 5])
    for mk in ("(list 1 2)", "(cons 1 2)", "(array/new 1)", "[1 2]", "{:a 1}", "(tree/new :a 1)", "(:alloc Array 2)", "(buffer/allocate 2)", "(:clone \"abc\" #f)", "(:u8 (buffer/allocate 2) #f)", "(read \"(1 2)\")", "(car (read \"[1 2]\"))", "(environment*)",
               "(gensym)", "(image/deserialize (image/serialize [1 2]))", "(:clone {:a 1})", "(fn (x) x)", "(append '(1) '(2))", "(map '(1 2) (fn (x) x))", "(split \"a b\" \" \")", "(:keys {:a 1})", "(let* (current-closure))", "(:new StringOutputPort)", "(reverse '(1 2))", "(sort '(2 1))", "(ls \".\")", "(popen \"true\")", "(file/stat \".\")", "(array/dup [1])"):
        yield "(let* (def f (fn () %s)) (def a (f)) (= a (f)))" % mk, canon(False)


ck.cases("effects of compiling", effects(), runner=ck.runner)

import C03model as M
def nested_cases():
    for s, q, o1, o2, a, b, c in nested():
        v = [4 if k == "x" else k for k in (a, b, c)]
        try:
            r = M.f(o1, M.f(o2, v[0], v[1]), v[2]) if q else M.f(o1, v[0], M.f(o2, v[1], v[2]))
            e = canon(r)
        except ZeroDivisionError:
            e = EXC
        yield "(let ((x 4)) %s)" % s, e
        yield "((fn (x) (list 0 %s 0)) 4)" % s, (lambda e: EXC if callable(e) else "(i0 %s i0)" % e)(e)
        yield "(let ((x 1)) (if (= x 1) (do (set! x 4) %s) 0))" % s, e


ck.cases("nested constant expressions", nested_cases(), runner=ck.runner)
ck.assumptions = ["calls through apply are the reference; that they are right is decided by the other properties", "operations are compared with the one or two operands they are documented for"]
ck.finish()
