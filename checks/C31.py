"""Code is data.  Every program of nested constructs, evaluated in every way code can
be obtained: quoted, written and read back, built by quasiquotation or from lists,
returned by or passed through a macro, as a function, module or piece of a bigger
program, repeatedly; every template of a size; every way of passing forms to macros."""
from common import *
import itertools, multiprocessing
import C01, C02

ERR = [Kw("err")]

WAYS = {
    "quoted": "(eval '%s)",
    "in a variable": "(let* (def code '%s) (eval code))",
    "written and read": "(eval (read/single (string/write '%s)))",
    "read": "(eval (car (read (string/write '%s))))",
    "from a list": "(eval (list 'do 1 '%s))",
    "in the scope of a function": "((fn () (eval-in (current-closure) '%s)))",
    "in a scope of its own": "(eval-in (environment*) '%s)",
    "made a function": "(apply (eval (list 'fn '() '%s)) #nil)",
    "by a macro": "(let* (eval-in (current-closure) '(defmacro the-program () '%s)) (eval '(the-program)))",
    "through a macro": "(let* (eval-in (current-closure) '(defmacro pass (a) a)) (eval '(pass %s)))",
    "through a macro as an argument": "(let* (eval-in (current-closure) '(defmacro pass2 (f . a) (cons f a))) (car (eval '(pass2 list %s))))",
    "quasiquoted": "(eval `%s)",
    "spliced": "(let* (def parts (cdr '%s)) (eval `(let* ~@parts)))",
    "as a module": "(let* (eval-in (current-closure) '(defmodule :c31-module (export v %s))) (import (v) :c31-module) v)",
    "evaluated by evaluated code": "(eval '(eval '%s))",
    "compiled before": "(let* (def code (compile '%s)) (bytecode-eval* code (current-closure)))",
    "compiled before, in the scope of a function": "((fn () (def code (compile '%s)) (car (list (mutable-eval* code (current-closure)) 7))))",
    "taken apart and put together": "(let* (def code (compile '%s)) (bytecode-eval* (:bytecode-array (:array code) (:literals code)) (current-closure)))",
    "out of an image": "(let* (def code (image/deserialize (image/serialize (compile '%s)))) (bytecode-eval* code (current-closure)))",
    "as a default of nothing": "(let* (def code '%s) (or #f (eval code)))",
}
TWICE = "(let* (def code '%s) (def before (string/write code)) (def r1 (eval code)) (def r2 (eval code)) (def f (eval (list 'fn '() code))) (list r1 r2 (f) (f) (= before (string/write code))))"


def programs(depth, leaves1=None, leaves2=None, quick=False):
    with multiprocessing.Pool(JOBS) as pool:
        a = [(o, depth, leaves1 or C01.LEAVES, None) for o in range(len(C01.ctxs(0)))]
        b = [(o, depth, leaves2 or C02.LEAVES) for o in range(len(C02.ctxs(0)))]
        ps = sum(pool.map(C01.job, a, chunksize=1), []) + sum(pool.map(C02.job, b, chunksize=1), [])
    return ps


def ways(ps, only=None):
    for p, want in ps:
        assert p.startswith("(let* ")
        for k, w in WAYS.items():
            if only and k not in only or k == "quasiquoted" and "`" in p:
                continue
            yield w % p, want
        yield TWICE % p, "(%s %s %s %s t)" % (want, want, want, want)


def as_bytes(ps):
    """compiled code shows its bytes, all of them and no others"""
    for p, _ in ps:
        yield ("(let* (def c (compile '%s)) (def a (:array c)) (def l (:literals c)) (def n (:length c)) (def bad 0) (dotimes (i n) (when-not (= (ref a i) (ref c i)) (inc! bad)) (when-not (<= 0 (ref c i) 255) (inc! bad)))"
               " (def d (:bytecode-array a l)) (dotimes (i n) (when-not (= (ref d i) (ref c i)) (inc! bad))) (list bad (= n (:length a) (:length d)) (> n 0) (:type-name l) (:type-name d) %s))") % (
            p, " ".join(attempt("(ref %s %s)" % (v, i)) for v in "cd" for i in ("n", "(+ n 1)", "(+ n 8)", "(* n 2)", "-1", lit(1 << 32), lit(I64MIN), "#nil", "1.5", "'a"))), canon([0, True, True, Kw("array"), Kw("bytecode-array")] + [ERR] * 20)
    # code of any size: every byte of it, and what is put together of them is the same code
    for rows, cols, k, m in ((1, 80, 1000000, 1000), (1, 90, 1000000, 1000), (2, 250, 1000000, 1000), (6, 200, 1000000, 1000), (8, 200, 1000000, 1000), (10, 200, 0, 0), (11, 200, 0, 0), (40, 200, 0, 0), (80, 250, 0, 0)):
        yield ("(let* (def form (list 'list)) (dotimes (i %d) (def row (list 'list)) (dotimes (j %d) (set! row (cons (+ %d (* i %d) j) row))) (set! form (cons (nreverse row) form))) (def c (compile (nreverse form))) (def a (:array c)) (def n (:length c)) (def bad 0) (dotimes (i n) (when-not (= (ref a i) (ref c i)) (inc! bad)))"
               " (def d (:bytecode-array a (:literals c))) (def e (image/deserialize (image/serialize c))) (dotimes (i n) (when-not (= (ref a i) (ref d i) (ref e i)) (inc! bad))) (def rs (map (list c d e) (fn (x) (bytecode-eval* x (current-closure))))) (list bad (= n (:length a) (:length d) (:length e)) (> n %d) (map rs (fn (r) (list (:length r) (sum (map r sum)))))))") % (rows, cols, k, m, rows * cols * 2), \
            canon([0, True, True, [[rows, sum(k + i * m + j for i in range(rows) for j in range(cols))]] * 3])
    for bad in ("#nil", "1", "'a", "(list 1)", "{}", "\"a\""):
        yield attempt("(:bytecode-array [1] %s)" % bad), canon(ERR) if bad != "#nil" else NOCRASH
    for bad in ("#nil", "1.5", "'a", "\"a\"", "(list 1)"):
        yield attempt("(:bytecode-array [1 %s 1] [])" % bad), canon(ERR)


# ---- templates: (source, model); a splice is marked as such
class Splice(list):
    pass


def templates(n, memo={}):
    """(source, value) of all templates of n nodes"""
    if n in memo:
        return memo[n]
    if n == 1:
        out = [("1", 1), ("x", Sym("x")), ("~a", 5), ("~b", [6, 7]), ("~@b", Splice([6, 7])), ("~@nothing", Splice()), (":k", Kw("k")), ("#nil", None), ("#f", False), ('"s"', b"s"), ("~(list a 'a)", [5, Sym("a")]), ("'y", [Sym("quote"), Sym("y")])]
    else:
        out = []
        for parts in compositions(n - 1):
            for els in itertools.product(*[templates(k) for k in parts]):
                v = []
                for s, e in els:
                    v += e if isinstance(e, Splice) else [e]
                out.append(("(%s)" % " ".join(s for s, e in els), v))
    memo[n] = out
    return out


def compositions(n):
    if n == 0:
        return
    yield (n,)
    for k in range(1, n):
        for r in compositions(n - k):
            yield (k,) + r


def fix(v):
    """empty lists are #nil"""
    if type(v) is list:
        return [fix(x) for x in v] or None
    return v


def template_cases(n):
    for k in range(1, n + 1):
        for s, v in templates(k):
            if isinstance(v, Splice):
                continue
            yield "(let* (def a 5) (def b (list 6 7)) (def nothing #nil) (def once (fn () `%s)) (def r1 (once)) (def r2 (once)) (list r1 r2 (list `%s b)))" % (s, s), canon([fix(v), fix(v), [fix(v), [6, 7]]])
    # dotted ends, arrays, trees
    ends = [("1", 1), ("x", Sym("x")), ("~a", 5), ("~b", [6, 7]), ("#nil", None)]
    heads = [("1", [1]), ("x ~a", [Sym("x"), 5]), ("~@b", [6, 7]), ("~@b ~@b", [6, 7, 6, 7]), ("(~a) ~@b", [[5], 6, 7])]
    for h, hv in heads:
        for e, ev in ends:
            want = hv + (ev or []) if type(ev) is list or ev is None else None
            if want is None:
                w = ev
                for x in hv[::-1]:
                    w = Pair(x, w)
                want = w
            yield "(let* (def a 5) (def b (list 6 7)) `(%s . %s))" % (h, e), canon(want)
    for s, v in (("[~a x]", [Sym("array/new"), 5, Sym("x")]), ("{:k ~a}", [Sym("tree/new"), Kw("k"), 5]), ("[~@b]", [Sym("array/new"), 6, 7])):
        yield "(let* (def a 5) (def b (list 6 7)) `%s)" % s, canon(v)
        yield "(let* (def a 5) (def b (list 6 7)) (def x 9) (eval `%s))" % s, canon({"[~a x]": Arr([5, 9]), "{:k ~a}": Tree(k=5), "[~@b]": Arr([6, 7])}[s])
    # evaluated in order, once; fresh every time
    yield "(let* (def log #nil) (defn t (x) (set! log (cons x log)) x) (def r `(~(t 1) (~@(list (t 2) (t 3)) ~(t 4)) . ~(t 5))) (list r log))", canon([Pair(1, Pair([2, 3, 4], 5)), [5, 4, 3, 2, 1]])
    for s in ("(unquote 1)", "(unquote-splicing (list 1))", "~1", "~@(list 1)"):
        yield attempt("(eval '%s)" % s), canon(ERR)


PARAMS = [("#nil", lambda a: []), ("(a)", lambda a: a[:1]), ("(a b)", lambda a: a[:2]), ("(a . r)", lambda a: [a[0] if a else None, a[1:]]), ("r", lambda a: [a]), ("(a b . r)", lambda a: [a[0] if a else None, a[1] if len(a) > 1 else None, a[2:]])]
FORMS = ["1", "#f", "x", "(f x)", ":k", '"s"', "#nil", "(boom!)", "'q", "(1 . 2)", "`(u ~v ~@w)"]
FVAL = [1, False, Sym("x"), [Sym("f"), Sym("x")], Kw("k"), b"s", None, [Sym("boom!")], [Sym("quote"), Sym("q")], Pair(1, 2), [Sym("quasiquote"), [Sym("u"), [Sym("unquote"), Sym("v")], [Sym("unquote-splicing"), Sym("w")]]]]


def pad(p, got):
    n = {"(a)": 1, "(a b)": 2}.get(p)
    return got + [None] * ((n or len(got)) - len(got))


def macros(n):
    names = {"#nil": "", "(a)": "a", "(a b)": "a b", "(a . r)": "a r", "r": "r", "(a b . r)": "a b r"}
    for p, f in PARAMS:
        for k in range(0, n + 1):
            for idx in itertools.product(range(len(FORMS)), repeat=k):
                if k == n and n > 2 and len(set(idx)) == 1:
                    continue
                args = [FVAL[i] for i in idx]
                got = pad(p, [fix(x) for x in f(args)])
                form = "(tell %s)" % " ".join(FORMS[i] for i in idx)
                yield "(let* (def given 0) (eval-in (current-closure) '(defmacro tell %s (set! given (+ given 1)) (list 'quote (list %s)))) (def code '%s) (list (eval code) given (eval '(if #t %s 0)) given))" % (p, names[p], form, form), canon([got or None, 1, got or None, 2])
    # macros within macros, recursive ones, ones that define something
    yield "(let* (eval-in (current-closure) '(defmacro my-or r (if r (list 'let (list (list 'v (car r))) (list 'if 'v 'v (cons 'my-or (cdr r)))) #f))) (list (eval '(my-or)) (eval '(my-or 1 2)) (eval '(my-or #f #nil 3)) (eval '(my-or #f #nil))))", canon([False, 1, 3, False])
    yield "(let* (eval-in (current-closure) '(defmacro define-it (n v) `(def ~n ~v))) (eval-in (current-closure) '(define-it made 5)) (list (eval 'made) (resolves? 'made)))", canon([5, True])
    yield "(let* (eval-in (current-closure) '(defmacro m1 (x) `(m2 ~x ~x))) (eval-in (current-closure) '(defmacro m2 (x y) `(list ~x ~y 'm2))) (eval '(m1 (+ 1 2))))", canon([3, 3, Sym("m2")])
    yield "(let* (eval-in (current-closure) '(defmacro swap! (a b) `(let ((tmp ~a)) (set! ~a ~b) (set! ~b tmp)))) (def p 1) (def q 2) (eval '(swap! p q)) (list p q))", canon([2, 1])
    yield "(let* (eval-in (current-closure) '(defmacro failing (x) (throw (list :no x)))) (list %s %s (eval '(fn () 1) )))" .replace("(eval '(fn () 1) )", "7") % (attempt("(eval '(failing 1))"), attempt("(eval '(let* (failing 1)))")), canon([ERR, ERR, 7])
    yield "(let* (eval-in (current-closure) '(defmacro to-const (x) 5)) (eval-in (current-closure) '(defmacro to-nil (x) #nil)) (eval-in (current-closure) '(defmacro to-str (x) \"s\")) (eval-in (current-closure) '(defmacro to-sym (x) x)) (def w 8) (list (eval '(to-const (boom!))) (eval '(to-nil 1)) (eval '(to-str 1)) (eval '(to-sym w)) (eval '(if (to-nil 1) 1 2)) (eval '(+ (to-const 1) 1))))", canon([5, None, b"s", 8, 2, 6])
    yield "(let* (eval-in (current-closure) '(defmacro version () 1)) (def f (eval '(version))) (eval-in (current-closure) '(defmacro version () 2)) (list f (eval '(version)) f))", canon([1, 2, 1])
    yield "(let* (def r (let* (eval-in (current-closure) '(defmacro local-macro () 5)) (eval '(local-macro)))) (list r (resolves? 'local-macro)))", canon([5, False])


def main():
    ck = Check("C31", "model_checking")
    t = ck.thorough
    ck.cases("programs of one construct, in every way", ways(programs(1)))
    few = ["quoted", "by a macro", "through a macro", "written and read", "as a module"]
    for o in range(2) if not t else range(6):
        ps = programs(2, [C01.LEAVES[0 if o == 0 else o + 3]], C02.SHORT[o % 4:o % 4 + 1])
        ck.cases("programs of two constructs", ways(ps, few if t else few[o:o + 1] + few[o + 2:o + 3]), variant="plain")
    ck.cases("code as bytes", as_bytes(programs(1)))
    ck.cases("templates", template_cases(5 if t else 4), variant="plain" if t else "asan")
    ck.cases("macros and forms", macros(3 if t else 2))
    ck.assumptions += ["trusts lib/refinterp.py (bound to the interpreter by C01)", "nested quasiquotation isn't covered", "a macro has to be defined before the form using it is compiled"]
    ck.finish()


if __name__ == "__main__":
    main()
