"""Evaluation: every program made by nesting the constructs of the language in
every argument position of each other, up to a depth, against the reference
interpreter.  Programs record the order of their side effects."""
from common import *
import itertools, multiprocessing
import refinterp as R

H = "□"
K = Kw


def ctxs(d):
    """contexts; d makes the names of loop variables distinct per nesting level"""
    i, v, f, q, z = ("%s%d" % (c, d) for c in "ivfqz")
    return [
        ("list", H, "x"), ("list", "x", H), ("list", ("t", 1), H, ("t", 2)), ("cons", H, "y"), ("cons", "x", ("cons", H, None)),
        ("car", ("list", H, 3)), ("cdr", ("list", 3, H)), ("not", H), ("nil?", H), ("identity", H), ("boolean", H),
        ("if", H, ("t", 1), ("t", 2)), ("if", "x", H, ("t", 2)), ("if", None, ("t", 1), H), ("if", H, "x"), ("if-not", H, ("t", 1), "x"),
        ("and", H, ("t", 3)), ("and", "x", H), ("and", ("t", 1), H, "y"), ("or", H, ("t", 3)), ("or", False, H), ("or", None, H, "x"),
        ("do", H, "x"), ("do", ("t", 1), H), ("do", "x", H, ("t", 6)),
        ("let", (("x", H),), ("list", "x", "y")), ("let", (("x", 7),), H), ("let", (("x", 7), ("y", "x")), ("list", H, "x", "y")), ("let*", ("def", "y", H), ("set!", "x", "y"), "x"),
        ("def", "x", H), ("set!", "x", H), ("list", ("set!", "x", H), "x"), ("let*", H),
        (("fn", ("x",), H), ("t", 4)), (("fn", ("x",), "x"), H), (("fn", ("a", ".", "r"), ("list", H, "r", "a")), 1, 2, 3), (("fn", "r", ("list", "r", H)), 1, "x"), (("fn", ("a", "b"), ("list", "b", "a")), H),
        (("fn", ("x",), ("return", H), ("t", 9)), 5), ("return", H), (("fn", ("x",), ("list", ("t", 1), ("return", ("list", H, "x"))), ("t", 9)), 5),
        ("let", ((i, 0),), ("while", ("<", i, 2), ("set!", i, ("+", i, 1)), H)), ("let", ((i, 0),), ("while", ("<", i, 3), ("set!", "y", ("cons", H, "y")), ("set!", i, ("+", i, 1)))),
        ("let", ((i, 2),), ("while", ("and", i, H), ("t", i), ("set!", i, ("if", ("=", i, 2), 1, None)))),
        ("try", ("fn", ("e",), H), ("throw", 5)), ("try", ("fn", ("e",), ("list", K("c"), ("car", "e"), "x")), H), ("try", ("fn", ("e",), ("return", H)), ("throw", 1)), ("try", ("fn", ("x",), ("car", "x")), ("let", (("x", 8),), ("t", 3), H)),
        ("try", "car", ("list", ("t", 1), ("throw", H))), ("throw", H), ("throw", ("list", K("a"), H)), ("try", ("fn", ("e",), ("list", "x", "y")), ("set!", "x", H), ("throw", ("set!", "y", 4))),
        ("cond", (H, ("t", 1)), (True, ("t", 2))), ("cond", (False, 1), ("x", ("t", 5), H), (True, ("t", 2))), ("cond", (None, 1), (H, "x")),
        ("case", H, (5, K("five")), ((None, 1), K("nil")), (K("a"), ("t", 7)), ("otherwise", "x")), ("case", "x", (5, H), ("otherwise", ("t", 1))), ("case", "x", ((6, 8), 1), ("otherwise", ("t", 2), H)),
        ("when", H, ("t", 1), "x"), ("when", "x", ("t", 2), H), ("when-not", H, ("t", 1)), ("when-not", None, ("t", 1), H),
        ("let", ((f, ("fn", (z,), ("set!", "x", ("cons", z, None)), H)),), ("list", (f, 1), (f, 2), "x")), (("let", ((q, 1),), ("fn", (z,), ("set!", q, H), ("list", q, z))), 2),
        ("let", ((q, ("fn", ("a",), ("fn", ("b",), ("list", "a", "b", H)))),), ((q, "x"), ("t", 2))),
        ("apply", "cons", ("list", H, ("list", "x"))), ("apply", ("fn", ("a", "b"), ("list", "b", "a", H)), ("list", 1, 2)), ("apply", H, ("list", 1)),
        ("let", ((f, None),), ("set!", f, ("fn", ("m",), ("if", ("=", "m", 0), H, ("list", "m", (f, ("-", "m", 1)))))), (f, 2)),
        ("doseq", (v, ("list", 1, 2), "y"), ("set!", "y", ("cons", H, "y"))), ("doseq", (v, H), ("t", v)) if False else ("doseq", (v, ("list", H, 2), "x"), ("set!", "x", v)),
        ("dotimes", (v, 2, "y"), ("set!", "y", ("cons", H, "y"))), ("->", H, ("list", 2), ("cons", "y")), ("let", ((q, H),), (q, 1)), ("=", H, 5), ("not=", H, "x"),
    ]


LEAVES = ["x", "y", 1, None, False, ("t", 5), ("throw", 3), ("throw", ("list", K("b"), "x")), ("return", 9), ("set!", "x", 8), ("def", "y", 6), ("list", "x", "w"), "t", "cons", ("identity", "undefined"),
          ("fn", ("a",), ("list", "a", "x")), ("set!", "undefined", 1)]


def fill(c, e):
    if c == H:
        return e
    if isinstance(c, tuple):
        return tuple(fill(x, e) for x in c)
    return c


PROLOGUE = (("def", "n", None), ("def", "x", 5), ("def", "y", None), ("def", "t", ("fn", ("k",), ("set!", "n", ("cons", "k", "n")), "k")))


def program(e):
    return ("let*",) + PROLOGUE + (("def", "top", ("fn", ("w",), ("def", "r", e), ("list", "r", "x", "w"))),
            ("def", "res", ("try", ("fn", ("e",), ("list", K("exc"), ("car", "e"))), ("top", 3))), ("list", "res", "n", "x", "y"))


def cv(v):
    if isinstance(v, R.Fn):
        return Raw("L")
    if v is R.ErrTail:
        raise R.TooLong     # the text of an error is not part of the model
    if isinstance(v, tuple):
        return tuple(cv(x) for x in v)
    if callable(v):
        return Raw("L")
    return v




def norm(s):
    # list is a native function or not: not part of the semantics
    return s


def expected(p):
    try:
        r = R.Interp().ev(p, R.Env())
        return canon(cv(r))
    except R.TooLong:
        return None
    except RecursionError:
        return None


def case(e):
    p = program(e)
    x = expected(p)
    return None if x is None else (R.src(p), x)


def job(args):
    outer, depth, leaves, pick = args
    out = []
    levels = [ctxs(k) for k in range(depth)]
    rest = [[levels[k][j] for j in pick] if pick else levels[k] for k in range(1, depth)]
    for chain in itertools.product(*rest):
        for l in leaves:
            e = l
            for c in reversed(chain):
                e = fill(c, e)
            r = case(fill(levels[0][outer], e))
            if r:
                out.append(r)
    return out


# ---- operands of every kind of call, all of them reading or changing the same variable
def _set(v):
    def f(st):
        st["x"] = v(st["x"])
        return st["x"]
    return f


def _post(st):
    st["x"] += 7
    return st["x"] - 7


def _t(st):
    st["n"].append(2)
    return 2


def _shadow(st):
    st["n"].append(st["x"])
    return 100


OPERANDS = [("x", lambda st: st["x"]), ("3", lambda st: 3), ("(set! x 10)", _set(lambda x: 10)), ("(set! x (+ x 1))", _set(lambda x: x + 1)), ("(do (set! x (* x 2)) x)", _set(lambda x: x * 2)),
            ("(post)", _post), ("(t 2)", _t), ("(let ((x 100)) (t2 x))", _shadow), ("(if (set! x (- x 1)) x 0)", _set(lambda x: x - 1))]
CALLS = {"+": lambda *a: sum(a), "-": lambda a, *r: a - sum(r), "*": lambda a, *r: __import__("functools").reduce(lambda p, q: p * q, r, a), "list": lambda *a: list(a), "array/new": lambda *a: Arr(a),
         "user": lambda *a: list(a)[::-1], "bit-or": lambda *a: __import__("functools").reduce(lambda p, q: p | q, a), ":get": lambda *a: list(a), "cat": lambda *a: ("s", "".join(map(str, a)))}
TWO = {"<": lambda a, b: a < b, "=": lambda a, b: a == b, ">=": lambda a, b: a >= b, "not=": lambda a, b: a != b, "cons": lambda a, b: ("p", a, b), "add/int": lambda a, b: a + b, "bit-and": lambda a, b: a & b, "bit-xor": lambda a, b: a ^ b, "sub/int": lambda a, b: a - b, "rem": None}


VALUES = [("#nil", None), ("#f", False), ("0", 0), ("'(1)", [1])]


def variables(depth, pre=""):
    """every sequence of defining and assigning a variable in a scope and in the one around it,
    of which each is one of a kind, and reading it in both; pre takes up literals"""
    n = 0
    ops = [(w, o, v) for w in ("o", "i") for o in ("def", "set!", "store") for v in range(len(VALUES))]
    kinds = [("root-closure", "(eval-in o '(let* (current-closure)))"), ("root-closure", "(eval-in o '(environment*))"), ("(environment*)", "(eval-in o '(let* (current-closure)))"), ("(let* (current-closure))", "(eval-in o '((fn (a) (current-closure)) 1))"),
             ("(let ((a 1)) (current-closure))", "(eval-in o '(environment*))"), ("((fn (a b) (current-closure)) 1 2)", "(eval-in o '(let ((a 2)) (current-closure)))")]
    for d in range(1, depth + 1):
        for ko, ki in kinds:
            for seq in itertools.product(ops, repeat=d):
                if d > 2 and len({q[2] for q in seq}) > 2:
                    continue
                n += 1
                name = "gv%s%d" % ("x" if pre else "", n)
                sc = {"o": {}, "i": {}}
                body, out = [], []
                for w, o, v in seq:
                    src, m = VALUES[v]
                    read = "(list (try car (eval-in o '(do %s(list %s)))) (try car (eval-in i '(do %s(list %s)))) (:has? o '%s) (:has? i '%s))" % (pre, name, pre, name, name, name)
                    if o == "store":
                        body.append("(set! %s '%s %s)" % (w, name, src))
                        sc[w][name] = m
                    else:
                        body.append("(def r (try car (list (eval-in %s '(do %s(%s %s %s))))))" % (w, pre, o, name, src))
                        if o == "def":
                            sc[w][name] = m
                            e = [m]
                        else:
                            at = next((sc[q] for q in ("io" if w == "i" else "o") if name in sc[q]), None)
                            e = Kw("unbound-variable") if at is None else [m]
                            if at is not None:
                                at[name] = m
                        body.append("(set! out (cons r out))")
                        out.append(e)
                    vo, vi = [sc["o"][name]] if name in sc["o"] else Kw("unbound-variable"), next(([sc[q][name]] for q in "io" if name in sc[q]), Kw("unbound-variable"))
                    body.append("(set! out (cons %s out))" % read)
                    out.append([vo, vi, name in sc["o"], name in sc["o"] or name in sc["i"]])
                yield "(let* (def o %s) (def i %s) (def out #nil) %s (nreverse out))" % (ko, ki, " ".join(body)), canon(out)


def order_cases(ck):
    for n in (2, 3) + ((4,) if ck.thorough else ()):
        for ops in itertools.product(OPERANDS, repeat=n):
            for c, f in (CALLS.items() if n > 2 else list(CALLS.items()) + list(TWO.items())):
                if f is None:
                    continue
                st = {"x": 5, "n": []}
                v = f(*[o[1](st) for o in ops])
                if c == ":get" or c == "cat":
                    args = " ".join(o[0] for o in ops)
                    if c == ":get":
                        call, v = "(:get obj %s)" % args, v
                    else:
                        call, v = "(cat %s)" % args, v[1].encode()
                else:
                    call = "(%s %s)" % (c, " ".join(o[0] for o in ops))
                if isinstance(v, tuple):
                    v = Raw("(i%d . i%d)" % v[1:])
                yield ("(let* (def n #nil) (def x 5) (def t (fn (k) (set! n (cons k n)) k)) (def t2 (fn (k) (set! n (cons x n)) k)) (def post (fn () (def o x) (set! x (+ x 7)) o)) (def user (fn r (reverse r)))"
                       " (def obj {:get (fn (self . r) r)}) (list (let* %s) x n))" % call), canon([v, st["x"], st["n"][::-1] or None])


def scopes(thorough):
    """scopes with many variables: every one is read, set, shadowed and captured"""
    VS = [("#nil", None), ("#f", False), ("0", 0), ("#t", True), ('"s"', "s"), (":k", Kw("k")), ("1.5", 1.5), ("(list 1 2)", [1, 2])]
    for n in list(range(1, 80)) + [100, 127, 128, 129, 200, 255, 256, 257] + ([400, 700, 1000, 1500] if thorough else [500]):
        for name, order in (("ascending", range(n)), ("descending", range(n - 1, -1, -1)), ("strided", [i * 7 % n if n % 7 else i for i in range(n)])):
            if n > 300 and name != "strided" and not thorough:
                continue
            order = list(order)
            names = "'(%s)" % " ".join("v%d" % i for i in range(n))       # interned in this order
            defs = " ".join("(def v%d %s)" % (i, VS[i % 8][0]) for i in order)
            lists = lambda f, parts=[range(i, min(n, i + 120)) for i in range(0, n, 120)]: ("(list %s)" % " ".join("(list %s)" % " ".join(f(i) for i in q) for q in parts))
            exp = lambda f, parts=[range(i, min(n, i + 120)) for i in range(0, n, 120)]: [[f(i) for i in q] for q in parts]
            get = lists(lambda i: "v%d" % i)
            sets = " ".join("(set! v%d %s)" % (i, VS[(i + 3) % 8][0]) for i in order[::-1])
            a, b = exp(lambda i: VS[i % 8][1]), exp(lambda i: VS[(i + 3) % 8][1])
            yield "(let* (def names %s) %s (def r1 %s) %s (list r1 %s))" % (names, defs, get, sets, get), canon([a, b])
            yield "(let* (def names %s) (def f (fn (w) %s (def g (fn () %s %s)) (list (if w #nil %s) (g) %s))) (f #f))" % (names, defs, sets, get, get, get), canon([a, b, b])
            if n < 130:
                # set in an inner scope that shadows every second one
                sh = [i for i in order if i % 2]
                yield "(let* (def names %s) %s (list (let (%s) %s %s) %s))" % (names, defs, " ".join("(v%d :in)" % i for i in sh), sets, get, get) if sh else "(list 1)", \
                    canon([b, exp(lambda i: VS[(i if i % 2 else i + 3) % 8][1])]) if sh else "(i1)"
            if n < 250:
                # arguments of a call
                yield "(let* (def f (fn (%s) %s (def r %s) %s (list r %s))) (f %s))" % (" ".join("v%d" % i for i in order), "(set! v0 v0)", get, sets, get, " ".join(VS[i % 8][0] for i in order)), canon([a, b])


def spaces(ck):
    n = len(ctxs(0))
    yield "depth 1, all constructs", [(o, 1, LEAVES, None) for o in range(n)]
    yield "depth 2, all constructs", [(o, 2, LEAVES, None) for o in range(n)]
    if ck.thorough:
        yield "depth 3, all constructs", [(o, 3, LEAVES[:1] + LEAVES[5:11], None) for o in range(n)]


if __name__ == "__main__":
    ck = Check("C01", "model_checking")
    with multiprocessing.Pool(JOBS) as pool:
        for name, jobs in spaces(ck):
            for out in pool.imap(job, jobs, chunksize=1) if ck.thorough else [sum(pool.map(job, jobs, chunksize=1), [])]:
                if out:
                    ck.cases(name, out, variant="plain" if "depth 2" in name else "asan")
    ck.cases("variables of scopes of every kind", variables(2 if not ck.thorough else 3), chunk=1500)
    wide = "".join("(list %s)" % " ".join(":wide%d" % i for i in r) for r in (range(130), range(130, 260)))
    ck.cases("variables of scopes, in code with many literals", (c for k, c in enumerate(variables(2, wide)) if ck.thorough or k < 160 or k % 9 == 0), chunk=200)
    ck.cases("order of evaluating operands", order_cases(ck), chunk=8000)
    ck.cases("scopes of many variables", scopes(ck.thorough), variant="plain", chunk=20, stall=100)
    ck.assumptions = ["the reference interpreter (lib/refinterp.py) states what the language means", "programs that run for more than 4000 steps in the model are left out"]
    ck.finish()
