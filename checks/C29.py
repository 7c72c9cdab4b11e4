"""Methods.  (1) Which methods every type of value has; (2) every history of
adding methods to types that inherit from each other; (3) every graph of up to
three objects with every kind of own method and prototype, cyclic ones included,
and every history of changing them; (4) every way of calling a method; (5) scopes
as objects: what functions see when their scope is replaced."""
from common import *
import itertools

ERR = [Kw("err")]

TABLE = {
    "Any": "length meta type-name type-of",
    "Nil": "string", "Int": "string", "Float": "string",
    "Symbol": "keyword string symbol", "Keyword": "keyword string symbol",
    "Array": "has? length!", "Tree": "clone has? key* keys left* right* value* values",
    "Buffer": "clone cut f32 f64 immutable? length! s16 s32 s64 s8 string u16 u32 u8", "String": "index-of keyword last-index-of symbol",
    "BufferView": "buffer immutable?", "Lambda": "arguments code data has? meta! parent parent!",
    "NativeFunc": "arguments", "Type": "add-method name", "Type Array": "alloc", "BytecodeArr": "literals",
}
PARENT = {"String": "Buffer", "Macro": "Lambda", "Environment": "Lambda"}
VALUES = {
    "Nil": ["#nil", "(list)"], "Bool": ["#t", "#f"], "Int": ["5", "-1"], "Float": ["1.5"], "Symbol": ["'sym"], "Keyword": [":kw"], "Pair": ["(list 1)", "(cons 1 2)"],
    "Array": ["(array/new 1)", "(array/new)"], "Tree": ["(tree/new)", "(tree/new :a 1)"], "String": ['"str"', '""'], "Buffer": ["(buffer/allocate 2)"], "BufferView": ["(:u16 (buffer/allocate 2))"],
    "NativeFunc": ["read", "+"], "Lambda": ["(fn (x) x)"], "Macro": ["when"], "Environment": ["(environment*)", "(let* (def x 1) (current-closure))"],
    "Type": ["Int", "Tree", "String"], "Type Array": ["Array"], "FileHandle": ["stdout*"], "BytecodeArr": ["(:code (fn (x) x))"],
}


def chain(t):
    r = [t]
    while r[-1] in PARENT:
        r.append(PARENT[r[-1]])
    if t == "Type Array":
        r.append("Type")
    return r + ["Any"]


def unknown(src):
    return "(try (fn (e) (and (pair? e) (equal? (list (car e) (cadr e)) (list :type-error \"Unknown method\")))) (do %s #f))" % src


def table():
    names = sorted({m for ms in TABLE.values() for m in ms.split()} | {"unheard-of", "car", "prototype*", "x"})
    for t, vs in VALUES.items():
        has = {m for c in chain(t) for m in TABLE.get(c, "").split()}
        for v in vs:
            want = [m not in has for m in names]
            yield "(let* (def v %s) (list %s))" % (v, " ".join(unknown("(:%s v)" % m) for m in names)), canon(want)
            yield "(list %s)" % " ".join(unknown("(apply :%s (list %s))" % (m, v)) for m in names), canon(want)
    tn = {"Nil": "nil", "NativeFunc": None, "BufferView": "buffer-view", "FileHandle": "file-handle", "BytecodeArr": "bytecode-array", "Type Array": "type"}
    for t, vs in VALUES.items():
        for v in vs:
            name = tn.get(t, t.lower())
            if name:
                T = "Type" if t == "Type Array" else t
                yield "(let* (def v %s) (list (:type-name v) (= (:type-of v) %s) (:name (:type-of v)) (= (:name (:type-of v)) (:type-name v)) (:type-name (:type-of v))))" % (v, T), canon([Kw(name), True, Kw(name), True, Kw("type")])
            # anything else has no properties to look up or to change
            yield "(let* (def v %s) (list (:meta v :nothing-of-this-name) (:type-name v)))" % v, lambda g: g.startswith("(nil k")
    ts = [t for t in VALUES if t != "Type Array"]
    for a in ts:
        yield "(list %s)" % " ".join("(= %s %s)" % (a, b) for b in ts), canon([a == b for b in ts])


SUB = ["Any", "Buffer", "String", "Lambda", "Environment", "Int", "Type"]
PROBE = [("Nil", "#nil"), ("Int", "5"), ("Float", "1.5"), ("String", '"s"'), ("Buffer", "(buffer/allocate 1)"), ("Lambda", "(fn (x) x)"), ("Macro", "when"), ("Environment", "(environment*)"),
         ("Tree", "(tree/new :a 1)"), ("Type", "Int"), ("Type", "String"), ("Type", "Any"), ("NativeFunc", "read")]


def added(depth):
    """names are unique to each case as types keep what they are given"""
    n = 0
    for d, names in [(1, True), (2, True), (2, False)] + [(3, False)] * (depth > 2):
        for seq in itertools.product(SUB, repeat=d):
            if d == 3 and len(set(seq)) == 1:
                continue
            n += 1
            m = "m%d-%d" % (d, n)
            have = {}
            src, all_want = "", []
            for i, t in enumerate(seq):
                have[t] = i
                src += " (:add-method %s :%s (fn (self x . y) (list %d x y%s)))" % (t, m, i, " (:type-name self)" * names)
                want = []
                for t, v in PROBE:
                    k = next((have[c] for c in chain(t) if c in have), None)
                    name = {"NativeFunc": None}.get(t, t.lower())
                    want.append(ERR if k is None else None if name is None else [k, 1, [2, 3]] + [Kw(name)] * names)
                keep = [j for j, w in enumerate(want) if w is not None]
                # what was called before something was added must not matter
                src += " (def r%d (list %s))" % (i, " ".join(attempt("(:%s %s 1 2 3)" % (m, PROBE[j][1])) for j in keep))
                all_want.append([want[j] for j in keep])
            src2 = [attempt("(:%s %s 1 2 3)" % (m, PROBE[j][1])) for j in keep]
            yield "(let*%s (verify/arm 0 -1) (if (current-closure) 1 2) (verify/disarm) (list %s (list %s)))" % (src, " ".join("r%d" % i for i in range(d)), " ".join(src2)), canon(all_want + all_want[-1:])
    for t in SUB:
        for bad in ("read", "#nil", "5", "when", ":kw", "(current-closure)"):
            yield "(let* (list %s %s))" % (attempt("(:add-method %s :bad-%s %s)" % (t, t.lower(), bad)), unknown("(:bad-%s %s)" % (t.lower(), dict(PROBE)[t] if t != "Any" else "5"))), canon([ERR, True])
        for bad in ("5", '"s"', "#nil", "1.5", "(list 'a)", "(array/new)"):
            yield attempt("(:add-method %s %s (fn (self) 1))" % (t, bad)), canon(ERR)
        yield "(let* (:add-method %s '%s-sym (fn (self) self)) (= (:%s-sym %s) #nil))" % (t, t, t, dict(PROBE)[t] if t != "Any" else "5"), canon(False)
    for n in (1, 2, 10, 100, 1000):
        yield "(let* (dotimes (i %d) (:add-method Int (:symbol (cat \"grow%d-\" i)) (fn (self x) (+ self x i)))) (def bad 0) (dotimes (i %d) (when (not= ((:keyword (cat \"grow%d-\" i)) 5 7) (+ 12 i)) (inc! bad))) (list bad (:string 5) (:type-name 5)))" % (n, n, n, n), canon([0, "5", Kw("int")])


# ---------------------------------------------------------------- prototypes
OWN = {
    "-": None,
    "f": "(fn (self . r) (list %d self.id r))",
    "n": "list",        # a native function
    "0": "#nil", "5": "5", "k": ":length", "t": "(tree/new)",
}
OTHER = {"I": "5", "S": '"abc"', "T": "Int", "A": "(array/new 1 2)", "L": "(fn (self) :wrong)", "B": "(buffer/allocate 3)", "N": "#nil"}


def call_model(objs, i, args):
    seen = set()
    o = i
    while o is not None and o not in seen:
        seen.add(o)
        own, proto = objs[o]
        if own != "-":
            if own == "f":
                return [o, i, args]
            if own == "n":
                return None
            return ERR
        o = proto if isinstance(proto, int) else None
    return ERR


def graph_src(objs):
    s = "".join(" (def o%d (tree/new :id %d))" % (i, i) for i in range(len(objs)))
    for i, (own, proto) in enumerate(objs):
        if own != "-":
            s += " (set! o%d :m %s)" % (i, OWN[own] % i if own == "f" else OWN[own])
        if proto is not None:
            s += " (set! o%d :prototype* %s)" % (i, "o%d" % proto if isinstance(proto, int) else OTHER[proto])
    return s


def prototypes(thorough):
    owns = list(OWN) if thorough else ["-", "f", "0", "n"]
    for k in (1, 2, 3):
        protos = [None] + list(range(k)) + (list(OTHER) if k < 3 else ["I"])
        for objs in itertools.product(itertools.product(owns if k < 3 else owns[:3], protos), repeat=k):
            if k == 3 and not thorough and sum(o != "-" for o, p in objs) > 2:
                continue
            want, src = [], []
            for i in range(k):
                w = call_model(objs, i, [7, 8])
                if w is None:
                    continue
                want.append(w)
                src.append(attempt("(:m o%d 7 8)" % i))
                want.append(w)
                src.append(attempt("(apply :m (list o%d 7 8))" % i))
            yield "(let*%s (list %s))" % (graph_src(objs), " ".join(src + ["(:type-name o0)", "(:length o0)", attempt("(:name o0)"), "(list :err)"])), canon(want + [Kw("tree"), 1 + (objs[0][0] != "-") + (objs[0][1] is not None), ERR, ERR])


class Objs:
    def __init__(self):
        self.o = [["f", None], ["-", 0], ["-", 1]]


def do(f):
    def g(s):
        f(s)
        return Kw("ok")
    return g


def call(i):
    return lambda s: (lambda r: _raise() if r == ERR else r)(call_model([tuple(x) for x in s.o], i, []))


def _raise():
    raise Err()


def put(i, k, v):
    return do(lambda s: s.o[i].__setitem__(k, v))


def histories(depth):
    ops = [("(:m o%d)" % i, call(i)) for i in (1, 2)]
    for i in range(3):
        ops.append(("(do (set! o%d :m (fn (self . r) (list %d self.id r))) :ok)" % (i, i), put(i, 0, "f")))
        ops.append(("(do (set! o%d :m #nil) :ok)" % i, put(i, 0, "0")))
    for i, j in ((0, 1), (0, 2), (1, 2), (2, 0), (1, 0), (1, 1)):
        ops.append(("(do (set! o%d :prototype* o%d) :ok)" % (i, j), put(i, 1, j)))
    ops.append(("(do (set! o1 :prototype* #nil) :ok)", put(1, 1, None)))
    ops.append(("(do (set! o2 :prototype* \"str\") :ok)", put(2, 1, None)))
    yield from explore("(def o0 (tree/new :id 0 :m (fn (self . r) (list 0 self.id r)))) (def o1 (tree/new :id 1 :prototype* o0)) (def o2 (tree/new :id 2 :prototype* o1))",
                       Objs, ops, depth, "(list %s)" % " ".join(attempt("(:m o%d)" % i) for i in range(3)),
                       lambda s: [call_model([tuple(x) for x in s.o], i, []) for i in range(3)])


def ways():
    obj = "(tree/new :id 1 :m (fn (self a b . c) (list self.id a b c)) :get (fn (self) self.id) :again (fn (self n) (if (= n 0) (:get self) (:again self (- n 1)))) :replace (fn (self) (set! self :replace (fn (self) :new)) (list :old self.id)) :boom (fn (self x) (throw (list :boom x))) :leave (fn (self x) (while #t (when (> x 3) (return (list x self.id))) (set! x (+ x 1)))))"
    for n in list(range(0, 6)) + [15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 128, 129, 250]:
        args = list(range(10, 10 + n))
        want = canon([1] + (args + [None, None])[:2] + [args[2:]])
        a = " ".join(map(str, args))
        for src in ("(:m o %s)" % a, "(apply :m (list o %s))" % a, "(let ((k :m)) (k o %s))" % a, "((:keyword \"m\") o %s)" % a, "((if #t :m :none) o %s)" % a, "(apply :m (cons o (list %s)))" % a,
                    "(-> o (:m %s))" % a, "((fn (f . args) (apply f args)) :m o %s)" % a, "(try (fn (e) e) (:m o %s))" % a, "(do (def r (:m o %s)) r)" % a, "((ref o :m) o %s)" % a):
            yield "(let* (def o %s) %s)" % (obj, src), want
    I = "(let* (def o %s) (def p (tree/new :id 2 :prototype* o)) (def log #nil) (defn note (x) (set! log (cons x log)) x) " % obj
    for src, want in (
        ("(map (list o p) :get)", [1, 2]), ("(filter (list o p) :get)", Raw("L2")), ("(:again o 100)", 1), ("(:again p 100)", 2),
        ("(list (:replace p) (:replace p) (:replace o) (:replace o))", [[Kw("old"), 2], Kw("new"), [Kw("old"), 1], Kw("new")]),
        ("(try (fn (e) (list (car e) (cadr e))) (:boom p 5))", [Kw("boom"), 5]), ("(list (try (fn (e) :caught) (:boom o 1)) (:get o))", [Kw("caught"), 1]),
        ("(list (:leave o 0) (:leave p 9))", [[4, 1], [9, 2]]),
        ("(do (:m (note o) (note 1) (note 2)) (list (car log) (cadr log) (= (caddr log) o)))", [2, 1, True]),
        ("(do (try (fn (e) :x) (:none (note o) (note 1))) (:length log))", 2),
        ("(list %s %s)" % (unknown("(:m)"), unknown("(:m #nil)")), [True, True]),
        ("(list %s %s %s)" % (attempt("(apply :m #nil)"), attempt("(apply :get (list p))"), attempt("(apply :none (list p))")), [ERR, 2, ERR]),
        ("(list (:get p) (do (set! p :id 3) (:get p)) (:get o))", [2, 3, 1]),
        ("(do (set! p.id 7) (list p.id o.id (ref p :id) (:get p) (ref p :nothing) (ref p :get)))", [7, 1, 7, 7, None, None]),
        ("(list (:has? p :get) (:has? p :id) (:has? o :get) (sort (map (:keys p) :string)))", [False, True, True, ["id", "prototype*"]]),
        ("(do (def c (:clone p)) (set! c :id 9) (set! c :get (fn (self) (list :mine self.id))) (list (:get c) (:get p) (:get o) (= (ref c :prototype*) o)))", [[Kw("mine"), 9], 2, 1, True]),
        ("(do (def q o) (dotimes (i 200) (set! q (tree/new :id i :prototype* q))) (list (:get q) (:m q 1 2 3)))", [199, [199, 1, 2, [3]]]),
        ("(do (def q o) (dotimes (i 5000) (set! q (tree/new :prototype* q))) (set! q :id :deep) (:get q))", Kw("deep")),
        ("(do (def s 0) (dotimes (i 2000) (set! s (+ s (:get p)))) s)", 4000),
    ):
        if want == Raw("L2"):
            yield I + "(:length " + src + "))", canon(2)
        else:
            yield I + src + ")", canon(want)
    # classes
    C = "(defclass A (defn new (self x) (tree/new :prototype* self :x x)) (defn get (self) self.x) (defn twice (self) (* 2 (:get self))) (defn name (self) :a)) (defclass B (def prototype* A) (defn get (self) (+ 1 self.x)) (defn name (self) (list :b ((ref A :name) self)))) (defclass C (def prototype* B) (defn twice (self) (list (:get self))))"
    for cls, get, twice, name in (("A", 5, 10, Kw("a")), ("B", 6, 12, [Kw("b"), Kw("a")]), ("C", 6, [6], [Kw("b"), Kw("a")])):
        yield "(let* %s (def i (:new %s 5)) (def j (:new %s 1)) (list (:get i) (:twice i) (:name i) (ref i :x) (ref j :x) (= (ref i :prototype*) %s)))" % (C, cls, cls, cls), canon([get, twice, name, 5, 1, True])


# -------------------------------------------------------------------- scopes
def scopes():
    """chains of up to three scopes binding x and y or not, given to a function"""
    for k in (1, 2, 3):
        for binds in itertools.product(("", "x", "y", "xy"), repeat=k):
            src, want = "(def e (current-closure))", {}
            for d, b in enumerate(binds):
                for v in b:
                    want[v] = 10 * (d + 1) + "xy".index(v)
                src = None
            nest = ""
            for d, b in enumerate(binds):
                nest += "(let* " + "".join("(def %s %d) " % (v, 10 * (d + 1) + "xy".index(v)) for v in b) + "(def unique%d 0) " % d
            env = nest + "(current-closure)" + ")" * k
            X, Y = want.get("x"), want.get("y")
            last = binds[-1]
            yield ("(let* (def f (fn (a) (list a (try (fn (e) :unbound) x) (try (fn (e) :unbound) y)))) (def env %s) (:parent! f env) (list (f 1) (:has? env :x) (:has? env :y) (resolves? 'x env) %s %s (:has? (:data env) :x) (:has? (:data env) :y) (= (:parent f) env)))" % (env, attempt("(ref env :x)"), attempt("(ref env :y)"))), \
                canon([[1, X if X is not None else Kw("unbound"), Y if Y is not None else Kw("unbound")], X is not None, Y is not None, X is not None, ERR if X is None else X, ERR if Y is None else Y, "x" in last, "y" in last, True])
    for kinds in itertools.product(OPEN, repeat=2):
        # whatever the scope is made by, it's an environment
        yield "(let* (def out #nil) (def z 5) %s (def got (car out)) (list (car got) (:has? (cadr got) :z) (ref (cadr got) :z)))" % (
            kinds[0][1] % kinds[1][1] % "(set! out (cons (list (:type-name (current-closure)) (current-closure)) out))"), canon([Kw("environment"), True, 5])
        # a function's scope is that of a call, which can be called again, or an environment
        owner = next((x[0] for x in reversed(kinds) if x[2]), "let*")
        call = owner in CALLS
        yield "(let* (def out #nil) (def z 5) %s (def p (car out)) (list (:type-name p) %s (= p (:parent (cadr out)))))" % (
            kinds[0][1] % kinds[1][1] % "(set! out (list (:parent (fn () 1)) (fn () z)))",
            attempt("(do (p) 1)") if not call else "0"), canon([Kw("lambda") if call else Kw("environment"), 0 if call else ERR, True])
    for src, want in (
        ("(let* (def x 1) (def f (fn () x)) (def g (fn () (set! x (+ x 1)))) (def e (let* (def x 10) (current-closure))) (:parent! f e) (g) (list (f) x (do (:parent! g e) (g) (f)) x))", [10, 2, 11, 2]),
        ("(let* (def mk (fn (x) (fn () x))) (def f (mk 1)) (def g (mk 2)) (def pf (:parent f)) (:parent! f (:parent g)) (list (f) (g) (do (:parent! f pf) (f))))", [2, 2, 1]),
        ("(let* (def f (fn (a) a)) (list (do (:parent! f #nil) (f 5)) (:parent f)))", [5, None]),
        ("(let* (def f (fn (a) a)) (list %s (f 5)))" % attempt("(:parent! f 5)"), [ERR, 5]),
        ("(let* (def f (fn (a b . c) a)) (def g (fn () 1)) (def h (fn r 1)) (list (:arguments f) (:arguments g) (:arguments h)))", [Pair(Sym("a"), Pair(Sym("b"), Sym("c"))), [None], Sym("r")]),
        ("(let* (def f (fn (x) x)) (def g f) (:meta! f :k 1) (:meta! f 'l 2) (:meta! f :k 3) (list (:meta g :k) (:meta g :l) (:meta f 'k) (:meta f :m) %s (f 7)))" % attempt("(:meta! f 5 1)"), [3, 2, 3, None, ERR, 7]),
        ("(let* (defn f (x) \"doc\" :cat :something x) (list (:meta f :documentation) (:meta f :cat) (:meta f :name) (f 3)))", ["doc", Kw("something"), Sym("f"), 3]),
        ("(list (:meta read :name) (:arguments read) (:meta read :nothing) (:meta 5 :name) (:meta #nil :name))", [Sym("read"), [Sym("str")], None, None, None]),
        ("(let* (def e (let* (def a 1) (def b #nil) (current-closure))) (list (:has? e :a) (:has? e :b) (:has? e :zz-none) (:has? e 5) (:has? e \"a\") (ref e :b) (:length (:keys (:data e)))))", [True, True, False, False, False, None, 2]),
    ):
        yield src, canon(want)


# kinds of code that have a scope of their own, or don't
OPEN = [("fn", "((fn () %s))", True), ("fn of p", "((fn (p) %s) 1)", True), ("let", "(let () %s)", True), ("let of p", "(let ((p 1)) %s)", True), ("let*", "(let* %s)", True), ("try", "(try (fn (e) (set! out (cons :thrown out))) %s)", True),
        ("try of p", "(try (fn (e) (set! out (cons :thrown out))) (def p 1) %s)", True), ("handler", "(try (fn (e) %s) (throw 1))", True), ("applied", "(apply (fn p %s) (list 1 2))", True), ("dotimes", "(dotimes (p 1) %s)", False), ("doseq", "(doseq (p (list 1)) %s)", True),
        ("while", "(let ((k 1)) (while (> k 0) (set! k (- k 1)) %s))", True), ("do", "(do %s)", False), ("when", "(when #t %s)", False), ("cond", "(cond (#f 1) (#t %s))", False), ("evaluated", "(eval-in (current-closure) '(do %s))", False), ("evaluated elsewhere", "(eval-in (environment* (def p 1)) '(do %s))", True),
        ("evaluated within", "(eval '(do %s))", True),
        ("evaluated twice", "(eval-in (current-closure) '(eval-in (current-closure) '(do %s)))", False), ("within arguments", "(list 1 (do %s) 2)", False)]
CALLS = ("fn", "fn of p", "handler", "applied", "evaluated within")
ASK = "(set! out (cons (try (fn () :none) z) out))"
DEFINE = ["(def z %d)", "(eval-in (current-closure) '(def z %d))", "(eval-in (current-closure) '(eval-in (current-closure) '(def z %d)))", "(set! (current-closure) 'z %d)", "(eval-in (current-closure) (list 'def 'z %d))", "(def z %d) (def z z)"]


def defining(thorough):
    """what is defined in a scope is seen there, in the scopes within it, also by functions
    made before, and nowhere else"""
    for k in (1, 2, 3) if thorough else (1, 2):
        for kinds in itertools.product(OPEN, repeat=k):
            # the scope a level belongs to: 0 is the one around all
            owner, n = [0], 0
            for x in kinds:
                n += x[2]
                owner.append(n)
            for how in DEFINE if k < 3 else DEFINE[:2]:
                for at in range(0, k + 1):          # where z is defined, before or after the code within
                    for late in (False, True):
                        for maker in (True, False):
                            def level(i):
                                define = how % 7 if i == at else ""
                                inner = kinds[i][1] % level(i + 1) if i < k else ("(set! made (fn () (try (fn () :none) z)))" if maker else "")
                                return "%s %s %s %s %s" % (ASK, define if not late else "", inner, define if late else "", ASK + (" (set! out (cons (made) out))" if maker and i <= k else ""))
                            out = []
                            defined = set()

                            def walk(i):
                                seen = lambda: 7 if any(owner[j] in defined for j in range(0, i + 1)) else Kw("none")
                                out.append(seen())
                                if i == at and not late:
                                    defined.add(owner[i])
                                if i < k:
                                    walk(i + 1)
                                if i == at and late:
                                    defined.add(owner[i])
                                out.append(seen())
                                if maker:
                                    out.append(7 if any(owner[j] in defined for j in range(0, k + 1)) else Kw("none"))
                                # a scope that is left takes its definitions along for all but the function made in it
                            # (walk treats a scope as its number: those left aren't asked again by number)
                            walk(0)
                            yield "(let* (def out #nil) (def made (fn () 0)) %s (nreverse out))" % level(0), canon(out)


if __name__ == "__main__":
    ck = Check("C29", "model_checking")
    ck.cases("methods of every type", table())
    ck.cases("adding methods to types", added(3 if ck.thorough else 2), variant="ahook")
    ck.cases("objects and prototypes", prototypes(ck.thorough))
    ck.cases("ways of calling", ways())
    ck.cases("scopes and functions as objects", scopes())
    ck.cases("defining in scopes of every kind", defining(ck.thorough))
    ck.cases("changing objects", histories(4 if ck.thorough else 3), variant="plain")
    ck.finish()
