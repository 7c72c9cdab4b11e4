"""JSON.  Every value of up to a number of nodes, every byte in strings and keys,
every kind of atom in every position: the text is valid JSON (for Python's strict
parser) that denotes the value, and values JSON can't express are errors."""
from common import *
import itertools, json

ERR = [Kw("err")]
REQ = "(require :serialization/json)"


class T(list):
    pass


class A(list):
    pass


def src(v):
    if type(v) is T:
        return "(tree/new %s)" % " ".join("%s %s" % (k if isinstance(k, str) and k.startswith("(") else ":" + k, src(x)) for k, x in v)
    if type(v) is A:
        return "(array/new %s)" % " ".join(map(src, v))
    if type(v) is list:
        return "(list %s)" % " ".join(map(src, v)) if v else "#nil"
    if type(v) is Kw:
        return ":" + v
    if type(v) is Sym:
        return "'" + v
    if type(v) is str:
        return lit_str(v) if v.isascii() else "(buffer->string #m%s)" % v.encode().hex().upper()
    return lit(v)


def val(v):
    """what the JSON text has to denote"""
    if type(v) is T:
        return {str(k): val(x) for k, x in v}
    if type(v) is A or type(v) is list and v:
        return [val(x) for x in v]
    if type(v) is list:
        return None
    if type(v) in (Kw, Sym):
        return str(v)
    return v


def same(a, b):
    if type(a) is dict:
        return type(b) is dict and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if type(a) is list:
        return type(b) is list and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def denotes(v):
    want = val(v)

    def f(g):
        # the text, then whether the value is unchanged
        if not g.startswith("(s") or not g.endswith(" t)"):
            return False
        try:
            def pairs(ps):
                d = dict(ps)
                if len(d) != len(ps):
                    raise ValueError("key twice")
                return d
            return same(want, json.loads(bytes.fromhex(g[2:-3]).decode("utf8"), object_pairs_hook=pairs))
        except ValueError:
            return False
    return f


def case(v):
    return "(let* %s (def v %s) (def before (string/write v)) (def s (serialization/json/serialize v)) (list s (and (= before (string/write v)) (= s (serialization/json/serialize v)))))" % (REQ, src(v)), denotes(v)


ATOMS = [None, True, False, 0, 1, -1, 10 ** 17, I64MAX, I64MIN, 0.5, -1.5, 2.0, 123456.789, 1e15, "", "a", "true", "null", "\"", "\\", "/", "\n", "ä€😀", "a\tb\r\b\f", Kw("kw"), Sym("sym")]
LEAVES = [None, True, 1, "a\"", Kw("k")]
CONTEXTS = [lambda x: x, lambda x: [x], lambda x: A([x]), lambda x: [x, 1], lambda x: A([1, x]), lambda x: T([("a", x)]), lambda x: T([("a", 1), ("b", x), ("c", None)]), lambda x: A([[x], T([("k", A([x]))])]), lambda x: T([("a", T([("a", [x, x])]))])]


def shapes(n, memo={}):
    if n not in memo:
        out = list(LEAVES) + [A([]), T([])] if n == 1 else []
        for k in range(1, n - 1):
            for a in shapes(k):
                for b in shapes(n - 1 - k):
                    out += [[a, b], A([a, b]), T([("x", a), ("yy", b)])]
        if n > 1:
            for a in shapes(n - 1):
                out += [[a], A([a]), T([("key", a)])]
        memo[n] = out
    return memo[n]


def strings(thorough):
    for b in range(1, 128):
        for s in (chr(b), "a" + chr(b), chr(b) + "0", chr(b) * 2):
            mk = "(buffer->string #m%s)" % s.encode().hex().upper()
            for v, w in (("v", s), ("(list v v)", [s, s])):
                yield "(let* %s (def v %s) (list (serialization/json/serialize %s) #t))" % (REQ, mk, v), denotes(w)
            yield "(let* %s (def t (tree/new)) (set! t (:symbol %s) %s) (list (serialization/json/serialize t) #t))" % (REQ, mk, mk), denotes(T([(s, s)]))
    yield "(let* %s (def b (buffer/allocate 3)) (set! b 1 65) (list (serialization/json/serialize (buffer->string b)) #t))" % REQ, denotes("\0A\0")
    for cp in list(range(0x80, 0x800, 7)) + list(range(0x800, 0xD800, 501)) + [0xFFFD, 0x10000, 0x1F600, 0x10FFFF, 0x2028, 0x2029, 0x7FF, 0xE000]:
        s = "x" + chr(cp)
        yield "(let* %s (list (serialization/json/serialize (buffer->string #m%s)) #t))" % (REQ, s.encode().hex().upper()), denotes(s)
    for n in [0, 1, 15, 16, 17, 127, 128, 129, 1000, 5000]:
        yield "(let* %s (def s \"\") (dotimes (i %d) (set! s (cat s \"\\n\"))) (list (serialization/json/serialize s) #t))" % (REQ, n), denotes("\n" * n)
        yield "(let* %s (def v #nil) (dotimes (i %d) (set! v (cons i v))) (list (serialization/json/serialize v) #t))" % (REQ, n), denotes(list(range(n - 1, -1, -1)))
        yield "(let* %s (def v (:alloc Array %d)) (dotimes (i %d) (set! v i i)) (list (serialization/json/serialize v) #t))" % (REQ, n, n), denotes(A(range(n)))
        yield "(let* %s (def v (tree/new)) (dotimes (i %d) (set! v (:symbol (cat \"k\" i)) i)) (list (serialization/json/serialize v) #t))" % (REQ, n), denotes(T([("k%d" % i, i) for i in range(n)]))
    for n in list(range(1, 30)) + [100, 200]:
        for mk, w in (("(list v)", lambda x: [x]), ("(array/new v)", lambda x: A([x])), ("(tree/new :a v)", lambda x: T([("a", x)]))):
            v = 7
            for _ in range(n):
                v = w(v)
            yield "(let* %s (def v 7) (dotimes (i %d) (set! v %s)) (list (serialization/json/serialize v) #t))" % (REQ, n, mk), denotes(v)


def errors():
    for bad in ("car", "+", "when", "(current-closure)", "Int", "(buffer/allocate 2)", "(:u8 (buffer/allocate 2))", "stdout*", "(:code (fn (x) x))"):
        for c in ("%s", "(list 1 %s)", "(array/new %s)", "(tree/new :a %s)", "(list (array/new (tree/new :k %s)))"):
            yield "(let* %s %s)" % (REQ, attempt("(serialization/json/serialize %s)" % (c % bad))), canon(ERR)


def main():
    ck = Check("C24", "model_checking")
    ck.cases("atoms", [case(c(a)) for a in ATOMS for c in CONTEXTS])
    n = 5 if ck.thorough else 4
    ck.cases("values of up to %d nodes" % n, (case(v) for k in range(1, n + 1) for v in shapes(k)))
    ck.cases("strings and sizes", strings(ck.thorough), stall=60)
    ck.cases("errors", errors())
    ck.assumptions += ["an empty list is #nil and therefore null; strings are UTF-8"]
    ck.finish()


main()
