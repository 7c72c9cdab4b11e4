"""Writing values.  Every value of up to a number of nodes, every atom in every
context, every byte (and pair of bytes) in strings, every size around the buffers
of ports and every readable text over an alphabet: the text that is written, what
it reads back as, and what displaying it prints."""
from common import *
import itertools, refreader


class Q:
    """(quote x)"""
    def __init__(self, x):
        self.x = x


class T(list):
    """a tree: (key, value) pairs"""


class A(list):
    pass


def fl(x):
    s = "%f" % x
    s = s.rstrip("0")
    return s + "0" if s.endswith(".") else s


ESC = {0: "\\0", 7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 27: "\\e", 34: '\\"', 92: "\\\\"}


def prod(parts, sep):
    return [sep.join(p) for p in itertools.product(*parts)]


def texts(v, disp):
    """all texts that may be written for v (the order of the keys of trees is open)"""
    if v is None or type(v) is list and not v:
        return [b"" if disp else b"#nil"]
    if v is True or v is False:
        return [b"#t" if v else b"#f"]
    if type(v) is int:
        return [b"%d" % v]
    if type(v) is float:
        return [fl(v).encode()]
    if type(v) is bytes:
        if disp:
            return [v]
        return [b'"' + b"".join(ESC[c].encode() if c in ESC else bytes([c]) for c in v) + b'"']
    if type(v) is Kw:
        return [b":" + v.encode()]
    if type(v) is Sym:
        return [v.encode()]
    if type(v) is Buf:
        return [b"#m" + bytes(v).hex().upper().encode()]
    if type(v) is Q:
        return [b"'" + t for t in texts(v.x, disp)]
    if type(v) is A:
        return [b"##(" + t + b")" for t in prod([texts(x, disp) for x in v], b" ")]
    if type(v) is T:
        out = []
        for perm in itertools.permutations(v):
            out += [b"#@(" + t + b")" for t in prod([[k.encode() + b": " + x for x in texts(y, disp)] for k, y in perm], b" ")]
        return out
    if type(v) in (list, Pair):
        items, tail = [], None
        while type(v) is Pair:
            items.append(v.car)
            v = v.cdr
        if type(v) is list:
            items += v
        elif type(v) is Q and not isinstance(v, (T, A)):
            items += [Sym("quote"), v.x]        # a quoted value is a list too
        else:
            tail = v
        if len(items) == 2 and type(items[0]) is Sym and items[0] == "quote" and tail is None:
            return [b"'" + t for t in texts(items[1], disp)]
        parts = [texts(x, disp) for x in items]
        if tail is not None:
            parts += [[b"."], texts(tail, disp)]
        return [b"(" + t + b")" for t in prod(parts, b" ")]
    raise TypeError(v)


def src(v):
    if v is None or type(v) is list and not v:
        return "#nil"
    if v is True or v is False or type(v) in (int, float):
        return lit(v)
    if type(v) is bytes:
        return bstr(v)
    if type(v) is Kw:
        return '(:keyword "%s")' % v
    if type(v) is Sym:
        return '(:symbol "%s")' % v
    if type(v) is Buf:
        b = bytes(v)
        return "(let* (def b (buffer/allocate %d)) %s b)" % (len(b), " ".join("(set! b %d %d)" % (i, c) for i, c in enumerate(b)))
    if type(v) is Q:
        return "(list 'quote %s)" % src(v.x)
    if type(v) is A:
        return "(array/new %s)" % " ".join(map(src, v))
    if type(v) is T:
        return "(tree/new %s)" % " ".join(":%s %s" % (k, src(x)) for k, x in v)
    if type(v) is list:
        return "(list %s)" % " ".join(map(src, v))
    return "(cons %s %s)" % (src(v.car), src(v.cdr))


def bstr(b):
    """bytes that aren't plain text are put into a buffer"""
    if all(32 <= c < 127 and c not in b'"\\' for c in b):
        return '"%s"' % b.decode()
    return "(buffer->string (let* (def b (buffer/allocate %d)) %s b) %d)" % (max(1, len(b)), " ".join("(set! b %d %d)" % (i, c) for i, c in enumerate(b)), len(b))


def cv(v):
    """canonical text"""
    if type(v) is Q:
        return "(yquote %s)" % cv(v.x)
    if type(v) is A:
        return "#[" + " ".join(map(cv, v)) + "]"
    if type(v) is T:
        return "{" + " ".join(sorted(k + "=" + cv(x) for k, x in v)) + "}"
    if type(v) is list and v:
        return "(" + " ".join(map(cv, v)) + ")"
    if type(v) is Pair:
        d = cv(v.cdr)
        if d == "nil":
            return "(%s)" % cv(v.car)
        return "(%s %s)" % (cv(v.car), d[1:-1] if d.startswith("(") else ". " + d)
    return canon(v)


def hx(b):
    return "s" + b.hex()


def case(v, readable=True, disp=True):
    s = "(let* (def v %s) (def s (string/write v)) (list s %s %s))" % (
        src(v), "(string/display v)" if disp else "#nil", "(read s)" if readable else "#nil")
    w = texts(v, False)
    d = [hx(t) for t in texts(v, True)] if disp else ["nil"]
    back = "(" + cv(v) + ")" if readable else "nil"
    exp = {"(%s %s %s)" % (hx(a), b, back) for a in w for b in d}
    return s, exp


STR = [b"", b"a", b"a b", b"(", b'"', b"\\", b"\n", b"\0", b"\xff\x00a", "äß€".encode(), b"#nil", b"; x", b"\\n"]
ATOMS = ([None, True, False] + [n for n in INTS if abs(n) < 10 ** 18] + [x for x in FLOATS if abs(x) < 10 ** 15 and round(x, 6) == x and abs(x) != 0 or x == 0.0] + STR
         + [Kw("k"), Kw("a-long/keyword?"), Sym("x"), Sym("set!"), Sym("-"), Sym("a" * 93), Kw("a" * 92), Buf(b""), Buf(b"\0"), Buf(b"\x01\xab"), Buf(bytes(range(64)))])
UNREAD = [10 ** 18, I64MAX, I64MIN, 0.1234567, 1e-7, -1e-7, 1e100, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, Sym("a b"), Sym("("), Sym("1"), Kw("a b"), Sym(""), Kw("k:"), Sym("..."), Sym("a:"), Sym(":a")]
CONTEXTS = [
    lambda x: [x], lambda x: [1, x], lambda x: [x, 1], lambda x: [x, x, x], lambda x: Pair(x, 1), lambda x: Pair(1, x), lambda x: Pair(1, Pair(x, 2)), lambda x: [[x]], lambda x: Q(x), lambda x: Q([x]), lambda x: Q(Q(x)),
    lambda x: A([x]), lambda x: A([x, 1]), lambda x: A([1, x]), lambda x: A([A([x]), x]), lambda x: T([("a", x)]), lambda x: T([("a", x), ("b", 1)]), lambda x: T([("a", T([("b", x)]))]),
    lambda x: [Sym("quote"), x, x], lambda x: [Sym("unquote"), x], lambda x: [Sym("x"), T([("k", [x])]), A([Q(x)])], lambda x: Pair(x, Q(1)), lambda x: Pair(Sym("quote"), x), lambda x: Pair(x, Pair(Sym("quote"), Pair(x, None)))]


def fix(v):
    """(cons 'quote x) where x is no list of one element"""
    return v


def atoms():
    for a in ATOMS:
        d = type(a) is not Buf
        yield case(a, disp=d)
        for c in CONTEXTS:
            yield case(c(a), disp=d)
    for a in UNREAD:
        yield case(a, readable=False)
        for c in CONTEXTS[:16]:
            yield case(c(a), readable=False)


LEAVES = [None, 1, b"a\"", Sym("quote"), Kw("k")]


def shapes(n, memo={}):
    """all values of exactly n nodes"""
    if n in memo:
        return memo[n]
    out = []
    if n == 1:
        out += LEAVES + [A([]), T([])]
    else:
        for k in range(1, n - 1):
            out += [Pair(a, b) for a in shapes(k) for b in shapes(n - 1 - k)]
            out += [A([a, b]) for a in shapes(k) for b in shapes(n - 1 - k)]
            out += [T([("a", a), ("bb", b)]) for a in shapes(k) for b in shapes(n - 1 - k)]
        out += [A([a]) for a in shapes(n - 1)]
        out += [T([("key", a)]) for a in shapes(n - 1)]
        out += [Q(a) for a in shapes(n - 1)]
    memo[n] = out
    return out


def strings(thorough):
    for b in range(256):
        yield case(bytes([b]))
        yield case([bytes([b]), bytes([97, b])])
        for c in (b"0n\"\\\n\0a" if not thorough else bytes(range(256))):
            yield case(bytes([b, c]))
    sizes = sorted(set(list(range(0, 40)) + [k * 128 + d for k in (1, 2, 3, 8) for d in range(-20, 3)]))
    for n in sizes:
        for unit in (b"a", b"\n", b"\xff", b'"a'):
            s = (unit * n)[:n]
            if set(s) == {97} or n < 60:
                yield case(s)
            mk = "(let* (def u %s) (def s \"\") (while (< (:length s) %d) (set! s (cat s u u u))) (:cut s 0 %d))" % (bstr(unit), n, n)
            w, d = texts(s, False)[0], s
            yield "(let* (def v %s) (def s (string/write v)) (list s (string/display v) (read s) (string/display (list v 1))))" % mk, "(%s %s (%s) %s)" % (hx(w), hx(d), hx(s), hx(b"(" + s + b" 1)"))


def sizes():
    ns = sorted(set(list(range(0, 40)) + [100, 127, 128, 129, 255, 256, 257, 1000, 5000]))
    for n in ns:
        body = b" ".join(b"%d" % i for i in range(n))
        for mk, pre, post, rd in [("(let* (def v #nil) (dotimes (i %d) (set! v (cons (- %d i) v))) v)" % (n, n - 1), b"(", b")", "(:length (car r))"), ("(let* (def v (:alloc Array %d)) (dotimes (i %d) (set! v i i)) v)" % (n, n), b"##(", b")", "(:length (car r))")]:
            w = pre + body + post if n or pre == b"##(" else b"#nil"
            yield "(let* (def v %s) (def s (string/write v)) (def r (read s)) (list s %s (= s (string/write (car r)))))" % (mk, rd), canon([w, n, True])
        yield "(let* (def v (tree/new)) (dotimes (i %d) (set! v (:symbol (cat \"key\" i)) i)) (def s (string/write v)) (def r (car (read s))) (def ok #t) (dotimes (i %d) (when-not (= i (ref r (:symbol (cat \"key\" i)))) (set! ok #f))) (list (:length s) ok (:length r) (= s (string/write r))))" % (n, n), canon([5 + len(" ".join("key%d: %d" % (i, i) for i in range(n))) - 1 if n else 4, True, n, True])
        yield "(let* (def v (buffer/allocate %d)) (dotimes (i %d) (set! v i (bit-and i 255))) (def s (string/write v)) (list s (car (read s))))" % (n, n), canon(["#m" + bytes(i & 255 for i in range(n)).hex().upper(), Buf(bytes(i & 255 for i in range(n)))])
    for n in list(range(1, 60)) + [100, 200, 255, 256, 300]:
        for mk, a, z in [("(list v)", "(", ")"), ("(array/new v)", "##(", ")"), ("(tree/new :a v)", "#@(a: ", ")"), ("(list 'quote v)", "'", ""), ("(cons 1 v)", None, None), ("(cons v 1)", "(", " . 1)")]:
            t = a * n + "7" + z * n if a else "(" + "1 " * n + ". 7)"
            yield "(let* (def v 7) (dotimes (i %d) (set! v %s)) (def s (string/write v)) (list s (= s (string/write (car (read s))))))" % (n, mk), canon([t, True])
    for n in (1000, 2000, 4000, 5000, 10000):
        for mk in ("(list v)", "(array/new v)", "(tree/new :a v)", "(list 'quote v)"):
            yield "(let* (def v 7) (dotimes (i %d) (set! v %s)) (def s (try (fn (e) :err) (string/write v))) (if (= s :err) #t (try (fn (e) #t) (= s (string/write (car (read s)))))))" % (n, mk), canon(True)


def printing():
    """everything that prints uses the same text"""
    for a in ATOMS:
        for v in (a, [a], A([a, 1])):
            d = None if type(a) is Buf else texts(v, True)[0]
            w = texts(v, False)[0]
            s = ("(let* (def v %s) (def h (file/open-output* \"f\" :replace)) (def p (:new OutputPort h)) (write v p) (:block-write p \"|\") (display v p) (:block-write p \"|\") (print v p) (file/close* h)"
                 " (list (file/read \"f\") (let* (def p (:new StringOutputPort)) (write v p) (:return-string p)) (let* (def p (:new StringOutputPort)) (print v p) (:return-string p)) (cat v \"-\" v)))" % src(v))
            if d is None:
                continue
            yield s, canon([w + b"|" + d + b"|" + d, w, d, d + b"-" + d])
    for v, w in [("car", "car"), ("+", "+"), ("read", "read"), ("(fn (x) x)", "anonymous"), ("(let* (defn foo () 1) foo)", "foo"), ("Int", "Int"), ("(list Any car)", "(Any car)")]:
        yield "(list (string/write %s) (string/display %s))" % (v, v), canon([w, w])


ALPHA = b"()'\"\\#;:.-1xa~@` "
TOK = ["(", ")", "[", "]", "{", "}", "##(", "#@(", "'", "`", "~", "~@", ".", "1", "-1.5", "#xFF", "#\\a", "#m0AFF", "#nil", "#t", "foo", "foo:", ":foo", "a.b", "\"s\"", "\"\\n\\\"\"", "-", "quote"]


def readable(thorough):
    seen = set()

    def one(t):
        if t in seen:
            return
        seen.add(t)
        r = refreader.read(t.encode("latin1"))
        s = '(let* (def v (read %s)) (def s (string/write v)) (def r (read s)) (list v r (= s (string/write (car r)))))' % lit_str(t.encode("latin1"))
        if r.startswith("!"):
            return
        yield s if t.isascii() else s.encode("latin1"), "(%s (%s) t)" % (r, r)
    for n in range(1, 5 if thorough else 4):
        for p in itertools.product(ALPHA, repeat=n):
            yield from one(bytes(p).decode())
    for n in range(1, 4 if thorough else 3):
        for p in itertools.product(TOK, repeat=n):
            yield from one(" ".join(p))
    for b in range(1, 256):
        if b in (10, 13):
            continue
        for f in ("%s", "a%s", "a%sb", ":%s", "(%s)", "\"%s\"", "\"\\%s\"", "#\\%s", "'%s"):
            yield from one(f.replace("%s", chr(b)))


def main():
    ck = Check("C20", "model_checking")
    ck.cases("atoms in contexts", atoms())
    n = 6 if ck.thorough else 5
    ck.cases("values of up to %d nodes" % n, (case(v) for k in range(1, n + 1) for v in (shapes(k) if k < 6 else shapes(k)[::3])))
    ck.cases("strings", strings(ck.thorough))
    ck.cases("sizes and nesting", sizes(), stall=60)
    ck.cases("printing", printing())
    ck.cases("readable texts", readable(ck.thorough))
    ck.assumptions += ["numbers that are read back have up to 18 digits and 6 decimals, names are ones that can be read", "the order of the keys of trees is left open", "trusts lib/refreader.py (bound to the reader by C19)"]
    ck.finish()


main()
