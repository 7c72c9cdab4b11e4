"""Formatted text.  Every placeholder of the format grammar with every kind of
value, every arrangement of literal text and placeholders up to a length, and all
small texts as formats: result, number and order of evaluations, and errors."""
from common import *
import itertools

ERR = [Kw("err")]


def fl(x):
    s = ("%f" % x).rstrip("0")
    return s + "0" if s.endswith(".") else s


def disp(v):
    return "" if v is None else "#t" if v is True else "#f" if v is False else str(v) if type(v) in (int, str, Sym) else ":" + v if type(v) is Kw else fl(v) if type(v) is float else "(" + " ".join(disp(x) for x in v) + ")"


def conv(v):
    """the text of a value that is padded (what converting it to a string gives)"""
    return str(v) if type(v) is Kw else disp(v)


def write(v):
    return '"%s"' % v if type(v) is str else "#nil" if v is None else "(" + " ".join(write(x) for x in v) + ")" if type(v) is list else disp(v)


def pad(t, align, w, ch):
    if align == "<":
        return (t + ch * max(0, w - len(t)))[:w]
    if align == "^":
        c = t
        while len(c) < w:
            c = ch + c + ch
        s = len(c) - w - (len(c) - w) // 2
        return c[s:s + w] if len(c) > w else c
    t = ch * max(0, w - len(t)) + t
    return t[len(t) - w:]


BASE = {"b": lambda n: bin(n & (1 << 64) - 1)[2:], "o": lambda n: oct(n & (1 << 64) - 1)[2:], "d": str, "x": lambda n: "%x" % n, "X": lambda n: "%X" % n}
PREFIX = {"b": "#b", "o": "#o", "d": "#d", "x": "#x", "X": "#x"}


def spec(v, align, zero, width, prec, base, dbg):
    """text of a value, None if it is an error"""
    if base and base != "d" and (v is None or v is False):
        v = 0           # as printing integers in a base defines it
    if base and base != "d" and (type(v) is not int or base in "xX" and v < 0):
        return None
    t = BASE[base](v) if base and base != "d" else conv(v)
    if prec is not None:
        if "." in t:
            t = t[:t.rindex(".") + 1 + prec]
    if width is not None:
        t = pad(t, align or ">", width - (2 if base and dbg else 0), "0" if zero else " ")
    elif base is None and not dbg:
        t = disp(v)
    if dbg and base:
        t = PREFIX[base] + t
    elif dbg:
        t = write(v)
    return t


VALS = [(0, "0"), (7, "7"), (-7, "-7"), (255, "255"), (123456789012345678, "123456789012345678"), (I64MAX, "#x7FFFFFFFFFFFFFFF"), (I64MIN, "#x8000000000000000"), (99.1234, "99.1234"), (-0.5, "-0.5"), (2.0, "2.0"),
        ("", '""'), ("abc", '"abc"'), ("abcdefghijklmnop", '"abcdefghijklmnop"'), (None, "#nil"), (True, "#t"), (False, "#f"), (Sym("sym"), "'sym"), (Kw("kw"), ":kw"), ([1, "a", None], '(list 1 "a" #nil)')]


def specs(thorough):
    for v, s in VALS:
        simple = type(v) in (int, float, str)
        for align, zero, width, prec, base, dbg in itertools.product(("", "<", "^", ">"), (0, 1), (None, 2, 3, 5, 10, 25), (None, 0, 2), ("", "b", "o", "d", "x", "X"), (0, 1)):
            if zero and width is None or dbg and width is not None and not base or not simple and width is not None:
                continue
            if prec is not None and base != "d" or type(v) not in (int, float, str) and base == "d":
                continue
            if type(v) is str and base == "d" or not thorough and prec is not None and width in (3, 25):
                continue
            f = align + ("0" if zero else "") + (str(width) if width is not None else "") + ("." + str(prec) if prec is not None else "") + base + ("?" if dbg else "")
            want = spec(v, align, zero, width, prec, base or None, dbg)
            if want is None:
                yield attempt('(fmt "<{:%s}>" %s)' % (f, s)), canon(ERR)
                continue
            yield '(let* (def v %s) (list (fmt "{:%s}" v) (fmt "<{0:%s}>{v:%s}" v)))' % (s, f, f, f), canon([want, "<%s>%s" % (want, want)])


LITS = ["", "a", " ", "bc: ", "\\n", "~", "%d", "\\\"", "#", "ä"]


def arrangements(thorough):
    log = "(def log #nil) (defn t (v) (set! log (cons v log)) v)"
    txt = {"\\n": "\n", "\\\"": '"'}
    for n in range(0, 5 if thorough else 4):
        lits = LITS if n < 2 else LITS[:4]
        for ls in itertools.product(lits, repeat=n + 1):
            body = [txt.get(l, l) for l in ls]
            args = " ".join("(t %d)" % (i + 10) for i in range(n))
            want = lambda idx: "".join(x for p in zip(body, [str(i + 10) for i in idx] + [""]) for x in p)
            order = list(range(n + 9, 9, -1))
            f = "{}".join(ls)
            yield '(let* %s (def r (fmt "%s" %s)) (list r log))' % (log, f, args), canon([want(range(n)), order])
            if n and (n < 3 or ls[0] == ls[-1]):
                for idx in itertools.product(range(n), repeat=n):
                    f = "".join(x for p in zip(ls, ["{%d}" % i for i in idx] + [""]) for x in p)
                    src = '(let* %s (def r (fmt "%s" %s)) (list r log))' % (log, f, args)
                    yield (src, canon([want(idx), order])) if set(idx) == set(range(n)) else (attempt("(eval (read/single %s))" % lit_str(src)), canon(ERR))
    for n in (10, 50, 100, 120):
        yield '(fmt "%s" %s)' % ("{} " * n, " ".join(map(str, range(n)))), canon("".join("%d " % i for i in range(n)))
        yield '(fmt "%s" %s)' % ("".join("{%d}" % i for i in range(n - 1, -1, -1)), " ".join(map(str, range(n)))), canon("".join("%d" % i for i in range(n - 1, -1, -1)))
    yield '(let* (def x 1) (defn f (x) (fmt "{x}-{}-{x:3}" (fmt "[{x}{}]" (+ x 1)))) (list (f 5) (fmt "{x}") (f "a-string-1")))'.replace('(f "a-string-1")', "(f 7)"), canon(["5-[56]-  5", "1", "7-[78]-  7"])
    yield '(let* (def h (file/open-output* "f" :replace)) (def p (:new OutputPort h)) (:write p (fmt "{}-{:?}" "a" "b")) (file/close* h) (file/read "f"))', canon('a-"b"')
    for f in ("pfmt", "pfmtln", "efmt", "efmtln"):
        yield "(= :macro (:type-name %s))" % f, canon(True)


def fmts(n):
    """all texts as formats without arguments: plain, or an error"""
    for k in range(0, n + 1):
        for t in itertools.product("{}:5x?a0 ", repeat=k):
            t = "".join(t)
            if "{" in t or "}" in t:
                want = ERR
                # a placeholder that names a variable
                import re
                rest = re.sub(r"\{ ?a ?(:(0?5|0?5?x)?\??)?\}", "", t)
                if "{" not in rest and "}" not in rest:
                    continue
                if re.search(r"\{[^{}]*[a?][^{}]*\}", t) or ":" in t:
                    want = None     # depends on what is defined
            else:
                want = t
            src = attempt('(let* (def a 7) (eval (read/single %s)))' % lit_str("(fmt %s)" % lit_str(t)))
            yield src, canon(want) if want is not None else NOCRASH


def main():
    ck = Check("C22", "model_checking")
    ck.cases("placeholders and values", specs(ck.thorough))
    ck.cases("arrangements", arrangements(ck.thorough))
    ck.cases("formats", fmts(5 if ck.thorough else 4))
    for bad in ("1", "#nil", "'a", "v", "(cat \"a\")"):
        pass
    ck.cases("errors", [(attempt("(eval '(fmt %s))" % b), canon(ERR)) for b in ("1", "#nil", "'a", ":a", '(cat "a")', '"{}"', '"{0}"', '"a" 1', '"{}" 1 2', '"{1}" 1', '"{-1}" 1', '"{:z}" 1', '"{:<<q}" 1', '"{a b}" 1', '"{(a)}" 1', '"{\\"a\\"}" 1', '"{{}}" 1', '"}{" 1', '"{" 1', '"}" 1', '"{1.5}" 1 2', '"{0} {2}" 1 2', '"{unheard-of}"')])
    ck.assumptions += ["placeholders are {[name|index][:[<^>][0][width][.digits d][b|o|d|x|X][?]]}; width with ? needs a base; named, numbered and plain placeholders aren't mixed"]
    ck.finish()


main()
