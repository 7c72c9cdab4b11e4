"""Modules.  Every name of up to a number of components relative to every working
directory, every sequence of defining, importing, requiring, using and changing
modules up to a length, and every way of naming and loading modules in files."""
from common import *
import itertools, os

ERR = [Kw("err")]


def names(n):
    for wd in ("", "/", "/x", "/x/y", "/x/y/z", "/x//y", "/./x/../y"):
        for k in range(1, n + 1):
            for t in itertools.product(["a", "b", ".", "..", ""], repeat=k):
                name = "/".join(t)
                st, bad = [], False
                for c in wd.split("/") + list(t):
                    if c in ("", "."):
                        continue
                    if c == "..":
                        if not st:
                            bad = True
                            break
                        st.pop()
                    else:
                        st.append(c)
                if bad and "/".join(t).count("..") and any(c == "..." for c in t):
                    continue
                src = "(module/resolve-string %s %s)" % (lit_str(name), lit_str(wd))
                if bad:
                    yield attempt(src), canon(ERR)
                elif st:
                    yield src, canon(Kw("/" + "/".join(st)))
                else:
                    yield src, NOCRASH


OPS = [
    ("(do (import (get) :%M) (get))", lambda s: s.use(lambda m: m["x"])),
    ("(do (import (get :as other) :%M) (other))", lambda s: s.use(lambda m: m["x"])),
    ("(do (import (up! :as u get :as g) :%M) (u) (g))", lambda s: s.use(lambda m: m.update(x=m["x"] + 1) or m["x"])),
    ("(do (import x :%M) x)", lambda s: s.use(lambda m: m["start"])),
    ("(do (require :%M) (%M/up!) (list %M/x (%M/get)))", lambda s: s.use(lambda m: m.update(x=m["x"] + 1) or [m["start"], m["x"]])),
    ("(do (use :%M) (list x (get) (renamed 5)))", lambda s: s.use(lambda m: [m["start"], m["x"], [5, m["x"]]])),
    ("(do (defmodule :%M (def x 10) (defn get () :export x) (defn up! () :export (set! x (+ x 1))) (defn hidden () x) (export x x) (defn internal-name (a) :export-as renamed (list a x))) :defined)", lambda s: s.define(10)),
    ("(do (defmodule/defer :%M (set! module/store :evals-of-%M (+ (or (ref module/store :evals-of-%M) 0) 1)) (def x 20) (defn get () :export x) (defn up! () :export (set! x (+ x 1))) (export x x) (defn internal-name (a) :export-as renamed (list a x))) :deferred)", lambda s: s.defer(20)),
    ("(do (import hidden :%M) :no)", lambda s: s.use(raising)),
    ("(do (import internal-name :%M) :no)", lambda s: s.use(raising)),
    ("(do (def x 5) (def get 6) (require :%M) (list x get (= (ref (ref (module/load :%M) :exports) :get) %M/get)))", lambda s: s.use(lambda m: [5, 6, True])),
    ("(do (set! (ref (module/load :%M) :exports) :added 7) (import added :%M) added)", lambda s: s.use(lambda m: 7)),
]


class M:
    """one named module: what is loaded, and what would be on demand"""
    def __init__(self):
        self.mod, self.late, self.evals = None, None, 0

    def define(self, x):
        self.mod = {"x": x, "start": x}
        return Kw("defined")

    def defer(self, x):
        self.late = x
        return Kw("deferred")

    def use(self, f):
        if self.mod is None:
            if self.late is None:
                raise Err()
            self.evals += 1
            self.mod = {"x": self.late, "start": self.late}
        return f(self.mod)


def histories(depth):
    n = 0
    for d in range(1, depth + 1):
        for seq in itertools.product(range(len(OPS)), repeat=d):
            # without a definition everything is an error
            if d > 1 and not set(seq[:2]) & {6, 7} or d > 3 and (not set(seq[:1]) & {6, 7} or not set(seq[1:3]) & {2, 4, 6, 7}):
                continue
            n += 1
            st = M()
            res = [outcome(OPS[k][1], st) for k in seq]
            src = "".join(" (def r%d (let* %s))" % (i, attempt(OPS[k][0].replace("%M", "mod%d" % n))) for i, k in enumerate(seq))
            yield "%s (list %s (or (ref module/store :evals-of-mod%d) 0))" % (src, " ".join("r%d" % i for i in range(d)), n), canon(res + [st.evals])


def isolation():
    yield "(def outer 1) (defmodule :iso1 (def outer 2) (def inner 3) (defn see () :export (list outer inner)) (defn change! () :export (set! outer 9))) (let* (import (see change!) :iso1) (change!) (list outer (see) (resolves? 'inner) %s))" % attempt("inner"), canon([1, [9, 3], False, ERR])
    yield "(def shared 1) (defmodule :iso2 (defn see () :export shared) (defn change! () :export (set! shared (+ shared 10)))) (let* (import (see change!) :iso2) (change!) (set! shared (+ shared 1)) (list shared (see)))", canon([12, 12])
    yield "(defmodule :iso3 (def x 1) (export a x) (set! x 2) (export b x) (set! x 3) (defn now () :export x)) (let* (require :iso3) (list iso3/a iso3/b (iso3/now)))", canon([1, 2, 3])
    yield "(defmodule :iso4a (def n 0) (defn up! () :export (set! n (+ n 1)))) (defmodule :iso4b (import up! :iso4a) (defn twice () :export (up!) (up!))) (defmodule :iso4c (require :iso4a) (import twice :iso4b) (defn all () :export (iso4a/up!) (twice) (iso4a/up!))) (let* (import all :iso4c) (import up! :iso4a) (list (all) (up!)))", canon([4, 5])
    yield "(let* (def m (module (def x 7) (defn f () :export x) (defn g (y) :export-as set-x! (set! x y)))) (def k (module (def x 8) (defn f () :export x))) (import (f set-x!) m) (import (f :as f2) k) (set-x! 9) (list (f) (f2)))", canon([9, 8])
    for k in range(0, 6):
        # names of all depths and sharing prefixes
        name = "/".join("part%d" % i for i in range(k + 1))
        yield "(defmodule :%s (export v %d)) (let* (require :%s) (import (v) :%s) (list %s/v v))" % (name, k, name, name, name), canon([k, k])
    for bad in ("5", "1.5", "#t", "(list 1)", ":unheard-of", "'sym", "(array/new)", "#nil", "(tree/new)"):
        yield "(list %s %s %s %s)" % (attempt("(require %s)" % bad), attempt("(use %s)" % bad), attempt("(let* (import x %s))" % bad), attempt("(module/main %s #nil)" % bad)), canon([ERR] * 4)
    yield "(list %s (let* (require :failing2) (import a :failing2) a))" % attempt("(do (defmodule/defer :failing (export a 1) (throw (list :boom))) (defmodule/defer :failing2 (export a 1)) (require :failing))"), canon([ERR, 1])
    yield "(do (set! module/store :tries 0) (defmodule/defer :failing3 (set! module/store :tries (+ (ref module/store :tries) 1)) (def tries (ref module/store :tries)) (when (< tries 3) (throw (list :boom tries))) (export tries tries)) (list %s %s (let* (import tries :failing3) tries) (let* (require :failing3) failing3/tries)))" % (attempt("(require :failing3)"), attempt("(require :failing3)")), canon([ERR, ERR, 3, 3])
    yield "(list (do (defmodule :mn1 (defn main (args) :export (list :ran args))) (module/main :mn1 (list \"a\" \"b\"))) (do (defmodule :mn2 (export main 5)) %s) (do (defmodule :mn3 (def main (fn (a) a))) %s))" % (attempt("(module/main :mn2 #nil)"), attempt("(module/main :mn3 #nil)")), canon([[Kw("ran"), ["a", "b"]], ERR, ERR])


FILES = {
    "a.nuj": "(set! module/store :file-log (cons :a (ref module/store :file-log))) (def n 0) (defn up! () :export (set! n (+ n 1))) (defn path () :export (list *module* *module-path*)) (export v :va)",
    "sub/b.nuj": "(set! module/store :file-log (cons :b (ref module/store :file-log))) (import (up! v :as av) \"../a\") (defn up2! () :export (up!) (up!)) (export v (list :vb av))",
    "sub/deep/c.nuj": "(set! module/store :file-log (cons :c (ref module/store :file-log))) (import (up! v :as av) \"../../a\") (import (up2! v :as bv) \"../b\") (import (v :as dv) \"./../../sub/deep/d\") (defn all () :export (up2!) (up!)) (export v (list :vc av bv dv))",
    "sub/deep/d.nuj": "(set! module/store :file-log (cons :d (ref module/store :file-log))) (export v :vd)",
    "broken.nuj": "(export v 1", "throws.nuj": "(set! module/store :file-log (cons :throws (ref module/store :file-log))) (export v 1) (throw (list :boom))", "empty.nuj": "", "noexport.nuj": "(def v 1)",
    "comment.nuj": "; nothing but a comment", "main.nuj": "(defn main (args) :export (list :main args *module-path*))", "sp ace.nuj": "(export v :space)", "x.y.nuj": "(export v :xy)",
}


def setup(wd):
    for f, t in FILES.items():
        os.makedirs(os.path.dirname(os.path.join(wd, f)), exist_ok=True)
        open(os.path.join(wd, f), "w").write(t)


FA, FB, FC = ["a", "./a", "sub/../a", "././/a", "sub/deep/../../a"], ["sub/b", "./sub/./b", "sub/deep/../b"], ["sub/deep/c", "sub//deep/c"]


def files():
    pre = "(set! module/store :file-log #nil) (set! module/cache (tree/new)) "
    for n1 in FA:
        for n2 in FA:
            yield pre + "(let* (import (up! v) \"%s\") (import (up! :as up2) \"%s\") (list v (up!) (up2) (ref module/store :file-log)))" % (n1, n2), canon([Kw("va"), 1, 2, [Kw("a")]])
        for n2 in FB:
            yield pre + "(let* (import (up! v) \"%s\") (import (up2! v :as bv) \"%s\") (list v bv (up!) (up2!) (up!) (reverse (ref module/store :file-log))))" % (n1, n2), canon([Kw("va"), [Kw("vb"), Kw("va")], 1, 3, 4, [Kw("a"), Kw("b")]])
            for n3 in FC:
                yield pre + "(let* (import all \"%s\") (import (up! :as u) \"%s\") (import up2! \"%s\") (import v \"%s\") (list (all) (u) (up2!) v (reverse (ref module/store :file-log))))" % (n3, n1, n2, n3), canon([3, 4, 6, [Kw("vc"), Kw("va"), [Kw("vb"), Kw("va")], Kw("vd")], [Kw("c"), Kw("a"), Kw("b"), Kw("d")]])
    yield pre + "(let* (import path \"a\") (= (cadr (path)) (cwd)))", canon(True)
    yield pre + "(let* (import path \"a\") (= (car (path)) (:keyword (cat (cwd) \"/a\"))))", canon(True)
    for f in ("broken", "throws", "missing", "sub", "sub/missing", "a.nuj", "missing/../nothere", ""):
        yield pre + "(list %s %s)" % (attempt("(let* (import v \"%s\") v)" % f), attempt("(module/main \"%s\" #nil)" % f)), canon([ERR, ERR])
    yield pre + "(list %s %s (ref module/store :file-log) (let* (import v \"a\") v))" % (attempt("(let* (import v \"throws\") v)"), attempt("(let* (import v \"throws\") v)")), canon([ERR, ERR, [Kw("throws")] * 2, Kw("va")])
    for f in ("empty", "noexport", "comment"):
        yield pre + "(list %s (:type-name (ref (module/load \"%s\" (current-closure)) :exports)))" % (attempt("(let* (import v \"%s\") v)" % f, ), f), canon([ERR, Kw("tree")])
    yield pre + "(let* (import v \"sp ace\") (import (v :as w) \"x.y\") (list v w))", canon([Kw("space"), Kw("xy")])
    yield pre + "(let* (def r (module/main \"main\" (list 1 2))) (list (car r) (cadr r) (= (caddr r) (cwd))))", canon([Kw("main"), [1, 2], True])
    yield pre + "(let* (import v \"sub/deep/c\") (list (reverse (ref module/store :file-log)) (let* (import (v :as w) \"sub/deep/c\") (= v w)) (reverse (ref module/store :file-log))))", canon([[Kw("c"), Kw("a"), Kw("b"), Kw("d")], True, [Kw("c"), Kw("a"), Kw("b"), Kw("d")]])
    # the absolute name
    yield pre + "(do (def abs (:keyword (cat (cwd) \"/a\"))) (let* (import (up!) \"a\") (up!) (def m (module/load abs (current-closure))) (list ((ref (ref m :exports) :up!)) (:length (ref module/store :file-log)))))", canon([2, 1])


def main():
    ck = Check("C25", "model_checking")
    ck.cases("names", names(5 if ck.thorough else 4))
    ck.cases("histories of a module", histories(4 if ck.thorough else 3))
    ck.cases("modules and their surroundings", isolation())
    ck.cases("modules in files", files(), runner=Runner(ck.tree.binary("asan"), cwd_setup=setup))
    ck.assumptions += ["modules that require each other recurse until memory runs out and are excluded", "names of macros of the library aren't redefined by modules"]
    ck.finish()


main()
