"""Directories and commands.  (1) Every sequence of operations on a small file
system against a model of it, everything compared after each; (2) what commands
print and return, in every size and with every status."""
from common import *
import itertools, os, tempfile

# paths: a file or directory at the top and one below
ERR = [Kw("err")]
A, B, AB, H = "a", "b", "a/b", ".h"


class FS:
    def __init__(self):
        self.n = {}     # path -> None (directory) or bytes
        self.cwd = ""

    def at(self, p):
        """-> absolute path in the model or None if a component isn't a directory"""
        if p in (".", ""):
            return self.cwd if p == "." else None
        cur = self.cwd
        parts = p.split("/")
        for i, c in enumerate(parts):
            if c == "..":
                cur = cur.rpartition("/")[0]
                continue
            cur = (cur + "/" + c) if cur else c
            if i < len(parts) - 1 and self.n.get(cur, b"") is not None:
                return None
        return cur

    def isdir(self, q):
        return q == "" or (q in self.n and self.n[q] is None)

    def parent_ok(self, q):
        return self.isdir(q.rpartition("/")[0])


def mkdir(p):
    def f(s):
        q = s.at(p)
        if q is None or q in s.n or not s.parent_ok(q):
            return False
        s.n[q] = None
        return True
    return f


def rmdir(p):
    def f(s):
        q = s.at(p)
        if q is None or q not in s.n or s.n[q] is not None or any(k.startswith(q + "/") for k in s.n) or s.cwd == q or s.cwd.startswith(q + "/"):
            return False
        del s.n[q]
        return True
    return f


def rm(p):
    def f(s):
        q = s.at(p)
        if q is not None and s.n.get(q) is not None:
            del s.n[q]
        return p
    return f


def spit(p, data):
    def f(s):
        q = s.at(p)
        if q is None or s.isdir(q) or not s.parent_ok(q):
            return False
        s.n[q] = data
        return True
    return f


def cd(p):
    def f(s):
        q = s.at(p)
        if q is None or not s.isdir(q):
            return False
        s.cwd = q
        return True
    return f


def look(s):
    out = []
    for hidden in (False, True):
        out.append(sorted(k.rpartition("/")[2] for k in s.n if k.rpartition("/")[0] == s.cwd and (hidden or not k.rpartition("/")[2].startswith("."))))
    for p in (A, B, AB, "..", "a/"):
        q = s.at(p.rstrip("/")) if p != ".." else "x"
        if p == "..":
            out.append([False, True])
            continue
        if q is None or q not in s.n or (p == "a/" and s.n[q] is not None):
            out.append([None, None])
        else:
            d = s.n[q] is None
            out.append([not d, d] + ([] if d else [len(s.n[q])]))
    out.append(("/" + s.cwd) if s.cwd else "")
    return out


LOOK = '(defn st (p) (def t (file/stat p)) (def r (list (file/file? p) (file/dir? p))) (if (and (ref t :regular-file?) (ref t :size)) (list (car r) (cadr r) (ref t :size)) r))' \
       '(defn look () (list (sort (ls ".")) (sort (ls "." #t)) (st "a") (st "b") (st "a/b") (st "..") (st "a/") (:cut (cwd) (:length top))))'


# a command that prints what looking does, to be independent of the functions under test
OPS = [('(mkdir "a")', mkdir("a")), ('(mkdir "b")', mkdir("b")), ('(mkdir "a/b")', mkdir("a/b")), ('(mkdir ".h")', mkdir(".h")), ('(rmdir "a")', rmdir("a")), ('(rmdir "a/b")', rmdir("a/b")), ('(rm "a")', rm("a")), ('(rm "b")', rm("b")), ('(rm "a/b")', rm("a/b")),
       ('(spit "a" "12")', spit("a", b"12")), ('(spit "b" "")', spit("b", b"")), ('(spit "a/b" "345")', spit("a/b", b"345")), ('(cd "a")', cd("a")), ('(cd "b")', cd("b"))]
UP = ('(if (= (cwd) top) #f (cd ".."))', lambda s: cd("..")(s) if s.cwd else False)


def sequences(depth):
    n = 0
    for d in range(0, depth + 1):
        for seq in itertools.product(OPS + [UP], repeat=d):
            st = FS()
            res = [o[1](st) for o in seq]
            n += 1
            # everything of a case is in a directory of its own below the scratch directory
            yield "(let* (def home (cwd)) (mkdir \"w%d\") (cd \"w%d\") (def top (cwd)) %s %s (def l %s) (cd home) (list %s l (= home (cwd))))" % (
                n, n, LOOK, " ".join("(def r%d %s)" % (i, attempt(o[0])) for i, o in enumerate(seq)), attempt("(look)"), " ".join("r%d" % i for i in range(d))), canon(res + [look(st), True])


def listings():
    # any number of entries with any names
    for n in list(range(0, 12)) + [50, 100, 300]:
        every = sorted("%sf%d" % ("." if i % 3 == 0 else "", i) for i in range(n))
        vis = [x for x in every if x[0] != "."]
        yield "(let* (def d \"l%d\") (mkdir d) (dotimes (i %d) (spit (cat d \"/\" (if (= 0 (rem i 3)) \".\" \"\") \"f\" i) \"x\")) (list (sort (ls d)) (sort (ls d #t)) (sort (directory/read-relative d)) (:length (directory/read-recursive d))))" % (n, n), \
            canon([vis, every, ["l%d/%s" % (n, x) for x in vis], len(vis)]) if vis else None
    names = [b"a~", b"~", b"~a", b"#a#", b"a.", b"a..", b"a,v", b"*", b"?", b"$HOME", b"a\r", b"CON", b"lost+found", b"core", b"x" * 100, b"x" * 127, b"x" * 128, b"x" * 200, b"x" * 254, b"." + b"x" * 254, b"x y", b"...", b"..a", b".a", b"-", b"a" * 255, bytes(range(1, 47)), bytes(range(48, 128)), bytes(range(128, 256)), "über".encode(), b"a\\b", b'"', b"\n"]
    for i, nm in enumerate(names):
        s = "(buffer->string #m%s)" % nm.hex().upper()
        vis = not nm.startswith(b".")
        yield "(let* (def d \"n%d\") (mkdir d) (def n %s) (def w (spit (cat d \"/\" n) \"x\")) (list w (ls d) (ls d #t) (slurp (cat d \"/\" n)) (ref (file/stat (cat d \"/\" n)) :size) (rm (cat d \"/\" n)) (ls d #t) (rmdir d)))" % (i, s), \
            canon([True, [nm] if vis else None, [nm], "x", 1, b"n%d/" % i + nm, None, True])
    yield "(list (ls \"none\") (ls \"driver.nuj\") (mkdir \"none/a\") (mkdir \"driver.nuj\") (mkdir \".\") (rmdir \"none\") (rmdir \"driver.nuj\") (cd \"none\") (cd \"driver.nuj\") (ref (file/stat \"none\") :error?) (ref (file/stat \"none\") :error-number) (ref (file/stat \"driver.nuj\") :error?) (ref (file/stat \"driver.nuj/x\") :error-number) (:type-name (ref (file/stat \"none\") :error-text)))", \
        canon([None, None, False, False, False, False, False, False, False, True, 2, False, 20, Kw("string")])
    yield "(let* (def s (file/stat \"/dev/null\")) (list (ref s :character-device?) (ref s :regular-file?) (ref s :directory?) (ref s :block-device?) (ref s :named-pipe?) (ref (file/stat \".\") :directory?)))", canon([True, False, False, False, False, True])
    yield "(let* (popen \"mkfifo pipe1; touch -d @1234567890 t1; touch -a -d @987654321 t1; chmod 700 t1\") (def s (file/stat \"pipe1\")) (def t (file/stat \"t1\")) (list (ref s :named-pipe?) (ref s :regular-file?) (ref t :modification-time) (ref t :access-time) (ref (file/stat \"big\") :size)))", canon([True, False, 1234567890, 987654321, 5000000000])
    for bad in ("#nil", "1", "1.5", "'a", ":a", "(list \"a\")", "[\"a\"]", "{:a 1}", "#m61", "car", "Int"):
        for f in ("mkdir", "rmdir", "rm", "cd", "file/stat", "popen"):
            yield attempt("(%s %s)" % (f, bad)), canon([Kw("err")])


def owner():
    """someone else that files may be given to here"""
    with tempfile.NamedTemporaryFile() as f:
        try:
            os.chown(f.name, 1234, 567)
            return 1234, 567
        except OSError:
            return os.getuid(), os.getgid()


def links():
    """links to everything, and every way of naming what is removed or asked about"""
    make = '(def n (cat "k" %d)) (mkdir n) (cd n) (popen "mkdir d; echo -n abc > f; echo -n q > d/g; ln -s d ld; ln -s f lf; ln -s none dang; ln -s ld lld; ln -s lf llf; ln -s loop loop; ln f hf; mkfifo p; ln -s p lp; ln -s /dev/null ln; chown %d:%d f") '
    own, grp = owner()
    make = make.replace("%d:%d", "%d:%d" % (own, grp))
    me = [os.getuid(), os.getgid()]
    alive = {"d": None, "f": 3, "ld": None, "lf": 3, "dang": -1, "lld": None, "llf": 3, "loop": -1, "hf": 3, "p": -2, "lp": -2, "ln": -3, "d/g": 1, "ld/g": 1, "lld/g": 1}
    real = {"ld": "d", "lld": "d", "lf": "f", "llf": "f", "lp": "p"}
    forms = [(x + tail, x, tail) for x in alive for tail in ("", "/", "/.", "//")] + [("./" + x, x, "") for x in alive] + [("d/../" + x, x, "") for x in alive] + [("ld/../" + x, x, "") for x in alive] + [("", None, ""), ("none", None, ""), ("none/x", None, ""), ("f/x", None, ""), ("dang/x", None, "")]
    n = 0
    for p, x, tail in forms:
        k = alive.get(x, -1)
        isdir = k is None
        there = k != -1 and (isdir or not tail) and x is not None
        st = "(let* (def s (file/stat %s)) (list (ref s :error?) (ref s :regular-file?) (ref s :directory?) (ref s :character-device?) (ref s :named-pipe?) (file/file? %s) (file/dir? %s) (if (and (ref s :regular-file?) (ref s :size)) (list (ref s :size) (ref s :user-id) (ref s :group-id)) 0)))" % ((lit_str(p),) * 3)
        stw = [not there] + ([k is not None and k >= 0, isdir, k == -3, k == -2] + [k is not None and k >= 0, isdir] if there else [None] * 6)
        stw.append([k] + ([own, grp] if k == 3 else me) if there and k is not None and k >= 0 else 0)
        top = sorted(y for y in alive if "/" not in y)
        # removing takes what is named (a link, not what it leads to), and no directory
        gone = x if x not in (None, "d") and not tail else None
        left = [y for y in top if y != gone]
        g = [] if gone in ("d/g", "ld/g", "lld/g") else ["g"]
        n += 1
        yield "(let* (def home (cwd)) %s (def l (ls %s)) (def r (list %s (if l (sort l) l) (= (rm %s) %s) (rmdir \"ld\") (rmdir \"d\") (sort (ls \".\")) (sort (ls #nil)) (ls \"d\") %s)) (cd home) r)" % (
            make % n, lit_str(p), st, lit_str(p), lit_str(p), attempt('(slurp "f")')), \
            canon([stw, (["g"] if isdir and there else None), True, False, not g, [y for y in left if g or y != "d"], [y for y in left if g or y != "d"], g or None, "abc" if gone != "f" else None])
    # making directories where something is, and where nothing is
    for p in [p for p, x, tail in forms if x and (tail != "//") and not (x in ("dang", "loop") and tail)] + ["new", "new/", "./new", "new//", "d/new", "d/new/", "ld/new", "lld/../new", "new/x", "none/x/", "f/x", "", "d/../new", "/".join(["d/.."] * 60 + ["new"]), "n" * 255, "n" * 256]:
        x = p.rstrip("/") if p.startswith(("new", "d/new")) else p
        ok = p.rstrip("/") in ("new", "./new", "d/new", "ld/new", "lld/../new", "d/../new", "n" * 255) or p.endswith("d/../new")
        n += 1
        yield "(let* (def home (cwd)) %s (def a (sort (ls \".\"))) (def r (mkdir %s)) (def q (mkdir %s)) (def t (file/dir? %s)) (def gone (rmdir %s)) (def u (equal? a (sort (ls \".\")))) (cd home) (list r q %s gone u))" % (
            make % n, lit_str(p), lit_str(p), lit_str(p), lit_str(p) if ok else '"none"', "t" if ok else "#t"), canon([ok, False, True, ok, True])
    # changing into links, and listing there
    for p, ok in (("d", 1), ("ld", 1), ("lld", 1), ("d/", 1), ("ld/", 1), ("ld/.", 1), ("d/..", 0), ("f", None), ("lf", None), ("dang", None), ("loop", None), ("p", None), ("", None), ("none", None)):
        n += 1
        yield ("(let* (def home (cwd)) %s (def top (cwd)) (def c (cd %s)) (def r (list c (:cut (cwd) (:length top)) (sort (ls \".\")) (spit \"new\" \"1\") (sort (ls #nil)))) (cd top) (def t (list (ls \"d\") (file/file? \"new\"))) (cd home) (list r t))" % (make % n, lit_str(p))).replace('(ls "d")', '(sort (ls "d"))'), \
            canon([[ok is not None, "/d" if ok == 1 else "", ["g"] if ok == 1 else sorted(y for y in alive if "/" not in y), True, ["g", "new"] if ok == 1 else sorted([y for y in alive if "/" not in y] + ["new"])], [["g", "new"] if ok == 1 else ["g"], ok != 1 or None]])
    # directories within directories
    for w in (1, 7, 50, 99, 200, 255):
        n += 1
        yield '(let* (def home (cwd)) (def n (cat "k" %d)) (mkdir n) (cd n) (def name "") (while (< (:length name) %d) (set! name (cat name "w"))) (def want (cwd)) (def bad 0) (while (< (:length want) 900) (set! want (cat want "/" name)) (when-not (mkdir name) (inc! bad)) (when-not (cd name) (inc! bad)) (when-not (if (< (:length want) 512) (= (cwd) want) (nil? (cwd))) (inc! bad)) (when (ls ".") (inc! bad))) (cd home) (list bad (= (cwd) home)))' % (n, w), canon([0, True])


def nul():
    """a name or command with a NUL byte in it is that of nothing: not of what comes before the byte"""
    n = 0
    for tail in (b"\0", b"\0x", b"/\0", b"\0/f", b"\0.."):
        for first in ("d", "f", "x", ""):
            if first != "d" and tail[:1] == b"/":
                continue
            n += 1
            nm = "(buffer->string #m%s)" % (first.encode() + tail).hex().upper()
            make = '(def home (cwd)) (mkdir "z%d") (cd "z%d") (mkdir "d") (spit "f" "12")' % (n, n)
            yield '(let* %s (def p %s) (def r (list %s)) (def s (list (sort (ls ".")) (slurp "f") (ls "d"))) (cd home) (list r s))' % (make, nm, " ".join(attempt("(if %s :done (throw :no))" % c) for c in (
                "(mkdir p)", "(rmdir p)", "(cd p)", "(ls p)", "(ls p #t)", "(do (rm p) #nil)", "(spit p \"9\")", "(slurp p)", "(:new OutputPort (file/open-output* p :append))", "(file/open-output* p :replace)", "(file/open-output* p)", "(file/open-input* p)", "(not (ref (file/stat p) :error?))", "(popen p)", "(popen (cat \"echo >g\" p))"))), \
                canon([[ERR] * 15, [["d", "f"], "12", None]])


def commands():
    for n in range(0, 256):
        yield "(popen \"exit %d\")" % n, canon(Pair(n, ""))
    for sig in (1, 2, 6, 9, 11, 13, 14, 15):
        yield "(not= 0 (car (popen \"ulimit -c 0; kill -%d $$\")))" % sig, canon(True)
    for n in list(range(0, 70)) + [k + d for k in (4096, 8192, 12288, 65536, 131072, 1 << 20) for d in (-2, -1, 0, 1, 2)]:
        yield "(let* (def r (popen \"head -c %d /dev/zero\")) (list (car r) (:length (cdr r)) (:index-of (cdr r) \"a\") (= (cdr r) (buffer->string (buffer/allocate %d)))))" % (n, n), canon([0, n, -1 if n else -3, True])
    for n in (1, 2, 100, 4095, 4096, 4097, 9000):
        yield "(let* (def r (popen \"yes abcdefg | head -c %d; exit 7\")) (list (car r) (cdr r)))" % n, canon([7, (b"abcdefg\n" * (n // 8 + 1))[:n]])
    # slow output arrives in pieces
    yield "(popen \"printf a; sleep 0.05; printf bc; sleep 0.05; printf def\")", canon(Pair(0, "abcdef"))
    yield "(popen \"head -c 4096 /dev/zero; sleep 0.05; printf x\")", canon(Pair(0, b"\0" * 4096 + b"x"))
    yield "(popen \"printf '\\\\000\\\\377\\\\n'\")", canon(Pair(0, b"\0\xff\n"))
    yield "(list (popen \"echo err >&2\") (popen \"cat /dev/null\") (popen \"\") (popen/trim \"echo ' a '\") (car (popen \"no-such-command-here 2>/dev/null\")))", canon([Pair(0, ""), Pair(0, ""), Pair(0, ""), "a", 127])
    yield "(let* (mkdir \"pd\") (cd \"pd\") (def r (popen \"pwd\")) (cd \"..\") (= (cdr r) (cat (cwd) \"/pd\\n\")))", canon(True)
    yield "(let* (def i 0) (def bad 0) (while (< i 300) (when (not= (cdr (popen \"echo x\")) \"x\\n\") (inc! bad)) (inc! i)) bad)", canon(0)


if __name__ == "__main__":
    ck = Check("C27", "model_checking")
    ck.cases("sequences of operations", sequences(3 if not ck.thorough else 4), variant="plain")
    def big(wd):
        with open(os.path.join(wd, "big"), "wb") as f:
            f.truncate(5000000000)
    ck.cases("names and kinds of files", ((l, e) for l, e in listings() if e), chunk=12, runner=Runner(ck.tree.binary("asan"), cwd_setup=big))
    ck.cases("links and names of things", links(), chunk=12)
    ck.cases("names with NUL bytes", nul())
    ck.cases("commands", commands(), chunk=20)
    ck.assumptions = ["runs as root: permissions don't apply"]
    ck.finish()
