"""Files.  (1) Every sequence of opening, reading, writing, seeking and closing a
file, against a model of a file; (2) every size around the sizes of buffers, in
pieces of every size; (3) writing with room for every number of bytes on the
disk (a limit on the size of files, a full device): an operation that doesn't
fail has done all of it."""
from common import *
import itertools, shutil, tempfile


class File:
    """one file and a handle on it"""

    def __init__(self, content):
        self.content = content
        self.h = None          # None, 'closed', 'bad', or (mode, ...)
        self.mode = None
        self.pos = 0
        self.eof = self.err = False
        self.touched = False   # appending handles have no position before
        self.buf = bytearray(4)


class Prune(Exception):
    pass


def opener(mode):
    def f(s):
        if s.mode in ("in", "replace", "append"):
            raise Prune
        exists = s.content is not None
        s.pos, s.eof, s.err, s.touched = 0, False, False, False
        if mode == "in":
            s.mode = "in" if exists else "bad"
            return Kw("h") if exists else None
        if mode == "error":
            if exists:
                s.mode = "bad"
                return False
            s.mode, s.content = "replace", b""
        elif mode == "replace":
            s.mode, s.content = "replace", b""
        else:
            s.mode = "append"
            if not exists:
                s.content = b""
        return Kw("h")
    return f


def need(s, close=False):
    if s.mode in (None, "bad", "closed"):
        raise Err()
    if s.err and not close:
        raise Prune


def write(data, size=None, off=0):
    def f(s):
        need(s)
        n = len(data) - off if size is None or size < 0 else size
        if off < 0 or n > len(data) - off:
            raise Err()
        part = data[off:off + max(n, 0)]
        if not part:
            return Kw("h")
        if s.mode == "in":
            s.err = True
            raise Err()
        if s.mode == "append":
            s.pos, s.touched = len(s.content), True
        c = s.content.ljust(s.pos, b"\0")
        s.content = c[:s.pos] + part + c[s.pos + len(part):]
        s.pos += len(part)
        return Kw("h")
    return f


def read(n, off=0):
    def f(s):
        need(s)
        if n < 0 or off < 0 or off + n > 4:
            raise Err()
        if n == 0:
            return 0
        if s.mode != "in":
            s.err = True
            raise Err()
        if s.eof:
            return 0
        part = s.content[s.pos:s.pos + n]
        s.buf[off:off + len(part)] = part
        s.pos += len(part)
        s.eof = len(part) < n
        return len(part)
    return f


def seek(off, whence):
    def f(s):
        need(s)
        if s.mode == "append" and whence == 1 and not s.touched:
            raise Prune
        if not 0 <= whence <= 2:
            raise Err()
        p = (0, s.pos, len(s.content))[whence] + off
        if p < 0:
            raise Err()
        s.pos, s.eof, s.touched = p, False, True
        return Kw("h")
    return f


def tell(s):
    need(s)
    if s.mode == "append" and not s.touched:
        raise Prune
    return s.pos


def flag(name):
    def f(s):
        if s.mode in (None, "bad", "closed"):
            raise Err()
        return getattr(s, name)
    return f


def close(s):
    need(s, True)
    s.mode = "closed"
    return None


def flush(s):
    need(s)
    return Kw("h")


def slurp(s):
    if s.mode in ("replace", "append") and not s.err:
        pass
    elif s.mode in ("replace", "append"):
        raise Prune
    return s.content if s.content is not None else None


H = "(if (= :file-handle (:type-name r)) :h r)"


def op(src):
    return "(let* (def r %s) %s)" % (src, H)


OPENS = [
    ("(do (set! h (file/open-output* \"f\")) (if (= :file-handle (:type-name h)) :h h))", opener("error")),
    ("(do (set! h (file/open-output* \"f\" :error)) (if (= :file-handle (:type-name h)) :h h))", opener("error")),
    ("(do (set! h (file/open-output* \"f\" :replace)) (if (= :file-handle (:type-name h)) :h h))", opener("replace")),
    ("(do (set! h (file/open-output* \"f\" :append)) (if (= :file-handle (:type-name h)) :h h))", opener("append")),
    ("(do (set! h (file/open-input* \"f\")) (if (= :file-handle (:type-name h)) :h h))", opener("in")),
]
OPS = [
    (op('(file/write* h "abc")'), write(b"abc")),
    (op('(file/write* h #m0A00FF0D 2 1)'), write(b"\n\0\xff\r", 2, 1)),
    (op('(file/write* h "xyz" 4)'), write(b"xyz", 4)),
    (op('(file/read* h b 2)'), read(2)),
    (op('(file/read* h b 3 1)'), read(3, 1)),
    (op('(file/seek* h 1 0)'), seek(1, 0)),
    (op('(file/seek* h 5 0)'), seek(5, 0)),
    (op('(file/seek* h -1 1)'), seek(-1, 1)),
    (op('(file/seek* h 0 2)'), seek(0, 2)),
    (op('(file/tell* h)'), tell),
    (op('(file/eof*? h)'), flag("eof")),
    (op('(file/error*? h)'), flag("err")),
    (op('(do (file/flush* h) (slurp "f"))'), lambda s: (flush(s), slurp(s))[1] if s.mode != "in" else (_ for _ in ()).throw(Prune())),
    (op('(file/close* h)'), close),
]


def sequences(depth):
    for init in (None, b"", b"0123"):
        for d in range(1, depth + 1):
            for seq in itertools.product(OPENS, *[OPS + (OPENS[2:] if i + 2 < d else []) for i in range(d - 1)]):
                st = File(init)
                try:
                    res = [outcome(o[1], st) for o in seq]
                except Prune:
                    continue
                setup = "(rm \"f\")" if init is None else "(spit \"f\" \"%s\")" % init.decode()
                end = "(try (fn () #nil) (file/close* h))" if st.mode in ("in", "replace", "append") else ""
                yield "(let* %s (def h #nil) (def b (buffer/allocate 4)) %s %s (list %s b (slurp \"f\")))" % (
                    setup, " ".join("(def r%d %s)" % (n, attempt(o[0])) for n, o in enumerate(seq)), end, " ".join("r%d" % n for n in range(d))), \
                    canon(res + [Buf(bytes(st.buf)), st.content])


def seeks(thorough):
    """every seek from every position, then what is read or written there"""
    for o in OPENS[2:]:
        for p, off, wh in itertools.product(range(0, 8), list(range(-9, 10)) + [300, 5000], range(3)):
            for last in ((OPS[3],) if o is OPENS[4] else (OPS[0],)):
                st = File(b"012345")
                seq = [o] + ([(op("(file/write* h \"abcdef\")"), write(b"abcdef"))] if o is not OPENS[4] else []) + \
                    [(op("(file/seek* h %d 0)" % p), seek(p, 0)), (op("(file/seek* h %d %d)" % (off, wh)), seek(off, wh)), OPS[9], last, OPS[9], (op("(file/seek* h %d %d)" % (-off, wh)), seek(-off, wh)), OPS[9], last]
                try:
                    res = [outcome(x[1], st) for x in seq]
                except Prune:
                    continue
                yield "(let* (spit \"f\" \"012345\") (def h #nil) (def b (buffer/allocate 4)) %s (file/close* h) (list %s b (slurp \"f\")))" % (
                    " ".join("(def r%d %s)" % (n, attempt(x[0])) for n, x in enumerate(seq)), " ".join("r%d" % n for n in range(len(seq)))), canon(res + [Buf(bytes(st.buf)), st.content])


def arguments():
    vals = [I64MIN, -2, -1, 0, 1, 2, 3, 4, 5, 1 << 31, 1 << 32, (1 << 32) + 1, I64MAX]
    kinds = [("\"abcd\"", "s"), ("(buffer/allocate 4)", "b"), ("#m61626364", "i"), ("(:u8 (buffer/allocate 4) #f)", "v"), ("(:u16 (buffer/allocate 4) #f)", "v"), ("(:u16 #m61626364)", "w")]
    for (k, t), n, o in itertools.product(kinds, vals, vals):
        data = b"abcd" if t in "siw" else bytes(4)
        good = o >= 0 and (n <= 4 - o)
        cnt = 0 if not good else max(0, 4 - o) if n < 0 else n
        yield "(let* (def h (file/open-output* \"g\" :replace)) (def r %s) (file/close* h) (list r (slurp \"g\")))" % attempt("(do (file/write* h %s %s %s) :ok)" % (k, lit(n), lit(o))), frozenset([canon([Kw("ok"), b""]), canon([[Kw("err")], b""])]) if n < 0 and o > 4 else canon([Kw("ok") if good else [Kw("err")], data[o:o + cnt] if good else b""])
        good = t in "bv" and n >= 0 and o >= 0 and n <= 4 - o
        got = bytearray(data)
        if good:
            got[o:o + n] = b"WXYZ"[:n]
        yield "(let* (spit \"g\" \"WXYZ\") (def h (file/open-input* \"g\")) (def b %s) (def r %s) (file/close* h) (list r %s))" % (
            k, attempt("(file/read* h b %s %s)" % (lit(n), lit(o))), {"v": "(:buffer b)", "w": "(:buffer b)"}.get(t, "b")), \
            canon([n if good else [Kw("err")], bytes(got) if t == "s" else Buf(bytes(got))])
    bad = ["#nil", "1", "1.5", "\"x\"", "'a", ":a", "(list 1)", "[1]", "{:a 1}", "car", "Int", "#m01"]
    for b in bad:
        for f in ("(file/write* %s \"a\")", "(file/read* %s (buffer/allocate 3) 1)", "(file/close* %s)", "(file/flush* %s)", "(file/tell* %s)", "(file/seek* %s 0 0)", "(file/eof*? %s)", "(file/error*? %s)", "(file/bytes-available* %s)"):
            yield attempt(f % b), canon([Kw("err")])
        if b not in ("\"x\"",):
            for f in ("(file/open-input* %s)", "(file/open-output* %s :replace)", "(file/stat %s)", "(spit %s \"a\")", "(slurp %s)"):
                yield attempt(f % b), canon([Kw("err")])
        if b != "#nil":
            yield attempt("(file/open-output* \"g2\" %s)" % b), canon([Kw("err")])
        if b not in ("\"x\"", "#m01"):
            yield "(let* (spit \"g\" \"1\") (list (spit \"g\" %s) (try (fn (e) :err) (file/copy \"nope\" \"g\")) ))" % b, canon([False, None])
        h = "(let* (spit \"g\" \"WXYZ\") (def h (file/open-input* \"g\")) (def r %s) (file/close* h) r)"
        for f in ("(file/read* h %s 1)", "(file/seek* h 0 %s)", "(file/seek* h %s 0)", "(file/read* h (buffer/allocate 3) %s)"):
            if b not in ("1", "#m01") and (b, f) != ("1.5", ""):
                yield h % attempt(f % b), canon([Kw("err")])
    for w in (I64MIN, -1, 3, 1 << 32, I64MAX):
        yield "(let* (spit \"g\" \"WXYZ\") (def h (file/open-input* \"g\")) (def r %s) (file/close* h) r)" % attempt("(file/seek* h 0 %s)" % lit(w)), canon([Kw("err")])
    for n in (0, 1, 2, 100):
        yield "(let* (spit \"g\" \"%s\") (def h (file/open-input* \"g\")) (def r (list (file/bytes-available* h) (file/read* h (buffer/allocate 200) 50) (file/tell* h))) (file/close* h) r)" % ("z" * n), canon([n, min(n, 50), min(n, 50)])


# what handles can't be told apart is a known finding
STALE = "(let* (spit \"s1\" \"1\") (def a (file/open-output* \"s1\" :append)) (file/close* a) (def b (file/open-output* \"s2\" :replace)) (def r %s) (file/close* b) (list r (slurp \"s1\") (slurp \"s2\")))" % attempt("(do (file/write* a \"x\") :ok)")


def sizes(thorough):
    pat = "(let* (def n %d) (def c (buffer/allocate n)) (dotimes (i n) (set! c i (bit-and 255 (+ i (* 7 (div/int i 256)))))) %s)"
    for n in list(range(0, 300)) + [k + d for k in (512, 1024, 2048, 4096, 8192, 12288, 65536, 131072) for d in (-1, 0, 1)]:
        yield pat % (n, "(def w (spit \"p\" c)) (def r (slurp/buffer \"p\")) (def s (slurp \"p\")) (list w (= (buffer->string c) s) (:length r) (= s (buffer->string r)) (ref (file/stat \"p\") :size) (file/copy \"p\" \"q\") (= s (slurp \"q\")))"), \
            canon([True, True, n, True, n, True, True])
    for n in [0, 1, 2, 3, 10, 100, 4095, 4096, 4097, 8191, 8192, 8193, 20000] + ([65536, 65537, 200000] if thorough else []):
        for k in (1, 2, 3, 7, 100, 1023, 1024, 4095, 4096, 4097, 8192, 10000):
            if n // k > 3000:
                continue
            yield pat % (n, "(def h (file/open-output* \"p\" :replace)) (def i 0) (while (< i n) (def m (min %d (- n i))) (file/write* h c m i) (set! i (+ i m))) (file/close* h) "
                         "(def g (file/open-input* \"p\")) (def d (buffer/allocate (+ n 1))) (def i 0) (def m 1) (while (> m 0) (set! m (file/read* g d (min %d (- (+ n 1) i)) i)) (set! i (+ i m))) (def e (file/eof*? g)) (file/close* g) "
                         "(list i e (= (buffer->string c) (:cut (buffer->string d) 0 n)) (= (buffer->string c) (slurp \"p\")))" % (k, k)), canon([n, True, True, True])
    # every byte
    yield "(let* (def b (buffer/allocate 256)) (dotimes (i 256) (set! b i i)) (spit \"p\" b) (def r (slurp/buffer \"p\")) (def bad 0) (dotimes (i 256) (when (not= i (ref r i)) (inc! bad))) (list bad (:length r) (:length (slurp \"p\"))))", canon([0, 256, 256])
    yield "(list (slurp \"missing\") (slurp/buffer \"missing\") (slurp \".\") (slurp \"missing/x\") (file/open-input* \"missing\") (file/open-output* \"missing/x\" :replace) (file/open-output* \".\" :append) (spit \"missing/x\" \"a\") (spit \".\" \"a\") (file/copy \"missing\" \"x1\") (slurp \"x1\") (file/file? \"missing\") (file/file? \"driver.nuj\") (file/file? \".\") (file/dir? \".\") (file/dir? \"missing\"))", \
        canon([None] * 4 + [None, None, None, False, False, None, None]) [:-1] + " nil t f t nil)"


def far():
    """positions beyond what files have, up to the largest"""
    big = [(1 << k) + d for k in (15, 16, 30, 31, 32, 33, 40) for d in (-1, 0, 1, 5)]
    for b in big:
        yield "(let* (spit \"f\" \"0123\") (def h (file/open-input* \"f\")) (def b (buffer/allocate 4)) (file/seek* h %d 0) (def r1 (file/tell* h)) (def r2 (file/read* h b 2)) (def r3 (file/eof*? h)) (file/seek* h %d 1) (def r4 (file/tell* h)) (file/seek* h 1 0) (def r5 (file/read* h b 2)) (file/seek* h %d 2) (def r6 (file/tell* h)) (def r7 %s) (def r8 (file/tell* h)) (file/close* h) (list r1 r2 r3 r4 r5 r6 r7 r8 b))" % (
            b, -b + 2, b - 4, attempt("(do (file/seek* h %d 1) 1)" % (-b - 1))), canon([b, 0, True, 2, 2, b, [Kw("err")], b, Buf(b"12\0\0")])
    for mode in ("replace", "append"):
        for b in big[:-16]:
            yield "(let* (spit \"f\" \"0123\") (def h (file/open-output* \"f\" :%s)) (file/seek* h %d 0) (def r1 (file/tell* h)) (file/seek* h %d 1) (def r2 (file/tell* h)) (file/write* h \"x\") (file/close* h) (list r1 r2 (slurp \"f\")))" % (
                mode, b, 1 - b), canon([b, 1, b"\0x" if mode == "replace" else b"0123x"])
    for f, w in (("(file/open-output* \".\")", False), ("(file/open-output* \".\" :error)", False), ("(file/open-output* \".\" :replace)", None), ("(do (popen \"ln -s nowhere dangling\") (slurp \"dangling\"))", None)):
        yield "(try (fn (e) (car e)) %s)" % f, canon(w) if w is False else {canon(None), canon(Kw("type-error"))}


def several(thorough):
    """files closed in every order, one of them opened again: the others stay closed"""
    uses = ["(file/read* %s b 1)", "(file/tell* %s)", "(file/close* %s)", "(file/eof*? %s)", "(file/seek* %s 0 0)", "(file/flush* %s)", "(file/error*? %s)", "(file/write* %s \"x\")"]
    for n in (1, 2, 3, 4):
        for order in itertools.permutations(range(n)):
            for again in range(0, 3):
                for u in uses if n < 4 else uses[:1]:
                    names = "abcd"[:n]
                    yield "(let* %s %s %s (def b (buffer/allocate 4)) (def r (list %s)) (doseq (h (list %s)) (try (fn (e) 1) (file/close* h))) r)" % (
                        " ".join("(spit \"%s\" \"content of %s\") (def %s (file/open-input* \"%s\"))" % (x, x, x, x) for x in names),
                        " ".join("(file/close* %s)" % names[i] for i in order),
                        " ".join("(def n%d (file/open-input* \"%s\"))" % (i, names[i % n]) for i in range(again)),
                        " ".join("(or %s (try (fn (e) :err) %s))" % (" ".join("(= %s n%d)" % (x, i) for i in range(again)) or "#f", u % x) for x in names),
                        " ".join("n%d" % i for i in range(again))), \
                        (lambda g: bool(re.fullmatch(r"\((t|kerr| )*\)", g)))


def many(thorough):
    """many files that were opened and closed in all kinds of orders, some of them opened again: the others stay closed"""
    for n in (5, 7, 8, 9, 12, 16, 20, 33, 64, 65, 66, 130):
        for on, order in (("first", "l"), ("last", "(reverse l)"), ("odd", "(append (filter l (fn (h) (odd? (index h)))) (filter l (fn (h) (even? (index h)))))")):
            for gap in ("", "(popen \"true\")", "(ls \".\")", "(:alloc Array 69)"):
                for again in sorted({1, 2, 3, n // 2, n - 1, n}):
                    yield ('(let* (spit "x" "abc") (def l #nil) (dotimes (i %d) (set! l (cons (file/open-input* "x") l))) (defn index (h) (def r 0) (def m l) (while (and m (not= (car m) h)) (inc! r) (set! m (cdr m))) r)'
                           ' (doseq (h %s) (file/close* h)) %s (def now #nil) (dotimes (i %d) (set! now (cons (file/open-input* "x") now)))'
                           ' (def bad 0) (doseq (h l) (def is #f) (doseq (k now) (when (= h k) (set! is #t))) (def r (try (fn (e) :err) (file/tell* h))) (when-not (= r (if is 0 :err)) (inc! bad)))'
                           ' (doseq (h now) (when-not (= (file/read* h (buffer/allocate 3) 3) 3) (inc! bad)) (file/close* h)) (doseq (h l) (when-not (= :err (try (fn (e) :err) (file/tell* h))) (inc! bad))) bad)') % (n, order, gap, again), canon(0)


LEAKS = {
    "opened and closed": "(file/close* (file/open-input* \"x\"))",
    "written": "(let ((h (file/open-output* \"y\" :replace))) (file/write* h \"abc\") (file/close* h))",
    "appended": "(let ((h (file/open-output* \"y\" :append))) (file/close* h))",
    "exists": "(file/open-output* \"x\")",
    "read to the end": "(let ((h (file/open-input* \"x\")) (b (buffer/allocate 100))) (file/read* h b 100) (file/read* h b 100) (file/close* h))",
    "read in part": "(let ((h (file/open-input* \"x\")) (b (buffer/allocate 100))) (file/read* h b 2) (file/close* h))",
    "wrong way": "(let ((h (file/open-input* \"x\"))) (try (fn (e) 1) (file/write* h \"abc\")) (file/close* h))",
    "wrong way 2": "(let ((h (file/open-output* \"y\" :replace))) (try (fn (e) 1) (file/read* h (buffer/allocate 3) 3)) (file/close* h))",
    "seeking": "(let ((h (file/open-input* \"x\"))) (file/seek* h 0 2) (try (fn (e) 1) (file/seek* h -100 1)) (file/close* h))",
    "full": "(let ((h (file/open-output* \"/dev/full\" :replace))) (file/write* h \"abc\") (try (fn (e) 1) (file/close* h)))",
    "slurp": "(slurp \"x\")", "slurp nothing": "(slurp \"empty\")", "slurp missing": "(slurp \"missing\")", "slurp directory": "(slurp \".\")", "slurp/buffer": "(slurp/buffer \"x\")",
    "spit": "(spit \"y\" \"abc\")", "spit nothing": "(spit \"y\" \"\")", "spit badly": "(spit \"y\" 1)", "spit directory": "(spit \".\" \"a\")", "spit full": "(spit \"/dev/full\" \"a\")",
    "copy": "(file/copy \"x\" \"z\")", "copy missing": "(try (fn (e) 1) (file/copy \"missing\" \"z\"))", "copy to a directory": "(try (fn (e) 1) (file/copy \"x\" \".\"))",
    "port": "(:close! (:new InputPort (file/open-input* \"x\")))", "lines": "(let ((p (:new InputPort (file/open-input* \"x\")))) (read-line/raw p (buffer/allocate 8)) (read-line/raw p (buffer/allocate 8)) (:close! p))",
    "directory": "(ls \".\")", "empty directory": "(ls \"d\")", "missing directory": "(try (fn (e) 1) (ls \"missing\"))", "file as directory": "(try (fn (e) 1) (ls \"x\"))", "recursively": "(ls \".\" #t)",
    "stat": "(file/stat \"x\")", "stat missing": "(file/stat \"missing\")", "made and removed": "(do (mkdir \"e\") (rmdir \"e\") (spit \"w\" \"1\") (rm \"w\"))", "cwd": "(do (cd \"d\") (cd \"..\") (cwd))",
    "module": "(try (fn (e) 1) (file/eval \"x.nuj\"))", "commands": "(popen \"true\")", "failing commands": "(popen \"exit 3\")",
}
LEAK = '''(defn main (args) :export
  (spit "x" "line 1\\nline 2\\n") (spit "empty" "") (spit "x.nuj" "(+ 1 2)") (mkdir "d")
  (dotimes (i %d) %s)
  (println (string/write (list (slurp "x") (spit "q" "1") (sort (ls "d"))))))
'''


def leaks(ck):
    binary = ck.tree.binary("plain")

    def run(name):
        wd = tempfile.mkdtemp(prefix="nujel-c26-")
        try:
            open(os.path.join(wd, "leak.nuj"), "w").write(LEAK % (20 if "commands" in name else 100, LEAKS[name]))
            st, out, err = launch(binary, ["leak.nuj"], wd, nofile=24)
            want = b'("line 1\\nline 2\\n" #t #nil)\r\n'
            return (st, out) == (0, want), (0, want), (st, out[-300:], err[-200:])
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    ck.each("handles used over and over", sorted(LEAKS), run)


FAULT = '''(defn show (r) (println (string/write r)))
(defn main (args) :export
  (def mode (car args))
  (def n (read/single (cadr args)))
  (def k (read/single (caddr args)))
  (def c (buffer/allocate n))
  (dotimes (i n) (set! c i (+ 65 (rem i 26))))
  (def failed #f)
  (defn step (f) (try (fn (e) (set! failed #t) (show (car e))) (f) (show :ok)))
  (if (= mode "spit")
      (show (spit (cadddr args) c))
      (do (def h (file/open-output* (cadddr args) (:keyword mode)))
          (def i 0)
          (while (< i n)
             (def m (min k (- n i)))
             (step (fn () (file/write* h c m i)))
             (when (= 0 (rem i 3)) (step (fn () (file/flush* h))))
             (set! i (+ i m)))
          (step (fn () (file/close* h)))))
  (println "end"))
'''


def faults(ck):
    binary = ck.tree.binary("plain")

    def run(item):
        mode, n, k, room, pre = item
        wd = tempfile.mkdtemp(prefix="nujel-c26-")
        try:
            open(os.path.join(wd, "fault.nuj"), "w").write(FAULT)
            want = bytes(65 + i % 26 for i in range(n))
            if pre:
                open(os.path.join(wd, "out"), "wb").write(b"#" * pre)
                want = b"#" * pre + want if mode == "append" else want
            path = "out"
            if room == "full":
                path = "/dev/full"
            st, out, err = launch(binary, ["fault.nuj", mode, str(n), str(k), path], wd, fsize=None if room == "full" else room)
            lines = out.decode("latin1").split()
            if room == "full":
                good = n > 0 and (st == 0 and lines[-1:] == ["end"] and ("#t" not in lines if mode == "spit" else ":io-error" in lines)) or n == 0 and ":io-error" not in lines and "#f" not in lines
                return good, "an error", (st, lines[-4:])
            got = open(os.path.join(wd, "out"), "rb").read() if os.path.exists(os.path.join(wd, "out")) else None
            fits = len(want) <= room
            reported = "#f" in lines or ":io-error" in lines
            fine = st == 0 and lines[-1:] == ["end"] and got is not None
            complete = got == want
            good = fine and (complete if not reported else not fits) and (want.startswith(got) or mode == "append" and got == b"#" * pre) and (not fits or not reported)
            # only writing anything can fail
            good = good and all(l in (":ok", ":io-error", "#t", "#f", "end") for l in lines)
            return good, "all of it written, or an error reported", (st, lines[-6:], None if got is None else len(got), complete)
        finally:
            shutil.rmtree(wd, ignore_errors=True)

    items = []
    for n in range(0, 13):
        for room in range(0, n + 2):
            items.append(("spit", n, 1, room, 0))
            for k in (1, 3, 5):
                items.append(("replace", n, k, room, 0))
            items.append(("append", n, 2, room + 3, 3))
    for n in (4095, 4096, 4097, 8192, 10000):
        for room in sorted(set(list(range(max(0, n - 3), n + 2)) + [0, 1, 1000, 4095, 4096, 4097, 8191, 8192, 8193])):
            items.append(("spit", n, 1, room, 0))
            for k in (500, 4096, 5000) if not ck.thorough else (100, 500, 1024, 4095, 4096, 4097, 5000, 10000):
                items.append(("replace", n, k, room, 0))
                items.append(("append", n, k, room + 10, 10))
    for n in (0, 1, 10, 4095, 4096, 4097, 10000):
        for mode, k in (("spit", 1), ("replace", 1000), ("append", 5000)):
            items.append((mode, n, k, "full", 0))
    ck.each("every amount of room on the disk", items, run)


HANDLES = '''(defn main (args) :export
  (spit "x" "content")
  (def l #nil) (def h #t)
  (while h (set! h (file/open-input* "x")) (when h (set! l (cons h l))))
  (def n (:length l))
  (def r (list (file/open-output* "y" :replace) (file/open-output* "x" :append) (file/open-input* "x") (spit "y" "1") (slurp "x")))
  (file/close* (car l))
  (def again (slurp "x"))
  (doseq (c (cdr l)) (file/close* c))
  (println (string/write (list n r again (slurp "x") (spit "y" "2") (slurp "y")))))
'''


def handles(ck):
    binary = ck.tree.binary("asan")

    def run(limit):
        wd = tempfile.mkdtemp(prefix="nujel-c26-")
        try:
            open(os.path.join(wd, "handles.nuj"), "w").write(HANDLES)
            st, out, err = launch(binary, ["handles.nuj"], wd, nofile=limit)
            m = re.fullmatch(rb'\((\d+) \(#nil #nil #nil #f #nil\) "content" "content" #t "2"\)\r\n', out)
            return st == 0 and bool(m) and int(m.group(1)) <= limit, "no handles left, then one again", (st, out)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    ck.each("running out of file handles", list(range(8, 40)) + [100, 300, 700], run)


if __name__ == "__main__":
    ck = Check("C26", "model_checking")
    ck.cases("sequences of operations", sequences(4 if not ck.thorough else 5), variant="plain")
    ck.cases("seeks", seeks(ck.thorough), variant="plain")
    ck.cases("offsets, lengths and kinds of arguments", arguments())
    ck.cases("sizes and pieces", sizes(ck.thorough), chunk=30, variant="plain")
    ck.cases("handles that were closed", [(STALE, canon([[Kw("err")], "1", ""]))], variant="plain")
    ck.cases("positions far away", far(), variant="plain")
    ck.cases("several files", several(ck.thorough))
    ck.cases("many files", many(ck.thorough))
    ck.cases("many files, as they are reused", many(ck.thorough), variant="plain")
    leaks(ck)
    faults(ck)
    handles(ck)
    ck.assumptions = ["errors of the disk are produced by limiting the size of files and by /dev/full; glibc's stdio and the kernel are trusted"]
    ck.finish()
