"""Ports.  Every sequence of operations on a string port (two of them, too), on an
output port and on an input port of a file, every size around the growth of their
buffers, against sequences of bytes with a position."""
from common import *
import itertools


class P:
    """a growing sequence of bytes and a position"""
    def __init__(self, content=b""):
        self.c, self.pos, self.eof, self.closed, self.kept = content, 0, False, False, None

    def put(self, b):
        if not b:
            return
        self.c = self.c.ljust(self.pos, b"\0")
        self.c = self.c[:self.pos] + b + self.c[self.pos + len(b):]
        self.pos += len(b)

    def upto(self):
        return self.c.ljust(self.pos, b"\0")[:self.pos]


def ok(src):
    return "(do %s :ok)" % src


OK = Kw("ok")


def puts(b):
    def f(s):
        if s.closed:
            raise Err()
        s.put(b)
        return OK
    return f


def bad(s):
    raise Err()


LONG = bytes(range(97, 97 + 15))


def writes(p):
    return [
        (ok('(:block-write %s "ab")' % p), puts(b"ab")),
        (ok('(:block-write %s "abc" 2)' % p), puts(b"ab")),
        (ok('(:block-write %s "abc" 0)' % p), puts(b"")),
        (ok('(:block-write %s #m%s)' % (p, LONG.hex().upper())), puts(LONG)),
        (ok('(:block-write %s #m0041)' % p), puts(b"\0A")),
        (ok('(:char-write %s 66)' % p), puts(b"B")),
        (ok('(:char-write %s 0)' % p), puts(b"\0")),
        (ok('(:char-write %s (+ 256 65))' % p), puts(b"A")),
        (ok('(:write %s "x" #m3031 "yz")' % p), puts(b"x01yz")),
        (ok('(:write %s)' % p), lambda s: OK),
        (ok('(display "q\\"" %s)' % p), puts(b'q"')),
        (ok('(write "q\\"" %s)' % p), puts(b'"q\\""')),
        (ok('(print (list 1 #nil :a) %s)' % p), puts(b"(1  :a)")),
        (ok('(newline %s)' % p), puts(b"\r\n")),
    ]


WRONG = ['(:block-write %s "abc" 4)', '(:block-write %s 5)', '(:block-write %s "a" "b")', '(:char-write %s "a")', '(:write %s "k" 5)', "(:block-write %s (:u16 #m41424344))", "(:block-write %s #nil)", "(:position! %s :a)", "(:char-write %s)"]


def goto(n):
    def f(s):
        if s.closed:
            raise Err()
        s.pos = n
        return OK
    return f


def keep(s):
    s.kept = s.upto()
    return s.kept


def string_ops(p, full=True):
    o = writes(p) + [
        (ok("(:position! %s 0)" % p), goto(0)),
        (ok("(:position! %s 3)" % p), goto(3)),
        (ok("(:position! %s -1)" % p), goto(0)),
        ("(:position %s)" % p, lambda s: s.pos),
        ("(set! kept (:return-string %s))" % p, keep),
        (ok("(:flush-output %s)" % p), lambda s: OK),
        (ok("(:close! %s)" % p), lambda s: OK),
        (attempt(ok('(:block-write %s "abc" 4)' % p)), bad),
        (attempt(ok('(:char-write %s "a")' % p)), bad),
        (attempt(ok("(:position! %s :a)" % p)), bad),
        (attempt(ok('(:write %s "k" 5)' % p)), lambda s: s.put(b"k") or bad(s)),
        (ok('(do (:block-write %s (ref %s :buffer) 2) 1)' % (p, p)), lambda s: s.put(s.c.ljust(2, b"\0")[:2]) or OK),
    ]
    return o


class Two:
    def __init__(self):
        self.p, self.q = P(), P()


def on(k, f):
    return lambda s: f(getattr(s, k))


def string_ports(depth):
    o = string_ops("p")
    yield from explore("(def kept #nil) (def p (:new StringOutputPort))", P, o, depth, "kept (:return-string p) (:position p)", lambda s: None)


def final(src_ops, depth, init, mk, obs, obsf, pick=None):
    for d in range(1, depth + 1):
        for seq in itertools.product(range(len(src_ops)), repeat=d):
            if pick and not pick(seq):
                continue
            st = mk()
            res = [outcome(src_ops[k][1], st) for k in seq]
            yield "(let* %s %s (list %s %s))" % (init, " ".join("(def r%d %s)" % (n, attempt(src_ops[k][0])) for n, k in enumerate(seq)), " ".join("r%d" % n for n in range(d)), obs), canon(res + obsf(st))


def strings(depth):
    init = "(def kept #nil) (def p (:new StringOutputPort))"
    o = string_ops("p")
    # growing happens beyond 16 and 128 bytes
    core = {3, 14, 15, 18, 25}
    yield from final(o, depth, init, P, "kept (:return-string p) (:position p)", lambda s: [s.kept, s.upto(), s.pos])
    o2 = [(a, on("p", f)) for a, f in string_ops("p")] + [(a, on("q", f)) for a, f in string_ops("q")]
    yield from final(o2, 2, init + " (def q (:new StringOutputPort))", Two, "(:return-string p) (:position p) (:return-string q) (:position q)", lambda s: [s.p.upto(), s.p.pos, s.q.upto(), s.q.pos])


def sizes(thorough):
    edge = [0, 1, 2, 14, 15, 16, 17, 18, 31, 32, 33, 111, 112, 113, 126, 127, 128, 129, 130, 143, 144, 145, 255, 256, 257, 271, 272, 273, 1000]
    for a in edge:
        for b in edge:
            for c in ([0, 1, 16, 127, 128] if not thorough else edge):
                data = bytes(i * 7 & 255 for i in range(1100))
                yield "(let* (def p (:new StringOutputPort)) (def b (buffer/allocate 1100)) (dotimes (i 1100) (set! b i (bit-and 255 (* i 7)))) (:block-write p b %d) (def s1 (:return-string p)) (:block-write p (buffer->string b %d)) (dotimes (i %d) (:char-write p (ref b i))) (list s1 (:return-string p) (:position p)))" % (a, b, c), \
                    canon([data[:a], data[:a] + data[:b] + data[:c], a + b + c])
    for n in edge + [5000]:
        yield "(let* (def p (:new StringOutputPort)) (dotimes (i %d) (:char-write p (bit-and i 255))) (:return-string p))" % n, canon(bytes(i & 255 for i in range(n)))
        yield "(let* (def s \"\") (dotimes (i %d) (set! s (cat s \"x\"))) (with-string-port p (:block-write p s) (:block-write p s)))" % min(n, 1000), canon(b"xx" * min(n, 1000))
        yield "(let* (def b (buffer/allocate %d)) (dotimes (i %d) (set! b i 65)) (def p (:new StringOutputPort)) (:block-write p b) (:position! p 0) (:block-write p \"zz\") (:position! p %d) (:block-write p \"end\") (:return-string p))" % (n, n, n), canon((b"zz" + b"A" * (n - 2) if n > 2 else b"zz"[:n]) + b"end")


def out_ports(depth):
    o = writes("p") + [
        (ok("(:position! p 0)"), goto(0)), (ok("(:position! p 3)"), goto(3)), (attempt(ok("(:position! p -1)")), bad),
        ("(:position p)", lambda s: bad(s) if s.closed else s.pos),
        (ok("(:flush-output p)"), lambda s: bad(s) if s.closed else OK),
        ('(do (:flush-output p) (slurp "f"))', lambda s: bad(s) if s.closed else s.c),
        (ok("(:close! p)"), lambda s: bad(s) if s.closed else (setattr(s, "closed", True), OK)[1]),
    ]
    n = len(o)
    # size 0 or nothing to write doesn't reach the handle
    none = {2: OK, 9: OK}

    def fix(k, f):
        return (lambda s: OK) if k == 9 else f
    o = [(a, fix(k, f)) for k, (a, f) in enumerate(o)]
    yield from final(o, depth, '(spit "f" "old") (def p (:new OutputPort (file/open-output* "f" :replace)))', P, '(do (try (fn (e) 1) (:close! p)) (slurp "f"))', lambda s: [s.c], pick=lambda q: n - 1 not in q[:-2])


TEXTS = [b"", b"a", b"ab\ncd\n", b"\n", b"\n\nx", b"abc\r\nd", b"\0\xff\n\0", b"0123456789ABCDEF0123\nz"]


def read_some(n):
    def f(s):
        if s.closed:
            raise Err()
        if s.eof:
            return Kw("end-of-file")
        part = s.c[s.pos:s.pos + n]
        s.pos += len(part)
        if len(part) < n:
            s.eof = True
        if n and not part:
            return Kw("end-of-file")
        return [len(part), part.ljust(n, b".")]
    return f


def read_char(s):
    if s.closed:
        raise Err()
    if s.eof or s.pos >= len(s.c):
        s.eof = True
        return Kw("end-of-file")
    s.pos += 1
    return s.c[s.pos - 1]


def read_line(s):
    if s.closed:
        raise Err()
    out = b""
    while True:
        c = read_char(s)
        if isinstance(c, Kw):
            return [len(out), out] if out else None
        if c == 10:
            return [len(out), out]
        out += bytes([c])


def seek(n):
    def f(s):
        if s.closed:
            raise Err()
        if n < 0:
            raise Err()
        s.pos, s.eof = n, False
        return OK
    return f


def in_ports(depth, texts):
    rd = "(let* (def b (buffer/allocate %d)) (dotimes (i %d) (set! b i 46)) (def n (:block-read p b %d)) (if (int? n) (list n (buffer->string b %d)) n))"
    o = [(rd % (n, n, n, n), read_some(n)) for n in (0, 1, 3, 17)] + [
        ("(:char-read p)", read_char),
        ("(let* (def b (buffer/allocate 2)) (def n (read-line/raw p b)) (and n (list n (buffer->string b n))))", read_line),
        ("(:position p)", lambda s: bad(s) if s.closed else s.pos),
        (ok("(:position! p 0)"), seek(0)), (ok("(:position! p 2)"), seek(2)), (ok("(:position! p 100)"), seek(100)), (attempt(ok("(:position! p -1)")), bad),
        (attempt("(:block-read p (buffer/allocate 2) 3)"), lambda s: bad(s) if s.closed or not s.eof else Kw("end-of-file")),
        (attempt("(:block-read p \"ab\" 1)"), lambda s: bad(s) if s.closed or not s.eof else Kw("end-of-file")),
        (ok("(:close! p)"), lambda s: bad(s) if s.closed else (setattr(s, "closed", True), OK)[1]),
    ]
    n = len(o)
    for t in texts:
        yield from final(o, depth, '(spit "g" #m%s) (def p (:new InputPort (file/open-input* "g")))' % t.hex().upper() if t else '(spit "g" "") (def p (:new InputPort (file/open-input* "g")))', lambda: P(t), '(do (try (fn (e) 1) (:close! p)) :closed)', lambda s: [Kw("closed")], pick=lambda q: n - 1 not in q[:-2])


def kinds():
    for w in WRONG:
        p = '(:new StringOutputPort)'
        yield "(let* (def p (:new StringOutputPort)) (:block-write p \"ab\") (def r %s) (list r (:return-string p)))" % attempt(ok(w % "p")), canon([[Kw("err")], b"abk" if '"k"' in w else b"ab"])
    yield "(let* (def p (:new StringOutputPort)) (def h (with-string-port q (:block-write p \"in p\") (:block-write q \"in q\") (:block-write q (with-string-port q (:block-write q \"deeper\"))))) (list h (:return-string p)))", canon([b"in qdeeper", b"in p"])
    yield "(list (= (:file-handle stdout) stdout*) (= (:file-handle stderr) stderr*) (= (:file-handle stdin) stdin*))", canon([True] * 3)
    yield "(let* (def p (:new StringOutputPort)) (def seen #nil) (def q (tree/new :block-write (fn (self b n) (set! seen (cons (:cut b 0 (or n (:length b))) seen)) n) :char-write (fn (self c) (set! seen (cons c seen)) c))) (display \"ab\" q) (print 5 q) (not (not seen)))", canon(True)
    for v in ("1", "1.5", "#t", "#nil", '"s"', ":k", "'sym", "(list 1 2)", "(array/new 1 \"a\")", "(tree/new :a 1)", "#m0102", "'(1 . 2)", "''x"):
        yield "(let* (def v %s) (def p (:new StringOutputPort)) (write v p) (def q (:new StringOutputPort)) (display v q) (list (= (:return-string p) (string/write v)) (= (:return-string q) (string/display v)) (= (cat v) (string/display v)) (do (spit \"h\" \"\") (def o (:new OutputPort (file/open-output* \"h\" :replace))) (write v o) (display v o) (:close! o) (= (slurp \"h\") (cat (string/write v) (string/display v))))))" % v, canon([True] * 4)


def main():
    ck = Check("C15", "model_checking")
    t = ck.thorough
    ck.cases("sequences on string ports", strings(4 if t else 3), variant="plain")
    ck.cases("sequences on output ports", out_ports(4 if t else 3), variant="plain")
    ck.cases("sequences on input ports", in_ports(4 if t else 3, TEXTS if t else TEXTS[2:3]), variant="plain")
    ck.cases("contents of input ports", in_ports(2, TEXTS))
    ck.cases("sizes", sizes(t))
    ck.cases("kinds of arguments", kinds())
    ck.assumptions += ["the capacity of a string port's buffer, to which its position is limited, is at least 16"]
    ck.finish()


main()
