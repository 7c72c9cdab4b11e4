"""Programs and what surrounds them: arguments, environment, standard input and
output and the status they end with, for every value of a bounded space, each in
a process of its own."""
from common import *
import itertools, shutil, tempfile

PROG = '''(def digits "0123456789abcdef")
(defn hex (s) (def r (:new StringOutputPort)) (def n (:length s)) (def i 0)
  (while (< i n) (def c (ref s i)) (:char-write r (ref digits (bit-shift-right c 4))) (:char-write r (ref digits (bit-and c 15))) (set! i (+ i 1))) (:return-string r))
(defn line () (def l (read-line)) (when l (println (hex l)) (line)))
(defn main (args) :export
  (case (:keyword (car args))
    (:args (doseq (a (cdr args)) (println (hex a))))
    (:env (doseq (a (cdr args)) (def v (ref System/Environment (:symbol a))) (println (if (= v #nil) "-" (hex v)))) (println (:length (:keys System/Environment))))
    (:exit (print "before") (exit (car (read (cadr args)))) (print "after"))
    (:status (car (read (cadr args))))
    (:throw (print "before") (throw (car (read (cadr args)))))
    (:lines (line) (println "end") (println (= (read-line) #nil)))
    (:chars (def c (:char-read stdin)) (while (not= c :end-of-file) (print (fmt "{:02x}" c)) (set! c (:char-read stdin))) (println "") (println (string/write (:char-read stdin))))
    (:blocks (def k (car (read (cadr args)))) (def b (buffer/allocate k)) (def n (:block-read stdin b k))
             (while (not= n :end-of-file) (println (hex (:cut (buffer->string b) 0 n))) (set! n (:block-read stdin b k))) (println "end"))
    (:mixed (println (hex (or (read-line) "-"))) (println (string/write (:char-read stdin))) (def b (buffer/allocate 3)) (println (string/write (:block-read stdin b 3))) (println (hex (or (read-line) "-"))))
    (:echo (def b (buffer/allocate 1000)) (def n (:block-read stdin b 1000)) (while (not= n :end-of-file) (:block-write stdout b n) (set! n (:block-read stdin b 1000))))
    (:out (println "to stdout") (:block-write stderr "to stderr" 9) (println (string/write (try (fn (e) (car e)) (:block-write stdout "x" 1) :ok))))
    (:socket (def h (socket/connect (cadr args) (car (read (caddr args)))))
             (def n (car (read (cadddr args))))
             (if (not h) (println "none")
                 (do (def b (buffer/allocate n)) (def i 0) (while (< i n) (set! b i (rem i 251)) (set! i (+ i 1)))
                     (file/write* h b n) (file/flush* h)
                     (def c (buffer/allocate n)) (def got (file/read* h c n))
                     (def bad 0) (def i 0) (while (< i got) (when (not= (ref c i) (bit-and 255 (+ 1 (ref b i)))) (set! bad (+ bad 1))) (set! i (+ i 1)))
                     (println (string/write (list got bad (file/read* h c (min n 1)) (file/eof*? h))))
                     (file/close* h) (println (string/write (try (fn (e) (car e)) (file/read* h c 1)))))))
    (:nosocket (def l #nil) (def h #t) (while h (set! h (file/open-input* "p.nuj")) (when h (set! l (cons h l))))
             (println (string/write (socket/connect (cadr args) (car (read (caddr args))))))
             (doseq (c l) (file/close* c))
             (println (string/write (:type-name (socket/connect (cadr args) (car (read (caddr args))))))))
    (:ports (doseq (p (cddr args)) (println (string/write (try (fn (e) :err) (socket/connect (cadr args) (car (read p))))))))
    (otherwise (exit 99))))
'''


MAKE = '''(def digits "0123456789abcdef")
(defn hex (s) (def r (:new StringOutputPort)) (def n (:length s)) (def i 0)
  (while (< i n) (def c (ref s i)) (:char-write r (ref digits (bit-shift-right c 4))) (:char-write r (ref digits (bit-and c 15))) (set! i (+ i 1))) (:return-string r))
(defn main (args) :export
  (def state (list 1 2 3))
  (defn tell (args k) (doseq (a (cdr args)) (println (hex a))) (println k) (println (ref System/Environment 'FOO)) (println (read-line)) (:block-write stderr "to stderr" 9))
  (spit "args.img" (image/serialize (let ((k 42)) (fn args (tell args k) 0))))
  (spit "closure.img" (image/serialize (let ((k 41)) (fn args (set! k (+ k 1)) (tell args k) (println (string/write state)) #nil))))
  (spit "fail.img" (image/serialize (fn args (println "before") (throw (list :failed 1)))))
  (spit "exit.img" (image/serialize (fn args (println "before") (exit 7)))))
'''


def server():
    """answers each connection with its bytes plus one"""
    import socket, threading
    srv = socket.create_server(("127.0.0.1", 0), backlog=64)
    port = srv.getsockname()[1]

    def talk(c):
        try:
            while True:
                d = c.recv(70000)
                if not d:
                    break
                c.sendall(bytes((x + 1) & 255 for x in d))
        except OSError:
            pass
        c.close()

    def accept():
        while True:
            try:
                c, _ = srv.accept()
            except OSError:
                return
            threading.Thread(target=talk, args=(c,), daemon=True).start()
    threading.Thread(target=accept, daemon=True).start()
    return srv, port


def job(binary, args, want, **kw):
    """want: function of (status, stdout, stderr) -> bool"""
    wd = tempfile.mkdtemp(prefix="nujel-c28-")
    try:
        open(os.path.join(wd, "p.nuj"), "w").write(PROG)
        st, out, err = launch(binary, args, wd, **kw)
        return want(st, out, err), getattr(want, "text", want.__doc__), (st, (out or b"")[-400:], err[-200:])
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def expects(status, out):
    def f(st, o, e):
        return st == status and o == out
    f.text = (status, out[-400:])
    return f


def hexlines(l):
    return b"".join(x.hex().encode() + b"\r\n" for x in l)


ATOMS = [b"", b"a", b"-", b"--", b"-x", b"-m", b"--base", b" ", b"a b", b"\n", b"\xff", b"(", b'"', b"\\", "ü".encode(), b"-h", b"-r", b"x.nuj", b"#nil", b"0"]


def arg_items(thorough):
    for n in range(0, 3 if not thorough else 4):
        for t in itertools.product(ATOMS[:20 if n < 2 else 12], repeat=n):
            yield list(t)
    yield [bytes(range(1, 128)), bytes(range(128, 256))]
    for n in (3, 10, 100, 254, 255, 256, 257, 1000, 5000):
        yield [b"%d" % i for i in range(n)]
    for n in (91, 92, 93, 94, 127, 128, 129, 255, 256, 4095, 4096, 100000):
        yield [b"x" * n, b"y"]


def env_items():
    base = {b"A": b"1", b"EMPTY": b"", b"EQ": b"a=b=c", b"UML": "ü".encode(), b"PATH": b"/bin", b"with space": b" x ", b"lower": b"l", b"NL": b"a\nb", b"NUM1": b"123", b"BYTES": bytes(range(1, 256)), b"nil": b"x", b"car": b"y"}
    yield base
    yield {}
    for n in list(range(1, 60)) + [92, 93, 100]:
        if n <= 93:
            yield {b"K" * n: b"v", b"L": b"w"}
    # every short value (and name) over what could be mistaken for a separator
    al = [b"=", b"a", b" ", b"\n", b"\\0", b"\"", b"\xff"]
    vs = [b"".join(t) for k in range(0, 4) for t in itertools.product(al, repeat=k)]
    yield {b"V%d" % i: v for i, v in enumerate(vs)}
    for v in vs[:8] + [b"==", b"=a=", b"a=="]:
        yield {b"V": v}
    yield {(b"N" + v.replace(b"=", b"-")) or b"N": b"v%d" % i for i, v in enumerate(vs)}
    for n in (0, 1, 100, 4095, 4096, 4097, 100000):
        yield {b"V": b"v" * n, b"W": b"w"}
    for n in (2, 10, 100, 1000, 3000):
        yield {b"K%d" % i: b"v%d" % i for i in range(n)}


def texts(thorough):
    for n in range(0, 5 if not thorough else 7):
        for t in itertools.product([b"a", b"\n", b"\r", b"\0"], repeat=n):
            yield b"".join(t)
    for n in (1, 126, 127, 128, 129, 255, 256, 257, 383, 384, 385, 4095, 4096, 4097, 10000):
        yield b"x" * n
        yield b"x" * n + b"\n"
        yield b"x" * n + b"\ny"
        yield b"y\n" + b"x" * n + b"\n\n" + b"z" * n
    yield bytes(range(256))
    yield bytes(range(255, -1, -1))


def lines_of(t):
    l = t.split(b"\n")
    if not l[-1]:
        l.pop()
    return l


if __name__ == "__main__":
    ck = Check("C28", "model_checking")
    B = ck.tree.binary("plain")
    base = {"PATH": "/bin:/usr/bin"}
    ck.each("arguments", arg_items(ck.thorough), lambda a: job(B, [b"p.nuj", b"args"] + a, expects(0, hexlines(a))))

    def env(e):
        keys = list(e) + [b"MISSING"]
        out = hexlines([e[k] for k in e]) + b"-\r\n"
        full = dict(e)
        full.setdefault(b"ASAN_OPTIONS", b"x")
        return job(B, [b"p.nuj", b"env"] + keys, expects(0, out + b"%d\r\n" % len(full)), env=full)
    # (whatever the launcher adds is counted)
    ck.each("environment", env_items(), env)

    def text(t):
        for r in (job(B, ["p.nuj", "lines"], expects(0, hexlines(lines_of(t)) + b"end\r\n#t\r\n"), stdin=t),
                  job(B, ["p.nuj", "chars"], expects(0, t.hex().encode() + b"\r\n:end-of-file\r\n"), stdin=t) if len(t) < 5000 else (True, 0, 0),
                  job(B, ["p.nuj", "echo"], expects(0, t), stdin=t)):
            if not r[0]:
                return r
        return True, 0, hash(t)
    ck.each("standard input", texts(ck.thorough), text)

    def blocks(it):
        t, k = it
        return job(B, ["p.nuj", "blocks", str(k)], expects(0, hexlines([t[i:i + k] for i in range(0, len(t), k)]) + b"end\r\n"), stdin=t)
    ck.each("blocks of standard input", [(bytes(i % 251 for i in range(n)), k) for n in (0, 1, 2, 3, 5, 8, 100, 1000) for k in (1, 2, 3, 7, 100, 999, 1000, 1001) if n // k < 200], blocks)

    def mixed(t):
        s = t
        out = []
        i = s.find(b"\n")
        if not s:
            line, s = b"-", b""
        elif i < 0:
            line, s = s, b""
        else:
            line, s = s[:i], s[i + 1:]
        out.append(line.hex().encode())
        out.append(b"%d" % s[0] if s else b":end-of-file")
        s = s[1:]
        out.append(b"%d" % min(3, len(s)) if s else b":end-of-file")
        s = s[3:]
        i = s.find(b"\n")
        out.append((b"-" if not s else s if i < 0 else s[:i]).hex().encode())
        return job(B, ["p.nuj", "mixed"], expects(0, b"\r\n".join(out) + b"\r\n"), stdin=t)
    ck.each("lines, characters and blocks mixed", [b"".join(t) for n in range(0, 8) for t in itertools.product([b"a", b"\n"], repeat=n)], mixed)

    def ends(it):
        kind, val, st, out = it
        return job(B, ["p.nuj", kind, val], expects(st, out))
    items = [("exit", str(n), n & 255, b"before") for n in list(range(0, 300)) + [-1, -2, -255, -256, 1 << 31, 1 << 32, (1 << 32) + 7]]
    items += [("exit", v, 0, b"before") for v in ("#nil", "\"1\"", "a", "#f", "(1)")] + [("exit", "1.5", 1, b"before")]
    items += [("status", v, 0, b"") for v in ("0", "1", "255", "#f", "#t", "#nil", "\"x\"", "-1")]
    ck.each("status a program exits with", items, ends)

    def throws(v):
        def f(st, o, e):
            "the program fails with status 1 after what it printed"
            return st == 1 and (o + e).startswith(b"before")
        return job(B, ["p.nuj", "throw", v], f)
    ck.each("uncaught exceptions", [":err", "1", "#nil", "(1 2)", "(:err \"text\" 5)", "\"s\"", "[1]", "{:a 1}", "#f"], throws)

    def missing(a):
        def f(st, o, e):
            "a program that can't be run is a failure"
            return st == 1
        return job(B, a, f)
    ck.each("programs that can't be run", [["missing.nuj"], ["."], ["missing/x.nuj", "a"], ["-m", ":no-such-module"], ["-m", "no-such-module", "x"]], missing)

    def stdout_gone(which):
        if which == "full":
            def f(st, o, e):
                "failing to write is an error"
                return st not in (0, "HANG") and st > 0
            with open("/dev/full", "wb") as full:
                return job(B, ["p.nuj", "args", "x"], f, stdout=full)

        def g(st, o, e):
            "failing to write is an error"
            return st == 1 and o == b""
        return job(B, ["p.nuj", "args", "x"], g, closed=(1,))
    ck.each("nowhere to write to", ["full", "closed"], stdout_gone)

    def image(it):
        wd = tempfile.mkdtemp(prefix="nujel-c28-")
        try:
            name, data, want = it
            if data is not None:
                open(os.path.join(wd, "x.img"), "wb").write(data)
            args = {"none": ["--base-image"], "two": ["--base-image", "x.img", "--base-image", "x.img"], "dir": ["--base-image", "."]}.get(name, ["--base-image", "x.img", "p.nuj", "args", "q"])
            st, out, err = launch(B, args, wd)
            return st == want, want, (st, out[-200:], err[-200:])
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    ck.each("images that can't be used", [("none", None, 125), ("dir", None, 131), ("missing", None, 131), ("empty", b"", 131), ("short", b"Nuj", 131), ("magic", b"NujI", 131), ("wrong", b"Xuj!aaaaaaaaaaaaa", 131), ("text", b"(println 1)" * 100, 131)], image)
    # an image that starts a program: made once, by the interpreter itself
    mkd = tempfile.mkdtemp(prefix="nujel-c28-")
    open(os.path.join(mkd, "mk.nuj"), "w").write(MAKE)
    made = launch(B, ["mk.nuj"], mkd)
    images = {n: open(os.path.join(mkd, n), "rb").read() for n in os.listdir(mkd) if n.endswith(".img")}
    shutil.rmtree(mkd, ignore_errors=True)
    if len(images) != 4:
        raise SystemExit("the images can't be made: %r" % (made,))

    def program(it):
        name, before, after = it
        wd = tempfile.mkdtemp(prefix="nujel-c28-")
        try:
            open(os.path.join(wd, name), "wb").write(images[name])
            env = {"FOO": "bar", "PATH": "/bin"}
            st, out, err = launch(B, before + ["--base-image", name] + after, wd, env=env, stdin=b"typed\n")
            if name == "fail.img":
                want = (1, b"before\r\n", b"")
                got = (st, out[:8], b"")
            elif name == "exit.img":
                want, got = (7, b"before\r\n", b""), (st, out, err)
            else:
                a = [x.encode() for x in before + after]
                want = (0, hexlines(a) + b"42\r\nbar\r\ntyped\r\n" + (b"(1 2 3)\r\n" if name == "closure.img" else b""), b"to stderr")
                got = (st, out, err)
            return got == want, want, got
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    some = ["", "a", "-x", "--base", "--base-imagex", "b c", "p.nuj", "\u00fc", "--"]
    few = [[]] + [[a] for a in some] + [[a, b] for a in some[:4] for b in some[:4]] + [["a"] * 50]
    ck.each("images that start a program", [("args.img", b, a) for b in few for a in few if len(b) + len(a) < 4 or ck.thorough] + [(n, b, a) for n in ("closure.img", "fail.img", "exit.img") for b in few[:3] for a in few[:3]], program)

    def interleaved(n):
        def f(st, o, e):
            "the output in the order it was written in"
            return st == 0 and o == b"".join(b"o%d\r\ne%d." % (i, i) + (b"n%de%d." % (i, i) if i % 2 else b"") for i in range(n)) + b"last"
        wd = tempfile.mkdtemp(prefix="nujel-c28-")
        try:
            open(os.path.join(wd, "p.nuj"), "w").write('(defn main (args) :export (dotimes (i %d) (println (cat "o" i)) (def s (cat "e" i ".")) (:block-write stderr s (:length s)) (when (odd? i) (print (cat "n" i)) (:block-write stderr s (:length s)))) (print "last") (exit 0))' % n)
            st, out, err = launch("/bin/sh", ["-c", 'exec "$0" "$@" 2>&1', B, "p.nuj"], wd)
            return f(st, out, err), f.__doc__, (st, out[-300:], err)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    ck.each("both outputs to one place", [0, 1, 2, 3, 10, 100, 1000], interleaved)
    srv, port = server()

    def sock2(n):
        # the server never closes first: reading one more would wait, so ask only for what comes back
        wd = tempfile.mkdtemp(prefix="nujel-c28-")
        try:
            open(os.path.join(wd, "p.nuj"), "w").write(PROG.replace("(file/read* h c (min n 1)) ", ""))
            st, out, err = launch(B, ["p.nuj", "socket", "127.0.0.1", str(port), str(n)], wd)
            want = b"(%d 0 #f)\r\n:io-error\r\n" % n
            return (st, out) == (0, want), (0, want), (st, out[-300:])
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    ck.each("bytes through a socket", list(range(0, 20)) + [255, 256, 4095, 4096, 4097, 8192, 20000, 65535, 65536], sock2)
    ck.each("no handle for a socket", list(range(8, 20)), lambda n: job(B, ["p.nuj", "nosocket", "127.0.0.1", str(port)], expects(0, b"#nil\r\n:file-handle\r\n"), nofile=n))
    import socket
    with socket.socket() as unused:
        unused.bind(("127.0.0.1", 0))
        free = unused.getsockname()[1]
        ck.each("addresses nobody listens at", ["127.0.0.1", "127.0.0.2"], lambda h: job(B, ["p.nuj", "ports", h, str(free), "-1", "65536", "4294967376", "#nil", '"80"'], expects(0, b"#nil\r\n:err\r\n:err\r\n:err\r\n:err\r\n:err\r\n")))
    srv.close()
    listening = []
    for n in (1, 2, 127, 128, 255, 256, 257, 1023, 1024, 4095, 32767, 32768, 65279, 65280, 65533, 65534, 65535):
        try:
            listening.append((n, socket.create_server(("127.0.0.1", n), backlog=8)))
        except OSError:     # somebody else has it
            pass
    ck.each("every width of a port", [n for n, _ in listening], lambda n: job(B, ["p.nuj", "ports", "127.0.0.1", str(n)], lambda st, o, e: st == 0 and re.fullmatch(rb"[^:()]*file-handle[^:()]*\r\n|#<.*>\r\n", o) is not None))
    for _, s in listening:
        s.close()
    ck.assumptions = ["names of environment variables have up to 93 bytes, as symbols do"]
    ck.finish()
