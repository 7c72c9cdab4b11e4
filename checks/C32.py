"""Interactive sessions and -x expressions: every sequence of lines up to a length,
typed at both read-eval-print loops, against a model of a session."""
from common import *
import itertools, shutil, tempfile
from refreader import Reader, ReadError, Unmatched

CRLF = b"\r\n"


class Error(Exception):
    pass


class Exit(Exception):
    pass


class Session:
    """what a session knows, and what evaluating forms in it prints"""

    def __init__(self):
        self.env = {}
        self.out = b""

    def look(self, name):
        if name not in self.env:
            raise Error("unbound-variable")
        return self.env[name]

    def plus(self, a, b):
        a, b = 0 if a is None else a, 0 if b is None else b
        if not isinstance(a, int) or not isinstance(b, int):
            raise Error("type-error")
        return a + b

    def ev(self, x):
        if isinstance(x, str):
            if x == "nil":
                return None
            if x[0] == "i":
                return int(x[1:])
            if x[0] == "y":
                return self.look(x[1:])
            return ("kw", x[1:]) if x[0] == "k" else bytes.fromhex(x[1:])
        h, a = x[0][1:], x[1:]
        if h == "+":
            acc = self.ev(a[0]) if a else 0
            if len(a) == 1:
                return self.plus(acc, 0)
            for y in a[1:]:
                acc = self.plus(acc, self.ev(y))
            return acc
        if h == "def":
            self.env[a[0][1:]] = v = self.ev(a[1])
            return v
        if h == "defn":
            self.env[a[0][1:]] = v = ("fn", a[1:])
            return v
        if h == "set!":
            v = self.ev(a[1])
            if a[0][1:] not in self.env:
                raise Error(None)
            self.env[a[0][1:]] = v
            return v
        args = [self.ev(y) for y in a]
        if h == "throw":
            raise Error(args[0][1])
        if h == "print":
            self.out += args[0] if isinstance(args[0], bytes) else b"%d" % args[0]
            return None
        if h == "exit":
            raise Exit(args[0])
        if h == "array/new":
            return ("array", args)
        assert h == "f", x
        f = self.look(h)
        return self.plus(args[0], self.look("a")) if f[0] == "fn" else None

    def run(self, forms):
        r = None
        for i, f in enumerate(forms):
            # (a variable whose value nobody wants isn't looked up)
            if i == len(forms) - 1 or not isinstance(f, str):
                r = self.ev(f)
        return r


def shown(v):
    """None where the text isn't promised"""
    if v is None:
        return b""
    if isinstance(v, int):
        return b"%d" % v
    if isinstance(v, bytes):
        return v
    return b":" + v[1].encode() if v[0] == "kw" else None


class Repl(Session):
    def __init__(self, tiny):
        super().__init__()
        self.tiny = tiny
        if not tiny:
            self.env = {"*1": None, "*2": None, "*3": None}
        self.env["cmd"] = ("fn",)
        self.exp = [b"Nujel TinyREPL is ready for service!\r\n"] if tiny else [b"welcome"]

    def error(self, kind):
        self.exp.append(("error", kind))

    def evaluate(self, forms):
        self.out = b""
        try:
            v = self.run(forms)
        except Error as e:
            self.exp.append(self.out)
            return self.error(e.args[0])
        except Exit:
            self.exp.append(self.out)
            raise
        self.exp.append(self.out)
        if not self.tiny:
            self.env["*3"], self.env["*2"], self.env["*1"] = self.env["*2"], self.env["*1"], v
        t = shown(v)
        self.exp.append(("line", None) if t is None else t + CRLF)

    def read(self, text):
        return Reader(text).lst(True, 41)

    def session(self, lines):
        """-> status, expected output"""
        it = iter(lines)
        try:
            while True:
                self.exp.append(b"> ")
                line = next(it, None)
                if line is None:
                    self.exp.append(b"Adios, cowboy...\r\n")
                    return 0, self.exp
                if line.strip() == b"[cmd]":
                    self.block(it)
                else:
                    self.typed(line, it)
        except Exit as e:
            return e.args[0] & 255, self.exp

    def typed(self, text, it):
        while True:
            try:
                forms = self.read(text)
            except Unmatched:
                self.exp.append(b"... ")
                more = next(it, None)
                if more is None:
                    return self.error("unmatched-opening-bracket")
                text += b"\n" + more
                continue
            except ReadError:
                return self.error("read-error")
            if list(forms) in ([], ["nil"]):
                return self.exp.append(b"\r")
            return self.evaluate(forms)

    def block(self, it):
        text = b""
        while True:
            line = next(it, None)
            if line is None:
                return self.error(None)
            if line.strip() == b"[/cmd]":
                break
            text += line + b"\n"
        try:
            forms = self.read(text)
        except Unmatched:
            return self.error("unmatched-opening-bracket")
        except ReadError:
            return self.error("read-error")
        self.evaluate(forms)


def match(exp, out):
    """None, or where the output is another one than expected"""
    p = 0
    for i, e in enumerate(exp):
        if e == b"welcome":
            q = out.find(b" REPL is ready for service!\r\n")
            if q < 0:
                return i, e, out[:80]
            p = q + 29
        elif isinstance(e, bytes):
            if not out.startswith(e, p):
                return i, e, out[p:p + 200]
            p += len(e)
        elif e[0] == "line":
            q = out.find(b"\n", p)
            if q < 0:
                return i, e, out[p:p + 200]
            p = q + 1
        else:
            m = re.compile(rb":%s\r\n" % (re.escape(e[1].encode()) if e[1] else rb"[a-z-]+")).match(out, p)
            if not m:
                return i, e, out[p:p + 200]
            p = m.end()
            while p < len(out) and not out.startswith((b"> ", b"... "), p):
                q = out.find(b"\n", p)
                p = len(out) if q < 0 else q + 1
    return None if p == len(out) else (len(exp), b"", out[p:p + 200])


LINES = [b"1", b"(+ 1", b"2)", b"", b"; c", b":k \"s\"", b"(def a 7)", b"a", b"(set! a (+ a 1))", b")", b"(throw :e)", b"(throw (list :k 1))", b"\"x", b"*1", b"*2 *3", b"[cmd]", b"[/cmd]",
         b"(defn f (x) (+ x a)) 0", b"(f 1)", b"(print 5) 6", b"(exit 3)", b"(def a 1) (throw :e)", b"a a \"", b"#nil", b"(def b \"" + b"x" * 300 + b"\") b", b" [cmd] ", b"(+ 1 ; (", b"(print \"; (\")"]
# (throw (list ...)) is rewritten for the model
TOKEN = {b"(throw (list :k 1))": b"(throw :k)"}


def windows(k, n):
    """a de Bruijn sequence: every sequence of n numbers below k is in it"""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def launched(binary, args, stdin, want):
    wd = tempfile.mkdtemp(prefix="nujel-c32-")
    try:
        st, out, err = launch(binary, args, wd, stdin=stdin)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    bad = match(want[1], out) if st != "HANG" else ("HANG",)
    return st == want[0] and bad is None and not err, (want[0], [x for x in want[1]][-12:]), (st, bad, hash(out), err[-200:])


if __name__ == "__main__":
    ck = Check("C32", "model_checking")
    B = ck.tree.binary("plain")

    def typed(it):
        tiny, ls, final = it
        want = Repl(tiny).session([TOKEN.get(l, l) for l in ls])
        return launched(B, ["-r"] if tiny else [], b"\n".join(ls) + (b"\n" if final and ls else b""), want)
    both = (False, True)
    ck.each("sessions of up to two lines", [(t, ls, True) for t in both for n in range(0, 3) for ls in itertools.product(LINES, repeat=n)], typed)
    ck.each("no newline before the end of the input", [(t, ls, False) for t in both for n in range(1, 3) for ls in itertools.product(LINES, repeat=n) if ls[-1]], typed)
    core = [b"(+ 1", b"2)", b"", b"; c", b"(def a 7)", b"a", b")", b"(throw :e)", b"\"x", b"*1", b"[cmd]", b"[/cmd]"]
    ck.each("sessions of three lines", [(t, ls, True) for t in both for ls in itertools.product(core if not ck.thorough else LINES, repeat=3)], typed)
    cont = [b"(+ 1", b"2)", b"", b"; )", b"(", b")", b"\"x", b"a"]
    if ck.thorough:
        ck.each("sessions of four lines", [(t, ls, True) for t in both for ls in itertools.product(cont[:4] + core[4:], repeat=4)], typed)

    # every window of lines, from whatever state the ones before have left
    noexit = [l for l in LINES if b"exit" not in l]

    def long(lines, n, size):
        seq = windows(len(lines), n)
        for i in range(0, len(seq), size):
            yield [lines[j] for j in seq[i:i + size + n - 1]]
    ck.each("lines of long sessions", [(t, ls, True) for t in both for ls in long(noexit, 3, 150)], typed)
    ck.each("windows of long sessions", [(t, ls, True) for t in both for ls in long(core, 4 if ck.thorough else 3, 150)], typed)

    # expressions of the command line
    exprs = [b"(print 5)", b"(def a 7)", b"(print a)", b"(set! a (+ a 1))", b"(+ 1", b")", b"(throw :e)", b"", b"; c", b"(print 5) (print \"s\")", b"(print 1) (throw :e) (print 2)", b"(exit 3)", b"7", b"(def a 1) (throw :e)", b"\"x"]

    def options(es):
        s, st, exp = Session(), 0, []
        try:
            for e in es:
                try:
                    forms = Reader(e).lst(True, 41)
                except Unmatched:
                    exp.append(("error", "unmatched-opening-bracket"))
                    continue
                except ReadError:
                    exp.append(("error", "read-error"))
                    continue
                s.out = b""
                try:
                    s.run(forms)
                    exp.append(s.out)
                except Error as x:
                    exp += [s.out, ("error", x.args[0])]
                except Exit as x:
                    exp.append(s.out)
                    raise
        except Exit as x:
            st = x.args[0]
        # what follows the text of an error can't be told from it: it is looked for
        wd = tempfile.mkdtemp(prefix="nujel-c32-")
        try:
            got, out, err = launch(B, [y for e in es for y in (b"-x", e)], wd, stdin=b"(print 9)\n")
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        parts = [re.escape(e) if isinstance(e, bytes) else b":%s\r\n(?:[^\n]*\n)*?" % (re.escape(e[1].encode()) if e[1] else b"[a-z-]+") for e in exp]
        good = got == st and re.fullmatch(b"".join(parts), out) is not None and not err
        return good, (st, exp), (got, hash(out), err[-200:])
    ck.each("expressions of the command line", [es for n in range(1, 4 if not ck.thorough else 5) for es in itertools.product(exprs, repeat=n)], options)
    ck.assumptions = ["input that comes from a pipe; what an error prints besides its kind isn't compared"]
    ck.finish()
