"""Reference reader: what a text means as Nujel data, as canonical values.
Written from the documented syntax, one function per kind of literal."""
from nv import *
import struct

MAXSYM = 93
MAXDEPTH = 4096
SPACE = b" \t\n\v\f\r"
NONSYM = b"()[]{}#'\"`;"
CLOSING = b")]}"
ESC = {ord("0"): 0, ord("a"): 7, ord("b"): 8, ord("t"): 9, ord("n"): 10, ord("v"): 11, ord("f"): 12, ord("r"): 13, ord("e"): 27, ord('"'): 34, ord("\\"): 92}


class ReadError(Exception):
    pass


class Unmatched(ReadError):
    pass


class TypeErr(ReadError):
    pass


COMMENT = object()


class L(list):
    """a list that may end in something else"""
    tail = None
    dotted = False


def text(v):
    """canonical text"""
    if v.__class__ is str:
        return v
    if isinstance(v, L):
        if not v:
            return "nil"
        s = "(" + " ".join(map(text, v))
        t = v.tail
        if v.dotted and t is not None:
            # a list after the dot continues the list
            if isinstance(t, L):
                if t:
                    s += " " + text(t)[1:-1]
            elif t != "nil":
                s += " . " + text(t)
        return s + ")"
    if isinstance(v, tuple):
        if v[0] == "arr":
            return "#[" + " ".join(map(text, v[1])) + "]"
        if v[0] == "tree":
            return "{" + " ".join(sorted(k + "=" + text(x) for k, x in v[1].items())) + "}"
    raise TypeError(v)


class Reader:
    def __init__(self, data):
        self.d = data + b"\0\0"
        self.n = len(data)
        self.p = 0
        self.depth = 0

    def skip_space(self):
        d, n = self.d, self.n
        while self.p < n and d[self.p] in SPACE:
            self.p += 1

    def line(self):
        while self.p < self.n and self.d[self.p] != 10:
            self.p += 1

    def elements(self, root, term):
        out = L()
        d = self.d
        while True:
            self.skip_space()
            c = d[self.p]
            if self.p >= self.n or c == 0:
                if not root:
                    raise Unmatched()
                self.p += 1
                return out
            if c == 59:
                self.line()
                continue
            if c == term:
                if root:
                    raise ReadError()
                self.p += 1
                return out
            if c in CLOSING:
                raise ReadError()
            if c == 46 and (d[self.p + 1] in SPACE or d[self.p + 1] in NONSYM):
                if not out or out.dotted:
                    raise ReadError()
                self.p += 1
                out.tail = self.datum()
                out.dotted = True
                continue
            v = self.value()
            if v is COMMENT:
                continue
            if out.dotted:
                raise ReadError()
            out.append(v)

    def lst(self, root, term):
        r = self.elements(root, term)
        if not r:
            r = L(["nil"])
        return r

    def datum(self):
        d = self.d
        while True:
            self.skip_space()
            c = d[self.p]
            if self.p >= self.n or c == 0 or c in CLOSING:
                raise ReadError()
            if c == 46 and (d[self.p + 1] in SPACE or d[self.p + 1] in NONSYM):
                raise ReadError()
            v = self.value()
            if v is not COMMENT:
                return v

    def quote(self, name):
        return L(["y" + name, self.datum()])

    def value(self):
        if self.depth >= MAXDEPTH:
            raise ReadError()
        self.depth += 1
        v = self.raw()
        self.depth -= 1
        return v

    def raw(self):
        d = self.d
        if self.p >= self.n:
            return "nil"
        c = d[self.p]
        if c == 0:
            return "nil"
        if c == 40:
            self.p += 1
            return self.lst(False, 41)
        if c == 91:
            self.p += 1
            return self.cons("yarray/new", self.elements(False, 93))
        if c == 123:
            self.p += 1
            return self.cons("ytree/new", self.lst(False, 125))
        if c == 126:
            self.p += 1
            if d[self.p] == 64:
                self.p += 1
                return self.quote("unquote-splicing")
            return self.quote("unquote")
        if c == 96:
            self.p += 1
            return self.quote("quasiquote")
        if c == 39:
            self.p += 1
            return self.quote("quote")
        if c == 34:
            self.p += 1
            return self.string()
        if c == 35:
            self.p += 1
            if self.p >= self.n:
                raise ReadError()
            if d[self.p] == 59:
                self.p += 1
                if self.p < self.n and d[self.p] == 40:
                    self.p += 1
                    self.lst(False, 41)
                else:
                    self.datum()
                return COMMENT
            return self.special()
        if c == 59:
            self.line()
            return COMMENT
        if 48 <= c <= 57 or c == 45 and 48 <= d[self.p + 1] <= 57:
            return self.number(10, 18)
        return self.symbol(None)

    def cons(self, head, l):
        r = L([head] + list(l))
        r.tail, r.dotted = l.tail, l.dotted
        return r

    def string(self):
        out = bytearray()
        d = self.d
        while self.p < self.n:
            c = d[self.p]
            self.p += 1
            if c == 92:
                e = ESC.get(d[self.p])
                if e is None:
                    raise ReadError()
                self.p += 1
                out.append(e)
            elif c == 34:
                return "s" + out.hex()
            elif c == 0:
                raise ReadError()
            else:
                out.append(c)
        raise ReadError()

    def special(self):
        d = self.d
        c = chr(d[self.p])
        self.p += 1
        if c == "|":
            self.block()
            self.skip_space()
            return COMMENT
        if c == "!":
            self.line()
            return COMMENT
        if c == "\\":
            return self.char()
        if c == "m":
            return self.buffer()
        if c in "xdob":
            return self.number(*{"x": (16, 16), "d": (10, 18), "o": (8, 21), "b": (2, 64)}[c])
        if c == "n":
            self.advance()
            return "nil"
        if c == "t":
            return "t"
        if c == "f":
            return "f"
        if c == "#" or c == "@":
            if d[self.p] != 40:
                raise ReadError()
            self.p += 1
            e = self.elements(False, 41)
            if c == "#":
                return ("arr", list(e))
            return self.tree(e)
        raise ReadError()

    def tree(self, e):
        items = list(e)
        # values are taken from the pairs of the list; what follows a dot is a value or another list
        if e.dotted and isinstance(e.tail, L):
            items += list(e.tail)
            assert not e.tail.dotted or True
        t = {}
        for i in range(0, len(items), 2):
            k = items[i]
            if isinstance(k, str) and k == "nil":
                break
            if not (isinstance(k, str) and k[0] in "yk"):
                raise TypeErr()
            t[k[1:]] = items[i + 1] if i + 1 < len(items) else "nil"
        return ("tree", t)

    def block(self):
        end = self.n - 1
        depth = 1
        while self.p < end:
            two = self.d[self.p:self.p + 2]
            if two == b"#|":
                self.p += 2
                depth += 1
            elif two == b"|#":
                self.p += 2
                depth -= 1
                if depth == 0:
                    return
            else:
                self.p += 1
        self.p = self.n

    def advance(self):
        d = self.d
        while self.p < self.n and d[self.p] not in SPACE and d[self.p] not in NONSYM and d[self.p] != 58:
            self.p += 1

    def char(self):
        if self.p >= self.n:
            raise ReadError()
        two = self.d[self.p:self.p + 2]
        r = {b"Ba": 8, b"Ta": 9, b"Li": 10, b"Re": 13, b"lf": 10, b"cr": 13}.get(two, two[0])
        self.p += 1
        self.advance()
        return "i%d" % r

    def buffer(self):
        d = self.d
        out = bytearray()
        hexd = b"0123456789ABCDEF"
        while self.p < self.n:
            c = d[self.p]
            if c in SPACE or c in NONSYM:
                break
            h = hexd.find(c)
            if h < 0:
                raise ReadError()
            self.p += 1
            if self.p >= self.n:
                raise ReadError()
            l = hexd.find(d[self.p])
            self.p += 1
            if l < 0:
                raise ReadError()
            out.append(h * 16 + l)
        self.skip_space()
        return "b" + out.hex()

    def digits(self, base, limit):
        d = self.d
        v, n = 0, 0
        while self.p < self.n:
            c = d[self.p]
            if c <= 32 or c in NONSYM or c == 46:
                break
            ch = chr(c).lower() if c < 128 else "?"
            k = "0123456789abcdefghijklmnopqrstuvwxyz".find(ch)
            if 0 <= k < base:
                n += 1
                v = v * base + k
                if n > limit or v >= 1 << 64:
                    raise ReadError()
            elif ch not in "_,":
                raise ReadError()
            self.p += 1
        return v, n

    def number(self, base, limit):
        d = self.d
        neg = d[self.p] == 45
        if neg:
            self.p += 1
        v, _ = self.digits(base, limit)
        if d[self.p] == 46:
            self.p += 1
            zeros = 0
            while d[self.p] == 48:
                self.p += 1
                zeros += 1
            m, k = self.digits(base, limit)
            if d[self.p] == 46:
                raise ReadError()
            if base == 10:
                x = float("%d.%s" % (v, str(m).zfill(zeros + k)))
            else:
                x = float(v) + (float(m) / float(base) ** (zeros + k) if zeros + k < 250 else 0.0 if base == 16 or m == 0 else float(m) * 2.0 ** -(zeros + k) if base == 2 and zeros + k < 1024 else float(m) * 8.0 ** -(zeros + k) if base == 8 and zeros + k < 341 else 0.0)
            return c_float(-x if neg else x)
        return c_int(-v if neg else v)

    def symbol(self, ref):
        d = self.d
        keyword = ref is not None
        buf = bytearray()
        while True:
            c = d[self.p]
            self.p += 1
            if c == 58:
                if keyword:
                    raise ReadError()
                keyword = True
                if buf:
                    cc = d[self.p]
                    if not (cc == 0 or cc in SPACE or cc in NONSYM):
                        raise ReadError()
                    break
            if c == 46:
                if not buf:
                    raise ReadError()
                if self.depth >= MAXDEPTH:
                    raise ReadError()
                self.depth += 1
                r = self.symbol(self.finish(buf, keyword, ref))
                self.depth -= 1
                return r
            if c == 0 or c in SPACE or c in NONSYM:
                self.p -= 1
                break
            if len(buf) >= MAXSYM:
                raise ReadError()
            buf.append(c)
        return self.finish(buf, keyword, ref)

    def finish(self, buf, keyword, ref):
        while self.d[self.p] in SPACE:
            self.p += 1
        if not buf:
            raise ReadError()
        name = buf.decode("utf8", "surrogateescape")
        if name.endswith(":"):
            name = name[:-1]
        if name.startswith(":"):
            name = name[1:]
        r = ("k" if keyword else "y") + name
        return r if ref is None else L(["yref", ref, r])


def read(data, render=True):
    """canonical text of what reading data yields, or of the error"""
    r = Reader(data)
    try:
        v = r.lst(True, 41)
    except Unmatched:
        return "!kunmatched-opening-bracket"
    except TypeErr:
        return "!ktype-error"
    except ReadError:
        return "!kread-error"
    return text(v) if render else "ok"
