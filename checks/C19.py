"""Reading text.  Every text over a small alphabet up to a length, every
sequence of tokens, every byte in every position of a literal, numbers around
the limits of their digits and sizes around every buffer of the reader, against
a reference reader of the documented syntax."""
from common import *
import itertools, refreader

ALPHA = b"()[]{}'\"\\#;:.-01xa~@`| \n"
SMALL = b"()[}'\"\\#;.-1a~@| \n"


def case(t):
    if isinstance(t, str):
        t = t.encode("latin1")
    return t.hex(), (lambda e: e)(refreader.read(t)).encode("utf8", "surrogateescape").decode("utf8", "surrogateescape")


def texts(alpha, n):
    for k in range(1, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield case(bytes(t))


CTX = [b"\"%s\"", b"\"\\%s\"", b"\"a\\%sb\"", b"#%s", b"#%sA", b"#\\%s", b"#\\%sx", b"#\\a%s", b"a%sb", b"a%s", b"%sa", b"1%s2", b"1%s", b"-%s1", b"1.%s5", b"1.5%s", b"(%s)", b"(1 %s 2)", b"(1 .%s2)", b"(1 . %s)", b"#m0%s", b"#m%s0", b"#m0A%s", b"#xF%s1",
       b"#b1%s", b"'%s", b"~%s", b"~@%sa", b"[%s]", b"{:a %s}", b"##(%s)", b"#@(a %s)", b";%s\n1", b"#|%s|#1", b"#;%s 2", b"#!%s\n3", b":%s", b":a%s", b"a:%s", b"a.%s", b"a.b%s", b"1 %s", b"%s 1", b"#n%s", b"#t%s", b"#nil%s", b"\\%s"]


def contexts():
    for b in range(256):
        yield case(bytes([b]))
        for c in CTX:
            yield case(c.replace(b"%s", bytes([b])))
    for a in range(256):
        for b in range(256):
            yield case(bytes([a, b]))


TOK = ["(", ")", "[", "]", "{", "}", "##(", "#@(", "'", "`", "~", "~@", "#;", "#;(", "#|", "|#", ";c\n", "#!x\n", ".", "...", "1", "-1", "1.5", "-.5", "#xFF", "#b1.1", "#\\a", "#\\Tab", "#m0AFF", "#nil", "#t", "#f", "foo", "foo:", ":foo", "a.b", "a.:b", "\"s\"", "\"\\n\"", "\\", "-", "+", "#"]
SEPS = ["", " "]


def tokens(n):
    for k in range(1, n + 1):
        toks = TOK if k < 4 else TOK[:27:2] + ["foo", ":foo", "\"s\"", "#;", "~@", "[", "]"]
        for t in itertools.product(toks, repeat=k):
            for sep in (SEPS if k < 3 else [" "]):
                yield case(sep.join(t))


def dots(n):
    """a list of elements and dots in any order"""
    for k in range(1, n + 1):
        for t in itertools.product((".", "1", "(", ")", "#;2"), repeat=k):
            yield case("(" + " ".join(t) + ")")
            if k < 6:
                yield case("[0 " + " ".join(t) + "]")


def numbers():
    body = []
    for base, prefix, limit, digs in [(10, "", 18, "0123456789"), (10, "#d", 18, "19"), (16, "#x", 16, "0178fF"), (8, "#o", 21, "0127"), (2, "#b", 64, "01")]:
        nums = [""]
        for n in list(range(1, 5)) + list(range(limit - 2, limit + 4)):
            for d in digs:
                nums.append(d * n)
                nums.append("1" + d * (n - 1))
                nums.append("0" * (n - 1) + d)
                nums.append(d * (n - 1) + digs[-1])
        nums += ["1_000", "1,000", "_1", "1_", "1__0", "-", "--1", "-_1", "+1", "1-", "1e5", "1a", "zz"]
        top = {16: "8000000000000000", 8: "1777777777777777777777", 2: "1" * 64, 10: "999999999999999999"}[base]
        nums += [top, top[:-1] + "0", top + "0", "7fffffffffffffff", "fFfFfFfFfFfFfFfF", "2000000000000000000000", "1000000000000000000000"]
        for s in ("", "-", "--"):
            for x in nums:
                body.append(prefix + s + x)
        for s in ("", "-"):
            for x in ["", "0", "1", "12", digs[-1] * limit, "1_0"]:
                for m in ["", "0", "00", "5", "1", "05", "005", "1000", digs[-1] * limit, digs[-1] * (limit + 1), "0" * 30 + "1", "0" * 400 + "1", "0" * 450 + "1", "0" * 600, "1_1", "1.", "1.1", ".", "a", "_", "0_1", "-1"]:
                    body.append(prefix + s + x + "." + m)
    seen = set()
    for b in body:
        for f in ("%s", "(%s)", "%s ", "%s 2", "%s#", "%s\"\""):
            t = f % b
            if t not in seen:
                seen.add(t)
                yield case(t)
    # all texts of digits and the characters that may occur in numbers
    for k in range(1, 6):
        for t in itertools.product("019.-_f", repeat=k):
            yield case("".join(t))
            yield case("#x" + "".join(t))
            if k < 5:
                yield case("#b" + "".join(t))
                yield case("#o" + "".join(t))
    # decimals that have to be rounded correctly
    for a in ["0", "1", "9007199254740993", "123456789012345678", "4503599627370497", "999999999999999999"]:
        for m in ["1", "2", "3", "5", "49999999999999999", "50000000000000001", "999999999999999999", "123456789012345678", "000000000000000001", "7450580596923828125"]:
            yield case(a + "." + m)
            yield case("-" + a + "." + m)


def sizes():
    for n in list(range(0, 6)) + list(range(88, 100)) + list(range(125, 132)) + [300]:
        s = "s" * n
        for f in ("%s", ":%s", "%s:", "%s.a", "a.%s", "%s.%s", ":%s.a", "a.b.%s", "(%s)", "%s:a", "%s%s"):
            yield case(f.replace("%s", s))
    for n in list(range(0, 5)) + [14, 15, 16, 30, 31, 32, 126, 127, 128, 254, 255, 256, 257, 1022, 1023, 1024] + list(range(4090, 4100)) + list(range(8187, 8196)) + [16383, 16384, 20000]:
        for tail in ("", "\\n", "\\\\\\\"", "\\x", "\0"):
            yield case("\"" + "a" * n + tail + "\"")
            yield case("\"" + "a" * n + tail)
            yield case("\"\" \"" + "\\t" * (n // 2) + "b" * (n % 2) + tail + "\" 2")
    for n in list(range(0, 5)) + list(range(252, 260)) + list(range(508, 516)) + [1023, 1024, 1025, 2047, 2048, 2049, 2050, 2176, 2177, 4095, 4096, 4097, 10000, 70000]:
        h = "".join("%02X" % (i * 7 & 255) for i in range(n))
        for tail in ("", "A", "AB", "g", " 1", "A "):
            yield case("#m" + h + tail)
            yield case("(#m" + h + tail + ")")
    for n in list(range(250, 262)) + [510, 511, 512, 513, 1000, 65535, 65536, 65537, 100000]:
        for inner in ("", "a", "|", "#"):
            t = "#|" * n + inner + "|#" * n
            yield case(t)
            yield case("1 " + t + " 2")
            for k in (1, 2, 255, 256):
                if k <= n:
                    yield case("1 " + "#|" * n + inner + "|#" * (n - k) + " 2")
    for n in (1, 2, 3, 8, 39, 1000, 4093, 4094, 4095, 4096, 4097, 4098, 5000):
        for o, c in (("(", ")"), ("[", "]"), ("{", "}"), ("'", ""), ("~", ""), ("~@", ""), ("`", ""), ("##(", ")"), ("#@(a ", ")"), ("#;", ""), ("#;(", ")"), ("(1 . ", ")"), ("a.", ""), ("#|", "|#")):
            for closed in (True, False):
                t = o * n + "1" + (c * n if closed else "")
                r = refreader.read(t.encode(), False)
                if r[0] == "!":
                    yield t.encode().hex(), r
                elif n < 30:
                    yield case(t)
                else:
                    yield t.encode().hex(), (lambda g: g[0] != "!")


if __name__ == "__main__":
    ck = Check("C19", "model_checking")
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(512 << 20)

    def main():
        r = Runner(ck.tree.binary("asan"), "read.nuj")
        ck.cases("every byte in every context", contexts(), runner=r, driver="read.nuj")
        ck.cases("texts over an alphabet", texts(ALPHA, 4 if ck.thorough else 3), runner=r, driver="read.nuj")
        ck.cases("texts over a smaller alphabet", texts(SMALL, 5 if ck.thorough else 4), runner=r, driver="read.nuj")
        ck.cases("sequences of tokens", tokens(4 if ck.thorough else 3), runner=r, driver="read.nuj")
        ck.cases("numbers", numbers(), runner=r, driver="read.nuj")
        ck.cases("dots in lists", dots(7 if ck.thorough else 6), runner=r, driver="read.nuj")
        ck.cases("sizes", sizes(), runner=r, driver="read.nuj", chunk=100)
        ck.finish()
    res = []

    def wrap():
        try:
            main()
        except SystemExit as e:
            res.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            res.append(2)
    t = threading.Thread(target=wrap)
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
