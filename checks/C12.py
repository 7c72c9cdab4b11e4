"""Symbols.  (1) Every sequence of making, holding, dropping and collecting four
symbols whose names fall into the same or adjoining slots of the hash table (at
its end, too), on the real symbol table; (2) names of every length that differ
in any one byte, every byte and every conversion; (3) every fill level of the
table, with every pattern of reclaimed symbols, and reuse afterwards."""
from common import *
import glob, itertools

M64 = (1 << 64) - 1
SYM_MAX = 1 << 14


def mix(h):
    h ^= h >> 23
    h = h * 0x2127599BF4325C37 & M64
    return h ^ h >> 47


def slot(s):
    """the slot of the table a name wants (fasthash32); only used to pick names"""
    m = 0x880355F21E6D1965
    h = 0x5B0A159D9EAC0381 ^ (len(s) * m & M64)
    n = len(s) // 8 * 8
    for i in range(0, n, 8):
        h = (h ^ mix(int.from_bytes(s[i:i + 8], "little"))) * m & M64
    if len(s) & 7:
        h = (h ^ mix(int.from_bytes(s[n:], "little"))) * m & M64
    h = mix(h)
    return ((h - (h >> 32)) & 0xFFFFFFFF) % SYM_MAX


def used_slots(repo):
    used = set()
    for f in glob.glob(repo + "/stdlib/**/*.nuj", recursive=True) + glob.glob(repo + "/lib/*.c") + glob.glob(repo + "/bin/*.c") + glob.glob(os.path.join(HERE, "drivers/*.nuj")):
        for t in set(re.findall(rb"[^\s()\[\]{}'\"`;#:.,]+", open(f, "rb").read())):
            if len(t) < 90:
                used.add(slot(t))
    return used


def clusters(repo):
    used = used_slots(repo)
    free = lambda s: not any((s + k) % SYM_MAX in used for k in range(-1, 8))
    by = {}
    wrap = {s: [] for s in range(SYM_MAX - 3, SYM_MAX)}
    tail = []
    for i in range(10 ** 6):
        n = b"zq%06d" % i
        s = slot(n)
        by.setdefault(s, [])
        if len(by[s]) < 6:
            by[s].append(n)
        if i > 150000 and len(by.get(SYM_MAX - 1, [])) >= 4:
            break
    out = []
    # all four in one slot; three and a neighbour; two pairs; spread over three slots
    for want in ([0, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 1], [0, 1, 0, 2], [1, 0, 0, 0]):
        for s in range(3, SYM_MAX - 10):
            if free(s) and all(len(by.get(s + w, [])) >= 4 for w in set(want)):
                names, k = [], {}
                for w in want:
                    k[w] = k.get(w, -1) + 1
                    names.append(by[s + w][k[w]])
                out.append(names)
                break
    # at the end of the table, whatever else is there
    e = SYM_MAX - 1
    out.append([by[e][0], by[e][1], by[e][2], by[0][0]])
    out.append([by[e - 1][0], by[e - 1][1], by[e][0], by[e][1]])
    return out


def sequences(depth):
    """sequences in which every operation does something"""
    out = []

    def rec(seq, held, garbage):
        if seq:
            out.append("".join(seq))
        if len(seq) >= depth:
            return
        for i in range(4):
            if i in held:
                rec(seq + ["d%d" % i], held - {i}, garbage | {i})
            else:
                rec(seq + ["h%d" % i], held | {i}, garbage - {i})
                if i not in garbage:
                    rec(seq + ["t%d" % i], held, garbage | {i})
        if garbage:
            rec(seq + ["g."], held, frozenset())
    rec([], frozenset(), frozenset())
    return out


def names():
    for n in list(range(1, 95)) + [127, 128, 129, 200, 255, 256]:
        s = "".join(chr(97 + (i * 7 + n) % 26) for i in range(n))
        if n > 93:
            want = [[Kw("err")]] * 3
        else:
            want = [s, s, True]
        a = lit_str(s)
        yield "(list %s %s %s)" % (attempt("(:string (:symbol %s))" % a), attempt("(:string (:keyword %s))" % a), attempt("(= (:symbol %s) (:symbol (cat %s \"\")))" % (a, a))), canon(want)
        if n > 93:
            continue
        # every name that differs in one byte is another symbol
        yield ("(let* (def s %s) (def y (:symbol s)) (def k (:keyword s)) (def b (:clone s #f)) (def bad 0) (dotimes (i %d) (set! b i (+ 1 (ref b i))) (def t (buffer->string b)) "
               "(when (or (= y (:symbol t)) (= k (:keyword t)) (not= (:string (:symbol t)) t) (= (:string y) t)) (inc! bad)) (set! b i (+ -1 (ref b i)))) "
               "(dotimes (i %d) (def t (:cut s 0 i)) (when (or (= y (:symbol t)) (not= (:string (:keyword t)) t)) (inc! bad))) (list bad (= y (:symbol s)) (= k (:keyword s)) (= (:symbol k) y) (= (:keyword y) k) (= y k)))") % (a, n, n), canon([0, True, True, True, True, False])
    for b in range(256):
        for pre, post in (("", ""), ("a", ""), ("", "a"), ("a", "b"), ("abcdefg", ""), ("abcdefgh", "i")):
            t = pre.encode() + bytes([b]) + post.encode()
            mk = "(let* (def b (:clone #m%s #f)) (buffer->string b))" % t.hex().upper()
            src = "(let* (def s %s) (list %s %s %s %s))" % (mk, attempt("(:string (:symbol s))"), attempt("(:string (:keyword s))"), attempt("(= (:keyword (:symbol s)) (:keyword s))"), attempt("(let* (def t (tree/new)) (set! t (:symbol s) 1) (list (ref t (:keyword s)) (= (car (:keys t)) (:keyword s))))"))
            yield src, canon([[Kw("err")]] * 4 if b == 0 else [t, t, True, [1, True]])
    # made in different ways they are the same symbol
    for n in ("a", "foo", "foo-bar", "+", "quote", "let", "Ünicode", "a" * 92):
        forms = ["'%s" % n, "(:symbol \"%s\")" % n, "(car (car (read \"(%s)\")))" % n, "(:symbol :%s)" % n, "(:symbol (:keyword \"%s\"))" % n, "(car '(%s))" % n, "(car (:keys {:%s 1}))" % n]
        for x, y in itertools.product(forms, forms):
            k = (forms.index(x) == 6) == (forms.index(y) == 6)
            yield "(list (= %s %s) (= (:keyword %s) (:keyword %s)) (= (:string %s) (:string %s)))" % (x, y, x, y, x, y), canon([k, True, True])
    yield "(let* (def l #nil) (dotimes (i 300) (set! l (cons (gensym) l))) (def bad 0) (def m l) (while m (def n (cdr m)) (while n (when (= (car m) (car n)) (inc! bad)) (cdr! n)) (cdr! m)) bad)", canon(0)


def twins():
    """two names that want the same slot and differ in a single byte"""
    for n in range(1, 94):
        for p in sorted({n - 1, n - 2, n - 3, 0, n // 2, 15, 31, 63, 64, 79} & set(range(n))):
            for v in range(10):
                base = bytearray(97 + (i * 5 + n + 11 * v + p) % 26 for i in range(n))
                seen, two = {}, None
                for b in range(33, 123):
                    base[p] = b
                    k = slot(bytes(base))
                    if k in seen:
                        two = [bytes(base[:p]) + bytes([x]) + bytes(base[p + 1:]) for x in (seen[k], b)]
                        break
                    seen[k] = b
                if two:
                    a, b = map(lit_str, two)
                    yield "(let* (def a (:symbol %s)) (def b (:symbol %s)) (def c (:keyword %s)) (list (= a b) a b (= c (:keyword a)) (= c (:keyword b)) (= a (:symbol %s))))" % (a, b, b, a), canon([False, Sym(two[0].decode("latin1")), Sym(two[1].decode("latin1")), False, True, True])


def fills(thorough):
    """n names held at once; those of some residue classes are let go of and
    replaced, twice; afterwards everything is there exactly once"""
    for n in (500, 4000, 8000, 9500) if not thorough else (100, 500, 1000, 2000, 4000, 6000, 8000, 9000, 9500, 10000):
        for pat in range(16):
            if n > 4000 and not thorough and pat not in (0, 1, 5, 7, 14, 15):
                continue
            keep = "(ref [%s] (rem i 4))" % " ".join("#f" if pat >> k & 1 else "#t" for k in range(4))
            yield ("(let* (def n %d) (def a (:alloc Array n)) (def keep? (fn (i) %s)) (def nm (fn (i r) (if (and (> r 0) (not (keep? i))) (cat \"w\" r \"-\" i) (cat \"w0-\" i))))"
                   " (def fill (fn (r) (dotimes (i n) (when (or (= r 0) (not (keep? i))) (set! a i #nil))) (dotimes (i n) (when (= (ref a i) #nil) (set! a i (:symbol (nm i r)))))))"
                   " (def bad 0) (def check (fn (r) (dotimes (i n) (def s (ref a i)) (when (or (not= (:string s) (nm i r)) (not= s (:symbol (nm i r))) (= s (:symbol (nm (+ i 1) r)))) (inc! bad)))))"
                   " (fill 0) (check 0) (fill 1) (check 1) (fill 2) (check 2) (list bad n))") % (n, keep), canon([0, n])


if __name__ == "__main__":
    ck = Check("C12", "model_checking")
    seqs = sequences(7 if ck.thorough else 5)
    cl = clusters("/repo")
    r = Runner(ck.tree.binary("hook"), "sym.nuj")
    ck.cases("sequences of operations on colliding names", ((b"".join(c) + s.encode(), "ok") for c in (cl if ck.thorough else cl[:1] + cl[3:6]) for s in seqs), runner=r, variant="hook", driver="sym.nuj")
    ck.cases("names", names())
    ck.cases("names that want the same slot", twins())
    ck.cases("fill levels", fills(ck.thorough), variant="plain", chunk=4, stall=100)
    ck.coverage["clusters"] = [b" ".join(c).decode() for c in cl]
    ck.finish()
