"""Unreachable values are reclaimed.  (1) Leak freedom: for every program of the
corpus of C07 the number of cells in use per heap, after a complete collection,
is the same before and after running it once more, and every heap's free list
and counters agree.  (2) Boundedness: loops that allocate more than a heap has
room for, for every kind of value, every way of allocating it in a loop and every
fill level of what stays reachable, run to their end with the right result, and
what stays reachable is intact.  (3) Contents: for every way of making and
dropping memory outside of the heaps (buffers and arrays of every size, ports,
images, files, commands, code, read errors) a run of many executions and a
collection doesn't leave as much as one allocation per execution behind."""
from common import *
import itertools
import C07

GC = "(verify/arm 0 -1) (if (current-closure) 1 2) (verify/disarm)"

# kind: (expression making one, cells of the tightest heap it uses, heap size)
KINDS = [
    ("pair", "(cons i 1)", 1 << 18), ("list", "(list i i i i)", 1 << 18), ("array", "(array/new i)", 1 << 14), ("tree", "(tree/new :a i :b 2)", 1 << 15),
    ("buffer", "(buffer/allocate 3)", 1 << 15), ("string", "(:cut \"abcdef\" 1 (+ 2 (rem i 4)))", 1 << 15), ("view", "(:u8 (buffer/allocate 2) #f)", 1 << 14),
    ("lambda", "(fn () i)", 1 << 17), ("scope", "(let ((j i)) (current-closure))", 1 << 17), ("call", "(f0 i)", 1 << 17), ("rest call", "(f1 i i i)", 1 << 17),
    ("symbol", "(:symbol (:cut digits (rem i 900) (+ 8 (rem i 900) (rem (div/int i 900) 40))))", 1 << 14), ("keyword", "(:keyword (:cut digits (rem i 900) (+ 8 (rem i 900) (rem (div/int i 900) 40))))", 1 << 14),
    ("try", "(try (fn (e) i) (throw i))", 1 << 17), ("apply", "(apply f1 (list i i))", 1 << 17), ("copy of an array", "(array/dup arr)", 1 << 14), ("copy of a tree", "(:clone tre)", 1 << 15), ("object", "(:inc (tree/new :inc f0 :v i))", 1 << 15),
    ("array literal", "[i 1]", 1 << 14), ("tree literal", "{:a i}", 1 << 15), ("read", "(read \"[1 {:a 2}]\")", 1 << 14), ("converted", "(:string (:symbol \"abc\"))", 1 << 15),
    ("empty array", "(array/new)", 1 << 14), ("empty tree", "(tree/new)", 1 << 15), ("empty buffer", "(buffer/allocate 0)", 1 << 15), ("empty string", "(:cut \"abc\" 2 1)", 1 << 15), ("view of nothing", "(:u8 (buffer/allocate 0) #f)", 1 << 14),
    ("view without elements", "(:f64 (buffer/allocate 7) #f)", 1 << 14), ("code", "(:bytecode-array [1 2] [])", 1 << 14), ("empty code", "(:bytecode-array (array/new) (array/new))", 1 << 14), ("empty call", "((fn () #nil))", 1 << 17),
    ("nested", "(tree/new :a (array/new (cons (fn () i) (buffer/allocate 1))))", 1 << 14),
]
DIGITS = "".join("%c%c" % (97 + i % 26, 97 + i // 26) for i in range(520))

LOOPS = [
    ("while", "(while (< i N) (set! x V) (set! i (+ i 1))) (list i KEEP)"),
    ("unused", "(while (< i N) V (set! i (+ i 1))) (list i KEEP)"),
    ("operand", "(while (< i N) (set! i (+ i (do (list 1 V 2) 1)))) (list i KEEP)"),
    ("recursion", "(defn r (i x) (if (< i N) (r2 i V) (list i KEEP))) (defn r2 (i x) (return (+ i 1))) (while (< i N) (set! i (r2 i V))) (r i 0)"),
    ("in a try", "(while (< i N) (try (fn (e) (set! i (+ i 1))) (set! x V) (throw x))) (list i KEEP)"),
    ("dotimes", "(dotimes (i N) V) (list N KEEP)"),
]


def keep(kind, v, n):
    """n values of a kind that stay reachable, and an expression that checks them"""
    return "(def kept #nil) (def i 0) (while (< i %d) (set! kept (cons %s kept)) (set! i (+ i 1))) " % (n, v), "(:length kept)"


# what makes and drops memory outside of the heaps of cells, at every size
SIZES = [0, 1, 2, 3, 7, 8, 15, 16, 17, 100, 255, 256, 1000, 4095, 4096, 4097, 65535, 65536, 99999, 100000, 200000, 1000000]
SIZED = [
    ("buffer", "(buffer/allocate S)"), ("immutable buffer", "(:clone (buffer/allocate S) #t)"), ("string", "(buffer->string (buffer/allocate S))"), ("view", "(:u16 (buffer/allocate S) #f)"),
    ("array", "(:alloc Array S)"), ("array shrunk", "(:length! (:alloc Array S) (div/int S 2))"), ("array emptied", "(:length! (:alloc Array S) 0)"), ("array grown", "(:length! (:alloc Array (div/int S 2)) S)"),
    ("buffer grown", "(:length! (:length! (buffer/allocate 0) S) (* 2 S))"),
    ("cut", "(:cut (buffer->string (buffer/allocate S)) 0 (div/int S 2))"), ("cat", "(cat (buffer->string (buffer/allocate S)) \"a\")"), ("clone", "(:clone (buffer->string (buffer/allocate S)) #f)"),
    ("port", "(let* (def p (:new StringOutputPort)) (:block-write p (buffer/allocate S) S) (:return-string p))"),
    ("image of a string", "(image/deserialize (image/serialize (list 1 (buffer->string (buffer/allocate S)))))"), ("image of a buffer", "(image/deserialize (image/serialize (list 1 (buffer/allocate S) [1 2])))"),
    ("read from a file", "(file/read \"f-S\")"), ("popen", "(popen \"head -c S /dev/zero\")"),
]
OTHERS = [
    "(try car (read \"\\\"unterminated\"))", "(try car (read \"#m0A1\"))", "(read \"#m0A\")", "(try car (read \"#m(\"))", "(read \"##(1 2)\")", "(try car (read \"[1 2\"))", "(read \"\\\"str\\\"\")", "(try car (read \"\\\"\\\\q\\\"\"))",
    "(eval '(fn (x) (list x 1 2 3 \"abc\")))", "(eval '(let ((x 1)) (while (< x 10) (set! x (+ x 1)))))", "(try car (eval '(unknown-function 1)))",
    "(try car (image/deserialize (buffer/allocate 50)))", "(try car (image/deserialize (:cut (image/serialize (list 1 2.5 \"a\" [1 2])) 0 20)))", "(image/deserialize (image/serialize (fn (x) (list x \"abc\" 123456))))",
    "(try car (file/read \"missing\"))", "(try car (file/read \".\"))", "(ls \".\")", "(ls \"missing\")", "(popen \"exit 3\")", "(popen \"missing-command 2>&1\")", "(file/stat \"f-100\")", "(cwd)",
    "(let* (def h (file/open-input* \"f-100\")) (file/close* h))", "(let* (def p (:new InputPort (file/open-input* \"f-4096\"))) (def b (buffer/allocate 10)) (:block-read p b 10) (:close! p))", "(let* (def p (:new OutputPort (file/open-output* \"f-out\" :replace))) (:block-write p \"abc\") (:close! p))",
    "(try car (file/open-input* \"missing\"))", "(try car (file/open-output* \"missing/x\" :replace))", "(file/write \"f-out2\" \"some text\")",
    "(string/write (list 1 2.5 \"a\" 'b [1 2] {:a 1}))", "(split \"a,b,c\" \",\")", "(join (list \"a\" \"b\") \"-\")", "(fmt \"{digits} x\")", "(upper-case \"abc\")", "(trim \"  a \")", "(pad-start \"1\" 20)",
    "(try car (:alloc Array -1))", "(try car (buffer/allocate -1))", "(try car (:length! [1 2] 99999999999))", "(try car (:length! (buffer/allocate 3) 99999999999))",
    "(let* (def f (fn (n) (if (= n 0) (throw 1) (list 1 2 3 (f (- n 1)))))) (try car (f 500)))", "(let* (def f (fn (n) (if (= n 0) 0 (+ 1 (f (- n 1)))))) (f 2000))", "(:clone (tree/new :a \"x\" :b [1]))",
    "(try car (:bytecode-array [1 2 3] [4]))", "(try car (:bytecode-array [1 :a 300] [4]))",
]


# everything that can go wrong with a literal of bytes, and texts that aren't data
OTHERS += ["(try car (read \"#m%s%s\"))" % (pre, "".join(t)) for pre in ("", "0102") for n in (1, 2) for t in itertools.product("0A-G )", repeat=n)] + \
    ["(try car (read \"%s\"))" % t for t in ("1a", "#xG", "#b2", "#o8", "1.2.3", "#\\\\", "(1 . 2 3)", "(1", ")", "]", "}", "{:a}", "{1 2}", "##(1", "#(1", "'", "`", "~", ",@", "a.", "a.1", ".b", "#q", "#!", "99999999999999999999", "#@(a: 1", "x" * 200, ":" + "x" * 200, "((((((((((1")]


def contents(thorough):
    todo = [(t.replace("S", str(n)) if "port" not in k and "image of" not in k else re.sub(r"\bS\b", str(n), t), n) for k, t in SIZED for n in (SIZES if thorough or k != "popen" else SIZES[1::4])
            if not (n > 16000000 or ("array" in k and n > 200000)) ] + [(t, 0) for t in OTHERS]
    for t, n in todo:
        runs = 12 if n > 60000 else 40 if n > 4000 or "popen" in t else 200
        # not a single allocation may stay per execution (the smallest one takes 24 bytes)
        yield ("(let* (def digits \"12\") (def prog #nil) (set! prog (fn () %s)) (def go (fn (n) (dotimes (i n) (prog)) (verify/arm 0 -1) (if (current-closure) 1 2) (verify/disarm) 0))"
               " (def best 1000000) (def m 0) (go 20) (dotimes (k 3) (set! m (verify/memory)) (go %d) (set! best (min best (- (verify/memory) m)))) (< best (* %d 24)))" % (t, runs, runs), "t")


def files(wd):
    for n in SIZES:
        with open(os.path.join(wd, "f-%d" % n), "wb") as f:
            f.write(b"x" * n)


HEAD = "(let* (def digits \"%s\") (def arr (array/new 1 2)) (def tre (tree/new :a 1)) (defn f0 (a) (let ((b a)) b)) (defn f1 l (car l)) (def x #nil) " % DIGITS

if __name__ == "__main__":
    ck = Check("C08", "model_checking")
    r = Runner(ck.tree.binary("ahook"))
    ps = [p for _, p in C07.programs()] + C07.IO
    ps += [t.replace("S", str(n)) for k, t in SIZED if "port" not in k and "image of" not in k and "file" not in k and "popen" not in k for n in SIZES[:9]]
    ps += ["(:%s (buffer/allocate %d) %s)" % (v, n, i) for v in ("u8", "s8", "u16", "s16", "u32", "s32", "f32", "s64", "f64") for n in (0, 1, 2, 3, 4, 7, 8, 17) for i in ("#f", "#t", "#nil")]
    ps += ["(:bytecode-array (:alloc Array 0) (:alloc Array %d))" % n for n in (0, 1, 2, 9)] + ["(let* (def a (:alloc Array %d)) (dotimes (i %d) (set! a i i)) (:bytecode-array a a))" % (n, n) for n in (0, 1, 2, 9)]
    cases = [("(def prog (fn () %s)) (def g #nil) (prog) (prog) %s (verify/baseline) (prog) %s (set! g (verify/growth)) (list g (verify/consistent))" % (p if p.startswith("(defn s ") else C07.PRE + p, GC, GC), canon([[0] * 9, True])) for p in ps]
    # a scope, and the values themselves while they are held by a variable of a finished call
    ck.cases("nothing leaks", cases, runner=r)

    ck.cases("contents are given back", contents(ck.thorough), runner=Runner(ck.tree.binary("hook"), stall=100, cwd_setup=files,
             env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"}), chunk=20)

    loops = []
    for (kn, v, size), (ln, l) in itertools.product(KINDS, LOOPS):
        n = size + size // 4 + 300
        if ck.thorough:
            n *= 3
        if ln not in ("while", "recursion") and not ck.thorough:
            if kn not in ("array", "tree", "string", "symbol", "view", "nested"):
                continue
        loops.append((HEAD + "(def i 0) " + l.replace("N", str(n)).replace("V", v).replace("KEEP", "1") + ")", canon([n, 1])))
    ck.cases("loops beyond the size of a heap", loops, variant="plain", chunk=4, stall=200)

    fills = []
    levels = [16, 128, 256] if not ck.thorough else [4, 8, 16, 32, 64, 96, 128, 160, 192, 224, 240]
    for kn, v, size in KINDS:
        if kn in ("symbol", "keyword", "try", "apply", "call", "rest call", "object", "read", "nested", "converted", "list"):
            continue
        for lv in levels:
            top = size * 5 // 8 - 2600 if size <= 1 << 15 else size * 3 // 8
            k = min(top, top * lv // 256)
            pre, expr = keep(kn, v, k)
            if kn in ("lambda", "scope", "tree", "object", "copy of a tree", "tree literal"):
                k = k // 3
                pre, expr = keep(kn, v, k)
            n = size * 2
            fills.append((HEAD + pre + "(set! i 0) (while (< i %d) (set! x %s) (set! i (+ i 1))) (list i %s))" % (n, v, expr), canon([n, k])))
    ck.cases("loops with much that stays reachable", fills, variant="plain", chunk=2, stall=200)
    ck.assumptions = ["memory outside of the heaps of cells is what malloc of glibc says is in use"]
    ck.finish()
