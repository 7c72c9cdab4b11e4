"""Every call of every built-in function and method, with every combination of
values of all types: each returns a proper value or throws, what it returns can
be used like any other value, and the heaps are consistent afterwards."""
from common import *
import itertools

METHODS = {"add-method": 3, "alloc": 2, "arguments": 1, "buffer": 1, "clone": 2, "code": 1, "cut": 3, "data": 1, "f32": 2, "f64": 2, "has?": 2, "immutable?": 1,
           "index-of": 3, "key*": 1, "keys": 1, "keyword": 1, "last-index-of": 3, "left*": 1, "length": 1, "length!": 2, "literals": 1, "meta": 2, "meta!": 3, "name": 1,
           "parent": 1, "parent!": 2, "right*": 1, "s16": 2, "s32": 2, "s64": 2, "s8": 2, "size": 1, "string": 1, "symbol": 1, "type-name": 1, "type-of": 1, "u16": 2, "u32": 2, "u8": 2,
           "value*": 1, "values": 1, "zkw": 2, "": 1, "prototype*": 1}
# ends the process or lets others do things; these are covered by C27 and C28
EXCLUDED = {"exit", "popen", "socket/connect", "file/raw*"}
# functions of the library that print, end the process, never return for some
# arguments or use up all memory for huge numbers, as they say
BY_DESIGN = set("describe display load newline print println print/error readline write init exit tiny-repl main pad-start pad-end pad-middle"
                " cut list-drop list-take list/cut range".split())
ALL, SMALL = 83, 20


def good(g):
    return g.startswith("ok ")


def jobs(names, thorough):
    for kind, ns in (("f", names), ("m", METHODS)):
        for name, n in sorted(ns.items()):
            if name in EXCLUDED or name.startswith("verify/"):
                continue
            n = min(n, 4)
            full = 2 if not thorough or n > 3 else 3
            k = min(n, full)
            step = ALL if k <= 1 else 12 if k == 2 else 1
            for lo in range(0, ALL, step):
                yield "%s %s %d all %d %d" % (kind, name, k, lo, lo + step), good
            if n > full:
                k = 3 if not thorough and n > 3 else n
                for lo in range(0, SMALL, 2):
                    yield "%s %s %d small %d %d" % (kind, name, k, lo, lo + 2), good


def main():
    ck = Check("C30", "model_checking")
    r = Runner(ck.tree.binary("ahook"), "total.nuj", stall=60)
    out = r.run(["list"])[0].split()
    names = {n: int(c) for n, c in zip(out[::2], out[1::2])}
    if len(names) < 80:
        raise RuntimeError("list of functions: %r" % out)
    js = list(jobs(names, ck.thorough))
    ck.cases("calls of functions", [j for j in js if j[0][0] == "f"], runner=r, driver="total.nuj", variant="ahook", chunk=12, stall=60)
    ck.cases("calls of methods", [j for j in js if j[0][0] == "m"], runner=r, driver="total.nuj", variant="ahook", chunk=12, stall=60)
    out = r.run(["lambdas"])[0].split()
    lambdas = {n: int(c) for n, c in zip(out[::2], out[1::2])}
    if len(lambdas) < 200:
        raise RuntimeError("list of library functions: %r" % out)
    ls = ["f %s %d small %d %d" % (n, min(c, 3 if ck.thorough else 2), i, i + 1) for n, c in sorted(lambdas.items()) if n not in BY_DESIGN for i in range(SMALL)]
    ck.cases("calls of functions of the library", [(l, good) for l in ls], runner=r, driver="total.nuj", variant="ahook", chunk=40, stall=60)
    ck.assumptions += ["values are taken from a list of 82 covering all types; %s are excluded (see C27 and C28)" % ", ".join(sorted(EXCLUDED))]
    ck.finish()


main()
