import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from nv import *
from values import *


def modes(op, args):
    """The ways a program can apply a built-in operation to some values."""
    a = " ".join(args)
    names = ["a%d" % i for i in range(len(args))]
    defs = " ".join("(def %s %s)" % (n, v) for n, v in zip(names, args))
    return {
        "literal": "(%s %s)" % (op, a),
        "variables": "(let* %s (%s %s))" % (defs, op, " ".join(names)),
        "apply": "(apply %s (list %s))" % (op, a),
        "alias": "(let* (def f %s) (f %s))" % (op, a),
        "lambda": "((fn (%s) (%s %s)) %s)" % (" ".join(names), op, " ".join(names), a),
    }


class Err(Exception):
    """the model's answer: a catchable exception (of a kind, if it matters)"""
    def __init__(self, kind=None):
        self.kind = kind


def outcome(fn, *a):
    """value of a model operation, or the canonical text of its error"""
    try:
        return fn(*a)
    except Err as e:
        return [Kw("err")]


def attempt(src):
    """run src, turn an exception into (:err)"""
    return "(try (fn (e) (list :err)) %s)" % src


def explore(init, mk, ops, depth, obs, obsm, minimal=1, pick=None):
    """Every sequence of at most depth operations on a state.
    init: source of the definitions; mk: makes the model's state; ops: (source,
    model function of the state); obs / obsm: the final observation.  Results of
    all operations and the observation are compared after the sequence."""
    import itertools
    for d in range(minimal, depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=d):
            if pick and not pick(seq):
                continue
            st = mk()
            res = [outcome(ops[k][1], st) for k in seq]
            defs = " ".join("(def r%d %s)" % (n, attempt(ops[k][0])) for n, k in enumerate(seq))
            yield "(let* %s %s (list %s %s))" % (init, defs, " ".join("r%d" % n for n in range(d)), obs), canon(res + [obsm(st)])


def err(fn):
    def f(*a):
        raise Err()
    return f


def raising(*a):
    raise Err()
