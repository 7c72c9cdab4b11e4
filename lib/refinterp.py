"""Reference interpreter of the core language, written from its documentation:
lexical scope, evaluation from left to right, exceptions, non-local return.
Programs are nested tuples: str = symbol, Kw = keyword, int/None/bool/Lit."""
from nv import Kw, Sym


class Throw(Exception):
    def __init__(self, car, rest=()):
        self.car, self.rest = car, rest


class Return(Exception):
    def __init__(self, v):
        self.v = v


class TooLong(Exception):
    pass


class Env:
    __slots__ = ("vars", "up")

    def __init__(self, up=None, vars=None):
        self.vars = {} if vars is None else vars
        self.up = up

    def find(self, k):
        e = self
        while e is not None:
            if k in e.vars:
                return e
            e = e.up
        return None


class Fn:
    __slots__ = ("args", "rest", "body", "env")

    def __init__(self, args, rest, body, env):
        self.args, self.rest, self.body, self.env = args, rest, body, env


class ErrTail:
    """rest of the value a handler gets; not compared"""


def truthy(v):
    return v is not None and v is not False


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, Fn) or isinstance(b, Fn):
        return a is b
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    return type(a) is type(b) and a == b


def src(p):
    if p is None:
        return "#nil"
    if p is True:
        return "#t"
    if p is False:
        return "#f"
    if isinstance(p, Kw):
        return ":" + p
    if isinstance(p, str):
        return p
    if isinstance(p, int):
        return str(p)
    if isinstance(p, tuple):
        return "(" + " ".join(src(x) for x in p) + ")"
    raise TypeError(p)


def lst(t):
    return t if t else None


class Interp:
    LIMIT = 4000

    def __init__(self):
        self.steps = 0

    def body(self, forms, env):
        r = None
        for f in forms:
            r = self.ev(f, env)
        return r

    def call(self, f, args):
        if isinstance(f, Fn):
            e = Env(f.env)
            for i, a in enumerate(f.args):
                e.vars[a] = args[i] if i < len(args) else None
            if f.rest:
                e.vars[f.rest] = lst(tuple(args[len(f.args):]))
            try:
                return self.body(f.body, e)
            except Return as r:
                return r.v
        if callable(f):
            if hasattr(f, "higher"):
                return f(self, *args)
            n = f.__code__.co_argcount
            if not f.__code__.co_flags & 4:
                args = (list(args) + [None] * n)[:n]
            return f(*args)
        raise Throw(Kw("type-error"))

    def ev(self, p, env):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise TooLong
        if isinstance(p, Kw):
            return p
        if isinstance(p, str):
            e = env.find(p)
            if e is None:
                if p in PRIM:
                    return PRIM[p]
                raise Throw(Kw("unbound-variable"))
            return e.vars[p]
        if not isinstance(p, tuple):
            return p
        if not p:
            return None
        h = p[0]
        m = SPECIAL.get(h) if isinstance(h, str) and not isinstance(h, Kw) else None
        if m:
            return m(self, p, env)
        f = self.ev(h, env)
        args = [self.ev(x, env) for x in p[1:]]
        return self.call(f, args)

    # ------------------------------------------------------------ special forms
    def s_if(self, p, env):
        if truthy(self.ev(p[1], env)):
            return self.ev(p[2], env) if len(p) > 2 else None
        return self.ev(p[3], env) if len(p) > 3 else None

    def s_ifnot(self, p, env):
        if not truthy(self.ev(p[1], env)):
            return self.ev(p[2], env)
        return self.ev(p[3], env) if len(p) > 3 else None

    def s_when(self, p, env):
        return self.body(p[2:], env) if truthy(self.ev(p[1], env)) else None

    def s_whennot(self, p, env):
        return None if truthy(self.ev(p[1], env)) else self.body(p[2:], env)

    def s_and(self, p, env):
        r = None
        for x in p[1:]:
            r = self.ev(x, env)
            if not truthy(r):
                return r
        return r

    def s_or(self, p, env):
        for x in p[1:]:
            r = self.ev(x, env)
            if truthy(r):
                return r
        return False

    def s_do(self, p, env):
        return self.body(p[1:], env)

    def s_letstar(self, p, env):
        return self.body(p[1:], Env(env))

    def s_let(self, p, env):
        e = Env(env)
        r = None
        for b in p[1]:
            r = e.vars[b[0]] = self.ev(b[1], e)
        return self.body(p[2:], e) if len(p) > 2 else r

    def s_def(self, p, env):
        v = self.ev(p[2], env)
        env.vars[p[1]] = v
        return v

    def s_set(self, p, env):
        v = self.ev(p[2], env)
        e = env.find(p[1])
        if e is None:
            raise Throw(Kw("unbound-variable"))
        e.vars[p[1]] = v
        return v

    def s_fn(self, p, env):
        a = p[1]
        if isinstance(a, str):
            return Fn((), a, p[2:], env)
        if "." in a:
            return Fn(a[:-2], a[-1], p[2:], env)
        return Fn(a, None, p[2:], env)

    def s_return(self, p, env):
        raise Return(self.ev(p[1], env))

    def s_while(self, p, env):
        r = None
        while truthy(self.ev(p[1], env)):
            r = self.body(p[2:], env)
        return r

    def s_try(self, p, env):
        h = self.ev(p[1], env)
        try:
            return self.body(p[2:], Env(env))
        except Throw as t:
            return self.call(h, [(t.car,) + tuple(t.rest) + (ErrTail,)])

    def s_cond(self, p, env):
        for c in p[1:]:
            if truthy(self.ev(c[0], env)):
                return self.body(c[1:], env)
        return None

    def s_case(self, p, env):
        e = Env(env)
        k = self.ev(p[1], e)
        for c in p[2:]:
            if c[0] == "otherwise" or any(same(k, self.ev(x, e)) for x in (c[0] if isinstance(c[0], tuple) else (c[0],))):
                return self.body(c[1:], e)
        return None

    def s_doseq(self, p, env):
        (v, l), e = p[1][:2], Env(env)
        l = self.ev(l, e)
        for x in l or ():
            e.vars[v] = x
            self.body(p[2:], e)
        return self.ev(p[1][2], e) if len(p[1]) > 2 else None

    def s_dotimes(self, p, env):
        v = p[1][0]
        env.vars[v] = 0
        while env.find(v).vars[v] < self.ev(p[1][1], env):
            self.body(p[2:], env)
            env.find(v).vars[v] += 1
        return self.ev(p[1][2], env) if len(p[1]) > 2 else None

    def s_thread(self, p, env):
        x = p[1]
        for f in p[2:]:
            x = (f[0], x) + f[1:] if isinstance(f, tuple) else (f, x)
        return self.ev(x, env)

    def s_apply(self, p, env):
        f = self.ev(p[1], env)
        a = self.ev(p[2], env) if len(p) > 2 else None
        return self.call(f, list(a or ()))


SPECIAL = {"if": Interp.s_if, "if-not": Interp.s_ifnot, "when": Interp.s_when, "when-not": Interp.s_whennot, "and": Interp.s_and, "or": Interp.s_or, "do": Interp.s_do,
           "let*": Interp.s_letstar, "let": Interp.s_let, "def": Interp.s_def, "set!": Interp.s_set, "fn": Interp.s_fn, "return": Interp.s_return,
           "while": Interp.s_while, "try": Interp.s_try, "cond": Interp.s_cond, "case": Interp.s_case, "doseq": Interp.s_doseq, "dotimes": Interp.s_dotimes,
           "->": Interp.s_thread, "apply": Interp.s_apply}


def p_car(l=None, *_):
    return l[0] if isinstance(l, tuple) and l else None


def p_cdr(l=None, *_):
    return lst(l[1:]) if isinstance(l, tuple) else None


def p_cons(a=None, b=None, *_):
    if b is not None and not isinstance(b, tuple):
        raise TooLong   # improper lists are not part of the model
    return (a,) + (b or ())


def p_throw(v=None, *_):
    if isinstance(v, tuple):
        raise Throw(v[0], [x for x in v[1:] if x is not ErrTail])
    raise Throw(v)


def num(f):
    def g(a, b):
        if a is None or b is None:
            raise TooLong  # not part of the model
        if type(a) is not int or type(b) is not int:
            raise Throw(Kw("type-error"))
        return f(a, b)
    return g


def p_int(a=None):
    if type(a) is int:
        return a
    raise Throw(Kw("type-error"))


PRIM = {
    "cons": p_cons, "list": lambda *a: lst(tuple(a)), "car": p_car, "cdr": p_cdr,
    "+": num(lambda a, b: a + b), "-": num(lambda a, b: a - b), "<": num(lambda a, b: a < b),
    "=": same, "not=": lambda a, b: not same(a, b), "not": lambda a=None: not truthy(a), "nil?": lambda a=None: a is None, "throw": p_throw, "identity": lambda a=None: a,
    "resolves?": lambda a=None, b=None: False, "int": lambda a=None: p_int(a), "boolean": lambda a=None: truthy(a),
}


def higher(f):
    f.higher = True
    return f


@higher
def p_map(I, l=None, f=None, *_):
    return lst(tuple(I.call(f, [x]) for x in l or ()))


@higher
def p_filter(I, l=None, f=None, *_):
    return lst(tuple(x for x in l or () if truthy(I.call(f, [x]))))


@higher
def p_reduce(I, l=None, f=None, acc=None, *_):
    for x in l or ():
        acc = I.call(f, [acc, x])
    return acc


PRIM.update({"map": p_map, "filter": p_filter, "reduce": p_reduce})
