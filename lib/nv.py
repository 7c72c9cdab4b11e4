"""Shared machinery of the checks: run enumerated cases through the real
interpreter, compare with what the reference model of a check says, confirm
every disagreement in a fresh process, write replay and evidence files."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build

for _f in (sys.stdout, sys.stderr):     # whatever a program under test prints, reports are plain text
    _f.reconfigure(encoding="ascii", errors="backslashreplace")

JOBS = int(os.environ.get("NUJEL_VERIFY_JOBS", "8"))
ASAN_OPTIONS = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:max_malloc_fill_size=67108864"


# ------------------------------------------------------------------ canonical
def c_int(n):
    n &= (1 << 64) - 1
    if n >= 1 << 63:
        n -= 1 << 64
    return "i%d" % n


def c_float(x):
    return "d" + struct.pack(">d", x).hex()


def c_str(s):
    if isinstance(s, str):
        s = s.encode("utf8")
    return "s" + s.hex()


class Sym(str):
    pass


class Kw(str):
    pass


class Tree(dict):
    pass


class Arr(list):
    pass


HANGS = ("!!HANG", "!!FLOOD")


class Buf(bytes):
    pass


class View(list):
    pass


class Raw(str):
    """An already canonical text."""


class Pair:
    __slots__ = ("car", "cdr")

    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr


def canon(v):
    if v is None or (type(v) is list and not v) or (type(v) is tuple and not v):
        return "nil"
    t = type(v)
    if t is bool:
        return "t" if v else "f"
    if t is int:
        return c_int(v)
    if t is float:
        return c_float(v)
    if t is Raw:
        return str(v)
    if t is Sym:
        return "y" + v
    if t is Kw:
        return "k" + v
    if t is str or t is bytes:
        return c_str(v)
    if t is Buf:
        return "b" + v.hex()
    if t is Arr:
        return "#[" + " ".join(canon(x) for x in v) + "]"
    if t is View:
        return "v[" + " ".join(canon(x) for x in v) + "]"
    if t is list or t is tuple:
        return "(" + " ".join(canon(x) for x in v) + ")"
    if t is Pair:
        out = []
        while isinstance(v, Pair):
            out.append(canon(v.car))
            v = v.cdr
        if type(v) is list or type(v) is tuple:
            out += [canon(x) for x in v]
            v = None
        return "(" + " ".join(out) + ("" if v is None else " . " + canon(v)) + ")"
    if t is Tree:
        return "{" + " ".join(sorted(k + "=" + canon(x) for k, x in v.items())) + "}"
    raise TypeError(t)


def sort_trees(s):
    """Sort the fields of every {...} in a canonical text: key order in a tree
    is not observable semantics."""
    if "{" not in s:
        return s
    pos = 0

    def parse(i, closer):
        items = []
        cur = ""
        while i < len(s):
            ch = s[i]
            if ch == "{":
                inner, i = parse(i + 1, "}")
                cur += "{" + " ".join(sorted(inner)) + "}"
                continue
            if ch in "([":
                inner, i = parse(i + 1, ")" if ch == "(" else "]")
                cur += ch + " ".join(inner) + (")" if ch == "(" else "]")
                continue
            if ch == closer:
                if cur:
                    items.append(cur)
                return items, i + 1
            if ch == " ":
                if cur:
                    items.append(cur)
                cur = ""
            else:
                cur += ch
            i += 1
        if cur:
            items.append(cur)
        return items, i

    items, _ = parse(0, None)
    return " ".join(items)


# -------------------------------------------------------------- nujel literals
def lit_str(s):
    if isinstance(s, str):
        s = s.encode("utf8")
    out = '"'
    for b in s:
        ch = chr(b)
        if ch == '"' or ch == "\\":
            out += "\\" + ch
        elif ch == "\n":
            out += "\\n"
        elif ch == "\t":
            out += "\\t"
        elif ch == "\r":
            out += "\\r"
        else:
            out += ch
    return out + '"'


# -------------------------------------------------------------------- running
class Runner:
    """Runs batches of cases (one line each) through a driver of /verif/drivers."""

    def __init__(self, binary, driver="eval.nuj", env=None, stall=25.0, args=(), cwd_setup=None):
        self.binary, self.driver, self.stall = binary, driver, stall
        self.env = dict(os.environ, ASAN_OPTIONS=ASAN_OPTIONS, LC_ALL="C.UTF-8", MALLOC_PERTURB_="165")   # fresh memory is never zero by chance
        self.env.update(env or {})
        self.args = list(args)
        self.cwd_setup = cwd_setup
        self.hangs, self.crashes = 0, 0     # seen so far: enough of them settle the matter

    def _once(self, lines, wd):
        """-> (outputs, None) or (outputs so far, reason why it ended)"""
        shutil.copyfile(os.path.join(HERE, "drivers", self.driver), os.path.join(wd, "driver.nuj"))
        if self.cwd_setup:
            self.cwd_setup(wd)
        with open(os.path.join(wd, "cases"), "wb") as f:
            f.write(b"\n".join(l if isinstance(l, bytes) else l.encode("utf8") for l in lines) + b"\n")
        outp, errp = os.path.join(wd, "out"), os.path.join(wd, "err")
        with open(outp, "wb") as of, open(errp, "wb") as ef:
            p = subprocess.Popen([self.binary, "driver.nuj", "cases"] + self.args, cwd=wd, stdin=subprocess.DEVNULL,
                                 stdout=of, stderr=ef, env=self.env, preexec_fn=limits)
            last, since, why = -1, time.time(), None
            while True:
                try:
                    p.wait(timeout=0.02 if last < 0 else 0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                size = os.path.getsize(outp)
                if size != last:
                    last, since = size, time.time()
                elif time.time() - since > self.stall:
                    p.kill()
                    p.wait()
                    why = "HANG"
                    break
                if size > 400 << 20:
                    p.kill()
                    p.wait()
                    why = "FLOOD"
                    break
        data = open(outp, "rb").read()
        outs = data.split(b"\n")
        partial = outs.pop()
        if outs and outs[-1] == b"DONE" and p.returncode == 0 and why is None:
            outs.pop()
            if len(outs) == len(lines):
                return outs, None
            return outs, "DESYNC"
        if why is None:
            err = open(errp, "rb").read().decode("utf8", "replace")
            m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z0-9_-]+)", err)
            if m:
                why = "CRASH:" + m.group(1)
            elif p.returncode < 0:
                why = "CRASH:signal%d" % -p.returncode
            else:
                why = "EXIT:%d" % p.returncode
        return outs[:len(lines)], why

    def run(self, lines, budget=False):
        """Results of all lines, in order; a case that ends the process has its
        reason as result and the rest is run in a new process."""
        res = []
        wd = tempfile.mkdtemp(prefix="nujel-run-")
        try:
            while len(res) < len(lines):
                if budget and (self.hangs >= 3 or self.crashes >= 60):
                    res += ["!!SKIPPED"] * (len(lines) - len(res))
                    break
                outs, why = self._once(lines[len(res):], wd)
                if why is not None and budget:
                    if why in ("HANG", "FLOOD"):
                        self.hangs += 1
                    else:
                        self.crashes += 1
                res += [o.decode("utf8", "surrogateescape") for o in outs]
                if why is not None:
                    if len(res) < len(lines):
                        res.append("!!" + why)
                    else:
                        res[-1] = "!!" + why
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        return res

    def run_parallel(self, lines, chunk=None):
        n = len(lines)
        if n == 0:
            return []
        if chunk is None:
            chunk = max(1, min(4000, (n + JOBS - 1) // JOBS))
        parts = [lines[i:i + chunk] for i in range(0, n, chunk)]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            out = []
            for r in ex.map(lambda x: self.run(x, True), parts):
                out += r
        return out


def limits():
    import resource
    for n in signal.valid_signals() - {signal.SIGKILL, signal.SIGSTOP, 32, 33}:     # what the caller ignores
        try:
            signal.signal(n, signal.SIG_DFL)
        except (OSError, ValueError):
            pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 64 << 20
    if hard == resource.RLIM_INFINITY or hard >= want:
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


# ---------------------------------------------------------------------- checks
class Check:
    def __init__(self, prop, level, technique_note=""):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        elif "--quick" in sys.argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.tree = build.Tree()
        self.viol = []
        self.coverage = {}
        self.assumptions = []
        self.known = []
        kf = os.path.join(HERE, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop and k.get("status", "known") == "known"]
        self.known_hit = set()
        self.evals = 0
        self.groups = {}
        self.outcomes = set()
        self.programs = set()
        self.samples = []

    # ---- cases: (line, expected) ; expected is canonical text, a set of them,
    # or a callable(result)->bool
    def ok(self, exp, got):
        got = sort_trees(got)
        if callable(exp):
            return exp(got)
        if isinstance(exp, (set, frozenset, tuple)):
            return got in exp
        return got == exp

    def cases(self, group, cases, variant="asan", driver="eval.nuj", env=None, chunk=None, stall=25.0, runner=None, describe=None):
        cases = list(cases)
        if not cases:
            raise RuntimeError("empty group " + group)
        r = runner or Runner(self.tree.binary(variant), driver, env, stall)
        lines = [c[0] for c in cases]
        n = len(lines)
        if chunk is None:
            chunk = max(1, min(4000, (n + JOBS - 1) // JOBS))
        got = r.run_parallel(lines, chunk)
        bad = 0
        skipped = 0
        for i, ((line, exp), g) in enumerate(zip([(c[0], c[1]) for c in cases], got)):
            if g == "!!SKIPPED":
                skipped += 1
            elif not self.ok(exp, g):
                bad += 1
                if len(self.viol) < 8 and not (g in HANGS and any(v["got"] in HANGS for v in self.viol)):
                    self._disagree(group, r, variant, driver, lines, i, chunk, exp, g)
        self.evals += n
        gi = self.groups.setdefault(group, {"cases": 0, "distinct_outcomes": 0, "disagreements": 0})
        outs = set(hashlib.blake2b(g.encode("utf8", "surrogateescape"), digest_size=8).digest() for g in got)
        gi["cases"] += n
        gi["distinct_outcomes"] += len(outs)
        gi["disagreements"] += bad
        self.outcomes |= outs
        self.programs.update(hash(l) for l in lines)
        if len(self.samples) < 12:
            k = n // 2
            self.samples.append({"group": group, "case": _s(lines[k])[:400], "result": got[k][:300]})
        if skipped and not self.viol:
            # too many failures to go on, none of which could be reproduced
            raise RuntimeError("%d cases of %s weren't run" % (skipped, group))
        if self.viol:
            self.finish()   # settled
        return got

    def each(self, group, items, fn):
        """fn(item) -> (holds, expected, got) for every item, each in processes of its own"""
        items = list(items)
        gi = self.groups.setdefault(group, {"cases": 0, "distinct_outcomes": 0, "disagreements": 0})
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(fn, items))
        seen = set()
        for it, (good, exp, got) in zip(items, res):
            if not good:
                good, exp, got = fn(it)     # confirm
            self.outcomes.add(repr(got))
            self.programs.add(hash(repr(it)))
            seen.add(repr(got))
            if not good:
                gi["disagreements"] += 1
                if len(self.viol) < 8:
                    self.violation(group, {"cases": [repr(it)]}, repr(exp), repr(got))
        self.evals += len(items)
        gi["cases"] += len(items)
        gi["distinct_outcomes"] += len(seen)
        if self.viol:
            self.finish()

    def _known(self, line, g):
        line = _s(line)
        for k in self.known:
            if k["case"] == line and (k.get("got") is None or re.fullmatch(k["got"], g)):
                return k
        return None

    def _disagree(self, group, r, variant, driver, lines, i, chunk, exp, g):
        line = lines[i]
        k = self._known(line, g)
        if k:
            self.known_hit.add(k["id"])
            return
        # confirm in a fresh process, alone; otherwise with the history before it
        import copy
        r = copy.copy(r)
        r.stall = r.stall * 3
        alone = r.run([line])[0]
        hist = [line]
        if self.ok(exp, alone):
            start = (i // chunk) * chunk
            pre = lines[start:i]
            res = r.run(pre + [line])
            if self.ok(exp, res[-1]):
                # seen once, cannot be reproduced: a flaky machine, not a verdict
                self.groups.setdefault("unreproduced", {"cases": 0})["cases"] += 1
                return
            step = max(1, len(pre) // 2)
            # (without looking for a shorter history if each try takes as long as a hang is given)
            while step >= 1 and len(pre) > 0 and res[-1] not in HANGS:
                cand = pre[step:] if step < len(pre) else []
                if not self.ok(exp, r.run(cand + [line])[-1]):
                    pre = cand
                else:
                    if step == 1:
                        break
                    step //= 2
                    continue
                step = min(step, max(1, len(pre) // 2))
            hist = pre + [line]
            g = r.run(hist)[-1]
        else:
            g = alone
        self.violation(group, {"variant": variant, "driver": driver, "cases": [_s(x) for x in hist],
                               "env": {k2: v for k2, v in r.env.items() if k2.startswith("NUJEL_")}, "args": r.args},
                       exp if isinstance(exp, str) else (sorted(exp) if isinstance(exp, (set, frozenset, tuple)) else getattr(exp, "text", "see the oracle of the check")), g)

    def violation(self, group, what, expected, got):
        self.viol.append({"property": self.prop, "group": group, "what": what, "expected": expected, "got": got})

    def finish(self, **extra):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith(self.prop + "-"):
                os.unlink(os.path.join(d, f))
        for k in self.known:
            if k["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            else:
                print("note: known finding %s did not show up" % k["id"])
        cov = {"groups": self.groups, "exhaustive": True}
        distinct = len(self.outcomes)
        if self.level == "model_checking":
            cov.update(states=max(len(self.programs), 1), transitions=self.evals, traces_validated_against_impl=self.evals, distinct_outcomes=distinct,
                       rule="a state is a distinct program (initial state, history of operations, observation) of the bounded space; a transition is its execution on the real interpreter, compared with the model")
        else:
            cov.update(evaluations=self.evals, distinct_nontrivial=distinct,
                       rule="every case of the bounded space is run on the real interpreter; distinct = different canonical results")
        cov["samples"] = self.samples
        cov.update(self.coverage)
        cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        print("%s %s: %d executions, %d distinct outcomes, %.1f s" % (self.prop, self.tier, self.evals, distinct, time.time() - self.t0))
        for n, g in self.groups.items():
            print("  %-34s %s" % (n, g))
        if not self.viol:
            print("%s holds on everything explored" % self.prop)
            sys.exit(0)
        for n, v in enumerate(self.viol):
            p = os.path.join(d, "%s-%d.json" % (self.prop, n))
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            if n < 25:
                c = v["what"].get("cases", [""])[-1] if isinstance(v["what"], dict) else str(v["what"])
                print("  [%s] %s\n      expected %s\n      got      %s" % (v["group"], c[:400], str(v["expected"])[:200], str(v["got"])[:200]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        sys.exit(1)


def _s(x):
    return x.decode("utf8", "surrogateescape") if isinstance(x, bytes) else x


EXC = lambda got: got.startswith("!") and not got.startswith("!!")
EXC.text = "some catchable exception"
NOCRASH = lambda got: not got.startswith("!!")
NOCRASH.text = "a value or a catchable exception, not the end of the process"


def oneof(*xs):
    return frozenset(xs)


# ------------------------------------------------------------- single processes
def launch(binary, args, cwd, stdin=b"", env=None, fsize=None, nofile=None, timeout=60, stdout=None, closed=()):
    """Runs the interpreter once under limits of its own; -> (status, stdout, stderr)"""
    import resource

    def pre():
        limits()
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if nofile is not None:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        for fd in closed:
            os.close(fd)
    e = dict(os.environ, ASAN_OPTIONS=ASAN_OPTIONS, LC_ALL="C.UTF-8") if env is None else dict(env)
    e.setdefault("ASAN_OPTIONS", ASAN_OPTIONS)
    p = subprocess.Popen([binary] + list(args), cwd=cwd, stdin=subprocess.PIPE, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=pre)
    try:
        out, err = p.communicate(stdin, timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return "HANG", b"", b""
    return p.returncode, out, err
