#!/usr/bin/env python3
"""mutate.py STAGE ...: evaluate the checks with systematically mutated C sources.

  gen OUT.jsonl [step]        all mutants of lib/*.c and bin/*.c (every step-th)
  test IN OUT [workers]       keep those that compile to different code and pass the tests
  check IN OUT [workers]      run the checks that concern the file until one catches it
"""
import sys, os, re, json, subprocess, shutil, glob, time, threading, queue, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('MUT_REPO', '/repo')
SCR = os.environ.get("MUT_SCR", "/tmp/mut")
BIN = [("<=", ["<"]), (">=", [">"]), ("==", ["!="]), ("!=", ["=="]), ("&&", ["||"]), ("||", ["&&"]), ("<", ["<=", ">="]), (">", [">=", "<="]), ("+", ["-"]), ("-", ["+"]), ("*", ["+"]), ("&", ["|"]), ("|", ["&"])]


def mutants(f, text):
    lines = text.split("\n")
    out = []
    inc = False
    for i, l in enumerate(lines):
        if l.lstrip().startswith(("//", "/*", "*", "#")):
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m[0]), l)
        code = re.sub(r"'(\\.|[^'\\])'", lambda m: "\0" * len(m[0]), code)
        code = code.split("//")[0]
        for m in re.finditer(r" (<=|>=|==|!=|&&|\|\||<<|>>|<|>|\+|-|\*|&|\|) ", code):
            for a, bs in BIN:
                if m[1] == a:
                    for b in bs:
                        out.append((i, l[:m.start(1)] + b + l[m.end(1):]))
        for m in re.finditer(r"(?<![\w.])(0|[1-9]\d*|0x[0-9a-fA-F]+)(?![\w.])", code):
            out.append((i, l[:m.start()] + str(int(m[0], 0) + 1) + l[m.end():]))
            if int(m[0], 0) > 0:
                out.append((i, l[:m.start()] + str(int(m[0], 0) - 1) + l[m.end():]))
        m = re.match(r"^(\s*(?:\}\s*else\s+)?(?:if|while)\s*\()(.*)(\)\s*\{?.*)$", l)
        if m and l.count("(") == l.count(")"):
            # the condition, up to its closing parenthesis
            s = len(m[1]); d = 1; e = s
            while e < len(l) and d:
                d += (l[e] == "(") - (l[e] == ")"); e += 1
            if not d:
                out.append((i, l[:s] + "0 && (" + l[s:e - 1] + ")" + l[e - 1:]))
                if "while" not in m[1]:
                    out.append((i, l[:s] + "1 || (" + l[s:e - 1] + ")" + l[e - 1:]))
        if re.match(r"^\s+[\w>.\[\]()*&-]+(\s*[+*/&|-]?=[^=].*|\(.*\)|\+\+|--);\s*$", l) and not re.match(r"^\s*(return|static|const|int|i32|i64|u32|u8|u16|uint|size_t|char|float|double|struct|ssize)\b", l) and not re.match(r"^\s*\w[\w*]*\s+\**\w+\s*(=|;)", l):
            out.append((i, re.match(r"\s*", l)[0] + ";"))
        if re.match(r"^\s*(break|continue);", l):
            out.append((i, re.match(r"\s*", l)[0] + ";"))
        for a, b in (("i16", "i8"), ("u16", "u8"), ("u32", "u16"), ("u8", "i8"), ("i64", "i32"), ("u64", "u32"), ("sizeof(double)", "sizeof(float)")):
            for m in re.finditer(r"\b%s\b" % re.escape(a), code):
                out.append((i, l[:m.start()] + b + l[m.end():]))
    seen = set()
    for i, n in out:
        if (i, n) not in seen and n != lines[i]:
            seen.add((i, n))
            yield {"file": f, "line": i + 1, "old": lines[i], "new": n}


def gen(out, step=1):
    ms = []
    for f in sorted(glob.glob(R + "/lib/*.c") + glob.glob(R + "/bin/*.c")):
        ms += list(mutants(os.path.relpath(f, R), open(f).read()))
    ms = [m for m in ms if int(hashlib.md5(json.dumps(m, sort_keys=True).encode()).hexdigest(), 16) % step == 0]
    with open(out, "w") as o:
        for m in ms:
            o.write(json.dumps(m) + "\n")
    print(len(ms), "mutants")


def setup(w):
    d = "%s/w%d" % (SCR, w)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(["cp", "-a", R, d + "/repo"], check=True)
    subprocess.run("mkdir verif && cp -a %s/checks %s/lib %s/drivers %s/harness %s/tools %s/known_findings.json verif/" % ((V,) * 6), shell=True, cwd=d, check=True)
    for n in ("build.sh", "test.sh", "run_tests.py"):
        t = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", d + "/build.sh").replace("/opt/vp/run_tests.py", d + "/run_tests.py").replace("/repo", d + "/repo").replace("-j8", "-j2")
        open(d + "/" + n, "w").write(t)
    os.mkdir(d + "/tmp")
    subprocess.run(["chown", "-R", "65534:65534", d], check=True)
    os.chmod(d, 0o755)
    return d


# what a mutant does with files mustn't matter: it runs as nobody, who only owns the worker's directory
JAIL = ["setpriv", "--reuid", "65534", "--regid", "65534", "--clear-groups", "unshare", "-Ur"]


def put(d, m):
    if not m["line"]:  # a piece of text to replace
        t = open(R + "/" + m["file"]).read()
        assert t.count(m["old"]) == 1, (t.count(m["old"]), m)
        open(d + "/repo/" + m["file"], "w").write(t.replace(m["old"], m["new"]))
        return
    t = open(R + "/" + m["file"]).read().split("\n")
    assert t[m["line"] - 1] == m["old"], m
    t[m["line"] - 1] = m["new"]
    open(d + "/repo/" + m["file"], "w").write("\n".join(t))


def restore(d, m):
    shutil.copyfile(R + "/" + m["file"], d + "/repo/" + m["file"])


def obj(d, f):
    o = d + "/x.o"
    r = subprocess.run(["gcc", "-O2", "-std=c99", "-D_GNU_SOURCE", "-w", "-c", f, "-o", o], cwd=d + "/repo", capture_output=True)
    if r.returncode:
        return None
    subprocess.run(["strip", "-x", o]); return hashlib.md5(open(o, "rb").read()).hexdigest()


def killtree(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass


def run(cmd, timeout, **k):
    p = subprocess.Popen(JAIL + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace", **k)
    try:
        out = p.communicate(timeout=timeout)[0]
        return p.returncode, out
    except subprocess.TimeoutExpired:
        killtree(p); p.communicate(); return -1, ""
    finally:
        killtree(p)


def test_one(d, m, base):
    b = obj(d, m["file"]) if m["file"] not in base else None
    if m["file"] not in base:
        base[m["file"]] = b
    put(d, m)
    try:
        o = obj(d, m["file"])
        if o is None:
            return "nocompile"
        if o == base[m["file"]]:
            return "same"
        out = d + "/o.json"
        if os.path.exists(out):
            os.unlink(out)
        rc, txt = run(["bash", d + "/test.sh", out], 100, cwd=d, env=dict(os.environ, TMPDIR=d + "/tmp"))
        if not os.path.exists(out):
            return "killed"
        j = json.load(open(out))
        return "survives" if len(j["passed"]) >= 1679 and not set(STABLE) - set(j["passed"]) else "killed"
    finally:
        restore(d, m)


CH = {
    "allocator": "C08 C07 C12 C13 C16 C30 C18", "arithmetic": "C03 C04 C05 C06 C30", "array": "C13 C14 C30 C07 C18", "buffer": "C16 C15 C17 C30 C18 C26 C20",
    "closure": "C29 C09 C02 C01 C30 C07 C11", "compatibility": "C26 C17 C28 C27", "core-operators": "C20 C21 C06 C14 C30 C05 C17 C22", "garbage-collection": "C07 C08 C12 C30", "generic": "C13 C16 C11 C14 C17 C29 C30 C18 C05",
    "imageReader": "C18 C28 C30", "imageWriter": "C18 C30", "reader": "C19 C20 C21 C24 C10", "special": "C02 C01 C05 C30", "string": "C17 C16 C30 C22", "symbol": "C12 C08 C06 C19 C07", "tree": "C11 C29 C18 C14 C30",
    "type-system": "C29 C30 C14 C05 C11", "val": "C14 C31 C20 C30 C06 C01", "vm": "C01 C02 C31 C09 C05 C10 C03 C04 C06 C29 C07 C30",
    "environment": "C28 C30", "io": "C27 C26 C15 C28 C30", "main": "C28 C26", "misc": "C28 C27 C30", "net": "C28 C30", "port": "C15 C26 C28 C30",
}


def check_one(d, m, _):
    put(d, m)
    t = time.time()
    try:
        for c in m["checks"].split() if "checks" in m else CH[os.path.basename(m["file"])[:-2]].split():
            env = dict(os.environ, NUJEL_REPO=d + "/repo", NUJEL_EVIDENCE=d, NUJEL_VERIFY_JOBS="2", NUJEL_VERIFY_CACHE=d + "/tmp/cache", TMPDIR=d + "/tmp", HOME=d + "/tmp")
            rc, txt = run(["python3", d + "/verif/checks/%s.py" % c], 900, env=env, cwd=d)
            if rc == 1 and "VIOLATION property=" in txt:
                return "caught " + c + " %ds" % (time.time() - t)
            if rc != 0:
                return "noanswer %s %d %s" % (c, rc, txt[-300:])
        return "MISSED %ds" % (time.time() - t)
    finally:
        restore(d, m)
        shutil.rmtree(d + "/tmp", ignore_errors=True)
        os.makedirs(d + "/tmp", exist_ok=True)
        os.chown(d + "/tmp", 65534, 65534)


def pool(fn, inp, outp, n):
    ms = [json.loads(l) for l in open(inp)]
    ms = [m for m in ms if fn is test_one or m.get("result") == "survives"]
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    q = queue.Queue()
    for m in ms:
        if (m["file"], m["line"], m["new"]) not in done:
            q.put(m)
    lock = threading.Lock()

    def work(w):
        d = setup(w); base = {}
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            try:
                r = fn(d, m, base)
            except Exception as e:
                r = "error " + repr(e)[:200]
            with lock, open(outp, "a") as o:
                o.write(json.dumps(dict(m, result=r)) + "\n")
        shutil.rmtree(d)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    a = sys.argv
    if a[1] == "gen":
        gen(a[2], int(a[3]) if len(a) > 3 else 1)
    else:
        pool({"test": test_one, "check": check_one}[a[1]], a[2], a[3], int(a[4]) if len(a) > 4 else 8)
