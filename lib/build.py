"""Build Nujel from the current working tree of /repo into a private scratch
directory (never inside /repo), in whatever instrumentation a check needs.

Stage 1 (C runtime + the checked-in bootstrap image) compiles the standard
library of the tree with tools/build-image.nuj, the result is packed into
tmp/image.c, and that is linked with the C runtime compiled once more with the
instrumentation that was asked for.  That is what `make future-nujel` does, so
edits to the C code, to the standard library and to the modules are all seen.
"""
import atexit, glob, hashlib, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
REPO = os.environ.get("NUJEL_REPO", "/repo")
DIRS = ["lib", "bin", "stdlib", "stdlib_modules", "binlib", "bootstrap", "tools", "third-party"]
EXT = (".c", ".h", ".nuj")
VARIANTS = {
    # name: (compiler, flags)
    "plain": ("gcc", ["-O2"]),
    "asan": ("gcc", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-common"]),
    "hook": ("gcc", ["-O2", "-DNUJEL_VERIFY"]),
    "ahook": ("gcc", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DNUJEL_VERIFY"]),
}
BASE = ["-g", "-D_GNU_SOURCE", "-std=c99", "-w"]


class BuildError(Exception):
    pass


def _files():
    out = []
    for d in DIRS:
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(EXT):
                    out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=600, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:300], p.stdout.decode("utf8", "replace")[-3000:]))
    return p.stdout


class Tree:
    """A scratch copy of the sources, and the binaries made from it."""

    def __init__(self):
        cache = os.environ.get("NUJEL_VERIFY_CACHE")  # development only
        files = _files()
        h = hashlib.sha256()
        for f in files:
            h.update(f.encode() + b"\0" + open(os.path.join(REPO, f), "rb").read() + b"\0")
        h.update(open(os.path.join(HARNESS, "verify_hooks.c"), "rb").read())
        h.update(repr(sorted(VARIANTS.items())).encode() + open(__file__, "rb").read())
        self.digest = h.hexdigest()
        if cache:
            self.dir = os.path.join(cache, self.digest[:24])
        else:
            self.dir = tempfile.mkdtemp(prefix="nujel-verif-")
            atexit.register(self.close)
        self.src = os.path.join(self.dir, "src")
        if not os.path.isdir(self.src):
            tmp = self.src + ".new%d" % os.getpid()
            for f in files:
                dst = os.path.join(tmp, f)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, f), dst)
            os.makedirs(os.path.join(tmp, "tmp"))
            try:
                os.rename(tmp, self.src)
            except OSError:
                shutil.rmtree(tmp)
        self.cache = bool(cache)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _compile(self, cc, flags, srcs, objdir):
        os.makedirs(objdir, exist_ok=True)
        objs = []

        def one(s):
            o = os.path.join(objdir, s.replace("/", "_")[:-2] + ".o")
            _run([cc] + BASE + flags + ["-c", s, "-o", o], cwd=self.src)
            return o

        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        return objs

    def _csrcs(self):
        r = []
        for d in ("lib", "bin"):
            r += sorted(os.path.relpath(p, self.src) for p in glob.glob(os.path.join(self.src, d, "**", "*.c"), recursive=True))
        return r

    def image(self):
        img = os.path.join(self.src, "tmp", "image.c")
        if os.path.exists(img):
            return img
        exe = self.binary("stage1")
        _run([exe, "tools/build-image.nuj"], cwd=self.src)
        _run([exe, "tools/c-asset-packer.nuj", "tmp/init.nuji", "tmp/image.new.c", "bootstrap_image"], cwd=self.src)
        os.rename(img[:-2] + ".new.c", img)
        return img

    def binary(self, variant, extra_flags=(), extra_srcs=(), name=None, drop=()):
        out = os.path.join(self.dir, name or variant)
        if os.path.exists(out):
            return out
        if variant == "stage1":
            cc, flags = "gcc", ["-O1"]
            image = "bootstrap/image.c"
        else:
            self.image()
            cc, flags = VARIANTS[variant]
            image = "tmp/image.c"
        flags = flags + list(extra_flags)
        if "-DNUJEL_VERIFY" in flags:
            flags = flags + ["-I", os.path.join(self.src, "lib")]
            extra_srcs = list(extra_srcs) + [os.path.join(HARNESS, "verify_hooks.c")]
        srcs = [s for s in self._csrcs() if s not in drop] + [image] + list(extra_srcs)
        objs = self._compile(cc, flags, srcs, os.path.join(self.dir, "obj-" + (name or variant)))
        tmp = out + ".new%d" % os.getpid()
        _run([cc] + BASE + flags + objs + ["-o", tmp, "-lm"], cwd=self.src)
        os.rename(tmp, out)
        if not self.cache:
            shutil.rmtree(os.path.join(self.dir, "obj-" + (name or variant)), ignore_errors=True)
        return out
