"""Front end: from /repo's working tree to linked LLVM IR (JSON), one module per build configuration.

The tree is copied to a scratch directory, configured with the project's own ./configure, and the
compile commands are taken from `make -n -B`; each is replayed with clang -O0 -g -emit-llvm.
Nothing that is built is ever run."""
import os, sys, subprocess, shlex, shutil, tempfile, json, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
DUMP = os.path.join(BUILD, "dump")
CLANG = "clang"

class AnalysisBroken(Exception):
    pass

def tracked_files(repo=REPO):
    env = dict(os.environ); env.pop("GIT_DIR", None)
    p = subprocess.run(["git", "-c", "safe.directory=" + repo, "-C", repo, "ls-files", "-coz", "--exclude-standard"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    if p.returncode == 0 and p.stdout:
        fs = [f.decode() for f in p.stdout.split(b"\0") if f]
    else:
        fs = []
        for d, ds, ff in os.walk(repo):
            ds[:] = [x for x in ds if x not in (".git", "_build", "node_modules")]
            for f in ff:
                if not f.endswith((".o", ".d", ".a", ".so")):
                    fs.append(os.path.relpath(os.path.join(d, f), repo))
    return [f for f in fs if os.path.isfile(os.path.join(repo, f))]

def copy_tree(dst, repo=REPO):
    for f in tracked_files(repo):
        if f.startswith("test/") or f in ("config.mak",):
            continue
        t = os.path.join(dst, f)
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copy2(os.path.join(repo, f), t)

def build_dump():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "dump.cpp")
    if os.path.exists(DUMP) and os.path.getmtime(DUMP) >= os.path.getmtime(src):
        return
    tmp = DUMP + ".tmp%d" % os.getpid()
    p = subprocess.run(["g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-I/usr/include/llvm-18",
                        "-I/usr/include/llvm-c-18", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise AnalysisBroken("dump.cpp does not build: " + p.stdout.decode()[-2000:])
    os.rename(tmp, DUMP)

def build_lp():
    """the floating-point half of the linear prover; without a C compiler num.py does without it"""
    import num
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "lp.c"); so = os.path.join(BUILD, "lp.so")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = so + ".tmp%d" % os.getpid()
        p = subprocess.run(["gcc", "-O3", "-shared", "-fPIC", src, "-o", tmp, "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return
        os.rename(tmp, so)
    num.loadlp(so)

class DriverBroken(Exception):
    """a client of internal names does not compile against this tree (the library itself does)"""

CONFIGS = {"fftw": ["--enable-shared"], "kissfft": ["--enable-shared", "--disable-fftw"]}

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

DROP_PREFIX = ("-O", "-march", "-mtune", "-M", "-W", "-g")

def compile_commands(tree, config):
    """[(source, [flags])] of every C file that `make all lib` compiles in this configuration"""
    env = dict(os.environ, CC="gcc", LC_ALL="C.UTF-8")
    env.pop("CFLAGS", None)
    p = run(["bash", "./configure"] + CONFIGS[config], tree, env=env)
    if p.returncode:
        raise AnalysisBroken("configure failed: " + p.stdout.decode("utf8", "replace")[-1500:])
    p = run(["make", "-n", "-B", "all", "lib"], tree, env=env)
    if p.returncode:
        raise AnalysisBroken("make -n failed: " + p.stdout.decode("utf8", "replace")[-1500:])
    res = {}
    for line in p.stdout.decode("utf8", "replace").splitlines():
        try:
            a = shlex.split(line)
        except ValueError:
            continue
        srcs = [x for x in a[1:] if x.endswith((".c", ".cc", ".cpp"))]
        if not srcs or not a:
            continue
        if not ("-c" in a or any(x.startswith("-o") for x in a)):
            continue
        flags = []
        i = 1
        while i < len(a):
            x = a[i]
            if x in ("-o", "-MF", "-MT"):
                i += 2; continue
            if x == "-c" or x in srcs or x.startswith(DROP_PREFIX) or x.endswith((".o", ".a")) or x.startswith(("-l", "-L")):
                i += 1; continue
            flags.append(x); i += 1
        for s in srcs:
            res.setdefault(os.path.normpath(s), flags)
    if not res:
        raise AnalysisBroken("no compile commands found")
    return res

class Module:
    pass

def emit(tree, src, flags, out, extra=()):
    cmd = [CLANG] + flags + list(extra) + ["-w", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-inline", "-U__OPTIMIZE__", "-g", "-fno-discard-value-names", "-U_FORTIFY_SOURCE", "-fno-strict-aliasing",
                                          "-fno-omit-frame-pointer", "-emit-llvm", "-c", src, "-o", out]
    return run(cmd, tree)

def link_dump(bcs, out):
    linked = out + ".bc"
    p = run(["llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link", "-o", linked] + bcs, "/")
    if p.returncode:
        raise AnalysisBroken("llvm-link failed: " + p.stdout.decode("utf8", "replace")[-1500:])
    p = subprocess.run([DUMP, linked], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise AnalysisBroken("dump failed: " + p.stderr.decode()[-1500:])
    return json.loads(p.stdout)

class Tree:
    """Scratch copy of the working tree in one configuration, compiled to bitcode"""
    def __init__(self, config, drivers=(), defines=()):
        build_dump(); build_lp()
        self.config = config
        self.dir = tempfile.mkdtemp(prefix="sa_%s_" % config)
        try:
            copy_tree(self.dir)
            self.cmds = compile_commands(self.dir, config)
            self.bc = {}
            self.errors = {}
            bcdir = os.path.join(self.dir, ".bc"); os.makedirs(bcdir)
            jobs = []
            for s, fl in sorted(self.cmds.items()):
                o = os.path.join(bcdir, s.replace("/", "_") + ".bc")
                jobs.append((s, fl, o))
            drv = []
            libflags = None
            for s, fl in self.cmds.items():
                if s == "lib/image.c":
                    libflags = fl
            for d in drivers:
                o = os.path.join(bcdir, "drv_" + os.path.basename(d) + ".bc")
                drv.append((d, (libflags or []) + ["-I" + os.path.join(HERE, "drivers")] + list(defines), o))
            def one(j):
                s, fl, o = j
                p = emit(self.dir, s, fl, o)
                return s, o, p.returncode, p.stdout.decode("utf8", "replace")
            with ThreadPoolExecutor(8) as ex:
                for s, o, rc, msg in ex.map(one, jobs + drv):
                    if rc and s.startswith("/"):
                        raise DriverBroken("%s does not fit the tree's internal names: %s" % (os.path.basename(s), msg[:600]))
                    if rc:
                        raise AnalysisBroken("%s does not compile with clang: %s" % (s, msg[-1500:]))
                    self.bc[s] = o
        except BaseException:
            self.close()
            raise

    def module(self, srcs):
        bcs = [self.bc[s] for s in srcs]
        out = os.path.join(self.dir, ".bc", "m%s" % hashlib.md5(" ".join(srcs).encode()).hexdigest()[:8])
        return link_dump(bcs, out)

    def lib_sources(self):
        return [s for s in sorted(self.cmds) if s.startswith("lib/")]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

if __name__ == "__main__":
    build_dump(); build_lp()
