"""Shared machinery: rebuild the compiler from /repo's working tree, run it in
private scratch homes, write evidence, report violations / known findings."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CSP_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

GCC_FLAGS = ["-fPIC", "-w", '-DDEFAULT_STD_PATH="/nonexistent"', "-I/usr/include/pkgconf", "-I/usr/include/json-c"]
LDLIBS = ["-lm", "-lpkgconf", "-ljson-c"]

_scratch = None


def scratch():
    """One private scratch directory per process, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="cspmc-")
        pid = os.getpid()
        path = _scratch

        def rm():
            if os.getpid() == pid and path.startswith(tempfile.gettempdir() + "/cspmc-") and not os.environ.get("CSP_KEEP"):
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(rm)
        signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    return _scratch


def sh(cmd, timeout=300, cwd=None, env=None, input=None):
    """Run a command in its own session; returns (rc, stdout, stderr). rc = -9999 on time-out."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         cwd=cwd, env=env, start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return -9999, out, err


class CheckError(Exception):
    """The check itself could not run (neither held nor violated)."""


class Repo:
    """A build of the working tree of /repo in a scratch directory."""

    def __init__(self, sanitize=False, want=("cspc",)):
        self.root = os.path.join(scratch(), "tree-san" if sanitize else "tree")
        self.src = os.path.join(self.root, "src")
        self.bin = os.path.join(self.root, "bin")
        self.sanitize = sanitize
        shutil.copytree(os.path.join(REPO, "src"), self.src, symlinks=True)
        os.makedirs(self.bin)
        std = os.path.join(self.src, "std")
        sh(["bash", "./generate.sh"], cwd=std)
        if not os.path.exists(os.path.join(std, "std.csp")):
            with open(os.path.join(std, "std.csp"), "w") as f:
                for n in sorted(os.listdir(std)):
                    if n.endswith(".csp") and n != "std.csp":
                        f.write('import "%s";\n' % n)
        comp = os.path.join(self.src, "compiler")
        vin = os.path.join(comp, "version.h.in")
        vh = os.path.join(comp, "version.h")
        if os.path.exists(vin):
            t = open(vin).read()
            for k, v in (("version-x", "0"), ("version-y", "1"), ("version-z", "1"), ("git-hash", "mc")):
                t = t.replace("@%s@" % k, v)
            open(vh, "w").write(t)
        self.std = std
        self.comp = comp
        # C compiler for programs with a driver in C: keeps the object file where it is called (hard links of this file)
        self.cc_wrapper = os.path.join(self.root, "cc_wrapper")
        with open(self.cc_wrapper, "w") as f:
            f.write("#!/bin/sh\nd=${0%/*}\nexec gcc -w -Dmain=csp_c_main \"$@\" -c -o $d/b.o 2> $d/cc.log\n")
        os.chmod(self.cc_wrapper, 0o755)
        self.flags = list(GCC_FLAGS) + (["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if sanitize else [])
        self.objs = self._compile_dir(comp, [], "compiler")
        self.cspc = os.path.join(self.bin, "cspc")
        self._link([o for o in self.objs], self.cspc)
        if "lint" in want:
            lo = self._compile_dir(os.path.join(self.src, "linter"), ["-I" + comp], "linter")
            self.lint = os.path.join(self.bin, "csp-lint")
            self._link([o for o in self.objs if not o.endswith("/main.c.o")] + lo, self.lint)
        self._n = 0

    def _compile_dir(self, d, extra, tag):
        out = []
        jobs = []
        for base, _, files in os.walk(d):
            for f in sorted(files):
                if f.endswith(".c") and "/examples" not in base:
                    src = os.path.join(base, f)
                    rel = os.path.relpath(src, d)
                    obj = os.path.join(self.root, "obj", tag, rel + ".o")
                    os.makedirs(os.path.dirname(obj), exist_ok=True)
                    jobs.append((src, obj))
        def one(j):
            rc, o, e = sh(["gcc", "-I" + d] + extra + self.flags + ["-c", j[0], "-o", j[1]], cwd=d)
            return rc, j, e
        with ThreadPoolExecutor(NCPU) as ex:
            for rc, j, e in ex.map(one, jobs):
                if rc:
                    raise CheckError("cannot compile %s: %s" % (j[0], e.decode(errors="replace")[:2000]))
                out.append(j[1])
        return out

    def _link(self, objs, target):
        rc, o, e = sh(["gcc"] + (["-fsanitize=address,undefined"] if self.sanitize else []) + objs + ["-o", target] + LDLIBS)
        if rc:
            raise CheckError("cannot link %s: %s" % (target, e.decode(errors="replace")[:2000]))

    # ---------------------------------------------------------------- compiling .csp
    def workdir(self):
        d = tempfile.mkdtemp(prefix="w", dir=self.root)
        os.makedirs(os.path.join(d, ".cache"))
        return d

    def run_cspc(self, wd, args, timeout=120, input=None, env=None):
        e = {"HOME": wd, "PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8"}
        if self.sanitize:
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1"
            e["UBSAN_OPTIONS"] = "print_stacktrace=0"
        if env:
            e.update(env)
        return sh([self.cspc] + args, timeout=timeout, cwd=wd, env=e, input=input)

    def compile(self, text, backend=None, flags=(), wd=None, name="t", out="exe", timeout=40, files=None, action="build", env=None):
        """Compile csp source text.  Returns Result with .ok/.path/.log."""
        own = wd or self.workdir()
        src = os.path.join(own, name + ".csp")
        os.makedirs(os.path.dirname(src), exist_ok=True)
        with open(src, "w") as f:
            f.write(text)
        for k, v in (files or {}).items():
            os.makedirs(os.path.dirname(os.path.join(own, k)), exist_ok=True)
            with open(os.path.join(own, k), "w") as f:
                f.write(v)
        target = os.path.join(own, name + ".out")
        args = [action, src, "-p", self.std, "-o", target, "--silent"] + list(flags)
        if backend:
            args += ["-b", backend]
        if out == "obj":
            args += ["-c"]
        if out == "asm":
            args += ["-S"]
        rc, o, e = self.run_cspc(own, args, timeout=timeout, env=env)
        timed_out = rc == -9999
        path = {"exe": target, "obj": target + ".o", "asm": target + ".s"}[out]
        if out == "asm" and backend == "C":
            path = target + ".c"
        return Result(rc, o, e, path if os.path.exists(path) and not timed_out else None, own)


class Result:
    def __init__(self, rc, out, err, path, wd):
        self.rc, self.out, self.err, self.path, self.wd = rc, out, err, path, wd
        self.ok = path is not None
        self.timed_out = rc == -9999
        self.crashed = rc < 0 or rc >= 128 or rc == 99
        self.log = (out + err).decode(errors="replace") + (" (timed out)" if self.timed_out else " (ended with status %d)" % rc if rc else "")

    def clean(self):
        shutil.rmtree(self.wd, ignore_errors=True)


# -------------------------------------------------------------------- reporting
class Check:
    def __init__(self, prop, level, tier=None):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.cov = {}
        self.viol = []
        self.known_hit = []
        self.assumptions = []
        self.samples = []
        self.known = load_known(prop)
        self.seen_bad = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def enough(self):
        """enough violations were found: do not spend the rest of the budget on more of them"""
        return self.seen_bad >= 12 and not os.environ.get("CSP_MAXV")

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay):
        """key identifies the failing input; replay: dict written as the artefact."""
        if key in self.known:
            if key not in [k for k, _ in self.known_hit]:
                self.known_hit.append((key, self.known[key]))
            return
        self.viol.append((key, what, replay))

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = dict(self.cov)
        if self.samples:
            cov["samples"] = self.samples
        doc = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        for k, w in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, w))
        if self.viol:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for n, (key, what, replay) in enumerate(self.viol[:int(os.environ.get("CSP_MAXV","10"))]):
                p = os.path.join(rd, "%s-%d.json" % (self.prop, n))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "key": key, "what": what, "replay": replay}, f, indent=1, default=str)
                print("  %s: %s" % (key, what))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            if len(self.viol) > 10 and not os.environ.get("CSP_MAXV"):
                print("  ... %d violations in total" % len(self.viol))
            sys.stdout.flush()
            return 1
        print("property %s held: %s" % (self.prop, ", ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, (int, float, bool)))))
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    d = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" | ")
                d[key.strip()] = what.strip()
    return d


def plain(s):
    """text without terminal escapes and scratch paths"""
    s = re.sub(r"\x1b\[[0-9;]*m", "", s)
    return re.sub(r"/[^\s:]*cspmc-[^\s:]*/", "", s)


def rmdir(path):
    if scratch() in path and not os.environ.get("CSP_KEEP"):
        shutil.rmtree(path, ignore_errors=True)


def pmap(fn, items, workers=NCPU):
    """Ordered parallel map (threads; the work is in subprocesses)."""
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def run_check(fn):
    try:
        rc = fn()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
