"""C25: what a program is linked with"""
import itertools, os, shutil, subprocess, struct
import core

# libraries, objects and packages the programs can name; D1.. are directories
SRC = {
    "d1/libvqa.a": "int fa(void){return 1;}", "d2/libvqa.a": "int fa(void){return 2;}", "d1/libvqb.a": "int fa(void);int fb(void){return fa()*10+3;}", "d s/libvqs.a": "int fs(void){return 4;}",
    "o1.o": "int fo(void){return 5;}", "sub/o2.o": "int fp(void){return 6;}", "sub/o1.o": "int fo(void){return 15;}", "d1/libvqd.so": "int fd(void){return 9;}", "d2/libvqd.so": "int fd(void){return 19;}",
    "d1/libvqe.a": "int fe(void){return 8;}", "d1/libvqe.so": "int fe(void){return 7;}", "d;x/libvqx.a": "int fx(void){return 11;}",
}
PC = {
    "pa": "Libs: -L${r}/d1 -lvqa", "pb": "Requires: pa\nLibs: -L${r}/d1 -lvqb", "ps": 'Libs: "-L${r}/d s" -lvqs', "pm": "Libs: -L${r}/d1 -lvqb -lvqa", "pw": "Libs: -Wl,--defsym,fw=0x2a", "pw2": "Libs: -L${r}/d1 -lvqa -Wl,--defsym,fw=0x2b",
    "po": "Libs: ${r}/o1.o", "pt": "Libs: -pthread -L${r}/d1 -lvqa", "px": 'Libs: "-L${r}/d;x" -lvqx', "pn": "Libs:", "pbad": "Requires: vq-nosuch\nLibs:", "pver": "Requires: pa >= 2\nLibs:", "pver1": "Requires: pa >= 1\nLibs:", "pd": "Libs: -L${r}/d1 -lvqd", "p.dot-2": "Libs: -L${r}/d2 -lvqa",
}
PARGS = {
    "pa": ["-L@/d1", "-lvqa"], "pb": ["-L@/d1", "-lvqb", "-lvqa"], "ps": ["-L@/d s", "-lvqs"], "pm": ["-L@/d1", "-lvqb", "-lvqa"], "pw": ["--defsym", "fw=0x2a"], "pw2": ["-L@/d1", "-lvqa", "--defsym", "fw=0x2b"],
    "po": ["@/o1.o"], "pt": ["-lpthread", "-L@/d1", "-lvqa"], "px": ["-L@/d;x", "-lvqx"], "pn": [], "pbad": ["-lvq-nosuch"], "pver": ["-lvq-nosuch"], "pver1": ["-L@/d1", "-lvqa"], "pd": ["-L@/d1", "-lvqd"], "p.dot-2": ["-L@/d2", "-lvqa"],
}
# programs: functions used, value
BODY = {
    "a": (["fa"], "fa()"), "b": (["fb"], "fb()"), "ab": (["fa", "fb"], "fa() * 50 + fb()"), "o": (["fo"], "fo()"), "op": (["fo", "fp"], "fo() * 10 + fp()"), "s": (["fs"], "fs()"), "d": (["fd"], "fd()"), "e": (["fe"], "fe()"),
    "x": (["fx"], "fx()"), "w": (["fw"], "((&fw): i64): i32"), "none": ([], "3"),
}
USES = {"a": "vqa pa pb pm pw2 pt p.dot-2 d1 d2", "b": "vqa vqb pa pb pm d1 d2 p.dot-2", "ab": "vqa vqb pb d1", "o": "o1 sub/o1 po", "op": "o1 sub/o2 po", "s": "vqs ps d1", "d": "vqd pd d1 d2", "e": "vqe d1", "x": "vqx px d1", "w": "pw pw2 vqa"}


class Dirs:
    """one directive: text and what it adds"""
    def __init__(self, key, text, dirs=(), libs=(), unknown=()):
        self.key, self.text, self.dirs, self.libs, self.unknown = key, text, list(dirs), list(libs), list(unknown)


def lib(n):
    return Dirs("lib(%s)" % n, '[link("%s")]' % n, libs=[(n, PARGS[n] if n in PARGS else ["-l" + n])], unknown=[n] if n not in PARGS and n not in ("c", "m", "pthread") else [])


def ldir(n):
    return Dirs("dir(%s)" % n, '[link_dir("@/%s")]' % n, dirs=["-L@/" + n])


def obj(n, at=""):
    return Dirs("obj(%s)" % n, '[link_obj("%s")]' % n, libs=[(None, ["@/" + at + n])])


def join(a, b, form):
    ta, tb = a.text[1:-1], b.text[1:-1]
    fa, fb = ta.split("(")[0], tb.split("(")[0]
    if form == "same" and fa == fb:
        t = "[%s, %s" % (ta[:-1], tb[len(fb) + 1:]) + "]"
    elif form == "group":
        t = "[%s, %s]" % (ta, tb)
    else:
        return None
    return Dirs("%s(%s+%s)" % (form, a.key, b.key), t, a.dirs + b.dirs, a.libs + b.libs, a.unknown + b.unknown)


ALL = {n: lib(n) for n in ["vqa", "vqb", "vqs", "vqd", "vqe", "vqx", "c", "m", "pthread", "vq%d%n", "vq a", "cvq", "mvq", "pthreadvq", "pthrea", "C", "vq-c"] + list(PARGS)}
ALL.update({n: ldir(n) for n in ("d1", "d2", "d s", "d;x")})
IN_SUB = {"o1": obj("o1.o", "sub/"), "o2": obj("o2.o", "sub/"), "../o1": obj("../o1.o", "sub/"), "both": join(obj("o1.o", "sub/"), obj("o2.o", "sub/"), "same"), "both-r": join(obj("o2.o", "sub/"), obj("o1.o", "sub/"), "same"), "out-in": join(obj("../o1.o", "sub/"), obj("o2.o", "sub/"), "same"), "in-out": join(obj("o2.o", "sub/"), obj("../o1.o", "sub/"), "group")}
ALL.update({"o1": obj("o1.o"), "sub/o2": obj("sub/o2.o"), "sub/o1": obj("sub/o1.o")})

# ways of placing the directives: source text, other files
def place(form, ds, decls, main):
    t = [d.text for d in ds]
    if form == "before":
        return "\n".join(t) + "\n" + decls + main, {}
    if form == "after":
        return decls + main + "\n".join(t), {}
    if form == "line":
        return "".join(t) + decls + main, {}
    if form == "spread":
        return t[0] + "\n" + decls + (t[1] if len(t) > 1 else "") + "\n" + main + "\n".join(t[2:]), {}
    if form == "extern":
        return "".join(t) + "\n" + main.replace("fn main", decls.replace("\n", " ") + "\nfn main"), {}
    if form == "import":
        return 'import "%s.inc.csp";\n' + main, {"%s.inc.csp": "\n".join(t) + "\n" + decls}
    if form == "import-sub":
        return 'import "sub/%s.inc.csp";\n' + main, {"sub/%s.inc.csp": "\n".join(t) + "\n" + decls}
    if form == "import-twice":
        return 'import "%s.inc.csp";\nimport "%s.inc.csp";\n' + main, {"%s.inc.csp": "\n".join(t) + "\n" + decls}
    if form == "namespace":
        return "namespace n { %s\n fn f(): i32 = 1; }\n" % "\n".join(t) + decls + main, {}
    if form == "comments":
        return "\n".join(x.replace("(", " ( ").replace("]", " ]").replace("[", "# a comment\n[ ").replace(", ", " ,\n") for x in t) + "\n" + decls + main, {}
    raise KeyError(form)


PROP = dict(
    id="C25", title="Programs are linked with what their directives name, in order",
    statement="`[link(\"x\", …)]` links the package x as pkg-config describes it (all its flags, also those with special characters, `-Wl,` and `-pthread`, and the packages it requires), or the library `-lx` if there is none (with a warning, unless it is c, m or pthread); `[link_dir(\"d\", …)]` adds the directory d to those searched for libraries; `[link_obj(\"o\", …)]` links the object file o, relative to the source file that says so. Directories are searched in the order written, libraries and objects are linked in the order written, and each library only once, whether the directives are in one or several brackets, before or after what uses them, in namespaces or in imported files. `--static` takes archives rather than shared libraries, `--dynamic-linker` names the program interpreter, and this holds for executables and shared libraries (`lib`) and with both backends. If something can't be found or a symbol stays undefined, the build fails.",
    quantifier=dict(over=["programs", "configurations"], text="all sequences of up to two (for some: three) link directives of an alphabet of 38 libraries, packages, directories and objects, in 10 placements and 3 groupings, for 11 programs that use functions of them; executables and libraries, dynamic and static, both backends"),
    why_tests_cant="The tests link the standard library only; which definition is taken depends on all directives together and their order.",
    anchors=dict(files=["src/compiler/parser/directives.c", "src/compiler/platform/pkg_config.c", "src/compiler/codegen/asm/linker.c", "src/compiler/codegen/transpiler/c_codegen.c", "src/compiler/main.c"], mechanism="eval_link, eval_link_dir, eval_link_obj, pkg_config, link_exec, link_lib, c_gen_code"),
    technique="bounded exhaustive enumeration of sequences of link directives x programs; each built by the real compiler and run, compared with the same object file linked by ld or gcc with the libraries, directories and objects in the order prescribed", level="exploration",
    level_note="Real compiler, real linker, real pkg-config files. Bounds: sequences of at most three directives; symbols of archives, shared libraries and objects made for the check.")


def interp(path):
    b = open(path, "rb").read()
    phoff, = struct.unpack_from("<Q", b, 32)
    n, = struct.unpack_from("<H", b, 56)
    for i in range(n):
        ty, _, off, _, _, sz = struct.unpack_from("<IIQQQQ", b, phoff + 56 * i)
        if ty == 3:
            return b[off:off + sz - 1].decode()
    return None


def run(chk, repo):
    root = repo.workdir()
    at = lambda s: s.replace("@", root)
    for f, text in SRC.items():
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        o = p if f.endswith(".o") else p + ".o"
        cmd = ["gcc", "-O1", "-fPIC", "-fcf-protection=none", "-fno-asynchronous-unwind-tables", "-x", "c", "-", "-c", "-o", o]
        subprocess.run(cmd, input=text.encode(), check=True)
        if f.endswith(".a"):
            subprocess.run(["ar", "rcs", p, o], check=True)
        elif f.endswith(".so"):
            subprocess.run(["ld", "-shared", "-soname", os.path.basename(p), "-o", p, o], check=True)
    os.makedirs(root + "/pc")
    for n, text in PC.items():
        open("%s/pc/%s.pc" % (root, n), "w").write("r=%s\nName: %s\nDescription: x\nVersion: 1\n%s\n" % (root, n, text))
    ldso = "/lib64/ld-linux-x86-64.so.2"
    shutil.copy(ldso, root + "/my ld.so")
    env = {"PKG_CONFIG_PATH": root + "/pc"}
    renv = {"LD_LIBRARY_PATH": "%s/d1" % root, "PATH": "/usr/bin:/bin"}
    objs, refs = {}, {}

    def source(body, form, ds):
        used, val = BODY[body]
        decls = "".join('extern "C" fn %s(): i32;\n' % f for f in used)
        return place(form, ds, decls, "fn main(): i32 { <- %s; }\n" % val)

    def execute(p):
        try:
            return subprocess.run([p], env=renv, timeout=20, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        except subprocess.TimeoutExpired:
            return "timeout"

    def expected(ds):
        seen, libs = set(), []
        for d in ds:
            for n, a in d.libs:
                if n is None or n not in seen:
                    libs += a
                seen.add(n)
        return [x for d in ds for x in d.dirs], libs

    def reference(body, ds, backend, static):
        """the exit code of the program linked as prescribed, None if it can't be linked"""
        dirs, libs = expected(ds)
        key = (body, tuple(dirs), tuple(libs), backend, static)
        if key not in refs:
            ob = objs[body, backend]
            out = root + "/ref%d" % next(count)
            args = [at(x) for x in dirs + libs]
            if backend == "C":
                args = [("-Wl," + x) if x.startswith("--defsym") or x.startswith("fw=") else x for x in args]
                cmd = ["gcc", "-x", "none", ob, "-o", out] + (["-static"] if static else ["-Wl,-dynamic-linker," + ldso]) + args
            else:
                cmd = ["ld", ob, "-o", out] + (["-static"] if static else ["-dynamic-linker", ldso]) + args
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
            refs[key] = execute(out) if r == 0 else None
            if os.path.exists(out):
                os.unlink(out)
        return refs[key]

    count = itertools.count()
    for body in BODY:
        for b in (None, "C"):
            t, _ = source(body, "before", [])
            r = repo.compile(t, backend=b, out="obj")
            if not r.ok:
                raise core.CheckError("object of %s: %s" % (body, r.log))
            objs[body, b] = r.path
    os.makedirs(root + "/.cache", exist_ok=True)

    def one(job):
        body, form, ds, backend, flags = job
        if chk.enough():
            return None
        n = "t%d" % next(count)
        text, files = source(body, form, ds)
        text = at(text).replace("%s", n)
        files = {k % n: at(v) for k, v in files.items()}
        r = repo.compile(text, backend=backend, wd=root, name=n, files=files, env=env, flags=flags)
        want = reference(body, ds, backend, "--static" in flags)
        log = core.plain(r.log)
        got = execute(r.path) if r.ok else None
        msg = None
        if r.timed_out or r.crashed:
            msg = "compiler crashed or does not end: " + log[-300:]
        elif want is None and (r.ok or not r.rc):
            msg = "can't be linked as prescribed, but the build succeeds"
        elif want is not None and not r.ok:
            msg = "build fails: " + log[-400:]
        elif got != want:
            msg = "exit code %s, want %s" % (got, want)
        else:
            un = list(dict.fromkeys(u for d in ds for u in d.unknown))
            warned = [l.split("`")[1] for l in log.split("\n") if "could not find package named" in l]
            if warned != un:
                msg = "warned of %s, not known are %s" % (warned, un)
        for p in [r.path] + [os.path.join(root, k) for k in files] + [root + "/" + n + ".csp"]:
            if p and os.path.exists(p):
                os.unlink(p)
        key = "%s:%s:%s:%s%s" % (backend or "asm", body, form, ",".join(d.key for d in ds), "".join(flags))
        if msg:
            if key not in chk.known:
                chk.seen_bad += 1
            chk.violation(key, "%s: %s" % (at(text).strip()[-300:], msg), {"csp": text, "files": files, "observed": msg, "directives": [d.text for d in ds], "expected arguments": expected(ds)})
        return msg

    jobs = []
    pairs = list(itertools.product(ALL.values(), repeat=2))
    for backend in (None, "C"):
        full = chk.thorough or backend is None
        for body in BODY:
            rel = [ALL[k] for k in ALL if k in USES.get(body, "").split() or body == "s" and k == "d s" or body == "x" and k == "d;x"]
            for d in ALL.values():
                jobs.append((body, "before", [d], backend, ()))
            rels = [p for p in itertools.product(rel, repeat=2)]
            for p in rels if full else rels[::3]:
                jobs.append((body, "before", list(p), backend, ()))
                for form in ("same", "group"):
                    j = join(*p, form)
                    if j and full:
                        jobs.append((body, "after" if form == "same" else "before", [j], backend, ()))
            if full:
                for m, p in enumerate(itertools.product(rel, repeat=3)):
                    if chk.thorough or m % 5 == 0 or len(rel) < 4:
                        jobs.append((body, "spread", list(p), backend, ()))
                    if chk.thorough or m % 3 == 0 or len(rel) < 4:
                        for form in ("same", "group"):
                            for l in ([join(p[0], p[1], form), p[2]], [p[0], join(p[1], p[2], form)]):
                                if all(l):
                                    jobs.append((body, "before", l, backend, ()))
        for body in ("o", "op"):
            for k, d in IN_SUB.items():
                jobs.append((body, "import-sub", [d], backend, ()))
        for body, ds in (("a", ["d1", "vqa"]), ("a", ["d2", "d1", "vqa"]), ("a", ["vqa", "d2"]), ("b", ["pb"]), ("b", ["d1", "vqb", "vqa"]), ("b", ["d1", "vqa", "vqb"]), ("o", ["o1"]), ("op", ["sub/o2", "o1"]), ("d", ["d1", "vqd"]), ("e", ["d1", "vqe"]), ("s", ["d s", "vqs"]), ("s", ["ps"]), ("w", ["pw"]), ("none", ["m", "c"]), ("none", ["vqa"])):
            for form in ("before", "after", "line", "spread", "extern", "import", "import-twice", "namespace", "comments"):
                for flags in ((), ("--static",), ("--dynamic-linker", root + "/my ld.so"), ("-0",)):
                    jobs.append((body, form, [ALL[d] for d in ds], backend, flags))
    core.pmap(one, jobs)

    # the interpreter of the program
    for backend in (None, "C"):
        for flags, want in (((), ldso), (("--dynamic-linker", root + "/my ld.so"), root + "/my ld.so")):
            n = "i%d" % next(count)
            r = repo.compile(at('[link_dir("@/d1")] [link("vqd")] extern "C" fn fd(): i32; fn main(): i32 { <- fd(); }'), backend=backend, wd=root, name=n, env=env, flags=flags)
            got = interp(r.path) if r.ok else r.log[-200:]
            if got != want:
                chk.violation("interp:%s%s" % (backend or "asm", "".join(flags[:1])), "program interpreter is %s, want %s" % (got, want), {"flags": flags, "observed": got})
    # libraries: every function of an archive or object used is in them, or named as needed
    libs = 0
    for backend in (None, "C"):
        for body in ("a", "b", "ab", "o", "op", "d", "e", "s"):
            rel = [ALL[k] for k in ALL if k in USES[body].split() or body == "s" and k == "d s"]
            for ds in [[d] for d in rel] + [list(p) for p in itertools.product(rel, repeat=2)] + ([list(p) for p in itertools.product(rel, repeat=3)] if chk.thorough and not backend else []):
                n = "l%d" % next(count)
                used, val = BODY[body]
                text = at("\n".join(d.text for d in ds) + "\n" + "".join('extern "C" fn %s(): i32;\n' % f for f in used) + '[export("vq_entry")] fn vq_entry(): i32 { <- %s; }\n' % val)
                jobs.append(("lib", text, body, ds, backend, n))
    ctest = root + "/lt"
    subprocess.run(["gcc", "-x", "c", "-", "-o", ctest], input=b'#include <dlfcn.h>\nint main(int c,char**v){void*h=dlopen(v[1],RTLD_NOW);if(!h)return 255;int(*f)(void)=dlsym(h,"vq_entry");return f?f():254;}', check=True)

    def libjob(job):
        _, text, body, ds, backend, n = job
        if chk.enough():
            return
        r = repo.compile(text, backend=backend, wd=root, name=n, env=env, action="lib")
        key = "lib/%s:%s:%s" % (backend or "asm", body, ",".join(d.key for d in ds))
        w = reference(body, ds, backend, False)
        if r.ok:
            q = subprocess.run([ctest, r.path], env=renv, stderr=subprocess.DEVNULL).returncode
            os.unlink(r.path)
        else:
            q = None
        # a library that lacks a symbol can be made, but not loaded; without the library it names it can't be made
        bad = None
        if r.crashed or r.timed_out:
            bad = "compiler crashed: " + r.log[-200:]
        elif w is not None and q != w:
            bad = "function of the library gives %s, want %s %s" % (q, w, core.plain(r.log)[-200:] if not r.ok else "")
        elif w is None and q not in (None, 255):
            bad = "library can be loaded (gives %s), but should lack a symbol" % q
        if bad:
            chk.seen_bad += key not in chk.known
            chk.violation(key, "%s: %s" % (text.strip()[-300:], bad), {"csp": text, "observed": bad})
    lj = [j for j in jobs if j[0] == "lib"]
    core.pmap(libjob, lj)
    chk.add("evaluations", len(jobs) + 4)
    chk.add("distinct_nontrivial", len({(j[0], j[1], tuple(getattr(d, "key", "") for d in j[2])) if j[0] != "lib" else j[1] for j in jobs}))
    chk.add("executables", len(jobs) - len(lj))
    chk.add("libraries", len(lj))
    chk.add("linkable", len([1 for v in refs.values() if v is not None]))
    chk.add("not_linkable", len([1 for v in refs.values() if v is None]))
    chk.cov["rule"] = "one evaluation per program, placement and configuration; distinct_nontrivial counts different programs"
    chk.sample({"csp": jobs[len(jobs) // 2][1] if False else lj[len(lj) // 2][1][-300:], "judged": "exit code of the function called through dlopen"})
    shutil.rmtree(root, ignore_errors=True)
