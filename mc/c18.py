"""C18: the command line.  Every combination of action, backend, stage, options and spelling of paths from finite sets is
run; the files that appear, what they do when executed, and the exit status are compared with the documentation."""
import itertools, os, shutil, subprocess, time
import core

PROP = {
    "id": "C18",
    "title": "cspc produces exactly the artifact that was asked for, or fails with a status",
    "statement":
        "`cspc build FILE` writes the executable and nothing else next to it: FILE without its extension plus `.out`, or the name given by `-o`; with `-c` "
        "only the object file (`.o` appended to that name), with `-S` only the generated code (`.s`, or `.c` with `-b C`), `cspc lib` a shared library (`.so`). The "
        "artifact does what the program says, whichever backend, optimisation, debug, linking and verbosity options (`-b`, `-0`/`--no-opt`, `-g`, `-g0`, `--static`, `--silent`, "
        "`--show-timings`, `--print-code`) are given, in whichever order, and whatever directory the source, the output and the current directory are. `cspc run FILE` builds it and executes it "
        "once with the arguments after `--`, passed unchanged; with `-c`/`-S` nothing is executed. `cspc shell FILE` does the same silently and passes all that follows. `--cc`, `--as`, `--ld`, `--cc-flags` choose the tools and flags used and `-p` the "
        "standard library. Builds of different targets that run at the same time don't disturb each other. If the program is wrong, or assembler, linker or C compiler fail, or the command line is wrong (unknown action or option, missing value, missing file), cspc exits "
        "with a non-zero status, also with `--silent`, no artifact appears, and nothing is executed, even when an old artifact is there.",
    "quantifier": {"over": ["configurations", "inputs", "schedules"],
                   "text": "Every combination of action, options, paths and argument lists, for right and wrong programs, and every interleaving of two builds."},
    "why_tests_cant": "The tests build one way; which artifact appears, what it does and what the status is depends on the product of action, backend, stage, options, paths and the kind of failure.",
    "anchors": {"files": ["src/compiler/main.c", "src/compiler/toolchain.c", "src/compiler/error/default.c", "src/compiler/codegen/asm/linker.c",
                          "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c", "src/compiler/codegen/codegen_utils.c",
                          "src/compiler/platform/linux/linux_platform.c"],
                "mechanism": "main: option loop, default_output_file, run; compile: passes, exception and panic handler; link_obj, subprocess, cached files"},
    "technique": "bounded exhaustive enumeration of the configuration space (explicit-state exploration of the command line's option product on the real compiler, with a reference for files, behaviour and status)",
    "level": "bounded-exhaustive",
    "level_note": "full product of 3 actions x 3 backend spellings x 3 stages x option sets x path spellings; all pairs of single options in both orders; all argument lists of up to 3 arguments over a boundary "
                  "set; 17 kinds of wrong programs and 12 tool failures x actions x backends x verbosity x old artifact; all interleavings of the steps of two builds",
}

PROG = """
[link_obj("w.o")] extern "C" { fn put(c: char); }
macro next(x) { ((x) + 1) }
[export("answer")] fn answer(a: i32): i32 { <- a * 2 + next!(1); }
[constexpr] fn five(): i32 { <- 5; }
let g: i32 = 3;
fn word(s: &char) { for let i = 0; s[i]: u8 != 0; i++; { put(s[i]); } put('\\n'); }
fn main(argc: i32, argv: &&char): i32 {
    let f = |x: i32| i32 => { g += x; <- g; };
    word("out");
    for let i = 1; i < argc; i++; { word(argv[i]); }
    <- f(five()) + answer(10) + argc;
}
"""
LIB = """
[export("answer")] fn answer(a: i32): i32 { <- a * 2 + 2; }
[export("fact")] fn fact(n: i32): i32 { <- if n < 2 => 1 else n * fact(n - 1); }
"""
W_C = r"""
void put(int c) { char ch = c; long r; __asm__ volatile("syscall" : "=a"(r) : "a"(1L), "D"(1L), "S"(&ch), "d"(1L) : "rcx", "r11", "memory"); }
"""
STATUS = 8 + 22 + 1     # without arguments


class World:
    """a directory tree with the program in it; reports what is new after a command"""
    def __init__(self, repo, objs):
        self.repo = repo
        self.wd = repo.workdir()
        os.makedirs(os.path.join(self.wd, "home", ".cache"))
        self.cwd = os.path.join(self.wd, "cwd")
        os.makedirs(os.path.join(self.cwd, "src", "deep"))
        os.makedirs(os.path.join(self.cwd, "bin"))
        for d in ("", "src", "src/deep"):
            shutil.copy(objs["w.o"], os.path.join(self.cwd, d))

    def put(self, path, text, mode=None):
        p = os.path.join(self.cwd, path)
        if mode:
            # written by a process of its own: if other threads start processes meanwhile, these would have it open for writing, and it could not be executed
            core.sh(["/bin/sh", "-c", 'cat > "$0" && chmod %o "$0"' % mode, p], input=text.encode())
        else:
            with open(p, "w") as f:
                f.write(text)
        self.before = self.files()

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.cwd):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, self.cwd)] = fh.read()
        return out

    def run(self, args, sub="", std=True, timeout=60):
        e = {"HOME": os.path.join(self.wd, "home"), "PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8", "OLD": self.cwd}
        a = list(args)
        self.before = self.files()
        rc, o, er = core.sh([self.repo.cspc] + [x.replace("@CWD@", self.cwd) for x in a], cwd=os.path.join(self.cwd, sub), env=e, timeout=timeout)
        after = self.files()
        self.new = {k for k in after if k not in self.before}
        self.changed = {k for k in after if k in self.before and after[k] != self.before[k]}
        self.gone = {k for k in self.before if k not in after}
        self.rc, self.out, self.err = rc, core.plain(o.decode("latin-1")), core.plain(er.decode("latin-1"))
        return rc

    def exec(self, path, args=()):
        rc, o, e = core.sh([os.path.join(self.cwd, path)] + list(args), timeout=20, cwd=self.cwd)
        return rc, o.decode("latin-1")

    def close(self):
        core.rmdir(self.wd)


def use(w, path, kind, backend, lib):
    """what is wrong with the artifact"""
    p = os.path.join(w.cwd, path)
    t = os.path.join(w.wd, "tool")
    wo = os.path.join(w.cwd, "w.o")
    if lib:
        d = t + ".c"
        with open(d, "w") as f:
            f.write("int answer(int), fact(int); int main(void) { return answer(10) == 22 && fact(5) == 120 ? 0 : 1; }\n")
        if kind == "code" and backend == "C":
            cmd = ["gcc", "-w", "-fwrapv", "-fno-strict-aliasing", d, p, "-o", t]
        elif kind == "code":
            cmd = ["gcc", "-w", "-no-pie", "-Wl,-z,noexecstack", d, p, "-o", t]
        else:
            cmd = ["gcc", "-w", "-no-pie", "-Wl,-z,noexecstack", d, p, "-o", t]
        rc, o, e = core.sh(cmd)
        if rc:
            return "can't be linked: " + (o + e).decode("latin-1")[-300:]
        rc, o, e = core.sh([t], timeout=20)
        return "functions of the library return wrong values" if rc else None
    if kind != "exe":
        if backend == "C":
            cmd = ["gcc", "-w", "-fwrapv", "-fno-strict-aliasing", p, wo, "-o", t]
        elif kind == "code":
            cmd = ["gcc", "-nostdlib", "-no-pie", "-Wl,-z,noexecstack", p, wo, "-o", t]
        else:
            cmd = ["ld", "-z", "noexecstack", p, wo, "-o", t]
        rc, o, e = core.sh(cmd)
        if rc:
            return "can't be linked: " + (o + e).decode("latin-1")[-300:]
        p = t
    rc, o, e = core.sh([p, "x y", ""], timeout=20)
    if (rc, o) != (STATUS + 2, b"out\nx y\n\n"):
        return "program prints %r and exits with %d, expected 'out\\nx y\\n\\n' and %d" % (o, rc, STATUS + 2)


BACKENDS = [((), "assembly"), (("-b", "assembly"), "assembly"), (("-b", "C"), "C"), (("--backend", "c"), "C")]
STAGES = [((), "exe"), (("-c",), "obj"), (("-S",), "code")]
OPTS = [(), ("-0",), ("--no-opt",), ("-g",), ("-g0",), ("-0", "-g"), ("--static",), ("--static", "-0"), ("--show-timings",), ("--print-code",)]


def expected(action, kind, backend, src, out):
    base = out if out else os.path.splitext(src)[0] + (".so" if action == "lib" else ".out")
    return {"exe": base, "obj": base + ".o", "code": base + (".c" if backend == "C" else ".s")}[kind]


def artifacts(chk, repo, objs):
    jobs = []
    for action in ("build", "lib", "run"):
        for (bf, b), (sf, kind), of in itertools.product(BACKENDS, STAGES, OPTS):
            if action == "lib" and "--static" in of:
                continue
            for silent in ((), ("--silent",)):
                for front in (False, True):
                    if front and not chk.thorough and (of or silent):
                        continue
                    jobs.append((action, bf, b, sf, kind, of + silent, front, "t.csp", None, ""))
    # spellings of paths: (source as created, source as named, working directory, output)
    paths = [("t.csp", n, "", o) for n in ("t.csp", "./t.csp", "@CWD@/t.csp", "src/../t.csp") for o in (None, "x", "./x", "bin/x", "x.y", "@CWD@/bin/x.out", "src/deep/../x", "t")]
    paths += [("src/t.csp", n, "", o) for n in ("src/t.csp", "./src/t.csp", "@CWD@/src/t.csp") for o in (None, "x", "bin/x")]
    paths += [("src/t.csp", n, "src", o) for n in ("t.csp", "../src/t.csp", "./t.csp") for o in (None, "x", "../bin/x")]
    paths += [("t.csp", "../t.csp", "src", o) for o in (None, "x", "./x", "../x")]
    paths += [("t.csp", "../../t.csp", "src/deep", o) for o in (None, "x")]
    paths += [(f, f, "", o) for f in ("prog", "a.b.csp", "two words.csp", "t", "-t.csp", "main.csp", "src/a.b.csp", "src/prog.x") for o in (None, "x", "two words out")]
    for action in ("build", "lib", "run"):
        for p in paths:
            for (bf, b), (sf, kind) in itertools.product((BACKENDS[0], BACKENDS[2]), STAGES):
                if action != "build" and not chk.thorough and kind != "exe":
                    continue
                jobs.append((action, bf, b, sf, kind, (), False, p[0], p, p[2]))

    def one(j):
        action, bf, b, sf, kind, of, front, created, p, sub = j
        lib = action == "lib"
        w = World(repo, objs)
        w.put(created, LIB if lib else PROG)
        named, out = (p[1], p[3]) if p else ("t.csp", None)
        args = [action, named]
        opts = list(bf) + list(sf) + list(of) + (["-o", out] if out else []) + ["-p", repo.std]
        if front:
            opts = ["-p", repo.std] + list(of) + list(sf) + list(bf)
        args += opts
        if action == "run":
            args += ["--", "a1", "a 2"]
        w.run(args, sub)
        exp = os.path.normpath(os.path.relpath(os.path.join(w.cwd, sub, expected(action, kind, b, named, out).replace("@CWD@", w.cwd)), w.cwd))
        msg = None
        if w.rc < 0 or w.rc >= 128:
            msg = "cspc crashed or hung (status %d): %s" % (w.rc, w.err[-200:])
        elif w.rc != 0:
            msg = "exit status %d: %s" % (w.rc, (w.out + w.err)[-300:])
        elif w.new - ({exp} if exp in w.before else set()) != {exp} or w.gone or w.changed - {exp}:
            msg = "files created: %s, changed: %s, removed: %s; expected only %s" % (sorted(w.new), sorted(w.changed), sorted(w.gone), exp)
        else:
            msg = use(w, exp, kind, b, lib)
            if msg:
                msg = exp + ": " + msg
        if msg is None and action == "run":
            n = w.out.count("out\na1\na 2\n")
            if n != (kind == "exe"):
                msg = "program was executed %d times, expected %d: output %r" % (n, kind == "exe", w.out[-300:])
        if msg is None and "--silent" in of and "--print-code" not in of and "--show-timings" not in of and action != "run" and w.out.strip():
            msg = "--silent, but there is output: %r" % w.out[:200]
        if msg is None and "--print-code" in of and ("answer" not in w.out and "answer" not in w.err):
            msg = "code is not printed"
        w.close()
        return msg and (msg, args, sub)
    for j, res in zip(jobs, core.pmap(one, jobs)):
        if res:
            key = "artifact:%s:%s:%s:%s:%s" % (j[0], j[2], j[4], "+".join(j[5]) + ("/front" if j[6] else ""), ":".join(map(str, j[8] or ())))
            chk.violation(key, "cspc %s (in %s/): %s" % (" ".join(res[1]), res[2], res[0]), {"args": res[1], "cwd": res[2], "source": j[7], "csp": LIB if j[0] == "lib" else PROG, "observed": res[0]})
    chk.add("evaluations", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))
    chk.sample({"args": ["build", "t.csp", "-b", "C", "-S"], "creates": "t.out.c"})


# pairs of options, both orders; the artifact has to be the one that both ask for
SINGLE = [("-c",), ("-S",), ("-b", "C"), ("-b", "assembly"), ("-0",), ("-g",), ("-g0",), ("--silent",), ("--static",), ("--show-timings",), ("-o", "x"), ("--output", "bin/y"),
          ("--set-mmcd", "5"), ("--cc", "gcc"), ("--as", "as"), ("--ld", "ld"), ("--cc-flags", "-g"), ("--print-code",)]


def pairs(chk, repo, objs):
    jobs = [(a, b) for a, b in itertools.permutations(SINGLE, 2)]

    def one(j):
        kind, backend, out, mode = "exe", "assembly", None, 0
        for o in j:
            if o == ("-c",) and kind != "code":
                kind = "obj"
            if o == ("-S",):
                kind = "code"
            if o[0] == "-b":
                backend = o[1]
            if o[0] in ("-o", "--output"):
                out = o[1]
        w = World(repo, objs)
        w.put("t.csp", PROG)
        args = ["build", "t.csp", "-p", repo.std] + [x for o in j for x in o]
        w.run(args)
        exp = expected("build", kind, backend, "t.csp", out)
        if w.rc:
            msg = "exit status %d: %s" % (w.rc, (w.out + w.err)[-300:])
        elif w.new != {exp} or w.gone or w.changed:
            msg = "files created: %s; expected only %s" % (sorted(w.new), exp)
        else:
            msg = use(w, exp, kind, backend, False)
        w.close()
        return msg and (msg, args)
    for j, res in zip(jobs, core.pmap(one, jobs)):
        if res:
            chk.violation("pair:%s:%s" % tuple("=".join(o) for o in j), "cspc %s: %s" % (" ".join(res[1]), res[0]), {"args": res[1], "csp": PROG, "observed": res[0]})
    chk.add("evaluations", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))


def arguments(chk, repo, objs):
    vals = ["a", "", "two words", "-o", "--", "-c", "--silent", "'q\"", "\\n", "*", "$HOME", "x" * 300]
    lists = [()] + [(v,) for v in vals] + [p for p in itertools.product(vals[:8], repeat=2)] + ([p for p in itertools.product(vals[:6], repeat=3)] if chk.thorough else [tuple(vals), tuple(vals[:3]), tuple(vals[2:5])])
    jobs = [(l, b, s) for l in lists for b in (("assembly", "C") if len(lists) and chk.thorough else ("assembly",)) for s in ((), ("--silent",))] + [(l, "C", ()) for l in lists[:14]] + [(l, "shell", ("--silent",)) for l in lists]

    def one(j):
        l, b, s = j
        w = World(repo, objs)
        w.put("t.csp", PROG)
        args = ["run", "t.csp", "-p", repo.std, "-b", b] + list(s) + ["--"] + list(l)
        if b == "shell":
            w.put("t.csp", "#!cspc shell\n" + PROG)
            args = ["shell", "t.csp"] + list(l)
        w.run(args)
        exp = "".join(x + "\n" for x in ("out",) + l)
        msg = None
        if w.rc:
            msg = "exit status %d: %s" % (w.rc, (w.out + w.err)[-300:])
        elif exp not in w.out or (s and w.out != exp):
            msg = "program prints %r, expected %r" % (w.out[-300:], exp)
        w.close()
        return msg and (msg, args)
    for j, res in zip(jobs, core.pmap(one, jobs)):
        if res:
            chk.violation("args:%s:%s:%s" % (j[1], "".join(j[2]), repr(j[0])), "cspc %s: %s" % (" ".join(res[1]), res[0]), {"args": res[1], "csp": PROG, "observed": res[0]})
    chk.add("evaluations", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))


M = "fn main(): i32 { <- 0; }\n"
WRONG = [
    ("lexer", M + "let s: &char = \"open;\n"),
    ("syntax", "fn main(): i32 { <- ; }\n"),
    ("syntax-end", "fn main(): i32 { <- 0;\n"),
    ("undefined", "fn main(): i32 { <- nosuch; }\n"),
    ("type", "type P: struct { a: i32 }; fn main(): i32 { let p: P = 1; <- p.a; }\n"),
    ("validator", "fn main(): i32 { break; <- 0; }\n"),
    ("return", "fn main(): i32 { }\n"),
    ("args", "fn f(a: i32): i32 { <- a; } fn main(): i32 { <- f(); }\n"),
    ("import", "import \"nosuch.csp\";\n" + M),
    ("macro", "fn main(): i32 { <- nosuch!(1); }\n"),
    ("endless-macro", "macro m { m!() }\nfn main(): i32 { <- m!(); }\n"),
    ("constexpr", "[constexpr] fn f(a: i32): i32 { <- 1 / a; } const c: i32 = f(0); fn main(): i32 { <- c; }\n"),
    ("no-main", "fn f(): i32 { <- 0; }\n"),
    ("directive", "[nosuch] fn f(): i32 { <- 0; }\n" + M),
    ("link", "extern \"C\" fn no_such_function(): i32; fn main(): i32 { <- no_such_function(); }\n"),
    ("link-obj", "[link_obj(\"nosuch.o\")]\n" + M),
    ("empty", ""),
]
TOOLS = [("as", ("--as", "/nonexistent/as"), "assembly"), ("ld", ("--ld", "/nonexistent/ld"), "assembly"), ("cc", ("--cc", "/nonexistent/cc"), "C"),
         ("as-fails", ("--as", "false"), "assembly"), ("ld-fails", ("--ld", "false"), "assembly"), ("cc-fails", ("--cc", "false"), "C"),
         ("as-killed", ("--as", "@CWD@/killed"), "assembly"), ("ld-killed", ("--ld", "@CWD@/killed"), "assembly"), ("cc-killed", ("--cc", "@CWD@/killed"), "C"),
         ("cc-flags", ("--cc-flags", "-nosuchflag"), "C"), ("out-dir", ("-o", "nodir/x"), "assembly"), ("out-dir-C", ("-o", "nodir/x"), "C")]
USAGE = [
    (), ("build",), ("nosuch", "t.csp"), ("t.csp",), ("Build", "t.csp"), ("build", "nosuch.csp"), ("build", "src"), ("run",), ("run", "nosuch.csp"), ("lib", "nosuch.csp"),
    ("build", "t.csp", "-o"), ("build", "t.csp", "--output"), ("build", "t.csp", "-b"), ("build", "t.csp", "-b", "nosuch"), ("build", "t.csp", "-b", ""), ("build", "t.csp", "--backend"),
    ("build", "t.csp", "--cc"), ("build", "t.csp", "--as"), ("build", "t.csp", "--ld"), ("build", "t.csp", "-p"), ("build", "t.csp", "--std-path"), ("build", "t.csp", "--cc-flags"),
    ("build", "t.csp", "--set-mmcd", "0"), ("build", "t.csp", "--set-mmcd", "x"), ("build", "t.csp", "--set-mmcd"), ("build", "t.csp", "--nosuch"), ("build", "t.csp", "-x"), ("build", "t.csp", "u.csp"),
    ("build", "t.csp", "-cS"), ("build", "t.csp", "--static", "--dynamic-linker", "x"), ("build", "t.csp", "--dynamic-linker"), ("build", "t.csp", "-b", "interpreter"),
    ("-x",), ("--nosuch",),
]
INFO = [("-h",), ("--help",), ("-i",), ("--info",), ("-v",), ("--version",), ("build", "t.csp", "--help"), ("build", "t.csp", "-v")]


def failures(chk, repo, objs):
    old = "#!/bin/sh\necho executed >> \"$OLD/src/mark\"\n"
    jobs = []
    for action in ("build", "run", "lib"):
        for b in ("assembly", "C"):
            for silent in ((), ("--silent",)):
                for stale in (False, True):
                    for name, text in WRONG:
                        if action == "lib" and name in ("no-main", "empty", "link"):
                            continue
                        for sf, kind in STAGES:
                            if name.startswith("link") and kind != "exe":
                                continue
                            if kind != "exe" and (stale or action == "run") and not chk.thorough:
                                continue
                            jobs.append((name, action, ("-b", b) + sf + silent, text, stale))
                    for name, o, tb in TOOLS:
                        if tb == b and not (action == "lib" and False):
                            if name.startswith("out-dir") and stale:
                                continue
                            jobs.append(("tool:" + name, action, ("-b", b) + o + silent, LIB if action == "lib" else PROG, stale))
    for u in USAGE:
        for stale in (False, True):
            jobs.append(("usage", None, u, PROG, stale))
    for u in INFO:
        jobs.append(("info", None, u, PROG, False))

    def one(j):
        name, action, opts, text, stale = j
        w = World(repo, objs)
        w.put("t.csp", text)
        w.put("u.csp", text)
        w.put("killed", "#!/bin/sh\nkill -SEGV $$\n", 0o755)
        if stale:
            w.put("t.out", old, 0o755)
            w.put("t.so", old, 0o755)
        args = ([action, "t.csp", "-p", repo.std] if action else []) + list(opts)
        w.run(args)
        msg = None
        if name == "info":
            if w.rc or not w.out.strip() or w.new or w.changed:
                msg = "exit status %d, output %r" % (w.rc, w.out[:200])
        elif "src/mark" in w.new:
            msg = "failed, but the program was executed"
        elif w.rc < 0 or w.rc >= 128:
            msg = "cspc crashed or hung (status %d): %s" % (w.rc, w.err[-200:])
        elif w.rc == 0:
            msg = "exit status 0 in spite of the failure: %s" % (w.out + w.err)[-300:]
        elif not (w.out + w.err).strip():
            msg = "fails without a message"
        elif w.new:
            msg = "fails, but creates %s" % sorted(w.new)
        w.close()
        return msg and (msg, args)
    for j, res in zip(jobs, core.pmap(one, jobs)):
        if res:
            key = "fail:%s:%s:%s%s" % (j[0], j[1], "+".join(j[2]), ":old" if j[4] else "")
            chk.violation(key, "cspc %s [%s]: %s" % (" ".join(res[1]), j[0], res[0]), {"args": res[1], "csp": j[3], "old_artifact": j[4], "observed": res[0]})
    chk.add("evaluations", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))


def tools(chk, repo, objs):
    """the chosen tools are the ones that are used, and get the flags"""
    log = "#!/bin/sh\n(printf '%%s|' \"$(basename $0)\" \"$@\"; echo) >> \"$OLD/src/log\"\nexec %s \"$@\"\n"
    jobs = []
    for (bf, b), (sf, kind), action in itertools.product((BACKENDS[0], BACKENDS[2]), STAGES, ("build", "run")):
        lists = [(), ("-DCSP_FLAG",), ("-DONE -DTWO",), ("-DONE  \t-DTWO=3",), ("-DONE", "-DTWO"), ("-DONE -DTWO", "-DTHREE -DFOUR -DFIVE"), ("-DA", "-DB -DC", "-DD"), ("-DONE ",), (" -DONE -DTWO",)]
        if kind == "exe" and action == "build":
            lists += [("".join("-DF%d%s" % (i, s) for i, s in enumerate(sp)) + "-DZ=" + "9" * len(sp),) for n in (2, 3, 4) for sp in itertools.product(" \t", repeat=n)]
        for fl in lists:
            if fl and b != "C":
                continue
            jobs.append((bf, b, sf, kind, fl, action))

    def one(j):
        bf, b, sf, kind, fl, action = j
        w = World(repo, objs)
        w.put("t.csp", PROG)
        for t in ("gcc", "as", "ld"):
            w.put("bin/my" + t, log % t, 0o755)
        args = [action, "t.csp", "-p", repo.std, "--cc", "@CWD@/bin/mygcc", "--as", "@CWD@/bin/myas", "--ld", "@CWD@/bin/myld"] + list(bf) + list(sf)
        for f in fl:
            args += ["--cc-flags", f]
        w.run(args)
        used = []
        lines = []
        p = os.path.join(w.cwd, "src/log")
        if os.path.exists(p):
            lines = open(p).read().splitlines()
            used = [l.split("|")[0] for l in lines]
        exp = {("assembly", "exe"): ["myas", "myld"], ("assembly", "obj"): ["myas"], ("assembly", "code"): [], ("C", "exe"): ["mygcc"], ("C", "obj"): ["mygcc"], ("C", "code"): []}[b, kind]
        msg = None
        if w.rc:
            msg = "exit status %d: %s" % (w.rc, (w.out + w.err)[-300:])
        elif used != exp:
            msg = "tools used: %s, expected %s" % (used, exp)
        elif exp and b == "C" and [x for x in lines[0].split("|") if x.startswith("-D")] != [x for f in fl for x in f.split()]:
            msg = "flags %s are given as: %s" % (fl, lines[0])
        else:
            a = expected("build", kind, b, "t.csp", None)
            msg = use(w, a, kind, b, False)
        w.close()
        return msg and (msg, args)
    for j, res in zip(jobs, core.pmap(one, jobs)):
        if res:
            chk.violation("tools:%s:%s:%s:%s" % (j[1], j[3], j[4], j[5]), "cspc %s: %s" % (" ".join(res[1]), res[0]), {"args": res[1], "csp": PROG, "observed": res[0]})
    chk.add("evaluations", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))


# two builds at the same time: all interleavings of their steps (generate, [assemble,] link); the tools are wrappers that wait
WAIT = "#!/bin/sh\ntouch $CTL/at-%s\nwhile [ ! -e $CTL/go-%s ]; do sleep 0.005; done\nexec %s \"$@\"\n"
STEPS = {"assembly": ["as", "ld", None], "C": ["gcc", None], "obj": ["as", None]}


def schedules(chk, repo, objs):
    jobs = []
    modes = ("assembly", "C", "obj")
    places = [("a/t.csp", "b/t.csp", None, None), ("a/t.csp", "a/u.csp", "x/t", "y/t"), ("a/t.csp", "t.csp", None, None), ("a/t.csp", "a/u.csp", None, None), ("a/t.csp", "b/t.csp", "x/t", "x/u")]
    for ma, mb in itertools.product(modes, modes):
        na, nb = len(STEPS[ma]), len(STEPS[mb])
        for pos in itertools.combinations(range(na + nb), na):
            sched = [0 if i in pos else 1 for i in range(na + nb)]
            for pl in places[:1] if not chk.thorough and (ma, mb) != ("assembly", "assembly") and (ma, mb) != ("C", "C") else places:
                jobs.append((ma, mb, sched, pl))

    def one(j):
        ma, mb, sched, (sa, sb, oa, ob) = j
        w = World(repo, objs)
        for d in ("a", "b", "x", "y"):
            os.makedirs(os.path.join(w.cwd, d))
        for t in ("gcc", "as", "ld"):
            w.put("bin/my" + t, WAIT % (t, t, t), 0o755)
        w.put(sa, "fn main(): i32 { <- 11; }\n")
        w.put(sb, "fn main(): i32 { <- 22; }\n")
        ps, ctl, outs = [], [], []
        for i, (src, out, mode) in enumerate(((sa, oa, ma), (sb, ob, mb))):
            c = os.path.join(w.wd, "ctl%d" % i)
            os.makedirs(c)
            ctl.append(c)
            args = ["build", src, "-p", repo.std, "--silent", "-b", "C" if mode == "C" else "assembly"] + [x for t, o in (("gcc", "--cc"), ("as", "--as"), ("ld", "--ld")) for x in (o, os.path.join(w.cwd, "bin/my" + t))]
            args += (["-c"] if mode == "obj" else []) + (["-o", out] if out else [])
            outs.append(expected("build", "obj" if mode == "obj" else "exe", "", src, out))
            ps.append((args, [None]))
        msg = None
        at = [0, 0]
        try:
            for who in sched:
                args, p = ps[who]
                steps = STEPS[(ma, mb)[who]]
                if at[who] == 0:
                    p[0] = subprocess.Popen([repo.cspc] + args, cwd=w.cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True,
                                            env={"HOME": os.path.join(w.wd, "home"), "PATH": "/usr/local/bin:/usr/bin:/bin", "CTL": ctl[who], "LC_ALL": "C.UTF-8"})
                else:
                    open(os.path.join(ctl[who], "go-" + steps[at[who] - 1]), "w").close()
                nxt = steps[at[who]]
                end = time.time() + 60
                while time.time() < end:
                    if nxt and os.path.exists(os.path.join(ctl[who], "at-" + nxt)):
                        break
                    if p[0].poll() is not None:
                        break
                    time.sleep(0.003)
                if nxt and p[0].poll() is not None:
                    msg = "build %d ends with status %d before %s was executed" % (who + 1, p[0].returncode, nxt)
                    break
                at[who] += 1
            for who in (0, 1):
                if msg is None:
                    rc = ps[who][1][0].wait(60)
                    if rc:
                        msg = "build %d fails with status %d" % (who + 1, rc)
            for who, val in ((0, 11), (1, 22)):
                if msg is None:
                    p = os.path.join(w.cwd, outs[who])
                    if (ma, mb)[who] == "obj":
                        core.sh(["ld", "-z", "noexecstack", p, "-o", p + ".exe"])
                        p += ".exe"
                    rc, _, _ = core.sh([p], timeout=20) if os.path.exists(p) else (None, 0, 0)
                    if rc != val:
                        msg = "the result of build %d returns %s, expected %d" % (who + 1, rc, val)
        finally:
            for _, p in ps:
                if p[0] is not None and p[0].poll() is None:
                    for c in ctl:
                        for t in ("gcc", "as", "ld"):
                            open(os.path.join(c, "go-" + t), "w").close()
                    try:
                        p[0].wait(20)
                    except subprocess.TimeoutExpired:
                        p[0].kill()
        w.close()
        return msg and (msg, [a for a, _ in ps])
    for j, res in zip(jobs, core.pmap(one, jobs)):
        if res:
            key = "schedule:%s:%s:%s:%s" % (j[0], j[1], "".join("AB"[x] for x in j[2]), "+".join(map(str, j[3])))
            chk.violation(key, "%s: %s" % (key, res[0]), {"commands": res[1], "schedule": "".join("AB"[x] for x in j[2]), "observed": res[0]})
    chk.add("evaluations", len(jobs))
    chk.add("schedules", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))
    chk.sample({"schedule": "AABBAB", "builds": ["a/t.csp", "b/t.csp"], "steps": "generate code, assemble, link"})


def homes(chk, repo, objs):
    """the directory for intermediate files: missing parents, cleared before, cleared by --clear-cache"""
    jobs = [(h, b, c) for h in ("new", "no-cache", "cache", "filled") for b in ("assembly", "C") for c in ((), ("--clear-cache",))]

    def one(j):
        h, b, c = j
        w = World(repo, objs)
        w.put("t.csp", PROG)
        home = os.path.join(w.wd, "home")
        os.rmdir(os.path.join(home, ".cache"))
        if h == "new":
            os.rmdir(home)
        cache = os.path.join(home, ".cache", "cspydr")
        if h in ("cache", "filled"):
            os.makedirs(cache if h == "filled" else os.path.dirname(cache))
        if h == "filled":
            os.makedirs(os.path.join(cache, "sub"))
            open(os.path.join(cache, "sub", "junk"), "w").close()
        keep = os.path.join(w.wd, "keep")
        open(keep, "w").close()
        args = ["build", "t.csp", "-p", repo.std, "-b", b] + list(c)
        w.run(args)
        if w.rc:
            msg = "exit status %d: %s" % (w.rc, (w.out + w.err)[-200:])
        elif w.new != {"t.out"} or w.gone or w.changed:
            msg = "files created: %s" % sorted(w.new)
        elif c and os.path.exists(cache):
            msg = "--clear-cache leaves %s" % os.listdir(cache)
        elif not os.path.exists(keep):
            msg = "other files are removed"
        else:
            msg = use(w, "t.out", "exe", b, False)
        w.close()
        return msg and (msg, args)
    for j, res in zip(jobs, core.pmap(one, jobs)):
        if res:
            chk.violation("home:%s:%s:%s" % (j[0], j[1], "".join(j[2])), "home directory %s: cspc %s: %s" % (j[0], " ".join(res[1]), res[0]), {"args": res[1], "home": j[0], "csp": PROG, "observed": res[0]})
    chk.add("evaluations", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))


def run(chk, repo):
    wd = repo.workdir()
    objs = {}
    p = os.path.join(wd, "w")
    with open(p + ".c", "w") as f:
        f.write(W_C)
    rc, o, e = core.sh(["gcc", "-O1", "-w", "-fPIC", "-fno-stack-protector", "-c", p + ".c", "-o", p + ".o"])
    if rc:
        raise RuntimeError((o + e).decode("latin-1"))
    objs["w.o"] = p + ".o"
    artifacts(chk, repo, objs)
    pairs(chk, repo, objs)
    arguments(chk, repo, objs)
    failures(chk, repo, objs)
    tools(chk, repo, objs)
    homes(chk, repo, objs)
    schedules(chk, repo, objs)
    core.rmdir(wd)
