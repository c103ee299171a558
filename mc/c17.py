"""C17: compiler directives.  Finite families of programs with directives; each is compiled (and run) and compared with
what the directives say."""
import itertools, os, shutil
import core, verdict

PROP = {
    "id": "C17",
    "title": "Directives do what they say, to the declaration after them and to no other",
    "statement":
        "`[cfg(\"x\")]`, `[env_defined(\"X\")]`, `[env_eq(\"X\", \"v\")]` and `[env_ne(\"X\", \"v\")]` (a leading `!` negates the first two) leave "
        "out exactly the declaration that follows when the condition is false - a function, global, constant, type, namespace, operator, extern "
        "declaration or whole extern block, at top level, in a namespace or in an extern block, also together with other directives - and keep it "
        "otherwise; declarations around it are never affected. `[before_main]` functions run before and `[after_main]` functions after `main`, each "
        "once, in the order of their declarations, `[after_main]` functions with an i32 parameter get what `main` returned, and the program exits "
        "with what `main` returned; `main` may take nothing, `argv`, or `argc` and `argv`. Members of `[flag]` enums are `1 << n`, where n is the "
        "explicit value or one more than that of the member before (0 for the first); n above 31 is rejected. Members of `[immutable]` structs can't be assigned. "
        "Uses of `[deprecated]` declarations (with a date: from the day after) are warned about and nothing else is; impossible dates are rejected. "
        "`[private]` functions and globals of a namespace can't be named from outside of it. `[export(\"name\")]` gives a function or global that symbol "
        "name in the object file. After a call of a `[no_return]` function no value has to be returned. `[cc]`, `[copy]` and `[link_obj]` run the C compiler, copy "
        "and link files relative to the directory of the source file. Unknown directives, wrong numbers of arguments, and directives in front of "
        "a kind of declaration they don't apply to are rejected. Both backends behave alike.",
    "quantifier": {"over": ["programs", "inputs", "configurations"],
                   "text": "Every program that uses directives, for every environment, backend, and placement of the directives."},
    "why_tests_cant": "The tests use a few directives in one place each; whether a declaration is affected depends on the product of directive, its "
                      "neighbours in the brackets, the kind of the declaration, the place of it, the environment and the backend.",
    "anchors": {"files": ["src/compiler/parser/directives.c", "src/compiler/config.c", "src/compiler/parser/parser.c",
                          "src/compiler/parser/validator.c", "src/compiler/codegen/asm/asm_codegen.c",
                          "src/compiler/codegen/transpiler/c_codegen.c"],
                "mechanism": "parse_directives collects directives and applies them to the parsed declaration; DIRECTIVES table with argument "
                             "counts and declaration kinds; asm_gen_entry_point / c_gen_entry_point; exported symbols"},
    "technique": "bounded exhaustive enumeration of the compiler's input space (explicit-state exploration of directive x declaration x placement x environment x backend against reference tables)",
    "level": "bounded-exhaustive",
    "level_note": "all conditions x all kinds of declarations x placements x groupings x 2 backends; all arrangements of up to 3 before_main/after_main "
                  "functions and all forms of main; all flag enums of up to 4 members with explicit values from a boundary set; all misuse combinations of one "
                  "directive and one declaration kind",
}

M = "fn main(): i32 { <- 0; }\n"
ENV = {"CSP_E_A": "a", "CSP_E_Z": ""}
BACKENDS = ("assembly", "C")

W_C = r"""
void put(int c) { char ch = c; long r; __asm__ volatile("syscall" : "=a"(r) : "a"(1L), "D"(1L), "S"(&ch), "d"(1L) : "rcx", "r11", "memory"); }
int exported_var = 41; int exported_twice(int x) { return 2 * x; }
/* 16 byte aligned stack at calls: what the ABI demands of the caller */
long stack(void) { return ((unsigned long) __builtin_frame_address(0)) & 15; }
"""


def conditions(backend):
    """[(directive, holds)]"""
    c = []
    for n, v in (("linux", True), ("windows", False), ("macos", False), ("codegen_c", backend == "C"),
                 ("codegen_asm", backend == "assembly"), ("codegen_llvm", False), ("interpreted", False)):
        c.append(('cfg("%s")' % n, v))
        c.append(('cfg("!%s")' % n, not v))
    for var, val in (("CSP_E_A", "a"), ("CSP_E_Z", ""), ("CSP_E_UNSET", None)):
        c.append(('env_defined("%s")' % var, val is not None))
        c.append(('env_defined("!%s")' % var, val is None))
        for w in ("", "a", "b", "aa"):
            c.append(('env_eq("%s", "%s")' % (var, w), (val or "") == w))
            c.append(('env_ne("%s", "%s")' % (var, w), (val or "") != w))
    return c


# kinds of declarations: (name, declaration of alternative number v (0 or 1) with index i, expression that tells which one is there)
KINDS = [
    ("fn", "fn f{i}(): i32 {{ <- {v}; }}", "f{i}()", "d"),
    ("fn-expr", "fn f{i}(): i32 = {v};", "f{i}()", "d"),
    ("global", "let g{i}: i32 = {v};", "g{i}", "d"),
    ("const", "const g{i}: i32 = {v};", "g{i}", "d"),
    ("type", "type T{i}: i{w};", "(sizeof T{i} / 4 - 1): i32", "d"),
    ("struct", "type T{i}: struct {{ a: i{w} }};", "(sizeof T{i} / 4 - 1): i32", "d"),
    ("enum", "type T{i}: enum {{ A = {v} }};", "T{i}::A: i32", "d"),
    ("namespace", "namespace n{i} {{ fn f(): i32 {{ <- {v}; }} let g: i32 = {v}; }}", "(n{i}::f() + n{i}::g) / 2", "d"),
    ("namespace-nested", "namespace n{i} {{ namespace m {{ fn f(): i32 {{ <- {v}; }} }} }}", "n{i}::m::f()", "d"),
    ("namespace-reopened", "namespace shared {{ fn f{i}(): i32 {{ <- {v}; }} }}", "shared::f{i}()", "d"),
    ("namespace-reopened-2", "namespace shared {{ let a{i}: i32 = {v}; namespace deep {{ fn f{i}(): i32 {{ <- {v}; }} }} }}", "(shared::deep::f{i}() + shared::a{i}) / 2", "d"),
    ("operator", "operator <{o}> (a: i32, b: i32): i32 = a * 0 + b * 0 + {v};", "(1 <{o}> 2)", "d"),
    ("extern", 'extern "C" fn x{v}_{i}(): i32;', "x{v}_{i}()", "x"),
    ("extern-block", 'extern "C" {{ fn x{v}_{i}(): i32; fn y{v}_{i}(): i32; let z{v}_{i}: i32; }}', "((x{v}_{i}() + y{v}_{i}() + z{v}_{i}) / 3)", "x"),
    ("in-extern-block", 'fn x{v}_{i}(): i32;', "x{v}_{i}()", "b"),
    ("var-in-extern-block", 'let x{v}_{i}: i32;', "x{v}_{i}", "b"),
    ("in-namespace", "fn f{i}(): i32 {{ <- {v}; }}", "inn::f{i}()", "n"),
    ("type-in-namespace", "type T{i}: i{w};", "(sizeof inn::T{i} / 4 - 1): i32", "n"),
    ("namespace-in-namespace", "namespace s{i} {{ fn f(): i32 {{ <- {v}; }} }}", "inn::s{i}::f()", "n"),
]
OPS = ["".join(t) for t in itertools.product("+-*/%^", repeat=3)]

# how a condition is written in front of a declaration; {c}: it, {t}: a condition that holds
GROUPS = [
    ("alone", "[{c}] "),
    ("first", "[{c}, {t}] "),
    ("last", "[{t}, {c}] "),
    ("two-groups", "[{c}] [{t}] "),
    ("two-groups-last", "[{t}] [{c}] "),
    ("twice", "[{c}, {c}] "),
    ("deprecated", "[deprecated(\"2999-01-01\"), {c}] "),
    ("lib", "[link_dir(\".\"), {c}] "),
]


def neg(c):
    """the directive with the opposite meaning"""
    if c.startswith("env_eq"):
        return "env_ne" + c[6:]
    if c.startswith("env_ne"):
        return "env_eq" + c[6:]
    a, b = c.split('("')
    return a + '("' + (b[1:] if b[0] == "!" else "!" + b)


def cond_program(kind, group, backend, shift):
    """pairs of declarations with opposite conditions; main returns 1 + the index of the first pair that is wrong"""
    name, decl, use, place = kind
    conds = conditions(backend)
    conds = conds[shift:] + conds[:shift]
    t = 'cfg("linux")'
    out, checks, xs = [], [], []
    for i, (c, holds) in enumerate(conds):
        f = dict(i=i, o=OPS[i])
        a = group[1].format(c=c, t=t) + decl.format(v=1, w=64, **f)
        b = group[1].format(c=neg(c), t=t) + decl.format(v=0, w=32, **f)
        if place in "xb":
            # only the included ones are declared, so only these can be used; the other one could be called if it was kept: see cond_rejects
            out += [a, b]
            e = use.format(v=int(holds), **f)
            xs.append(i)
        else:
            out += [a, b]
            e = use.format(**f)
        # neighbours
        nb = "fn k%d(): i32 { <- %d; }" % (i, i) if place != "b" else "fn nb%d(): i32;" % i
        out.append(nb)
        checks.append("  if %s != %d { <- %d; }" % (e, int(holds), i + 1))
        checks.append("  if %s != %d { <- 100; }" % (("inn::" if place == "n" else "") + ("k%d()" % i if place != "b" else "nb%d()" % i), i))
    body = "\n".join(out)
    if place == "b":
        body = 'extern "C" {\n' + body + "\n}"
    if place == "n":
        body = "namespace inn {\n" + body + "\n}"
    src = ("[link_obj(\"x.o\")]\n" if place in "xb" else "") + body + "\nfn main(): i32 {\n" + "\n".join(checks) + "\n  <- 0;\n}\n"
    return src, conds


def x_c(n):
    """what the extern declarations refer to"""
    s = ""
    for i in range(n):
        s += "int nb%d(void) { return %d; }" % (i, i)
        for v in (0, 1):
            s += "int %s%d_%d(void) { return %d; } int y%d_%d(void) { return %d; } int z%d_%d = %d;\n" % ("x", v, i, v, v, i, v, v, i, v)
    return s


def x_var_c(n):
    return "".join("int nb%d(void) { return %d; } int x0_%d = 0, x1_%d = 1;\n" % (i, i, i, i) for i in range(n))


def build(repo, src, backend, objs=(), env=None, files=None, out="exe", flags=()):
    wd = repo.workdir()
    for o in objs:
        shutil.copy(o, wd)
    saved = {}
    return repo.compile(src, backend=backend, wd=wd, files=files, out=out, flags=flags, env=env)


def verdict_of(r):
    if r.timed_out:
        return "compiler does not end"
    if r.crashed:
        return "compiler crashed (status %d): %s" % (r.rc, core.plain(r.log)[-300:])
    if not r.ok:
        return "valid program rejected: " + core.plain(r.log).strip()[:400]
    return None


def conditional(chk, repo, objs):
    shifts = (0, 7) if not chk.thorough else range(0, 38, 3)
    jobs = [(k, g, b, s) for k in KINDS for g in GROUPS for b in BACKENDS for s in shifts
            if not (k[3] == "b" and g[0] == "deprecated" and False)]

    def one(j):
        k, g, b, s = j
        src, conds = cond_program(k, g, b, s)
        o = [objs["xv.o" if k[0] == "var-in-extern-block" else "x.o"]] if k[3] in "xb" else []
        if o:
            src = src.replace("x.o", os.path.basename(o[0]))
        r = build(repo, src, b, o, ENV)
        msg = verdict_of(r)
        if msg is None:
            rc, _, err = core.sh([r.path], timeout=20)
            if rc:
                msg = ("a neighbouring declaration is wrong" if rc == 100 else "%s: %s %s is wrong" % (k[0], *conds[rc - 1])) if 0 < rc <= 100 else "program ends with %d" % rc
        r.clean()
        return msg and (src, msg)
    n = 0
    for j, res in zip(jobs, core.pmap(one, jobs)):
        key = "cond:%s:%s:%s:%d" % (j[0][0], j[1][0], j[2], j[3])
        n += len(conditions(j[2])) * 2
        if res:
            chk.violation(key, "%s: %s" % (key, res[1]), {"csp": res[0], "backend": j[2], "env": ENV, "observed": res[1]})
    chk.add("evaluations", n)
    chk.add("distinct_nontrivial", n)
    chk.sample({"csp": cond_program(KINDS[0], GROUPS[1], "assembly", 0)[0][:600]})


def cond_rejects(chk, repo, objs):
    """declarations whose condition is false can't be used"""
    items = []
    for k in KINDS:
        for c, holds in conditions("assembly"):
            f = dict(i=0, o="+++")
            decl = "[%s] %s" % (c, k[1].format(v=1, w=64, **f))
            use = k[2].format(v=1, **f)
            if k[3] == "b":
                decl = 'extern "C" { fn a(): i32; %s fn b(): i32; }' % decl
            elif k[3] == "n":
                decl = "namespace inn { fn a(): i32 { <- 1; } %s fn b(): i32 { <- 1; } }" % decl
            else:
                decl = "fn a(): i32 { <- 1; } %s fn b(): i32 { <- 1; }" % decl
            items.append(("%s:%s" % (k[0], c), "%s\nfn main(): i32 { <- %s; }\n" % (decl, use), holds))
    return items


# ---------------------------------------------------------------------------------------------------- before and after main

MAINS = [
    ("none", "fn main(): i32 {{ put('M'); <- {e}; }}"),
    ("argv", "fn main(argv: &&char): i32 {{ put('M'); put(argv[1][0]); put(argv[2][1]); if stack() != 0 {{ put('!'); }} <- {e}; }}"),
    ("argc", "fn main(argc: i32, argv: &&char): i32 {{ put('M'); put('0' + argc: char); put(argv[argc - 1][0]); if argv[argc]: u64 != 0 {{ put('?'); }} if stack() != 0 {{ put('!'); }} <- {e}; }}"),
]
MAIN_OUT = {"none": "M", "argv": "Mpq", "argc": "M3q"}
HOOKS = [
    # name, declaration, what it prints before / after main
    ("b", "[before_main] fn {f}() {{ put('{c}'); if stack() != 0 {{ put('!'); }} }}", "{c}", ""),
    ("a", "[after_main] fn {f}() {{ put('{c}'); if stack() != 0 {{ put('!'); }} }}", "", "{c}"),
    ("x", "[after_main] fn {f}(code: i32) {{ put('{c}'); if stack() != 0 {{ put('!'); }} put('A' + (code % 26): char); }}", "", "{c}{e}"),
    ("ba", "[before_main, after_main] fn {f}() {{ put('{c}'); }}", "{c}", "{c}"),
    ("ab", "[after_main] [before_main] fn {f}() {{ put('{c}'); }}", "{c}", "{c}"),
    ("nb", "namespace n{c} {{ [before_main] fn {f}() {{ put('{c}'); }} }}", "{c}", ""),
    ("nx", "namespace n{c} {{ [after_main] fn {f}(code: i32) {{ put('{c}'); put('A' + (code % 26): char); }} }}", "", "{c}{e}"),
    ("off", "[before_main, cfg(\"windows\")] fn {f}() {{ put('{c}'); }}", "", ""),
    ("off2", "[cfg(\"windows\")] namespace n{c} {{ [after_main] fn {f}() {{ put('{c}'); }} }}", "", ""),
    ("plain", "fn {f}() {{ put('{c}'); }}", "", ""),
]


def hooks(chk, repo, objs):
    depth = 2 if not chk.thorough else 3
    seqs = [s for n in range(depth + 1) for s in itertools.product(HOOKS, repeat=n)]
    if not chk.thorough:
        seqs += [s for s in itertools.product([h for h in HOOKS if h[0] in ("b", "a", "x")], repeat=3)]
    jobs = []
    for si, s in enumerate(seqs):
        for pos in range(len(s) + 1):
            for mi, m in enumerate(MAINS):
                if len(s) > 1 and not chk.thorough and (si + pos + mi) % 3:
                    continue        # every sequence x place of main with one form of main, all forms are used evenly
                for b in BACKENDS:
                    jobs.append((s, pos, m, b, (0, 3, 77, 255)[(si + pos + mi) % 4]))

    def one(j):
        s, pos, m, b, code = j
        parts, pre, post = [], "", ""
        e = chr(ord("A") + code % 26)
        for i, h in enumerate(s):
            c = "abcdef"[i]
            parts.append(h[1].format(f="f" + c, c=c))
            pre += h[2].format(c=c)
            post += h[3].format(c=c, e=e)
        parts.insert(pos, m[1].format(e=code))
        src = '[link_obj("w.o")] extern "C" { fn put(c: char); fn stack(): i64; }\n' + "\n".join(parts) + "\n"
        exp = (code, pre + MAIN_OUT[m[0]] + post)
        r = build(repo, src, b, [objs["w.o"]])
        msg = verdict_of(r)
        if msg is None:
            rc, o, _ = core.sh([r.path, "pp", "qq"], timeout=20)
            o = o.decode("latin-1")
            if (rc, o) != exp:
                msg = "program prints %r and exits with %d, expected %r and %d" % (o, rc, exp[1], exp[0])
        r.clean()
        return msg and (src, msg)
    for j, res in zip(jobs, core.pmap(one, jobs)):
        if res:
            key = "main:%s:%d:%s:%s" % ("-".join(h[0] for h in j[0]), j[1], j[2][0], j[3])
            chk.violation(key, "%s: %s" % (key, res[1]), {"csp": res[0], "backend": j[3], "args": ["pp", "qq"], "observed": res[1]})
    chk.add("evaluations", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))


# ---------------------------------------------------------------------------------------------------- flag enums

def flags(chk, repo, objs):
    vals = (None, 0, 2, 5, 30, 31)
    seqs = [s for n in (1, 2, 3) for s in itertools.product(vals, repeat=n)]
    seqs += [s for s in itertools.product((None, 3, 29), repeat=4)]
    good, bad = [], []
    for s in seqs:
        n, ok, ref = 0, True, []
        for v in s:
            n = v if v is not None else n
            if n > 31:
                ok = False
            ref.append(1 << min(n, 31))
            n += 1
        decl = "[flag] type %%s: enum { %s };" % ", ".join("M%d%s" % (i, "" if v is None else " = %d" % v) for i, v in enumerate(s))
        (good if ok else bad).append((s, decl, ref))
    B = 24
    jobs = [(good[i:i + B], b) for i in range(0, len(good), B) for b in BACKENDS]

    def one(j):
        es, b = j
        src = "".join(d % ("E%d" % i) + "\n" for i, (_, d, _) in enumerate(es))
        src += "type P: enum { A, B, C };\nfn main(): i32 {\n  if P::A: i32 != 0 || P::C: i32 != 2 { <- 255; }\n"
        for i, (s, d, ref) in enumerate(es):
            for k, v in enumerate(ref):
                src += "  if (E%d::M%d): u32 != %s { <- %d; }\n" % (i, k, v if v < 2**31 else "(1: u32 << 31)", i + 1)
        src += "  <- 0;\n}\n"
        r = build(repo, src, b)
        msg = verdict_of(r)
        key = "flag:%s" % (es[0][0],)
        if msg is None:
            rc, _, _ = core.sh([r.path], timeout=20)
            if rc:
                msg = "wrong values in: " + (es[rc - 1][1] % "E" if 0 < rc <= len(es) else "plain enum")
                if 0 < rc <= len(es):
                    key = "flag:%s" % (es[rc - 1][0],)
        r.clean()
        return msg and (key + ":" + b, msg, src)
    for j, res in zip(jobs, core.pmap(one, jobs)):
        if res:
            chk.violation(res[0], "%s: %s" % res[:2], {"csp": res[2], "backend": j[1], "observed": res[1]})
    chk.add("evaluations", sum(len(j[0]) for j in jobs))
    chk.add("distinct_nontrivial", len(good))
    return [("flag:%s" % (s,), d % "E" + "\n" + M, False) for s, d, _ in bad]


# ---------------------------------------------------------------------------------------------------- deprecated

DEP = [
    ("fn", "%sfn d(): i32 { <- 1; }", "d()"),
    ("global", "%slet d: i32 = 1;", "d"),
    ("const", "%sconst d: i32 = 1;", "d"),
    ("type", "%stype d: i32;", "(1: d): i32"),
    ("struct", "%stype d: struct { a: i32 };", "(sizeof d): i32"),
    ("enum", "%stype d: enum { A };", "d::A: i32"),
    ("namespace", "%snamespace d { fn f(): i32 { <- 1; } }", "d::f()"),
    ("member", "namespace q { %sfn d(): i32 { <- 1; } fn e(): i32 { <- 1; } }", "q::d()"),
    ("extern", "%sextern \"C\" fn d(): i32;", "d()"),
    ("extern-block", "%sextern \"C\" { fn c(): i32; fn d(): i32; fn e(): i32; }", "d()"),
    ("extern-block-first", "%sextern \"C\" { fn d(): i32; fn e(): i32; }", "d()"),
    ("in-extern-block", "extern \"C\" { fn c(): i32; %sfn d(): i32; }", "d()"),
]


def dates():
    """[(date, verdict)]: past, future, invalid"""
    out = []
    for y in (1971, 2000, 2024, 2900):
        for m in range(0, 14):
            for d in (0, 1, 28, 29, 30, 31, 32):
                dim = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
                if not 1 <= m <= 12 or not 1 <= d <= dim[m - 1]:
                    out.append(("%04d-%02d-%02d" % (y, m, d), "invalid"))
                elif y < 2026:
                    out.append(("%04d-%02d-%02d" % (y, m, d), "past"))
                else:
                    out.append(("%04d-%02d-%02d" % (y, m, d), "future"))
    for s in ("", "x", "2020", "2020-01", "2020-01-", "2020/01/01", "-", "--"):
        out.append((s, "invalid"))
    return out


def deprecated(chk, repo, objs):
    jobs = []
    for name, decl, use in DEP:
        for pre, warn in (("", False), ("[deprecated] ", True), ('[deprecated("2001-02-03")] ', True), ('[deprecated("2900-02-03")] ', False),
                          ('[deprecated, private] ' if name != "member" else "[deprecated] ", True), ('[deprecated, cfg("linux")] ', True)):
            for used in (False, True):
                src = decl % pre + "\nfn other(): i32 { <- 2; }\nfn main(): i32 { let v = other(); <- v%s; }\n" % (" + " + use if used else "")
                jobs.append((name, src, warn and used))
    for d, v in dates():
        src = '[deprecated("%s")] fn d(): i32 { <- 1; }\nfn main(): i32 { <- d(); }\n' % d
        jobs.append(("date:" + d, src, None if v == "invalid" else v == "past"))

    def one(j):
        name, src, warn = j
        r = build(repo, src, "assembly", out="obj")
        log = core.plain(r.log)
        msg = verdict_of(r)
        if warn is None:
            if not (msg or "").startswith("compiler"):
                msg = "invalid date accepted" if msg is None else None
        elif msg is None:
            if ("is deprecated" in log) != warn:
                msg = "use of deprecated declaration not reported" if warn else "reported as deprecated: " + log.strip()[:200]
        r.clean()
        return msg
    for j, msg in zip(jobs, core.pmap(one, jobs)):
        if msg:
            chk.violation("deprecated:" + j[0], "%s: %s" % (j[1].strip()[-250:], msg), {"csp": j[1], "observed": msg})
    chk.add("evaluations", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))


# ---------------------------------------------------------------------------------------------------- export

def export(chk, repo, objs):
    """exported functions and globals, seen from C"""
    decls, c, checks = [], "", ""
    k = 0
    sig = [("i32", "int", "7"), ("u8", "unsigned char", "200"), ("i64", "long", "123456789"), ("f64", "double", "2.0")]
    for ns in (None, "a", "a::b"):
        for t, ct, v in sig:
            for what in ("fn", "let", "let0", "const", "var-noexport"):
                n = "sym_%d" % k
                d = {"fn": '[export("%s")] fn o%d(x: %s): %s { <- x + (1: %s); }' % (n, k, t, t, t),
                     "let": '[export("%s")] let o%d: %s = %s;' % (n, k, t, v),
                     "let0": '[export("%s")] let o%d: %s;' % (n, k, t),
                     "const": '[export("%s")] const o%d: %s = %s;' % (n, k, t, v),
                     "var-noexport": 'let o%d: %s = %s;' % (k, t, v)}[what]
                acc = '[export("get_%d")] fn get%d(): %s { <- %s; }' % (k, k, t, "o%d" % k if what != "fn" else "o%d(%s)" % (k, v))
                st = '[export("set_%d")] fn set%d(v: %s) { o%d = v; }' % (k, k, t, k) if what in ("let", "let0") else ""
                if ns:
                    for part in reversed(ns.split("::")):
                        d = "namespace %s { %s %s %s }" % (part, d, acc, st)
                        acc = st = ""
                decls.append(d + acc + st)
                c += "extern %s get_%d(void);\n" % (ct, k)
                if what == "fn":
                    c += "extern %s %s(%s);\n" % (ct, n, ct)
                    checks += "if (%s(%s) != (%s) ((%s) + 1) || get_%d() != (%s) ((%s) + 1)) return %d;\n" % (n, v, ct, v, k, ct, v, k + 1)
                elif what != "var-noexport":
                    c += "extern %s %s;\n" % (ct, n)
                    checks += "if (%s != %s || get_%d() != %s) return %d;\n" % (n, v if what != "let0" else "0", k, v if what != "let0" else "0", k + 1)
                    if what != "const":
                        c += "extern void set_%d(%s);\n" % (k, ct)
                        checks += "%s = 3; if (get_%d() != 3) return %d; set_%d(9); if (%s != 9) return %d;\n" % (n, k, k + 1, k, n, k + 1)
                k += 1
    # aggregates
    decls.append('type P: struct { x: i32, y: i64 }; [export("agg_p")] let p: P = P::{3, 4}; [export("agg_a")] let ca: i16 \'c[3]; '
                 '[export("agg_sum")] fn sum(q: P): i64 { ca[1] += 5; p.x += 1; <- q.x + q.y + p.x + ca[1]; }')
    c += "struct P { int x; long y; }; extern struct P agg_p; extern short agg_a[3]; extern long agg_sum(struct P);\n"
    checks += "agg_a[1] = 10; struct P q = {100, 200}; if (agg_p.x != 3 || agg_p.y != 4 || agg_sum(q) != 319 || agg_p.x != 4 || agg_a[1] != 15) return 250;\n"
    src = "\n".join(decls) + "\n" + M
    driver = c + "int main(void) {\n" + checks + "return 0; }\n"
    for b in BACKENDS:
        for fl in ((), ("--no-opt",)):
            r = build(repo, src, b, out="obj", flags=fl)
            msg = verdict_of(r)
            if msg is None:
                core.sh(["objcopy", "--redefine-sym", "main=csp_main_", "--redefine-sym", "_start=csp_start_", r.path])
                dc = os.path.join(r.wd, "d.c")
                with open(dc, "w") as f:
                    f.write(driver)
                rc, o, e = core.sh(["gcc", "-w", "-no-pie", dc, r.path, "-o", os.path.join(r.wd, "d"), "-Wl,-z,noexecstack"])
                if rc:
                    msg = "exported symbols can't be linked: " + (o + e).decode("latin-1")[-300:]
                else:
                    rc, _, _ = core.sh([os.path.join(r.wd, "d")], timeout=20)
                    if rc:
                        msg = "exported symbol %d misbehaves: %s" % (rc - 1, decls[rc - 1] if 0 < rc <= len(decls) else "")
            r.clean()
            if msg:
                chk.violation("export:%s:%s" % (b, fl), "%s %s: %s" % (b, fl, msg), {"csp": src, "c": driver, "backend": b, "observed": msg})
            chk.add("evaluations", k)
    chk.add("distinct_nontrivial", k)


# ---------------------------------------------------------------------------------------------------- files

def tools(chk, repo, objs):
    """[cc], [copy], [link_obj] relative to the source file, from the same or another directory"""
    X = 'extern "C" { fn one(): i32; }'
    good = [
        ("cc", '[cc("-c sub.c -o sub.o")] [link_obj("sub.o")] %s fn main(): i32 { <- one(); }' % X),
        ("cc-joined", '[cc("-c sub.c -o sub.o"), link_obj("sub.o")] %s fn main(): i32 { <- one(); }' % X),
        ("cc-extern", '[cc("-c sub.c -o sub.o"), link_obj("sub.o"), private] %s fn main(): i32 { <- one(); }' % X),
        ("cc-args", '[cc("-c", "sub.c", "-o sub.o")] [link_obj("sub.o")] %s fn main(): i32 { <- one(); }' % X),
        ("cc-many-args", '[cc("-c -O1 -g -w -std=c99 -fno-builtin -fPIC -DA -DB -DC -DD -DE sub.c -o sub.o")] [link_obj("sub.o")] %s fn main(): i32 { <- one(); }' % X),
        ("cc-dir", '[cc("-c d/sub2.c -o d/sub2.o")] [link_obj("d/sub2.o")] %s fn main(): i32 { <- one() / 2; }' % X),
        ("copy", '[cc("-c sub.c -o sub.o")] [copy("sub.o", "copied.o")] [link_obj("copied.o")] %s fn main(): i32 { <- one(); }' % X),
        ("copy-dir", '[cc("-c d/sub2.c -o d/sub2.o")] [copy("d", "e")] [link_obj("e/sub2.o")] %s fn main(): i32 { <- one() / 2; }' % X),
        ("link-two", '[cc("-c sub.c -o sub.o")] [cc("-c other.c -o other.o")] [link_obj("sub.o", "other.o")] extern "C" { fn one(): i32; fn three(): i32; } fn main(): i32 { <- three() - one() * 2; }'),
        ("link-late", 'fn main(): i32 { <- one(); } %s [cc("-c sub.c -o sub.o")] [link_obj("sub.o")]' % X),
        ("import", 'import "d/imp.csp"; fn main(): i32 { <- two() - 1; }'),
    ]
    bad = [
        ("cc-fails", '[cc("-c nosuch.c -o sub.o")] fn main(): i32 { <- 1; }'),
        ("copy-fails", '[copy("nosuch", "x")] fn main(): i32 { <- 1; }'),
        ("link-fails", '[link_obj("nosuch.o")] fn main(): i32 { <- 1; }'),
    ]
    files = {"sub.c": "int one(void) { return 1; }", "other.c": "int three(void) { return 3; }", "d/sub2.c": "int one(void) { return 2; }",
             "d/imp.csp": '[cc("-c sub2.c -o imp.o")] [link_obj("imp.o")] extern "C" fn one(): i32; fn two(): i32 { <- one(); }\n'}
    jobs = [(n, s, b, sub, ok) for ok, l in ((True, good), (False, bad)) for n, s in l for b in BACKENDS for sub in (False, True, "relative")]

    def one(j):
        n, src, b, sub, ok = j
        pre = "s/" if sub else ""
        if sub == "relative":
            # source and target are named relative to the directory cspc runs in
            wd = repo.workdir()
            for k, v in {**files, "t.csp": src + "\n"}.items():
                q = os.path.join(wd, "s", k)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").write(v)
            rc, o, e = repo.run_cspc(wd, ["build", "s/t.csp", "-o", "r.out", "-p", repo.std, "-b", b, "--silent"])
            there = os.path.exists(os.path.join(wd, "r.out"))
            msg = None
            if rc not in (0, 1):
                msg = "compiler crashed (status %d)" % rc
            elif (rc == 0) != ok:
                msg = "status %d: %s" % (rc, core.plain((o + e).decode(errors="replace"))[-300:])
            elif ok and not there:
                msg = "the target is not in the directory cspc runs in"
            elif ok and core.sh([os.path.join(wd, "r.out")], timeout=20)[0] != 1:
                msg = "program does not return 1"
            core.rmdir(wd)
            return msg
        r = repo.compile(src + "\n", backend=b, name=pre + "t", files={**{pre + k: v for k, v in files.items()}})
        msg = verdict_of(r)
        if not ok:
            if not (msg or "").startswith("compiler"):
                msg = "command fails, but program is accepted" if msg is None else None
        elif msg is None:
            rc, _, _ = core.sh([r.path], timeout=20)
            if rc != 1:
                msg = "program returns %d, expected 1" % rc
        r.clean()
        return msg
    for j, msg in zip(jobs, core.pmap(one, jobs)):
        if msg:
            key = "files:%s:%s%s" % (j[0], j[2], ":relative" if j[3] == "relative" else ":sub" if j[3] else "")
            chk.violation(key, "%s: %s: %s" % (key, j[1], msg), {"csp": j[1], "files": files, "backend": j[2], "observed": msg})
    chk.add("evaluations", len(jobs))
    chk.add("distinct_nontrivial", len(jobs))


# ---------------------------------------------------------------------------------------------------- accepted and rejected programs

DECLS = [
    ("fn", "fn f(): i32 { <- 1; }"), ("global", "let g: i32 = 1;"), ("const", "const g: i32 = 1;"), ("type", "type T: i32;"),
    ("struct", "type T: struct { a: i32 };"), ("enum", "type T: enum { A };"), ("union", "type T: union { a: i32 };"),
    ("namespace", "namespace n { fn f(): i32 { <- 1; } }"), ("extern-fn", 'extern "C" fn f(): i32;'), ("extern-var", 'extern "C" let f: i32;'),
    ("fn1", "fn f(a: i32): i32 { <- a; }"), ("void1", "fn f(a: i32) { }"), ("void", "fn f() { }"), ("fn2", "fn f(a: i32, b: i32) { }"),
]
ARGS0 = ["", '()', '("a")', '("a", "b")', '("a", "b", "c")']
FN = {"fn", "extern-fn", "fn1", "void1", "void", "fn2"}
VAR = {"global", "const", "extern-var"}
TY = {"type", "struct", "enum", "union"}
ALL = FN | VAR | TY | {"namespace"}
# directive: (numbers of arguments, kinds it applies to)
DIRS = {
    "after_main": ({0}, FN - {"fn2", "extern-fn"}),
    "before_main": ({0}, FN - {"fn1", "void1", "fn2", "extern-fn"}),
    "cfg": ({1}, ALL),
    "constexpr": ({0}, {"fn", "fn1"}),
    "drop": ({0}, {"void1"}),
    "env_defined": ({1}, ALL),
    "env_eq": ({2}, ALL),
    "env_ne": ({2}, ALL),
    "export": ({1}, FN | VAR),
    "flag": ({0}, {"enum"}),
    "immutable": ({0}, {"struct", "union"}),
    "deprecated": ({0}, ALL),
    "no_return": ({0}, FN),
    "private": ({0}, ALL),
    "nosuch": (set(), set()),
    "Cfg": (set(), set()),
    "cfgx": (set(), set()),
    "cf": (set(), set()),
}
SKIP = {("constexpr", "global"), ("constexpr", "void"), ("constexpr", "void1"), ("constexpr", "fn2"), ("constexpr", "extern-fn"), ("constexpr", "extern-var"),
        ("drop", "fn1"), ("after_main", "extern-fn"), ("before_main", "extern-fn"), ("drop", "extern-fn")}


def misuse():
    items = []
    for d, (nargs, kinds) in DIRS.items():
        for kn, decl in DECLS:
            if (d, kn) in SKIP:
                continue
            for n, a in zip((0, 0, 1, 2, 3), ARGS0):
                if d == "cfg" and n == 1:
                    a = '("linux")'
                if d == "deprecated" and n == 1:
                    continue
                items.append(("use:%s%s:%s" % (d, a, kn), "[%s%s] %s\n%s" % (d, a, decl, M), n in nargs and kn in kinds))
    for d in DIRS:
        if DIRS[d][0]:
            a = {0: "", 1: '("linux")', 2: '("a", "b")'}[min(DIRS[d][0])]
            items.append(("eof:" + d, M + "[%s%s]" % (d, a), False))
            items.append(("stray:" + d, "[%s%s] ; %s" % (d, a, M), False))
            items.append(("stmt:" + d, "fn main(): i32 { [%s%s] let v = 1; <- v; }\n" % (d, a), False))
            if "fn" in DIRS[d][1]:
                for o in ("private", "deprecated", 'cfg("linux")', 'export("z")', "no_return"):
                    for dl in (DECLS[0][1],):
                        items.append(("pair:%s:%s" % (d, o), "[%s%s, %s] %s\n%s" % (d, a, o, dl, M), True))
                        items.append(("pair2:%s:%s" % (o, d), "[%s] [%s%s] %s\n%s" % (o, d, a, dl, M), True))
                        items.append(("pair-nocomma:%s:%s" % (o, d), "[%s %s%s] %s\n%s" % (o, d, a, dl, M), False))
                        items.append(("pair-unknown:%s:%s" % (o, d), "[%s, nosuch, %s%s] %s\n%s" % (o, d, a, dl, M), False))
                        items.append(("pair-wrong:%s:%s" % (o, d), "[%s, %s%s, flag] %s\n%s" % (o, d, a, dl, M), False))
    for c in ("nosuch", "!nosuch", "Linux", "linu", "linuxx", "!"):
        items.append(("cfg:" + c, '[cfg("%s")] fn f(): i32 { <- 1; }\n%s' % (c, M), False))
    for a in ("(1)", "(linux)", "('a')", '("linux"', '("linux" "macos")', "{}", "(\"linux\"))"):
        items.append(("args:" + a, '[cfg%s] fn f(): i32 { <- 1; }\n%s' % (a, M), False))
    for n, s in (("open", "[cfg(\"linux\") fn f(): i32 { <- 1; }"), ("empty", "[] fn f(): i32 { <- 1; }"), ("number", "[1] fn f(): i32 { <- 1; }"),
                 ("string", "[\"cfg\"] fn f(): i32 { <- 1; }")):
        items.append(("syntax:" + n, s + "\n" + M, False))

    # immutable members
    for n, mem, lv, val in (("int", "a: i32", "a", "3"), ("second", "z: i8, a: i64", "a", "3"), ("ptr", "a: &i32", "a", "&q"), ("array", "a: i32[2]", "a[1]", "3"),
                            ("struct", "a: Q", "a.k", "3"), ("struct2", "a: Q", "a", "qq"), ("float", "a: f64", "a", "1.5"), ("alias", "a: A", "a", "3")):
        pre = "type A: i32; type Q: struct { k: i32 }; let q: i32; let qq: Q; %s type T: struct { %s };\n"
        for how, st in (("local", "let t: T; t.%s = %s;"), ("ptr", "let t: T; let p = &t; p.%s = %s;"), ("arg", "u.%s = %s;"), ("nested", "let o: O; o.t.%s = %s;")):
            for im in (False, True):
                body = st % (lv, val)
                items.append(("immutable:%s:%s:%d" % (n, how, im), pre % ("[immutable]" if im else "", mem) +
                              "type O: struct { t: T }; fn f(u: T) { %s }\n%s" % (body, M), not im))
        if n in ("int", "second", "float", "alias"):
            items.append(("immutable:%s:inc:1" % n, pre % ("[immutable]", mem) + "fn f(u: T) { u.%s++; }\n%s" % (lv, M), False))
            items.append(("immutable:%s:add:1" % n, pre % ("[immutable]", mem) + "fn f(u: T) { u.%s += %s; }\n%s" % (lv, val, M), False))
            items.append(("immutable:%s:others" % n, pre % ("[immutable]", mem) + "type V: struct { %s }; fn f(u: V) { u.%s = %s; let w: i32 = 1; w = 2; let x: i64; x = 2; let y: f64; y = 1.0; }\n%s" % (mem, lv, val, M), True))
            items.append(("immutable:%s:read" % n, pre % ("[immutable]", mem) + "fn f(u: T): bool { let c = u.%s; <- c == %s; }\n%s" % (lv, val, M), True))
            items.append(("immutable:%s:before" % n, "type V: struct { %s };" % mem.replace("A", "i32") + pre % ("[immutable]", mem) + "fn f(u: V) { u.%s = %s; }\n%s" % (lv, val, M), True))
    # private
    for n, d, u in (("fn", "fn x(): i32 { <- 1; }", "x()"), ("let", "let x: i32 = 1;", "x"), ("const", "const x: i32 = 1;", "x"),
                    ("op-fn", "fn x(a: i32 ...", "")):
        if not u:
            continue
        for pre in ("", "[private] ", '[private, cfg("linux")] ', '[cfg("linux")] [private] ', "[deprecated(\"2999-01-01\"), private] "):
            priv = "private" in pre
            for ns, path in (("namespace n { %s }", "n::"), ("namespace n { namespace m { %s } }", "n::m::")):
                items.append(("private:%s:%s:%s:outside" % (n, pre, path), ns % (pre + d) + "\nfn f(): i32 { <- %s%s; }\n%s" % (path, u, M), not priv))
                items.append(("private:%s:%s:%s:main" % (n, pre, path), ns % (pre + d) + "\nfn main(): i32 { <- %s%s; }\n" % (path, u), not priv))
                items.append(("private:%s:%s:%s:other" % (n, pre, path), ns % (pre + d) + "\nnamespace k { fn f(): i32 { <- %s%s; } }\n%s" % (path, u, M), not priv))
                items.append(("private:%s:%s:%s:inside" % (n, pre, path), ns % (pre + d + " fn f(): i32 { <- %s; }" % u) + "\nfn main(): i32 { <- %sf(); }\n" % path, True))
                items.append(("private:%s:%s:%s:inside-before" % (n, pre, path), ns % ("fn f(): i32 { <- %s; } " % u + pre + d) + "\nfn main(): i32 { <- %sf(); }\n" % path, True))
                items.append(("private:%s:%s:%s:sibling" % (n, pre, path), ns % (pre + d + " fn y(): i32 { <- 2; } ") + "\nfn main(): i32 { <- %sy(); }\n" % path, True))
                items.append(("private:%s:%s:%s:sibling-before" % (n, pre, path), ns % (" fn y(): i32 { <- 2; } " + pre + d) + "\nfn main(): i32 { <- %sy(); }\n" % path, True))
                items.append(("private:%s:%s:%s:deeper" % (n, pre, path), ns % (pre + d + " namespace q { fn f(): i32 { <- %s; } }" % u) + "\nfn main(): i32 { <- %sq::f(); }\n" % path, True))
    # functions that do not return
    for pre in ("", "[no_return] ", '[no_return, cfg("linux")] '):
        nr = bool(pre)
        E = pre + "fn die(c: i32) { loop { c++; } }\n"
        for n, body in (("end", "die(1);"), ("else", "if a == 1 { <- 1; } else { die(2); }"), ("then", "if a == 1 { die(2); } else { <- 1; }"),
                        ("both", "if a == 1 { die(2); } else { die(3); }"), ("block", "{ die(2); }"), ("match", "match a { 1 => { <- 1; } _ => { die(1); } }")):
            items.append(("no_return:%s:%s" % (pre, n), E + "fn f(a: i32): i32 { %s }\n%s" % (body, M), nr))
        items.append(("no_return:%s:if" % pre, E + "fn f(a: i32): i32 { if a == 1 { die(2); } }\n" + M, False))
        items.append(("no_return:%s:other" % pre, E + "fn live(c: i32) { c++; }\nfn f(a: i32): i32 { live(a); }\n" + M, False))
        items.append(("no_return:%s:before" % pre, "fn live(c: i32) { c++; }\n" + E + "fn f(a: i32): i32 { live(a); }\n" + M, False))
    return items


def run(chk, repo):
    wd = repo.workdir()
    objs = {}
    n = len(conditions("C"))
    for name, text in (("w", W_C), ("x", x_c(n)), ("xv", x_var_c(n))):
        p = os.path.join(wd, name)
        with open(p + ".c", "w") as f:
            f.write(text)
        rc, o, e = core.sh(["gcc", "-O0", "-w", "-fno-omit-frame-pointer", "-fno-stack-protector", "-c", p + ".c", "-o", p + ".o"])
        if rc:
            raise RuntimeError((o + e).decode("latin-1"))
        objs[name + ".o"] = p + ".o"
    env = dict(os.environ)
    conditional(chk, repo, objs)
    verdict.explore(chk, repo, cond_rejects(chk, repo, objs), "cond-use:", env=ENV)
    bad = flags(chk, repo, objs)
    verdict.explore(chk, repo, bad, "")
    hooks(chk, repo, objs)
    deprecated(chk, repo, objs)
    export(chk, repo, objs)
    tools(chk, repo, objs)
    verdict.explore(chk, repo, misuse(), "")
    core.rmdir(wd)
