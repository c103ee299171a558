"""C19: diagnostics.  A mistake out of a finite set is planted into every place out of a finite set (behind everything that
shapes lines: comments, literals over lines, macros, imports, line ends), and what cspc and csp-lint report - file, line,
column, shown source, number, status - is compared with where the mistake was put."""
import itertools, os, re
import c12
import core

BUILD = {"want": ("cspc", "lint")}

PROP = {
    "id": "C19",
    "title": "cspc and csp-lint report every mistake at its file, line and column, and agree",
    "statement":
        "For a program with a mistake, cspc prints and csp-lint writes a report that names the file in which the offending token stands (the main file or an imported one), its line "
        "(counted from 1) and a column within it, whatever stands before it: comments (also nested or over lines), literals over several lines, macro definitions and calls, imports, blank "
        "lines, tabs, CRLF line ends, a missing last line end. For tokens out of a macro's body this is the place in the macro's definition, for its arguments the place of the call. "
        "cspc shows that source line with a marker under the token. Independent undefined names and type errors are all reported, each once. csp-lint reports the same places with the "
        "same descriptions as cspc, numbered from 1, its summary has the numbers of errors and warnings, `-o FILE` writes what `-v` prints, and it ends with status 0 if and only if it reported "
        "nothing. csp-lint accepts exactly the programs cspc's front end accepts, and like cspc ends in an orderly way on every input; a warning alone doesn't make cspc refuse a program.",
    "quantifier": {"over": ["inputs", "programs"], "text": "Every kind of mistake, at every place of a program, behind every sequence of lexical elements."},
    "why_tests_cant": "Tests only look at programs that compile; a position is right or wrong depending on everything that precedes it in the file.",
    "anchors": {"files": ["src/compiler/lexer/lexer.c", "src/compiler/error/default.c", "src/compiler/error/error.c", "src/compiler/io/file.c", "src/compiler/io/io.c",
                          "src/linter/linter.c", "src/linter/error.c", "src/linter/main.c", "src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c"],
                "mechanism": "throw_error, default_error_handler, linter_error_handler, get_line, token positions in lexer_advance / lexer_skip_comment / lexer_get_string, lint"},
    "technique": "bounded exhaustive enumeration (explicit-state exploration of all sequences of line-shaping elements x kinds of mistakes x places on the real compiler and linter, positions computed by construction)",
    "level": "bounded-exhaustive",
    "level_note": "all sequences of up to 2 (thorough: 3) of 22 line-shaping elements x 9 representative mistakes; all ~70 mistakes x all places (9 statement contexts, 7 file layouts, every single element); "
                  "all subsets of 5 places with undefined names or type errors; verdicts of C12's programs for csp-lint",
}

# ------------------------------------------------------------------ what can stand before a mistake, at top level
SHAPE = [
    "\n", "\n\n\n", "\t \n", "# comment\n", "# it's \"one\n", "#[ a ]#\n", "#[ a\n b\n]#\n", "#[ a #[ b\n ]# c\n]# ", "\r\n", "# crlf\r\n",
    'let s@: &char = "x\\ny";\n', 'let s@: &char = "line\nline\n";', "let c@: char = '\\n';\n", "let c@: char = '\"';\n", "let i@: i32 = 0x1f; let j@: i32 = 1_000; ",
    "macro m@(x) {\n  (x)\n  + 1\n}\n", "macro e@ { 3 } ", "fn f@(): i32 {\n  <- 1;\n}\n", "fn g@(x: i32): i32 = x +\n 1; ",
    "type T@: struct {\n a: i32,\n b: i32\n};\n", "namespace n@ {\n\n fn f(): i32 = 1;\n}\n", "let u@: &char = \"\u00e9\u00fc\";\n",
]
# ... and inside of a function
INNER = [
    "\n", "\n\n", "\t", "# c\n", "#[ c\n ]# ", "\r\n", 'put("a\nb");\n', 'put("\\n");\n', "q!(\n 1\n);\n", "q!(1); ", "{\n noop;\n}\n", "let l@ = |x: i32| i32 => {\n <- x;\n}; l@(1);\n",
    "if 1 == 1 {\n noop;\n} else {\n noop; }\n", "match 1 {\n 1 => noop;\n _ => noop;\n}\n", "for 0..1 noop; ", "let y@ =\n\n  3; y@++;\n",
]
HEAD = "fn put(s: &char): i32 = s[0]: i32;\nmacro q(x) { put(\"a\") }\ntype S: struct { a: i32, b: i64 };\nfn two(a: i32, b: i32): i32 = a + b;\n"

# ------------------------------------------------------------------ mistakes: the offending token(s) between « and »
STMT = {
    "undef-id": "let x = «undefd»; x++;",
    "undef-call": "«undefd»(3);",
    "undef-type": "let x: «Undef»; x = 3;",
    "undef-typeptr": "let x: &«Undef» = nil;",
    "undef-sizeof": "let x = sizeof «Undef»;",
    "undef-cast": "let x = 3 : &«Undef»;",
    "undef-macro": "let x = «undefd!»(3);",
    "undef-ns": "let x = «undefd»::f();",
    "undef-in-ns": "let x = nn::«undefd»();",
    "undef-arg": "two(1, «undefd»);",
    "undef-macro-arg": "q!(1); let x = idm!(«undefd»);",
    "undef-macro-arg2": "let x = idm!(\n   «undefd»\n);",
    "undef-index": "let a: i32[3] = [1, 2, 3]; let x = a[«undefd»];",
    "undef-lambda": "let f = |a: i32| i32 => {\n  <- a + «undefd»;\n};",
    "undef-paste": "let x = 3 + «undefd @ foo»;",
    "type-init": "let x: i32 «=» \"abc\";",
    "type-init2": "let x: i32\n  «=»\n \"abc\";",
    "type-assign": "let x: i32 = 1; x «=» \"abc\";",
    "type-arg": "two(1, «\"abc\"»);",
    "type-ret": "<- «\"abc\"»;",
    "type-op": "let s: S; let x = 1 «+» s;",
    "type-cond": "let s: S; if «s» noop;",
    "argc-less": "two«(»1);",
    "argc-more": "two«(»1, 2, 3);",
    "member": "let s: S; s.a = 1; <- s«.cc»;",
    "member-of-int": "let s: i32 = 1; <- «s.cc»;",
    "deref": "let x = 3; <- *«x»;",
    "call-int": "let x = 3; <- x«(»1);",
    "index-int": "let x = 3; <- x«[»1];",
    "const": "const x = 3; «x =» 4;",
    "redef": "let x = 3; let «x» = 4;",
    "break": "«break;»",
    "continue": "«continue;»",
    "no-semi": "let x = 3\n  «<-» 0;",
    "no-paren": "let x = (3 + 4«;» x = 1;",
    "no-expr": "let x = 3 + «;»",
    "bad-token": "let x = 3 «$» 4;",
    "bad-char": "let x = «'ab'»;",
    "empty-char": "let x = «''»;",
    "bad-number": "let x = «1.2.»3;",
    "big-number": "let x = «0xfffffffffffffffffff»;",
    "big-number2": "let x = «99999999999999999999999»;",
    "bad-stmt": "«3»;",
    "bad-keyword": "let «type» = 3;",
    "void-var": "«let x»: void;",
    "cast-void": "two(3 «:» void, 1);",
    "hole": "let x = «$»;",
    "bitneg": "let x = «~»1.5;",
    "mod-float": "let x = 1.5 «%» 2.0;",
    "inc-const": "const x = 1; x«++»;",
    "range": "for \"a\"«..»3 noop;",
    "len": "let x = 3; let y = «len» x;",
    "empty-array": "let x = «[»];",
    "unknown-with": "let s: S; with «x» = s noop;",
}
TOP = {
    "t-undef-global": "let gg: i32 = «undefd»;",
    "t-undef-arg": "fn gg(a: «Undef»): i32 = 1;",
    "t-undef-ret": "fn gg(): «Undef» { <- nil; }",
    "t-undef-member": "type GG: struct { a: i32,\n  b: «Undef» };",
    "t-undef-expr": "fn gg(): i32 =\n   «undefd»;",
    "t-redef-fn": "fn ga(): i32 = 1;\nfn «ga»(): i32 = 2;",
    "t-redef-arg": "fn gg(a: i32, «a»: i32): i32 = 1;",
    "t-redef-global": "let ga: i32 = 1;\nlet «ga»: i32 = 2;",
    "t-redef-type": "type GA: i32;\ntype «GA»: i64;",
    "t-dup-member": "type GG: struct { a: i32, «a»: i32 };",
    "t-self": "«type GG»: struct { a: GG };",
    "t-noreturn": "«fn gg»(): i32 { noop; }",
    "t-directive": "[«undefd»] fn gg(): i32 = 1;",
    "t-token": "«3»;",
    "t-no-brace": "type GG: struct { a: i32 «let» x = 3;",
    "t-import": "import «\"nofile.csp\"»;",
    "t-global-type": "let gg: i32 = «\"abc\"»;",
    "t-global-type2": "let gg: i32 =\n  «\"abc\"»;",
    "t-macro-body": "macro gm(x) {\n x +\n  «undefd»\n}\nfn gg(): i32 = gm!(\n\n3);",
    "t-void-arg": "fn gg(«a»: void): i32 = 1;",
    "t-main2": "fn «main»(): i32 = 1;",
    "t-unclosed-comment": "«#[» comment",
    "t-unclosed-string": "let gs: &char = «\"»abc",
}
LAST = {"t-unclosed-comment", "t-unclosed-string"}      # swallow the rest of the file
WARN = {
    "w-cast": "let x: i32 = 3; x = x «: i32»;",
    "w-stray": "«;»",
    "w-reach": "if 1 == 1 { <- 0; «two(»1, 2); }",
    "w-name": "let «__csp_x» = 1;",
    "w-depr": "«old»();",
}

FRAMES = {
    "plain": "%s",
    "block": "{\n  %s\n }",
    "if": "if 1 == 1 { %s }",
    "while": "while 1 == 2 {\n\t%s }",
    "for": "for let i@ = 0; i@ < 2; i@++; { %s }",
    "lambda": "let lam = |z: i32| i32 => {\n z++; %s\n <- z;\n}; lam(1);",
    "match": "match 1 { 1 => { %s } _ => noop; }",
    "do": "do { %s } while 1 == 2;",
    "else": "if 1 == 2 noop;\n else { %s }",
}


def num(t, n):
    return t.replace("@", str(n))


def unmark(text):
    """-> (clean text, line, first column, last column) of the marked token"""
    a, b = text.index("«"), text.index("»") - 1
    clean = text.replace("«", "").replace("»", "")
    line = clean[:a].count("\n") + 1
    beg = clean[:a].rfind("\n") + 1
    c0 = len(clean[beg:a].encode()) + 1
    c1 = c0 + len(clean[a:b].encode()) - 1
    return clean, line, c0, c1


def program(top, inner, stmt):
    return HEAD + "macro idm(x) { ((x) + 1) }\nnamespace nn { fn f(): i32 = 3; }\n[deprecated] fn old(): i32 = 1;\n" + top + "fn main(): i32 {\n" + inner + stmt + "\n  <- 0;\n}\n"


# ------------------------------------------------------------------ running both tools
REP = re.compile(r"^(.+):(\d+):(\d+) => \[E\d+: ([^\]]*)\]: ", re.M)
WARNINGS = {"codegen warn", "pkgconf", "warning", "cast warning", "unreachable", "deprecated", "linker warn", "unused"}
BACKEND = {"codegen", "constexpr", "linker", "codegen warn", "linker warn"}


def run_cspc(repo, wd, name):
    rc, o, e = repo.run_cspc(wd, ["build", name, "-p", repo.std, "-o", "out", "--silent", "-c"], timeout=30)
    t = core.plain((o + e).decode("utf-8", "replace"))
    ms = list(REP.finditer(t))
    out = []
    for k, m in enumerate(ms):
        body = t[m.end():ms[k + 1].start() if k + 1 < len(ms) else len(t)].split("\n")
        shown = caret = None
        for i, l in enumerate(body):
            mm = re.match(r"^ +(\d+) \| (.*)$", l)
            if mm and shown is None:
                shown = (int(mm.group(1)), mm.group(2).rstrip(), mm.start(2))
                for l2 in body[i + 1:i + 3]:
                    if "-here" in l2:
                        caret = (l2.find("^") - mm.start(2), l2.find("-here") - mm.start(2))
        out.append((m.group(1), int(m.group(2)), int(m.group(3)), m.group(4), body[0].strip(), shown, caret))
    return rc, out, t


def run_lint(repo, wd, name, mode="-o"):
    env = {"HOME": wd, "PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8"}
    log = os.path.join(wd, "lint.log")
    rc, o, e = core.sh([repo.lint, name, "-p", repo.std] + (["-o", "lint.log"] if mode == "-o" else ["-v"]), timeout=30, cwd=wd, env=env)
    if mode == "-o":
        t = open(log, errors="replace").read() if os.path.exists(log) else ""
    else:
        t = e.decode("utf-8", "replace")
    out = [(m.group(3), int(m.group(4)), int(m.group(5)), m.group(1), m.group(7).split("\n")[0].strip(), int(m.group(2)), m.group(6))
           for m in re.finditer(r"^(error|warning): (\d+)\nfile: (.*)\nline: (\d+)\ncol: (\d+)\n(?:([a-z ]+: .*)\n)?desc: ((?:.|\n)*?)\n\n", t, re.M)]
    s = re.search(r"summary:\nerrors: (\d+)\nwarnings: (\d+)\n", t)
    return rc, out, (int(s.group(1)), int(s.group(2))) if s else None, t


def same_file(wd, a, b):
    # imported files are named as the import names them: relative to the importing file
    return os.path.realpath(os.path.join(wd, a)) == os.path.realpath(os.path.join(wd, b)) or ("/" + b).endswith("/" + os.path.normpath(a))


def judge(repo, it):
    """it: dict(files={name: marked or plain text}, places=[(file, line, c0, c1)], kind='error'|'warning'|'none', caret=bool, all=bool)"""
    wd = repo.workdir()
    try:
        for n, t in it["files"].items():
            p = os.path.join(wd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", newline="") as f:
                f.write(t)
        rc, cs, ct = run_cspc(repo, wd, "t.csp")
        rl, ls, summ, lt = run_lint(repo, wd, "t.csp")
        if rc == -9999 or rl == -9999:
            return "does not end"
        if rc not in (0, 1):
            return "cspc crashed (status %d): %s" % (rc, ct[-300:])
        if rl not in (0, 1):
            return "csp-lint crashed (status %d): %s" % (rl, lt[-300:])
        if summ is None:
            return "csp-lint wrote no summary: %s" % lt[-300:]
        errs = [x for x in cs if x[3] not in WARNINGS]
        warns = [x for x in cs if x[3] in WARNINGS]
        kind = it["kind"]
        if kind == "error" and (rc != 1 or not errs):
            return "cspc: status %d and %d error reports for a wrong program: %s" % (rc, len(errs), ct[-300:])
        if kind != "error" and (rc != 0 or errs):
            return "cspc refuses a right program: %s" % ct[-300:]
        front = [x for x in cs if x[3] not in BACKEND]
        le = [x for x in ls if x[3] == "error"]
        lw = [x for x in ls if x[3] == "warning"]
        if [x[5] for x in le] != list(range(1, len(le) + 1)) or [x[5] for x in lw] != list(range(1, len(lw) + 1)):
            return "csp-lint numbers its reports %s" % [(x[3], x[5]) for x in ls]
        if summ != (len(le), len(lw)):
            return "csp-lint's summary says %s, it reported %s" % (summ, (len(le), len(lw)))
        if (rl == 0) != (not ls):
            return "csp-lint ends with status %d after %d reports" % (rl, len(ls))
        # (generated names depend on the backend)
        a, b = ([(x[0], x[1], x[2], re.sub(r"`[^`]*lambda[^`]*`", "`lambda`", x[4])) for x in l] for l in (front, ls))
        if a != b and (len(front) == len(cs) or len(cs) != len(ls)):
            return "cspc reports %s, csp-lint %s" % (a, b)
        if it.get("verbose"):
            rv, vs, vsum, vt = run_lint(repo, wd, "t.csp", "-v")
            if (rv, vs, vsum) != (rl, ls, summ):
                return "csp-lint -v: %s, -o: %s" % ((rv, vs, vsum), (rl, ls, summ))
        if it.get("fn"):
            for x in ls:
                if x[6] and x[6] not in ("function: " + f for f in it["fn"]):
                    return "csp-lint says `%s`, the mistake is in %s" % (x[6], it["fn"])
        if kind == "none":
            return "reports without a mistake: %s" % a if a and not it.get("agree") else None
        if it.get("agree"):
            return None
        pool = errs if kind == "error" else warns
        if it.get("all"):
            got = sorted((x[0], x[1]) for x in pool)
            want = sorted((f, l) for f, l, c0, c1 in it["places"])
            if len(got) != len(want) or any(not same_file(wd, g[0], w[0]) or g[1] != w[1] for g, w in zip(got, want)):
                return "reported at %s, the mistakes are at %s" % (got, want)
        else:
            pool = pool[:1]
        if kind == "warning" and len(warns) != len(it["places"]):
            return "%d warnings for %d: %s" % (len(warns), len(it["places"]), a)
        for f, l, c0, c1 in it["places"]:
            x = [x for x in pool if same_file(wd, x[0], f) and x[1] == l and c0 - 1 <= x[2] <= c1 + 1]
            if not x:
                return "reported at %s, the mistake is at %s:%d:%d-%d" % ([y[:3] + (y[4],) for y in pool], f, l, c0, c1)
            x = x[0]
            text = it["files"][f].split("\n")[l - 1]
            if x[5] is None or x[5][0] != l or x[5][1] != text.strip():
                return "shows %r for line %d %r" % (x[5], l, text.strip())
            off = len(text.encode()) - len(text.encode().lstrip())
            if it.get("caret", True) and text.isascii():
                if x[6] is None or not (c0 - off - 2 <= x[6][0] <= c1 - off + 1):
                    return "marks columns %s of the shown line %r, the mistake is in %d-%d" % (x[6], x[5][1], c0 - 1 - off, c1 - 1 - off)
        return None
    finally:
        core.rmdir(wd)


def item(key, files, kind="error", **kw):
    """files: texts with marks"""
    clean, places = {}, []
    for n, t in files.items():
        if "«" in t:
            c, l, c0, c1 = unmark(t)
            places.append((n, l, c0, c1))
            clean[n] = c
        else:
            clean[n] = t
    return dict(key=key, files=clean, places=places, kind=kind, **kw)


# ------------------------------------------------------------------ families
PLAIN_MAIN = "fn main(): i32 {\n  <- 0;\n}\n"


def layouts(top):
    """the mistake at top level (text `top`) in every place of a set of files"""
    m = HEAD + "macro idm(x) { ((x) + 1) }\n" + PLAIN_MAIN
    yield "main", {"t.csp": m + top + "\n"}
    yield "main-first", {"t.csp": top + "\n" + m}
    yield "main-no-newline", {"t.csp": m + top}
    yield "import", {"t.csp": 'import "a.csp";\n' + m, "a.csp": "\n# a\n" + top + "\n"}
    yield "import-2", {"t.csp": 'import "x/a.csp";\n' + m, "x/a.csp": "let a: i32 = 1;\n" + 'import "b.csp";\n', "x/b.csp": top + "\n"}
    yield "after-import", {"t.csp": 'import "a.csp";\nimport "b.csp";\n\n' + m + top + "\n", "a.csp": "let a: i32 = 1;\n\n\n\n", "b.csp": "macro mb { 1 }\n\n"}
    yield "after-import-3", {"t.csp": 'import "a.csp";\n' + m, "a.csp": 'let a: i32 = 1;\nimport "b.csp";\n\n' + top + "\n", "b.csp": "\n\n\n\n\n\n\nlet b: i32 = 1;\n"}


def families(thorough):
    reps = ["undef-id", "type-init", "argc-less", "no-semi", "bad-token", "member", "undef-macro-arg2", "break", "redef"]
    depth = 3 if thorough else 2
    for n in range(depth + 1):
        for seq in itertools.product(range(len(SHAPE)), repeat=n):
            top = "".join(num(SHAPE[s], k) for k, s in enumerate(seq))
            names = reps if n < 2 else [reps[sum(seq) % len(reps)]] if n == 3 else [reps[(seq[0] + 3 * seq[1] + j) % len(reps)] for j in (0, 4)]
            for m in names:
                yield item("shape:%s:%s" % ("-".join(map(str, seq)), m), {"t.csp": program(top, "", "  " + STMT[m])}, fn=["main"])
        for seq in itertools.product(range(len(INNER)), repeat=n):
            inner = "".join(num(INNER[s], k) for k, s in enumerate(seq))
            names = reps if n < 2 else [reps[sum(seq) % len(reps)]] if n == 3 else [reps[(seq[0] + 3 * seq[1] + j) % len(reps)] for j in (0, 4)]
            for m in names:
                yield item("inner:%s:%s" % ("-".join(map(str, seq)), m), {"t.csp": program("", inner, STMT[m])}, fn=["main"])
    for m, s in STMT.items():
        for f, t in FRAMES.items():
            if m in ("break", "continue") and f in ("while", "for", "match", "do"):
                continue
            yield item("frame:%s:%s" % (f, m), {"t.csp": program("", "  ", num(t, 0) % s)}, verbose=f == "plain", fn=["main"])
        if m not in ("break", "continue", "type-ret", "no-semi", "member", "deref"):
            fn = "fn other(): i32 {\n  %s\n  <- 0;\n}\n" % s
            pre = "macro idm(x) { ((x) + 1) }\nnamespace nn { fn f(): i32 = 3; }\n" + HEAD
            yield item("import-stmt:" + m, {"t.csp": 'import "a.csp";\n' + PLAIN_MAIN, "a.csp": pre + fn}, fn=["other"])
            yield item("ns-stmt:" + m, {"t.csp": pre + "namespace a { namespace b {\n" + fn + "} }\n" + PLAIN_MAIN}, fn=["other", "b::other", "a::b::other"])
    for m, s in TOP.items():
        for l, files in layouts(s):
            if (m in LAST and l == "main-first") or (m == "t-main2" and l != "main"):
                continue
            yield item("top:%s:%s" % (l, m), files)
        if m not in LAST:
            for k, sh in enumerate(SHAPE):
                yield item("top-shape:%d:%s" % (k, m), {"t.csp": HEAD + num(sh, 0) + s + "\n" + (PLAIN_MAIN if m != "t-main2" else "")} if m != "t-main2" else
                           {"t.csp": HEAD + PLAIN_MAIN + num(sh, 0) + s + "\n"})
    for m, s in WARN.items():
        for f, t in FRAMES.items():
            if m == "w-reach" and f not in ("plain", "block", "if"):
                continue
            yield item("warn:%s:%s" % (f, m), {"t.csp": program("", "  ", num(t, 0) % s)}, kind="warning", verbose=f == "plain")
        for k, sh in enumerate(INNER):
            yield item("warn-inner:%d:%s" % (k, m), {"t.csp": program("", num(sh, 0), s)}, kind="warning")
        for k, sh in enumerate(SHAPE):
            yield item("warn-shape:%d:%s" % (k, m), {"t.csp": program(num(sh, 0), "", s)}, kind="warning")
    for k, sh in enumerate(SHAPE + [""]):
        yield item("warn-arg:%d" % k, {"t.csp": HEAD + num(sh, 0) + "fn gg(_x: i32, «ab»: i32, cd: i32): i32 = cd;\n" + PLAIN_MAIN}, kind="warning")
    # where in its line the mistake is: indentation x what stands in front x what follows
    indents = [" " * n for n in list(range(0, 41)) + [64, 100, 255, 256, 300]] + ["\t" * n for n in (1, 2, 3, 9)] + [" \t", "\t ", "  \t  "]
    for ind in indents:
        for fr, pre in (("alone", ""), ("after", "two(1, 2); "), ("far", "two(1, 2); " * 12), ("comment", "#[ c ]# ")):
            for m in ("undef-id", "argc-less") if not thorough else reps[:6]:
                for po, post in (("", ""), ("-then", " two(1, 2);"), ("-comment", " # rest")):
                    yield item("indent:%r:%s%s:%s" % (ind, fr, po, m), {"t.csp": program("", "", ind + pre + STMT[m] + post)})
    for n in range(1, 13 if not thorough else 60):
        for ln in (1, 9, 10, 99, 100, 999, 1000, 12345) if n in (1, 2, 7) else (3,):
            yield item("name:%d:%d" % (n, ln), {"t.csp": "\n" * ln + program("", "  ", "<- «%s»;" % ("q" * n))}, fn=["main"])
    # several mistakes
    slots = [("fn a1(): i32 {\n  <- %s;\n}\n", "t.csp"), ("fn a2(): i32 = two(1,\n %s);\n", "t.csp"), ("namespace sp {\n fn a3(): i32 = %s;\n}\n", "t.csp"),
             ("fn a4(): i32 {\n let f = |x: i32| i32 => { <- x + %s; };\n <- f(1);\n}\n", "t.csp"), ("fn a5(): i32 = %s;\n", "b.csp")]
    for name, bad, good in (("undef", "«zz»", "7"), ("type", "two«(»1)", "two(1, 2)")):
        for mask in range(1 << len(slots)):
            files = {"t.csp": [], "b.csp": []}
            for k, (t, f) in enumerate(slots):
                files[f].append(t % (bad if mask >> k & 1 else good))
            txt = {"t.csp": 'import "b.csp";\n' + HEAD + "".join(files["t.csp"]) + PLAIN_MAIN, "b.csp": "\n\n".join(files["b.csp"])}
            places, clean = [], {}
            for f, t in txt.items():
                while "«" in t:
                    a = t.index("«")
                    b = t.index("»")
                    line, beg = t[:a].count("\n") + 1, t[:a].rfind("\n") + 1
                    places.append((f, line, a - beg + 1, b - 1 - beg))
                    t = t[:a] + t[a + 1:b] + t[b + 1:]
                clean[f] = t
            yield dict(key="several:%s:%d" % (name, mask), files=clean, places=places, kind="error" if mask else "none", all=True, verbose=True)
    # the programs of C12: csp-lint's verdict is that of cspc's front end
    for fam, it in itertools.chain((("frag", i) for i in c12.frag_items()), (("prog", i) for i in c12.prog_items())):
        if it[0].startswith("no-main/"):
            continue    # a mistake without a place
        if fam == "prog" or thorough or it[0].split("/")[1] in ("block", "lambda", "match-case", "body", "uncalled"):
            yield dict(key="c12:%s:%s" % (fam, it[0]), files=dict(it[3] if len(it) > 3 else {}, **{"t.csp": it[1]}), places=[], kind="error" if not it[2] else "none", agree=True)
    yield item("top:void-member", {"t.csp": HEAD + PLAIN_MAIN + "type V: struct {\n  a: i32,\n  «b: void»\n};\n"})
    # no mistake
    for k, sh in enumerate(SHAPE):
        yield item("none:shape:%d" % k, {"t.csp": program(num(sh, 0), "", "two(1, 2);")}, kind="none", verbose=True)
    for k, sh in enumerate(INNER):
        yield item("none:inner:%d" % k, {"t.csp": program("", num(sh, 0), "two(1, 2);")}, kind="none")


def run(chk, repo):
    items = list(families(chk.thorough))

    def one(it):
        if chk.enough():
            return None
        msg = judge(repo, it)
        if msg and it["key"] not in chk.known:
            chk.seen_bad += 1
        return msg

    for it, msg in zip(items, core.pmap(one, items)):
        if msg:
            chk.violation(it["key"], msg, {"files": it["files"], "expected": it["places"], "observed": msg})
    chk.add("evaluations", len(items))
    chk.add("distinct_nontrivial", len({tuple(sorted(i["files"].items())) for i in items}))
    for it in items[::max(1, len(items) // 5)]:
        chk.sample({"files": {k: v[-200:] for k, v in it["files"].items()}, "place": it["places"]})
    chk.cov["rule"] = "one report per planted mistake: file, line, column, shown line and marker of cspc; csp-lint: the same list, numbering, summary, status"
