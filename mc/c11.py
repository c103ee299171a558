"""C11 - a macro call means the macro's body with the arguments in place of the parameters."""
import itertools
import re
import core
import verdict
from cases import *

# ------------------------------------------------------------------ the reference: textual substitution
TOK = re.compile(r"[-+*]=|[A-Za-z_][A-Za-z_0-9]*!?|[0-9]+|[-+*/(){},;\[\]=<>?:]")


def tokens(s):
    return TOK.findall(s)


def expand(toks, macros, env=None, depth=0):
    """macros: {(name, arity): (params, tokens)}; env: parameter -> tokens"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.endswith("!"):
            args, name = [], t[:-1]
            if i + 1 < len(toks) and toks[i + 1] in ("(", "{", "["):
                i += 1
                d, cur, any_tok = 0, [], False
                while True:
                    i += 1
                    x = toks[i]
                    if d == 0 and x in ")}]":
                        break
                    if x in "([{":
                        d += 1
                    elif x in ")]}":
                        d -= 1
                    if x == "," and d == 0:
                        args.append(cur)
                        cur = []
                    else:
                        cur.append(x)
                        any_tok = True
                if any_tok:
                    args.append(cur)
            params, body = macros[name, len(args)]
            args = [expand(a, macros, env, depth + 1) for a in args]
            out += expand(body, macros, dict(zip(params, args)), depth + 1)
        elif env and t in env:
            out += env[t]
        else:
            out.append(t)
        i += 1
    return out


def defs(ms):
    """ms: [(name, params, body)] -> csp text, table"""
    txt = "".join("macro @%s%s { %s }\n" % (n, "(" + ", ".join(p) + ")" if p else "", re.sub(r"([A-Za-z_]+)!", r"@\1!", b)) for n, p, b in ms)
    return txt, {(n, len(p)): (p, tokens(b)) for n, p, b in ms}


def at(s):
    return re.sub(r"([A-Za-z_]+)!", r"@\1!", s)


# ------------------------------------------------------------------ A: expressions
ZB = ["3", "p", "2 + p", "(q - p)"]
UB = ["x", "(x)", "x * 2", "(x + 1)", "x + x", "Z!", "x * Z!", "Z! - x", "p - x", "sq(x)"]
BB = ["x - y", "(x - y)", "U!(x) + y", "U!(y) * U!(x)", "(U!(x + y))", "U!(U!(x)) - y", "U!{y} - U![x]", "x * U!(x - y) * Z!", "ad(U!(y), x)", "y"]
CALLS = ["Z!", "U!(p)", "U!(p + 1)", "B!(p, q)", "B!(q, p + 1)", "U!(Z!)", "B!(U!(p), Z!)", "U!(B!(q, p))", "B!(B!(p, q), B!(q, 2))", "U!(U!(U!(q)))", "U!(ad(p, q))", "B!(ad(p, q), ad(ad(q, 1), p))", "B!((p), (q * (2 - p)))", "2 * U!(p) - B!{q, 1} * Z!()",
         "B![U!{ad(p, q)}, U!(p) - 1]", "U!(x) + U!(y)"]
COMMON_C = "static i64 sq(i64 x){return x*x;}\nstatic i64 ad(i64 a,i64 b){return a*3+b;}\n"
COMMON_CSP = "fn sq(x: i64): i64 = x * x;\nfn ad(a: i64, b: i64): i64 = a * 3 + b;\n"


def expr_cases():
    for z, u, b in itertools.product(range(len(ZB)), range(len(UB)), range(len(BB))):
        for un, bn in itertools.product(("x", "y"), (("x", "y"), ("y", "x"))):
            if (un == "y" or bn[0] == "y") and (z > 1):
                continue
            ms = [("Z", [], ZB[z]), ("U", [un], re.sub(r"\bx\b", un, UB[u])), ("B", list(bn), BB[b])]
            txt, tab = defs(ms)
            for c, call in enumerate(CALLS):
                if "B!" not in call and b or "Z!" not in call + UB[u] + BB[b] and z:
                    continue
                if "B!" not in call and bn[0] == "y":
                    continue
                ex = expand(tokens(call), tab)
                csp = txt + "fn @(p: i64, q: i64): i64 { const x: i64 = 40; const y: i64 = 50; <- %s; }" % at(call)
                ref = "i64 @(i64 p,i64 q){ i64 x=40,y=50; (void)x;(void)y; return %s; }" % " ".join(ex)
                yield Case("expr:%d:%d:%d:%s%s:%d" % (z, u, b, un, bn[0], c), [("i64", [-3, 2, 7]), ("i64", [1, 5])], "i64", csp, ref)


# ------------------------------------------------------------------ B: statements
SB = ["x", "x x", "{ x }", "{ x x }", "if (p > 2) { x }", "if (p > 2) { x } else { tr(7); }", "tr(1); x tr(2);", "W!(x)", "W!(x x) tr(5);", "{ W!(W!(x)) }", "while (p > 0) { x p = 0 - 1; }", "W!{ W![tr(8);] x }"]
WB = ["x", "{ x }", "tr(9); x", "x tr(9);", "if (q > 1) { x }", "{ { x } x }"]
SARGS = ["tr(p);", "p += 1;", "{ tr(p); p += 10; }", "if (p > 1) { tr(p); } else { tr(q); }", "tr(ad(p, q)); tr(q);", "p = ad(p, q); { q = p; }", "while (p > 2) { tr(p); p -= 2; }", "", "W!(tr(p);)", "W!(W!(p += 2;)) tr(p);"]


def stmt_cases():
    for s, w, a in itertools.product(range(len(SB)), range(len(WB)), range(len(SARGS))):
        if SARGS[a] == "":
            continue
        for wn in ("x", "y"):
            ms = [("W", [wn], re.sub(r"\bx\b", wn, WB[w])), ("S", ["x"], SB[s])]
            txt, tab = defs(ms)
            for c, call in enumerate(("S!(%s)", "tr(0); S!{%s} tr(p);", "{ S![%s] }", "if (p > 0) { S!(%s) }")):
                call = call % SARGS[a]
                ex = expand(tokens(call), tab)
                yield Case("stmt:%d:%d:%d:%s:%d" % (s, w, a, wn, c), [("i64", [0, 3]), ("i64", [1, 2])], "i64", txt + "fn @(p: i64, q: i64): i64 { %s <- p * 100 + q; }" % at(call), "i64 @(i64 p,i64 q){ %s return p * 100 + q; }" % " ".join(ex))


# ------------------------------------------------------------------ C: definitions, types and concatenated names
def def_cases():
    # (macro text, call, expression, value); ¤ is a literal at sign
    L = []
    for pre, name in itertools.product(("", "a", "a_"), ("n", "m1", "X")):
        for k, form in enumerate(("%s¤n", "%s¤ n", "%s ¤n", "n ¤ %s", "%s ¤ n ¤ 1", "%s ¤ n ¤ n", "n ¤ %s ¤ n", "%s ¤ 1 ¤ n", "%s ¤ fn ¤ n", "n ¤ let", "n ¤ 1 ¤ 2", "n ¤ n ¤ %s ¤ %s")):
            pat = [t for t in form.replace("%s", "@" + pre if pre else "").replace("¤", " ¤ ").split() if t != "¤"]
            f = form.replace("%s", "@" + pre) if pre else None
            if f is None:
                continue
            # parameters are written n; the call passes a unique name
            arg = "@" + name
            full = "".join(arg if t == "n" else t for t in pat)
            if "n" == pre:
                continue
            L.append(("macro @mk(n, v) { fn %s(): i64 = v; }" % f, "@mk!(%s, 4 + 3)" % arg, "%s() * 10" % full, 70))
            L.append(("macro @mk(n, v) { const %s: i64 = v; }" % f, "@mk!(%s, 9)" % arg, "%s * 10" % full, 90))
            L.append(("macro @mk(n, v) { type %s: struct { a: i64, b: v }; }" % f, "@mk!(%s, i64)" % arg, "(sizeof %s): i64" % full, 16))
            L.append(("macro @mk(n, v) { namespace @ns { v } macro @un { %s } }" % f.replace("¤n", "¤ n"), "@mk!(%s, fn q(): i64 = 3;)" % arg, "@ns::q()", 3) if False else ("macro @mk(n, v) { %s }" % f, "fn @mk!(%s, 0)(): i64 = 6;" % arg, "%s()" % full, 6))
    for k, (m, call, e, v) in enumerate(L):
        yield Case("def:%d" % k, [], "i64", m + "\n" + call + "\nfn @(): i64 = %s;" % e, "i64 @(void){return %d;}" % v)
        # used twice with different names, the names do not mix
        if "mk!(@" in call and "fn @mk" not in call:
            m2 = call.replace("mk!(@", "mk!(@z")
            yield Case("def2:%d" % k, [], "i64", m + "\n" + call + "\n" + m2 + "\n" + call.replace("mk!(@", "mk!(@zz") + "\nfn @(): i64 = %s;" % e, "i64 @(void){return %d;}" % v)
        # behind the use
        yield Case("deflate:%d" % k, [], "i64", call + "\nfn @(): i64 = %s;\n" % e + m, "i64 @(void){return %d;}" % v)
    types = {"i8": 1, "i64": 8, "&i8": 8, "struct { a: i8, b: i32 }": 8, "fn<i32>(i8, i8)": 8, "i64[2]": 24, "&&i32": 8, "union { a: i8, b: i16 }": 2, "i8 'c[5]": 5}
    for k, ((t, s), (u, r)) in enumerate(itertools.product(types.items(), repeat=2)):
        yield Case("type:%d" % k, [], "i64", "macro @T(a, b) { struct { x: a } }\nmacro @V(a) { (sizeof a) }\nmacro @P(a, b) { @V!(@T!(a, b)) * 1000 + @V!(b) }\nfn @(): i64 = (@P!{%s, %s}): i64 + (@V!(%s): i64) * 1000000;" % (t, u, t), "i64 @(void){return %d;}" % (s * 1000 + r + s * 1000000))


def over_cases():
    """one name, a subset of the arities 0 .. 4"""
    for m in range(32):
        ar = [n for n in range(5) if m >> n & 1]
        txt = "".join("macro @m%s { %s }\n" % ("(" + ", ".join("abcd"[:n]) + ")" if n else "", " ".join(["(%d" % (n * 1000)] + ["+ %s" % c for c in "abcd"[:n]]) + ")") for n in ar)
        for n in range(5):
            for br in ("()", "[]", "{}") + (("",) if n == 0 else ()):
                call = "@m!" + (br and br[0] + ", ".join("1 + %d" % k for k in range(n)) + br[1])
                key, v = "over:%d:%d:%s" % (m, n, br), n * 1000 + n + n * (n - 1) // 2
                yield key, n in ar, txt, call, v


# ------------------------------------------------------------------ F: builtin macros
def str_cases():
    S = lambda e, w: ("fn @eq(a: &char, b: &char): i64 { for let i: i64 = 0; i < 200; i++; { if a[i] != b[i] { <- 0; } if (a[i]): i32 == 0 { <- 1; } } <- 2; }\n", "@eq(%s, %s)" % (e, w))
    pre, _ = S("", "")
    for k, (top, e, w) in enumerate((("", "__func__!", '"@"'), ("macro @m { __func__! }\n", "@m!", '"@"'), ("macro @m(a) { a }\n", "@m!(__func__!)", '"@"'), ("macro @m { __func__ }\n", "@m!", '"@"'), ("macro @m { __func__ \"()\" }\n", "@m!", '"@()"'),
                                     ("fn @ff(): &char = __func__!;\n", "@ff()", '"@ff"'), ("namespace @ns { fn ff(): &char = __func__!; }\n", "@ns::ff()", '"ff"'), ("fn @longer_name_1234567890(): &char { if true { <- __func__!; } <- nil; }\n", "@longer_name_1234567890()", '"@longer_name_1234567890"'),
                                     ("", "__system__!", '"linux"'), ("", "__architecture__!", '"x86_64"'), ("macro @m { __system__! }\n", "@m!", '"linux"'), ("", "__compile_type__!", '"%CT"'))):
        yield Case("str:%d" % k, [], "i64", pre + top + "fn @(): i64 = @eq(%s, %s);" % (e, w), "i64 @(void){return 1;}")


def line_programs():
    """(text, wanted value) whose main returns a combination of line numbers; one file each as lines count from its start"""
    forms = {"plain": ("", "__line__!"), "paren": ("", "__line__!()"), "arg": ("macro a(x) { x }", "a!(__line__!)"), "arg2": ("macro a(x, y) { (x * 0 + y) }", "a!(1, __line__!)"), "fn": ("fn f(x: i32): i32 = x;", "f(__line__!)"), "bare": ("macro a { __line__ }", "a!"), "bare2": ("macro a(x) { (x + __line__) }", "a!(0)")}
    for (k, (top, e)), pre, mid in itertools.product(forms.items(), range(4), range(3)):
        src = top + "\n" * pre + "fn main(): i32 { let a: i32 = " + e + ";" + "\n" * mid + " let b: i32 = " + e + "; <- a * 10 + b; }\n"
        yield "line:%s:%d:%d" % (k, pre, mid), src, (pre + 1) * 10 + pre + mid + 1
        src = "#[ comment\n\n]#\n" + top + "\n" * pre + "# one\nfn main(): i32 { let a: i32 = " + e + ";" + "\n" * mid + " let b: i32 = " + e + "; <- a * 10 + b; }\n"
        yield "linec:%s:%d:%d" % (k, pre, mid), src, (pre + 5) * 10 + pre + mid + 5


def depth_cases():
    for n in (1, 2, 8, 64, 100, 120):
        yield Case("depth:%d" % n, [("i64", [3])], "i64", "macro @d0(x) { (x) }\n" + "".join("macro @d%d(x) { @d%d!(x + 1) }\n" % (k, k - 1) for k in range(1, n)) + "fn @(p: i64): i64 = @d%d!(p);" % (n - 1), "i64 @(i64 p){return p+%d;}" % (n - 1))
    for a, b, c in ((2, 2, 2), (5, 5, 5), (10, 10, 10), (128, 1, 1), (130, 2, 1), (200, 1, 3), (1, 1, 129), (3, 300, 1)):
        yield Case("fan:%d:%d:%d" % (a, b, c), [], "i64", "macro @a { 1 }\nmacro @b { (%s) }\nmacro @c { (%s) }\nmacro @d { (%s) }\nfn @(): i64 = @d!;" % (" + ".join(["@a!"] * c), " + ".join(["@b!"] * b), " + ".join(["@c!"] * a)), "i64 @(void){return %d;}" % (a * b * c))
    for n in (1, 127, 128, 129, 200, 300):
        yield Case("many:%d" % n, [], "i64", "macro @a(x) { (x) }\nfn @(): i64 { let s: i64 = 0; %s <- s; }" % " ".join("s += @a!(1);" for _ in range(n)), "i64 @(void){return %d;}" % n)
        yield Case("args:%d" % n, [], "i64", "macro @a(x) { x }\nfn @(): i64 { let s: i64 = 0; @a!{ %s } <- s; }" % " ".join("s += @a!(1);" for _ in range(n)), "i64 @(void){return %d;}" % n)
    for n in (1, 2, 16, 100):
        yield Case("params:%d" % n, [], "i64", "macro @a(%s) { (%s) }\nfn @(): i64 = @a!(%s);" % (", ".join("p%d" % k for k in range(n)), " + ".join("p%d * %d" % (k, k) for k in range(n)), ", ".join(str(k) for k in range(n))), "i64 @(void){return %d;}" % sum(k * k for k in range(n)))


def verdicts():
    M = "\nfn main(): i32 { <- 0; }\n"
    R = "\nfn main(): i32 { let p: i32 = 1; <- %s; }\n"
    for n, s, ok in (("undef", R % "m!", False), ("undefargs", R % "m!(1)", False), ("ok", "macro m { 1 }" + R % "m!", True), ("unused", "macro m { 1 + + ; fn }" + M, True), ("empty", "macro m { }" + M, True), ("empty2", "macro m { }" + R % "1 m!", True),
                     ("redef", "macro m { 1 }\nmacro m { 2 }" + M, False), ("redef2", "macro m(a) { 1 }\nmacro m(b) { 2 }" + M, False), ("redefbuiltin", "macro __line__ { 1 }" + M, False), ("overload", "macro m(a) { 1 }\nmacro m { 2 }" + M, True), ("dupparam", "macro m(a, a) { 1 }" + M, False),
                     ("missingarg", "macro m(a, b) { a + b }" + R % "m!(1)", False), ("morearg", "macro m(a, b) { a + b }" + R % "m!(1, 2, 3)", False), ("noarg", "macro m(a) { a }" + R % "m!", False), ("noarg2", "macro m(a) { a }" + R % "m!()", False),
                     ("rec", "macro m { m! }" + R % "m!", False), ("rec2", "macro m { n! }\nmacro n { m! }" + R % "m!", False), ("rec3", "macro m(a) { m!(a) }" + R % "m!(1)", False), ("rec4", "macro m(a) { m!(a + 1) }" + R % "m!(1)", False), ("rec5", "macro m(a) { m!(m!(a)) }" + R % "m!(1)", False), ("recunused", "macro m { m! }" + M, True), ("recarg", "macro m(a) { (a + 1) }" + R % "m!(m!(m!(1)))", True),
                     ("unclosed", "macro m { 1 ", False), ("unclosed2", "macro m { { 1 }", False), ("noname", "macro { 1 }" + M, False), ("nobody", "macro m" + M, False), ("nobody2", "macro m;" + M, False), ("badparam", "macro m(1) { 1 }" + M, False), ("badparam2", "macro m(a b) { 1 }" + M, False), ("badparam3", "macro m(a: i32) { 1 }" + M, False), ("kwname", "macro fn { 1 }" + M, False),
                     ("eof1", "macro", False), ("eof2", "macro m", False), ("eof3", "macro m(", False), ("eof4", "macro m(a", False), ("eof5", "macro m(a,", False), ("eof6", "macro m(a)", False), ("eof7", "macro m {", False), ("calleof", "macro m(a) { a }\nfn main(): i32 { <- m!(1", False), ("calleof2", "macro m(a) { a }\nfn main(): i32 { <- m!(", False), ("calleof3", "macro m(a) { a }\nfn main(): i32 { <- m!", False), ("calleof4", "macro m(a) { a }\nfn main(): i32 { <- m!((1)", False), ("calleof5", "macro m(a) { a }\nmacro n { m!(1 }" + R % "n!", False), ("calleof6", "macro m(a) { a }\nmacro n { m!( }" + R % "n!", False),
                     ("mismatch", "macro m(a) { a }" + R % "m!(1]", False), ("mismatch2", "macro m(a) { a }" + R % "m!{1)", False), ("concat", "macro m(a) { a ¤ b }\nfn f(): i32 { let xb: i32 = 1; <- m!(x); }" + M, True), ("concatop", "macro m(a) { x ¤ + }" + R % "m!(1)", False), ("concatstr", 'macro m(a) { x ¤ "s" }' + R % "m!(1)", False), ("concatend", "macro m(a) { x ¤ }" + R % "m!(1)", False), ("concatstart", "macro m(a) { ¤ x }" + R % "m!(1)", False), ("atoutside", R % "p ¤ p", False),
                     ("badexpand", "macro m { 1 + }" + R % "m!", False), ("badexpand2", "macro m { ) }" + R % "(p m!", True), ("typemacro", "macro m { i32 }\nfn f(a: m!): m! = a;" + M, True), ("topmacro", "macro m(n) { fn n(): i32 = 1; }\nm!(f) m!(g)" + R % "f() + g()", True), ("topredef", "macro m(n) { fn n(): i32 = 1; }\nm!(f) m!(f)" + M, False), ("hyg", "macro m { let t: i32 = 1; }\nfn f() { m! m! }" + M, False), ("hyg2", "macro m { { let t: i32 = 1; t++; } }\nfn f() { m! m! }" + M, True), ("scope", "macro m { p }\nfn f(): i32 = m!;" + R % "m!", False),
                     ("funcout", "let g: &char = __func__!;" + M, None), ("funcout2", "__func__!" + M, False), ("lineout", "const g: i32 = __line__!;" + M, True), ("fileout", "let g: &char = __file__!;" + M, True), ("builtinargs", R % "__line__!(1)", False), ("notcall", "macro m { 1 }" + R % "m", False), ("bang", "macro m { 1 }" + R % "m !", False), ("local", "macro m { 1 }\nfn f(): i32 { let m: i32 = 2; <- m + m!; }" + M, True), ("infn", "fn f(): i32 { macro m { 1 } <- m!; }" + M, True), ("infn2", "fn f() { macro m { 1 } }\nfn g(): i32 = m!;" + M, True), ("inns", "namespace n { macro m { 1 } }" + R % "m!", True),
                     ("importinmacro", 'macro m { import "nofile.csp"; }' + M, None)):
        if ok is not None:
            yield n, s.replace("¤", "@"), ok


def import_verdicts():
    M = "fn main(): i32 { <- %s; }\n"
    for n, s, ok, f in (("before", 'import "b.csp";\n' + M % "m!(1)", True, {"b.csp": "macro m(a) { a }\n"}), ("after", M % "m!(1)" + 'import "b.csp";\n', True, {"b.csp": "macro m(a) { a }\n"}), ("used", 'macro m(a) { a }\nimport "b.csp";\n' + M % "f()", True, {"b.csp": "fn f(): i32 = m!(1);"}),
                        ("redef", 'macro m(a) { a }\nimport "b.csp";\n' + M % "1", False, {"b.csp": "macro m(a) { a }"}), ("twice", 'import "b.csp";\nimport "./b.csp";\n' + M % "m!(1)", True, {"b.csp": "macro m(a) { a }"}), ("chain", 'import "b.csp";\n' + M % "m!(1)", True, {"b.csp": 'import "c.csp";\n', "c.csp": "macro m(a) { n!(a) }\nmacro n(a) { (a) }"}),
                        ("none", M % "m!(1)", False, {"b.csp": "macro m(a) { a }\n"}), ("unclosed", 'import "b.csp";\n' + M % "1", False, {"b.csp": "macro m(a) { a \n"}), ("err", 'import "b.csp";\n' + M % "m!", False, {"b.csp": "macro m { 1 + }\n"})):
        yield "import:" + n, s, ok, f


PROP = dict(
    id="C11", title="Macro calls mean the body with its arguments substituted",
    statement="A macro call stands for the tokens of the macro's body in which each parameter is replaced by the tokens of its argument, with calls inside bodies and arguments expanded the same way and parameters of one macro never confused with names or parameters of another; it has the same effect as writing these tokens by hand, for expressions, statements, types and definitions, any bracket style, any nesting and any number of uses. Macros are selected by name and argument count and can be defined before or after their use, in any imported file. `@` joins an identifier with the next token into one name. `__line__!`, `__func__!`, `__file__!` and the other builtin macros give the place where they are written and the facts of the compilation. Undefined macros, wrong argument counts, redefinitions, unlimited recursion and malformed definitions and calls end in an error message.",
    quantifier=dict(over=["programs"], text="all combinations of bodies of three macros (4 x 10 x 10 expression bodies, 12 x 6 statement bodies) with parameter names and 16 expression and 40 statement calls; all arity subsets 0-4 x calls; 11 x 11 type arguments; name joins; nesting depths; ill-formed macro programs"),
    why_tests_cant="Substitution errors (captured parameters, tokens shared between expansions, arguments split wrongly) need particular combinations of nested macros and arguments.",
    anchors=dict(files=["src/compiler/preprocessor/preprocessor.c", "src/compiler/preprocessor/stdmacros.c", "src/compiler/parser/parser.c"], mechanism="parse_macro_def, parse_macro_call, expand_macro_call, define_std_macros, parse_current_fn_token"),
    technique="exhaustive bounded enumeration of macro sets and calls, executed on the real compiler against an independent token substitution", level="exploration",
    level_note="The expected program is computed by a separate token substitution, translated and run by gcc; returned values and call traces are compared for all inputs of a small range.")


def line_run(chk, repo):
    items = list(line_programs())

    def one(it):
        if chk.enough():
            return None
        key, src, want = it
        r = repo.compile(src)
        msg = None
        if not r.ok:
            msg = "does not build: " + core.plain(r.log).strip()[:300]
        else:
            rc, o, e = core.sh([r.path], timeout=10)
            if rc != want:
                msg = "returned %d, want %d" % (rc, want)
        r.clean()
        if msg and key not in chk.known:
            chk.seen_bad += 1
        return msg
    for it, msg in zip(items, core.pmap(one, items)):
        if msg:
            chk.violation(it[0], "%r: %s" % (it[1], msg), {"csp": it[1], "expected": it[2], "observed": msg})
    chk.add("evaluations", len(items))
    # where am I: the file names
    for n, src, files, want in (("main", 'fn main(): i32 { <- ends(__file__!, "t.csp"); }', {}, 1), ("imp", 'import "b.csp";\nfn main(): i32 { <- ends(f(), "b.csp"); }', {"b.csp": "fn f(): &char = __file__!;"}, 1), ("impmacro", 'import "b.csp";\nfn main(): i32 { <- ends(m!(__file__!), "t.csp"); }', {"b.csp": "macro m(a) { a }"}, 1),
                                ("impbare", 'import "b.csp";\nfn main(): i32 { <- ends(m!, "t.csp"); }', {"b.csp": "macro m { __file__ }"}, 1), ("impline", 'import "b.csp";\nfn main(): i32 { <- f(); }', {"b.csp": "\n\n\nfn f(): i32 = __line__!;"}, 4), ("mainfile", 'import "b.csp";\nfn main(): i32 { <- ends(f(), "t.csp"); }', {"b.csp": "fn f(): &char = __main_file__!;"}, 1)):
        src += "\nfn ends(a: &char, b: &char): i32 { let n: i32 = 0; while a[n] != '\\0' { n++; } let m: i32 = 0; while b[m] != '\\0' { m++; } if n < m { <- 0; } for let i: i32 = 0; i < m; i++; { if a[n - m + i] != b[i] { <- 0; } } <- 1; }\n"
        r = repo.compile(src, files=files)
        rc = core.sh([r.path], timeout=10)[0] if r.ok else None
        if rc != want:
            chk.violation("file:" + n, "%s: returned %s, want %d %s" % (src[:150], rc, want, core.plain(r.log)[:300]), {"csp": src, "files": files, "expected": want, "observed": rc})
        r.clean()
        chk.add("evaluations", 1)
    # --set-mmcd sets the limit
    for lim in (1, 2, 5, 10, 50, 128, 200):
        for n in (1, 2, 5, 10, 50, 128, 200):
            chain = "".join("macro d%d { d%d! }\n" % (k, k - 1) for k in range(1, n)) + "macro d0 { 7 }\nfn main(): i32 { <- d%d!; }\n" % (n - 1)
            if abs(n - lim) <= 1:
                continue
            r = repo.compile(chain, out="obj", flags=["--set-mmcd", str(lim)])
            if r.ok != (n < lim) or r.crashed:
                chk.violation("mmcd:%d:%d" % (lim, n), "a chain of %d macros with the limit %d is %s: %s" % (n, lim, "accepted" if r.ok else "rejected", core.plain(r.log)[:200]), {"csp": chain, "flags": ["--set-mmcd", str(lim)]})
            r.clean()
            chk.add("evaluations", 1)


def run(chk, repo):
    ex = list(expr_cases())
    rest = list(stmt_cases()) + list(def_cases()) + list(depth_cases())
    ov = list(over_cases())
    rest += [Case(k, [], "i64", t + "fn @(): i64 = %s;" % c, "i64 @(void){return %d;}" % v) for k, ok, t, c, v in ov if ok]
    st = list(str_cases())
    for b in (None, "C"):
        tag = "" if b is None else "C:"
        e = ex if b is None or chk.thorough else ex[::5]
        explore(chk, repo, e, batch=300, common_csp=COMMON_CSP, common_c=COMMON_C, backend=b, tag=tag)
        explore(chk, repo, rest if b is None or chk.thorough else rest[::3], batch=150, common_csp=COMMON_CSP, common_c=COMMON_C, backend=b, tag=tag)
        for c in st:
            c2 = Case(c.key, [], "i64", c.csp.replace("%CT", "transpile" if b else "asm"), c.ref)
            explore(chk, repo, [c2], backend=b, tag=tag)
    verdict.explore(chk, repo, list(verdicts()) + list(import_verdicts()) + [(k, (t + "fn main(): i32 = %s;\n" % c).replace("@", ""), False) for k, ok, t, c, v in ov if not ok])
    line_run(chk, repo)
    chk.cov["rule"] = "one program per combination of macro bodies, parameter names and call; values and traces equal those of the hand-expanded tokens"
    chk.cov["exhaustive"] = True
