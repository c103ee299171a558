"""C22 - unpacking: `...x` and `x...` stand for the elements or members of x, in order or backwards, in variadic calls and array literals."""
import itertools
from cases import Case, explore

TYPES = "type S1: struct { a: i32 };\ntype S3: struct { a: i32, b: f64, c: i64 };\ntype SP: struct { p: &i32, c: i8, q: &char };\ntype S9: struct { a: i64, b: f64, c: i64, d: f64, e: i64, f: f64, g: i64, h: f64, i: i64 };\ntype AL: i64[2];\ntype SL: S3;\ntype SD: struct { x: f64, y: f64 };\n"
COMMON = "import \"std.csp\";\n" + TYPES + 'extern "C" fn vs(s: &const char, args: ...): i64;\nextern "C" fn v7(a: i64, b: i64, c: i64, d: i64, e: i64, s: &const char, args: ...): i64;\nlet kx: i32 = 77;\n'
COMMON_C = r'''
static i32 kx_ = 77;
static i64 vrun(const char *s, va_list *l) { i64 h = 5; for (; *s; s++) { i64 v = 0; switch (*s) { case 'i': v = va_arg(*l, int); break; case 'l': v = va_arg(*l, i64); break; case 'd': v = (i64)(va_arg(*l, f64) * 8); break;
 case 'p': { i32 *p = va_arg(*l, i32*); v = p ? *p : -1; } break; case 's': { char *p = va_arg(*l, char*); v = p[0]; } break; } tr(v); h = h * 31 + v; } return h; }
i64 vs(const char *s, ...) { va_list l; va_start(l, s); i64 h = vrun(s, &l); va_end(l); return h; }
i64 v7(i64 a, i64 b, i64 c, i64 d, i64 e, const char *s, ...) { va_list l; va_start(l, s); tr(a); tr(e); i64 h = vrun(s, &l); va_end(l); return h; }
'''
# a source of values: type, initialiser, kinds and values (C) in order
SRC = {
    "ai": ("i32[3]", "[a, 12, 13]", "iii", ["a", "12", "13"]),
    "al": ("i64[2]", "[21: i64, 22: i64]", "ll", ["21", "22"]),
    "ad": ("f64[2]", "[1.5: f64, 2.25: f64]", "dd", ["1.5", "2.25"]),
    "a1": ("i32[1]", "[9]", "i", ["9"]),
    "a7": ("i32[7]", "[1, 2, 3, 4, 5, 6, 7]", "iiiiiii", list("1234567")),
    "at": ("AL", "[31: i64, 32: i64]", "ll", ["31", "32"]),
    "s1": ("S1", "S1::{a}", "i", ["a"]),
    "s3": ("S3", "S3::{a, 2.5: f64, 42: i64}", "idl", ["a", "2.5", "42"]),
    "sl": ("SL", "S3::{5, 3.5: f64, 43: i64}", "idl", ["5", "3.5", "43"]),
    "sp": ("SP", "SP::{&kx, 'k': i8, \"str\"}", "pis", ["&kx_", "'k'", '"str"']),
    "sd": ("SD", "SD::{0.5: f64, 4.5: f64}", "dd", ["0.5", "4.5"]),
    "s9": ("S9", "S9::{1: i64, 2.0: f64, 3: i64, 4.0: f64, 5: i64, 6.0: f64, 7: i64, 8.0: f64, 9: i64}", "ldldldldl", ["1", "2.0", "3", "4.0", "5", "6.0", "7", "8.0", "9"]),
    "ab": ("i8[2]", "[61: i8, -62: i8]", "ii", ["61", "-62"]),
    "au": ("u16[2]", "[63: u16, 65535: u16]", "ii", ["63", "65535"]),
    "ap": ("(&i32)[2]", "[&kx, &kx]", "pp", ["&kx_", "&kx_"]),
}
PLAIN = {"pi": ("(a + 1)", "i", ["a+1"]), "pl": ("(99: i64)", "l", ["99"]), "pd": ("(7.5: f64)", "d", ["7.5"])}
CT = {"i": "(i32)", "l": "(i64)", "d": "(f64)", "p": "(i32*)", "s": "(char*)"}


def item(name):
    """csp text, kinds and values of an argument; name is a plain value or source with a direction"""
    if name in PLAIN:
        return PLAIN[name]
    src, back = name.rstrip("<"), name.endswith("<")
    _, _, kinds, vals = SRC[src]
    return (src + "...", kinds[::-1], vals[::-1]) if back else ("..." + src, kinds, vals)


def used(seq):
    return list(dict.fromkeys(n.rstrip("<") for n in seq if n not in PLAIN))


def call(seq, callee):
    items = [item(n) for n in seq]
    kinds = "".join(k for _, k, _ in items)
    args = "".join(", " + t for t, _, _ in items)
    cargs = "".join(", %s%s" % (CT[k], "(%s)" % v) for _, ks, vs in items for k, v in zip(ks, vs))
    if callee == "v7":
        return 'v7(1: i64, 2: i64, 3: i64, 4: i64, a: i64, "%s"%s)' % (kinds, args), 'v7(1,2,3,4,a,"%s"%s)' % (kinds, cargs)
    return 'vs("%s"%s)' % (kinds, args), 'vs("%s"%s)' % (kinds, cargs)


def calls(seqs, callee, tag=""):
    for seq in seqs:
        csp, ref = call(seq, callee)
        decl = " ".join("let %s: %s = %s;" % (n, SRC[n][0], SRC[n][1]) for n in used(seq))
        yield Case("%s%s:%s" % (tag, callee, ",".join(seq)), [("i32", [3, -4])], "i64", "fn @(a: i32): i64 { %s <- %s; }" % (decl, csp), "i64 @(i32 a){ return %s; }" % ref)


VA = {"i": "i32", "l": "i64", "d": "f64"}


def own(seqs):
    """the callee is a csp function"""
    for seq in seqs:
        items = [item(n) for n in seq]
        if any(k in "ps" for _, ks, _ in items for k in ks) or any(n.rstrip("<") in ("ab", "au") for n in seq):
            continue
        decl = " ".join("let %s: %s = %s;" % (n, SRC[n][0], SRC[n][1]) for n in used(seq))
        body = " ".join("tr((va_arg!{&args, f64} * (8.0: f64)): i64);" if k == "d" else "tr(va_arg!{&args, %s}: i64);" % VA[k] for _, ks, _ in items for k in ks)
        ref = " ".join("tr((i64)((%s) * %s));" % (v, "8" if k == "d" else "1") for _, ks, vs in items for k, v in zip(ks, vs))
        for pre, pargs in (("n: i32", "1"), ("b: i64, c: f64, d: i32", "1: i64, 2.0: f64, 3")):
            yield Case("own:%d:%s" % (len(pargs), ",".join(seq)), [("i32", [3, -4])], "i64", "fn @_v(%s, args: ...): i64 { %s <- 7; }\nfn @(a: i32): i64 { %s <- @_v(%s%s); }" % (pre, body, decl, pargs, "".join(", " + t for t, _, _ in items)),
                       "i64 @(i32 a){ %s return 7; }" % ref)


# where the unpacked object is: declarations around, and the expression
WHERE = {
    "local": ("", "let x: T = V;", "x"), "global": ("let @x: T;", "@x = V;", "@x"), "arg": None, "member": ("type @W: struct { k: i8, m: T };", "let w: @W; w.m = V;", "w.m"), "ptr-member": ("type @W: struct { k: i8, m: T };", "let z: @W; z.m = V; let w = &z;", "w.m"),
    "deref": ("", "let x: T = V; let p = &x;", "(*p)"), "paren": ("", "let x: T = V;", "(x)"), "lambda": ("", "let x: T = V;", "L"), "nested": ("type @W: struct { k: i8, m: T }; type @Y: struct { k: i16, w: @W };", "let y: @Y; y.w.m = V;", "y.w.m"),
    "ns": ("namespace @n { let x: T; }", "@n::x = V;", "@n::x"), "const": ("", "let x: const T = V;", "x"), "inferred": ("", "let x = V;", "x"), "elem": ("", "let x: T[2]; x[1] = V;", "x[1]"), "copy": ("", "let y: T = V; let x = y;", "x"), "index": ("", "let x: T = V; let p = &x;", "p[0]"),
}


def places(backend):
    for n, (t, v, kinds, vals) in SRC.items():
        for wk, w in WHERE.items():
            if w is None or wk == "elem" and (t[0] in "iuf(" or t == "AL"):
                continue
            if wk in ("const", "inferred") and t[0] == "(":
                continue
            decl, init, e = w
            for back in (False, True):
                ks, vs = (kinds[::-1], vals[::-1]) if back else (kinds, vals)
                lam = e == "L"
                if lam and backend == "C":
                    continue
                ex = "x" if lam else e
                u = ex + "..." if back else "..." + ex
                c = 'vs("%si", %s, 5)' % (ks, u)
                body = "let f = || i64 => { <- %s; }; <- f();" % c if lam else "<- %s;" % c
                sub = lambda s: s.replace("T", "\1").replace("V", v).replace("\1", "(%s)" % t if "[" in t and t[0] != "(" else t)  # noqa
                yield Case("where:%s:%s:%s" % (wk, n, "<" if back else ">"), [("i32", [3, -4])], "i64", sub(decl) + "\nfn @(a: i32): i64 { %s %s }" % (sub(init), body), 'i64 @(i32 a){ return vs("%si"%s, 5); }' % (ks, "".join(", %s(%s)" % (CT[k], x) for k, x in zip(ks, vs))))


def literals(depth):
    for t in ("i8", "i32", "i64", "f64"):
        V = {"p": [1, 2], "q": [3, 4, 5], "x": [9]}
        for n in range(1, depth + 1):
            for parts in itertools.product(["p", "p<", "q", "q<", "x"], repeat=n):
                if all(p == "x" for p in parts):
                    continue
                want = [v for p in parts for v in (V[p[0]][::-1] if p.endswith("<") else V[p])]
                L = "[%s]" % ", ".join("9: " + t if p == "x" else p[0] + "..." if p.endswith("<") else "..." + p for p in parts)
                o = "tr((len z): i64); for let i = 0; i < %d; i++; tr(z[i]: i64); <- 7;" % len(want)
                for key, st in (("let", "let z = %s;" % L), ("typed", "let z: %s[%d] = %s;" % (t, len(want), L)), ("assign", "let z: %s[%d]; z = %s;" % (t, len(want), L)), ("arg", "<- @_f(%s);" % L), ("slice", "let z: %s[] = %s;" % (t, L)), ("index", "let z = %s; <- %s;" % (L, " + ".join("tr((%s)[%d]: i64)" % (L, i) for i in range(len(want))) + " * (0: i64) + (7: i64)")) if False else ("copy", "let y = %s; let z = y;" % L)):
                    yield Case("lit:%s:%s:%s" % (t, ",".join(parts), key), [], "i64", "fn @_f(z: %s[]): i64 { %s }\nfn @(): i64 { let p = [1: %s, 2: %s]; let q = [3: %s, 4: %s, 5: %s]; %s %s }" % (t, o, t, t, t, t, t, st, "" if "<-" in st else o),
                               "i64 @(void){ tr(%d); %s return 7; }" % (len(want), "".join("tr(%d);" % w for w in want)))


def lengths(longest):
    """arrays and structs of every length, in both directions, alone and between plain values"""
    for n in range(1, longest + 1):
        for t, k in (("i32", "i"), ("i64", "l"), ("f64", "d")):
            vs = [str(10 * (i + 1)) for i in range(n)]
            lits = ", ".join("%s: %s" % (v, t) for v in vs)
            for kind, decl, init in (("array", "", "let x: %s[%d] = [%s];" % (t, n, lits)), ("struct", "type @S: struct { %s };" % ", ".join("m%d: %s" % (i, t) for i in range(n)), "let x = @S::{%s};" % lits)):
                for back in (False, True):
                    w, u = vs[::-1] if back else vs, "x..." if back else "...x"
                    c = ["(%s)%s" % ({"i": "i32", "l": "i64", "d": "f64"}[k], v) for v in w]
                    for key, csp, ks, args in (("alone", u, k * n, c), ("between", "a, %s, a + 1" % u, "i" + k * n + "i", ["a"] + c + ["a+1"]), ("twice", "%s, %s" % (u, u), k * n * 2, c + c)):
                        yield Case("length:%s:%s:%d:%s:%s" % (kind, t, n, "<" if back else ">", key), [("i32", [3, -4])], "i64", '%s\nfn @(a: i32): i64 { %s <- vs("%s", %s); }' % (decl, init, ks, csp), 'i64 @(i32 a){ return vs("%s", %s); }' % (ks, ", ".join(args)))


PROP = dict(
    id="C22", title="Unpacking passes exactly the elements or members, in order",
    statement="`...x` as an argument of a variadic call or an element of an array literal stands for the elements of the array x or (in calls) the members of the struct x from first to last, `x...` for the same from last to first. Exactly these values, each with the type of its element or member, are passed or stored, in this place between the other arguments or elements and however many there are; x may be a local, global, member, dereferenced or captured object. C functions and CSpydr functions using va_arg receive them as if they had been written out one by one. With both backends.",
    quantifier=dict(over=["programs", "inputs", "configurations"], text="all sequences of up to three (thorough: four) arguments from 15 arrays and structs in both directions and plain values, to C and CSpydr callees with few and with many named arguments; 14 places of the object x 15 types x both directions; arrays and structs of every length up to 7 (thorough: 12) in both directions; all array literals of up to three (four) parts; both backends, optimised or not"),
    why_tests_cant="The calling convention of an unpacked list depends on the number and kinds of all the values in it; no test unpacks a struct or anything backwards.",
    anchors=dict(files=["src/compiler/parser/parser.c", "src/compiler/parser/typechecker.c", "src/compiler/parser/validator.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c"], mechanism="parse_expr_list, typecheck_call, iter_validate_array_lit, unpack_call_args, unpack_array, unpack_struct, c_gen_unpack_arg"),
    technique="bounded exhaustive enumeration of argument sequences, places and literals; compiled by the real compiler, run, and the values seen by the callee compared with those of the written-out call", level="exploration",
    level_note="Real compiler and compiled code. Bounds: sequence length, two values of the one input. The unpacked expression has no side effects.")


def run(chk, repo):
    dirs = [n + d for n in SRC for d in ("", "<")]
    small = ["ai", "ai<", "s3", "s3<", "ad", "pi", "pd"]
    names = dirs + list(PLAIN)
    seqs = [(n,) for n in dirs] + [s for s in itertools.product(names, repeat=2) if not all(x in PLAIN for x in s)]
    s3 = [s for s in itertools.product(small if not chk.thorough else dirs[:10] + small[-2:] + ["s3", "s3<"], repeat=3) if not all(x in PLAIN for x in s)]
    s4 = [s for s in itertools.product(small, repeat=4) if not all(x in PLAIN for x in s)] if chk.thorough else []
    for backend in (None, "C"):
        for flags in ((), ("-0",)):
            if flags and not chk.thorough and backend:
                continue
            cs = list(calls(seqs, "vs")) + list(calls(s3 + s4, "vs")) + list(calls([(n,) for n in dirs] + s3, "v7")) + list(own([(n,) for n in dirs] + s3 + (seqs if chk.thorough else []))) + list(places(backend)) + list(lengths(12 if chk.thorough else 7)) + list(literals(4 if chk.thorough else 3 if not (backend or flags) else 2))
            explore(chk, repo, cs, batch=150, common_csp=COMMON, common_c=COMMON_C, backend=backend, flags=flags, tag="%s%s/" % (backend or "asm", "-0" if flags else ""))
    chk.cov["rule"] = "one evaluation per program, configuration and input; distinct_nontrivial counts different programs"
