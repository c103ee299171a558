"""C21 - questions about types answered at compile time: comparisons, classes, names and types of expressions."""
from cases import Case, explore

DECL = """
type TAl: i32; type TAl2: TAl; type TAf: f64; type TAp: &i32; type TAa: i32[3]; type TAfn: fn<i32>(i32); type TAc: i32 'c[3]; type TAu: u16; type TAb: bool; type TAv: i64[];
type TS: struct { a: i32, b: i64 }; type TS2: struct { a: i32, b: i64 }; type TU: union { a: i32, b: i64 }; type TU2: union { a: i32, b: i64 };
type TB: struct { a: i8, b: i8, c: i8 }; type TAS: TS; type TAU: TU; type TEn: enum { EA, EB }; type TEn2: enum { EA, EB }; type TAE: TEn;
type TI: interface { fn t_im(p: &TI): i32, }; type TI2: interface { fn t_im2(p: &TI2): i32, };
namespace tn { type TAl: i32; type TN: i32; type TS: struct { a: i32, b: i64 }; namespace tm { type TN: i32; } }
namespace tk { type TN: i32; type TS: struct { c: f32 }; }
"""
# text -> (size, classes, register class)
I, U, F, P, A, S, V = 1, 2, 4, 8, 16, 32, 64
PRIM = {"i8": (1, I, 0), "i16": (2, I, 0), "i32": (4, I, 0), "i64": (8, I, 0), "u8": (1, U, 0), "u16": (2, U, 0), "u32": (4, U, 0), "u64": (8, U, 0), "f32": (4, F, 1), "f64": (8, F, 1), "bool": (1, None, 0), "char": (1, None, 0)}
NAMED = {"TAl": (4, I, 0), "TAl2": (4, I, 0), "TAf": (8, F, 1), "TAp": (8, P, 0), "TAa": (20, A, 2), "TAfn": (8, 0, 2), "TAc": (12, A, 2), "TAu": (2, U, 0), "TAb": (1, None, 0), "TAv": (8, A, 2), "TS": (16, S, 2), "TS2": (16, S, 2),
         "TU": (8, V, 2), "TU2": (8, V, 2), "TB": (3, S, 2), "TAS": (16, S, 2), "TAU": (8, V, 2), "TEn": (4, None, 0), "TEn2": (4, None, 0), "TAE": (4, None, 0), "tn::TAl": (4, I, 0), "tn::TN": (4, I, 0), "tn::TS": (16, S, 2), "tn::tm::TN": (4, I, 0), "tk::TN": (4, I, 0), "tk::TS": (4, S, 2)}
LIST = [(t, i) for d in (PRIM, NAMED) for t, i in d.items()]
BASE = dict(LIST)


def composites(thorough):
    bases = ["i32", "u32", "u8", "f64", "char", "TAl", "TS", "TU", "TEn", "&i32", "tn::TN"] + (list(BASE) if thorough else [])
    out = {}
    for b in dict.fromkeys(bases):
        size = BASE[b][0] if b in BASE else 8
        out["&" + b] = (8, P, 0)
        out["const " + b] = (size,) + (BASE[b][1:] if b in BASE else (P, 0))
        if b[0] != "&":
            out["&const " + b] = (8, P, 0)
            for n in (2, 3):
                out["%s[%d]" % (b, n)] = (8 + size * n, A, 2)
                out["%s 'c[%d]" % (b, n)] = (size * n, A, 2)
            out[b + "[]"] = (8, A, 2)
        if b not in ("TAa", "TAc", "TAv"):
            out["fn<%s>()" % b] = (8, 0, 2)
            out["fn<void>(%s)" % b] = (8, 0, 2)
    out.update({"&void": (8, P, 0), "&&i32": (8, P, 0), "&&&i32": (8, P, 0), "&&const char": (8, P, 0), "dyn TI": (16, 0, 2), "dyn TI2": (16, 0, 2), "&dyn TI": (8, P, 0), "i32[2][3]": (8 + 16 * 3, A, 2), "i32[3][2]": (8 + 20 * 2, A, 2),
                "fn<i32>(i32)": (8, 0, 2), "fn<i32>(i32, i32)": (8, 0, 2), "fn<i32>(i32, i64)": (8, 0, 2), "fn<i64>(i32)": (8, 0, 2), "fn<&i32>(&&i32)": (8, 0, 2), "&fn<i32>(i32)": (8, P, 0), "fn<fn<i32>(i32)>(i32)": (8, 0, 2), "fn<i32>(fn<i32>(i32))": (8, 0, 2),
                "struct { a: i32, b: i64 }": (16, S, 2), "struct { a: i64, b: i32 }": (16, S, 2), "struct { a: i32, b: i64, c: i8 }": (24, S, 2), "struct { a: i32 }": (4, S, 2), "union { a: i32, b: i64 }": (8, V, 2), "union { a: i32 }": (4, V, 2), "struct { s: TS }": (16, S, 2),
                "struct { s: TS2 }": (16, S, 2), "struct { p: &TS }": (8, S, 2), "struct { p: &TU }": (8, S, 2), "struct { f: fn<i32>() }": (8, S, 2), "struct { a: i32[2] }": (16, S, 2), "struct { a: i32[3] }": (24, S, 2), "struct [packed] { a: i8, b: i32 }": None})
    for n in range(3, 6):  # long lists of members and arguments that differ in one place
        for i in range(-1, n):
            ts = ["i64" if j == i else "i32" for j in range(n)]
            out["fn<i32>(%s)" % ", ".join(ts)] = (8, 0, 2)
            if n > 3:
                off = 0
                for t in ts:
                    z = 8 if t == "i64" else 4
                    off = (off + z - 1) // z * z + z
                big = 8 if i >= 0 else 4
                out["struct { %s }" % ", ".join("%s: %s" % ("abcde"[j], t) for j, t in enumerate(ts))] = ((off + big - 1) // big * big, S, 2)
    del out["struct [packed] { a: i8, b: i32 }"]
    return out


CLS = (("is_int", I), ("is_uint", U), ("is_float", F), ("is_pointer", P), ("is_array", A), ("is_struct", S), ("is_union", V))
OPS = ("==", "!=", "<", "<=", ">", ">=")
# places of a constant condition Q: the body yields 1 if it holds, else 0
USE = {
    "if": "if Q <- 1; <- 0;", "else": "if Q { <- 1; } else { <- 0; }", "else-if": "if 1 == 2 <- 2; else if Q <- 1; <- 0;", "if-not": "if !(Q) <- 0; <- 1;", "tern": "<- if Q => 1 else 0;", "cast": "<- (Q: i32);", "let": "let b = Q; <- b: i32;",
    "let-typed": "let b: bool = Q; <- b: i32;", "const": "const b: bool = Q; <- b: i32;", "and": "if Q && 1 == 1 <- 1; <- 0;", "and-r": "if 1 == 1 && Q <- 1; <- 0;", "or": "if Q || 1 == 2 <- 1; <- 0;", "or-r": "if 1 == 2 || Q <- 1; <- 0;",
    "eq": "if Q == true <- 1; <- 0;", "while": "while Q <- 1; <- 0;", "do-while": "let k = 0; do { k++; if k == 2 <- 1; } while Q; <- 0;", "unless": "do { <- 0; } unless Q; <- 1;", "for": "for let i = 0; Q; i++; <- 1; <- 0;", "match": "match Q { true => <- 1; _ => <- 0; } <- 2;",
    "arg": "<- t_b(Q);", "ret": "<- @r(): i32;", "lambda": "let f = || bool => { <- Q; }; <- f(): i32;", "lambda-e": "let f = || bool = Q; <- f(): i32;", "index": "let a: i32[2]; a[0] = 0; a[1] = 1; <- a[Q: i32];", "array": "let a: bool[2] = [true, Q]; <- a[1]: i32;",
    "struct": "let s = t_S::{1, Q}; <- s.b: i32;", "global": "<- @g: i32;", "const-global": "<- @c: i32;", "constexpr": "<- @x(): i32;", "macro": "<- @m!(): i32;", "macro-arg": "<- @n!(Q): i32;", "macro-type": "<- @o!(X, Y): i32;", "nested": "if Q { if !(Q) <- 2; <- 1; } <- 0;",
    "tern-chain": "<- if Q => 1 else if 1 == 1 => 0 else 2;", "assign": "let b = false; b = Q; <- b: i32;", "xor": "<- (Q: i32) ^ 0;", "defer": "t_g = Q: i32; <- t_g;", "len": "let a: i32[3]; <- if Q => ((len a): i32) - 2 else 0;", "enum": "<- @E::A: i32;", "size": "let a: i32[(Q: i32) + 1]; <- ((len a): i32) - 1;",
    "pipe": "<- Q |> t_b($);", "else-expr": "<- ((false else Q): i32);", "block": "{ { if Q <- 1; } } <- 0;", "infix": "<- Q `t_bb` true;",
}
USEDECL = {"ret": "fn @r(): bool { <- Q; }", "global": "let @g: bool = Q;", "const-global": "const @c: bool = Q;", "constexpr": "[constexpr] fn @x(): bool { <- Q; }", "macro": "macro @m { (Q) }", "macro-arg": "macro @n(q) { ((q)) }", "macro-type": "macro @o(x, y) { (type::((x) == (y))) }", "enum": "type @E: enum { A = (Q: i32) };"}
COMMON = "type t_S: struct { a: i32, b: bool };\nlet t_g: i32 = 0;\nfn t_b(b: bool): i32 = b: i32;\nfn t_bb(a: bool, b: bool): i32 = if a && b => 1 else 0;\n"


def cmp_pair(a, ia, b, ib):
    eq = a == b
    r = [eq, not eq, ia[0] < ib[0], ia[0] <= ib[0], ia[0] > ib[0], ia[0] >= ib[0]]
    return sum(1 << i for i, v in enumerate(r) if v)


def pairs(types):
    for a, ia in types.items():
        for b, ib in types.items():
            body = " ".join("if type::((%s) %s (%s)) r |= %d;" % (a, op, b, 1 << i) for i, op in enumerate(OPS))
            m = "match (type) %s { %s => { r |= 64; } _ => { r |= 128; } }" % (a, b)
            yield Case("type:%s ? %s" % (a, b), [], "i32", "fn @(): i32 { let r = 0; %s %s <- r; }" % (body, m), "i32 @(void){return %d;}" % (cmp_pair(a, ia, b, ib) | (64 if a == b else 128)))


def classes(types):
    for a, (size, cls, reg) in types.items():
        fs = [(f, bit) for f, bit in CLS if cls is not None or bit not in (I, U)]
        body = " ".join("if type::%s(%s) r |= %d;" % (f, a, bit) for f, bit in fs)
        yield Case("class:" + a, [], "i32", "fn @(): i32 { let r = 0; %s <- r + type::reg_class(%s) * 128; }" % (body, a), "i32 @(void){return %d;}" % ((cls or 0) + reg * 128))
        yield Case("sizeof:" + a, [], "i64", "fn @(): i64 = (sizeof %s): i64;" % a, "i64 @(void){return %d;}" % size)
        yield Case("class-typeof:" + a, [], "i32", "fn @v(): &%s = nil;\nfn @(): i32 { let r = 0; %s <- r; }" % (a, body.replace("(%s)" % a, "(typeof *(@v()))")), "i32 @(void){return %d;}" % (cls or 0)) if not a.startswith("const ") and "[" not in a and "fn<" not in a else None
        name = a.replace("{ ", "{").replace(" }", "}")
        yield Case("name:" + a, [("i32", range(len(name) + 1))], "char", "fn @(i: i32): char { let s = type::to_str(%s); <- s[i]; }" % a, 'char @(i32 i){return "%s"[i];}' % name)


# expressions whose type is T
OF = {
    "global": ("let @g: T;", "@g", None), "local": ("", "l", "let l: T;"), "arg": ("", "p", None), "member": ("type @S: struct { a: i8, m: T };", "s.m", "let s: @S;"), "ptr-member": ("type @S: struct { a: i8, m: T };", "s.m", "let z: @S; let s = &z;"), "elem": ("", "a[1]", "let a: T[2];"),
    "c-elem": ("", "a[1]", "let a: T 'c[2];"), "deref": ("", "*q", "let q: &T = nil;"), "call": ("fn @f(p: T): T { <- p; }", "@f(p)", None), "paren": ("", "(p)", None), "cast": ("", "((p: T))", None), "addr": ("", "*(&p)", None),
    "fn-value": ("", "f(p)", "let f: fn<T>(T);"), "lambda": ("", "f(p)", "let f = |x: T| T => { <- x; };"), "inferred": ("", "i", "let i = p;"), "inferred-2": ("", "j", "let i = p; let j = i;"), "inferred-typeof": ("", "j", "let i = p; let j: typeof i;"), "inferred-pipe": ("fn @f(p: T): T { <- p; }", "j", "let i = p; let j: typeof (i |> @f($)) = i;"), "inferred-elem": ("", "j", "let a: T[2]; let i = &a[0]; let j: typeof i[1];"), "method": ("type @S: struct { f: fn<T>() };", "s.f()", "let s: @S;"), "nested": ("type @S: struct { m: T }; type @R: struct { s: @S };", "k.s.m", "let k: @R;"),
    "tern": ("", "(if 1 == 1 => p else p)", None), "union": ("type @U: union { a: i8, m: T };", "u.m", "let u: @U;"), "typeof": ("", "y", "let y: typeof p;"), "ptr-index": ("", "q[1]", "let q: &T = nil;"), "slice": ("", "v[0]", "let v: T[];"), "pipe": ("fn @f(p: T): T { <- p; }", "(p |> @f($))", None),
    "namespace": ("namespace @n { let g: T; }", "@n::g", None), "const": None, "using": ("namespace @n { let g: T; }", "g", "using @n;"), "macro": ("macro @m(x) { (x) }", "@m!(p)", None), "macro-type": ("macro @m(t) { let y: t; }", "y", "@m!(T)"),
}


def typeof(types):
    for a, (size, cls, reg) in types.items():
        if a.startswith("const ") or "void" in a.split("fn<")[0]:
            continue
        for k, v in OF.items():
            arr = "[" in a or a in ("TAa", "TAv", "TAc")  # not assigned, passed or returned as a whole here
            if v is None or arr and k in ("elem", "c-elem", "slice", "inferred", "inferred-2", "inferred-typeof", "inferred-pipe", "inferred-elem", "macro-type", "call", "fn-value", "lambda", "method", "pipe", "cast", "tern", "addr", "arg", "paren", "typeof", "macro"):
                continue
            decl, e, local = v
            p = "(" + a + ")" if "[" in a or "fn<" in a else a
            if a.startswith("&") or a.startswith("fn<") or a.startswith("dyn") or a.startswith("const"):
                p = "(%s)" % a
            sub = lambda s: s.replace("T", "\1").replace("\1", p)  # noqa
            e = sub(e)
            body = "%s let r = 0; if type::((typeof %s) == (%s)) r |= 1; %s if sizeof (typeof %s) == %d r |= 4; <- r;" % (sub(local or ""), e, a, "r |= 2;" if k == "pipe" else "if type::((typeof &(%s)) == &(%s)) r |= 2;" % (e, a), e, size)
            yield Case("typeof:%s:%s" % (k, a), [], "i32", sub(decl) + ("\nfn @(): i32 { let p: %s; %s }" % (p, body) if arr else "\nfn @h(p: %s): i32 { %s }\nfn @(): i32 { let p: %s; <- @h(p); }" % (p, body, p)), "i32 @(void){return 7;}")


UPAIRS = [("i32", "i32"), ("i32", "i64"), ("TAl", "i32"), ("TS", "TS"), ("TS", "TS2"), ("&TS", "&TS"), ("i32[2]", "i32[3]"), ("fn<i32>(i32)", "fn<i32>(i32)")]


def uses(types, backend):
    for a, b in UPAIRS:
        for k, body in USE.items():
            yield Case("use:%s:%s=%s" % (k, a, b), [], "i32", *_use(k, body, "type::((%s) == (%s))" % (a, b), a, b, a == b))
    for a in ("i32", "u8", "TAf", "&i32", "TAa", "TU", "TAS", "fn<i32>()"):
        for f, bit in CLS:
            for k, body in USE.items():
                if k != "macro-type":
                    yield Case("use:%s:%s(%s)" % (k, f, a), [], "i32", *_use(k, body, "type::%s(%s)" % (f, a), a, a, bool((types[a][1] or 0) & bit)))


def _use(k, body, q, a, b, res):
    sub = lambda s: s.replace("Q", q).replace("X", a).replace("Y", b)  # noqa
    return sub(USEDECL.get(k, "")) + "\nfn @(): i32 { %s }" % sub(body), "i32 @(void){return %d;}" % res


PROP = dict(
    id="C21", title="Questions about types are answered correctly at compile time",
    statement="`type::(T op U)` is decided by the types: `==` and `!=` compare them (two types are equal exactly if they are the same named type or are built in the same way - same kind, constness, length, members, argument and return types - from equal types; a named type equals neither its definition nor another name for it), `<`, `<=`, `>`, `>=` compare their sizes. `type::is_int`, `is_uint`, `is_float`, `is_pointer`, `is_array`, `is_struct`, `is_union` and `reg_class` (0 integers and pointers, 1 floats, 2 all others) classify every type, looking through type names; `type::to_str` gives its name; `typeof e` is the declared type of the variable, member, element, dereferenced pointer, call result or other expression e; `match (type)` takes the case of an equal type. The answer is the same wherever the question stands - conditions, constants, initialisers, arguments, macros, lambdas, array lengths - and with both backends.",
    quantifier=dict(over=["programs", "configurations"], text="all ordered pairs of about 130 types (primitives, named types and types of namespaces, pointers, constants, arrays, C arrays, slices, functions, interfaces, structs and unions) x 6 comparisons and a type match; all classes, size and name of each; 26 forms of expressions x all types for typeof; 44 places x 64 questions; both backends, optimised or not"),
    why_tests_cant="Answers for pairs of types are a table of a hundred times a hundred entries decided by recursive functions; tests ask a handful of questions, none with !=, <, <=, > or >=.",
    anchors=dict(files=["src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c", "src/compiler/parser/parser.c", "src/compiler/ast/ast.c", "src/compiler/optimizer/optimizer.c"], mechanism="iter_validate_type_expr, types_equal, unpack, get_type_size, ast_type_to_str, parse_type_expr, parse_typeof, iter_validate_match_type"),
    technique="bounded exhaustive enumeration of types, pairs of types, questions and places of questions; the real compiler's answer (run from the compiled program) compared with a structural model of types", level="exploration",
    level_note="Real compiler and compiled code in four configurations. Bounds: types nest at most three deep; whether bool, char and enums count as integers is left open (is_int and is_uint are not asked of them); unnamed structs as argument or return types are only explored with the assembly backend.")


def run(chk, repo):
    types = dict(BASE)
    types.update(composites(chk.thorough))
    allp = list(pairs(types))
    for backend in (None, "C"):
        for flags in ((), ("-0",)):
            tag = "%s%s/" % (backend or "asm", "-0" if flags else "")
            cs = [c for c in list(classes(types)) + list(typeof(types)) + list(uses(types, backend)) if c]
            if backend == "C":  # function signatures with unnamed structs do not compile as C
                cs = [c for c in cs if "typeof:" not in c.key or " { " not in c.key]
            if chk.thorough or not (backend or flags):
                cs += allp
            explore(chk, repo, cs, batch=300, common_csp=DECL + COMMON, backend=backend, flags=flags, tag=tag)
    chk.cov["rule"] = "one evaluation per question and configuration; distinct_nontrivial counts different questions"
