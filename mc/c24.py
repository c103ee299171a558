"""C24: tuples"""
import itertools
from cases import Case, explore
import verdict

# component: type, value, statements observing x, values seen, size, alignment
COMP = {
    "i8": ("i8", "((a + 1): i8)", "tr(X: i64);", ["(i8)(a+1)"], 1, 1),
    "i32": ("i32", "(a + 2)", "tr(X: i64);", ["a+2"], 4, 4),
    "i64": ("i64", "(4294967303: i64)", "tr(X);", ["4294967303"], 8, 8),
    "f64": ("f64", "(2.5: f64)", "tr((X * (8.0: f64)): i64);", ["20"], 8, 8),
    "f32": ("f32", "1.25", "tr((X * 4.0): i64);", ["5"], 4, 4),
    "bool": ("bool", "true", "tr(X: i64);", ["1"], 1, 1),
    "char": ("char", "'q'", "tr(X: i64);", ["'q'"], 1, 1),
    "ptr": ("&i32", "&kx", "tr(*X: i64);", ["77"], 8, 8),
    "S": ("t_S", "t_S::{a, 6: i64}", "tr(X.a: i64); tr(X.b);", ["a", "6"], 16, 8),
    "nS": ("tn::t_S", "tn::t_S::{9: i8, a}", "tr(X.c: i64); tr(X.d: i64);", ["9", "a"], 8, 4),
    "tup": ("{i8, i32}", "{11: i8, a + 12}", "tr(X._0: i64); tr(X._1: i64);", ["11", "a+12"], 8, 4),
    "tup2": ("{t_S, {i64}}", "{t_S::{13, 14: i64}, {15: i64}}", "tr(X._0.a: i64); tr(X._0.b); tr(X._1._0);", ["13", "14", "15"], 24, 8),
    "fn": ("fn<i32>(i32)", "t_mi()", "tr((X(a)): i64);", ["a+1"], 8, 8),
    "fn2": ("fn<i32>(i32, i32)", "t_ms()", "tr((X(a, 5)): i64);", ["a-5"], 8, 8),
    "al": ("t_Al", "((a + 16): t_Al)", "tr(X: i64);", ["a+16"], 4, 4),
    "en": ("t_En", "(t_En::B: t_En)", "tr(X: i64);", ["1"], 4, 4),
}
# components which are set one by one only
PART = {
    "arr": ("i32[2]", "X[0] = a; X[1] = 21;", "tr(X[0]: i64); tr(X[1]: i64);", ["a", "21"], 16, 8),
    "arr5": ("i32[5]", "X[0] = 22; X[4] = a;", "tr(X[0]: i64); tr(X[4]: i64);", ["22", "a"], 32, 8),
    "carr": ("i32 'c[3]", "X[0] = 23; X[2] = a;", "tr(X[0]: i64); tr(X[2]: i64);", ["23", "a"], 12, 4),
    "carr2": ("i32 'c[6]", "X[0] = 24; X[5] = a;", "tr(X[0]: i64); tr(X[5]: i64);", ["24", "a"], 24, 4),
    "tarr": ("{i8, i32}[2]", "X[0]._0 = 25: i8; X[1]._1 = a;", "tr(X[0]._0: i64); tr(X[1]._1: i64);", ["25", "a"], 24, 8),
    "pp": ("&{i8, i32}", "X = &t_gt; X._0 = 26: i8; X._1 = a;", "tr(X._0: i64); tr(X._1: i64);", ["26", "a"], 8, 8),
}
COMMON = """type t_S: struct { a: i32, b: i64 };
type t_Al: i32;
type t_En: enum { A, B };
namespace tn { type t_S: struct { c: i8, d: i32 }; }
fn t_inc(x: i32): i32 = x + 1;
fn t_sub(x: i32, y: i32): i32 = x - y;
fn t_mi(): fn<i32>(i32) { let f: fn<i32>(i32) = t_inc; <- f; }
fn t_ms(): fn<i32>(i32, i32) { let f: fn<i32>(i32, i32) = t_sub; <- f; }
let t_gt: {i8, i32};
let kx: i32 = 77;
"""


def ty(comps):
    return "{%s}" % ", ".join((COMP.get(c) or PART[c])[0] for c in comps)


def lit(comps):
    return "{%s}" % ", ".join(COMP[c][1] for c in comps)


def obs(comps, x):
    return " ".join((COMP.get(c) or PART[c])[2].replace("X", "%s._%d" % (x, i)) for i, c in enumerate(comps))


def want(comps):
    return "".join("tr(%s);" % v for c in comps for v in (COMP.get(c) or PART[c])[3])


def sets(comps, x, order=1):
    return " ".join(PART[c][1].replace("X", "%s._%d" % (x, i)) if c in PART else "%s._%d = %s;" % (x, i, COMP[c][1]) for i, c in list(enumerate(comps))[::order])


def size(comps):
    off, al = 0, 1
    for c in comps:
        s, g = (COMP.get(c) or PART[c])[4:]
        off, al = (off + g - 1) // g * g + s, max(al, g)
    return (off + al - 1) // al * al


# L literal, T type, O(x) observe x, M(x) set the members of x
PLACES = {
    "init": ("", "let t: T = L; O(t)"), "inferred": ("", "let t = L; O(t)"), "assign": ("", "let t: T; t = L; O(t)"), "members": ("", "let t: T; M(t) O(t)"), "reverse": ("", "let t: T; R(t) O(t)"),
    "arg": ("fn @f(t: T, a: i32): i32 { O(t) <- 0; }", "@f(L, a);"), "arg-var": ("fn @f(t: T, a: i32): i32 { O(t) <- 0; }", "let u: T; M(u) @f(u, a);"), "arg-second": ("fn @f(a: i32, b: i64, t: T): i32 { O(t) <- 0; }", "let u: T; M(u) @f(a, 1: i64, u);"),
    "ret": ("fn @f(a: i32): T { <- L; }", "let t = @f(a); O(t)"), "ret-expr": ("fn @f(a: i32): T = L;", "let t: T = @f(a); O(t)"), "ret-var": ("fn @f(a: i32): T { let t: T; M(t) <- t; }", "let t = @f(a); O(t)"), "ret-member": ("fn @f(a: i32): T { let t: T; M(t) <- t; }", "let u: T; u = @f(a); O(u)"),
    "global": ("let @g: T;", "M(@g) O(@g)"), "global-lit": ("let @g: T;", "@g = L; O(@g)"), "copy": ("", "let t: T; M(t) let u = t; let v: T; t = v; O(u)"), "pointer": ("", "let t: T; let p = &t; M(p) O(t)"), "deref": ("", "let t: T; M(t) let p: &T = &t; let u = *p; O(u)"),
    "elem": ("", "let t: ((T)[2]); M(t[1]) O(t[1])"), "elem-lit": ("", "let t: ((T)[2]) = [L, L]; O(t[0]) O(t[1])"), "member": ("type @S: struct { c: i8, m: T, d: i8 };", "let s: @S; s.c = 1: i8; M(s.m) s.d = 2: i8; O(s.m)"), "member-lit": ("type @S: struct { c: i8, m: T, d: i8 };", "let s = @S::{1: i8, L, 2: i8}; O(s.m)"),
    "named": ("type @N: T;", "let t = @N::L; O(t)"), "named-conv": ("type @N: T;", "let u: @N; M(u) let t: T = u; O(t)"), "named-arg": ("type @N: T;\nfn @f(t: @N, a: i32): i32 { O(t) <- 0; }", "let u: @N = L; @f(u, a);"), "lambda": ("", "let f = |t: T, a: i32| i32 => { O(t) <- 0; }; f(L, a);"), "lambda-ret": ("", "let f = |a: i32| T => { <- L; }; let t = f(a); O(t)"),
    "capture": ("", "let t: T; M(t) let f = |a: i32| i32 => { O(t) <- 0; }; f(a);"), "tern": ("", "let t = if a == a => L else L; O(t)"), "nested": ("", "let t: {i8, T, i8}; t._0 = 1: i8; M(t._1) t._2 = 2: i8; O(t._1)"), "nested-lit": ("", "let t: {i8, T} = {1: i8, L}; O(t._1)"), "nested-all": ("", "let t = {L, 3, L}; O(t._0) O(t._2)"),
    "typeof": ("", "let t: T; M(t) let u: typeof t = t; O(u)"), "macro": ("macro @m(x, y) { let x: y; }", "@m!(t, T) M(t) O(t)"), "pipe": ("fn @f(t: T, a: i32): i32 { O(t) <- 0; }", "let u: T; M(u) u |> @f($, a);"), "infix": ("fn @f(t: T, a: i32): i32 { O(t) <- 0; }", "let u: T; M(u) u `@f` a;"),
    "swap": ("", "let x: {T, T}; M(x._0) x._1 = x._0; let y: {T, T}; x._0 = y._0; O(x._1)"), "namespace": ("namespace @n { fn mk(a: i32): T = L; fn get(t: T, a: i32): i32 { O(t) <- 0; } }", "let t: T = @n::mk(a); @n::get(t, a);"),
    "own": ("namespace @n { type Q: struct { q: i8 }; fn mk(a: i32): {Q, T} = {Q::{5: i8}, L}; fn get(t: {Q, T}, a: i32): i32 { tr(t._0.q: i64); let u = t._1; O(u) <- 0; } }", "let t: {@n::Q, T} = @n::mk(a); @n::get(t, a);"),
    "own-inner": ("namespace @n { namespace m { type Q: struct { q: i8 }; fn get(t: {Q, T}, a: i32): i32 { tr(t._0.q: i64); let u = t._1; O(u) <- 0; } } fn mk(a: i32): {m::Q, T} = {m::Q::{5: i8}, L}; }", "using @n; @n::m::get(mk(a), a);"),
    "method": ("fn @f(t: &T, a: i32): i32 { O(t) <- 0; }", "let u: T; M(u) (&u) |> @f($, a);"), "loop": ("", "for let i = 0; i < 2; i++; { let t: T = L; O(t) }"),
}
TWICE = ("elem-lit", "nested-all", "loop")


def expand(s, comps):
    import re
    s = s.replace("L", "\1") if all(c in COMP for c in comps) else s
    s = re.sub(r"M\(([^()]*)\)", lambda m: sets(comps, m[1]), s)
    s = re.sub(r"R\(([^()]*)\)", lambda m: sets(comps, m[1], -1), s)
    s = re.sub(r"O\(([^()]*)\)", lambda m: obs(comps, m[1]), s)
    s = re.sub(r"(?<![\w.])T(?!\w)", lambda m: ty(comps), s)
    return s.replace("\1", lit(comps)) if "\1" in s else s


def shapes(tuples, keys):
    for comps in tuples:
        for k in keys:
            decl, body = PLACES[k]
            if not all(c in COMP for c in comps) and "L" in decl + body:
                continue
            w = want(comps) * (2 if k in TWICE else 1)
            if k.startswith("own"):
                w = "tr(5);" + w
            yield Case("%s:%s" % (k, ",".join(comps)), [("i32", [3, -4])], "i32", expand(decl, comps) + "\nfn @(a: i32): i32 { %s <- 7; }" % expand(body, comps), "i32 @(i32 a){ %s return 7; }" % w)


def sizes(tuples):
    for comps in tuples:
        yield Case("sizeof:%s" % ",".join(comps), [], "i64", "fn @(): i64 = (sizeof %s): i64;" % ty(comps), "i64 @(void){return %d;}" % size(comps))


def questions(tuples):
    yield from sizes(tuples)
    for x, y in itertools.product(tuples, repeat=2):
        yield Case("equal:%s=%s" % (",".join(x), ",".join(y)), [], "i32", "fn @(): i32 { if type::((%s) == (%s)) <- 1; <- 0; }" % (ty(x), ty(y)), "i32 @(void){return %d;}" % (x == y))


MIX = {
    "let": ("", "let u: A; let t: B = u;"), "assign": ("", "let u: A; let t: B; t = u;"), "arg": ("fn f(t: B): i32 = 0;", "let u: A; f(u);"), "ret": ("fn f(u: A): B { <- u; }", "let u: A; f(u);"), "member": ("type M: struct { m: B };", "let u: A; let s: M; s.m = u;"),
    "elem": ("", "let u: A; let t: (B)[2]; t[1] = u;"), "component": ("", "let u: A; let t: {i8, B}; t._1 = u;"), "component-lit": ("", "let u: A; let t: {i8, B} = {1: i8, u};"), "global": ("let g: B;", "let u: A; g = u;"), "pointer": ("", "let u: A; let t: B; let p = &t; *p = u;"),
}


def mixed(tuples, keys):
    import re
    main = "fn main(): i32 { let a: i32 = 1; %s <- 0; }"
    for x, y in itertools.product(tuples, repeat=2):
        for k in keys:
            d, b = [re.sub(r"(?<!\w)B(?!\w)", ty(y), re.sub(r"(?<!\w)A(?!\w)", ty(x), s)) for s in MIX[k]]
            yield "%s:%s=%s" % (k, ",".join(y), ",".join(x)), COMMON + d + "\n" + main % b, x == y


def bounds(tuples):
    main = COMMON + "fn main(): i32 { let a: i32 = 1; %s <- 0; }"
    for t in tuples:
        n = len(t)
        for i in (0, n - 1, n, n + 1, 10 * n):
            yield "component:%s._%d" % (",".join(t), i), main % ("let t: %s; let r = t._%d;" % (ty(t), i)), i < n
        for name in ("_", "x", "__0", "_00", "_-1"):
            yield "component:%s.%s" % (",".join(t), name), main % ("let t: %s; let r = t.%s;" % (ty(t), name)), False
        if all(c in COMP for c in t):
            for m, ok in ((t, True), (t + t[:1], False), (t + t, False)):
                yield "literal:%s=%s" % (",".join(t), ",".join(m)), main % ("let t: %s = %s;" % (ty(t), lit(m))), ok


PROP = dict(
    id="C24", title="Tuples keep their components, and equal tuple types are one type",
    statement="A tuple type `{A, B, …}` has the components `_0`, `_1`, … of these types, laid out like the members of a struct; `{a, b, …}` is a tuple (or the named struct wanted where it stands) of these values. Each component reads as what was last stored in it, and storing, copying, passing, returning, capturing or nesting a tuple changes nothing else. Two tuple types are the same type exactly if their components have the same types, wherever and in whichever namespace they are written; tuples of different components are never mixed up. With both backends.",
    quantifier=dict(over=["programs", "inputs", "configurations"], text="tuples of all single components, all ordered pairs of 22 component types and triples of some, each in up to 42 places (declared, inferred, passed, returned, global, captured, nested, in namespaces...); sizes; all pairs of the tuple types asked for equality; many tuple types in the same program; both backends, optimised or not"),
    why_tests_cant="Tuple types are generated and shared by the compiler depending on all others in the program; no test uses a tuple.",
    anchors=dict(files=["src/compiler/parser/parser.c", "src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c"], mechanism="parse_type, get_tuple_type, validate_anon_struct_lit, iter_validate_struct_lit, implicit_cast, asm_gen_struct_lit, c_gen_struct_definition"),
    technique="bounded exhaustive enumeration of tuple types x places; compiled by the real compiler, run, and every component observed compared with the value stored", level="exploration",
    level_note="Real compiler and compiled code. Bounds: at most three components (nested up to three deep), two values of the one input.")


def run(chk, repo):
    allc = list(COMP) + list(PART)
    singles = [(c,) for c in allc]
    pairs = list(itertools.product(allc, repeat=2))
    few = ["i8", "i64", "f64", "S", "nS", "tup", "fn", "arr"]
    triples = list(itertools.product(few, repeat=3))
    main = ["init", "inferred", "members", "arg-var", "ret-var", "copy", "nested"]
    big = [tuple(k) for n in (4, 5, 9, 10, 11, 12) + ((16, 33, 101) if chk.thorough else ()) for k in ([["i8"] * n, ["i64"] * n, (["i8", "i64"] * n)[:n], (["i32", "S", "i8"] * n)[:n], ["f64"] * (n - 1) + ["tup"], ["arr"] + ["char"] * (n - 1)])]
    some = [(c,) for c in allc] + [("i8", "i32"), ("i32", "i8"), ("i8", "i32", "i8"), ("tup", "i8"), ("S", "nS"), ("nS", "S")]
    kinds = list(MIX)
    mix = []
    for n, k in enumerate(kinds):
        mix += list(mixed(some, [k])) if chk.thorough else [it for m, it in enumerate(mixed(some, [k])) if m % len(kinds) == n or it[2]]
    verdict.explore(chk, repo, mix, tag="mixed:")
    verdict.explore(chk, repo, bounds(some + big[:12]), tag="bounds:")
    for backend in (None, "C"):
        for flags in ((), ("-0",)):
            if flags and backend and not chk.thorough:
                continue
            full = chk.thorough or not (backend or flags)
            cs = list(shapes(singles + [p for p in pairs if full or p[0] in few and p[1] in few], PLACES)) + list(shapes(triples, PLACES if chk.thorough else main if full else ["init", "members"]))
            cs += list(shapes(big, PLACES if chk.thorough and not (backend or flags) else main if full else ["init", "arg-var"]))
            cs += list(sizes(triples + big))
            if full and not flags:  # many tuple types written in one way only
                cs.sort(key=lambda c: c.key.split(":")[0])
            cs += list(questions(singles + (pairs if chk.thorough else [p for p in pairs if p[0] in few[:4] + ["arr"] and p[1] in allc[8:]])))
            explore(chk, repo, cs, batch=200, common_csp=COMMON, backend=backend, flags=flags, tag="%s%s/" % (backend or "asm", "-0" if flags else ""))
    chk.cov["rule"] = "one evaluation per program, configuration and input; distinct_nontrivial counts different programs"
