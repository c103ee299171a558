"""C20 - an expression means the same wherever it stands, and optimisation changes nothing: declarations used once, in every construct."""
from cases import Case, explore

# constructs around the only use E (of type i32 and value 7); the body yields 7
EXPR = {
    "return": "<- E;", "add-l": "<- E + 0;", "add-r": "<- 0 + E;", "sub-l": "<- E - 0;", "sub-r": "<- 14 - E;", "mul-l": "<- E * 1;", "mul-r": "<- 1 * E;",
    "div-l": "<- E / 1;", "div-r": "<- 49 / E;", "mod-l": "<- E % 8;", "mod-r": "<- 7 + 14 % E;", "shl-l": "<- E << 0;", "shl-r": "<- 7 + (128 >> E) - 1;", "shr-l": "<- E >> 0;",
    "shr-r": "<- (896 >> E);", "and-l": "<- E & 15;", "and-r": "<- 15 & E;", "or-l": "<- E | 0;", "or-r": "<- 0 | E;", "xor-l": "<- E ^ 0;", "xor-r": "<- 0 ^ E;",
    "eq-l": "<- if E == 7 => 7 else 0;", "eq-r": "<- if 7 == E => 7 else 0;", "ne-l": "<- if E != 8 => 7 else 0;", "lt-l": "<- if E < 8 => 7 else 0;", "le-r": "<- if 7 <= E => 7 else 0;",
    "gt-l": "<- if E > 6 => 7 else 0;", "ge-r": "<- if 7 >= E => 7 else 0;", "land-l": "<- if E == 7 && 1 == 1 => 7 else 0;", "land-r": "<- if 1 == 1 && E == 7 => 7 else 0;",
    "lor-l": "<- if E == 7 || 1 == 2 => 7 else 0;", "lor-r": "<- if 1 == 2 || E == 7 => 7 else 0;", "not": "<- if !(E == 6) => 7 else 0;", "neg": "<- -(-E);", "bitneg": "<- ~(~E);",
    "cast": "<- (E : i64): i32;", "tern-c": "<- if E == 7 => 7 else 1;", "tern-t": "<- if 1 == 1 => E else 1;", "tern-e": "<- if 1 == 2 => 1 else E;",
    "if-c": "if E == 7 <- 7; <- 0;", "if-t": "if 1 == 1 { <- E; } <- 0;", "if-e": "if 1 == 2 { <- 0; } else { <- E; } <- 1;", "else-if": "if 1 == 2 <- 0; else if E == 7 <- 7; <- 1;",
    "while-c": "let k = 0; while k < E k++; <- k;", "while-b": "let k = 0; while k == 0 k = E; <- k;", "do-c": "let k = 0; do { k++; } while k < E; <- k;", "do-b": "let k = 0; do { k = E; } while k == 0; <- k;",
    "unless-c": "let k = 0; do { k = 7; } unless E == 6; <- k;", "unless-b": "let k = 0; do { k = E; } unless k == 7; <- k;", "loop": "let k = 0; loop { k = E; break; } <- k;",
    "for-i": "let k = 0; for let i = E; i < 8; i++; { k = i; } <- k;", "for-c": "let k = 0; for let i = 0; i < E; i++; { k++; } <- k;", "for-e": "let k = 0; for let i = 0; i < 7; i += E; { k = 7; } <- k;",
    "for-b": "let k = 0; for let i = 0; i < 1; i++; { k = E; } <- k;", "range-l": "let k = 14; for E..14 k--; <- k;", "range-r": "let k = 0; for 0..E k++; <- k;", "range-b": "let k = 0; for 0..1 k = E; <- k;",
    "match-c": "match E { 7 => <- 7; _ => <- 0; } <- 1;", "match-v": "match 7 { E => <- 7; _ => <- 0; } <- 1;", "match-b": "match 1 { 1 => <- E; _ => <- 0; } <- 1;", "match-d": "match 1 { 2 => <- 0; _ => <- E; } <- 1;",
    "match-op": "match 6 { < E => <- 7; _ => <- 0; } <- 1;", "match-type": "let r = 0; match (type) i32 { i32 => { r = E; } _ => { r = 1; } } <- r;",
    "match-type-d": "let r = 0; match (type) i64 { i32 => { r = 1; } _ => { r = E; } } <- r;", "match-type-2": "match (type) i64 { i32 => { <- 1; } i64 => { <- E; } _ => { <- 2; } } <- 0;", "match-type-loop": "let r = 0; loop { match (type) i64 { i32 => { r = 1; } _ => { r = E; break; } } } <- r;",
    "match-op-d": "match 6 { > 6 => <- 0; _ => { let x = E; <- x; } } <- 1;", "let": "let x = E; <- x;", "let-typed": "let x: i64 = E; <- x: i32;", "assign": "let x = 0; x = E; <- x;", "add-assign": "let x = 0; x += E; <- x;", "xor-assign": "let x = 0; x ^= E; <- x;",
    "index": "let a: i32[8]; a[7] = 7; <- a[E];", "index-l": "let a: i32[8]; a[E] = 7; <- a[7];", "array-lit": "let a: i32[2] = [1, E]; <- a[1];", "struct-lit": "let s = So::{1, E}; <- s.b;",
    "arg": "<- s_id(E);", "arg-2": "<- s_two(0, E);", "arg-deep": "<- s_id(s_two(s_id(E), 0));", "arg-var": "<- s_var(7, E);", "callee-arg": "let f = s_id; <- f(E);",
    "lambda": "let f = || i32 => { <- E; }; <- f();", "lambda-e": "let f = || i32 = E; <- f();", "lambda-lambda": "let f = || i32 => { let g = || i32 => { <- E; }; <- g(); }; <- f();",
    "const-lambda": "let f = const || i32 => { <- E; }; <- f();", "lambda-passed": "<- s_ap(|x: i32| i32 => { <- x + E; });", "pipe-l": "<- E |> s_id($);", "pipe-r": "<- 0 |> s_two(E, $);",
    "else-expr": "<- (0 else E);", "block": "{ { <- E; } } <- 0;", "infix": "<- 0 `s_two` E;", "operator": "<- 0 <+++> E;", "deref": "let x = E; let p = &x; <- *p;", "inc": "let x = E; x++; <- x - 1;",
    "defer": "defer s_g = E; <- 7;", "using": "using s_ns; <- nid(E);", "ns-arg": "<- s_ns::nid(E);", "paren": "<- ((E));", "drop-e": "let x = 0; x = E; x = x; <- x;",
    "with-c": "let x = 0; with d = s_mk(E) x = d.v; <- x;", "with-b": "let x = 0; with d = s_mk(1) x = E; <- x;", "with-e": "let x = 0; with d = s_mk0() x = 1; else x = E; <- x;",
    "ptr-store": "let x = 0; let p = &x; *p = E; <- x;", "member-store": "let s: So; s.b = E; <- s.b;", "array-elem-struct": "let s: So[2] = [So::{1, 2}, So::{3, E}]; <- s[1].b;", "ret-struct": "<- s_mk(E).v;",
}

COMMON = """
type So: struct { a: i32, b: i32 };
type Sd: struct { v: i32 };
fn s_id(x: i32): i32 = x;
fn s_two(a: i32, b: i32): i32 = a + b;
fn s_var(n: i32, args: ...): i32 = n;
fn s_ap(f: fn<i32>(i32)): i32 = f(0);
operator <+++> (a: i32, b: i32): i32 = a + b;
namespace s_ns { fn nid(x: i32): i32 = x; }
fn s_mk(v: i32): Sd { let s: Sd; s.v = v; <- s; }
fn s_mk0(): &Sd { <- nil; }
[drop] fn s_drop0(_s: &Sd) { noop; }
let s_g: i32 = 0;
[drop] fn s_drop(_s: Sd) { noop; }
"""
# kinds of declarations: (declaration, its use)
KINDS = {
    "fn": ("fn @o(): i32 { <- 7; }", "@o()"),
    "fn-arg": ("fn @o(x: i32): i32 { <- x + 6; }", "@o(1)"),
    "ns-fn": ("namespace @n { namespace m { fn o(): i32 = 7; } }", "@n::m::o()"),
    "global": ("let @o: i32 = 7;", "@o"),
    "const": ("const @o: i32 = 7;", "@o"),
    "chain": ("fn @o1(): i32 = 3; let @g: i32 = 4; fn @o(): i32 = @o1() + @g;", "@o()"),
    "fn-value": ("fn @o(): i32 { <- 7; } fn @c(f: fn<i32>()): i32 = f();", "@c(@o)"),
    "struct-fn": ("fn @o(): So { let s: So; s.a = 7; <- s; }", "@o().a"),
    "ptr-fn": ("let @g: i32 = 7; fn @o(): &i32 { <- &@g; }", "(*(@o()))"),
    "array-fn": ("let @g: i32[2] = [1, 7];", "@g[1]"),
    "enum": ("type @E: enum { A, B = 7 };", "(@E::B: i32)"),
    "constexpr": ("[constexpr] fn @o(): i32 { <- 7; }", "@o()"),
    "lambda": ("fn @c(f: fn<i32>(i32)): i32 = f(0);", "@c(|x: i32| i32 => { <- x + 7; })"),
    "lambda-fn": ("fn @o(): i32 = 7;", "s_ap(|x: i32| i32 => { <- x + @o(); })"),
    "infix": ("fn @o(a: i32, b: i32): i32 = a + b;", "(3 `@o` 4)"),
    "pipe": ("fn @o(a: i32, b: i32): i32 = a + b;", "(3 |> @o($, 4))"),
    "ternary": ("fn @o(): i32 = 7; fn @c(): bool = true;", "(if @c() => @o() else 0)"),
    "index-fn": ("fn @o(): i32 = 1; let @g: i32[2] = [1, 7];", "@g[@o()]"),
    "len": ("let @g: i32[7];", "((len @g): i32)"),
    "drop": ("type @T: struct { v: i32 }; let @g: i32 = 0; fn @m(): @T { let t: @T; t.v = 7; <- t; } [drop] fn @d(t: @T) { @g = t.v; } fn @u(): i32 { with t = @m() noop; <- @g; }", "@u()"),
    "dyn": ("type @I: interface { fn @get(p: &@I): i32, }; type @T: struct { v: i32 }; dyn(@I) fn @get(p: &@T): i32 { <- p.v; }\n"
            "fn @u(): i32 { let t: @T; t.v = 7; let d: dyn @I = (&t): dyn @I; <- d.@get(); }", "@u()"),
}



def items(backend):
    for kk, (decl, use) in KINDS.items():
        for ck, body in EXPR.items():
            if backend == "C" and ck in ("defer",):
                continue
            yield Case("sole:%s:%s" % (kk, ck), [], "i32", decl + "\nfn @(): i32 { %s }" % body.replace("E", use).replace("@@", "@"), "i32 @(void){return 7;}")


def nested(backend, kinds):
    """each construct around each expression construct around the use"""
    for kk in kinds:
        decl, use = KINDS[kk]
        for ck, body in EXPR.items():
            if backend == "C" and ck in ("defer",):
                continue
            for ik, inner in EXPR.items():
                if not inner.startswith("<- ") or inner.count(";") != 1 or "E" not in body:
                    continue
                e = "(%s)" % inner[3:-1].replace("E", use)
                yield Case("sole:%s:%s:%s" % (kk, ck, ik), [], "i32", decl + "\nfn @(): i32 { %s }" % body.replace("E", e), "i32 @(void){return 7;}")


PROP = dict(
    id="C20", title="A use counts wherever it stands, and optimisation changes nothing",
    statement="A program that uses a declaration - function, function of a namespace, global, constant, enumerator, array, lambda, operator call, infix call, function value, drop function, interface method - in one single place builds, links and yields the value of that use, whichever construct holds it: operands of every operator, conditions, bodies and bounds of every statement, match values, cases and type cases, arguments, elements and members, lambdas, pipes, deferred statements, with bodies, and constructs nested in each other. It does so identically with and without optimisation (-0) and with both backends; removing unused code never removes anything that is used.",
    quantifier=dict(over=["programs", "configurations"], text="21 kinds of declarations x about 100 constructs holding the only use; two kinds (thorough: all) x all pairs of a construct and an expression construct inside it; each with both backends, with and without optimisation"),
    why_tests_cant="Each construct has its own traversal in each pass and code generator; the tests use declarations in several places at once, which hides a pass that overlooks one.",
    anchors=dict(files=["src/compiler/optimizer/optimizer.c", "src/compiler/ast/ast_iterator.c", "src/compiler/parser/validator.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c"], mechanism="remove_dead_code, ast_iterate, the passes of the validator, the statement and expression generators"),
    technique="bounded exhaustive enumeration of programs (declaration kind x construct x nested construct) in all four configurations, each built by the real compiler and run", level="exploration",
    level_note="Real compiler and compiled code. Bounds: one use per declaration, constructs nested at most two deep, one value. `defer` is only explored with the assembly backend (the C backend rejects it).")


def run(chk, repo):
    for backend in (None, "C"):
        for flags in ((), ("-0",)):
            cs = list(items(backend)) + list(nested(backend, KINDS if chk.thorough else ("fn", "lambda-fn")))
            explore(chk, repo, cs, batch=300, common_csp=COMMON, backend=backend, flags=flags, tag="%s%s/" % (backend or "asm", "-0" if flags else ""))
    chk.cov["rule"] = "one evaluation per program and configuration; distinct_nontrivial counts programs, each of which has its own only use"
