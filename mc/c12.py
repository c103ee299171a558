"""C12 - what is ill-formed is rejected wherever it stands, what is well-formed is accepted: pairs of twin fragments in
every kind of statement and expression place, and conversion tables type x type x place."""
import verdict

PROP = dict(
    id="C12",
    title="Ill-formed programs are rejected and well-formed ones accepted, in every place",
    statement="A program that breaks a rule of the language is refused with a message, without output and without a crash, no matter where in "
              "the program the fault stands (in any kind of statement, nested block, lambda, method, macro body, namespace function or in a "
              "function nobody calls), and its well-formed twin is accepted in the same place. Rules: names must be defined and not defined twice; calls need the "
              "declared number of arguments and something callable; `break` and `continue` need a loop; only lvalues that are not constant can be "
              "assigned, incremented or referenced; members must exist; only pointers are dereferenced, only arrays and pointers indexed; a value must be returned of the "
              "declared type; arithmetic takes numbers (addition pointers too), `%`, shifts and bit operators take integers; `void` is no value; values convert implicitly only between "
              "numbers, between pointers, from arrays to slices, between structures of the same layout and between functions of the same signature, whatever the place: initialiser, assignment, argument, "
              "return value, structure member, array element.",
    quantifier={"over": ["programs"], "text": "all (fragment pair, place) combinations of 119 fragment pairs and 31 places, about 80 pairs of whole programs, all ordered pairs of 35 types in 16 places where a value is handed over, and all ordered pairs of 48 function types and of 32 struct and union types in 4 or 5 of these places"},
    why_tests_cant="the tests contain only correct programs, so that a check of the compiler which is lost, or which is done only for some kinds of statements, goes unnoticed; and a check that is too strict is noticed only for the few shapes the tests use",
    anchors={"files": ["src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c", "src/compiler/parser/parser.c", "src/compiler/ast/ast_iterator.c"],
             "mechanism": "validate_ast, typecheck_obj, implicitly_castable, types_equal, ast_iterate"},
    technique="bounded exhaustive enumeration of programs: every combination of fragment and place is compiled by the real compiler and its verdict compared with the table (explicit-state model checking of the acceptance relation)",
    level="bounded-exhaustive",
    level_note="all combinations of the listed fragments and places, no sampling",
)

GLOB = """
type P: struct { x: i32, y: i32 };
type U: union { x: i32, f: f32 };
type En: enum { A, B };
namespace ns { fn pub(a: i32): i32 { <- a; } let g: i32 = 4; type T: struct { q: i32 }; }
fn f0(): i32 { <- 7; }
fn f1(a: i32): i32 { <- a; }
fn f2(a: i32, b: i32): i32 { <- a + b; }
fn fv(a: i32, args: ...): i32 { <- a; }
fn fp(p: &i32): i32 { <- *p; }
fn fs(p: P): i32 { <- p.x; }
fn nothing() {}
macro two(a, b) { (a) + (b) }
let gi: i32 = 5;
const gc: i32 = 6;
"""

# key, statements of the good twin, statements of the bad twin
FRAGS = [
    ("undef-var", "let v = gi; gi = v;", "let v = nosuch; gi = v;"),
    ("undef-assign", "gi = 1;", "nosuch = 1;"),
    ("undef-call", "gi = f0();", "gi = nosuch();"),
    ("undef-ns", "gi = ns::g;", "gi = ms::g;"),
    ("undef-ns-member", "gi = ns::pub(1);", "gi = ns::nosuch(1);"),
    ("undef-type", "let v: P = P::{1, 2}; gi = v.x;", "let v: NoSuch = P::{1, 2}; gi = 1;"),
    ("undef-type-cast", "gi = 3: u8;", "gi = 3: NoSuch;"),
    ("undef-type-sizeof", "gi = sizeof P;", "gi = sizeof NoSuch;"),
    ("undef-macro", "gi = two!(1, 2);", "gi = three!(1, 2);"),
    ("undef-enum", "gi = En::B: i32;", "gi = En::C: i32;"),
    ("use-out-of-scope", "let v = 1; {gi = v;}", "{let v = 1; gi = v;} gi = v;"),
    ("redef-local", "let v = 1; let w = 2; gi = v + w;", "let v = 1; let v = 2; gi = v;"),
    ("args-few", "gi = f2(1, 2);", "gi = f2(1);"),
    ("args-many", "gi = f1(1);", "gi = f1(1, 2);"),
    ("args-none", "gi = f0();", "gi = f0(1);"),
    ("args-missing", "gi = f1(1);", "gi = f1();"),
    ("args-variadic-few", "gi = fv(1);", "gi = fv();"),
    ("macro-args-few", "gi = two!(1, 2);", "gi = two!(1);"),
    ("macro-args-many", "gi = two!(1, 2);", "gi = two!(1, 2, 3);"),
    ("call-int", "gi = f0();", "gi = gi();"),
    ("call-struct", "gi = f0();", "let p = P::{1, 2}; gi = p();"),
    ("break", "loop { break; }", "break;"),
    ("continue", "for 0 .. 3 { continue; }", "continue;"),
    ("break-if", "loop { if true { break; } }", "if true { break; }"),
    ("assign-literal", "gi = 3;", "3 = gi;"),
    ("assign-call", "gi = f0();", "f0() = gi;"),
    ("assign-fn", "gi = f0();", "f0 = 1;"),
    ("assign-binop", "gi = gi + 1;", "gi + 1 = gi;"),
    ("assign-const", "let v = 1; v = 2; gi = v;", "const v = 1; v = 2; gi = v;"),
    ("assign-gconst", "gi = 2;", "gc = 2;"),
    ("assign-enum", "let v = En::A; gi = v: i32;", "En::A = 1;"),
    ("add-assign-const", "let v = 1; v += 2; gi = v;", "const v = 1; v += 2; gi = v;"),
    ("inc-const", "let v = 1; v++; gi = v;", "const v = 1; v++; gi = v;"),
    ("dec-const", "let v = 1; v--; gi = v;", "const v = 1; v--; gi = v;"),
    ("inc-literal", "gi++;", "5++;"),
    ("inc-call", "gi++;", "f0()++;"),
    ("ref-literal", "gi = fp(&gi);", "gi = fp(&5);"),
    ("ref-binop", "gi = fp(&gi);", "gi = fp(&(gi + 1));"),
    ("const-via-ptr", "let v = 1; let p = &v; *p = 2; gi = v;", "let v = 1; let p: &const i32 = &v; *p = 2; gi = v;"),
    ("const-member", "let p = P::{1, 2}; p.x = 2; gi = p.x;", "const p = P::{1, 2}; p = P::{2, 3}; gi = p.x;"),
    ("const-member-of-local", "let p = P::{1, 2}; p.x = 2; gi = p.x;", "const p = P::{1, 2}; p.x = 2; gi = p.x;"),
    ("const-member-add", "let p = P::{1, 2}; p.x += 2; gi = p.x;", "const p = P::{1, 2}; p.x += 2; gi = p.x;"),
    ("const-member-inc", "let p = P::{1, 2}; p.y++; gi = p.y;", "const p = P::{1, 2}; p.y++; gi = p.y;"),
    ("const-element", "let a = [1, 2]; a[1] = 2; gi = a[1];", "const a: i32[2] = [1, 2]; a[1] = 2; gi = a[1];"),
    ("const-element-inc", "let a = [1, 2]; a[0]--; gi = a[1];", "const a: i32[2] = [1, 2]; a[0]--; gi = a[1];"),
    ("const-element-member", "let a: P[2]; a[1].x = 2; gi = a[1].x;", "const a: P[2] = [P::{1, 2}, P::{3, 4}]; a[1].x = 2; gi = a[1].x;"),
    ("const-member-via-ptr", "let v = P::{1, 2}; let p: &P = &v; p.x = 2; gi = v.x;", "let v = P::{1, 2}; let p: &const P = &v; p.x = 2; gi = v.x;"),
    ("const-ptr-member", "let v = P::{1, 2}; const p: &P = &v; p.x = 2; gi = v.x;", "let v = P::{1, 2}; const p: &P = &v; p = &v; gi = v.x;"),
    ("const-ptr-deref", "let v = 3; const p: &i32 = &v; *p = 2; gi = v;", "let v = 3; const p: &i32 = &v; p++; gi = v;"),
    ("const-ptr-element", "let a = [1, 2]; const p: &i32 = &a[0]; p[1] = 4; gi = a[1];", "let a = [1, 2]; const p: &i32 = &a[0]; p += 1; gi = a[1];"),
    ("const-slice-element", "let a = [1, 2]; const s: i32[] = a; s[1] = 4; gi = a[1];", "let a = [1, 2]; const s: i32[] = a; s = a; gi = a[1];"),
    ("member-none", "let p = P::{1, 2}; gi = p.y;", "let p = P::{1, 2}; gi = p.z;"),
    ("member-assign-none", "let p = P::{1, 2}; p.y = 1; gi = p.y;", "let p = P::{1, 2}; p.z = 1; gi = p.y;"),
    ("member-of-int", "let p = P::{1, 2}; gi = p.y;", "gi = gi.y;"),
    ("member-union", "let u: U; u.x = 1; gi = u.x;", "let u: U; u.z = 1; gi = u.x;"),
    ("deref-int", "let p = &gi; gi = *p;", "gi = *gi;"),
    ("deref-struct", "let p = P::{1, 2}; let q = &p; gi = q.x;", "let p = P::{1, 2}; gi = (*p).x;"),
    ("index-int", "let a = [1, 2]; gi = a[0];", "gi = gi[0];"),
    ("index-struct", "let a = [1, 2]; gi = a[0];", "let p = P::{1, 2}; gi = p[0];"),
    ("index-by-float", "let a = [1, 2]; gi = a[1];", "let a = [1, 2]; gi = a[1.5];"),
    ("index-by-struct", "let a = [1, 2]; gi = a[1];", "let a = [1, 2]; gi = a[P::{1, 2}];"),
    ("rindex-ptr", "let a = [1, 2]; gi = a[^1];", "let p = &gi; gi = p[^1];"),
    ("struct-many", "let p = P::{1, 2}; gi = p.x;", "let p = P::{1, 2, 3}; gi = p.x;"),
    ("struct-member-type", "let p = P::{1, 2}; gi = p.x;", "let q = P::{1, 2}; let p = P::{q, 2}; gi = p.x;"),
    ("array-empty", "let a = [1]; gi = a[0];", "let a = []; gi = 0;"),
    ("array-mixed", "let a = [1, 2]; gi = a[0];", "let a = [1, P::{1, 2}]; gi = 0;"),
    ("void-var", "let v = f0(); gi = v;", "let v = nothing(); gi = 1;"),
    ("void-decl", "let v: i32; v = 1; gi = v;", "let v: void; gi = 1;"),
    ("void-arg", "gi = f1(f0());", "gi = f1(nothing());"),
    ("void-operand", "gi = 1 + f0();", "gi = 1 + nothing();"),
    ("void-assign", "gi = f0();", "gi = nothing();"),
    ("void-cast", "gi = f0(): u8;", "gi = nothing(): i32;"),
    ("cast-void", "gi = f0(): u8;", "gi = f0(): void;"),
    ("if-int", "if gi == 1 { gi = 2; }", "if P::{1, 2} { gi = 2; }"),
    ("ternary-cond", "gi = if gi == 1 => 1 else 2;", "gi = if gi => 1 else 2;"),
    ("ternary-types", "gi = if true => 1 else 2;", "let p = P::{1, 2}; gi = if true => 1 else p;"),
    ("else-types", "let v: i32 = gi else 2; gi = v;", "let p = P::{1, 2}; let v: i32 = gi else p; gi = v;"),
    ("mod-float", "gi = gi % 3;", "gi = gi % 2.5;"),
    ("mod-float-left", "gi = 5 % 3;", "let d: f64 = 1.5; gi = (d % 3): i32;"),
    ("and-float", "gi = gi & 3;", "let d: f64 = 1.5; gi = (d & 3): i32;"),
    ("or-float-right", "gi = gi | 3;", "let d: f64 = 1.5; gi = (3 | d): i32;"),
    ("xor-struct", "gi = gi ^ 3;", "let p = P::{1, 2}; gi = 3 ^ p;"),
    ("shl-float", "gi = gi << 3;", "let d: f64 = 1.5; gi = (d << 3): i32;"),
    ("shr-float", "gi = gi >> 3;", "let d: f64 = 1.5; gi = (3 >> d): i32;"),
    ("bitneg-float", "gi = ~ gi;", "let d: f64 = 1.5; gi = (~ d): i32;"),
    ("neg-struct", "gi = - gi;", "let p = P::{1, 2}; gi = (- p).x;"),
    ("neg-ptr", "gi = - gi;", "let p = & gi; let q = - p; gi = *q;"),
    ("add-struct", "gi = gi + 1;", "let p = P::{1, 2}; gi = p + 1;"),
    ("add-structs", "gi = gi + 1;", "let p = P::{1, 2}; let q = p + p; gi = q.x;"),
    ("mul-ptr", "gi = gi * 2;", "let p = &gi; let q = p * 2; gi = *q;"),
    ("mul-struct", "gi = gi * 2;", "let p = P::{1, 2}; gi = 2 * p;"),
    ("div-struct", "gi = gi / 2;", "let p = P::{1, 2}; gi = p / 2;"),
    ("sub-struct", "gi = gi - 2;", "let p = P::{1, 2}; gi = 5 - p;"),
    ("lt-struct", "gi = (gi < 2): i32;", "let p = P::{1, 2}; gi = (p < p): i32;"),
    ("eq-struct", "gi = (gi == 2): i32;", "let p = P::{1, 2}; gi = (p == p): i32;"),
    ("eq-struct-int", "gi = (gi == 2): i32;", "let p = P::{1, 2}; gi = (p == 2): i32;"),
    ("not-struct", "gi = (!gi): i32;", "let p = P::{1, 2}; gi = (!p): i32;"),
    ("and-struct", "gi = (true && gi == 1): i32;", "let p = P::{1, 2}; gi = (true && p): i32;"),
    ("while-struct", "while gi == 1 { gi = 2; }", "let p = P::{1, 2}; while p { gi = 2; }"),
    ("for-struct", "for 0 .. 3 { gi = 2; }", "let p = P::{1, 2}; for 0 .. p { gi = 2; }"),
    ("for-float", "for 0 .. 3 { gi = 2; }", "for 0 .. 2.5 { gi = 2; }"),
    ("match-range-struct", "match gi { < 3 => gi = 1; _ => gi = 2; }", "let p = P::{1, 2}; match p { < p => gi = 1; _ => gi = 2; }"),
    ("match-two-defaults", "match gi { 3 => gi = 1; _ => gi = 2; }", "match gi { _ => gi = 1; _ => gi = 2; }"),
    ("len-int", "let a = [1, 2]; gi = len a;", "gi = len gi;"),
    ("len-struct", "let a = [1, 2]; gi = len a;", "let p = P::{1, 2}; gi = len p;"),
    ("hole", "gi = 2 |> f1($);", "gi = f1($);"),
    ("with-no-exit", "{ let p = P::{1, 2}; gi = p.x; }", "with p = P::{1, 2} { gi = p.x; }"),
    ("arg-struct-for-int", "gi = f1(3);", "gi = f1(P::{1, 2});"),
    ("arg-int-for-struct", "gi = fs(P::{1, 2});", "gi = fs(3);"),
    ("arg-int-for-ptr", "gi = fp(&gi);", "gi = fp(3);"),
    ("assign-struct-int", "let p: P = P::{1, 2}; gi = p.x;", "let p: P = 3; gi = p.x;"),
    ("assign-int-struct", "gi = 3;", "gi = P::{1, 2};"),
    ("assign-int-ptr", "let p: &i32 = &gi; gi = *p;", "let p: &i32 = gi; gi = 1;"),
    ("assign-ptr-int", "gi = (&gi): i64: i32;", "gi = &gi;"),
    ("assign-fn-sig", "let p: fn<i32>(i32) = f1; gi = p(1);", "let p: fn<i32>(i32) = f2; gi = 1;"),
    ("lambda-sig", "let p: fn<i32>(i32) = |x: i32| i32 => { <- x; }; gi = p(1);", "let p: fn<i32>(i32) = || i32 => { <- 1; }; gi = 1;"),
    ("lambda-return", "let p = |x: i32| i32 => { <- x; }; gi = p(1);", "let p = |x: i32| i32 => { <- P::{x, x}; }; gi = p(1);"),
    ("type-as-value", "gi = P::{1, 2}.x;", "gi = P;"),
    ("ns-as-value", "gi = ns::g;", "gi = ns;"),
    ("using-none", "using ns; gi = g;", "using nosuch; gi = gi;"),
    ("using-type", "using ns; gi = g;", "using P; gi = gi;"),
    ("value-as-type", "gi = 3: u8;", "gi = 3: gc;"),
    ("ret-struct", "if gi == 99 { <- 3; }", "if gi == 99 { <- P::{1, 2}; }"),
    ("ret-nothing", "if gi == 99 { ret 3; }", "if gi == 99 { ret; }"),
    ("ret-ptr", "if gi == 99 { <- gi; }", "if gi == 99 { <- &gi; }"),
    ("escape", 'let s = "a\\n"; gi = s[0];', 'let s = "a\\q"; gi = s[0];'),
    ("syntax-paren", "gi = (1 + 2);", "gi = (1 + 2;"),
    ("syntax-semicolon", "gi = 1; gi = 2;", "gi = 1 gi = 2;"),
    ("syntax-operand", "gi = 1 + 2;", "gi = 1 + ;"),
]

# place: text with the fragment for %s; all are inside functions returning i32
PLACES = [
    ("body", "fn k(): i32 { %s <- 0; }"),
    ("uncalled", "fn k(): i32 { <- 0; } fn nobody(): i32 { %s <- 0; }"),
    ("block", "fn k(): i32 { { %s } <- 0; }"),
    ("if", "fn k(): i32 { if gi == 4 { %s } <- 0; }"),
    ("else", "fn k(): i32 { if gi == 4 { gi = 1; } else { %s } <- 0; }"),
    ("else-if", "fn k(): i32 { if gi == 4 { gi = 1; } else if gi == 5 { %s } else { gi = 2; } <- 0; }"),
    ("match-case", "fn k(): i32 { match gi { 1 => { %s } _ => { gi = 1; } } <- 0; }"),
    ("match-default", "fn k(): i32 { match gi { 1 => gi = 3; _ => { %s } } <- 0; }"),
    ("match-type", "fn k(): i32 { match (type) typeof gi { i32 => { %s } _ => { gi = 1; } } <- 0; }"),
    ("lambda", "fn k(): i32 { let l = || i32 => { %s <- 1; }; <- l(); }"),
    ("lambda-arg", "fn ap(f: fn<i32>()): i32 { <- f(); } fn k(): i32 { <- ap(|| i32 => { %s <- 1; }); }"),
    ("const-lambda", "fn k(): i32 { let l = const || i32 => { %s <- 1; }; <- l(); }"),
    ("void-lambda", "fn k(): i32 { let l = || => { gi = 5; %s }; l(); <- 0; }"),
    ("lambda-in-void", "fn k2() { let l = || i32 => { %s <- 1; }; gi = l(); } fn k(): i32 { k2(); <- 0; }"),
    ("nested-lambda", "fn k(): i32 { let l = || i32 => { let m = || i32 => { %s <- 1; }; <- m(); }; <- l(); }"),
    ("defer", "fn k(): i32 { defer { %s } <- 0; }"),
    ("do-unless", "fn k(): i32 { do { %s } unless gi < 4; <- 0; }"),
    ("const-lambda-in-loop", "fn k(): i32 { while gi < 9 { let l = const || i32 => { %s <- 1; }; gi += l() + 9; } <- 0; }"),
    ("defer-in-loop", "fn k(): i32 { while gi < 9 { defer { %s } gi += 9; } <- 0; }"),
    ("with", "type R: struct { r: i32 }; [drop] fn dr(x: R) { gi = x.r; } fn k(): i32 { with x = R::{1} { %s } <- 0; }"),
    ("with-else", "type R: struct { r: i32 }; [drop] fn dr(x: R) { gi = x.r; } fn k(): i32 { with x = R::{1} { gi = 1; } else { %s } <- 0; }"),
    ("namespace", "namespace nn { fn k2(): i32 { %s <- 0; } } fn k(): i32 { <- nn::k2(); }"),
    ("macro", "macro mm() { { %s } } fn k(): i32 { mm!(); <- 0; }"),
    ("method", "type M: interface { fn me(p: &M): i32, }; dyn(M) fn me(me: &P): i32 { %s <- me.x; } fn um(m: dyn M): i32 { <- m.me(); } fn k(): i32 { let p = P::{1, 2}; <- um(&p); }"),
    ("operator", "operator <+> (a: P, b: P): i32 { %s <- 0; } fn k(): i32 { <- P::{1, 2} <+> P::{3, 4}; }"),
]
LOOPS = [
    ("while", "fn k(): i32 { while gi < 4 { %s gi = 9; } <- 0; }"),
    ("do-while", "fn k(): i32 { do { %s } while gi < 4; <- 0; }"),
    ("do-unless-in-loop", "fn k(): i32 { while gi < 4 { do { %s } unless gi < 4; gi = 9; } <- 0; }"),
    ("for", "fn k(): i32 { for let i = 0; i < 3; i++; { %s gi = i; } <- 0; }"),
    ("for-range", "fn k(): i32 { for 0 .. 3 { %s } <- 0; }"),
    ("loop", "fn k(): i32 { loop { %s if gi == 2 { <- 1; } } <- 0; }"),
]
IN_LOOP_FINE = {"break", "continue", "break-if"}
# a deferred block cannot return, `break` leaves a match
SKIP = {(k, p) for k in ("ret-struct", "ret-nothing", "ret-ptr") for p in ("defer", "defer-in-loop", "void-lambda")} | {(k, p) for k in ("break", "break-if") for p in ("match-case", "match-default")}

M = "fn main(): i32 { <- 0; }"
# whole programs: key, good twin, bad twin
PROGS = [
    ("no-main", M, "fn f(): i32 { <- 0; }"),
    ("main-type", M, "fn main(): i64 { <- 0; }"),
    ("main-void", M, "fn main() {}"),
    ("main-3-args", M, "fn main(n: i32, v: &&char, e: &&char): i32 { <- 0; }"),
    ("two-mains", M, M + M),
    ("no-return", "fn f(): i32 { <- 1; } " + M, "fn f(): i32 { let x = 1; x = 2; } " + M),
    ("no-return-if", "fn f(a: i32): i32 { if a == 1 { <- 1; } <- 2; } " + M, "fn f(a: i32): i32 { if a == 1 { <- 1; } } " + M),
    ("no-return-while", "fn f(a: i32): i32 { while a == 1 { <- 1; } <- 2; } " + M, "fn f(a: i32): i32 { while a == 1 { <- 1; } } " + M),
    ("no-return-for", "fn f(a: i32): i32 { for let i = 0; i < a; i++; { <- 1; } <- 2; } " + M, "fn f(a: i32): i32 { for let i = 0; i < a; i++; { <- 1; } } " + M),
    ("no-return-range", "fn f(a: i32): i32 { for 0 .. a { <- 1; } <- 2; } " + M, "fn f(a: i32): i32 { for 0 .. a { <- 1; } } " + M),
    ("no-return-match", "fn f(a: i32): i32 { match a { 1 => <- 1; _ => <- 2; } } " + M, "fn f(a: i32): i32 { match a { 1 => <- 1; } } " + M),
    ("no-return-match-default", "fn f(a: i32): i32 { match a { 1 => <- 1; _ => <- 2; } } " + M, "fn f(a: i32): i32 { match a { 1 => <- 1; _ => a = 2; } } " + M),
    ("no-return-else", "fn f(a: i32): i32 { if a == 1 { <- 1; } else { <- 2; } } " + M, "fn f(a: i32): i32 { if a == 1 { <- 1; } else { a = 2; } } " + M),
    ("no-return-then", "fn f(a: i32): i32 { if a == 1 { <- 1; } else { <- 2; } } " + M, "fn f(a: i32): i32 { if a == 1 { a = 1; } else { <- 2; } } " + M),
    ("return-loop", "fn f(a: i32): i32 { loop { a++; if a == 4 { <- a; } } } " + M, "fn f(a: i32): i32 { loop { a++; if a == 4 { break; } } } " + M),
    ("return-unless", "fn f(a: i32): i32 { do { <- a; } unless a == 1; <- 2; } " + M, "fn f(a: i32): i32 { do { <- a; } unless a == 1; } " + M),
    ("return-do", "fn f(a: i32): i32 { do { <- a; } while a == 1; } " + M, "fn f(a: i32): i32 { do { a = 2; } while a == 1; } " + M),
    ("void-returns", "fn f(a: i32) { if a == 1 { ret; } } " + M, "fn f(a: i32) { if a == 1 { <- a; } } " + M),
    ("array-return", "fn f(a: i32[]): i32[] { <- a; } " + M, "fn f(): i32[2] { <- [1, 2]; } " + M),
    ("c-array-return", "fn f(a: &i32): &i32 { <- a; } " + M, "fn f(): i32 'c[2] { let a: i32 'c[2]; <- a; } " + M),
    ("array-arg", "fn f(a: i32[]): i32 { <- a[0]; } " + M, "fn f(a: i32[2]): i32 { <- a[0]; } " + M),
    ("c-array-arg", "fn f(a: &i32): i32 { <- a[0]; } " + M, "fn f(a: i32 'c[2]): i32 { <- a[0]; } " + M),
    ("void-arg", "fn f(a: i32): i32 { <- 1; } " + M, "fn f(a: void): i32 { <- 1; } " + M),
    ("void-member", "type P: struct { a: i32 }; " + M, "type P: struct { a: void }; " + M),
    ("void-global", "let g: i32 = 1; " + M, "let g: void; " + M),
    ("dup-fn", "fn f(): i32 { <- 1; } fn g(): i32 { <- 1; } " + M, "fn f(): i32 { <- 1; } fn f(): i32 { <- 1; } " + M),
    ("dup-global", "let f: i32 = 1; let g: i32 = 1; " + M, "let f: i32 = 1; let f: i32 = 1; " + M),
    ("dup-type", "type A: i32; type B: i32; " + M, "type A: i32; type A: i32; " + M),
    ("dup-fn-global", "let f: i32 = 1; fn g(): i32 { <- 1; } " + M, "let f: i32 = 1; fn f(): i32 { <- 1; } " + M),
    ("dup-type-fn", "type f: i32; fn g(): i32 { <- 1; } " + M, "type f: i32; fn f(): i32 { <- 1; } " + M),
    ("dup-arg", "fn f(a: i32, b: i32): i32 { <- a; } " + M, "fn f(a: i32, a: i32): i32 { <- a; } " + M),
    ("dup-member", "type A: struct { a: i32, b: i32 }; " + M, "type A: struct { a: i32, a: i32 }; " + M),
    ("dup-enum-member", "type A: enum { A, B }; " + M, "type A: enum { A, A }; " + M),
    ("dup-in-namespace", "namespace n { fn f(): i32 { <- 1; } fn g(): i32 { <- 1; } } " + M, "namespace n { fn f(): i32 { <- 1; } fn f(): i32 { <- 1; } } " + M),
    ("same-name-other-namespace", "namespace n { fn f(): i32 { <- 1; } } namespace m { fn f(): i32 { <- 1; } } " + M, "namespace n { fn f(): i32 { <- 1; } } namespace n { fn f(): i32 { <- 1; } } " + M),
    ("recursive-struct", "type A: struct { a: &A }; " + M, "type A: struct { a: A }; " + M),
    ("recursive-2", "type A: struct { a: &B }; type B: struct { a: A }; " + M, "type A: struct { a: B }; type B: struct { a: A }; " + M),
    ("recursive-array", "type A: struct { a: &A 'c[2] }; " + M, "type A: struct { a: A 'c[2] }; " + M),
    ("recursive-union", "type A: union { a: &A, b: i32 }; " + M, "type A: union { a: A, b: i32 }; " + M),
    ("recursive-alias", "type A: i32; type B: A; " + M, "type A: B; type B: A; fn f(a: A): A { <- a; } " + M),
    ("const-nested-arg-a", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: S) { c.t.a = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: const S) { c.t.a = 3; } " + M),
    ("const-nested-ptr-a", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &S) { c.t.a = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &const S) { c.t.a = 3; } " + M),
    ("const-nested-global-a", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; let c: S; fn f() { c.t.a = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; const c: S = S::{T::{1, [1, 2]}, [T::{1, [1, 2]}, T::{1, [1, 2]}]}; fn f() { c.t.a = 3; } " + M),
    ("const-nested-arg-v", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: S) { c.t.v[1] = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: const S) { c.t.v[1] = 3; } " + M),
    ("const-nested-ptr-v", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &S) { c.t.v[1] = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &const S) { c.t.v[1] = 3; } " + M),
    ("const-nested-global-v", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; let c: S; fn f() { c.t.v[1] = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; const c: S = S::{T::{1, [1, 2]}, [T::{1, [1, 2]}, T::{1, [1, 2]}]}; fn f() { c.t.v[1] = 3; } " + M),
    ("const-nested-arg-ua", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: S) { c.u[1].a = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: const S) { c.u[1].a = 3; } " + M),
    ("const-nested-ptr-ua", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &S) { c.u[1].a = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &const S) { c.u[1].a = 3; } " + M),
    ("const-nested-global-ua", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; let c: S; fn f() { c.u[1].a = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; const c: S = S::{T::{1, [1, 2]}, [T::{1, [1, 2]}, T::{1, [1, 2]}]}; fn f() { c.u[1].a = 3; } " + M),
    ("const-nested-arg-uv", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: S) { c.u[0].v[1] = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: const S) { c.u[0].v[1] = 3; } " + M),
    ("const-nested-ptr-uv", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &S) { c.u[0].v[1] = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &const S) { c.u[0].v[1] = 3; } " + M),
    ("const-nested-global-uv", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; let c: S; fn f() { c.u[0].v[1] = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; const c: S = S::{T::{1, [1, 2]}, [T::{1, [1, 2]}, T::{1, [1, 2]}]}; fn f() { c.u[0].v[1] = 3; } " + M),
    ("const-array-ptr", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &i32[3]) { (*c)[1] = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; fn f(c: &const i32[3]) { (*c)[1] = 3; } " + M),
    ("const-through-const-ptr", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; let v: S; fn f() { const p = &v; p.t.a = 3; p.u[1].v[0] = 4; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; let v: S; fn f() { let p: &const S = &v; p.u[1].v[0] = 4; } " + M),
    ("const-alias-ptr", "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; type P: &T; let v: T; fn f() { let p: P = &v; p.a = 3; } " + M, "type T: struct { a: i32, v: i32[2] }; type S: struct { t: T, u: T[2] }; type P: &const T; let v: T; fn f() { let p: P = &v; p.a = 3; } " + M),
    ("import", M, "import \"no_such_file.csp\"; " + M),
    ("global-undef", "let g: i32 = 1; " + M, "let g: i32 = nosuch; " + M),
    ("global-type", "let g: i32 = 1; " + M, "let g: NoSuch = 1; " + M),
    ("global-struct-init", "type P: struct { a: i32 }; let g: P = P::{1}; " + M, "type P: struct { a: i32 }; let g: P = 1; " + M),
    ("global-int-init", "type P: struct { a: i32 }; let g: i32 = 1; " + M, "type P: struct { a: i32 }; let g: i32 = P::{1}; " + M),
    ("global-array-len", "let g: i32[2] = [1, 2]; " + M, "let g: i32[2] = [1, 2, 3]; " + M),
    ("global-not-constant", "let g: i32 = 1 + 2; " + M, "fn f(): i32 { <- 1; } let g: i32 = f(); " + M),
    ("arg-type", "fn f(a: i32): i32 { <- a; } " + M, "fn f(a: NoSuch): i32 { <- 1; } " + M),
    ("ret-type", "fn f(a: i32): i32 { <- a; } " + M, "fn f(a: i32): NoSuch { <- a; } " + M),
    ("member-type", "type P: struct { a: i32 }; " + M, "type P: struct { a: NoSuch }; " + M),
    ("alias-type", "type P: i32; " + M, "type P: NoSuch; " + M),
    ("before-main", "let g: i32; [before_main] fn f() { g = 1; } " + M, "let g: i32; [before_main] fn f(a: i32) { g = a; } " + M),
    ("after-main", "let g: i32; [after_main] fn f(a: i32) { g = a; } " + M, "let g: i32; [after_main] fn f(a: i32, b: i32) { g = a; } " + M),
    ("after-main-type", "let g: i32; [after_main] fn f(a: i32) { g = a; } " + M, "let g: i32; [after_main] fn f(a: &i32) { g = *a; } " + M),
    ("drop-args", "type R: struct { r: i32 }; [drop] fn f(a: R) { a.r = 1; } " + M, "type R: struct { r: i32 }; [drop] fn f(a: R, b: R) { a.r = 1; } " + M),
    ("drop-twice", "type R: struct { r: i32 }; [drop] fn f(a: R) { a.r = 1; } " + M, "type R: struct { r: i32 }; [drop] fn f(a: R) { a.r = 1; } [drop] fn g(a: R) { a.r = 1; } " + M),
    ("directive", "[constexpr] fn f(): i32 { <- 1; } " + M, "[nosuch] fn f(): i32 { <- 1; } " + M),
    ("operator-builtin", "operator <+> (a: i32, b: i32): i32 = a; " + M, "operator + (a: i32, b: i32): i32 = a; " + M),
    ("operator-args", "operator <+> (a: i32, b: i32): i32 = a; " + M, "operator <+> (a: i32, b: i32, c: i32): i32 = a; " + M),
    ("dyn-no-interface", "type I: interface { fn m(p: &I): i32, }; type P: struct { a: i32 }; dyn(I) fn m(p: &P): i32 { <- p.a; } " + M, "type I: i32; type P: struct { a: i32 }; dyn(I) fn m(p: &P): i32 { <- p.a; } " + M),
    ("dyn-not-implemented", "type I: interface { fn m(p: &I): i32, }; type P: struct { a: i32 }; dyn(I) fn m(p: &P): i32 { <- p.a; } fn f(d: dyn I): i32 { <- d.m(); } fn main(): i32 { let p = P::{1}; <- f(&p); }",
     "type I: interface { fn m(p: &I): i32, }; type P: struct { a: i32 }; type Q: struct { a: i64 }; dyn(I) fn m(p: &P): i32 { <- p.a; } fn f(d: dyn I): i32 { <- d.m(); } fn main(): i32 { let p = Q::{1}; <- f(&p); }"),
    ("dyn-no-method", "type I: interface { fn m(p: &I): i32, }; type P: struct { a: i32 }; dyn(I) fn m(p: &P): i32 { <- p.a; } fn f(d: dyn I): i32 { <- d.m(); } fn main(): i32 { let p = P::{1}; <- f(&p); }",
     "type I: interface { fn m(p: &I): i32, }; type P: struct { a: i32 }; dyn(I) fn m(p: &P): i32 { <- p.a; } fn f(d: dyn I): i32 { <- d.nosuch(); } fn main(): i32 { let p = P::{1}; <- f(&p); }"),
    ("dyn-type", "type I: interface { fn m(p: &I): i32, }; fn f(d: dyn I): i32 { <- d.m(); } " + M, "type I: struct { a: i32 }; fn f(d: dyn I): i32 { <- 1; } " + M),
    ("c-header", M, "import \"nosuch.h\"; " + M),
    ("brace", M, "fn main(): i32 { <- 0; "),
    ("brace-2", M, "fn main(): i32 { <- 0; } }"),
    ("string-open", 'fn main(): i32 { let s = "abc"; <- s[0]: i32; }', 'fn main(): i32 { let s = "abc; <- 0; }'),
    ("keyword-name", "fn lop(): i32 { <- 1; } " + M, "fn loop(): i32 { <- 1; } " + M),
    ("number", "fn main(): i32 { <- 0x1f; }", "fn main(): i32 { <- 0xg; }"),
    ("number-2", "fn main(): i32 { <- 12; }", "fn main(): i32 { <- 12ab; }"),
    ("embed", "type A: struct { a: i32 }; type B: struct { b: i32 }; " + M, "type A: i32; type B: struct { embed A, b: i32 }; " + M),
    ("private", "import \"sub.csp\"; fn main(): i32 { <- sub(); }", "import \"sub.csp\"; fn main(): i32 { <- sb::hidden(); }"),
    ("private-public", "import \"sub.csp\"; fn main(): i32 { <- sb::open(); }", "import \"sub.csp\"; fn main(): i32 { <- sb::nosuch(); }"),
    ("embed-member", "type A: struct { a: i32 }; type B: struct { embed A, b: i32 }; fn main(): i32 { let b: B; b.a = 1; <- b.a; }", "type A: struct { a: i32 }; type B: struct { embed A, b: i32 }; fn main(): i32 { let b: B; b.c = 1; <- b.c; }"),
    ("embed-twice", "type A: struct { a: i32 }; type B: struct { embed A, b: i32 }; " + M, "type A: struct { a: i32 }; type B: struct { embed A, a: i32 }; " + M),
    ("embed-self", "type A: struct { a: i32 }; type B: struct { embed A, b: i32 }; " + M, "type B: struct { embed B, b: i32 }; " + M),
    ("embed-cycle", "type A: struct { a: i32 }; type B: struct { embed A, b: i32 }; " + M, "type A: struct { embed B, a: i32 }; type B: struct { embed A, b: i32 }; " + M),
    ("embed-union", "type A: struct { a: i32 }; type B: struct { embed A, b: i32 }; " + M, "type A: union { a: i32 }; type B: struct { embed A, b: i32 }; " + M),
    ("no-return-break", "fn f(a: i32): i32 { match a { 1 => <- 1; _ => { <- 2; } } } " + M, "fn f(a: i32): i32 { match a { 1 => <- 1; _ => { if a == 7 { break; } <- 2; } } } " + M),
    ("return-with", "type R: struct { r: i32 }; [drop] fn d(a: R) { a.r = 1; } fn f(a: i32): i32 { with x = R::{a} { <- x.r; } else { <- 2; } } " + M, "type R: struct { r: i32 }; [drop] fn d(a: R) { a.r = 1; } fn f(a: i32): i32 { with x = R::{a} { <- x.r; } else { a = 2; } } " + M),
    ("return-lambda", "fn f(a: i32) { let l = |x: i32| i32 => { <- x; }; l(a); } " + M, "fn f(a: i32) { let l = |x: i32| i32 => { x = 1; }; l(a); } " + M),
    ("return-const-lambda", "fn f(a: i32) { let l = const |x: i32| i32 => { <- x; }; l(a); } " + M, "fn f(a: i32) { let l = const |x: i32| i32 => { x = 1; }; l(a); } " + M),
    ("return-lambda-void", "fn f(a: i32): i32 { let l = |x: i32| => { x = 1; }; l(a); <- a; } " + M, "fn f(a: i32): i32 { let l = |x: i32| => { <- x; }; l(a); <- a; } " + M),
    ("return-const-lambda-void", "fn f(a: i32): i32 { let l = const |x: i32| => { x = 1; }; l(a); <- a; } " + M, "fn f(a: i32): i32 { let l = const |x: i32| => { <- x; }; l(a); <- a; } " + M),
    ("return-match-type", "fn f(a: i32): i32 { match (type) typeof a { i32 => { <- a; } _ => { a = 1; } } } " + M, "fn f(a: i32): i32 { match (type) typeof a { i32 => { a = 1; } _ => { <- a; } } } " + M),
]
FILES = {"sub.csp": "namespace sb { [private] fn hidden(): i32 { <- 0; } fn open(): i32 { <- hidden(); } } fn sub(): i32 { <- sb::open(); }"}


# ---- conversions: every ordered pair of types at every place where a value is handed over -------------------
CGLOB = """
type P: struct { x: i32, y: i32 };
type Q: struct { x: i32, y: i64 };
type U: union { x: i32, f: f32 };
type En: enum { A, B };
type Ai: i32;
type Ap: P;
type Aa: i32[2];
type I: interface { fn me(p: &I): i32, };
type J: interface { fn mj(p: &J): i32, };
dyn(I) fn me(p: &P): i32 { <- p.x; }
dyn(J) fn mj(p: &Q): i32 { <- p.x; }
"""
NUM = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bool", "char", "En", "Ai"]
TYPES = NUM + ["P", "Ap", "Q", "U", "&i32", "&char", "&P", "&Q", "&void", "i32[2]", "Aa", "i32[3]", "u8[2]", "i32[]", "u8[]",
               "fn<i32>(i32)", "fn<i32>(i64)", "fn<i64>(i32)", "fn<i32>()", "dyn I", "dyn J"]
ALIAS = {"Ai": "i32", "Ap": "P", "Aa": "i32[2]"}


def converts(a, b):
    """may a value of type a be handed over where type b is wanted?"""
    a, b = ALIAS.get(a, a), ALIAS.get(b, b)
    if a == b:
        return True
    if a in NUM and b in NUM:
        return True
    if a.startswith("&") and b.startswith("&"):
        return True
    if a.startswith("&") and b.startswith("dyn"):
        return (a, b) in (("&P", "dyn I"), ("&Q", "dyn J"))
    if a.startswith("dyn") and b.startswith("&"):
        return True
    if a.endswith("[2]") and b == a[:-3] + "[]" or a.endswith("[3]") and b == a[:-3] + "[]":
        return True
    return False


# %(a)s: type of the value, %(b)s: wanted type
CPLACES = [
    ("let", "fn k(v: %(a)s) { let w: %(b)s = v; }"),
    ("let-global", "let v: %(a)s; fn k() { let w: %(b)s = v; }"),
    ("assign", "fn k(v: %(a)s) { let w: %(b)s; w = v; }"),
    ("assign-global", "let w: %(b)s; fn k(v: %(a)s) { w = v; }"),
    ("assign-pointer", "fn k(v: %(a)s, w: &%(b)s) { *w = v; }"),
    ("assign-member", "type H: struct { a: i8, h: %(b)s }; fn k(v: %(a)s, w: &H) { w.h = v; }"),
    ("assign-element", "type H: struct { h: %(b)s }; fn k(v: %(a)s, w: &H) { w[1].h = v; }"),
    ("argument", "fn w(x: %(b)s): i32 { let y = x; <- 0; } fn k(v: %(a)s) { w(v); }"),
    ("second-argument", "fn w(n: i32, x: %(b)s): i32 { let y = x; <- n; } fn k(v: %(a)s) { w(2, v); }"),
    ("pointer-argument", "fn k(v: %(a)s, w: fn<i32>(%(b)s)) { w(v); }"),
    ("return", "fn k(v: %(a)s): %(b)s { <- v; }"),
    ("return-if", "fn k(v: %(a)s, u: %(b)s): %(b)s { if sizeof i32 == 4 { <- v; } <- u; }"),
    ("lambda-argument", "fn k(v: %(a)s) { let w = |x: %(b)s| i32 => { let y = x; <- 0; }; w(v); }"),
    ("lambda-return", "fn k(v: %(a)s) { let w = |x: %(a)s| %(b)s => { <- x; }; w(v); }"),
    ("struct-literal", "type H: struct { a: i8, h: %(b)s }; fn k(v: %(a)s) { let h = H::{1, v}; }"),
    ("method-argument", "type K: interface { fn mk(p: &K, x: %(b)s): i32, }; dyn(K) fn mk(p: &U, x: %(b)s): i32 { let y = x; <- p.x; } fn k(v: %(a)s, d: dyn K) { d.mk(v); }"),
]
ARRAYS = {"i32[2]", "Aa", "i32[3]", "u8[2]"}
# arrays are not passed or returned by value: values of array types come from globals


def _conv_items():
    for a in TYPES:
        for b in TYPES:
            for pk, p in CPLACES:
                if a in ARRAYS and pk == "let-global":
                    continue
                if b in ARRAYS and ("argument" in pk or "return" in pk):
                    continue
                text = p
                if a in ARRAYS:
                    if pk == "lambda-return":
                        continue
                    text = "let v: %(a)s; " * ("let v:" not in text) + text.replace("v: %(a)s, ", "").replace("v: %(a)s", "")
                text = CGLOB + text % {"a": a, "b": b} + "\nfn main(): i32 { <- 0; }\n"
                yield ("%s->%s/%s" % (a, b, pk), text, converts(a, b))


def _composite_items():
    """function and struct types are only interchangeable if every part of them is the same"""
    args = [()] + [(a,) for a in ("i32", "i64", "&char")] + [(a, b) for a in ("i32", "i64", "&char") for b in ("i32", "i64", "&char")] + [("i32", "i32", "i32"), ("i32", "i32", "i64"), ("i32", "i32", "&char")]
    fns = ["fn%s%s" % (r, "(%s)" % ", ".join(a)) for r in ("", "<i32>", "<&char>") for a in args]
    places = [p for p in CPLACES if p[0] in ("let", "assign-member", "second-argument", "return")]
    for a in fns:
        for b in fns:
            for pk, p in places:
                yield ("%s->%s/%s" % (a, b, pk), CGLOB + p % {"a": a, "b": b} + "\nfn main(): i32 { <- 0; }\n", a == b)
    for a in fns:
        for b in fns:
            # a named function as the value
            ret, ar = a[2:].split("(")
            ar = [x for x in ar[:-1].split(", ") if x]
            f = "fn f(%s)%s { %s } " % (", ".join("_%d: %s" % (k, t) for k, t in enumerate(ar)), ": " + ret[1:-1] if ret else "", "<- nil: %s;" % ret[1:-1] if "&" in ret else "<- 0;" if ret else "")
            yield ("%s=>%s" % (a, b), CGLOB + f + "fn k() { let g: %s; g = f; }\nfn main(): i32 { <- 0; }\n" % b, a == b)
    mem = [(a,) for a in ("i8", "i32", "&char")] + [(a, b) for a in ("i8", "i32", "&char") for b in ("i8", "i32", "&char")] + [("i32", "i32", x) for x in ("i8", "i32", "&char", "f32")]
    structs = [(k, m) for k in ("struct", "union") for m in mem]
    for i, (ka, ma) in enumerate(structs):
        for j, (kb, mb) in enumerate(structs):
            decl = "type Sa: %s { %s }; " % (ka, ", ".join("m%d: %s" % x for x in enumerate(ma))) + ("type Sb: %s { %s };" % (kb, ", ".join("m%d: %s" % x for x in enumerate(mb))) if i != j else "")
            for pk, p in places:
                yield ("%s%s->%s%s/%s" % (ka, ma, kb, mb, pk), decl + CGLOB + p % {"a": "Sa", "b": "Sb" if i != j else "Sa"} + "\nfn main(): i32 { <- 0; }\n", i == j)


def frag_items():
    for key, good, bad in FRAGS:
        for pk, p in PLACES + LOOPS:
            main = "\nfn main(): i32 { <- k(); }\n"
            if (key, pk) in SKIP:
                continue
            yield ("%s/%s/good" % (key, pk), GLOB + p % good + main, True)
            if (pk, p) in LOOPS and key in IN_LOOP_FINE:
                continue
            yield ("%s/%s/bad" % (key, pk), GLOB + p % bad + main, False)


def prog_items():
    for key, good, bad in PROGS:
        yield ("%s/good" % key, good, True, FILES)
        yield ("%s/bad" % key, bad, False, FILES)


def run(chk, repo):
    verdict.explore(chk, repo, frag_items(), "frag:")
    verdict.explore(chk, repo, prog_items(), "prog:")
    verdict.explore(chk, repo, _conv_items(), "conv:")
    verdict.explore(chk, repo, _composite_items(), "composite:")
