"""C05 - floating point expressions and conversions follow IEEE 754."""
import core
from cases import *
import c01

FL = ["f32", "f64"]
ALL = list(INT) + FL
SZ = {t: INT[t][0] // 8 for t in INT}
SZ.update(f32=4, f64=8)
AR = ["+", "-", "*", "/"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
COMMON_C = "".join("static inline %s cv_%s_%s(%s x){ if(!(trunc(x)>=%s&&trunc(x)<=%s)){SKIP=1;return 0;} return (%s)x;}\n" % (
    t, f, t, f, "-%d.0" % 2**(w - 1) if s else "0.0", {8: "%d.0" % (2**(w - s) - 1), 16: "%d.0" % (2**(w - s) - 1), 32: "%d.0" % (2**(w - s) - (1 if f == "f64" else 256))}.get(w, "%d.0" % (2**(64 - s) - (2**40 if f == "f32" else 4096))), t)
    for f in FL for t, (w, s) in INT.items())
COMMON_C += "".join("static inline %s cv_%s_%s(%s x){return (%s)x;}\n" % (b, a, b, a, b) for a in ALL for b in ALL if not (a in FL and b in INT))
for t in ALL + ["bool"]:
    COMMON_C += "static inline bool cv_%s_bool(%s x){return x!=0;}\nstatic inline %s cv_bool_%s(bool x){return x;}\n" % (t, t, t, t) if t != "bool" else ""


def cv(a, b, e):
    return e if a == b else "cv_%s_%s(%s)" % (a, b, e)


def restype(a, b):
    return b if SZ[a] < SZ[b] else a


def cmptype(a, b):
    if (a in FL) != (b in FL):
        return a if a in FL else b
    return restype(a, b)


def cases(thorough):
    N = "finite" if False else "full"
    for a in ALL:
        for b in ALL:
            if a in INT and b in INT:
                continue
            for op in AR:
                t = restype(a, b)
                yield Case("bin:%s%s%s" % (a, op, b), [(a, N), (b, N)], t, "fn @(a: %s, b: %s): %s = a %s b;" % (a, b, t, op),
                           "%s @(%s a,%s b){return %s_%s(%s,%s);}" % (t, a, b, OPN[op], t, cv(a, t, "a"), cv(b, t, "b")))
            for op in CMP:
                t = cmptype(a, b)
                yield Case("bin:%s%s%s" % (a, op, b), [(a, N), (b, N)], "bool", "fn @(a: %s, b: %s): bool = a %s b;" % (a, b, op),
                           "bool @(%s a,%s b){return %s %s %s;}" % (a, b, cv(a, t, "a"), op, cv(b, t, "b")))
                yield Case("if:%s%s%s" % (a, op, b), [(a, N), (b, N)], "i32", "fn @(a: %s, b: %s): i32 { if a %s b <- 1; <- 2; }" % (a, b, op),
                           "i32 @(%s a,%s b){return %s %s %s?1:2;}" % (a, b, cv(a, t, "a"), op, cv(b, t, "b")))
    # conversions, explicit and implicit, and chains of two
    for a in ALL + ["bool"]:
        for b in ALL + ["bool"]:
            if a in INT and b in INT:
                continue
            fin = "full" if a not in FL or b != "bool" else "finite"
            for nm, csp in (("cast", "fn @(a: %s): %s = a: %s;" % (a, b, b)), ("ret", "fn @(a: %s): %s = a;" % (a, b)), ("asg", "fn @(a: %s): %s { let x: %s; x = a; <- x; }" % (a, b, b)),
                            ("let", "fn @(a: %s): %s { let x: %s = a; <- x; }" % (a, b, b)), ("arg", "fn @_c(x: %s): %s = x;\nfn @(a: %s): %s = @_c(a);" % (b, b, a, b))):
                if nm != "cast" and ("bool" in (a, b)):
                    continue
                yield Case("%s:%s:%s" % (nm, a, b), [(a, fin)], b, csp, "%s @(%s a){return %s;}" % (b, a, cv(a, b, "a")))
            for c in ALL:
                if "bool" in (a, b):
                    continue
                yield Case("cast3:%s:%s:%s" % (a, b, c), [(a, "full")], c, "fn @(a: %s): %s = (a: %s): %s;" % (a, c, b, c), "%s @(%s a){return %s;}" % (c, a, cv(b, c, cv(a, b, "a"))))
    for t in FL:
        yield Case("neg:" + t, [(t, N)], t, "fn @(a: %s): %s = -a;" % (t, t), "%s @(%s a){return -a;}" % (t, t))
        yield Case("negneg:" + t, [(t, N)], t, "fn @(a: %s): %s = -(-a);" % (t, t), "%s @(%s a){return a;}" % (t, t))
        yield Case("not:" + t, [(t, "finite")], "bool", "fn @(a: %s): bool = !a;" % t, "bool @(%s a){return !a;}" % t)
        for nm, csp, ref in (("if", "if a <- 1; <- 2;", "return a?1:2;"), ("ternary", "<- (if a != 0.0 => 1 else 2);", "return a?1:2;"), ("and", "if a && b <- 1; <- 2;", "return a&&b?1:2;"), ("or", "if a || b <- 1; <- 2;", "return a||b?1:2;"),
                             ("while", "let n = 0; while a && n < 3 { n++; } <- n;", "return a?3:0;"), ("unless", "let n = 0; do { n = 5; } unless a; <- n;", "return a?0:5;")):
            yield Case("cond:%s:%s" % (nm, t), [(t, "finite"), (t, "finite")], "i32", "fn @(a: %s, b: %s): i32 { %s }" % (t, t, csp), "i32 @(%s a,%s b){%s}" % (t, t, ref))
        for op in ("&&", "||"):
            for u in ALL:
                yield Case("logic:%s%s%s" % (t, op, u), [(t, "finite"), (u, "finite" if u in FL else "small")], "bool", "fn @(a: %s, b: %s): bool = a %s b;" % (t, u, op), "bool @(%s a,%s b){return a %s b;}" % (t, u, op))
                yield Case("logic:%s%s%s" % (u, op, t), [(u, "finite" if u in FL else "small"), (t, "finite")], "bool", "fn @(a: %s, b: %s): bool = a %s b;" % (u, t, op), "bool @(%s a,%s b){return a %s b;}" % (u, t, op))
        yield Case("ternv:" + t, [("bool", "full"), (t, N), (t, N)], t, "fn @(c: bool, a: %s, b: %s): %s = (if c => a else b);" % (t, t, t), "%s @(bool c,%s a,%s b){return c?a:b;}" % (t, t, t))
        yield Case("else:" + t, [(t, "finite"), (t, "finite")], t, "fn @(a: %s, b: %s): %s = a else b;" % (t, t, t), "%s @(%s a,%s b){return a?a:b;}" % (t, t, t))
        for o1 in AR:
            for o2 in AR:
                for sh, e, r in (("L", "(a %s b) %s c", "%s(%s(a,b),c)"), ("R", "c %s (a %s b)", "%s(c,%s(a,b))"), ("LR", "(a %s b) %s (c %s a)", None)):
                    f1, f2 = "%s_%s" % (OPN[o1], t), "%s_%s" % (OPN[o2], t)
                    if sh == "L":
                        x, y = e % (o1, o2), r % (f2, f1)
                    elif sh == "R":
                        x, y = e % (o2, o1), r % (f2, f1)
                    else:
                        x, y = e % (o1, o2, o1), "%s(%s(a,b),%s(c,a))" % (f2, f1, f1)
                    yield Case("nest:%s:%s" % (t, x), [(t, "tiny")] * 3, t, "fn @(a: %s, b: %s, c: %s): %s = %s;" % (t, t, t, t, x), "%s @(%s a,%s b,%s c){return %s;}" % (t, t, t, t, y))
        for ln, (pre, lv, top) in c01.LV.items():
            pre, top = pre.replace("85: T", "1.5: T").replace("T", t), top.replace("T = 0", t + " = 0.0").replace("T", t)
            if "16" in pre or "@_g" in pre and ln not in ("global",):
                pass
            for op in ["=", "load", "++", "--", "+=", "-=", "*=", "/="]:
                if op == "=":
                    st, ref = "%s = b;" % lv, "b"
                elif op == "load":
                    st, ref = "", "a"
                elif op in ("++", "--"):
                    st, ref = "(%s)%s;" % (lv, op) if lv.startswith("*") else "%s%s;" % (lv, op), "%s_%s(a,1)" % (OPN[op[0]], t)
                else:
                    st, ref = "%s %s b;" % (lv, op), "%s_%s(a,b)" % (OPN[op[0]], t)
                yield Case("lv:%s:%s%s" % (t, ln, op), [(t, N), (t, N)], t, "%sfn @(a: %s, b: %s): %s { %s %s <- %s; }" % (top, t, t, t, pre, st, lv), "%s @(%s a,%s b){return %s;}" % (t, t, t, ref))
        # literals (a literal is an f32 unless converted: only values exact in f32)
        for lit in ("0.0", "0.5", "1.0", "1.5", "2.25", "10.0", "100.125", "0.0078125", "16777216.0", "65535.5", "3"):
            for op in AR:
                yield Case("lit:%s%s%s" % (t, op, lit), [(t, N)], t, "fn @(a: %s): %s = a %s (%s: %s);" % (t, t, op, lit, t), "%s @(%s a){return %s_%s(a,%s);}" % (t, t, OPN[op], t, lit))
                yield Case("litl:%s%s%s" % (t, op, lit), [(t, N)], t, "fn @(a: %s): %s = (%s: %s) %s a;" % (t, t, lit, t, op), "%s @(%s a){return %s_%s(%s,a);}" % (t, t, OPN[op], t, lit))
            for op in CMP:
                yield Case("lit:%s%s%s" % (t, op, lit), [(t, N)], "bool", "fn @(a: %s): bool = a %s (%s: %s);" % (t, op, lit, t), "bool @(%s a){return a %s %s;}" % (t, op, lit))
        for lit in ("0.0", "0.5", "0.1", "3.14159", "1.0", "123456.789", "0.000001", "16777217.0", "1000000000000.0"):
            yield Case("lv:%s:%s" % (t, lit), [], t, "fn @(): %s { <- %s; }" % (t, lit), "%s @(void){return (f32)%s;}" % (t, lit))
            yield Case("nlv:%s:%s" % (t, lit), [], t, "fn @(): %s { <- -%s; }" % (t, lit), "%s @(void){return -(f32)%s;}" % (t, lit))
        # a float survives calls and other float work while it is waiting on the stack
        yield Case("keep1:" + t, [(t, "tiny"), (t, "tiny")], t, "fn @_g(x: %s): %s { tr(1); <- x * x; }\nfn @(a: %s, b: %s): %s = a - @_g(b) * (a + @_g(a - b));" % ((t,) * 5), "static %s @_g(%s x){tr(1);return x*x;}\n%s @(%s a,%s b){return a-@_g(b)*(a+@_g(a-b));}" % ((t,) * 5))
        yield Case("keep2:" + t, [(t, "tiny"), ("i32", "tiny")], t, "fn @(a: %s, b: i32): %s { let s = a; for 0 .. 3 { s += a * ((b: %s) - s); } <- s; }" % (t, t, t), "%s @(%s a,i32 b){%s s=a;for(int i=0;i<3;i++)s+=a*((%s)b-s);return s;}" % (t, t, t, t))


PROP = dict(
    id="C05", title="Floating point expressions and conversions follow IEEE 754",
    statement="Arithmetic, comparison, negation, assignment, increment and conversion of f32 and f64 values, alone and mixed with every integer type, give the correctly rounded IEEE 754 result of the language's typing rules, for every operand including signed zeros, subnormals, infinities and (in comparisons and arithmetic) NaN. Conversions between floats and integers of every width and signedness truncate toward zero and are exact whenever the value is representable; a float keeps its value across calls, nested expressions and every kind of storage.",
    quantifier=dict(over=["inputs", "programs"], text="all operators x all type pairs with a float x boundary values; all conversion chains of two; all two-operator trees; all lvalue kinds"),
    why_tests_cant="Existing tests compare a couple of constants with ==; a wrong conversion sequence or operand order is visible only for particular widths, signs and special values.",
    anchors=dict(files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c"], mechanism="cast_table, asm_gen_expr float paths, asm_cmp_zero"),
    technique="exhaustive bounded enumeration of programs and operand values, executed against gcc's IEEE arithmetic", level="exploration",
    level_note="All programs in the bound are compiled and run on all boundary tuples; results are compared bit for bit (any NaN equals any NaN). Out-of-range float to integer conversions and the truth value of NaN are excluded as undefined; f80 is not covered.")


def run(chk, repo):
    explore(chk, repo, cases(chk.thorough), batch=150, common_c=COMMON_C, cflags=["-ffp-contract=off", "-Wno-overflow"])
    chk.cov["rule"] = "one program per (operator, operand types, storage kind, shape) run on the cross product of special and boundary values; distinct_nontrivial counts distinct result hashes"
    chk.cov["exhaustive"] = True
