"""C02 - structured control flow: for every program tree up to a size, every sequence of branch outcomes."""
import core
from cases import *
from functools import lru_cache

COMMON_CSP = '''type @_X: &void;
'''
# ---- statement trees -----------------------------------------------------------
# B = tuple of statements; statement = (kind, B...)
LOOPS = ("while", "loop", "dowhile", "for", "range", "forev")
BRANCH1 = ("if", "unless", "with", "block")
BRANCH2 = ("ifelse", "withelse")
MATCHES = ("match", "matchnd", "matchlt")
JUMPS = ("break", "continue", "ret")


@lru_cache(None)
def stmts(n, inloop, brk, kinds):
    """all single statements with exactly n control nodes"""
    out = []
    if n == 0:
        return ()
    if n == 1:
        if brk and "break" in kinds:
            out.append(("break",))
        if inloop and "continue" in kinds:
            out.append(("continue",))
        if "ret" in kinds:
            out.append(("ret",))
    for k in kinds:
        if k in LOOPS:
            for b in blocks(n - 1, True, True, kinds):
                out.append((k, b))
        elif k in BRANCH1:
            for b in blocks(n - 1, inloop, brk, kinds):
                out.append((k, b))
        elif k in BRANCH2:
            for i in range(n):
                for b in blocks(i, inloop, brk, kinds):
                    for c in blocks(n - 1 - i, inloop, brk, kinds):
                        out.append((k, b, c))
        elif k in MATCHES:
            # the non-trivial bodies sit in one of the arms
            for b in blocks(n - 1, inloop, True, kinds):
                for arm in range(3 if n > 1 else 1):
                    out.append((k, arm, b))
    return tuple(out)


@lru_cache(None)
def blocks(n, inloop, brk, kinds):
    """all statement lists with exactly n control nodes (at most two statements)"""
    if n == 0:
        return ((),)
    out = [(s,) for s in stmts(n, inloop, brk, kinds)]
    for i in range(1, n):
        for a in stmts(i, inloop, brk, kinds):
            for b in stmts(n - i, inloop, brk, kinds):
                out.append((a, b))
    return tuple(out)


class Pr:
    """prints one tree as csp and as C with the same event numbering"""

    def __init__(self):
        self.n = 0

    def id(self):
        self.n += 1
        return self.n

    def block(self, b):
        i = self.id()
        cs, cc = ["tr(%d);" % i], ["tr(%d);" % i]
        for s in b:
            x, y = self.stmt(s)
            cs.append(x)
            cc.append(y)
            i = self.id()
            cs.append("tr(%d);" % i)
            cc.append("tr(%d);" % i)
        return "{ " + " ".join(cs) + " }", "{ " + " ".join(cc) + " }"

    def stmt(self, s):
        k = s[0]
        i = self.id()
        c = "cd(%d)" % i
        if k == "break" or k == "continue":
            return "if %s { tr(%d); %s; }" % (c, i, k), "if(%s) { tr(%d); %s; }" % (c, i, k)
        if k == "ret":
            return "if %s <- tr(%d);" % (c, i), "if(%s) return tr(%d);" % (c, i)
        if k == "if":
            x, y = self.block(s[1])
            return "if %s %s" % (c, x), "if(%s) %s" % (c, y)
        if k == "unless":
            x, y = self.block(s[1])
            return "do %s unless %s;" % (x, c), "if(!%s) %s" % (c, y)
        if k == "block":
            x, y = self.block(s[1])
            return x, y
        if k == "with":
            x, y = self.block(s[1])
            return "with h%d = opn(%s) %s" % (i, c, x), "if(({int q=%s; tr(500000+q); q;})) { %s tr(600000); }" % (c, y)
        if k == "withelse":
            x, y = self.block(s[1])
            x2, y2 = self.block(s[2])
            return "with h%d = opn(%s) %s else %s" % (i, c, x, x2), "if(({int q=%s; tr(500000+q); q;})) { %s tr(600000); } else %s" % (c, y, y2)
        if k == "ifelse":
            x, y = self.block(s[1])
            if len(s[2]) == 1 and s[2][0][0] in ("if", "ifelse"):   # else-if chain
                x2, y2 = self.stmt(s[2][0])
            else:
                x2, y2 = self.block(s[2])
            return "if %s %s else %s" % (c, x, x2), "if(%s) %s else %s" % (c, y, y2)
        if k == "while":
            x, y = self.block(s[1])
            return "while %s %s" % (c, x), "while(%s) %s" % (c, y)
        if k == "loop":
            x, y = self.block(s[1])
            g = "if %s break;" % c
            return "loop { %s %s }" % (g, x), "for(;;) { if(%s) break; %s }" % (c, y)
        if k == "dowhile":
            x, y = self.block(s[1])
            return "do %s while %s;" % (x, c), "do %s while(%s);" % (y, c)
        if k == "for":
            x, y = self.block(s[1])
            return "for let i%d = 0; i%d < 2; i%d++; { tr(i%d); %s }" % (i, i, i, i, x), "for(int i%d=0;i%d<2;i%d++) { tr(i%d); %s }" % (i, i, i, i, y)
        if k == "forev":
            x, y = self.block(s[1])
            return "for ; %s; tr(%d); %s" % (c, i, x), "for(;%s;tr(%d)) %s" % (c, i, y)
        if k == "range":
            x, y = self.block(s[1])
            return "for 0 .. 2 %s" % x, "for(int q%d=0;q%d<2;q%d++) %s" % (i, i, i, y)
        if k in MATCHES:
            i2 = self.id()
            arms = [(), (), ()]
            arms[s[1]] = s[2]
            bl = [self.block(a) for a in arms]
            m = "m%d" % i
            pre = "let %s = cd(%d) * 2; %s += cd(%d);" % (m, i, m, i2)
            cpre = "int %s = cd(%d)*2; %s += cd(%d);" % (m, i, m, i2)
            if k == "match":
                return "%s match %s { 0 => %s 2 => %s _ => %s }" % (pre, m, bl[0][0], bl[1][0], bl[2][0]), \
                    "%s switch(%s){case 0:%s break;case 2:%s break;default:%s}" % (cpre, m, bl[0][1], bl[1][1], bl[2][1])
            if k == "matchnd":
                return "%s match %s { 1 => %s 2 => %s 0 => %s }" % (pre, m, bl[0][0], bl[1][0], bl[2][0]), \
                    "%s switch(%s){case 1:%s break;case 2:%s break;case 0:%s break;}" % (cpre, m, bl[0][1], bl[1][1], bl[2][1])
            return "%s match %s { < 1 => %s >= 3 => %s _ => %s }" % (pre, m, bl[0][0], bl[1][0], bl[2][0]), \
                "%s switch(%s<1?0:%s>=3?1:2){case 0:%s break;case 1:%s break;default:%s}" % (cpre, m, m, bl[0][1], bl[1][1], bl[2][1])
        raise AssertionError(k)


WITH_CSP = '''type Hnd: &void;
fn opn(x: i32): Hnd { tr(500000 + x); <- (x: i64): Hnd; }
[drop] fn hdrop(h: Hnd) { tr(600000); }
'''


def shape(b):
    return "".join("(" + s[0] + "".join(shape(x) if isinstance(x, tuple) else str(x) for x in s[1:]) + ")" for s in b)


def prog(b, dec, defers=0):
    p = Pr()
    x, y = p.block(b)
    n = p.id()
    d = "".join("defer tr(%d);" % (700000 + i) for i in range(defers))
    dc = "".join("tr(%d);" % (700000 + i) for i in range(defers))
    if defers:
        return Case("cf%d:%s" % (defers, shape(b)), [], "i64", "fn @(): i64 { %s %s <- tr(%d); }" % (d, x, n),
                    "i64 @_b(void) { %s return tr(%d); }\ni64 @(void){ i64 r = @_b(); %s return r; }" % (y, n, dc), dec)
    return Case("cf:" + shape(b), [], "i64", "fn @(): i64 { %s <- tr(%d); }" % (x, n), "i64 @(void) { %s return tr(%d); }" % (y, n), dec)


ALL = LOOPS + BRANCH1 + BRANCH2 + MATCHES + JUMPS
CORE = ("while", "for", "range", "if", "ifelse", "match", "break", "continue", "ret")


def exprs():
    """short-circuit / conditional expressions: every tree of &&, ||, !, ternary, else up to depth 2 over environment decisions"""
    leaf = ["cd(%d)"]
    def build(depth):
        if depth == 0:
            yield ("l",)
            return
        for a in build(depth - 1):
            yield ("!", a)
        subs = list(build(depth - 1)) + ([("l",)] if depth > 1 else [])
        for a in subs:
            for b in subs:
                for op in ("&&", "||"):
                    yield (op, a, b)
        for a in subs:
            yield ("?", ("l",), a, ("l",))
            yield ("?", a, ("l",), ("l",))
            yield ("?", ("l",), ("l",), a)
    for d in (1, 2):
        for t in build(d):
            cnt = [0]
            def pr(t):
                if t[0] == "l":
                    cnt[0] += 1
                    return ("(cd(%d) == 1)" % cnt[0],) * 1 * 2 if False else ("(cd(%d) == 1)" % cnt[0], "(cd(%d)==1)" % cnt[0])
                if t[0] == "!":
                    x, y = pr(t[1])
                    return "!(%s)" % x, "(!%s)" % y
                if t[0] in ("&&", "||"):
                    x, y = pr(t[1])
                    z, w = pr(t[2])
                    return "(%s %s %s)" % (x, t[0], z), "(%s %s %s)" % (y, t[0], w)
                a, b, c = pr(t[1]), pr(t[2]), pr(t[3])
                return "(if %s => %s else %s)" % (a[0], b[0], c[0]), "(%s?%s:%s)" % (a[1], b[1], c[1])
            x, y = pr(t)
            key = str(t).replace("'", "").replace(" ", "").replace(",", "")
            yield Case("ex:v:" + key, [], "bool", "fn @(): bool = %s;" % x, "bool @(void){return %s;}" % y, 7)
            yield Case("ex:i:" + key, [], "i64", "fn @(): i64 { if %s <- tr(1); <- tr(2); }" % x, "i64 @(void){if(%s) return tr(1); return tr(2);}" % y, 7)


FLT = ["f32", "f64"]
NUM = list(INT) + FLT
_SZ = {t: INT[t][0] // 8 for t in INT}
_SZ.update(f32=4, f64=8)


def common(a, b):
    """type two compared operands are converted to"""
    if (a in FLT) != (b in FLT):
        return a if a in FLT else b
    return b if _SZ[a] < _SZ[b] else a


def matches(thorough):
    """every pair of operand types x every case mode, two operands from the environment; and matches with several cases"""
    rng = "full" if thorough else "small"
    for a in NUM:
        for b in NUM:
            t = common(a, b)
            for m in ("", "<", "<=", ">", ">="):
                yield Case("mt:%s%s%s" % (a, m or "==", b), [(a, rng), (b, rng)], "i64", "fn @(a: %s, b: %s): i64 { match a { %s b => <- tr(1); _ => <- tr(2); } <- tr(3); }" % (a, b, m),
                           "i64 @(%s a,%s b){ if((%s)a %s (%s)b) return tr(1); return tr(2);}" % (a, b, t, m or "==", t))
            if a in INT and b in INT:
                for c in ("i32", "u64"):
                    t = common(common(a, b), c)
                    yield Case("mt3:%s:%s:%s" % (a, b, c), [(a, "tiny"), (b, "tiny"), (c, "tiny")], "i64", "fn @(a: %s, b: %s, c: %s): i64 { match a { b => tr(1); > c => tr(2); < b => { tr(4); } } <- tr(3); }" % (a, b, c),
                               "i64 @(%s a,%s b,%s c){ %s x=a,y=b,z=c; if(x==y) tr(1); else if(x>z) tr(2); else if(x<y) tr(4); return tr(3);}" % (a, b, c, t))
    for a in INT:
        # conditions with side effects: the value and the cases up to the matching one are evaluated exactly once, in order
        for k in range(4):
            yield Case("ms:%s:%d" % (a, k), [(a, "nat")], "i64", "fn @(a: %s): i64 { match (tr(a): %s) { (tr(%d): %s) => tr(10); (tr(3): %s) => tr(11); >= (tr(6): %s) => tr(12); %s } <- tr(3); }" % (a, a, k, a, a, a, "_ => tr(13);" if k % 2 else ""),
                       "i64 @(%s a){ tr(a); if(tr(%d)==a) tr(10); else if(tr(3)==a) tr(11); else if(a>=tr(6)) tr(12); else {%s} return tr(3);}" % (a, k, "tr(13);" if k % 2 else ""))
    for n in (1, 2, 5, 40, 300):
        for d in (0, 1):
            yield Case("mn:%d:%d" % (n, d), [("i32", list(range(-2, n + 2)))], "i64", "fn @(a: i32): i64 { match a { %s %s } <- tr(-1); }" % (" ".join("%d => tr(%d);" % (i, i * 3) for i in range(n)), "_ => tr(-5);" if d else ""),
                       "i64 @(i32 a){ if(a>=0&&a<%d) tr(a*3); else {%s} return tr(-1);}" % (n, "tr(-5);" if d else ""))


def ranges(thorough):
    """for a .. b over every pair of bound types, computed and literal bounds, nested and jumping"""
    rng = list(range(-3, 5))
    for a in INT:
        for b in INT:
            ra = [x for x in rng if x >= 0 or a[0] == "i"]
            rb = [x for x in rng if x >= 0 or b[0] == "i"]
            yield Case("rg:%s:%s" % (a, b), [(a, ra), (b, rb)], "i64", "fn @(a: %s, b: %s): i64 { let i = 0; for a .. b { tr(i); i++; } <- tr(99); }" % (a, b),
                       "i64 @(%s a,%s b){ int i=0; for(i64 q=a;q<(i64)b;q++) tr(i++); return tr(99);}" % (a, b))
        yield Case("rgx:" + a, [(a, ra)], "i64", "fn @(a: %s): i64 { let i = 0; for a - 1 .. a + 2 { tr(i); i++; } <- tr(99); }" % a, "i64 @(%s a){ int i=0; for(i64 q=0;q<3;q++) tr(i++); return tr(99);}" % a if a[0] == "i" else "i64 @(%s a){ int i=0; if(!a){SKIP=1;return 0;} for(i64 q=0;q<3;q++) tr(i++); return tr(99);}" % a)
        yield Case("rgc:" + a, [(a, ra)], "i64", "fn @_g(x: %s): %s { tr(50); <- x; }\nfn @(a: %s): i64 { let i = 0; for @_g(a) .. @_g(3) { tr(i); i++; a = 7; } <- tr(99); }" % (a, a, a), "i64 @(%s a){ int i=0; tr(50);tr(50); for(i64 q=a;q<3;q++) tr(i++); return tr(99);}" % a)
    for lo in rng:
        for hi in rng:
            yield Case("rgl:%d:%d" % (lo, hi), [], "i64", "fn @(): i64 { let i = 0; for %d .. %d { tr(i); i++; } <- tr(99); }" % (lo, hi), "i64 @(void){ int i=0; for(i64 q=%d;q<%d;q++) tr(i++); return tr(99);}" % (lo, hi))


PROP = dict(
    id="C02", title="Control flow executes exactly the statements the program text prescribes",
    statement="For every nesting of if/else, unless, while, do-while, loop, for, for-range, match (with and without default, with ranges), with/else, blocks, break, continue, early return, defer, short-circuit and conditional expressions, a compiled function performs exactly the sequence of side effects that the structured program prescribes for each outcome of its conditions. Deferred statements run once each, in order, on every path out of the function, after the return value has been computed.",
    quantifier=dict(over=["programs", "schedules"], text="all statement trees up to three control constructs, and for each all sequences of condition outcomes up to seven decisions"),
    why_tests_cant="Tests run one straight path through a few fixed programs; a wrong jump target shows only in a certain nesting of constructs together with a certain sequence of outcomes.",
    anchors=dict(files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/parser.c", "src/compiler/optimizer/optimizer.c"], mechanism="label allocation (cur_count, cur_brk_id, cur_cnt_id), asm_gen_stmt, asm_gen_defer, dead code removal"),
    technique="exhaustive enumeration of program trees and, per program, of all environment decision sequences (tree exploration of the compiled code), traces compared with a reference", level="exploration",
    level_note="The compiled function runs under a driver that supplies every branch outcome; the trace of external calls and the result must equal those of the same tree written in C. Bounds: three constructs (two with all constructs and with defers), seven decisions per run. Trusts gcc for the reference.")


def run(chk, repo):
    cases = []
    depth = 7
    for n in (0, 1, 2):
        for b in blocks(n, False, False, ALL):
            cases.append(prog(b, depth))
            cases.append(prog(b, depth, 2))
    for b in blocks(3, False, False, ALL if chk.thorough else CORE):
        cases.append(prog(b, depth))
    cases += list(exprs()) + list(matches(chk.thorough)) + list(ranges(chk.thorough))
    explore(chk, repo, cases, batch=200, common_csp=WITH_CSP)
    chk.cov["exhaustive"] = True
    chk.cov["rule"] = "one program per statement tree; executed once per environment decision string (a prefix a run does not exhaust is not extended); distinct_nontrivial counts distinct (result, trace) hashes"
