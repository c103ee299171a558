"""C09 - globals, constants, enumerators and [constexpr] functions have the value of their expression."""
import itertools, struct
import core
import verdict
from cases import *

FL = ("f32", "f64")
SIZE = {t: INT[t][0] // 8 for t in INT}
SIZE.update(f32=4, f64=8, bool=1, char=1)


class Undef(Exception):
    pass


class NotJudged(Exception):
    """the language leaves room here (overflowing intermediates of types narrower than 32 bits)"""


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        raise NotJudged()


def conv(v, t):
    if t == "f64":
        return float(v)
    if t == "f32":
        return f32(float(v))
    if t == "bool":
        return int(v != 0)
    if isinstance(v, float):
        i = int(v)
        if t == "char":
            raise NotJudged()
        if trunc(i, t) != i:
            raise NotJudged()
        return i
    return trunc(v, "i8" if t == "char" else t)


def rt(a, b):
    return b if SIZE[a] < SIZE[b] else a


def fin(v, t, div=False):
    if t == "f32":
        return f32(v)
    if t == "f64":
        if v in (float("inf"), float("-inf")) or v != v:
            raise NotJudged()
        return v
    w = trunc(v, t)
    if div and w != v:
        raise NotJudged()
    if w != v and INT[t][0] < 32:
        raise NotJudged()
    return w


def binary(op, x, y):
    (ta, a), (tb, b) = x, y
    if op in ("&&", "||"):
        return "bool", int((a != 0 and b != 0) if op == "&&" else (a != 0 or b != 0))
    if op in ("<<", ">>"):
        if ta in FL or tb in FL or ta in ("bool", "char") or tb in ("bool", "char") or SIZE[ta] < SIZE[tb]:
            raise NotJudged()
        if not 0 <= b < INT[ta][0]:
            raise NotJudged()
        return ta, fin(a << b if op == "<<" else a >> b, ta)
    if "bool" in (ta, tb):
        raise NotJudged()
    if "char" in (ta, tb):
        if op not in ("==", "!=") or ta != tb:
            raise NotJudged()
        return "bool", int((a == b) == (op == "=="))
    if op in ("==", "!=", "<", "<=", ">", ">="):
        t = (ta if ta in FL else tb) if (ta in FL) != (tb in FL) else rt(ta, tb)
        a, b = conv(a, t), conv(b, t)
        return "bool", int({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])
    t = rt(ta, tb)
    if t in FL and op in "%&|^":
        raise NotJudged()
    if (ta in FL) != (tb in FL) and t not in FL and op in "%&|^":
        raise NotJudged()
    a, b = conv(a, t), conv(b, t)
    if t in FL:
        if op == "/" and b == 0:
            raise NotJudged()
        return t, fin({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op](), t)
    if op in "/%":
        if b == 0:
            raise Undef()
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return t, fin(q if op == "/" else a - q * b, t, True)
    return t, fin({"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op], t)


def unary(op, x):
    t, v = x
    if op == "!":
        return "bool", int(v == 0)
    if t in ("bool", "char") or (op == "~" and t in FL):
        raise NotJudged()
    return t, fin(-v if op == "-" else ~v, t)


OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]

# named constants available to every program
CONSTS = {"KI8": ("i8", -7), "KU8": ("u8", 250), "KI16": ("i16", -300), "KU16": ("u16", 60000), "KI32": ("i32", -5), "KU32": ("u32", 4000000000), "KI64": ("i64", -2**40), "KU64": ("u64", 2**64 - 3),
          "KF32": ("f32", 2.5), "KF64": ("f64", -1.25), "KB": ("bool", 1)}
COMMON = "".join("const %s: %s = %s;\n" % (n, t, ("true" if v else "false") if t == "bool" else "%d" % v if t in INT else repr(v)) for n, (t, v) in CONSTS.items())
COMMON += "type KE: enum { KA = 3, KBB, KC = -2 };\n"


def leaf(t):
    return t


def leaves(full):
    L = [("0", ("i32", 0)), ("1", ("i32", 1)), ("2", ("i32", 2)), ("3", ("i32", 3)), ("2147483647", ("i32", 2**31 - 1)), ("4294967296", ("i64", 2**32)), ("9223372036854775807", ("i64", 2**63 - 1)),
         ("18446744073709551615", ("u64", 2**64 - 1)), ("1.5", ("f32", 1.5))]
    L += [(n, v) for n, v in CONSTS.items() if full or n in ("KI32", "KU32", "KI64", "KU64", "KF64", "KU8")]
    if full:
        L += [("(200: u8)", ("u8", 200)), ("(1: i8)", ("i8", 1)), ("(2: u16)", ("u16", 2)), ("(7: u32)", ("u32", 7)), ("(5: i64)", ("i64", 5)), ("(9: u64)", ("u64", 9)), ("(-1: u64)", None), ("7", ("i32", 7)), ("4294967295", ("i64", 2**32 - 1)),
              ("100.0", ("f32", 100.0)), ("(0.5: f64)", ("f64", 0.5)), ("true", ("bool", 1)), ("'a'", ("char", 97)), ("(KE::KA: i32)", ("i32", 3)), ("(KE::KC: i64)", ("i64", -2)), ("sizeof i16", ("u64", 2)), ("(-1)", ("i32", -1)), ("(300: u8)", ("u8", 44)), ("(-1: i64)", None)]
        L = [(a, b) for a, b in L if b]
    return L


def exprs(depth2):
    """(text, (type, value) or exception class) for every tree of the bound"""
    def ev(f, *a):
        try:
            return f(*a)
        except NotJudged:
            return None
        except Undef:
            return Undef
    full, small = leaves(True), leaves(False)
    if depth2 and len(depth2) < 6:
        small = [x for x in small if x[0] in ("3", "2147483647", "4294967296", "KU8", "KI32", "KU32", "KU64", "KF64")]
    for a, x in full:
        yield a, x
        for u in "-~!":
            r = ev(unary, u, x)
            if r:
                yield "%s(%s)" % (u, a), r
                for t in list(INT) + list(FL):
                    try:
                        yield "(%s(%s)): %s" % (u, a, t), (t, conv(r[1], t))
                    except NotJudged:
                        pass
        for t in list(INT) + list(FL) + ["bool"]:
            if x[0] == t or (t == "bool" and x[0] == "char") or x[0] == "bool":
                continue
            try:
                yield "(%s): %s" % (a, t), (t, conv(x[1], t))
            except NotJudged:
                pass
    for (a, x), (b, y) in itertools.product(full, repeat=2):
        for op in OPS:
            r = ev(binary, op, x, y)
            if r is not None:
                yield "%s %s %s" % (a, op, b), r
    if depth2:
        for (a, x), (b, y), (c, z) in itertools.product(small, repeat=3):
            for o1 in depth2:
                r1 = ev(binary, o1, x, y)
                if not isinstance(r1, tuple):
                    continue
                for o2 in depth2 + ["<", "=="]:
                    r = ev(binary, o2, r1, z)
                    if isinstance(r, tuple):
                        yield "(%s %s %s) %s %s" % (a, o1, b, o2, c), r
                    r = ev(binary, o2, z, r1)
                    if isinstance(r, tuple):
                        yield "%s %s (%s %s %s)" % (c, o2, a, o1, b), r


def cval(t, v):
    if t in FL:
        return repr(float(v))
    if t in ("bool", "char"):
        return "%d" % v
    return "(%s)%dULL" % (t, v & (2**64 - 1))



def expr_cases(depth2, full=False):
    seen = set()
    for e, r in exprs(depth2):
        if not isinstance(r, tuple) or e in seen:
            continue
        seen.add(e)
        t, v = r
        fin_t = [t]
        # the same expression as value of an object of another type
        for o in ("i64", "f64") + (("u8",) if t in INT else ()):
            if o != t and t not in ("bool", "char") and not (t in FL and o in INT):
                fin_t.append(o)
        for o in fin_t:
            try:
                w = conv(v, o)
            except NotJudged:
                continue
            ref = "%s @(void){return %s;}" % (o, cval(o, w))
            if o == t or len(e) < 16:
                yield Case("const:%s:%s" % (o, e), [], o, "const @g: %s = %s;\nfn @(): %s = @g;" % (o, e, o), ref)
            if o == t:
                yield Case("elem:%s:%s" % (o, e), [], o, "let @g: %s[2] = [%s, %s];\nfn @(): %s = @g[1];" % (o, e, e, o), ref)
            if o == t and len(e) < 26 and (len(e) < 16 or full):
                yield Case("global:%s:%s" % (o, e), [], o, "let @g: %s = %s;\nfn @(): %s = @g;" % (o, e, o), ref)
                yield Case("memb:%s:%s" % (o, e), [], o, "type @s: struct { a: i8, b: %s };\nlet @g: @s = @s::{1, %s};\nfn @(): %s = @g.b;" % (o, e, o), ref)
                yield Case("local:%s:%s" % (o, e), [], o, "fn @(): %s { let x: %s = %s; <- x; }" % (o, o, e), ref)
                yield Case("chain:%s:%s" % (o, e), [], o, "const @h: %s = %s;\nconst @g: %s = @h;\nfn @(): %s { const x = @g; <- x; }" % (o, e, o, o), ref)
        if t in INT and 0 < v <= 12 and len(e) < 26:
            yield Case("asize:" + e, [], "u64", "fn @(): u64 { let a: i16[%s]; <- len a; }" % e, "u64 @(void){return %d;}" % v)
            yield Case("casize:" + e, [], "u64", "fn @(): u64 { let a: i16 'c[%s]; <- sizeof typeof a; }" % e, "u64 @(void){return %d;}" % (v * 2))
            yield Case("gsize:" + e, [], "u64", "let @g: i16[%s];\nfn @(): u64 = len @g;" % e, "u64 @(void){return %d;}" % v)
            yield Case("msize:" + e, [], "u64", "type @s: struct { a: i8, b: i16[%s], c: i8 };\nfn @(): u64 { let s: @s; <- len s.b; }" % e, "u64 @(void){return %d;}" % v)
        if t in INT and -2**31 <= v < 2**31 and len(e) < 26:
            yield Case("enum:" + e, [], "i32", "type @e: enum { A = %s, B };\nfn @(): i32 = (@e::A: i32);" % e, "i32 @(void){return %d;}" % v)
            if v < 2**31 - 1:
                yield Case("enum1:" + e, [], "i32", "type @e: enum { A = %s, B, C };\nfn @(): i32 = (@e::B: i32);" % e, "i32 @(void){return %d;}" % (v + 1))


# ------------------------------------------------------------------ aggregates
def aggregates():
    def X(k, t, top, e, ce):
        return Case("agg:" + k, [], t, top + "\nfn @(): %s { <- %s; }" % (t, e), "%s @(void){return %s;}" % (t, ce))
    T = list(INT) + ["f32", "f64"]
    for t in T:
        n = "-" if t[0] != "u" else ""
        for ln in range(1, 6):
            vals = ["%s%d" % (n if i % 2 == 0 else "", i + 1) for i in range(ln)]
            for i in range(ln):
                yield X("arr:%s:%d:%d" % (t, ln, i), t, "let @g: %s[%d] = [%s];" % (t, ln, ", ".join(vals)), "@g[%d]" % i, vals[i])
                yield X("carr:%s:%d:%d" % (t, ln, i), t, "let @g: %s 'c[%d];" % (t, ln), "@g[%d]" % i, "0")
                yield X("zarr:%s:%d:%d" % (t, ln, i), t, "let @g: %s[%d];" % (t, ln), "@g[%d]" % i, "0")
            yield X("len:%s:%d" % (t, ln), "u64", "let @g: %s[%d] = [%s];" % (t, ln, ", ".join(vals)), "len @g", str(ln))
            yield X("ctl:%s:%d" % (t, ln), t, "const @g: %s[%d] = [%s];" % (t, ln, ", ".join(vals)), "@g[%d]" % (ln - 1), vals[-1])
        for u in T:
            for m, i in (("a", 0), ("b", 1), ("c", 2), ("d", 3)):
                v = ["3", n + "1", "5", "7"]
                ty = ["i8", t, u, "i16"][i]
                yield X("st:%s:%s:%s" % (t, u, m), ty, "type @s: struct { a: i8, b: %s, c: %s, d: i16 };\nlet @g: @s = @s::{%s};" % (t, u, ", ".join(v)), "@g." + m, v[i])
                yield X("zst:%s:%s:%s" % (t, u, m), ty, "type @s: struct { a: i8, b: %s, c: %s, d: i16 };\nlet @g: @s;" % (t, u), "@g." + m, "0")
                if i < 2:
                    yield X("ast:%s:%s:%s" % (t, u, m), ty, "type @s: struct { a: i8, b: %s, c: %s };\nlet @g: @s[3] = [@s::{1, 2, 3}, @s::{%s}, @s::{1, 1, 1}];" % (t, u, ", ".join(v[:3])), "@g[1]." + m, v[i])
                    yield X("nst:%s:%s:%s" % (t, u, m), ty, "type @i: struct { a: i8, b: %s };\ntype @s: struct { x: %s, i: @i, y: i8 };\nlet @g: @s = @s::{9, @i::{%s}, 4};" % (t, u, ", ".join(v[:2])), "@g.i." + m, v[i])
    for i in range(2):
        for j in range(3):
            yield X("aa:%d%d" % (i, j), "i32", "let @g: i32[3][2] = [[1, 2, 3], [4, 5, 6]];", "@g[%d][%d]" % (i, j), str(3 * i + j + 1))
            yield X("sa:%d%d" % (i, j), "i32", "type @s: struct { a: i8, b: i32[3] };\nlet @g: @s[2] = [@s::{1, [1, 2, 3]}, @s::{2, [4, 5, 6]}];", "@g[%d].b[%d]" % (i, j), str(3 * i + j + 1))
    yield X("strs", "i32", "type @c: &char;\nlet @g: @c[3] = [\"ab\", \"cd\", \"ef\"];", "(@g[1][1]: i32)", "'d'")
    yield X("str2", "i32", "type @s: struct { a: i8, b: &char, c: &char };\nlet @g: @s = @s::{1, \"xy\", \"zw\"};", "(@g.c[0]: i32)", "'z'")
    yield X("nil", "i64", "let @g: &i32 = nil;", "@g: i64", "0")
    # objects are independent of each other
    for ts in itertools.product(("i8", "i64", "f32", "i16"), repeat=3):
        top = "".join("let @g%d: %s;\n" % (i, t) for i, t in enumerate(ts))
        for k in range(3):
            yield Case("indep:%s:%d" % ("".join(ts), k), [("i8", "small")], "i64", top + "fn @(v: i8): i64 { @g0 = 1; @g1 = 2; @g2 = 3; @g%d = v; <- (@g0: i64) * 1000000 + (@g1: i64) * 1000 + (@g2: i64); }" % k,
                       "i64 @(i8 v){i64 g[3]={1,2,3};g[%d]=v;return g[0]*1000000+g[1]*1000+g[2];}" % k)
    # enumerators: every pattern of explicit and implicit values
    for pat in itertools.product((None, 0, 5, -3, 100), repeat=4):
        vals, nxt = [], 0
        for p in pat:
            nxt = p if p is not None else nxt
            vals.append(nxt)
            nxt += 1
        mem = ", ".join("ABCD"[i] + ("" if p is None else " = %d" % p) for i, p in enumerate(pat))
        yield X("enum:" + mem, "i64", "type @e: enum { %s };" % mem, "((@e::A: i64) * 1000 + (@e::B: i64)) * 1000000 + (@e::C: i64) * 1000 + (@e::D: i64)", "(%dL*1000+%d)*1000000+%d*1000+%d" % tuple(vals))
        yield X("enumv:" + mem, "i32", "type @e: enum { %s };\nlet @g: @e = @e::C;" % mem, "(@g: i32)", "%d" % vals[2])


# ------------------------------------------------------------------ [constexpr] functions
FNS = [("add", ["i32", "i32"], "i32", "<- a + b;", "return a+b;"), ("poly", ["i32", "i32"], "i32", "<- a * a - b * 3 + 7;", "return a*a-b*3+7;"),
       ("ifelse", ["i32", "i32"], "i32", "if a > b { <- a; } else { <- b; }", "return a>b?a:b;"), ("iff", ["i32", "i32"], "i32", "if a > b <- a; <- b - a;", "return a>b?a:b-a;"),
       ("tern", ["i32", "i32"], "i32", "<- (if a > b => a - b else b - a);", "return a>b?a-b:b-a;"),
       ("loc", ["i32", "i32"], "i32", "let x: i32 = a; let y: i32 = b; x = x + y; y = x * y; <- x - y;", "i32 x=a+b,y=x*b;return x-y;"),
       ("while", ["i32", "i32"], "i32", "let s: i32 = 0; let i: i32 = 0; while i < a { s = s + b; i = i + 1; } <- s;", "i32 s=0;for(i32 i=0;i<a;i++)s+=b;return s;"),
       ("dowhile", ["i32", "i32"], "i32", "let i: i32 = a; do { i = i + b + 1; } while i < 10; <- i;", "i32 i=a;do i+=b+1; while(i<10);return i;"),
       ("loopbrk", ["i32", "i32"], "i32", "let i: i32 = 0; loop { i = i + 1; if i > a { break; } } <- i + b;", "i32 i=0;for(;;){i++;if(i>a)break;}return i+b;"),
       ("whilebrk", ["i32", "i32"], "i32", "let i: i32 = 0; let s: i32 = 0; while i < 8 { i = i + 1; if i == a { break; } s = s + i; } <- s * 10 + i + b;", "i32 i=0,s=0;while(i<8){i++;if(i==a)break;s+=i;}return s*10+i+b;"),
       ("whilecont", ["i32", "i32"], "i32", "let i: i32 = 0; let s: i32 = 0; while i < 6 { i = i + 1; if i == a { continue; } s = s + i; } <- s * 10 + b;", "i32 i=0,s=0;while(i<6){i++;if(i==a)continue;s+=i;}return s*10+b;"),
       ("contlast", ["i32", "i32"], "i32", "let i: i32 = 0; let s: i32 = 0; while i < a { i = i + 1; if i >= b { continue; } s = s + i; } s = s + 100; <- s;", "i32 i=0,s=0;while(i<a){i++;if(i>=b)continue;s+=i;}return s+100;"),
       ("nested", ["i32", "i32"], "i32", "let i: i32 = 0; let s: i32 = 0; while i < a { let j: i32 = 0; loop { j = j + 1; if j > b { break; } s = s + 1; } i = i + 1; } <- s;", "i32 s=0;for(i32 i=0;i<a;i++)for(i32 j=1;j<=b;j++)s++;return s;"),
       ("nestcont", ["i32", "i32"], "i32", "let i: i32 = 0; let s: i32 = 0; while i < a { let j: i32 = 0; while j < 3 { j = j + 1; if j == b { continue; } s = s + 1; } s = s + 10; i = i + 1; } <- s;", "i32 s=0;for(i32 i=0;i<a;i++){for(i32 j=1;j<=3;j++){if(j==b)continue;s++;}s+=10;}return s;"),
       ("retloop", ["i32", "i32"], "i32", "let i: i32 = 0; while true { i = i + 1; if i * i > a { <- i; } } <- b;", "i32 i=0;for(;;){i++;if(i*i>a)return i;}"),
       ("match", ["i32", "i32"], "i32", "match a { 0 => <- 10; 1 => { <- b; } 2 => <- b * 2; _ => <- 99; } <- 5;", "return a==0?10:a==1?b:a==2?b*2:99;"),
       ("matchfall", ["i32", "i32"], "i32", "let r: i32 = 1; match a { 0 => r = 10; 1 => r = b; _ => {} } <- r;", "return a==0?10:a==1?b:1;"),
       ("unless", ["i32", "i32"], "i32", "let r: i32 = b; do { r = r + 100; } unless a > 2; <- r;", "return a>2?b:b+100;"),
       ("andor", ["i32", "i32"], "i32", "if a > 1 && b > 1 <- 1; if a > 2 || b > 2 <- 2; <- 3;", "return a>1&&b>1?1:a>2||b>2?2:3;"),
       ("fact", ["i32", "i32"], "i32", "if a < 2 <- 1; <- a * @(a - 1, b);", "i32 r=1;for(i32 i=2;i<=a;i++)r*=i;return r;"),
       ("fib", ["i32", "i32"], "i32", "if a < 2 <- a + b; <- @(a - 1, b) + @(a - 2, b);", "i32 x=b,y=1+b;for(i32 i=0;i<a;i++){i32 z=x+y;x=y;y=z;}return a<2?a+b:x;"),
       ("ack", ["i32", "i32"], "i32", "let t: i32 = a; if b == 0 <- t + 1; let u: i32 = @(a, b - 1); <- u + t;", "i32 u=a+1;for(i32 i=0;i<b;i++)u+=a;return u;"),
       ("ptr", ["i32", "i32"], "i32", "let x: i32 = a; let p: &i32 = &x; *p = *p + b; <- x * 2;", "return (a+b)*2;"),
       ("u8", ["u8", "u8"], "u8", "let x: u8 = a * b; <- x;", "return a*b;"), ("u64", ["u64", "u64"], "u64", "let x: u64 = a; x = x << 3; <- x / (b + 1) ^ a;", "return ((a<<3)/(b+1))^a;"),
       ("i64", ["i64", "i64"], "i64", "let x: i64 = a * 1000000007; x = x * 1000003; <- x % (b + 10);", "return (i64)((u64)a*1000000007ULL*1000003ULL)%(b+10);"),
       ("f64", ["f64", "f64"], "f64", "let x: f64 = a * b; <- x / (b + 1.5) - a;", "double x=a*b;return x/(b+1.5)-a;"), ("f32", ["f32", "f32"], "f32", "let x: f32 = a * b; <- x + a;", "f32 x=a*b;return x+a;"),
       ("mixed", ["i8", "u16"], "i32", "let x: i32 = a; let y: u32 = b; <- x * 2 + (y: i32);", "return a*2+b;"), ("cmp", ["u32", "i32"], "i32", "if a > 5 <- 1; if b < -1 <- 2; <- 3;", "return a>5?1:b<-1?2:3;"),
       ("bool", ["bool", "bool"], "bool", "<- a && !b;", "return a&&!b;"), ("char", ["char", "char"], "char", "if a == 'x' <- b; <- a;", "return a=='x'?b:a;"),
       ("call", ["i32", "i32"], "i32", "<- @_h(a, 1) * @_h(b, a);", "return (a-1)*(b-a);", "[constexpr]\nfn @_h(x: i32, y: i32): i32 { let t: i32 = x - y; <- t; }\n"),
       ("callconst", ["i32", "i32"], "i32", "<- a * @_k + b;", "return a*17+b;", "const @_k: i32 = 17;\n"),
       ("callenum", ["i32", "i32"], "i32", "if a == (@_e::B: i32) <- b; <- 0;", "return a==5?b:0;", "type @_e: enum { A = 4, B };\n"),
       ("for", ["i32", "i32"], "i32", "let s: i32 = 0; for let i: i32 = 0; i < a; i += 1; { s = s + b + i; } <- s;", "i32 s=0;for(i32 i=0;i<a;i++)s+=b+i;return s;"),
       ("forbrk", ["i32", "i32"], "i32", "let s: i32 = 0; for let i: i32 = 0; i < 9; i += 1; { if i == a { break; } if i == b { continue; } s = s + i; } <- s;", "i32 s=0;for(i32 i=0;i<9;i++){if(i==a)break;if(i==b)continue;s+=i;}return s;"),
       ("inc", ["i32", "i32"], "i32", "let x: i32 = a; x++; x++; let y: i32 = b; y--; <- x * y;", "return (a+2)*(b-1);"), ("else", ["i32", "i32"], "i32", "<- a else b;", "return a?a:b;"),
       ("shadow", ["i32", "i32"], "i32", "let x: i32 = a; { let y: i32 = b; x = x + y; { let z: i32 = x; x = z * 2; } } <- x;", "return (a+b)*2;"), ("void", ["i32", "i32"], "i32", "let x: i32 = a; @_v(&x, b); <- x;", "return a+b;", "[constexpr]\nfn @_v(p: &i32, y: i32) { *p = *p + y; }\n")]
ARGS = {"i32": [0, 1, 2, 3, 5], "u8": [0, 1, 7, 200], "u64": [0, 1, 77, 2**63], "i64": [0, 1, 5, 123456789], "f64": [0.5, 2.25, 100.0], "f32": [0.5, 2.25, 100.0], "i8": [0, -5, 100], "u16": [0, 5, 60000], "u32": [0, 6, 4000000000], "bool": [0, 1], "char": [120, 97]}


def lit(t, v):
    if t == "bool":
        return "true" if v else "false"
    if t == "char":
        return "'%c'" % v
    if t == "i32":
        return str(v)
    return "(%s: %s)" % (v, t)


def constexpr_cases():
    for f in FNS:
        nm, at, ret, body, ref = f[:5]
        pre = f[5] if len(f) > 5 else ""
        fn = pre + "[constexpr]\nfn @_f(a: %s, b: %s): %s { %s }\n" % (at[0], at[1], ret, body.replace("@(", "@_f("))
        for x, y in itertools.product(ARGS[at[0]], ARGS[at[1]]):
            if nm == "dowhile" and False:
                continue
            r = "static %s @r(%s a,%s b){%s}\n%s @(void){return @r(%s,%s);}" % (ret, at[0], at[1], ref, ret, cval(at[0], x), cval(at[1], y))
            call = "@_f(%s, %s)" % (lit(at[0], x), lit(at[1], y))
            yield Case("cx:const:%s:%s,%s" % (nm, x, y), [], ret, fn + "const @g: %s = %s;\nfn @(): %s = @g;" % (ret, call, ret), r)
            yield Case("cx:run:%s:%s,%s" % (nm, x, y), [], ret, fn + "fn @(): %s = %s;" % (ret, call), r)
            if ret == "i32":
                yield Case("cx:two:%s:%s,%s" % (nm, x, y), [], ret, fn + "let @g: i32 = %s + %s * 2;\nfn @(): i32 = @g;" % (call, call), r.replace("return @r(", "return 3*@r("))
                yield Case("cx:enum:%s:%s,%s" % (nm, x, y), [], ret, fn + "type @e: enum { A, B = %s };\nfn @(): i32 = (@e::B: i32);" % call, r)
                yield Case("cx:size:%s:%s,%s" % (nm, x, y), [], "u64", fn + "fn @(): u64 { let a: i8[(%s & 15) + 1]; <- len a; }" % call, r.replace("i32 @(void){return @r", "u64 @(void){return 1+(15&@r").replace(";}", ");}") if False else "static i32 @r(%s a,%s b){%s}\nu64 @(void){return (@r(%s,%s)&15)+1;}" % (at[0], at[1], ref, cval(at[0], x), cval(at[1], y)))


def verdicts():
    M = "\nfn main(): i32 { <- 0; }\n"
    for e, r in exprs(None):
        if r is Undef and len(e) < 24:
            yield "divzero:" + e, COMMON + "const g: i64 = %s;\nfn main(): i32 { <- (g: i32); }\n" % e, False
            yield "divzeroenum:" + e, COMMON + "type E: enum { A = %s };\nfn main(): i32 { <- (E::A: i32); }\n" % e, False
            yield "divzerosize:" + e, COMMON + "fn main(): i32 { let a: i8[%s]; <- (len a: i32); }\n" % e, False
    for e in ("f()", "x", "*&x", "x + 1", "if x > 1 => 2 else 3", "-x"):
        for d in ("const g: i32 = %s;", "let g: i32 = %s;", "type E: enum { A = %s };\nconst g: i32 = E::A: i32;", "let g: i32[%s];"):
            if "&" in e and "let g: i32 =" in d:
                continue
            yield "nonconst:%s:%s" % (d[:12], e), "let x: i32 = 3;\nfn f(): i32 { x = x + 1; <- x; }\n" + d % e + "\nfn main(): i32 { <- g: i32; }\n".replace("<- g: i32", "let y = g; <- 0"), False
    for a in ("const", "let"):
        for t in ("i32", "&char", "f64"):
            for op in ("g = g;", "g += g;", "g++;", "h(&g);"):
                if t != "i32" and op in ("g += g;", "g++;") or op == "h(&g);":
                    continue
                yield "constassign:%s:%s:%s" % (a, t, op), "%s g: %s = %s;\nfn main(): i32 { %s <- 0; }\n" % (a, t, {"i32": "1", "&char": '"a"', "f64": "1.5"}[t], op), a == "let"


PROP = dict(
    id="C09", title="Constants, globals, enumerators, constexpr calls have their expression's value",
    statement="A global or constant starts with the value its initialiser expression would have at run time, converted to the declared type, whether the value is written into the program image, evaluated by the compiler, used as array length or enumerator, or taken from another constant; uninitialised globals and omitted members are zero, aggregates have every element and member at its place, and globals do not overlap. Enumerators without a value are one more than the one before. A [constexpr] function called in a constant expression yields the value it returns at run time. Constant expressions that divide by zero, refer to non-constant objects or call functions that are not [constexpr] are rejected, as are assignments to constants.",
    quantifier=dict(over=["inputs", "programs"], text="all one-operator (and, over a smaller leaf set, two-operator) constant expressions over typed leaves x every place a constant is used; all aggregate shapes in the bound; all enumerator patterns of length 4; 45 [constexpr] functions x arguments"),
    why_tests_cant="Constant evaluation exists twice (interpreter and constant folder) besides code generation; only particular types, operators and places disagree.",
    anchors=dict(files=["src/compiler/optimizer/constexpr.c", "src/compiler/interpreter/interpreter.c", "src/compiler/interpreter/value.c", "src/compiler/codegen/asm/relocation.c"], mechanism="eval_constexpr, interpreter_eval_expr, const_i64/const_f64, gen_relocation"),
    technique="exhaustive bounded enumeration of constant programs, executed on the real compiler against an independent evaluator", level="exploration",
    level_note="Every expression of the bound is evaluated by an independent evaluator of the language's typing rules; the real program has to deliver exactly that value. Overflowing intermediates of types narrower than 32 bits, NaN/infinity and out-of-range float conversions are not judged; [constexpr] functions use the statements the compile-time evaluator supports.")


def run(chk, repo):
    d2 = ["+", "-", "*", "/", "&", "<<", ">>", "%", "|"] if chk.thorough else ["+", "*", "/", ">>"]
    cs = list(expr_cases(d2, chk.thorough))
    explore(chk, repo, cs, batch=400, common_csp=COMMON)
    explore(chk, repo, list(aggregates()), batch=300, common_csp=COMMON)
    explore(chk, repo, list(constexpr_cases()), batch=150, common_csp=COMMON)
    verdict.explore(chk, repo, verdicts())
    chk.cov["rule"] = "one program per (constant expression, place it is used), value compared with an independent evaluator; distinct_nontrivial counts distinct result hashes per program"
    chk.cov["exhaustive"] = True
