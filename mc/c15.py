"""C15 - lambdas: closures see and change the variables around them and behave like functions."""
import importlib
import itertools
import re
import core
from cases import Case, explore
from c03 import ST, SCAL, COMMON_C, COMMON_CSP, val, tr_c


# ---- every program of the grammars of C01-C06 as the body of a lambda
def match_paren(s, i):
    d = 0
    for k in range(i, len(s)):
        d += (s[k] == "(") - (s[k] == ")")
        if not d:
            return k
    raise ValueError(s)


def wrap(c, mode):
    """the program's function calls a lambda with its body: own = with the same parameters, cap = without parameters (captured ones), in = captured, two lambdas deep"""
    k = c.csp.rfind("fn @(")
    if k < 0:
        return None
    e = match_paren(c.csp, k + 4)
    ps = [p.strip() for p in re.split(r",(?![^<(\[]*[>)\]])", c.csp[k + 5:e]) if p.strip()]
    m = re.match(r":\s*([^={]*?)\s*(=(?!=)|\{)", c.csp[e + 1:])
    if not m:
        return None
    ret = m.group(1)
    body = c.csp[e + 1 + m.end(2) - len(m.group(2)):].strip()
    if body.startswith("="):
        if not body.endswith(";"):
            return None
        body = "{ <- %s; }" % body[1:-1].strip() if ret != "void" else "{ %s }" % body[1:]
    if not body.endswith("}") or ret == "void":
        return None
    names = [p.split(":")[0].strip() for p in ps]
    decl = ", ".join(ps)
    if mode == "own":
        if not ps:
            return None
        outer = ", ".join("z%d_%s" % (i, p) for i, p in enumerate(ps))
        new = "fn @(%s): %s { let k_ = 3: i64; let l_ = |%s| %s => %s; let r_: %s = l_(%s); if k_ != (3: i64) tr(-5); <- r_; }" % (outer, ret, decl, ret, body, ret, ", ".join("z%d_%s" % (i, n) for i, n in enumerate(names)))
    elif mode == "cap":
        new = "fn @(%s): %s { let l_ = || %s => %s; let k_ = 3: i64; let r_: %s = l_(); if k_ != (3: i64) tr(-5); <- r_; }" % (decl, ret, ret, body, ret)
    else:
        new = "fn @(%s): %s { let l_ = |i_: i16| %s => { let k_ = 3: i64; let m_ = || %s => %s; let r_: %s = m_(); if k_ != (3: i64) || i_ != (4: i16) tr(-5); <- r_; }; <- l_(4: i16); }" % (decl, ret, ret, ret, body, ret)
    return Case("%s:%s" % (mode, c.key), c.params, c.ret, c.csp[:k] + new, c.ref, c.dec, None, c.files)


# ---- captured variables
def xt(t):
    return 'extern "C" fn x§(v: %s): void;\n' % t, "void x§(%s v) { ALIGNED(); %s }\n" % (t, tr_c(t, "v"))


KINDS = {
    # name: (prefix parameters, statements, the variable, global text)
    "param": ("", "", "a", ""), "local": ("", "let v: T = a;", "v", ""), "block": ("", "{ let w: i32 = 3; tr(w); } let v: T = a;", "v", ""),
    "cast": ("", "let v = a: T;", "v", ""), "ptr": ("", "let w: T = a; let v = &w;", "*v", ""), "parampost": ("i32,i32,i32,f64,f64", "", "a", ""), "paramstack": ("i64,i64,i64,i64,i64,i64,f64,f64,f64,f64,f64,f64,f64,f64", "", "a", ""),
    "member": ("", "let v: @_S; v.x = 1: i8; v.z = 2: i8; v.m = a;", "v.m", "type @_S: struct { x: i8, m: T, z: i8 };\n"), "carray": ("", "let v: T 'c[3]; v[1] = a; let i = 1;", "v[i]", ""), "array": ("", "let v: T[3]; v[1] = a; let i: u8 = 1;", "v[i]", ""),
    "rev": ("", "let v: T[3]; v[1] = a;", "v[^2]", ""), "memberptr": ("", "let w: @_S; w.m = a; let v = &w;", "v.m", "type @_S: struct { x: i8, m: T, z: i8 };\n"), "union": ("", "let v: @_U; v.m = a;", "v.m", "type @_U: union { m: T, x: i8 };\n"),
    "global": ("", "@_g = a;", "@_g", "let @_g: T;\n"), "slice": ("", "let w: T[3]; w[2] = a; let v: T[] = w;", "v[2]", ""), "for": ("", "", "v", ""),
}


def capture(t, kind, backend):
    pre, stmts, v, top = [x.replace("T", t) if x.count("T") else x for x in KINDS[kind]]
    if kind == "slice" and backend == "C":
        return None
    d, c = xt(t)
    pl = pre.split(",") if pre else []
    decl = "".join("q%d: %s, " % (i, p) for i, p in enumerate(pl)) + "a: %s, b: %s" % (t, t)
    cdecl = "".join("%s q%d, " % (p, i) for i, p in enumerate(pl)) + "%s a, %s b" % (t, t)
    rest = "let c_: %s = a; let m: i64 = 6: i64; let g = || %s => { let n: i64 'c[5]; n[3] = 4: i64; <- %s; }; let s = |x: %s| => { %s = x; }; let h = |s: %s| %s => { let o = %s; %s = s; <- o; };" % (t, t, v, t, v, t, t, v, v)
    rest += " x§(g()); s(b); x§(%s); x§(g()); %s = c_; x§(g()); tr(m); let r: %s = h(b); x§(r); x§(g()); let f = g; s(c_); x§(f()); s(b);" % (v, v, t)
    if kind == "for":
        body = "let once = true; let e: %s; for let v: %s = a; once; once = false; { %s e = v; } <- e;" % (t, t, rest)
    else:
        body = "%s %s <- %s;" % (stmts, rest, v)
    csp = d + top + "fn @(%s): %s { %s }" % (decl, t, body)
    pr = "tr(3); " if kind == "block" else ""
    ref = c + "%s @(%s) { %s x§(a); x§(b); x§(b); x§(a); tr(6); x§(a); x§(b); x§(a); return b; }" % (t, cdecl, pr)
    params = [(p, [val(p, i + 2)]) for i, p in enumerate(pl)] + [(t, [val(t, 1), val(t, 12)]), (t, [val(t, 5)])]
    return Case("capture:%s:%s" % (kind, t), params, t, csp, ref, desc="closures reading and writing a captured %s of type %s" % (kind, t))


def nest(depth, mask, order):
    """lambdas in lambdas: the innermost one changes the variables of the levels in mask, every level looks at all it can see"""
    ty = ["i64", "i8", "f64", "u16", "i32", "f32"]

    def tys(i):
        return ty[(2 * i + order) % 6], ty[(2 * i + 1 + order) % 6]
    csp, ref = [], []

    def see(i):
        return " ".join("tr(p%d: i64); tr(q%d: i64);" % (j, j) for j in range(i + 1)), " ".join("tr((i64)p%d); tr((i64)q%d);" % (j, j) for j in range(i + 1))

    def level(i):
        a, b = tys(i)
        s, c = see(i)
        if i == depth:
            u = " ".join("p%d = p%d + %d: %s; q%d = q%d + %d: %s;" % (j, j, j + 1, tys(j)[0], j, j, j + 2, tys(j)[1]) for j in range(i + 1) if mask >> j & 1)
            cu = " ".join("p%d = p%d + %d; q%d = q%d + %d;" % (j, j, j + 1, j, j, j + 2) for j in range(i + 1) if mask >> j & 1)
            return "let q%d: %s = %d: %s; %s %s <- (p%d: i64);" % (i, b, i + 20, b, u, s, i), "%s q%d = %d; %s %s return (i64)p%d;" % (b, i, i + 20, cu, c, i)
        na = tys(i + 1)[0]
        x, y = level(i + 1)
        return ("let q%d: %s = %d: %s; let l%d = |p%d: %s| i64 => { %s }; let r%d: i64 = l%d(%d: %s); %s let s%d: i64 = l%d(%d: %s); %s <- r%d + s%d;" % (i, b, i + 20, b, i, i + 1, na, x, i, i, 3 + i, na, s, i, i, 7 + i, na, s, i, i),
                "%s q%d = %d; i64 l%d(%s p%d) { %s } i64 r%d = l%d(%d); %s i64 s%d = l%d(%d); %s return r%d + s%d;" % (b, i, i + 20, i, na, i + 1, y, i, i, 3 + i, c, i, i, 7 + i, c, i, i))
    x, y = level(0)
    t = tys(0)[0]
    return Case("nest:%d:%d:%d" % (depth, mask, order), [(t, [0, 5])], "i64", "fn @(p0: %s): i64 { %s }" % (t, x), "i64 @(%s p0) { %s }" % (t, y), desc="lambdas nested %d deep" % depth)


def histories(depth):
    ops = {
        "f=l": ("f = l;", "f=0;"), "f=m": ("f = m;", "f=1;"), "g=f": ("g = f;", "g=f;"), "f=g": ("f = g;", "f=g;"), "f()": ("tr(f(c)); c += 1: i64;", "tr(CALL(f,c)); c++;"), "g()": ("tr(g(c)); c += 1: i64;", "tr(CALL(g,c)); c++;"),
        "x=": ("x = c + 50: i64;", "x=c+50;"), "ap": ("tr(@_ap(f, g, c));", "tr(CALL(f,CALL(g,c)+1));"),
    }
    for h in itertools.product(ops, repeat=depth):
        csp = "type @_F: fn<i64>(i64);\nfn @_ap(f: @_F, g: @_F, c: i64): i64 { let x: i64 = 9: i64; let r = g(c); if x != (9: i64) tr(-5); <- f(r + 1: i64); }\n"
        csp += "fn @(x: i64): i64 { let c: i64 = 100: i64; let l = |y: i64| i64 => { x += y; <- x; }; let m = |y: i64| i64 => { let z = x * 2: i64; x = y; <- z + y; }; let f: @_F = l; let g: @_F = m; %s tr(x); tr(f(1: i64)); <- g(2: i64); }" % " ".join(ops[o][0] for o in h)
        ref = "i64 @(i64 x) { i64 c=100; int f=0,g=1; i64 CALL(int w,i64 y){ if(w){ i64 z=x*2; x=y; return z+y; } x+=y; return x; } %s tr(x); tr(CALL(f,1)); return CALL(g,2); }" % " ".join(ops[o][1] for o in h)
        yield Case("history:" + " ".join(h), [("i64", [3])], "i64", csp, ref, desc="two closures after " + " ".join(h))


def storage(backend):
    L = "|y: i64| i64 => { x += y; <- x; }"
    M = "|y: i64| i64 => { x = x * y; <- x; }"
    F = "type @_F: fn<i64>(i64);\n"
    CL = "i64 L(i64 y){ x+=y; return x; } i64 M(i64 y){ x=x*y; return x; } "

    def add(key, body, cbody, extra=""):
        return Case("storage:" + key, [("i64", [1, 5, -3]), ("i64", [2, 7])], "i64", F + extra + "fn @(x: i64, a: i64): i64 { %s }" % body, "i64 @(i64 x, i64 a) { %s %s }" % (CL, cbody), desc="closure: " + key)
    T = "tr(x); <- "
    two, ctwo = "tr(%s(a)); tr(%s(a + 1: i64)); tr(%s(3: i64)); <- x;", "tr(L(a)); tr(M(a+1)); tr(L(3)); return x;"

    def tw(key, setup, f, g, extra=""):
        return add(key, setup + " " + two % (f, g, f), ctwo, extra)
    yield tw("locals", "let f = %s; let g = %s;" % (L, M), "f", "g")
    yield tw("typed", "let f: @_F = %s; let g: fn<i64>(i64) = %s;" % (L, M), "f", "g")
    yield tw("assigned", "let f: @_F; let g: @_F; g = %s; f = %s;" % (M, L), "f", "g")
    yield tw("swapped", "let f = %s; let g = %s; let h = f; f = g; g = h;" % (M, L), "f", "g")
    yield tw("member", "let s: @_S; s.x = 1: i8; s.z = 2: i8; s.f = %s; s.g = %s; if s.x != (1: i8) || s.z != (2: i8) tr(-5);" % (L, M), "s.f", "s.g", "type @_S: struct { x: i8, f: @_F, z: i8, g: @_F };\n")
    yield tw("literal", "let s = @_S::{1: i8, %s, 2: i8, %s}; let t = s;" % (L, M), "t.f", "s.g", "type @_S: struct { x: i8, f: @_F, z: i8, g: @_F };\n")
    yield tw("memberptr", "let s = @_S::{1: i8, %s, 2: i8, %s}; let t = &s;" % (L, M), "t.f", "(*t).g", "type @_S: struct { x: i8, f: @_F, z: i8, g: @_F };\n")
    yield tw("carray", "let s: @_F 'c[3]; s[0] = %s; s[2] = %s; s[1] = s[0]; let i = 2;" % (L, M), "s[1]", "s[i]")
    yield tw("array", "let s: @_F[3]; s[0] = %s; s[2] = %s; s[1] = s[0]; let i = 2;" % (L, M), "s[1]", "s[i]")
    yield tw("arraylit", "let f: @_F = %s; let g: @_F = %s; let s = [f, g];" % (L, M), "s[0]", "s[1]")
    yield tw("global", "@_g = %s; @_h = %s;" % (L, M), "@_g", "@_h", "let @_g: @_F; let @_h: @_F;\n")
    yield tw("globalfn", "@_g = %s; @_h = %s;" % (L, M), "@_cg", "@_ch", "let @_g: @_F; let @_h: @_F;\nfn @_cg(y: i64): i64 = @_g(y);\nfn @_ch(y: i64): i64 { let z = @_h(y); <- z; }\n")
    yield tw("pointer", "let f: @_F = %s; let g: @_F = %s; let p = &f; let q = &g;" % (L, M), "(*p)", "(*q)")
    yield tw("pointer0", "let f: @_F = %s; let g: @_F = %s; let p = &f; let q = &g;" % (L, M), "p[0]", "q[0]")
    yield tw("returned", "let f = %s; let g = %s;" % (L, M), "@_id(f)", "@_id(g)", "fn @_id(f: @_F): @_F = f;\n")
    yield tw("returned2", "let f = @_id(%s); let g = @_id(%s);" % (L, M), "f", "g", "fn @_id(f: @_F): @_F { let g = f; <- g; }\n")
    yield tw("retstruct", "let s = @_mk(%s, %s);" % (L, M), "s.f", "s.g", "type @_S: struct { f: @_F, g: @_F };\nfn @_mk(f: @_F, g: @_F): @_S = @_S::{f, g};\n")
    yield tw("ternary", "let l: @_F = %s; let m: @_F = %s; let f = if a > (0: i64) => l else m; let g = if a > (100: i64) => l else m;" % (L, M), "f", "g")
    yield tw("lambda", "let l: @_F = %s; let m: @_F = %s; let f = |y: i64| i64 => { <- l(y); }; let g = |y: i64| i64 => { let z = m(y); <- z; };" % (L, M), "f", "g")
    yield add("lambdaparam", "let l: @_F = %s; let m: @_F = %s; let c = |f: @_F, y: i64| i64 => { <- f(y); }; tr(c(l, a)); tr(c(m, a + 1: i64)); tr(c(l, 3: i64)); <- x;" % (L, M), ctwo)
    yield add("direct", "tr((%s)(a)); tr((%s)(a + 1: i64)); tr((%s)(3: i64)); <- x;" % (L, M, L), ctwo)
    yield add("directexpr", "tr((|y: i64| i64 = x + y)(a)); <- (|y: i64| i64 = x * y)(a + 1: i64);", "tr(x+a); return x*(a+1);")
    for n in range(0, 8):
        pre = "".join("%d: i8, " % (i + 1) for i in range(n))
        dec = "".join("p%d: i8, " % i for i in range(n))
        yield add("param%d" % n, "tr(@_ap(%s%s, 2.5, a, %s)); tr(@_ap(%s%s, 2.5, 3: i64, %s)); <- x;" % (pre, L, M, pre, M, L), "i64 q=L(a); q=M(q+2); tr(q); q=M(3); q=L(q+2); tr(q); return x;",
                  "fn @_ap(%sf: @_F, d: f32, y: i64, g: @_F): i64 { let x: i64 = 77: i64; let z = f(y); if %s tr(-5); <- g(z + (d: i64)); }\n" % (dec, " || ".join(["x != (77: i64)"] + ["p%d != (%d: i8)" % (i, i + 1) for i in range(n)])))
    for n in (1, 2, 5):
        yield add("fold%d" % n, "let s: i64 'c[5]; for let i = 0; i < 5; i++; s[i] = a + i: i64; <- @_fold(&s[0], %d, x, |v: i64, w: i64| i64 => { x += 1: i64; <- v * 3: i64 + w + x; });" % n, "i64 v=x; for(int i=0;i<%d;i++){ x++; v=v*3+(a+i)+x; } return v;" % n, "fn @_fold(p: &i64, n: i32, v: i64, f: fn<i64>(i64, i64)): i64 { for let i = 0; i < n; i++; v = f(v, p[i]); <- v; }\n")
        yield add("map%d" % n, "let s: i64 'c[5]; for let i = 0; i < 5; i++; s[i] = a + i: i64; @_each(&s[0], %d, |p: &i64| => { *p = (*p) * x; x += 1: i64; }); for let i = 0; i < 5; i++; tr(s[i]); <- x;" % n, "i64 s[5]; for(int i=0;i<5;i++) s[i]=a+i; for(int i=0;i<%d;i++){ s[i]*=x; x++; } for(int i=0;i<5;i++) tr(s[i]); return x;" % n, "fn @_each(p: &i64, n: i32, f: fn<void>(&i64)) { for let i = 0; i < n; i++; f(&p[i]); }\n")
    # plain functions where closures are expected
    P = "fn @_p(y: i64): i64 = y * 3: i64;\nfn @_q(y: i64): i64 { tr(y); <- y + 4: i64; }\n"
    yield add("fn", "let f: @_F = @_p; let g: @_F = @_q; tr(f(a)); <- g(x);", "tr(a*3); tr(x); return x+4;", P)
    yield add("fnmixed", "let f: @_F = %s; tr(f(a)); f = @_q; tr(f(a)); f = %s; <- f(a);" % (L, M), "tr(L(a)); tr(a); tr(a+4); return M(a);", P)
    yield add("fnarg", "tr(@_ap(@_p, a)); tr(@_ap(%s, a)); <- @_ap(@_q, x);" % L, "tr(a*3); tr(L(a)); tr(x); return x+4;", P + "fn @_ap(f: @_F, y: i64): i64 = f(y);\n")
    yield add("fnternary", "let l: @_F = %s; let q: @_F = @_q; let f = if a > (5: i64) => q else l; <- f(a);" % L, "if(a>5){ tr(a); return a+4; } return L(a);", P)
    yield add("fnret", "let f = @_mk(a > (5: i64)); tr(f(a)); <- @_mk(true)(x);", "if(a>5){ tr(a); tr(a+4); } else tr(a*3); tr(x); return x+4;", P + "fn @_mk(b: bool): @_F { if b <- @_q; <- @_p; }\n")
    yield add("nocapture", "let f = const |y: i64| i64 => { let z = y * 2: i64; <- z; }; let g = f; tr(g(a)); <- f(x);", "tr(a*2); return x*2;")
    yield add("mkreturn", "tr(@_mk()(a)); let f = @_mk(); <- f(x);", "tr(a+1); return x+1;", "fn @_mk(): @_F = |y: i64| i64 => { <- y + 1: i64; };\n")
    # closures made again and again
    yield add("loop", "let r: i64 = 0: i64; for let i: i64 = 0: i64; i < (4: i64); i++; { let l = |k: i64| => { r += k * i; i += a / 7: i64; }; l(2: i64 + x); } <- r;", "i64 r=0; for(i64 i=0;i<4;i++){ r+=(2+x)*i; i+=a/7; } return r;")
    yield add("range", "let r: i64 = 0: i64; for 0 .. 4 { let l = |k: i64| => { r += k; }; l(x); } <- r;", "return x*4;")
    yield add("inrange", "let r: i64 = 0: i64; let l = |k: i64| i64 => { for 0 .. k { r += x; } for 0 .. 3 { if r > (20: i64) { <- r; } r += 1: i64; } <- 0: i64 - r; }; tr(l(a)); tr(l(1: i64)); <- r;", "i64 r=0; i64 l(i64 k){ for(i64 i=0;i<k;i++) r+=x; for(int i=0;i<3;i++){ if(r>20) return r; r++; } return -r; } tr(l(a)); tr(l(1)); return r;")
    yield add("branch", "let f: @_F; let k: i64 = 4: i64; if a > (5: i64) f = %s; else { f = |y: i64| i64 => { x += k; k += 1: i64; <- x - y; }; } tr(f(a)); tr(f(1: i64)); <- x;" % M, "i64 k=4; i64 K(i64 y){ x+=k; k++; return x-y; } i64 f(i64 y){ return a>5?M(y):K(y); } tr(f(a)); tr(f(1)); return x;")
    yield add("enclosing", "let l = |y: i64| i64 => { <- x * 10: i64 + y; }; if x <= (0: i64) { <- l(0: i64); } let r = @(x - 1: i64, a); <- r + l(a);", "return x<=0?x*10:@(x-1,a)+x*10+a;")
    yield add("enclosing2", "let k = x * 2: i64; let l = |y: i64| => { k += y; }; l(1: i64); if x > (0: i64) tr(@(x - 1: i64, a)); l(a); l(x); <- k;", "i64 k=x*2+1; if(x>0) tr(@(x-1,a)); return k+a+x;")
    yield add("caller", "<- @_t(x, a, |y: i64| i64 => { x += y; <- @_u(x, y); });", "i64 l(i64 y){ x+=y; return x*y; } i64 r=l(x); tr(r); return l(r)+x*0+a;", "fn @_u(x: i64, y: i64): i64 { let z = x * y; <- z; }\nfn @_t(x: i64, a: i64, f: @_F): i64 { let r = f(x); tr(r); <- f(r) + a; }\n")
    yield add("ap", "<- @_ap(%s, a);" % L, "i64 ap(i64 n){ if(n<=0) return 0; i64 q=L(n); return q*2+ap(n-1); } return ap(a);", "fn @_ap(f: @_F, n: i64): i64 { if n <= (0: i64) { <- 0: i64; } let q = f(n); <- q * 2: i64 + @_ap(f, n - 1: i64); }\n")
    yield add("string", 'let s = "abcdefghij"; let l = |i: i64| i64 => { <- s[i]: i64; }; tr(l(a)); s = "0123456789"; <- l(a);', 'tr("abcdefghij"[a]); return "0123456789"[a];')
    yield add("addr", "let l = |i: i64| &i64 => { x += i; <- &x; }; *l(5: i64) = 9: i64; let p = l(a); tr(*p); <- x;", "x=9+a; tr(x); return x;")
    yield add("addrlocal", "let l = |i: i64| i64 => { let z = i * 2: i64; let p = &z; let q = &i; *p += *q; <- z + i; }; <- l(a) + l(x);", "return a*4+x*4;")
    yield add("size", "let l = %s; tr(sizeof typeof l); <- sizeof @_F;" % L, "tr(8); return 8;")
    yield add("recursion", "let f: @_F; f = |n: i64| i64 => { if n <= (1: i64) { <- 1: i64; } <- n * f(n - 1: i64); }; <- f(a);", "i64 f(i64 n){ return n<=1?1:n*f(n-1); } return f(a);")
    yield add("deep", "<- @_ap(|y: i64| i64 => { <- x + y; }, a);", "i64 r=x+1; for(i64 n=a;n>0;n--) r=r*2+n; return r;" , "fn @_ap(f: @_F, n: i64): i64 { if n == (0: i64) { <- f(1: i64); } let l = |y: i64| i64 => { <- f(y) * 2: i64 + n; }; <- @_ap(l, n - 1: i64); }\n")
    if backend != "C":
        yield add("defer", "let l = |y: i64| => { defer x = x * 3: i64; x += y; if y > (5: i64) { <-; } x += 1: i64; }; l(a); tr(x); l(2: i64); <- x;", "void l(i64 y){ x+=y; if(!(y>5)) x+=1; x*=3; } l(a); tr(x); l(2); return x;")


PROP = dict(
    id="C15", title="Lambdas see and change the variables around them and act like functions",
    statement="A lambda reads and writes the very variables of the functions around it - parameters in registers and on the stack, locals of every type, members, elements, loop variables, variables of enclosing lambdas at any depth - so that its changes are seen outside and changes outside are seen by it, however control leaves it; it runs any statement or expression a function can, with its own parameters and locals apart from all others; and it can be kept in variables, globals, members and arrays, copied, exchanged, passed, returned, chosen, called directly or together with plain functions, while the functions around it call other functions and themselves. Both backends. Covered: closures used while the call that made them is active. Known limit of the assembly backend: a lambda has no frame of its own, so it may not call itself, nor be active in two calls of its function at once.",
    quantifier=dict(over=["programs", "inputs", "histories"], text="captured variables of 34 types in 16 kinds; nesting up to 3-4 lambdas with every subset of changed levels; all histories of calls, assignments and copies of two closures up to a depth; storage forms; and every program of C01, C02, C04, C05, C06 as the body of a lambda with parameters, with captured parameters, and inside another lambda"),
    why_tests_cant="The lambda tests are a few examples; which register, frame or variable a lambda touches depends on the types, the depth, the statements inside and the order of calls.",
    anchors=dict(files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c", "src/compiler/parser/parser.c", "src/compiler/parser/validator.c"], mechanism="ND_LAMBDA, ND_CLOSURE, asm_gen_lambda, asm_assign_lvar_offsets, c_gen_lambda, validate_call"),
    technique="exhaustive enumeration of a bounded space of programs and of call/assignment histories; the compiled code (both backends) is run on all inputs and decision strings and compared with an independent reference (nested functions of the C compiler)", level="exploration",
    level_note="Every program and history of the bounded space is compiled and run; no sampling.")


def run(chk, repo):
    th = chk.thorough
    allt = SCAL + ["char"] + list(ST)
    for be in ("asm", "C"):
        kw = dict(tag="")
        if be == "C":
            kw["backend"] = "C"

        def ex(cs, batch, **k2):
            cs = [c for c in cs if c]
            for c in cs:
                c.key = "%s/%s" % (be, c.key)
            explore(chk, repo, cs, batch=batch, **dict(dict(kw, common_csp=COMMON_CSP, common_c=COMMON_C), **k2))
        ex([capture(t, k, be) for k in KINDS for t in (allt if be == "asm" or th else allt[::2] if k in ("param", "local", "paramstack") else ["i8", "i64", "f32", "f64", "SF12", "S24"]) if t != "char"], 60)
        ex([nest(d, m, o) for d in ((1, 2, 3) if not th else (1, 2, 3, 4)) for m in range(1 << (d + 1)) for o in (range(6) if th or be == "asm" else (0, 3))], 40)
        ex(storage(be), 25)
        for d in ((1, 2, 3) if not th else (1, 2, 3, 4)):
            ex(histories(d), 60)
    # bodies
    mods = {"c01": ("own", "cap"), "c02": ("own", "cap", "in"), "c04": ("cap",), "c05": ("own",), "c06": ("cap",)}
    for name in mods:
        mod = importlib.import_module(name)
        for be in (("asm",) if not th and name != "c02" else ("asm", "C")):
            for mode in (mods[name] if not th else ("own", "cap", "in")):
                if be == "C" and mode != "cap" and not th:
                    continue

                def patched(chk, repo, cs, *a, **k):
                    out = []
                    for c in cs:
                        if be == "C" and "defer " in c.csp:
                            continue
                        w = wrap(c, mode)
                        if w:
                            w.key = "%s/%s/%s" % (be, name, w.key)
                            out.append(w)
                    if be == "C":
                        k = dict(k, backend="C")
                    if out:
                        explore(chk, repo, out, *a, **k)
                old = mod.explore
                mod.explore = patched
                try:
                    mod.run(chk, repo)
                finally:
                    mod.explore = old
    chk.cov["rule"] = "one program per captured variable, nesting, storage form, history and body (and backend); distinct_nontrivial counts distinct (result, trace) hashes"
    chk.cov["exhaustive"] = True
