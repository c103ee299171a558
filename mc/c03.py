"""C03 - calls: arguments, return values and registers follow the System V calling convention."""
import itertools
import re
import core
from cases import *

# struct types: name -> [(member, type)]
ST = {
    "S1": [("a", "i8")], "S2": [("a", "u8"), ("b", "i8")], "S3": [("a", "i8"), ("b", "u8"), ("c", "i8")], "S5": [("a", "i8"), ("b", "i8"), ("c", "i8"), ("d", "i8"), ("e", "i8")],
    "S8": [("a", "i32"), ("b", "i32")], "S8c": [("a", "i8"), ("b", "i32")], "S12": [("a", "i32"), ("b", "i32"), ("c", "i32")], "S16": [("a", "i64"), ("b", "i64")], "S16c": [("a", "i16"), ("b", "i64")],
    "SF4": [("a", "f32")], "SF8": [("a", "f32"), ("b", "f32")], "SD8": [("a", "f64")], "SF12": [("a", "f32"), ("b", "f32"), ("c", "f32")], "SF16": [("a", "f32"), ("b", "f32"), ("c", "f32"), ("d", "f32")],
    "SDD": [("a", "f64"), ("b", "f64")], "SDI": [("a", "f64"), ("b", "i64")], "SID": [("a", "i64"), ("b", "f64")], "SFI": [("a", "f32"), ("b", "i32")], "SDi": [("a", "f64"), ("b", "i8")], "SFFI": [("a", "f32"), ("b", "f32"), ("c", "i32")],
    "S24": [("a", "i64"), ("b", "i64"), ("c", "i64")], "S17": [("a", "i64"), ("b", "i64"), ("c", "i8")], "S40": [("a", "i64"), ("b", "f64"), ("c", "i8"), ("d", "f32"), ("e", "i64")],
}
SCAL = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "bool"]
INTV = {"i8": -3, "i16": -300, "i32": -70000, "i64": -5000000000, "u8": 250, "u16": 65000, "u32": 4000000000, "u64": 2**63 + 5}


def member_val(t, seed):
    if t in ("f32", "f64"):
        return "%d.5" % (seed * 3 + 1)
    if t == "bool":
        return str(seed & 1)
    v = trunc(INTV[t] - seed * 7 if seed % 2 else INTV[t] + 10**6 * seed + seed, t)
    return "(%s)%dULL" % (t, v & (2**64 - 1))


def val(t, seed):
    if t in ST:
        return "{%s}" % ",".join(member_val(mt, seed + k) for k, (_, mt) in enumerate(ST[t]))
    return member_val(t, seed)


def tr_c(t, e):
    if t in ST:
        return " ".join(tr_c(mt, "%s.%s" % (e, m)) for m, mt in ST[t])
    if t in ("f32", "f64"):
        return "tr((i64)(%s*2));" % e
    return "tr((i64)%s);" % e


COMMON_C = "".join("typedef struct { %s } %s;\nstatic int EQ_%s(%s*x,%s*y){return %s;}\n" % (" ".join("%s %s;" % (t, m) for m, t in ms), n, n, n, n, "&&".join("x->%s==y->%s" % (m, m) for m, _ in ms)) for n, ms in ST.items()) + r'''
#define ALIGNED() do{ if(!INREF&&((uintptr_t)__builtin_frame_address(0))%16) tr(-777777); }while(0)
i64 xq(i64 x) { ALIGNED(); return x + 1; }
i64 xa(i64 x) { ALIGNED(); tr(x); return x + 1; }
i32 xi(i32 x, i32 y) { ALIGNED(); tr(x); tr(y); return x * 3 + y; }
f64 xd(f64 x) { ALIGNED(); tr((i64)(x * 4)); return x + 0.5; }
i64 xbig(S40 s, i64 y) { ALIGNED(); tr(s.a); tr(s.c); tr(s.e); return s.a + y; }
S24 xs24(i64 x) { ALIGNED(); tr(x); return (S24){x, x + 1, x + 2}; }
SDD xsdd(f64 x) { ALIGNED(); return (SDD){x, x * 2}; }
i64 xv(i32 n, ...) { ALIGNED(); va_list a; va_start(a, n); i64 s = n; for (int i = 0; i < n; i++) s = s * 31 + va_arg(a, i64); va_end(a); tr(s); return s; }
f64 xvd(i32 n, ...) { ALIGNED(); va_list a; va_start(a, n); f64 s = n; for (int i = 0; i < n; i++) s = s * 2 + va_arg(a, f64); va_end(a); tr((i64)(s*2)); return s; }
i64 xv8(i64 a, i64 b, i64 c, i64 d, i64 e, i64 f, i64 g, ...) { ALIGNED(); va_list l; va_start(l, g); i64 x = va_arg(l, i64); f64 y = va_arg(l, f64); i64 z = va_arg(l, i64); va_end(l); tr(x); tr((i64)y); tr(z); return a+b*2+c*3+d*4+e*5+f*6+g*7; }
/* call through f with known values in the callee-saved registers; 0 if they survive */
extern i64 guarded(void *f, i64 a, i64 b);
__asm__(".text\n.globl guarded\nguarded:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $24,%rsp\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n"
 " mov $0x1111,%rbx\n mov $0x3333,%r12\n mov $0x4444,%r13\n mov $0x5555,%r14\n mov $0x6666,%r15\n mov %rsp,(%rsp)\n lea 8(%rsp),%rbp\n call *%rax\n"
 " cmp %rsp,(%rsp)\n jne 9f\n lea 8(%rsp),%rcx\n cmp %rbp,%rcx\n jne 9f\n cmp $0x1111,%rbx\n jne 9f\n cmp $0x3333,%r12\n jne 9f\n cmp $0x4444,%r13\n jne 9f\n cmp $0x5555,%r14\n jne 9f\n cmp $0x6666,%r15\n jne 9f\n jmp 8f\n9: mov $-99999999,%rax\n8:\n"
 " add $24,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
'''
COMMON_CSP = "".join("type %s: struct { %s };\n" % (n, ", ".join("%s: %s" % m for m in ms)) for n, ms in ST.items()) + '''
extern "C" fn xa(x: i64): i64;
extern "C" fn xq(x: i64): i64;
extern "C" fn xi(x: i32, y: i32): i32;
extern "C" fn xd(x: f64): f64;
extern "C" fn xbig(s: S40, y: i64): i64;
extern "C" fn xs24(x: i64): S24;
extern "C" fn xsdd(x: f64): SDD;
extern "C" fn guarded(f: &void, a: i64, b: i64): i64;
'''
VAR_CSP = '''
extern "C" fn xv(n: i32, args: ...): i64;
extern "C" fn xvd(n: i32, args: ...): f64;
extern "C" fn xv8(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64, g: i64, args: ...): i64;
'''


def chain(sig, ret="i64", nvals=1):
    """C -> csp -> csp -> extern C; the extern records all arguments, the result travels back"""
    ps = ["a%d" % i for i in range(len(sig))]
    decl = ", ".join("%s: %s" % x for x in zip(ps, sig))
    al = ", ".join(ps)
    cdecl = ",".join("%s %s" % (t, p) for t, p in zip(sig, ps)) or "void"
    rv = val(ret, 9)
    rec = " ".join(tr_c(t, p) for t, p in zip(sig, ps))
    csp = 'extern "C" fn x§(%s): %s;\nfn @_k(%s): %s { let l: i64 = 5: i64; let r: %s = x§(%s); tr(l); <- r; }\nfn @(%s): %s = @_k(%s);' % (decl, ret, decl, ret, ret, al, decl, ret, al)
    ref = '%s x§(%s) { ALIGNED(); %s %s r=%s; return r; }\n%s @(%s) { %s r = x§(%s); tr(5); return r; }' % (ret, cdecl, rec, ret, rv, ret, cdecl, ret, ",".join(ps))
    params = [(t, [val(t, k + 1 + 11 * j) for j in range(nvals)]) for k, t in enumerate(sig)]
    return Case("call:%s:%s" % (",".join(sig), ret), params, ret, csp, ref, desc="C -> csp -> csp -> C with (%s): %s" % (", ".join(sig), ret))


def lchain(sig, ret="i64", nvals=1, via=False):
    """the same through a lambda, called where it is or by a function it was passed to"""
    ps = ["a%d" % i for i in range(len(sig))]
    qs = ["b%d" % i for i in range(len(sig))]
    decl = ", ".join("%s: %s" % x for x in zip(ps, sig))
    ldecl = ", ".join("%s: %s" % x for x in zip(qs, sig))
    cdecl = ",".join("%s %s" % (t, p) for t, p in zip(sig, ps)) or "void"
    rec = " ".join(tr_c(t, p) for t, p in zip(sig, ps))
    lam = "|%s| %s => { let m: i64 = 3: i64; let r: %s = x§(%s); tr(m + k); <- r; }" % (ldecl, ret, ret, ", ".join(qs))
    ft = "fn<%s>%s" % (ret, "(%s)" % ", ".join(sig) if sig else "")
    csp = 'extern "C" fn x§(%s): %s;\n' % (decl, ret)
    if via:
        csp += "fn @_k(%s%sf: %s): %s { let l: i64 = 5: i64; let r: %s = f(%s); tr(l); <- r; }\n" % (decl, ", " if decl else "", ft, ret, ret, ", ".join(ps))
        csp += "fn @(%s): %s { let k: i64 = 7: i64; let r: %s = @_k(%s%s%s); tr(k); <- r; }" % (decl, ret, ret, ", ".join(ps), ", " if decl else "", lam)
        trace = "tr(10); tr(5); tr(7);"
    else:
        csp += "fn @(%s): %s { let k: i64 = 7: i64; let f = %s; let r: %s = f(%s); tr(k); <- r; }" % (decl, ret, lam, ret, ", ".join(ps))
        trace = "tr(10); tr(7);"
    ref = '%s x§(%s) { ALIGNED(); %s %s r=%s; return r; }\n%s @(%s) { %s r = x§(%s); %s return r; }' % (ret, cdecl, rec, ret, val(ret, 9), ret, cdecl, ret, ",".join(ps), trace)
    params = [(t, [val(t, k + 1 + 11 * j) for j in range(nvals)]) for k, t in enumerate(sig)]
    return Case("%s:%s:%s" % ("lambdavia" if via else "lambda", ",".join(sig), ret), params, ret, csp, ref, desc="C -> csp -> lambda -> C with (%s): %s" % (", ".join(sig), ret))


def lambdas(thorough):
    allt = SCAL + list(ST)
    for via in (False, True):
        yield lchain([], via=via)
        for t in allt:
            yield lchain([t], t, 3, via)
            for r in (allt if thorough else ("i8", "f32", "S3", "SF12", "SID", "S24")):
                yield lchain([t], r, via=via)
            for u in (allt if thorough else ("i64", "f64", "S16", "SDD", "SDI", "SID", "S24")):
                yield lchain([t, u], via=via)
        cls = ["S8", "S16", "SF8", "SDD", "SDI", "SID", "S24", "i64", "f64"]
        for g in range(0, 8):
            for f in range(0, 10):
                for c in cls if thorough else [cls[(g * 10 + f) % 9], cls[(g * 10 + f + 4) % 9]]:
                    yield lchain(["i64"] * g + ["f64"] * f + [c, "i32", "f32", "i8"], "S24" if f & 1 else "i64", via=via)
        for t in SCAL:
            for n in (6, 7, 8, 9, 12, 20):
                yield lchain([t] * n, t, via=via)


def signatures(thorough):
    allt = SCAL + list(ST)
    yield chain([])
    for t in allt:
        yield chain([t], t, 3)
        for r in allt:
            yield chain([t], r)
    for a in allt:
        for b in allt:
            yield chain([a, b])
    tri = ["i8", "i64", "f32", "S3", "SF12", "SDI", "SID", "S24"] if not thorough else ["i8", "u32", "i64", "f32", "f64", "S3", "S16", "SF8", "SF12", "SDI", "SID", "S24"]
    for s in itertools.product(tri, repeat=3):
        yield chain(list(s))
    # every fill level of the two register files, then every struct class, then scalars again
    cls = ["S8", "S16", "SF8", "SDD", "SDI", "SID", "S24", "i64", "f64"]
    for g in range(0, 8):
        for f in range(0, 10):
            for c in cls:
                yield chain(["i64"] * g + ["f64"] * f + [c, "i32", "f32", "i8"])
    for g in range(0, 8):
        for r in ("S24", "S16", "SDD", "SID"):
            for c in ("S16", "SDI", "i16", "S24"):
                yield chain(["i32"] * g + [c, "i64"], r)
    # scalars of every type in every position of long lists
    for t in SCAL:
        for n in (6, 7, 8, 9, 12, 20):
            yield chain([t] * n, t)
        for pos in range(0, 14):
            s = ["i64"] * 14
            s[pos] = t
            yield chain(s)
            s = ["f64"] * 14
            s[pos] = t
            yield chain(s)


def contexts():
    """call sites: indirect calls, nested calls, calls in the middle of expressions and statements"""
    def add(key, params, ret, csp, ref):
        return Case("ctx:" + key, params, ret, csp, ref)
    P = [("i64", "tiny")]
    forms = ["%s", "1 + %s", "1 + (2 + %s)", "1 + (2 + (3 + %s))", "%s + 1", "(%s + 1) + 2", "%s * %s", "(%s + 1) * (2 - %s)", "(1 - %s) - (2 - (3 - %s))", "xa(%s)", "xa(1 + %s)", "xa(xa(%s) + xa(%s))", "1 + xa(2 + xa(3 + %s))"]
    calls = ["xa(a)", "xs24(a).b", "xbig(S40::{a, 1.5, 7: i8, 2.5: f32, 9}, a)", "((xd(a: f64)): i64)", "((xi(a: i32, 4)): i64)", "xbig(S40::{xa(a), 1.5, 7: i8, 2.5: f32, xa(9)}, xa(3))", "xs24(xs24(a).c).a"]
    ccalls = ["xa(a)", "xs24(a).b", "xbig((S40){a, 1.5, 7, 2.5, 9}, a)", "(i64)xd((f64)a)", "(i64)xi((i32)a, 4)", None, "xs24(xs24(a).c).a"]
    for fm in forms:
        for k, c in enumerate(calls):
            n = fm.count("%s")
            if ccalls[k] is None:
                # evaluation order of several calls is not specified: record each alone
                continue
            if n > 1 and k != 0:
                continue
            e = fm % ((c,) * n)
            ce = fm % ((ccalls[k],) * n)
            if n > 1 or e.count("xa(") > 1:
                pass
            for wrap, cwrap, nm in (("<- E;", "return E;", "ret"), ("let r: i64 = E; <- r;", "i64 r=E; return r;", "let"), ("if E == 0 <- 1; <- 2;", "if((E)==0) return 1; return 2;", "if"),
                                    ("for 0 .. 2 { tr(E); } <- 3;", "tr(E);tr(E); return 3;", "range"), ("match E { 0 => <- 1; _ => <- 2; } <- 0;", "return (E)==0?1:2;", "match"),
                                    ("let q: i64 'c[3]; q[1] = E; <- q[1] + q[0];", "return E;", "elem")):
                yield add("%s:%s" % (nm, e), P, "i64", "fn @(a: i64): i64 { %s }" % wrap.replace("E", e).replace("elsE", "else"), "i64 @(i64 a){ %s }" % cwrap.replace("E", ce))
    # indirect calls
    tgt = "fn @_g(x: i32, y: f64, s: SID, z: i8): i64 { tr(x); tr(y: i64); tr(s.a); tr(s.b: i64); <- z: i64; }\n"
    ctgt = "static i64 @_g(i32 x,f64 y,SID s,i8 z){tr(x);tr((i64)y);tr(s.a);tr((i64)s.b);return z;}\n"
    args = "(a: i32, 2.5, SID::{a, 3.5}, 4: i8)"
    cbody = "i64 @(i64 a){return @_g((i32)a,2.5,(SID){a,3.5},4);}"
    T = "const fn<i64>(i32, f64, SID, i8)"
    M = "fn<i64>(i32, f64, SID, i8)"
    tgt += "fn @_h(x: i32, y: f64, s: SID, z: i8): i64 { tr(99); <- 7: i64; }\n"
    for nm, body, pre in (("direct", "<- @_g%s;" % args, ""), ("local", "let f = @_g; <- f%s;" % args, ""), ("arg", "<- @_a(a, @_g);", "fn @_a(a: i64, f: %s): i64 { <- f%s; }\n" % (T, args)),
                          ("member", "let o = @_o::{1: i8, @_g}; <- o.f%s;" % args, "type @_o: struct { p: i8, f: %s };\n" % T),
                          ("viaptr", "let f = @_g; let p = &f; <- (*p)%s;" % args, ""),
                          ("element", "let t = [@_g, @_g]; <- t[1]%s;" % args, ""),
                          ("ternary", "let f = (if a == 0 => @_g else @_g); <- f%s;" % args, ""),
                          ("returned", "let f = @_r(); <- f%s;" % args, "fn @_r(): %s { <- @_g; }\n" % T),
                          ("lambda", "let f = |x: i32, y: f64, s: SID, z: i8| i64 => { <- @_g(x, y, s, z); }; <- f%s;" % args, ""),
                          ("typed", "let f: %s = @_h; f = @_g; <- f%s;" % (M, args), ""),
                          ("alias", "let f: @_F = @_h; f = @_g; <- f%s;" % args, "type @_F: %s;\n" % M),
                          ("memberset", "let o = @_o::{1: i8, @_h}; o.f = @_g; <- o.f%s;" % args, "type @_o: struct { p: i8, f: %s };\n" % M),
                          ("memberptr", "let o = @_o::{1: i8, @_h}; let p = &o; p.f = @_g; <- p.f%s;" % args, "type @_o: struct { p: i8, f: %s };\n" % M),
                          ("nested", "let o = @_q::{1: i8, @_o::{2: i8, @_h}}; o.o.f = @_g; <- o.o.f%s;" % args, "type @_o: struct { p: i8, f: %s };\ntype @_q: struct { p: i8, o: @_o };\n" % M),
                          ("table", "let t: @_F 'c[3]; t[0] = @_h; t[1] = @_g; t[2] = @_h; <- t[1]%s;" % args, "type @_F: %s;\n" % M),
                          ("tableidx", "let t: @_F 'c[3]; for let i = 0; i < 3; i++; { t[i] = if i == 2 => @_g else @_h; } let k = 2; <- t[k]%s;" % args, "type @_F: %s;\n" % M),
                          ("setptr", "let f: @_F = @_h; let p = &f; *p = @_g; <- f%s;" % args, "type @_F: %s;\n" % M),
                          ("ptrtyped", "let f: @_F = @_g; let p = &f; let q = &p; <- (*(*q))%s;" % args, "type @_F: %s;\n" % M),
                          ("refdirect", "<- (*(&@_g))%s;" % args, ""),
                          ("global", "@_v = @_g; <- @_v%s;" % args, "let @_v: %s;\n" % M),
                          ("globalmember", "@_v.f = @_g; <- @_v.f%s;" % args, "type @_o: struct { p: i8, f: %s };\nlet @_v: @_o;\n" % M),
                          ("argtyped", "<- @_a(1: i8, @_g, 2.5, @_h);", "fn @_a(n: i8, f: %s, d: f64, g: %s): i64 { <- f(a(n, d)); }\n".replace("f(a(n, d))", "f((n: i32) + AA - 1, d, SID::{AA, 3.5}, 4: i8)") % (M, M)),
                          ("call2", "<- @_r(true)%s;" % args, "fn @_r(b: bool): %s { if b <- @_g; <- @_h; }\n" % M),
                          ("pick", "<- @_r(a == a)%s;" % args, "fn @_r(b: bool): %s { let f: %s = @_h; if b f = @_g; <- f; }\n" % (M, M)),
                          ("lambdaarg", "<- @_a(a, |x: i32, y: f64, s: SID, z: i8| i64 => { <- @_g(x, y, s, z); });", "fn @_a(a: i64, f: %s): i64 { <- f%s; }\n" % (M, args)),
                          ("lambdamember", "let o = @_o::{1: i8, |x: i32, y: f64, s: SID, z: i8| i64 => { <- @_g(x, y, s, z); }}; <- o.f%s;" % args, "type @_o: struct { p: i8, f: %s };\n" % M),
                          ("structcopy", "let o = @_o::{1: i8, @_g}; let q = o; o.f = @_h; <- q.f%s;" % args, "type @_o: struct { p: i8, f: %s };\n" % M),
                          ("structret", "<- @_m().f%s;" % args, "type @_o: struct { p: i8, f: %s };\nfn @_m(): @_o { <- @_o::{1: i8, @_g}; }\n" % M),
                          ("closure", "let f: %s = @_g; <- (f)%s;" % (M, args), "")):
        if nm == "argtyped":
            pre, body = pre.replace("(n: i8,", "(AA: i64, n: i8,").replace("AA - 1", "AA: i32 - 1").replace("(n: i32) + AA: i32 - 1", "((n: i64) + AA - 1): i32"), body.replace("(1: i8", "(a, 1: i8")
        yield add("ind:" + nm, P, "i64", tgt + pre + "fn @(a: i64): i64 { %s }" % body, ctgt + cbody)
    # recursion
    yield add("fact", [("i64", [0, 1, 2, 5, 12])], "i64", "fn @(n: i64): i64 { if n <= 1 <- 1; <- n * @(n - 1); }", "i64 @(i64 n){return n<=1?1:n*@(n-1);}")
    yield add("fib", [("i64", [0, 1, 2, 5, 12])], "i64", "fn @(n: i64): i64 { if n < 2 <- n; <- @(n - 1) + @(n - 2); }", "i64 @(i64 n){return n<2?n:@(n-1)+@(n-2);}")
    yield add("mutual", [("i64", [0, 1, 2, 5, 13])], "i64", "fn @_o(n: i64): i64 { if n == 0 <- 0; <- @(n - 1); }\nfn @(n: i64): i64 { if n == 0 <- 1; <- @_o(n - 1); }", "i64 @(i64 n){return !(n&1);}")
    yield add("ack", [("i64", [0, 1, 2, 3]), ("i64", [0, 1, 2, 3])], "i64", "fn @(m: i64, n: i64): i64 { if m == 0 <- n + 1; if n == 0 <- @(m - 1, 1: i64); <- @(m - 1, @(m, n - 1)); }",
              "i64 @(i64 m,i64 n){return m==0?n+1:n==0?@(m-1,1):@(m-1,@(m,n-1));}")
    yield add("structrec", [("i64", [0, 1, 2, 5])], "i64", "fn @_s(n: i64): S24 { if n == 0 <- S24::{0: i64, 1: i64, 2: i64}; let p = @_s(n - 1); <- S24::{p.c, p.a + n, p.b}; }\nfn @(n: i64): i64 { let s = @_s(n); tr(s.a); tr(s.b); <- s.c; }",
              "static S24 @_s(i64 n){if(n==0)return (S24){0,1,2};S24 p=@_s(n-1);return (S24){p.c,p.a+n,p.b};}\ni64 @(i64 n){S24 s=@_s(n);tr(s.a);tr(s.b);return s.c;}")
    # arguments are copies
    for t in ST:
        m, mt = ST[t][0]
        yield add("copy:" + t, [(t, [val(t, 3)])], t, "fn @_c(s: %s): %s { s.%s = 1: %s; <- s; }\nfn @(s: %s): %s { let q = s; @_c(q); <- q; }" % (t, t, m, mt, t, t), "%s @(%s s){return s;}" % (t, t))
        yield add("mod:" + t, [(t, [val(t, 3)])], t, "fn @_c(s: %s): %s { s.%s = 1: %s; <- s; }\nfn @(s: %s): %s { <- @_c(s); }" % (t, t, m, mt, t, t), "%s @(%s s){s.%s=1;return s;}" % (t, t, m))
        yield add("two:" + t, [(t, [val(t, 3)]), (t, [val(t, 5)])], t, "fn @_i(s: %s): %s = s;\nfn @_2(s: %s, r: %s): %s { s.%s = r.%s; <- s; }\nfn @(s: %s, r: %s): %s = @_2(@_i(s), @_i(r));" % (t, t, t, t, t, m, m, t, t, t), "%s @(%s s,%s r){s.%s=r.%s;return s;}" % (t, t, t, m, m))
        yield add("ptr:" + t, [(t, [val(t, 3)])], t, "fn @_c(s: &%s) { s.%s = 1: %s; }\nfn @(s: %s): %s { @_c(&s); <- s; }" % (t, m, mt, t, t), "%s @(%s s){s.%s=1;return s;}" % (t, t, m))
    # callee-saved registers and the stack pointer survive every kind of function
    for nm, body in (("plain", "<- a + b;"), ("call", "<- xq(a) + b;"), ("pipe", "<- a |> xq($) + b;"), ("pipes", "<- a |> xq($) |> xq($) + (b |> xq($));"), ("range", "let s = a; for 0 .. 3 { s += b; } <- s;"), ("rangeret", "for 0 .. 3 { if a == a <- a; } <- b;"),
                     ("struct", "let s = xsdd(a: f64); <- (s.b: i64) + b;"), ("defer", "defer xq(5); <- a;"), ("match", "match a { 0 => <- 1; _ => for 0 .. 2 { <- b; } } <- 2;"), ("else", "<- a else b;"), ("lambda", "let f = |x: i64| i64 => { for 0 .. 4 <- x; <- 0; }; <- f(a) + f(b);"),
                     ("div", "<- a / 3 + b % 7;"), ("shift", "<- (a << 3) >> 2;"), ("cube", "<- a³ + b²;"), ("float", "<- ((a: f64) * 2.0 + (b: f64)): i64;"), ("ternary", "<- (if a == 0 => xq(b) else xq(a));"), ("zero", "let q: i64 'c[20]; <- q[3] + a;")):
        yield add("saved:" + nm, [("i64", [0, 1, 5]), ("i64", [1, 7])], "i64", "fn @_t(a: i64, b: i64): i64 { %s }\nfn @(a: i64, b: i64): i64 { let r = @_t(a, b); if guarded((@_t: &void), a, b) == r <- 1; <- 0; }" % body,
                  "i64 @(i64 a,i64 b){return 1;}")


EXPRS = {
    # name: (statements before, expression, text at top level)
    "param": ("", "a", ""), "local": ("let v: T = a;", "v", ""), "inferred": ("let v = a;", "v", ""), "paren": ("let v = a;", "(v)", ""), "cast": ("", "(a: T)", ""),
    "deref": ("let p = &a;", "*p", ""), "deref2": ("let p = &a; let q = &p;", "*(*q)", ""), "ptr0": ("let p = &a;", "p[0]", ""), "ptr+": ("let v: T 'c[3]; v[2] = a; let p = &v[0]; let i = 2;", "*(p + i)", ""), "ptri": ("let v: T 'c[3]; v[0] = a; let p = &v[1]; let i = 0 - 1;", "p[i]", ""),
    "carray": ("let v: T 'c[3]; v[1] = a;", "v[1]", ""), "carrayi": ("let v: T 'c[4]; v[1] = a; let i = 1;", "v[i]", ""), "carrayback": ("let v: T 'c[4]; v[1] = a; let i = 3;", "v[^i]", ""), "array": ("let v: T[4]; v[1] = a; let i: i8 = 1;", "v[i]", ""),
    "arrayback": ("let v: T[4]; v[3] = a;", "v[^1]", ""), "slice": ("let w: T[4]; w[2] = a; let v: T[] = w; let i: u8 = 2;", "v[i]", ""), "sliceback": ("let w: T[4]; w[2] = a; let v: T[] = w;", "v[^2]", ""), "matrix": ("let v: T[2][3]; let i = 1; v[i][i] = a;", "v[i][^i]", ""),
    "member": ("let s: @_S; s.m = a;", "s.m", "type @_S: struct { x: i8, m: T, z: i8 };\n"), "memberptr": ("let s: @_S; let p = &s; p.m = a;", "p.m", "type @_S: struct { x: i8, m: T, z: i8 };\n"), "memberin": ("let s: @_O; s.o[1].m = a; let i = 1;", "s.o[i].m", "type @_S: struct { x: i8, m: T };\ntype @_O: struct { x: i8, o: @_S 'c[2] };\n"),
    "union": ("let s: @_U; s.m = a;", "s.m", "type @_U: union { x: i8, m: T };\n"), "global": ("@_g = a;", "@_g", "let @_g: T;\n"), "globalarray": ("@_g[1] = a; let i = 1;", "@_g[i]", "let @_g: T[3];\n"),
    "call": ("", "@_c(a)", "fn @_c(x: T): T = x;\n"), "callmember": ("", "@_c(a).m", "type @_S: struct { x: i8, m: T };\nfn @_c(x: T): @_S { let s: @_S; s.m = x; <- s; }\n"), "callptr": ("", "*@_c(&a)", "fn @_c(x: &T): &T = x;\n"), "fnptr": ("let f = @_c;", "f(a)", "fn @_c(x: T): T = x;\n"),
    "lambda": ("let f = |x: T| T => { let z = x; <- z; };", "f(a)", ""), "closure": ("let f = || T => { <- a; };", "f()", ""), "ternary": ("let b: T; let t = 3;", "(if t > 2 => a else b)", ""), "assign": ("let b: T;", "(b = a)", ""), "infix": ("", "(a `@_c` 3)", "fn @_c(x: T, y: i32): T { tr(y: i64); <- x; }\n"),
    "pipe": ("", "(a |> @_c($))", "fn @_c(x: T): T = x;\n"), "deep": ("", "@_c(1, @_c(2, a, 1.5), 2.5)", "fn @_c(y: i32, x: T, z: f32): T = x;\n"),
}


def argexprs():
    """every kind of expression as an argument of every type, in registers and on the stack, evaluated between other arguments"""
    for t in SCAL + list(ST):
        for nm, (st, e, top) in EXPRS.items():
            for pos, pre in enumerate(([], ["i64"] * 5 + ["f64"] * 7, ["i64"] * 6 + ["f64"] * 8)):
                st1, e1, top1 = [re.sub(r"\bT\b", t, x) for x in (st, e, top)]
                sig = pre + [t, "i64", t, "f32"]
                decl = ", ".join("p%d: %s" % (i, x) for i, x in enumerate(sig))
                csp = 'extern "C" fn x§(%s): %s;\n%sfn @(a: %s): %s { %s let r: %s = x§(%s%s, 77: i64, %s, 2.5: f32); <- r; }' % (decl, t, top1, t, t, st1, t, "".join("%d%s: %s, " % (i + 3, ".0" if x == "f64" else "", x) for i, x in enumerate(pre)), e1, e1)
                cdecl = ",".join("%s p%d" % (x, i) for i, x in enumerate(sig))
                ref = "%s x§(%s) { ALIGNED(); %s %s r=%s; return r; }\n" % (t, cdecl, " ".join(tr_c(x, "p%d" % i) for i, x in enumerate(sig)), t, val(t, 9))
                ref += "%s @(%s a) { %s return x§(%s a, 77, a, 2.5f); }" % (t, t, "tr(3); tr(3);" if nm == "infix" else "", "".join("%d," % (i + 3) for i, x in enumerate(pre)))
                yield Case("argexpr:%s:%s:%d" % (nm, t, pos), [(t, [val(t, 1), val(t, 12)])], t, csp, ref, desc="%s of type %s as an argument, %d arguments before it" % (nm, t, len(pre)))


def variadic():
    for n in range(0, 11):
        yield Case("va:xv%d" % n, [("i64", "tiny")], "i64", "fn @(a: i64): i64 = xv(%d%s);" % (n, "".join(", a + %d" % k for k in range(n))), "i64 @(i64 a){return xv(%d%s);}" % (n, "".join(", (i64)(a + %d)" % k for k in range(n))))
        yield Case("va:xvd%d" % n, [("f64", "tiny")], "f64", "fn @(a: f64): f64 = xvd(%d%s);" % (n, "".join(", a + %d.0" % k for k in range(n))), "f64 @(f64 a){return xvd(%d%s);}" % (n, "".join(", (f64)(a + %d)" % k for k in range(n))))
        for t in ("i64", "f64", "i32", "u32", "i8"):
            for named, call in (("n: i32", "%d"), ("n: i32, p: f64", "%d, 1.5"), ("a: i64, b: i64, c: i64, d: i64, e: i64, n: i32", "1: i64, 1: i64, 1: i64, 1: i64, 1: i64, %d")):
                yield Case("va:%d:%s:%s" % (n, t, named), [(t, "tiny")], "i64",
                           "fn @_v(%s, args: ...): i64 { for let i = 0; i < n; i++; { tr(va_arg!{&args, %s}: i64); } <- 1; }\nfn @(a: %s): i64 = @_v(%s%s);" % (named, t, t, call % n, "".join(", ((a + %d): %s)" % (k, t) for k in range(n))),
                           "i64 @(%s a){%s return 1;}" % (t, " ".join("tr((i64)(%s)(a+%d));" % (t, k) for k in range(n))))
    yield Case("va:xv8", [("i64", "tiny")], "i64", "fn @(a: i64): i64 = xv8(a, 2: i64, 3: i64, 4: i64, 5: i64, 6: i64, 7: i64, a, 2.0: f64, a + 1);", "i64 @(i64 a){return xv8(a,2,3,4,5,6,7,a,2.0,a+1);}")


PROP = dict(
    id="C03", title="Calls pass every argument and result intact, per the System V ABI",
    statement="For every signature, a compiled function receives exactly the argument values the caller passed and the caller receives exactly the value returned, whether caller or callee is CSpydr code or foreign C code, whether the call is direct or through a function value, and for scalars, floats and structs of every size and class, in registers or on the stack. At every call the stack is aligned as the platform convention demands, arguments are copies, and callee-saved registers and the stack pointer survive.",
    quantifier=dict(over=["programs", "inputs"], text="all signatures of up to two parameters over 34 types with every return type, triples over representative classes, every fill level of both register files before each struct class, long lists, call contexts and nesting depths"),
    why_tests_cant="The tests call a few functions with one or two i32 arguments; disagreement between caller and callee needs particular mixtures of register classes, sizes and positions.",
    anchors=dict(files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/validator.c"], mechanism="asm_push_args / asm_pop_args / asm_assign_lvar_offsets / asm_copy_struct_reg / asm_copy_ret_buffer"),
    technique="exhaustive bounded enumeration of call signatures and contexts, executed C -> csp -> csp -> C", level="exploration",
    level_note="Each signature's argument tuple goes from gcc-compiled code through two compiled CSpydr functions into gcc-compiled code and the result back; all values are compared. Trusts gcc as the definition of the System V ABI. x87 80-bit floats are not covered.")


def run(chk, repo):
    explore(chk, repo, signatures(chk.thorough), batch=150, common_csp=COMMON_CSP, common_c=COMMON_C)
    explore(chk, repo, lambdas(chk.thorough), batch=150, common_csp=COMMON_CSP, common_c=COMMON_C)
    explore(chk, repo, argexprs(), batch=100, common_csp=COMMON_CSP, common_c=COMMON_C)
    explore(chk, repo, contexts(), batch=60, common_csp=COMMON_CSP, common_c=COMMON_C)
    explore(chk, repo, variadic(), batch=30, common_csp='import "utils.csp";\n' + COMMON_CSP + VAR_CSP, common_c=COMMON_C)
    chk.cov["rule"] = "one program per (parameter list, return type) or (call context); distinct_nontrivial counts distinct (result, recorded arguments) hashes"
    chk.cov["exhaustive"] = True
