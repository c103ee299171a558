"""C14 - interfaces: calls through dyn objects run the implementation of the object they point to."""
import itertools
import core
import verdict
from cases import Case, explore
from c03 import ST, SCAL, COMMON_C, val, tr_c

COMMON_CSP = "".join("type %s: struct { %s };\n" % (n, ", ".join("%s: %s" % m for m in ms)) for n, ms in ST.items())


def sig(ps, ret, nvals=1):
    """one method with these parameters and this return type, called through a dyn object in a local and in a parameter"""
    ns = ["a%d" % i for i in range(len(ps))]
    decl = ", ".join("%s: %s" % x for x in zip(ns, ps))
    cdecl = ",".join("%s %s" % (t, n) for t, n in zip(ps, ns)) or "void"
    rec = " ".join(tr_c(t, n) for t, n in zip(ps, ns))
    c = ", " if ps else ""
    csp = 'extern "C" fn x§(%s): %s;\ntype @_I: interface { fn a(p: &@_I): i64, fn m(p: &@_I%s%s): %s, fn z(p: &@_I): i64, };\ntype @_P: struct { k: i8, z: i64 };\n' % (decl, ret, c, decl, ret)
    csp += 'namespace @_n { dyn(@_I) fn z(p: &@_P): i64 = p.z - 1; dyn(@_I) fn m(p: &@_P%s%s): %s { tr(p.z); p.z = 9: i64; let r: %s = x§(%s); tr(p.z); <- r; } dyn(@_I) fn a(p: &@_P): i64 = p.z + 1; }\n' % (c, decl, ret, ret, ", ".join(ns))
    csp += 'fn @_f(%s%sd: dyn @_I): %s { let l: i64 = 5: i64; let r: %s = d.m(%s); tr(l + d.z()); <- r; }\n' % (decl, c, ret, ret, ", ".join(ns))
    csp += 'fn @(%s): %s { let o = @_P::{1: i8, 42}; let d: dyn @_I = &o; let l: i64 = 7: i64; let r: %s = @_f(%s%sd); tr(l + d.a()); o.z = 43: i64; let r2: %s = d.m(%s); tr(o.z); <- r; }' % (decl, ret, ret, ", ".join(ns), c, ret, ", ".join(ns))
    ref = '%s x§(%s) { ALIGNED(); %s %s r=%s; return r; }\n' % (ret, cdecl, rec, ret, val(ret, 9))
    al = ",".join(ns)
    ref += '%s @(%s) { tr(42); %s r = x§(%s); tr(9); tr(13); tr(17); tr(43); x§(%s); tr(9); tr(9); return r; }' % (ret, cdecl, ret, al, al)
    params = [(t, [val(t, k + 1 + 11 * j) for j in range(nvals)]) for k, t in enumerate(ps)]
    return Case("sig:%s:%s" % (",".join(ps), ret), params, ret, csp, ref, desc="a method with (%s): %s called through a dyn object" % (", ".join(ps), ret))


def signatures(thorough):
    allt = SCAL + list(ST)
    yield sig([], "i64")
    for t in allt:
        yield sig([], t)
        yield sig([t], t, 3)
        for r in (allt if thorough else ("i8", "f32", "S3", "SF12", "SID", "S24")):
            yield sig([t], r)
        for u in (allt if thorough else ("i64", "f64", "S16", "SDD", "SDI", "SID", "S24")):
            yield sig([t, u], "i64")
    cls = ["S8", "S16", "SF8", "SDD", "SDI", "SID", "S24", "i64", "f64"]
    for g in range(0, 7):
        for f in range(0, 10):
            for c in (cls if thorough else [cls[(g * 10 + f) % 9]]):
                yield sig(["i64"] * g + ["f64"] * f + [c, "i32", "f32", "i8"], "S24" if f & 1 else "i64")


def tables():
    """interfaces with 1..4 methods, the implementations written in every order, by two types, all of them called"""
    for n in range(1, 5):
        for k, o1 in enumerate(itertools.permutations(range(n))):
            for o2 in ([tuple(range(n))] if k else list(itertools.permutations(range(n)))):
                decl = ", ".join("fn m%d(p: &@_I, x: i64): i64" % i for i in range(n))
                csp = "type @_I: interface { %s, };\ntype @_P: struct { a: i64 };\ntype @_Q: struct { z: i32, a: i64 };\n" % decl
                csp += "namespace @_n { %s }\n" % " ".join("dyn(@_I) fn m%d(p: &@_P, x: i64): i64 = p.a * 10: i64 + %d: i64 + x;" % (i, i) for i in o1)
                csp += "namespace @_q { %s }\n" % " ".join("dyn(@_I) fn m%d(p: &@_Q, x: i64): i64 = p.a * 100: i64 + %d: i64 + x;" % (i, i + 5) for i in o2)
                csp += "fn @_f(d: dyn @_I, e: dyn @_I) { %s }\n" % " ".join("tr(d.m%d(1000: i64)); tr(e.m%d(2000: i64));" % (i, i) for i in range(n))
                csp += "fn @(a: i64): i64 { let p = @_P::{a}; let q = @_Q::{3, a + 1: i64}; @_f(&p, &q); @_f(&q, &p); let d: dyn @_I = &q; p.a = 4: i64; <- d.m%d(0: i64); }" % (n - 1)
                ref = "i64 @(i64 a) { %s %s return (a+1)*100+%d; }" % (" ".join("tr(a*10+%d+1000);tr((a+1)*100+%d+2000);" % (i, i + 5) for i in range(n)), " ".join("tr((a+1)*100+%d+1000);tr(a*10+%d+2000);" % (i + 5, i) for i in range(n)), n + 4)
                yield Case("table:%s:%s" % ("".join(map(str, o1)), "".join(map(str, o2))), [("i64", [0, 3, -5])], "i64", csp, ref, desc="methods implemented in the order %s / %s" % (o1, o2))


DECL = '''type @_I: interface { fn get(p: &@_I): i64, fn set(p: &@_I, x: i64), };
type @_D: dyn @_I;
type @_P: struct { a: i64 };
type @_Q: struct { z: i8, a: i64, y: i8 };
namespace @_n { dyn(@_I) fn get(p: &@_P): i64 = p.a; dyn(@_I) fn set(p: &@_P, x: i64) { p.a = x; } }
namespace @_q { dyn(@_I) fn set(p: &@_Q, x: i64) { p.a = x * 2: i64; } dyn(@_I) fn get(p: &@_Q): i64 = p.a + 1: i64; }
'''


def histories(depth):
    """all sequences of operations on two dyn variables and two objects"""
    ops = {
        "d=p": ("d = &p;", "d=0;"), "d=q": ("d = &q;", "d=1;"), "e=d": ("e = d;", "e=d;"), "d=e": ("d = e;", "d=e;"),
        "dset": ("d.set(c); c += 1: i64;", "SET(d,c); c++;"), "eget": ("tr(e.get());", "tr(GET(e));"), "p=c": ("p.a = c + 50: i64;", "o[0]=c+50;"),
    }
    ref = "#define SET(w,v) o[w]=(w)?(v)*2:(v)\n#define GET(w) (o[w]+(w))\n"
    for h in itertools.product(ops, repeat=depth):
        csp = DECL + "fn @(c: i64): i64 { let p = @_P::{10: i64}; let q = @_Q::{1: i8, 20: i64, 1: i8}; let d: dyn @_I = &p; let e: dyn @_I = &q; %s tr(d.get()); tr(e.get()); tr(p.a); <- q.a; }" % " ".join(ops[o][0] for o in h)
        cr = ref + "i64 @(i64 c) { i64 o[2]={10,20}; int d=0,e=1; %s tr(GET(d)); tr(GET(e)); tr(o[0]); return o[1]; }\n#undef SET\n#undef GET\n" % " ".join(ops[o][1] for o in h)
        yield Case("history:" + " ".join(h), [("i64", [100])], "i64", csp, cr, desc="dyn variables after " + " ".join(h))


def storage(backend):
    def add(key, body, extra="", want="a + 1000 * (b + 1)"):
        csp = DECL + extra + "fn @(a: i64, b: i64): i64 { let p = @_P::{a}; let q = @_Q::{1: i8, b, 1: i8}; %s }" % body
        return Case("storage:" + key, [("i64", [1, 5]), ("i64", [2, 7])], "i64", csp, "i64 @(i64 a,i64 b) { return %s; }" % want, desc="dyn object: " + key)
    R = "<- %s.get() + %s.get() * 1000: i64;"
    yield add("locals", "let d: dyn @_I = &p; let e: dyn @_I = &q; " + R % ("d", "e"))
    yield add("cast", "let d = &p: dyn @_I; let e = &q: dyn @_I; " + R % ("d", "e"))
    yield add("castdirect", R % ("(&p: dyn @_I)", "(&q: dyn @_I)"))
    yield add("assigned", "let d: dyn @_I; let e: dyn @_I; e = &q; d = &p; " + R % ("d", "e"))
    yield add("copied", "let e: dyn @_I = &p; let d = e; e = &q; " + R % ("d", "e"))
    yield add("alias", "let d: @_D = &p; let e: @_D = &q; " + R % ("d", "e"))
    yield add("global", "@_g = &p; @_h = &q; " + R % ("@_g", "@_h"), "let @_g: dyn @_I; let @_h: dyn @_I;\n")
    yield add("member", "let s: @_S; s.x = 1: i8; s.z = 2: i8; s.d = &p; s.e = &q; if s.x != 1: i8 || s.z != 2: i8 { <- 0; } " + R % ("s.d", "s.e"), "type @_S: struct { x: i8, d: dyn @_I, z: i8, e: dyn @_I };\n")
    yield add("memberlit", "let s = @_S::{1: i8, &p, 2: i8, &q}; let t = s; " + R % ("t.d", "s.e"), "type @_S: struct { x: i8, d: dyn @_I, z: i8, e: dyn @_I };\n")
    yield add("memberptr", "let s = @_S::{1: i8, &p, 2: i8, &q}; let t = &s; " + R % ("t.d", "(*t).e"), "type @_S: struct { x: i8, d: dyn @_I, z: i8, e: dyn @_I };\n")
    yield add("carray", "let s: @_D 'c[3]; s[0] = &p; s[2] = &q; s[1] = s[0]; let i = 2; " + R % ("s[1]", "s[i]"))
    yield add("array", "let s: @_D[3]; s[0] = &p; s[2] = &q; s[1] = s[0]; let i = 2; " + R % ("s[1]", "s[i]"))
    yield add("pointer", "let d: dyn @_I = &p; let e: dyn @_I = &q; let x = &d; let y = &e; " + R % ("(*x)", "(*y)"))
    yield add("pointerdot", "let d: dyn @_I = &p; let e: dyn @_I = &q; let x = &d; let y = &e; " + R % ("x", "y"))
    yield add("returned", R % ("@_mk(&p)", "@_mq(&q)"), "fn @_mk(p: &@_P): dyn @_I = p; fn @_mq(p: &@_Q): dyn @_I { <- p; }\n")
    yield add("returnedlocal", "let d = @_mk(&p); let e = @_mq(&q); " + R % ("d", "e"), "fn @_mk(p: &@_P): dyn @_I = p; fn @_mq(p: &@_Q): dyn @_I { <- p; }\n")
    yield add("returnedstruct", "let s = @_mk(&p, &q); " + R % ("s.d", "s.e"), "type @_S: struct { d: dyn @_I, e: dyn @_I };\nfn @_mk(p: &@_P, q: &@_Q): @_S = @_S::{p, q};\n")
    yield add("forwarded", "<- @_f(&p, &q);", "fn @_g(e: dyn @_I, d: dyn @_I): i64 = d.get() + e.get() * 1000: i64; fn @_f(d: dyn @_I, e: dyn @_I): i64 { <- @_g(e, d); }\n")
    for n in range(0, 8):
        ints = ", ".join("x%d: i32" % i for i in range(n))
        yield add("param%d" % n, "<- @_f(%s&p, 5, 2.5, &q);" % "".join("%d, " % i for i in range(n)), "fn @_f(%sd: dyn @_I, y: i32, z: f32, e: dyn @_I): i64 { %s tr(y: i64); tr(z: i64); <- d.get() + e.get() * 1000: i64; }\n" % (ints + (", " if n else ""), " ".join("tr(x%d: i64);" % i for i in range(n))), "(%s tr(5), tr(2), a + 1000 * (b + 1))" % " ".join("tr(%d)," % i for i in range(n)))
    yield add("branches", "let d: dyn @_I = &q; if a > b { d = &p; } <- d.get();", want="a > b ? a : b + 1")
    yield add("ternary", "let d: dyn @_I = &p; let e: dyn @_I = &q; let f = if a > b => d else e; <- f.get();", want="a > b ? a : b + 1")
    yield add("loop", "let s: @_D 'c[2]; s[0] = &p; s[1] = &q; let r: i64 = 0; for let i = 0; i < 4; i++; { s[i % 2].set(s[i % 2].get() + 1: i64); r = r * 10: i64 + s[i % 2].get(); } <- r;", want="({ i64 A=a,B=b,r=0; for(int i=0;i<4;i++){ if(i%2){ B=(B+2)*2; r=r*10+B+1; } else { A=A+1; r=r*10+A; } } r; })")
    yield add("method", "let d: dyn @_I = &p; let f = d.get; <- f(&p) + d.get() * 1000: i64;", want="a + a * 1000")
    yield add("uncast", "let d: dyn @_I = &p; let x: &@_P = d; x.a = x.a + 3: i64; <- d.get() + p.a * 1000: i64;", want="(a + 3) * 1001")
    yield add("size", "<- sizeof dyn @_I;", want="16")
    yield add("two", "let d: dyn @_I = &p; let e: dyn @_J = &p; <- d.get() + e.get() * 1000: i64;", "type @_J: interface { fn set(p: &@_J, x: i64, y: i64): i64, fn get(p: &@_J): i64, };\nnamespace @_j { dyn(@_J) fn get(p: &@_P): i64 = 0: i64 - p.a; dyn(@_J) fn set(p: &@_P, x: i64, y: i64): i64 { <- p.a + x + y; } }\n", "a - a * 1000")
    yield add("arg", "let d: dyn @_I = &p; let e: dyn @_J = &q; <- e.sum(d);", "type @_J: interface { fn sum(p: &@_J, x: dyn @_I): i64, };\nnamespace @_j { dyn(@_J) fn sum(p: &@_Q, x: dyn @_I): i64 = x.get() + p.a * 1000: i64; }\n", "a + b * 1000")
    if backend != "C":
        yield add("lambda", "let d: dyn @_I = &p; let e: dyn @_I = &q; let l = || i64 => { <- d.get() + e.get() * 1000: i64; }; <- l();")
        yield add("lambdaarg", "let l = |d: dyn @_I, x: i8, e: dyn @_I| i64 => { tr(x: i64); <- d.get() + e.get() * 1000: i64; }; <- l(&p, 3: i8, &q);", want="(tr(3), a + 1000 * (b + 1))")


def bases():
    """every kind of type can implement an interface"""
    for t in SCAL + ["char"]:
        if t == "bool":
            continue
        csp = "type @_I: interface { fn get(p: &@_I): i64, fn add(p: &@_I, k: i64), };\nnamespace @_n { dyn(@_I) fn get(p: &%s): i64 = *p: i64; dyn(@_I) fn add(p: &%s, k: i64) { *p = (*p + (k: %s)): %s; } }\n" % (t, t, t, t)
        csp += "fn @_f(d: dyn @_I): i64 { d.add(3: i64); <- d.get(); }\nfn @(a: i64): i64 { let x: %s = a: %s; let y: i64 = 77: i64; let r = @_f(&x); tr(y); tr((x: i64)); <- r; }" % (t, t)
        yield Case("base:" + t, [("i64", [0, 5, 100])], "i64", csp, "i64 @(i64 a) { tr(77); tr(a + 3); return a + 3; }", desc="%s implements an interface" % t)
    for n, ms in ST.items():
        m, mt = ms[-1]
        csp = "type @_I: interface { fn get(p: &@_I): i64, };\nnamespace @_n { dyn(@_I) fn get(p: &%s): i64 = p.%s: i64; }\nfn @_f(d: dyn @_I): i64 = d.get();\nfn @(a: i64): i64 { let x: %s; x.%s = a: %s; <- @_f(&x); }" % (n, m, n, m, mt)
        yield Case("base:" + n, [("i64", [0, 5, 100])], "i64", csp, "i64 @(i64 a) { return a; }", desc="%s implements an interface" % n)
    # all types of a set implement the same interface
    ts = ["i8", "i32", "i64", "f64", "u16", "S24"]
    for sub in itertools.permutations(ts, 3):
        csp = "type @_I: interface { fn get(p: &@_I): i64, };\n" + "".join("namespace @_n%d { dyn(@_I) fn get(p: &%s): i64 = (p%s: i64) * %d: i64; }\n" % (i, t, ".a" if t in ST else "[0]", i + 2) for i, t in enumerate(sub))
        csp += "fn @_f(d: dyn @_I): i64 = d.get();\nfn @(a: i64): i64 { %s <- %s; }" % (" ".join("let x%d: %s; x%d%s = a: %s;" % (i, t, i, ".a" if t in ST else "", "i64" if t in ST else t) for i, t in enumerate(sub)), " + ".join("@_f(&x%d) * %d: i64" % (i, 100 ** i) for i in range(3)))
        yield Case("bases:" + ",".join(sub), [("i64", [0, 5, 100])], "i64", csp, "i64 @(i64 a) { return a*2+a*300+a*40000; }", desc="%s implement the same interface" % ", ".join(sub))


def verdicts():
    """which implementations and uses are accepted"""
    out = []
    H = "type I: interface { fn m(p: &I, a: %s): %s, fn k(p: &I), }; type P: struct { a: i32 }; type Q: struct { b: i64 };"
    ts = ["i32", "i64", "f64", "&i8", "P", "dyn J", "u32", "En"]
    J = "type J: interface { fn x(p: &J), }; type En: enum { A, B = 5, C };"
    ret = {"i32": "0", "i64": "0: i64", "f64": "0: f64", "&i8": "nil: &i8", "P": "P::{1}", "dyn J": None, "u32": "0: u32", "En": "En::B"}
    for a in ts:
        for r in ts:
            if ret[r] is None:
                continue
            for a2 in ts:
                for r2 in ts:
                    if ret[r2] is None or (a != a2 and r != r2):
                        continue
                    src = J + H % (a, r) + " dyn(I) fn m(_p: &P, _a: %s): %s { <- %s; } dyn(I) fn k(_p: &P) { } fn main(): i32 { let p = P::{1}; let d: dyn I = &p; d.k(); <- 0; }" % (a2, r2, ret[r2])
                    out.append(("impl:%s:%s/%s:%s" % (a, r, a2, r2), src, a == a2 and r == r2))
    B = H % ("i32", "i32") + " dyn(I) fn m(_p: &P, _a: i32): i32 { <- 0; } %s fn main(): i32 { let p = P::{1}; let q = Q::{1: i64}; let d: dyn I = &p; %s <- 0; }"
    K = "dyn(I) fn k(_p: &P) { }"
    for key, extra, body, ok in [
            ("plain", K, "d.k();", True), ("missing", "", "", False), ("unknown", K + " dyn(I) fn n(_p: &P) { }", "", False), ("argcount", "dyn(I) fn k(_p: &P, _a: i32) { }", "", False),
            ("noself", "dyn(I) fn k() { }", "", False), ("selfvalue", "dyn(I) fn k(_p: P) { }", "", False), ("twice", K + " namespace n { %s }" % K, "", False), ("nointerface", K + " dyn(P) fn z(_p: &P) { }", "", False),
            ("othertype", K, "d = &q;", False), ("value", K, "d = p;", False), ("nomember", K, "d.z();", False), ("nodata", K, "d.a = 3;", False), ("callargs", K, "d.m();", False), ("callargs2", K, "d.m(1, 2);", False),
            ("calltype", K, "d.m(p);", False), ("result", K, "let x: i32 = d.m(1); p.a = x;", True), ("resultvoid", K, "let x: i32 = d.k(); p.a = x;", False), ("null", K, "d = nil;", False), ("castback", K, "let x: &P = d; x.a = 1;", True),
            ("castint", K, "let x: i64 = d; q.b = x;", False), ("interfacevalue", K, "let x: I; x.k();", False), ("interfaceptr", K, "let x: &I; x.k();", False), ("dynofstruct", K, "let x: dyn P = &p; d.k();", False), ("compare", K, "if d == d { <- 1; }", False), ("arith", K, "d + 1;", False)]:
        out.append(("use:" + key, B % (extra, body), ok))
    return out


PROP = dict(
    id="C14", title="Calls through dyn objects run the implementation of the object they point to",
    statement="A dyn object made from a pointer keeps the pointer and the implementations of its type: every method called on it, directly or after being stored in locals, globals, members, arrays or copies, passed as any argument, returned or captured, runs the implementation for the type of the object it was last assigned from, with that object and with arguments and results of every type. Implementations can be written in any order; missing, unknown or differently declared implementations and dyn objects of types that do not implement the interface are rejected. Both compiler backends agree.",
    quantifier=dict(over=["programs", "inputs", "histories"], text="methods of every signature of 1-2 types out of 34 and of every register fill level; all orders of up to 4 implementations; all operation histories of two dyn variables up to a depth; every implementing type; all pairs of declared and implemented signatures"),
    why_tests_cant="The repository only has one example with an interface, for the C backend; registers, vtable order, copies and storage need systematic programs.",
    anchors=dict(files=["src/compiler/ast/vtable.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c", "src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c"], mechanism="ND_DYNCAST, ND_DYNUNCAST, member access on TY_DYN, vtables, validate_dyn_function, validate_vtable"),
    technique="exhaustive enumeration of a bounded space of programs and of operation histories; the compiled code (both backends) is run on all inputs and compared with an independent reference, verdicts with an independent acceptance rule", level="exploration",
    level_note="Every program and history of the bounded space is compiled and run; no sampling.")


def run(chk, repo):
    th = chk.thorough
    for be in ("asm", "C"):
        t = dict(tag="c14" + be)
        if be == "C":
            t["backend"] = "C"
        def ex(cs, batch):
            cs = list(cs)
            for c in cs:
                c.key = "%s/%s" % (be, c.key)
            explore(chk, repo, cs, batch=batch, common_csp=COMMON_CSP, common_c=COMMON_C, **t)
        ex(signatures(th), 100)
        ex(tables(), 60)
        ex(storage(be), 20)
        ex(bases(), 60)
        for d in ((1, 2, 3) if not th else (1, 2, 3, 4)):
            ex(histories(d), 60)
    verdict.explore(chk, repo, verdicts(), "c14v")
    chk.cov["rule"] = "one program per signature, method table, storage form, base type, history (and backend); distinct_nontrivial counts distinct (result, trace) hashes"
    chk.cov["exhaustive"] = True
