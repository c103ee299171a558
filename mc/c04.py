"""C04 - memory: layout, copies, arrays, pointers; every type of a bounded family in every context, and all short operation sequences."""
import itertools
import core
from cases import *

PR = ["i8", "i16", "i32", "i64", "f32", "f64"]
BASE = list(INT) + ["f32", "f64"]


class T:
    """type descriptor; kinds: prim, struct, union, carr (C array), arr (array with length)"""

    def __init__(self, kind, name=None, fields=None, base=None, n=0):
        self.kind, self.name, self.fields, self.base, self.n = kind, name, fields, base, n

    def __str__(self):
        if self.kind == "prim":
            return self.name
        if self.kind in ("struct", "union"):
            return ("U" if self.kind == "union" else "S") + "(" + ",".join(str(t) for t in self.fields) + ")"
        return "%s%s%d" % (self.base, "c" if self.kind == "carr" else "x", self.n)


def P(n):
    return T("prim", n)


def S(*f):
    return T("struct", fields=[P(x) if isinstance(x, str) else x for x in f])


def A(base, n, c=False):
    return T("carr" if c else "arr", base=P(base) if isinstance(base, str) else base, n=n)


class Decl:
    """declares descriptors as csp and C types; names start with @"""

    def __init__(self):
        self.csp, self.c, self.k = "", "", 0
        self.names = {}

    def use(self, t):
        """-> name usable in csp and C"""
        key = str(t)
        if t.kind == "prim":
            return t.name
        if key in self.names:
            return self.names[key]
        nm = "@_T%d" % self.k
        self.k += 1
        if t.kind in ("struct", "union"):
            fs = [(("m%d" % i), self.use(f)) for i, f in enumerate(t.fields)]
            self.csp += "type %s: %s { %s };\n" % (nm, t.kind, ", ".join("%s: %s" % x for x in fs))
            self.c += "typedef %s { %s } %s;\n" % (t.kind, " ".join("%s %s;" % (b, a) for a, b in fs), nm)
        else:
            b = self.use(t.base)
            self.csp += "type %s: %s%s[%d];\n" % (nm, b, " 'c" if t.kind == "carr" else "", t.n)
            self.c += "typedef %s %s[%d];\n" % (b, nm, t.n)
        self.names[key] = nm
        return nm


def leaves(t, e):
    if t.kind == "prim":
        yield e, t.name
    elif t.kind == "struct":
        for i, f in enumerate(t.fields):
            yield from leaves(f, e + ".m%d" % i)
    elif t.kind == "union":
        yield from leaves(t.fields[0], e + ".m0")
    else:
        for i in range(t.n):
            yield from leaves(t.base, "%s[%d]" % (e, i))


def fill(t, e, seed):
    cs = cc = ""
    for k, (x, p) in enumerate(leaves(t, e)):
        cs += "%s = (a + %d): %s; " % (x, seed + k, p)
        cc += "%s=(%s)(a+%d); " % (x, p, seed + k)
    return cs, cc


def dump(t, e):
    cs = cc = ""
    for x, p in leaves(t, e):
        if p in ("f32", "f64"):
            cs += "tr((%s * 2.0): i64); " % x
            cc += "tr((i64)(%s*2)); " % x
        else:
            cs += "tr(%s: i64); " % x
            cc += "tr((i64)%s); " % x
    return cs, cc


def lit(t, seed):
    """aggregate literal -> csp, C"""
    if t.kind == "prim":
        return "(a + %d): %s" % (seed, t.name), "(%s)(a+%d)" % (t.name, seed), seed + 1
    sub = t.fields if t.kind == "struct" else [t.base] * t.n
    xs, ys = [], []
    for f in sub:
        x, y, seed = lit(f, seed)
        xs.append(x)
        ys.append(y)
    return ("%%s::{%s}" if t.kind == "struct" else "[%s]") % ", ".join(xs), "{%s}" % ",".join(ys), seed


def litn(t, d, seed):
    if t.kind == "prim":
        return "(a + %d): %s" % (seed, t.name), "(%s)(a+%d)" % (t.name, seed), seed + 1
    sub = t.fields if t.kind == "struct" else [t.base] * t.n
    xs, ys = [], []
    for f in sub:
        x, y, seed = litn(f, d, seed)
        xs.append(x)
        ys.append(y)
    return ("%s::{%s}" % (d.use(t), ", ".join(xs)) if t.kind == "struct" else "[%s]" % ", ".join(xs)), "{%s}" % ",".join(ys), seed


PAR = [("i32", [0, -1, 100, 40000, -70000])]


def mk(key, t, body, extra=None, par=PAR):
    """body(d, n) -> (csp stmts, c stmts) ; extra(d, n) -> (csp top level, c top level)"""
    d = Decl()
    n = d.use(t)
    b = body(d, n)
    ex = extra(d, n) if extra else ("", "")
    ps = ", ".join("%s: %s" % ("abc"[i], p[0]) for i, p in enumerate(par))
    cps = ",".join("%s %s" % (p[0], "abc"[i]) for i, p in enumerate(par))
    return Case("%s:%s" % (key, t), par, "i64", d.csp + ex[0] + "fn @(%s): i64 { %s <- 7; }" % (ps, b[0]), d.c + ex[1] + "i64 @(%s){ %s return 7; }" % (cps, b[1]))


def cat(*parts):
    """parts: (csp, c) tuples or a string used for both"""
    return "".join(p if isinstance(p, str) else p[0] for p in parts), "".join(p if isinstance(p, str) else p[1] for p in parts)


def decl(n, v, init=None):
    if init:
        return "let %s = %s; " % (v, init), "%s %s=%s; " % (n, v, init)
    return "let %s: %s; " % (v, n), "%s %s; memset((void*)&%s,0,sizeof %s); " % (n, v, v, v)


def contexts(t):
    """a value of type t in every context: stored, copied, passed, returned, nested"""
    F, D = lambda e, s=0: fill(t, e, s), lambda e: dump(t, e)
    yield mk("loc", t, lambda d, n: cat(decl(n, "s"), D("s"), F("s"), D("s")))
    yield mk("nbr", t, lambda d, n: cat("let p: i8 = 77; " if 0 else ("let p = 77: i8; ", "i8 p=77; "), decl(n, "s"), ("let q = 88: i8; ", "i8 q=88; "), F("s"), "tr(p); tr(q); ", D("s")))
    if t.kind in ("struct", "union"):
        yield mk("cpinit", t, lambda d, n: cat(decl(n, "s"), F("s"), decl(n, "t", "s"), F("s", 50), D("t"), D("s")))
        yield mk("cpasg", t, lambda d, n: cat(decl(n, "s"), decl(n, "t"), F("s"), "t = s; ", F("s", 50), D("t"), D("s")))
        yield mk("cpself", t, lambda d, n: cat(decl(n, "s"), F("s"), "s = s; ", D("s")))
        yield mk("swap", t, lambda d, n: cat(decl(n, "s"), decl(n, "t"), F("s"), F("t", 50), decl(n, "u", "s"), "s = t; t = u; ", D("s"), D("t")))
        yield mk("ptrw", t, lambda d, n: cat(decl(n, "s"), decl(n, "t"), F("s"), ("let p = &t; ", "%s *p=&t; " % n), "*p = s; ", F("s", 50), D("t"), D("s")))
        yield mk("ptrr", t, lambda d, n: cat(decl(n, "s"), F("s"), ("let p = &s; let t = *p; ", "%s *p=&s; %s t=*p; " % (n, n)), F("s", 50), D("t"), D("(*p)")))
        yield mk("ptr2", t, lambda d, n: cat(decl(n, "s"), F("s"), ("let p = &s; let q = &p; let t = *(*q); ", "%s *p=&s,**q=&p; %s t=**q; " % (n, n)), F("s", 50), D("t")))
        yield mk("tern", t, lambda d, n: cat(decl(n, "s"), decl(n, "t"), F("s"), F("t", 50), ("let u = (if a > 0 => s else t); ", "%s u=a>0?s:t; " % n), F("s", 90), D("u")))
        yield mk("ret", t, lambda d, n: cat(("let s = @_r(a); let t = @_r(a + 9); ", "%s s=@_r(a),t=@_r(a+9); " % n), D("s"), D("t")),
                 lambda d, n: cat(("fn @_r(a: i32): %s { " % n, "%s @_r(i32 a){ " % n), decl(n, "x"), F("x"), ("<- x; }\n", "return x; }\n")))
        yield mk("retp", t, lambda d, n: cat(decl(n, "s"), F("s"), ("let t = @_r(&s); ", "%s t=@_r(&s); " % n), F("s", 50), D("t")),
                 lambda d, n: ("fn @_r(p: &%s): %s { <- *p; }\n" % (n, n), "%s @_r(%s *p){ return *p; }\n" % (n, n)))
        yield mk("arg", t, lambda d, n: cat(decl(n, "s"), F("s"), "tr(@_r(5, s, 6)); ", D("s")),
                 lambda d, n: cat(("fn @_r(y: i64, x: %s, z: i64): i64 { let a = 1000; " % n, "i64 @_r(i64 y,%s x,i64 z){ i32 a=1000; " % n), D("x"), F("x", 30), D("x"), ("<- y * 10 + z; }\n", "return y*10+z; }\n")))
        yield mk("argpass", t, lambda d, n: cat(decl(n, "s"), F("s"), ("let t = @_q(s); ", "%s t=@_q(s); " % n), D("s"), D("t")),
                 lambda d, n: cat(("fn @_r(x: %s): %s { let a = 500; " % (n, n), "%s @_r(%s x){ i32 a=500; " % (n, n)), F("x"), ("<- x; }\nfn @_q(x: %s): %s { let r = @_r(x); let z = x; <- z; }\n" % (n, n), "return x; }\n%s @_q(%s x){ @_r(x); return x; }\n" % (n, n))))
        yield mk("byp", t, lambda d, n: cat(decl(n, "s"), "@_r(&s); ", D("s")),
                 lambda d, n: cat(("fn @_r(p: &%s): void { let a = 300; " % n, "void @_r(%s *p){ i32 a=300; " % n), F("(*p)"), "}\n"))
        yield mk("lit", t, lambda d, n: (lambda l: cat(("let s = %s; " % l[0], "%s s=%s; " % (n, l[1])), D("s")))(litn(t, d, 0))) if t.kind == "struct" and not has_arr(t) else None
        yield mk("litasg", t, lambda d, n: (lambda l: cat(decl(n, "s"), F("s", 50), ("s = %s; " % l[0], "{%s q=%s; s=q;} " % (n, l[1])), D("s")))(litn(t, d, 0))) if t.kind == "struct" and not has_arr(t) else None
        yield mk("retlit", t, lambda d, n: (lambda l: cat(("let s = @_r(a); ", "%s s=@_r(a); " % n), D("s")))(0),
                 lambda d, n: (lambda l: ("fn @_r(a: i32): %s = %s;\n" % (n, l[0]), "%s @_r(i32 a){ %s q=%s; return q; }\n" % (n, n, l[1])))(litn(t, d, 0))) if t.kind == "struct" and not has_arr(t) else None
        # a member of a returned struct, of a literal
        x0, p0 = next(leaves(t, "@_r(a)"))
        if p0 in INT:
            yield mk("retmem", t, lambda d, n: ("tr(%s: i64); " % x0, "tr(%s); " % x0),
                     lambda d, n: cat(("fn @_r(a: i32): %s { " % n, "%s @_r(i32 a){ " % n), decl(n, "x"), F("x"), ("<- x; }\n", "return x; }\n")))
    for c in (True, False):
        ta = A(t, 3, c)
        dall = lambda ta=ta: dump(ta, "q")
        yield mk("arr" + "xc"[c], ta, lambda d, n, dall=dall: cat(decl(n, "q"), F("q[1]"), dall(), F("q[2]", 40), dall(), F("q[0]", 80), dall()))
        if t.kind in ("struct", "union"):
            yield mk("arrcp" + "xc"[c], ta, lambda d, n, dall=dall: cat(decl(n, "q"), F("q[1]"), "q[2] = q[1]; ", F("q[1]", 20), "q[0] = q[1]; ", dall()))
            yield mk("arrdyn" + "xc"[c], ta, lambda d, n, dall=dall: cat(decl(n, "q"), F("q[a]"), ("let r = q[a]; let i = 2 - a; q[i] = r; ", "%s r=q[a]; i32 i=2-a; q[i]=r; " % d.use(t)), dall()), par=[("i32", [0, 1, 2])])
        to = S("i8", ta, "i8")
        yield mk("arrnest" + "xc"[c], to, lambda d, n, to=to: cat(decl(n, "o"), fill(to, "o", 0), decl(n, "p", "o"), fill(to, "o", 90), dump(to, "p"), dump(to, "o")))
    to = S("i8", t, "i16")
    yield mk("nest", to, lambda d, n: cat(decl(n, "o"), fill(to, "o", 0), dump(to, "o"), F("o.m1", 60), dump(to, "o")))
    if t.kind in ("struct", "union"):
        yield mk("nestcp", to, lambda d, n: cat(decl(n, "o"), decl(d.use(t), "s"), F("s"), "o.m1 = s; ", F("s", 20), dump(to, "o"), "s = o.m1; ", F("o.m1", 60), D("s"), dump(to, "o")))
        yield mk("nestpp", to, lambda d, n: cat(decl(n, "o"), ("let p = &o; let q = &p.m1; ", "%s *p=&o; %s *q=&p->m1; " % (n, d.use(t))), F("(*q)"), ("p.m0 = 3: i8; p.m2 = 4: i16; ", "p->m0=3; p->m2=4; "), dump(to, "o")))
    # a global object (only csp objects with zero initial value)
    yield mk("glob", t, lambda d, n: cat(("", "memset((void*)&@_g,0,sizeof @_g); "), D("@_g"), F("@_g"), D("@_g"), ("", "")), lambda d, n: ("let @_z1: i8; let @_g: %s; let @_z2: i8;\n" % n, "static %s @_g;\n" % n), par=[("i32", [5])]) if 1 else None
    # layout as in C
    if not has_arr(t, False):
        offs = [(x, p) for x, p in leaves(t, "s")]
        yield mk("off", t, lambda d, n: cat(decl(n, "s"), *([("tr((&%s: i64) - (&s: i64)); " % x, "tr((i64)&%s-(i64)&s); " % x) for x, _ in offs] + [("tr((sizeof %s): i64); " % n, "tr(sizeof(%s)); " % n)])))
        tc = A(t, 3, True)
        yield mk("stride", tc, lambda d, n: cat(decl(n, "s"), ("tr((&s[2]: i64) - (&s: i64)); ", "tr((i64)&s[2]-(i64)&s); ")))


def has_arr(t, c=True):
    """contains an array (c: of any kind) or a union"""
    if t.kind == "union" and c:
        return True
    if t.kind in ("struct", "union"):
        return any(has_arr(f, c) for f in t.fields)
    return t.kind == "arr" or (c and t.kind == "carr")


def aggregates(thorough):
    ts = []
    for n in (1, 2):
        ts += [S(*f) for f in itertools.product(PR, repeat=n)]
    three = ["i8", "i32", "i64", "f32"]
    ts += [S(*f) for f in itertools.product(PR if thorough else three, repeat=3)]
    ts += [S("i8", "i8", "i8", "i8", "i8"), S("i64", "i64", "i64", "i64", "i64"), S("i16", "i8", "i32", "i8", "i64", "i8"), S("u8", "u16", "u32", "u64"), S("char", "bool2" if 0 else "char", "i32"),
           S("f64", "f64", "f64"), S(S("i8", "i32"), "i8"), S("i8", S("i64", "i8"), "i8"), S(S(S("i16", "i8"), "i8"), "i64"), S(S("f32", "f32"), S("f32", "f32")), S(S("i8"), S("i8", "i8"), S("i8", "i8", "i8")),
           S(A("i8", 3, True), "i32"), S(A("i32", 5, True)), S("i8", A(S("i8", "i64"), 2, True)), S(A("i64", 2), "i8"), S("i8", A("i16", 3), "i8"), S(A(A("i8", 2, True), 3, True), "i8"), S(*["i8"] * 17), S(*["i64"] * 40)]
    ts += [T("union", fields=[P(x) for x in f]) for f in (("i64", "i8"), ("i32", "f32"), ("i8", "i64"), ("f64", "i64", "i32"))]
    ts += [T("union", fields=[S("i8", "i8"), P("i32")]), T("union", fields=[A("i8", 9, True), P("i32")]), S("i8", T("union", fields=[P("i16"), P("i64")]), "i8")]
    return ts


def unions():
    for f in itertools.permutations(["i8", "i16", "i32", "i64", "u8", "u32", "f32", "f64"], 2):
        t = T("union", fields=[P(x) for x in f])
        for o in (0, 1):
            x = "a: %s" % f[o] if f[o] != "i64" else "a"
            y = "u.m%d" % (1 - o)
            d = Decl()
            n = d.use(t)
            # all bytes defined: write the wide member first
            yield Case("un:%s:%d" % (t, o), [("i64", "small")], f[1 - o], d.csp + "fn @(a: i64): %s { let u: %s; u.m%d = %s; <- %s; }" % (f[1 - o], n, o, x if o == 0 or 1 else "", y),
                       d.c + "%s @(i64 a){ %s u; memset((void*)&u,0,sizeof u); u.m%d=(%s)a; return u.m%d; }" % (f[1 - o], n, o, f[o], 1 - o))


def arrays():
    for n in (1, 2, 3, 8, 100):
        for t in ("i8", "i32", "i64", "f64"):
            yield mk("len", A(t, n), lambda d, nm: cat(decl(nm, "s"), ("tr((len s): i64); ", "tr(%d); " % n)))
            yield mk("lenp", A(t, n), lambda d, nm: cat(decl(nm, "s"), ("tr(@_l(s)); ", "tr(%d); " % n)), lambda d, nm: ("fn @_l(x: %s[]): i64 { <- (len x): i64; }\n" % t, ""))
    for t in BASE:
        for it in INT:
            rng = list(range(6))
            lits = "[%s]" % ", ".join("%d: %s" % (i * 10, t) for i in range(6))
            clit = "{%s}" % ",".join("%d" % (i * 10) for i in range(6))
            yield Case("lit:%s:%s" % (t, it), [(it, rng)], t, "fn @(i: %s): %s { let a = %s; <- a[i]; }" % (it, t, lits), "%s @(%s i){%s a[]=%s; return a[i];}" % (t, it, t, clit))
            yield Case("rev:%s:%s" % (t, it), [(it, range(1, 7))], t, "fn @(i: %s): %s { let a = %s; <- a[^i]; }" % (it, t, lits), "%s @(%s i){%s a[]=%s; return a[6-i];}" % (t, it, t, clit))
            yield Case("revc:%s:%s" % (t, it), [(it, range(1, 7))], t, "fn @(i: %s): %s { let a: %s 'c[6]; for let j = 0; j < 6; j++; a[j] = (j * 10): %s; a[^i]++; <- a[^i]; }" % (it, t, t, t), "%s @(%s i){return (6-i)*10+1;}" % (t, it))
            yield Case("revv:%s:%s" % (t, it), [(it, range(1, 7))], t, "fn @_v(v: %s[], i: %s): %s = v[^i];\nfn @(i: %s): %s { let a = %s; a[^i] += 1: %s; <- @_v(a, i); }" % (t, it, t, it, t, lits, t), "%s @(%s i){return (6-i)*10+1;}" % (t, it))
            yield Case("vla:%s:%s" % (t, it), [(it, rng)], t, "fn @_v(v: %s[], i: %s): %s = v[i];\nfn @(i: %s): %s { let a = %s; <- @_v(a, i); }" % (t, it, t, it, t, lits), "%s @(%s i){%s a[]=%s; return a[i];}" % (t, it, t, clit))
            yield Case("vlaw:%s:%s" % (t, it), [(it, rng)], t, "fn @_v(v: %s[], i: %s): void { v[i] += 5: %s; }\nfn @(i: %s): %s { let a = %s; @_v(a, i); <- a[i]; }" % (t, it, t, it, t, lits), "%s @(%s i){%s a[]=%s; return a[i]+5;}" % (t, it, t, clit))
            yield Case("vlal:%s:%s" % (t, it), [(it, rng)], "i64", "fn @_v(v: %s[], i: %s): i64 { v[i] = 9: %s; <- (len v): i64; }\nfn @(i: %s): i64 { let a = %s; tr(@_v(a, i)); for let j = 0; j < 6; j++; tr(a[j]: i64); <- (len a): i64; }" % (t, it, t, it, lits),
                       "i64 @(%s i){%s a[]=%s; tr(6); a[i]=9; for(int j=0;j<6;j++) tr((i64)a[j]); return 6;}" % (it, t, clit))


def lengths():
    body = "type @_A: i32[3]; type @_S: struct { x: i8, a: i32[4] }; let @_g: i32[5]; let @_gs: @_S; let @_ga: @_A; let @_g2: i32[2][7]; let @_gc: @_S 'c[3];\nfn @_l(x: i32[]): i64 { <- (len x): i64; }\nfn @(): i64 { let a: @_A; let s: @_S; let b: i32[3][2]; let c = [1,2,3]; let sa: @_S[2]; let p = &s; let k: @_S 'c[2]; %s <- 1; }"
    for e, n, one in (("a", 3, 1), ("s.a", 4, 1), ("b[0]", 3, 1), ("b[1]", 3, 1), ("c", 3, 1), ("sa[1].a", 4, 1), ("p.a", 4, 1), ("@_g", 5, 1), ("@_gs.a", 4, 1), ("@_ga", 3, 1), ("@_g2[1]", 2, 1), ("@_gc[2].a", 4, 1), ("@_g2[6]", 2, 1), ("k[1].a", 4, 1), ("b", 2, 0), ("@_g2", 7, 0), ("sa", 2, 0), ("@_gc", 3, 0), ("k", 2, 0)):
        yield Case("length:" + e, [], "i64", body % ("tr((len %s): i64); " % e + ("tr(@_l(%s)); " % e) * one), "i64 @(void){ tr(%d); %s return 1; }" % (n, ("tr(%d);" % n) * one))


def pointers():
    for t in BASE:
        for it in INT:
            rng = [0, 1, 2, 3] if it[0] == "u" else [-2, -1, 0, 1, 2]
            pre = "let s: %s 'c[8]; for let j = 0; j < 8; j++; s[j] = (j * 3): %s; " % (t, t)
            cpre = "%s s[8]; for(int j=0;j<8;j++)s[j]=j*3;" % t
            for nm, st, e, ce in (("idx", "let p = &s[4];", "p[i]", "s[4+i]"), ("add", "let p = &s[4];", "*(p + i)", "s[4+i]"), ("sub", "let p = &s[4];", "*(p - i)", "s[4-i]"),
                                  ("addeq", "let p = &s[4]; p += i;", "*p", "s[4+i]"), ("subeq", "let p = &s[4]; p -= i;", "*p", "s[4-i]"),
                                  ("inc", "let p = &s[4]; p++;", "*p", "s[5]"), ("dec", "let p = &s[4]; p--;", "*p", "s[3]"), ("idxdir", "", "s[4+i]", "s[4+i]"),
                                  ("rmw", "let p = &s[4]; *(p + i) += 5: %s;" % t, "s[4 + i]", "s[4+i]+5"), ("rmwi", "let p = &s[4]; p[i] += 5: %s;" % t, "s[4 + i]", "s[4+i]+5"),
                                  ("rminc", "let p = &s[4]; p[i]++;", "s[4 + i]", "s[4+i]+1"), ("pp", "let p = &s[3]; let q = &p; *q += i; *q = *q + 1;", "*p", "s[4+i]")):
                yield Case("ptr:%s:%s:%s" % (t, it, nm), [(it, rng)], t, "fn @(i: %s): %s { %s %s <- %s; }" % (it, t, pre, st, e), "%s @(%s i){%s return %s;}" % (t, it, cpre, ce))
        yield Case("ptr:%s:diff" % t, [("i32", [0, 1, 7]), ("i32", [0, 2, 7])], "i64", "fn @(a: i32, b: i32): i64 { let s: %s 'c[8]; let p = &s[a]; let q = &s[b]; <- (q - p): i64; }" % t, "i64 @(i32 a,i32 b){return b-a;}")
        yield Case("ptr:%s:cmp" % t, [("i32", [0, 1, 7]), ("i32", [0, 2, 7])], "i64", "fn @(a: i32, b: i32): i64 { let s: %s 'c[8]; let p = &s[a]; let q = &s[b]; let r: i64 = 0; if p < q r += 1; if p == q r += 2; if p >= q r += 4; if p > q r += 8; if p <= q r += 16; if p != q r+= 32; <- r; }" % t,
                   "i64 @(i32 a,i32 b){return (a<b)*1+(a==b)*2+(a>=b)*4+(a>b)*8+(a<=b)*16+(a!=b)*32;}")


# every sequence of operations on a small memory: two arrays, two pointers, a struct with a pointer and a nested array
OPS = [("x[i] = v;", "x[i]=v;"), ("y[1] = x[i];", "y[1]=x[i];"), ("p = &x[i];", "p=&x[i];"), ("p = &y[1];", "p=&y[1];"), ("*p = v + 1: %T;", "*p=(%T)(v+1);"), ("*p += x[0];", "*p+=x[0];"), ("q = p;", "q=p;"),
       ("*q -= 1: %T;", "*q-=1;"), ("s.m = &s.a[i];", "s.m=&s.a[i];"), ("s.a[1] = *p;", "s.a[1]=*p;"), ("*s.m = *q;", "*s.m=*q;"), ("t = s;", "t=s;"), ("t.a[i] += 3: %T;", "t.a[i]+=3;"), ("s = t;", "s=t;"), ("p = s.m;", "p=s.m;"),
       ("x[0]++;", "x[0]++;"), ("s.b = (*p): i64;", "s.b=(i64)*p;"), ("let w = *p; *p = *q; *q = w;", "%T w=*p; *p=*q; *q=w;")]


def sequences(depth, types):
    for t in types:
        for n in range(1, depth + 1):
            for ops in itertools.product(range(len(OPS)), repeat=n):
                if len(set(ops)) < n:
                    continue
                cs = " ".join("{ %s }" % OPS[o][0].replace("%T", t) for o in ops)
                cc = " ".join("{ %s }" % OPS[o][1].replace("%T", t) for o in ops)
                pre = "let x: %s 'c[3]; let y: %s[3]; let s: @_s; let t: @_s; for let j = 0; j < 3; j++; { x[j] = (j + 1): %s; y[j] = (j + 4): %s; } s.a[0] = 7: %s; s.a[1] = 8: %s; s.b = 9; let p = &x[2]; let q = &y[0]; s.m = q; t.m = p; " % ((t,) * 6)
                cpre = "%s x[3],y[3]; @_s s,t; memset((void*)&s,0,sizeof s); memset((void*)&t,0,sizeof t); for(int j=0;j<3;j++){x[j]=j+1;y[j]=j+4;} s.a[0]=7; s.a[1]=8; s.b=9; %s *p=&x[2],*q=&y[0]; s.m=q; t.m=p; " % (t, t)
                obs = "".join("tr(%s: i64); " % e for e in ("x[0]", "x[1]", "x[2]", "y[0]", "y[1]", "y[2]", "s.a[0]", "s.a[1]", "s.b", "t.a[0]", "t.a[1]", "t.b", "(*p)", "(*q)", "(*s.m)", "(*t.m)"))
                yield Case("seq:%s:%s" % (t, ",".join(map(str, ops))), [("i32", [0, 1]), (t, [100])], "i64",
                           "type @_s: struct { a: %s 'c[2], m: &%s, b: i64 };\nfn @(i: i32, v: %s): i64 { %s %s %s <- len y; }" % (t, t, t, pre, cs, obs),
                           "typedef struct { %s a[2]; %s *m; i64 b; } @_s;\ni64 @(i32 i,%s v){ %s %s %s return 3; }" % (t, t, t, cpre, cc, obs.replace(": i64", "")))


PROP = dict(
    id="C04", title="Structs, unions, arrays and pointers have C layout and value semantics",
    statement="Structs and unions have the size, alignment and member offsets of the C ABI; storing, copying, passing, returning and nesting an aggregate copies exactly its members (later changes of the source do not show in the copy, neighbouring objects are untouched, fresh locals and globals are zero); array elements, lengths, reverse indices and pointer arithmetic address exactly the element named by the index, whatever integer type the index has.",
    quantifier=dict(over=["programs", "inputs"], text="all structs of up to three members over six types plus nested/array/union shapes, in each of about 30 contexts; all element/index type pairs; all operation sequences up to length two (thorough: three) over an 18-operation memory"),
    why_tests_cant="A wrong offset, size or copy length shows only for particular combinations of member types and contexts; tests use a handful of structs.",
    anchors=dict(files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/validator.c"], mechanism="get_struct_size, get_type_align, asm_store, asm_gen_addr, asm_gen_index, struct literals, asm_init_zero"),
    technique="exhaustive enumeration of types x contexts x index values and of all short sequences of memory operations, executed and compared with the same program in C", level="exploration",
    level_note="Every generated csp function and its C twin run on all listed inputs; all leaves are observed after each step. Bounds: struct shapes, 18 operations, sequence length 2 (quick) / 3 (thorough).")


def run(chk, repo):
    cs = []
    for t in aggregates(chk.thorough):
        cs += [c for c in contexts(t) if c]
    for t in BASE:
        cs += [c for c in contexts(P(t)) if c]
    cs += list(unions()) + list(arrays()) + list(lengths()) + list(pointers())
    cs += list(sequences(2, ["i8", "i64"] if not chk.thorough else ["i8", "i16", "i32", "i64", "f64"]))
    if chk.thorough:
        cs += list(sequences(3, ["i32"]))
    seen, out = set(), []
    for c in cs:
        if c.key not in seen:
            seen.add(c.key)
            out.append(c)
    explore(chk, repo, out, batch=120)
    chk.cov["exhaustive"] = True
    chk.cov["rule"] = "one program per (type, context) / operation sequence; evaluations count executions on one input; distinct_nontrivial counts distinct (result, trace) hashes"
