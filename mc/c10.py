"""C10 - every name refers to the declaration that the scoping rules select."""
import itertools
import core
import verdict
from cases import *

# ------------------------------------------------------------------ A: nested blocks
# csp text around a nested block, C text around it; {} is the block itself.  A template that declares x itself
# (loop variable, parameter) gives it as third element
WRAP = {
    "block": ("%s", "%s"), "if": ("if true %s", "if(1) %s"), "else": ("if false {} else %s", "if(0){} else %s"), "unless": ("do %s unless false;", "if(1) %s"),
    "while": ("{ let w: i32 = 0; while w < 2 { w++; %s } }", "{ i32 w=0; while(w<2){ w++; %s } }"), "loop": ("loop { %s break; }", "for(;;){ %s break; }"),
    "do": ("do %s while false;", "do %s while(0);"), "for": ("for let w: i32 = 0; w < 2; w++; %s", "for(i32 w=0;w<2;w++) %s"), "range": ("{ let w: i32 = 0; for w .. 2 { %s } }", "{ i32 w=0; for(;w<2;w++) { %s } }"),
    "case": ("match 3 { 1 => {} 3 => %s _ => {} }", "%s"), "default": ("match 3 { 1 => {} _ => %s }", "%s"), "mtype": ("match (type) i32 { i8 => {} i32 => %s _ => {} }", "%s"),
    "with": ("with w = @opn(1) %s", "%s"), "withelse": ("with w = @opn(0) {} else %s", "%s"), "using": ("using @_u for %s", "%s"),
    "forx": ("for let x: i32 = 50; x < 52; x++; %s", "for(i32 %X=50;%X<52;%X++) %s"), "withx": ("with x = @opn(7) %s", "{ i32 %X=7; %s }"),
    "lambda": ("{ let l = || => %s; l(); l(); }", "for(int q=0;q<2;q++) %s"), "lambdax": ("{ let l = |x: i32| => %s; l(60); l(70); }", "for(i32 %X=60;%X<=70;%X+=10){ i32 %Y=%X; %Z }"),
    "usingx": ("using @_n for %s", "%s"),
}
NEST3 = ("block", "if", "for", "forx", "case", "lambda", "using", "usingx", "loop", "while")


def seqs(n, inner):
    """statement lists: an optional declaration first, then up to n of use / assign / nested block"""
    for d in ("", "D", "C"):
        for k in range(1, n + 1):
            for s in itertools.product("UA" + ("B" if inner else ""), repeat=k):
                if s.count("B") > 1 or (inner and s.count("B") != 1) or (d == "C" and "A" in s):
                    continue
                yield d, s


class Scope:
    def __init__(self, decls, types):
        self.n = 0
        self.val = 0

    def new(self):
        self.n += 1
        return "v%d" % self.n


def render(tree, scope, st, depth):
    """tree = (decl, items); items: 'U', 'A', ('B', kind, tree).  scope: (C name of x, assignable) or None"""
    decl, items = tree
    cs, cc = [], []
    if decl:
        st.val += 11
        nm = st.new()
        ty = "i64" if depth % 2 else "i16"
        cs.append("%s x: %s = %d;" % ("let" if decl == "D" else "const", ty, st.val))
        cc.append("%s %s = %d;" % (ty, nm, st.val))
        scope = (nm, decl == "D")
    for it in items:
        if it == "U":
            if scope is None:
                raise KeyError("x")
            cs.append("tr(x: i64);")
            cc.append("tr(%s);" % scope[0])
        elif it == "A":
            if scope is None:
                raise KeyError("x")
            if not scope[1]:
                raise ValueError("const")
            st.val += 100
            cs.append("x = x + %d;" % st.val)
            cc.append("%s = %s + %d;" % (scope[0], scope[0], st.val))
        else:
            _, kind, sub = it
            a, b = WRAP[kind]
            if kind in ("forx", "withx", "lambdax"):
                nm = st.new()
                inner = (nm, kind != "withx")
            elif kind == "usingx":
                nm, inner = None, ("@N", True)
            else:
                nm, inner = None, scope
            if kind == "lambdax":
                n2 = st.new()
                x, y = render(sub, (n2, True), st, depth + 1)
                cs.append(a % x)
                cc.append(b.replace("%X", nm).replace("%Y", n2).replace("%Z", y))
                continue
            x, y = render(sub, inner, st, depth + 1)
            cs.append(a % x)
            cc.append((b.replace("%X", nm) if nm else b) % y)
    return "{ " + " ".join(cs) + " }", "{ " + " ".join(cc) + " }"


def trees(thorough):
    kinds = list(WRAP)
    for d0, s0 in seqs(3, True):
        i = s0.index("B")
        if len(s0) == 3 and i != 1 and not thorough:
            continue
        for k in kinds:
            for d1, s1 in seqs(2, False):
                yield (d0, s0[:i] + (("B", k, (d1, s1)),) + s0[i + 1:])
    for k0, k1 in itertools.product(NEST3, repeat=2):
        for d0, d1, d2 in itertools.product(("", "D"), repeat=3):
            for s in (("U",), ("A", "U")):
                yield (d0, (("B", k0, (d1, (("B", k1, (d2, s)), "U"))), "U"))


def outer(env):
    """declarations outside the function that also have the name x"""
    top = "namespace @_u { let zz: i32 = 0; }\nnamespace @_n { let x: i32 = 5; }\n[drop] fn @_d(_: i32) {}\nfn @opn(v: i32): i32 = v;\n"
    return top


def scope_cases(thorough):
    common = "namespace un { let zz: i32 = 0; }\nfn opn(v: i32): i32 = v;\n[drop] fn dr(_v: i32) {}\n"
    k = 0
    for t in trees(thorough):
        for env in ("global", "arg", "ns", "none"):
            st = Scope(None, None)
            try:
                x, y = render(t, {"global": ("@G", True), "arg": ("x", True), "ns": ("@G", True), "none": None}[env], st, 0)
            except (KeyError, ValueError):
                continue
            x = x.replace("@opn", "opn").replace("@_u", "un")
            k += 1
            key = "scope:%s:%s" % (env, repr(t).replace(" ", "").replace("'", ""))
            cg = "static i32 @G, @N;\n"
            nsx = "namespace @_n { let x: i32 = 5; }\n"
            if env == "arg":
                csp = nsx + "fn @_f(x: i32): i64 %s <- 0; }\nfn @(): i64 { @_n::x = 5; let r: i64 = @_f(9); <- r + @_n::x; }" % x[:-1]
                ref = cg + "static i64 @f(i32 x) %s return 0; }\ni64 @(void){ @N = 5; i64 r = @f(9); return r + @N; }" % y[:-1]
            elif env == "none":
                csp = nsx + "fn @(): i64 { @_n::x = 5; %s <- @_n::x; }" % x
                ref = cg + "i64 @(void){ @N = 5; %s return @N; }" % y
            elif env == "ns":
                csp = nsx + "namespace @_s { let x: i32 = 3; fn f(): i64 { %s <- x; } }\nfn @(): i64 { @_n::x = 5; @_s::x = 3; let r: i64 = @_s::f() * 1000; <- r + @_n::x; }" % x
                ref = cg + "i64 @(void){ @N = 5; @G = 3; %s return @G * 1000 + @N; }" % y
            else:
                # one namespace stands for the file: its member x is what a top level x is to a function in it
                csp = nsx + "namespace @_s { let x: i32 = 3; namespace t { namespace u { fn f(): i64 { %s <- x; } } } }\nfn @(): i64 { @_n::x = 5; @_s::x = 3; let r: i64 = @_s::t::u::f() * 1000; <- r + @_n::x; }" % x
                ref = cg + "i64 @(void){ @N = 5; @G = 3; %s return @G * 1000 + @N; }" % y
            yield Case(key, [], "i64", csp, ref)
    return


SCOPE_COMMON = "namespace un { let zz: i32 = 0; }\nfn opn(v: i32): i32 = v;\n[drop] fn dr(_v: i32) {}\n"


# ------------------------------------------------------------------ B: declaration order
ITEMS = [
    ["fn @_a(): i32 = @_K + @_b();", "fn @_b(): i32 = @_K * 3;", "const @_K: i32 = 5;", "fn @(): i32 = @_a() * 2 + @_b();"],
    ["type @_S: struct { t: @_T, n: i8 };", "type @_T: struct { a: @_I, b: @_I };", "type @_I: i64;", "fn @(): i32 { let s: @_S; s.t.a = 3; s.t.b = 4; s.n = 5; <- s.t.a + s.t.b * 10 + s.n * 100 + (sizeof @_S) * 1000; }"],
    ["let @_g: i32 = @_K + @_E::B;", "const @_K: i32 = @_L * 2;", "const @_L: i32 = @_E::A;", "type @_E: enum { A = 7, B };", "fn @(): i32 = @_g * 100 + @_K + @_L;"],
    ["fn @_a(x: @_S): @_I = x.v;", "type @_S: struct { v: @_I };", "type @_I: i32;", "let @_g: @_S = @_S::{@_n::q};", "namespace @_n { const q: i32 = 44; }", "fn @(): i32 = @_a(@_g);"],
    ["namespace @_m { fn f(): i32 = @_n::f() + z; const z: i32 = 1; }", "namespace @_n { fn f(): i32 = @_o() * @_m::z; const z: i32 = 9; }", "fn @_o(): i32 = @_n::z + @_m::z;", "fn @(): i32 = @_m::f();"],
    ["type @_P: struct { next: &@_Q, v: i32 };", "type @_Q: struct { back: &@_P, w: i32 };", "fn @_mk(p: &@_P, q: &@_Q) { p.next = q; q.back = p; p.v = 6; q.w = 7; }", "fn @(): i32 { let p: @_P; let q: @_Q; @_mk(&p, &q); <- p.next.w * 10 + q.back.v; }"],
    ["[constexpr]\nfn @_c(a: i32): i32 = a + @_K;", "const @_K: i32 = 4;", "const @_V: i32 = @_c(10);", "fn @(): i32 = @_V;"],
    ["type @_A: i32[@_N];", "const @_N: i32 = 3;", "fn @_s(a: &@_A): i32 = (len *a): i32;", "fn @(): i32 { let a: i32[@_N]; a[2] = 9; <- a[2] * 10 + ((len a): i32); }"],
    ["fn @_even(n: i32): bool = if n == 0 => true else @_odd(n - 1);", "fn @_odd(n: i32): bool = if n == 0 => false else @_even(n - 1);", "fn @(): i32 = if @_even(10) && @_odd(7) => 1 else 0;"],
    ["macro @_m(x) { x + @_k! }", "macro @_k { 40 }", "fn @(): i32 = @_m!(2) * @_k!;"],
    ["macro @_m { (@_k! + @_V) }", "macro @_k { 40 }", "const @_V: i32 = 5;", "fn @(): i32 = @_m!;"],
    ["type @_E: enum { A = C, B = 5, C, D = @_F::Y };", "type @_F: enum { X = @_E::C + @_K, Y, Z = @_k };", "const @_k: i32 = @_E::A * 2;", "const @_K: i32 = @_E::B;", "fn @(): i32 = @_E::A + @_E::C * 10 + @_E::D * 100 + @_F::X * 10000 + @_F::Z * 1000000;"],
    ["operator <++> (a: i32, b: i32): i32 = a * 10 + @_h(b);", "fn @_h(b: i32): i32 = b + 1;", "fn @(): i32 = 3 @_f 4;"],
]
ORDER_RES = [5 * 1 + 15 and (5 + 15) * 2 + 15, 3 + 40 + 500 + 24000, (14 + 8) * 100 + 14 + 7, 44, None, 76, 14, 93, 1, None, 45, 12111266, None]


def order_cases():
    for k, (items, want) in enumerate(zip(ITEMS, ORDER_RES)):
        if k == 4:
            want = (9 + 1) * 1 + 1
        if k == 9:
            want = 2 + 40 * 40   # macros substitute tokens: 2 + 40 * 40
        if k == 12:
            continue
        for p in itertools.permutations(range(len(items))):
            yield Case("order:%d:%s" % (k, "".join(map(str, p))), [], "i32", "\n".join(items[i] for i in p), "i32 @(void){return %d;}" % want)


# ------------------------------------------------------------------ C: namespaces
LV = ["", "a", "b", "c"]


def ns_tree(kind, where, fn_at, expr, ret):
    """text of top-level items: namespaces @a { b { c } }, x declared at the levels in `where` with value 10 + level, the function at level fn_at"""
    def decl(l):
        v = 10 + l
        return {"fn": "fn @x(): i32 = %d; ", "let": "let @x: i32 = %d; ", "const": "const @x: i32 = %d; ", "enum": "type @x: enum { V = %d }; ", "type": "type @x: i8[%d]; ", "ns": "namespace @x { const v: i32 = %d; } ", "struct": "type @x: struct { v: i64[%d] }; "}[kind] % v

    def level(l):
        t = decl(l) if l in where else ""
        if fn_at == l:
            t += "fn @q(): i32 { %s } " % ret % expr
        if l < 3:
            inner = level(l + 1)
            t += "namespace @%s { %s} " % (LV[l + 1], inner or "const dummy: i32 = 0; ")
        return t
    return level(0)


def resolve(where, fn_at, path):
    """path: list of names, '' first for a path that starts at the top.  -> level of x or None"""
    def members(l):  # names visible as members of level l
        m = {}
        if l in where:
            m["x"] = ("x", l)
        if l < 3:
            m[LV[l + 1]] = ("n", l + 1)
        return m
    if path[0] == "":
        cur, path = 0, path[1:]
        scopes = [0]
    else:
        scopes = range(fn_at, -1, -1)
    for l in scopes:
        if path[0] in members(l):
            e = members(l)[path[0]]
            break
    else:
        return None
    for n in path[1:]:
        if e[0] != "n" or n not in members(e[1]):
            return None
        e = members(e[1])[n]
    return e[1] if e[0] == "x" else None


PATHS = [["x"], ["a", "x"], ["b", "x"], ["c", "x"], ["a", "b", "x"], ["b", "c", "x"], ["a", "b", "c", "x"], ["", "x"], ["", "a", "x"], ["", "a", "b", "x"], ["", "a", "b", "c", "x"], ["", "b", "x"], ["", "c", "x"], ["a", "c", "x"]]
USES = {"fn": ("%s()", "<- %s;"), "let": ("%s", "<- %s;"), "const": ("%s", "<- %s;"), "enum": ("(%s::V: i32)", "<- %s;"), "type": ("%s", "<- (sizeof %s): i32 - 8;"), "ns": ("%s::v", "<- %s;"), "struct": ("%s", "<- ((sizeof %s): i32 - 8) / 8;")}


def ns_all():
    for kind in USES:
        for m in range(16):
            where = [l for l in range(4) if m >> l & 1]
            for fn_at in range(4):
                for p in PATHS:
                    r = resolve(where, fn_at, p)
                    txt = "::".join(("@" + n) if n else "" for n in p)
                    u, ret = USES[kind]
                    call = "::".join(["@" + n for n in LV[1:fn_at + 1]] + ["@q"]) + "()"
                    yield "ns:%s:%d:%d:%s" % (kind, m, fn_at, "::".join(p)), ns_tree(kind, where, fn_at, u % txt, ret) + "\n", call, r


def ns_cases():
    for key, top, call, r in ns_all():
        if r is not None:
            yield Case(key, [], "i32", top + "fn @(): i32 = %s;" % call, "i32 @(void){return %d;}" % (10 + r))


def ns_verdicts(kinds):
    for key, top, call, r in ns_all():
        if r is None and key.split(":")[1] in kinds:
            yield "un" + key, (top + "fn main(): i32 = %s;" % call).replace("@", "z"), False


def using_cases():
    """using of one of two namespaces in a nested block; names of the enclosing scopes come back afterwards"""
    top = "namespace @p { fn f(): i64 = 1; let g: i64 = 2; const k: i64 = 3; type T: i8; type E: enum { A = 4, B }; namespace r { fn h(): i64 = 5; fn f(): i64 = 6; } macro @m1 { 7 } }\nnamespace @q { fn f(): i64 = 11; let g: i64 = 12; const k: i64 = 13; type T: i16; type E: enum { A = 14, B }; namespace r { fn h(): i64 = 15; fn f(): i64 = 16; } }\n"
    obs = {"fn": ("f()", 1), "let": ("g", 2), "const": ("k", 3), "enum": ("(E::A: i64)", 4), "nsfn": ("r::h()", 5), "type": ("(sizeof T): i64", None)}
    forms = {"stmt": "{ using %s; %s }", "for": "using %s for { %s }", "nested": "{ using %s; { { %s } } }", "if": "if true { using %s; %s }", "loop": "loop { using %s; %s break; }", "lambda": "{ using %s; let l = || => { %s }; l(); }", "for1": "using %s for if true { %s }"}
    for (ok, (e, v)), (fk, f) in itertools.product(obs.items(), forms.items()):
        def val(n):
            return (n + 1) if v is None else v + 10 * n
        for n1, n2 in itertools.product((0, 1), repeat=2):
            body = f % ("@" + "pq"[n1], "tr(%s);" % e) + " " + f % ("@" + "pq"[n2], "tr(%s);" % e)
            yield Case("using:%s:%s:%d%d" % (ok, fk, n1, n2), [], "i64", top + "fn @(): i64 { %s <- 0; }" % body, "i64 @(void){tr(%d);tr(%d);return 0;}" % (val(n1), val(n2)))
            # nested: the inner one wins, afterwards the outer one is back
            body = "{ using @%s; tr(%s); %s tr(%s); }" % ("pq"[n1], e, f % ("@" + "pq"[n2], "tr(%s);" % e), e)
            yield Case("using2:%s:%s:%d%d" % (ok, fk, n1, n2), [], "i64", top + "fn @(): i64 { %s <- 0; }" % body, "i64 @(void){tr(%d);tr(%d);tr(%d);return 0;}" % (val(n1), val(n2), val(n1)))
            # both the namespace and its inner namespace
            if ok == "fn":
                body = "using @%s; tr(f()); { using r; tr(f()); tr(h()); } tr(f()); { using @%s::r; tr(f()); } { using ::@%s::r; tr(h()); }" % ("pq"[n1], "pq"[n2], "pq"[n2])
                yield Case("using3:%s:%d%d" % (fk, n1, n2), [], "i64", top + "fn @(): i64 { %s <- 0; }" % body, "i64 @(void){tr(%d);tr(%d);tr(%d);tr(%d);tr(%d);tr(%d);return 0;}" % (1 + 10 * n1, 6 + 10 * n1, 5 + 10 * n1, 1 + 10 * n1, 6 + 10 * n2, 5 + 10 * n2))
    two = "namespace @p { fn f(): i64 = 1; fn e(): i64 = 3; }\nnamespace @q { fn g(): i64 = 2; }\n"
    for f in ("using @p, @q; tr(f()); tr(g()); tr(e());", "using @p; using @q; tr(f()); tr(g()); tr(e());", "using @p, @q for { tr(f()); tr(g()); tr(e()); }", "using @p for using @q for { tr(f()); tr(g()); tr(e()); }"):
        yield Case("using4:" + f, [], "i64", two + "fn @(): i64 { %s <- 0; }" % f, "i64 @(void){tr(1);tr(2);tr(3);return 0;}")


# ------------------------------------------------------------------ D: files
def import_cases(n):
    """every import graph over the files main, 0 .. n-1; main calls what it can reach"""
    edges = [(a, b) for a in ["m"] + list(range(n)) for b in range(n) if a != b]
    for m in range(1 << len(edges)):
        g = {}
        for i, (a, b) in enumerate(edges):
            if m >> i & 1:
                g.setdefault(a, []).append(b)
        reach, todo = set(), ["m"]
        while todo:
            for b in g.get(todo.pop(), []):
                if b not in reach:
                    reach.add(b)
                    todo.append(b)
        files = {"@%d.csp" % b: "".join('import "@%d.csp";\n' % c for c in g.get(b, [])) + "fn @_%d(): i32 = %d%s;\nconst @_k%d: i32 = %d;\n" % (b, 10 ** b, "".join(" + @_k%d * 2" % c for c in g.get(b, [])), b, 10 ** b) for b in range(n)}
        imp = "".join('import "@%d.csp";\n' % b for b in g.get("m", []))
        want = sum(10 ** b + sum(2 * 10 ** c for c in g.get(b, [])) for b in reach)
        yield Case("import:%d:%d" % (n, m), [], "i32", imp + "fn @(): i32 = 0%s;" % "".join(" + @_%d()" % b for b in sorted(reach)), "i32 @(void){return %d;}" % want, files=files)


def import_paths():
    """the same file by different names, from different directories"""
    f = lambda n, imps="": "".join('import "%s";\n' % i for i in imps) + "fn %s(): i32 = %d;\n" % (n, len(n))
    M = "fn main(): i32 = %s;\n"
    D = {"d/a.csp": f("aa"), "b.csp": f("bbb")}
    yield "twice", 'import "b.csp";\nimport "b.csp";\n' + M % "bbb()", True, D
    yield "dot", 'import "b.csp";\nimport "./b.csp";\n' + M % "bbb()", True, D
    yield "sub", 'import "d/a.csp";\n' + M % "aa()", True, D
    yield "subdot", 'import "d/a.csp";\nimport "d/../d/a.csp";\nimport "./d//a.csp";\n' + M % "aa()", True, D
    yield "up", 'import "b.csp";\nimport "d/a.csp";\n' + M % "aa() + bbb()", True, {"d/a.csp": f("aa", ["../b.csp"]), "b.csp": f("bbb")}
    yield "updown", 'import "d/a.csp";\n' + M % "aa() + bbb() + cc()", True, {"d/a.csp": f("aa", ["../b.csp", "c.csp"]), "d/c.csp": f("cc", ["a.csp", "../b.csp"]), "b.csp": f("bbb", ["d/a.csp", "d/c.csp"])}
    yield "main", 'import "b.csp";\n' + M % "bbb()", True, {"b.csp": f("bbb", ["t.csp"])}
    yield "self", 'import "t.csp";\n' + M % "1", True, {}
    yield "relative", 'import "d/a.csp";\n' + M % "aa() + cc()", True, {"d/a.csp": f("aa", ["c.csp"]), "d/c.csp": f("cc"), "c.csp": f("dddd")}
    yield "same", 'import "c.csp";\nimport "d/c.csp";\n' + M % "cc() + dddd()", True, {"d/c.csp": f("cc"), "c.csp": f("dddd")}
    yield "missing", 'import "nofile.csp";\n' + M % "1", False, {}
    yield "missing2", 'import "b.csp";\n' + M % "1", False, {"b.csp": f("bbb", ["nofile.csp"])}
    yield "notimported", M % "bbb()", False, {"b.csp": f("bbb")}
    yield "redef", 'import "b.csp";\n' + M % "bbb()" + f("bbb"), False, {"b.csp": f("bbb")}
    yield "syntax", 'import "b.csp";\n' + M % "1", False, {"b.csp": "fn bbb( : i32 = 1;"}
    yield "empty", 'import "b.csp";\n' + M % "1", True, {"b.csp": ""}
    yield "noeol", 'import "b.csp";\n' + M % "bbb()", True, {"b.csp": "fn bbb(): i32 = 3;"}
    yield "nosemi", 'import "b.csp"\n' + M % "bbb()", False, {"b.csp": f("bbb")}
    yield "nosemi2", 'import b;\n' + M % "bbb()", False, {"b.csp": f("bbb")}


# ------------------------------------------------------------------ E: redefinitions
DECL = {"fn": "fn x(): i32 = 1;", "let": "let x: i32 = 1;", "const": "const x: i32 = 1;", "type": "type x: i32;", "enum": "type x: enum { A };", "ns": "namespace x { const v: i32 = 1; }"}


def redef():
    M = "\nfn main(): i32 { <- 0; }\n"
    for (a, x), (b, y) in itertools.product(DECL.items(), repeat=2):
        ok = a == b == "ns"
        y2 = y.replace("v:", "w:")
        yield "redef:%s:%s" % (a, b), x + "\n" + y2 + M, ok
        yield "redefns:%s:%s" % (a, b), "namespace n { %s %s }" % (x, y2) + M, ok
        yield "diffns:%s:%s" % (a, b), "namespace n { %s } namespace m { %s } %s" % (x, y, x.replace("x", "y")) + M, True
        yield "outin:%s:%s" % (a, b), "%s namespace n { %s }" % (x, y) + M, True
    for n, s, ok in (("args", "fn f(a: i32, a: i32): i32 = a;", False), ("argsok", "fn f(a: i32, b: i32): i32 = a + b;", True), ("memb", "type T: struct { a: i32, a: i8 };", False), ("membok", "type T: struct { a: i32, b: i8 };", True),
                     ("enumm", "type T: enum { A, A };", False), ("enumok", "type T: enum { A, B };\ntype U: enum { A, B };", True), ("local", "fn f(): i32 { let x: i32 = 1; let x: i32 = 2; <- x; }", False),
                     ("localin", "fn f(): i32 { let x: i32 = 1; { let x: i32 = 2; <- x; } }", True), ("localconst", "fn f(): i32 { let x: i32 = 1; const x: i32 = 2; <- x; }", False), ("sibl", "fn f(): i32 { { let x: i32 = 1; x = 2; } { let x: i8 = 2; x = 3; } <- 0; }", True),
                     ("sib2", "fn f(): i32 { { let x: i32 = 1; x = 2; } <- x; }", False), ("for", "fn f(): i32 { for let i: i32 = 0; i < 3; i++; {} <- i; }", False), ("forbody", "fn f(): i32 { for let i: i32 = 0; i < 3; i++; { let i: i32 = 5; i++; } <- 1; }", True),
                     ("lambda", "fn f(): i32 { let l = |q: i32| i32 => q; <- q; }", False), ("lambdaloc", "fn f(): i32 { let l = |q: i32| => { let z: i32 = q; z++; }; l(1); <- z; }", False), ("fnlocal", "fn f(): i32 { let z: i32 = 1; <- z; }\nfn g(): i32 = z;", False),
                     ("fnarg", "fn f(z: i32): i32 = z;\nfn g(): i32 = z;", False), ("memberuse", "type T: struct { q: i32 };\nfn f(): i32 = q;", False), ("enumuse", "type T: enum { Q };\nfn f(): i32 = Q: i32;", False), ("nsuse", "namespace n { fn q(): i32 = 1; }\nfn f(): i32 = q();", False),
                     ("undeffn", "fn f(): i32 = q();", False), ("undeftype", "fn f(a: Q): i32 = 1;", False), ("undefns", "fn f(): i32 = q::f();", False), ("undefenum", "type T: enum { A };\nfn f(): i32 = T::B: i32;", False), ("undefmember", "type T: struct { a: i32 };\nfn f(t: T): i32 = t.b;", False),
                     ("typeasval", "type T: i32;\nfn f(): i32 = T;", False), ("valastype", "let T: i32 = 1;\nfn f(a: T): i32 = 1;", False), ("fnastype", "fn T(): i32 = 1;\nfn f(a: T): i32 = 1;", False), ("nsasval", "namespace n { const a: i32 = 1; }\nfn f(): i32 = n;", False), ("nsastype", "namespace n { const a: i32 = 1; }\nfn f(a: n): i32 = 1;", False),
                     ("usingundef", "fn f(): i32 { using q; <- 1; }", False), ("usingfn", "fn q(): i32 = 1;\nfn f(): i32 { using q; <- 1; }", False), ("usingtype", "type q: i32;\nfn f(): i32 { using q; <- 1; }", False), ("usingconf", "namespace p { const a: i32 = 1; }\nnamespace q { const a: i32 = 1; }\nfn f(): i32 { using p, q; <- 1; }", False),
                     ("usingscope", "namespace p { const a: i32 = 1; }\nfn f(): i32 { { using p; } <- a; }", False), ("usingscope2", "namespace p { const a: i32 = 1; }\nfn f(): i32 { using p for {} <- a; }", False), ("usingother", "namespace p { const a: i32 = 1; }\nfn f(): i32 { using p; <- a; }\nfn g(): i32 = a;", False),
                     ("private", "namespace p { [private] fn q(): i32 = 1; fn r(): i32 = q(); }\nfn f(): i32 = p::r();", True), ("private2", "namespace p { [private] fn q(): i32 = 1; fn r(): i32 = q(); }\nfn f(): i32 = p::q();", False),
                     ("aliascycle", "type A: B;\ntype B: A;\nfn f(a: A): i32 = 1;", False), ("aliasself", "type A: A;\nfn f(a: A): i32 = 1;", False), ("structself", "type A: struct { a: A };", False), ("structcycle", "type A: struct { b: B };\ntype B: struct { a: A };", False), ("structptr", "type A: struct { b: &A };\nfn f(a: &A): &A = a.b.b;", True),
                     ("constself", "const k: i32 = k;", False), ("constcycle", "const k: i32 = j;\nconst j: i32 = k;", False), ("enumself", "type E: enum { A = E::A };", False), ("constsize", "const k: i32 = sizeof typeof a;\nlet a: i32[k];", False)):
        yield "decl:" + n, s + M, ok


def collisions():
    """names that a careless symbol encoding would merge or clash with"""
    for a, b in (("@_a::b", "@_a__b"), ("@_a::b", "@_ab"), ("@_a::b_c", "@_a_b::c"), ("@_a::b::c", "@_a::b__c"), ("@_a::b::c", "@_a__b::c"), ("@_a::_b", "@_a_::b"), ("@_a::b", "@_b::a"), ("@_a", "@_a_"), ("@_a1", "@_a01"), ("@_aB", "@_ab"), ("@_a::b::c", "@_a_b_c"), ("@_a::b", "@_a_b"), ("@_1::2a", "@_12::a")):
        for kind in ("fn", "let", "const", "type", "enum"):
            def decl(path, v):
                p = path.replace("@_1::2a", "@_1::x2a").split("::")
                d = {"fn": "fn %s(): i32 = %d;", "let": "let %s: i32 = %d;", "const": "const %s: i32 = %d;", "type": "type %s: struct { v: i64, w: i64[%d] };", "enum": "type %s: enum { V = %d };"}[kind] % (p[-1], v)
                for n in reversed(p[:-1]):
                    d = "namespace %s { %s }" % (n, d)
                return d

            def use(path):
                path = path.replace("@_1::2a", "@_1::x2a")
                return {"fn": path + "()", "let": path, "const": path, "enum": "(%s::V: i32)" % path, "type": "((sizeof %s): i32 - 16) / 8" % path}[kind]
            root = lambda p: p.split("::")[0]
            if root(a) == root(b) and "::" in a and "::" in b:
                continue
            yield Case("coll:%s:%s:%s" % (kind, a, b), [], "i32", decl(a, 3) + "\n" + decl(b, 5) + "\nfn @(): i32 = %s * 100 + %s;" % (use(a), use(b)), "i32 @(void){return 305;}")
        # functions with locals, parameters and labels of the same name
    for k, (csp, v) in enumerate([("fn @_f(@_f: i32): i32 = @_f + 1;\nfn @(): i32 = @_f(4);", 5), ("fn @_f(a: i32): i32 { let @_f: i32 = a; <- @_f * 2; }\nfn @(): i32 = @_f(4);", 8), ("type @_T: struct { @_T: i32 };\nfn @(): i32 { let q: @_T = @_T::{4}; <- q.@_T; }", 4),
                                  ("type @_T: struct { a: i32 };\nfn @_f(a: @_T): i32 = a.a;\nfn @(): i32 { let a: @_T = @_T::{4}; <- @_f(a); }", 4), ("fn @_f(): i32 { let a: i32 = 2; { let a: i8 = 3; { let a: i64 = 4; a = a + 1; } a = a + 1; } <- a; }\nfn @(): i32 = @_f();", 2),
                                  ("type @_E: enum { @_E };\nfn @(): i32 = (@_E::@_E: i32) + 3;", 3), ("namespace @_n { namespace @_n { const @_n: i32 = 5; } }\nfn @(): i32 = @_n::@_n::@_n;", 5), ("namespace @_n { fn @_n(): i32 = 5; fn g(): i32 = @_n(); }\nfn @(): i32 = @_n::g();", 5),
                                  ("let @_g: i32 = 3;\nfn @_f(@_g: i32): i32 { { let @_g: i32 = 9; @_g = @_g + 1; } <- @_g; }\nfn @(): i32 = @_f(4) * 10 + @_g;", 43)]):
        yield Case("same:%d" % k, [], "i32", csp, "i32 @(void){return %d;}" % v)


PROP = dict(
    id="C10", title="Every name refers to the declaration the scoping rules select",
    statement="A name refers to the innermost enclosing declaration with that name: blocks, loop variables, parameters, lambda parameters, with-variables and `using` open scopes, and an outer meaning returns after the inner scope ends. Shadowing variables are separate objects. Top-level declarations can be used before and after they are written, in any order. `a::b` is a member of the `a` found from the inside out, `::a` starts at the top, and a name from a namespace needs its path or a `using`. Importing a file makes its declarations available once, whatever the import graph and however the path is written. Differently named objects never share storage or code in either backend. Undefined names, two declarations of one name in one scope, wrong kinds of name, cyclic definitions and conflicting `using`s are rejected.",
    quantifier=dict(over=["programs", "configurations"], text="all placements of declarations, uses and assignments of one name over nested scopes of 20 kinds (depth 2, selected depth 3) x 4 outer environments; all permutations of 11 sets of declarations; all placements of a name in 4 namespace levels x 14 path forms x 7 kinds; all import graphs of 3 files (thorough: 4)"),
    why_tests_cant="Resolution depends on the combination of enclosing scopes, order and path; a wrong rule only shows where two declarations of one name meet.",
    anchors=dict(files=["src/compiler/parser/validator.c", "src/compiler/preprocessor/preprocessor.c", "src/compiler/codegen/codegen_utils.c", "src/compiler/ast/ast_iterator.c"], mechanism="scope_resolve_ident, begin_scope/end_scope, enter_using_scope, parse_import_def, asm_gen_identifier"),
    technique="exhaustive bounded enumeration of declaration/use placements, executed on the real compiler against lexical scoping computed by the generator", level="exploration",
    level_note="Scope trees, declaration orders, namespace placements, using forms and import graphs of the bound are all compiled and run; the meaning of each name is computed independently. A local is in scope for its whole block in this language, so uses before the declaration in the same block are not judged.")


def run(chk, repo):
    sc = list(scope_cases(chk.thorough))
    explore(chk, repo, sc, batch=250, common_csp=SCOPE_COMMON)
    # variables captured by a lambda are not supported by the C backend
    csc = [c for c in sc if "lambda" not in c.key]
    if not chk.thorough:
        explore(chk, repo, csc[::7], batch=250, common_csp=SCOPE_COMMON, backend="C", tag="C:")
    else:
        explore(chk, repo, csc, batch=250, common_csp=SCOPE_COMMON, backend="C", tag="C:")
    rest = list(order_cases()) + list(using_cases()) + list(collisions())
    ns = list(ns_cases())
    explore(chk, repo, rest, batch=60)
    explore(chk, repo, ns, batch=150)
    explore(chk, repo, list(import_cases(3)), batch=32)
    if chk.thorough:
        explore(chk, repo, list(import_cases(4)), batch=128)
        explore(chk, repo, ns, batch=150, backend="C", tag="C:")
    explore(chk, repo, rest, batch=60, backend="C", tag="C:")
    verdict.explore(chk, repo, list(ns_verdicts(list(USES) if chk.thorough else ["fn", "type", "let"])))
    verdict.explore(chk, repo, list(redef()) + [("path:" + k, s, ok, f) for k, s, ok, f in import_paths()])
    chk.cov["rule"] = "one program per placement of declarations and uses; returned values and trace compared with lexical scoping computed by the generator"
    chk.cov["exhaustive"] = True
