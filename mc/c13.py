"""C13 - array literals convert their elements wherever they stand; slices refer to the array they were made from: all pairs of
element types and places, and all short sequences of operations on slices."""
import itertools
from cases import *

NUM = list(INT) + ["f32", "f64"]
PROP = dict(
    id="C13", title="Array literals take the declared element type; slices stay views of their array",
    statement="The elements of an array literal become values of the element type of the array or slice they are written for (converted like in an assignment), in initialisers of "
              "locals, assignments, structure members, arguments, results and nested literals, and the array has exactly these elements and this length; `...x` in a literal stands for all elements "
              "of x in order. A slice refers to the array it was made from: "
              "it has its length and elements, writing through either is seen through the other, assigning a slice changes what it refers to and nothing else, wherever slices are stored: in locals, globals, "
              "members, arrays, behind pointers, in arguments, results and captured variables.",
    quantifier=dict(over=["programs", "inputs"], text="all pairs of 10 element types in 16 places on boundary values; all sequences of up to 3 (thorough 4) out of 32 slice operations over a memory of 9 slices and 3 arrays, for 4 element types"),
    why_tests_cant="Slices are used in tests only as arguments; a slice that is stored, reassigned or returned can silently refer to the wrong array or overwrite the elements of another one.",
    anchors=dict(files=["src/compiler/parser/typechecker.c", "src/compiler/parser/validator.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c"],
                 mechanism="adapt_array_lit, implicitly_castable, implicit_cast, iter_validate_array_lit, asm_load, asm_store, asm_gen_addr, asm_gen_array_lit, ND_LEN"),
    technique="exhaustive enumeration of (element type, literal type, place) and of all operation sequences up to a depth on a finite memory of slices, executed and compared with a reference model in C after every sequence", level="exploration",
    level_note="Every generated csp function and its reference run on all listed inputs; every element and length reachable is observed after each sequence.")

# place of a literal: csp with %(L)s = literal of three elements; the elements must show up as array q
LITP = [
    ("local", "", "let q: %(D)s[3] = %(L)s;"),
    ("paren", "", "let q: %(D)s[3] = (%(L)s);"),
    ("slice", "", "let q: %(D)s[] = %(L)s;"),
    ("assign", "", "let q: %(D)s[3]; q = %(L)s;"),
    ("assign-slice", "", "let q: %(D)s[]; q = %(L)s;"),
    ("alias", "type @_T: %(D)s[3];", "let q: @_T = %(L)s;"),
    ("nested", "", "let o: %(D)s[3][2] = [%(L)s, %(L)s]; let q = o[1];"),
    ("member", "type @_S: struct { n: i8, q: %(D)s[3], m: i8 };", "let s = @_S::{5, %(L)s, 6}; let q = s.q; tr(s.n: i64); tr(s.m: i64);"),
    ("member-assign", "type @_S: struct { n: i8, q: %(D)s[3], m: i8 };", "let s: @_S; s.n = 5; s.m = 6; s.q = %(L)s; let q = s.q; tr(s.n: i64); tr(s.m: i64);"),
    ("member-slice", "type @_S: struct { n: i8, q: %(D)s[], m: i8 };", "let s = @_S::{5, %(L)s, 6}; let q = s.q; tr(s.n: i64); tr(s.m: i64);"),
    ("pointer", "", "let q: %(D)s[3]; let p = &q; *p = %(L)s;"),
    ("element", "", "let o: %(D)s[3] 'c[2]; o[1] = %(L)s; let q = o[1];"),
    ("argument", "fn @_f(n: i8, q: %(D)s[], m: i8): i64 { tr(n: i64); tr(m: i64); %(O)s <- 7; }", "<- @_f(5, %(L)s, 6); "),
    ("lambda-argument", "", "let l = |q: %(D)s[]| i64 => { %(O)s <- 7; }; <- l(%(L)s);"),
    ("pointer-argument", "fn @_f(q: %(D)s[]): i64 { %(O)s <- 7; }", "let l: const fn<i64>(%(D)s[]) = @_f; <- l(%(L)s);"),
    ("void-pointer-free", "", "let q: %(D)s[3] = [0: %(D)s, 0: %(D)s, 0: %(D)s]; q = %(L)s; q = q;"),
]


def obs(D):
    if D[0] == "f":
        return "tr((len q): i64); for let i = 0; i < 3; i++; { let x = q[i]; tr(*((&x): &%s): i64); }" % ("u32" if D == "f32" else "u64")
    return "tr((len q): i64); for let i = 0; i < 3; i++; tr(q[i]: i64);"


def literals():
    for D in NUM:
        for S in NUM:
            if D[0] != "f" and S[0] == "f":
                rng = [0.0, 1.5, -2.75 if D[0] == "i" else 3.25, 100.0]
            elif D[0] == "f" and S[0] == "f":
                rng = "finite"
            else:
                rng = "tiny"
            for key, top, body in LITP:
                for form, L, cl in (("v", "[a, b, a]", "a,b,a"), ("c", "[b, 7: %s, a]" % S, "b,7,a")):
                    if form == "c" and key not in ("local", "slice", "argument"):
                        continue
                    d = {"D": D, "S": S, "L": L, "O": obs(D)}
                    inner = "<-" in body
                    csp = (top % d) + "\nfn @(a: %s, b: %s): i64 { %s %s }" % (S, S, body % d, "" if inner else obs(D) + " <- 7;")
                    ref = "i64 @(%s a, %s b){ %s q[]={%s}; " % (S, S, D, cl)
                    if "m: i8" in csp:
                        ref += "tr(5); tr(6); "
                    ref += "tr(3); for(int i=0;i<3;i++) "
                    ref += "{ %s x; memcpy(&x,&q[i],sizeof x); tr((i64)x); }" % ("u32" if D == "f32" else "u64") if D[0] == "f" else "tr((i64)q[i]);"
                    yield Case("lit:%s:%s:%s:%s" % (D, S, key, form), [(S, rng), (S, rng if S[0] != "f" else [2.0, 4.5])], "i64", csp, ref + " return 7; }")


def unpacks():
    for t in ("i8", "i32", "i64", "f64"):
        a, b = "[1: %s, 2: %s]" % (t, t), "[3: %s, 4: %s, 5: %s]" % (t, t, t)
        V = {"a": [1, 2], "b": [3, 4, 5], "x": [9]}
        for n in (1, 2, 3):
            for parts in itertools.product("abx", repeat=n):
                want = [v for p in parts for v in V[p]]
                if parts == ("x",):
                    continue
                L = "[%s]" % ", ".join("9: " + t if p == "x" else "..." + p for p in parts)
                for key, st in (("let", "let q = %s;" % L), ("arg", "<- @_f(%s);" % L), ("slice", "let q: %s[] = %s;" % (t, L))):
                    o = "tr((len q): i64); for let i = 0; i < %d; i++; tr(q[i]: i64); <- 7;" % len(want)
                    csp = "fn @_f(q: %s[]): i64 { %s }\nfn @(): i64 { let a = %s; let b = %s; %s %s }" % (t, o, a, b, st, "" if "<-" in st else o)
                    yield Case("unpack:%s:%s:%s" % (t, "".join(parts), key), [], "i64", csp, "i64 @(void){ tr(%d); %s return 7; }" % (len(want), "".join("tr(%d);" % w for w in want)))


# operations on slices (csp, C); %T element type.  arrays a[2], b[3], c[2]; slices v w g s.v t.v r[0] r[1] and pointer p to a slice, z local slice of a literal
OPS = [
    ("v = a;", "v=(V)&a;"), ("v = b;", "v=(V)&b;"), ("w = v;", "w=v;"), ("v = w;", "v=w;"), ("g = v;", "g=v;"), ("w = g;", "w=g;"),
    ("s.v = w;", "s.v=w;"), ("v = s.v;", "v=s.v;"), ("t = s;", "t=s;"), ("s = @_S::{3, g, 4};", "s=(@_S){3,g,4};"), ("g = t.v;", "g=t.v;"),
    ("r[0] = v;", "r[0]=v;"), ("r[1] = r[0];", "r[1]=r[0];"), ("w = r[1];", "w=r[1];"), ("p = &w;", "p=&w;"), ("p = &s.v;", "p=&s.v;"), ("p = &g;", "p=&g;"),
    ("*p = v;", "*p=v;"), ("v = *p;", "v=*p;"), ("v[0] = 50: %T;", "v->e[0]=50;"), ("w[^1] += 1: %T;", "w->e[w->n-1]+=1;"), ("(*p)[1] = 60: %T;", "(*p)->e[1]=60;"), ("s.v[0]++;", "s.v->e[0]++;"),
    ("a[1] = 70: %T;", "a.e[1]=70;"), ("b = [21: %T, 22: %T, 23: %T];", "b.e[0]=21;b.e[1]=22;b.e[2]=23;"), ("c = a;", "c=a;"), ("v = c;", "v=(V)&c;"),
    ("v = @_id(g);", "v=g;"), ("@_swap(&v, p);", "{V x=v; v=*p; *p=x;}"), ("w = @_mk(v).v;", "w=v;"), ("@_set(w, v[1]);", "w->e[0]=v->e[1];"), ("v = [31: %T, 32: %T];", "v=(V)&z; z.e[0]=31; z.e[1]=32;"),
    ("{ let l = |x: %T[]| %T[] => { <- x; }; v = l(w); }", "v=w;"), ("{ let l = || => { @_set(g, 80: %T); }; l(); }", "g->e[0]=80;"),
    ("{ let h = v; v = w; w = h; }", "{V h=v; v=w; w=h;}"), ("if (len v) == (len w) v = g;", "if(v->n==w->n) v=g;"),
]
OBS = ["v", "w", "g", "s.v", "t.v", "r[0]", "r[1]"]


def sequences(depth, types, tag, ops=OPS):
    for t in types:
        top = ("type @_S: struct { n: i8, v: %T[], m: i8 };\nlet @_g: %T[];\nfn @_id(x: %T[]): %T[] { <- x; }\nfn @_mk(x: %T[]): @_S { let q: @_S; q.n = 1; q.v = x; <- q; }\n"
               "fn @_set(x: %T[], k: %T) { x[0] = k; }\nfn @_swap(x: &(%T[]), y: &(%T[])) { let h = *x; *x = *y; *y = h; }\n"
               "fn @_o(v: %T[]) { tr((len v): i64); for let i = 0; i < ((len v): i32); i++; tr(v[i]: i64); }\n").replace("%T", t)
        # a csp array is its length followed by the elements
        ctop = "typedef struct { i64 n; %s e[3]; } *V; typedef struct { i64 n; %s e[2]; } A2; typedef struct { i64 n; %s e[3]; } A3; typedef struct { i8 n; V v; i8 m; } S;\n" % (t, t, t)
        ctop = ctop.replace(" *V;", " *@_V;").replace(" A2;", " @_A2;").replace(" A3;", " @_A3;").replace("{ i8 n; V v; i8 m; } S;", "{ i8 n; @_V v; i8 m; } @_S;")
        ctop += "static void @_o(@_V v){ tr(v->n); for(int i=0;i<v->n;i++) tr((i64)v->e[i]); }\n"
        pre = "let a = [1: %T, 2: %T]; let b = [3: %T, 4: %T, 5: %T]; let c = [6: %T, 7: %T]; let v: %T[] = a; let w: %T[] = b; @_g = c; let s = @_S::{1, b, 2}; let t: @_S; t.v = a; let r: %T[] 'c[2]; r[0] = c; r[1] = b; let p = &v; ".replace("%T", t)
        cpre = "@_A2 a={2,{1,2}},c={2,{6,7}},z={2,{0,0}}; @_A3 b={3,{3,4,5}}; @_V v=(@_V)&a,w=(@_V)&b,g=(@_V)&c; @_S s={1,(@_V)&b,2},t={0,(@_V)&a,0}; @_V r[2]={(@_V)&c,(@_V)&b}; @_V *p=&v; "
        ob = "".join("@_o(%s); " % e for e in OBS + ["*p"]) + "@_o(a); @_o(b); @_o(c); tr(s.n: i64); tr(s.m: i64); tr(t.n: i64); tr(t.m: i64); "
        cob = "".join("@_o(%s); " % e for e in OBS + ["*p"]) + "@_o((@_V)&a); @_o((@_V)&b); @_o((@_V)&c); tr(s.n); tr(s.m); tr(t.n); tr(t.m); "
        for n in range(1, depth + 1):
            for seq in itertools.permutations(range(len(ops)), n):
                def g(x):
                    import re
                    return re.sub(r"\bg\b", "@_g", x).replace("%T", t)
                cs = " ".join(g(ops[o][0]) for o in seq)
                cc = " ".join(re_V(ops[o][1]).replace("%T", t) for o in seq)
                yield Case("%s:%s:%s" % (tag, t, ",".join(map(str, seq))), [], "i64", top + "fn @(): i64 { %s %s %s <- 7; }" % (pre, cs, g(ob)), ctop + "i64 @(void){ %s %s %s return 7; }" % (cpre, cc, cob))


def re_V(x):
    import re
    return re.sub(r"\bV\b", "@_V", x)


def run(chk, repo):
    cs = list(literals()) + list(unpacks())
    cs += list(sequences(2, ["i32", "i8", "i64", "f64"] if chk.thorough else ["i32", "i8"], "seq"))
    if chk.thorough:
        cs += list(sequences(3, ["i32"], "seq"))
    explore(chk, repo, cs, batch=100)
    noc = [c for c in cs if not c.key.startswith("seq") or "|" not in c.csp.split("fn @()")[-1]]
    explore(chk, repo, noc, batch=100, backend="C", tag="C:")
    chk.cov["exhaustive"] = True
    chk.cov["rule"] = "one program per (element type, literal type, place) / operation sequence; evaluations count executions on one input; distinct_nontrivial counts distinct (result, trace) hashes"
