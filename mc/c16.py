"""C16 - the compiler ends orderly on every input."""
import itertools
import os
import re
import shutil
import struct
import core

TOK = list(dict.fromkeys('( ) { } [ ] < > ; : :: , = == + - * & ! . .. ... => <- |> | ` ^ ~ @ $ # ? % 1 2.5 "s" \'c\' x f i32 S fn let const type struct union enum interface dyn if else while for loop match with do unless return ret break continue defer sizeof alignof typeof len import namespace using macro operator extern asm nil true false += ++ && << :&'.split()))
SMALL = '( ) { } [ ] ; : , = - & . => <- | 1 x f S fn let if match typeof'.split()
M = "\nfn main(): i32 { <- 0; }\n"
S = "type S: struct { a: i32 };\n"
CTX = {
    "top": S + "§" + M, "stmt": S + "fn f(x: i32): i32 { § }" + M, "expr": S + "fn f(x: i32): i32 { let y = § ; <- 0; }" + M, "type": S + "fn f(x: §): i32 { <- 0; }" + M, "params": S + "fn f(§): i32 { <- 0; }" + M,
    "body": S + "fn f(x: i32): i32 §" + M, "ret": S + "fn f(x: i32): § { <- 0; }" + M, "struct": "type T: struct { § };" + M, "enum": "type T: enum { § };" + M, "interface": "type T: interface { § };" + M, "match": S + "fn f(x: i32): i32 { match x { § } <- 0; }" + M,
    "args": S + "fn f(x: i32): i32 { <- f(§); }" + M, "index": S + "fn f(x: i32): i32 { let s: i32[3]; <- s[§]; }" + M, "array": S + "fn f(x: i32): i32 { let s = [§]; <- 0; }" + M, "literal": S + "fn f(x: i32): i32 { let s = S::{§}; <- s.a; }" + M, "macro": S + "macro m(a) { § }\nfn f(x: i32): i32 { m!(1); <- 0; }" + M,
    "macroarg": S + "macro m(a, b) { a + b }\nfn f(x: i32): i32 { <- m!(§); }" + M, "macroparam": S + "macro m(§) { 1 }\nfn f(x: i32): i32 { <- m!(1); }" + M, "directive": S + "[§] fn f(x: i32): i32 { <- 0; }" + M, "global": S + "let g: i32 = §;" + M, "lambda": S + "fn f(x: i32): i32 { let l = |§| i32 => { <- 1; }; <- 0; }" + M,
    "namespace": "namespace n { § }" + M, "for": S + "fn f(x: i32): i32 { for § { } <- 0; }" + M, "typedef": "type T: §;" + M, "cast": S + "fn f(x: i32): i32 { <- (x: §); }" + M, "end": S + "fn main(): i32 { <- 0; }\n§",
}

BASES = {
    "types": '''type P: struct { x: i32, y: f64 };
type U: union { a: i64, b: u8 };
type E: enum { A, B = 5, C };
type I: interface { fn get(p: &I): i32, };
type A: i32[3];
dyn(I) fn get(p: &P): i32 = p.x;
let g: A;
const k: i32 = 3 + 4 * 2;
fn main(): i32 {
    let p = P::{1, 2.5: f64};
    let d: dyn I = &p;
    let u: U; u.a = 7: i64;
    let e = E::B;
    let s = [1, 2, 3];
    g[1] = s[^1] + (e: i32);
    let q: &P = &p; q.x += d.get();
    <- g[1] + p.x + (u.b: i32) + k + (sizeof P): i32;
}
''',
    "control": '''fn f(n: i32, x: f64): i32 {
    let r = 0;
    if n > 3 && x < 2.0: f64 { r = 1; } else r = 2;
    while r < 10 { r++; if r == 5 { continue; } }
    for let i = 0; i < n; i++; { r += i; }
    for 0 .. 3 { r -= 1; }
    loop { r++; break; }
    do { r *= 2; } while r < 50;
    do { r -= 1; } unless r > 9;
    match r { 1 => r = 4; < 7 => { <- 3; } _ => r++; }
    defer r = 0;
    <- if r > 4 => r else f(n - 1, x);
}
fn main(): i32 { <- f(4, 1.5: f64) |> $ + 1; }
''',
    "names": '''import "o.csp";
macro add(a, b) { (a + b) }
macro twice { t(2) }
namespace n { namespace m { fn g(x: i32): i32 = x * 2; } let v: i32 = 4; }
operator <+> (a: i32, b: i32): i32 = a * 10 + b;
extern "C" fn puts(s: &const char): i32;
fn t(x: i32): i32 { <- x + 1; }
[private] fn h(args: ...): i32 { <- 1; }
fn main(): i32 {
    using n::m;
    let x = 3;
    let l = |y: i32| i32 => { x += y; <- x; };
    let c: &char = "a\\n" "b";
    <- add!(l(2), g(1)) <+> (x `o` twice!) + n::v + (c[0]: i32) + h(1, 2);
}
''',
}
FILES = {"o.csp": "fn o(a: i32, b: i32): i32 = a - b;\n"}


def lex(text):
    return re.findall(r'"(?:[^"\\]|\\.)*"|\w+(?:\.\d+)?|::|=>|<-|\|>|&&|\+\+|\+=|-=|\*=|==|\.\.\.|<\+>|\.\.|\S', text)


def texts(chk):
    th = chk.thorough
    for c, t in CTX.items():
        for n in (0, 1, 2):
            for s in itertools.product(TOK, repeat=n):
                yield "%s:%s" % (c, " ".join(s)), t.replace("§", " ".join(s))
        if th or c in ("stmt", "expr", "top", "type", "match", "args"):
            for s in itertools.product(SMALL if not th else SMALL + ["enum", "struct", "{", "@", "#", '"s"', "0"], repeat=3):
                yield "%s:%s" % (c, " ".join(s)), t.replace("§", " ".join(s))
    # programs cut off after every token and character; with one token left out, doubled, exchanged, replaced or inserted
    for b, t in BASES.items():
        tk = lex(t)
        yield b, t
        for i in range(len(t)):
            yield "%s:cut%d" % (b, i), t[:i]
        for i in range(len(tk)):
            J = lambda x: " ".join(x) + "\n"
            yield "%s:del%d" % (b, i), J(tk[:i] + tk[i + 1:])
            yield "%s:dup%d" % (b, i), J(tk[:i] + [tk[i]] + tk[i:])
            if i:
                yield "%s:swap%d" % (b, i), J(tk[:i - 1] + [tk[i], tk[i - 1]] + tk[i + 1:])
            for x in (TOK if th else SMALL):
                yield "%s:rep%d:%s" % (b, i, x), J(tk[:i] + [x] + tk[i + 1:])
                yield "%s:ins%d:%s" % (b, i, x), J(tk[:i] + [x] + tk[i:])
    # files of every one and two characters
    for a in range(256):
        yield "byte%d" % a, chr(a) if a < 128 else bytes([a])
    ch = [chr(c) for c in list(range(1, 14)) + list(range(32, 127))]
    for a in ch:
        for b in ch:
            yield "chars:%r" % (a + b), a + b


PROP = dict(
    id="C16", title="The compiler ends orderly on every input: a program or a message",
    statement="Whatever text it is given - any sequence of tokens in any place of a program, programs cut off anywhere, with any token left out, doubled, exchanged, inserted or replaced, any characters - the compiler ends by itself, and either produces the output asked for, which the assembler and the linker accept, or says what is wrong and produces no output; it never crashes, hangs or ends silently.",
    quantifier=dict(over=["inputs"], text="all sequences of up to 2 of 86 tokens in 26 places, of 3 of 25 tokens in 6 places (thorough: 26 places); all cuts and all one-token edits of three programs using all of the language; all files of 1 and 2 characters"),
    why_tests_cant="The tests compile correct programs only.",
    anchors=dict(files=["src/compiler/parser/parser.c", "src/compiler/lexer/lexer.c", "src/compiler/preprocessor/preprocessor.c", "src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c", "src/compiler/error/error.c"], mechanism="throw_error, parse_*, validate_*, error recovery"),
    technique="exhaustive enumeration of all inputs within the bound, each given to the compiler, with its exit, messages and output files observed", level="exploration",
    level_note="Every input of the bounded space is compiled; accepted ones are assembled and linked. No sampling.")


def run(chk, repo):
    items = [(k, t if isinstance(t, bytes) else t.encode()) for k, t in {t: (k, t) for k, t in texts(chk)}.values()]
    exe = os.path.join(repo.root, "batch")
    rc, o, e = core.sh(["gcc", "-O2", "-w", "-o", exe, os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch.c")])
    if rc:
        raise core.CheckError("cannot build batch: " + e.decode()[:500])

    def batch(its, secs, workers):
        d = os.path.join(repo.root, "batchdir")
        os.makedirs(d, exist_ok=True)
        rc, o, e = core.sh([exe, repo.cspc, repo.std, d, str(workers), str(secs)], timeout=6000, input=b"".join(struct.pack("<I", len(t)) + t for _, t in its))
        shutil.rmtree(d, ignore_errors=True)
        if rc:
            raise core.CheckError("batch failed: %s" % e.decode()[:500])
        res, p = [None] * len(its), 0
        while p < len(o):
            i, st, ok, h, n = struct.unpack_from("<IiBQI", o, p)
            p += 21
            res[i] = (st, ok, h, core.plain(o[p:p + n].decode(errors="replace")))
            p += n
        if None in res:
            raise core.CheckError("batch: results are missing")
        return res

    def judge(r):
        st, ok, h, log = r
        if st == -1:
            return "compiler does not end"
        if st & 127 or st >> 8 in (99, 134, 139, 127):
            return "compiler crashed (wait status %d): %s" % (st, log[-300:].strip())
        if not ok and not log.strip():
            return "no output and no message"
        return None

    res = batch(items, 10, core.NCPU)
    bad = [i for i, r in enumerate(res) if judge(r)]
    # once more, one after another, with more time: only what fails again counts
    if bad:
        bad = bad[:60]
        for i, r in zip(bad, batch([items[i] for i in bad], 60, 1)):
            if judge(r):
                chk.violation(items[i][0], "%r: %s" % (items[i][1][-200:], judge(r)), {"text": items[i][1].decode(errors="replace"), "observed": judge(r)})
    # whatever is accepted is assembled and linked (once per distinct output)
    seen = {}
    for i, r in enumerate(res):
        if r[1] and not judge(r):
            seen.setdefault(r[2], i)

    def build(i):
        if chk.enough():
            return None
        wd = repo.workdir()
        src = os.path.join(wd, "u.csp")
        with open(src, "wb") as f:
            f.write(items[i][1])
        with open(os.path.join(wd, "o.csp"), "w") as f:
            f.write(FILES["o.csp"])
        r = repo.run_cspc(wd, ["build", src, "-p", repo.std, "-o", os.path.join(wd, "t.out"), "--silent"])
        ok = os.path.exists(os.path.join(wd, "t.out"))
        shutil.rmtree(wd, ignore_errors=True)
        return None if ok else core.plain((r[1] + r[2]).decode(errors="replace")).strip()[-400:] or "no message"

    todo = sorted(seen.values())
    for i, msg in zip(todo, core.pmap(build, todo)):
        if msg:
            chk.violation(items[i][0], "%r: accepted, but not built: %s" % (items[i][1][-200:], msg), {"text": items[i][1].decode(errors="replace"), "observed": msg})
    chk.add("evaluations", len(items))
    chk.add("distinct_nontrivial", len(items))
    chk.add("accepted", sum(r[1] for r in res))
    chk.add("distinct_programs_built", len(todo))
    for it in items[:1] + items[len(items) // 2:len(items) // 2 + 1] + items[-1:]:
        chk.sample({"text": it[1].decode(errors="replace")[-200:]})
    chk.cov["rule"] = "one evaluation per text given to the compiler; all texts are distinct"
    chk.cov["exhaustive"] = True
