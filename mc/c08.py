"""C08 - literals, comments and white space: the tokens of a program mean what is written."""
import itertools
import core
import harness
import verdict
from cases import *

ATOMS = [("a", b"a"), ("7", b"7"), (" ", b" "), ("\\n", b"\n"), ("\\\\", b"\\"), ("\\\"", b"\""), ("\\'", b"'"), ("\\0", b"\0"), ("\\x41", b"A"), ("\\xfF", b"\xff"), ("#", b"#"), ("#[", b"#["), ("]#", b"]#"),
         ("'", b"'"), ("?", b"?"), ("%s", b"%s"), ("\u00e9", "\u00e9".encode()), ("\u00b2", "\u00b2".encode()), ("//", b"//"), ("\n", b"\n"), ("\t", b"\t"), ("$", b"$"), (";", b";"), ("{", b"{"), ("\\e", b"\x1b")]
ESC = dict(a=7, b=8, t=9, v=11, n=10, r=13, f=12, e=27, **{"0": 0, "\\": 92, "'": 39, '"': 34})


def esc_atoms():
    for c, v in ESC.items():
        yield "\\" + c, bytes([v])
    for v in range(256):
        yield "\\x%02x" % v, bytes([v])
        yield "\\x%02X" % v, bytes([v])
    for c in range(32, 127):
        if chr(c) not in '"\\':
            yield chr(c), bytes([c])


def strings(depth):
    """(literal text, bytes)"""
    for n in range(0, depth + 1):
        for t in itertools.product(ATOMS, repeat=n):
            yield '"%s"' % "".join(a for a, _ in t), b"".join(b for _, b in t)
    for a, b in esc_atoms():
        for a2, b2 in (("", b""), ("1", b"1"), ("F", b"F"), ("\\\\", b"\\"), ("\\0", b"\0")):
            yield '"%s%s"' % (a, a2), b + b2
            yield '"%s%s"' % (a2, a), b2 + b
    # lengths around every buffer size
    for n in list(range(0, 140)) + list(range(250, 262)) + [1023, 1024, 1025, 8189, 8190, 8191, 8192, 8193, 20000]:
        yield '"%s"' % ("q" * n), b"q" * n
        yield '"%s\\n"' % ("q" * n), b"q" * n + b"\n"
        yield '"%s"' % ("\\\\" * n), b"\\" * n
    # adjacent literals are one literal
    sep = [" ", "", "\n", " #[ \" ]# ", " # \"\n"]
    pieces = [("", b""), ("a", b"a"), ("\\\\", b"\\"), ("\\x41", b"A"), ("\\0", b"\0"), ("1", b"1")]
    for s in sep:
        for n in (2, 3):
            for t in itertools.product(pieces, repeat=n):
                yield s.join('"%s"' % a for a, _ in t), b"".join(b for _, b in t)


FORMS = {"ret": ("", "<- %s;"), "global": ("let @g: &char = %s;\n", "<- @g;"), "arg": ("fn @i(s: &char): &char = s;\n", "<- @i(%s);"), "var": ("", "let a = \"x\"; a = %s; <- a;"), "cond": ("", "let b = true; <- (if b => %s else \"no\");")}


def str_batch(repo, backend, form, items):
    top, body = FORMS[form]
    src = "".join((top + "fn @(): &char { " + body + " }\n").replace("@", "s%d" % i).replace("%s", lit) for i, (lit, _) in enumerate(items))
    d = "static const char DATA[]={%s};\nstatic const int LEN[]={%s};\n" % (",".join(str(x) for _, b in items for x in b + b"\0"), ",".join(str(len(b)) for _, b in items))
    d += r'''
int main(void){ traps(); csp_main(); const char*p=DATA; for(int i=0;i<N(LEN);i++){ const char*s=((const char*(*)(void))F[i])(); TRYQ(if(memcmp(s,p,LEN[i]+1)) { printf("V %d got",i); for(int k=0;k<=LEN[i]&&k<30;k++)printf(" %02x",(u8)s[k]); puts(""); }); if(SIG)printf("V %d signal %d\n",i,SIG); p+=LEN[i]+1; }
 printf("TOTAL %d\n",(int)N(LEN)); return 0; }
'''
    try:
        exe, wd, _ = harness.build(repo, src, ["s%d" % i for i in range(len(items))], d, backend=backend)
    except harness.BuildFailure as b:
        if len(items) == 1:
            return [(items[0], "does not build (%s): %s" % (b.stage, core.plain(b.log)[:300]))]
        st = max(1, len(items) // 6)
        out = []
        for k in range(0, len(items), st):
            out += str_batch(repo, backend, form, items[k:k + st])
            if len(out) >= 3:
                break
        return out
    rc, o, e = harness.run(exe)
    core.rmdir(wd)
    lines = o.decode(errors="replace").splitlines()
    if not lines or lines[-1] != "TOTAL %d" % len(items):
        return [(items[0], "program ended abnormally: rc=%s %s" % (rc, lines[-1:]))]
    return [(items[int(l.split()[1])], l.split(" ", 2)[2]) for l in lines if l[0] == "V"]


def run_strings(chk, repo, backend, form, items):
    items = list(items)
    step = 600
    jobs = [items[i:i + step] for i in range(0, len(items), step)]

    def one(j):
        if chk.enough():
            return []
        r = str_batch(repo, backend, form, j)
        chk.seen_bad += len(r)
        return r
    for r in core.pmap(one, jobs):
        for (lit, b), msg in r:
            chk.violation("str:%s:%s:%s" % (backend or "asm", form, lit[:60].encode("unicode_escape").decode()), "%s literal %s, expected bytes %s: %s" % (form, lit[:80], b[:30].hex(" "), msg), {"literal": lit, "backend": backend or "assembly", "form": form, "observed": msg})
    chk.add("evaluations", len(items))
    chk.add("distinct_nontrivial", len({b for _, b in items}))
    chk.add("string_literals", len(items))


# ---------------------------------------------------------------- characters and numbers
def chars():
    for v in range(32, 127):
        if chr(v) not in "'\\@":
            yield chr(v), v
    for c, v in ESC.items():
        yield "\\" + c, v


def char_cases():
    for t, v in chars():
        for nm, top, body in (("ret", "", "<- '%s';"), ("let", "", "let x = '%s'; <- x;"), ("global", "let @g: char = '%s';\n", "<- @g;"), ("const", "const @g: char = '%s';\n", "<- @g;"),
                              ("match", "", "match x { '%s' => <- x; _ => {} } <- 'x';"), ("array", "", "let a: char[3] = ['x', '%s', 'y']; <- a[1];")):
            par = [("i8", [v])] if nm == "match" else []
            yield Case("char:%s:%s" % (nm, t), par, "char", (top + "fn @(" + ("x: char" if par else "") + "): char { " + body + " }").replace("%s", t), "char @(%s){return %d;}" % ("char x" if par else "void", v))
        yield Case("char:int:" + t, [], "i32", "fn @(): i32 = '%s': i32;" % t, "i32 @(void){return %d;}" % v)
        yield Case("char:cmp:" + t, [("char", list(range(-128, 128)))], "bool", "fn @(x: char): bool = x == '%s';" % t, "bool @(char x){return x==%d;}" % v)
        yield Case("char:adj:" + t, [], "i32", "fn @(): i32 = ('%s': i32) + ('\\'': i32) + ('%s': i32);" % (t, t), "i32 @(void){return %d;}" % (v * 2 + 39))


def int_literals():
    vals = sorted({0, 1, 7, 9, 10, 42, 99, 127, 128, 255, 256, 1000, 65535, 65536} | {2**k + d for k in (31, 32, 33, 62, 63) for d in (-1, 0, 1)} | {2**64 - 1, 2**64 - 2, 10**18, 10**19, 0x123456789abcdef})
    for v in vals:
        forms = [str(v), "0x%x" % v, "0x%X" % v, "0b%s" % bin(v)[2:], "0o%o" % v]
        s = str(v)
        forms += ["0" + s, "000" + s]
        forms += [s[:i] + "_" + s[i:] for i in range(1, len(s))]
        h = "%x" % v
        forms += ["0x" + h[:i] + "_" + h[i:] for i in range(1, len(h))]
        forms += ["_".join(s), "0x" + "_".join(h), "0b" + "_".join(bin(v)[2:]), s + "_", "0x00" + h]
        for f in dict.fromkeys(forms):
            yield f, v


def int_cases():
    for f, v in int_literals():
        sz = 4 if v < 2**31 else 8
        yield Case("int:%s" % f, [], "u64", "fn @(): u64 = (%s): u64;" % f, "u64 @(void){return %dULL;}" % v)
        yield Case("intsz:%s" % f, [], "u64", "fn @(): u64 { let x = %s; <- sizeof typeof x; }" % f, "u64 @(void){return %d;}" % sz)
        yield Case("intsg:%s" % f, [], "bool", "fn @(): bool { let x = %s; x = ~x; <- x < (0: i32); }" % f, "bool @(void){return %d;}" % (v < 2**63))
        yield Case("intg:%s" % f, [], "u64", "let @g: u64 = %s;\nfn @(): u64 = @g;" % f, "u64 @(void){return %dULL;}" % v)
        if v <= 2**63:
            yield Case("intneg:%s" % f, [], "i64", "fn @(): i64 = -((%s): i64);" % f, "i64 @(void){return (i64)-%dULL;}" % v)


def float_cases():
    ints = ["0", "1", "9", "10", "16777217", "00012", "340282346638528859811704183484516925440", "340282356779733661637539395458142568448", "1_000"]
    fracs = ["", "0", "1", "5", "25", "1_5", "333333333", "999999999", "000001", "1" + "0" * 50, "0" * 44 + "7", "0" * 45 + "7"]
    for a in ints:
        for b in fracs:
            t = a + "." + b
            c = t.replace("_", "")
            big = float(c) > 3.4028234663852886e38
            yield Case("flt:" + t, [], "f64", "fn @(): f64 { let x = %s; <- x: f64; }" % t, "f64 @(void){return (%s)%s;}" % ("double" if big else "float", c + ("0" if not b else "")))
            yield Case("fltsz:" + t, [], "u64", "fn @(): u64 { let x = %s; <- sizeof typeof x; }" % t, "u64 @(void){return %d;}" % (8 if big else 4))
            if not big:
                yield Case("fltg:" + t, [], "f32", "let @g: f32 = %s;\nfn @(): f32 = @g;" % t, "f32 @(void){return (float)%s;}" % (c + ("0" if not b else "")))


# ---------------------------------------------------------------- comments and white space
def strip(text):
    """reference scanner: text without comments; None if a comment is not closed"""
    out, i = "", 0
    while i < len(text):
        if text.startswith("#[", i):
            d, i = 1, i + 2
            while d:
                if i >= len(text):
                    return None
                if text.startswith("#[", i):
                    d, i = d + 1, i + 2
                elif text.startswith("]#", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
            out += " "
        elif text[i] == "#":
            while i < len(text) and text[i] != "\n":
                i += 1
        else:
            out += text[i]
            i += 1
    return out


CP = ["+1", "+10", "#", "#[", "]#", "\n", "]", "["]


def comment_programs(depth):
    for n in range(0, depth + 1):
        for t in itertools.product(CP, repeat=n):
            yield "".join(t)


def comments(depth):
    """-> (cases, verdict items)"""
    good, bad = [], []
    for s in comment_programs(depth):
        body = "fn @(): i32 { <- 5 " + s + "\n; }"
        st = strip(body)
        mid = None
        if st is not None and st.startswith("fn @(): i32 { <- 5") and st.endswith("\n; }"):
            mid = "".join(st[len("fn @(): i32 { <- 5"):-len("\n; }")].split())
        if mid is not None and all(c in "+10" for c in mid):
            v, ok = 5, True
            for p in [x for x in mid.split("+")[1:]]:
                if not p:
                    ok = False
                else:
                    v += int(p)
            if mid and mid[0] != "+":
                ok = False
            if ok:
                good.append(Case("cmt:" + s.encode("unicode_escape").decode(), [], "i32", body, "i32 @(void){return %d;}" % v))
                continue
        # what is left does not parse or swallows the rest of the program
        if n_tokens_ok(mid):
            continue
        bad.append(("cmtbad:" + s.encode("unicode_escape").decode(), body.replace("@", "f") + "\nfn main(): i32 { <- f(); }\n", False))
    return good, bad


def n_tokens_ok(mid):
    # `[` and `]` can form an index expression, which is well-formed for the parser: not judged here
    return mid is not None and "[" in mid


SEPS = [" ", "\n", "\t", "\r\n", "#[x]#", "#c\n", " #[#[\"]#]# ", "#[\n\n]#"]


def sep_cases(k):
    """every assignment of separators between the tokens of a few functions (k positions vary at a time)"""
    T = [("expr", "fn @ ( a : i32 ) : i32 { <- a * ( 3 + a ) ; }", "i32 @(i32 a){return a*(3+a);}"),
         ("if", "fn @ ( a : i32 ) : i32 { if a > 3 { <- 1 ; } else <- 2 ; <- 3 ; }", "i32 @(i32 a){return a>3?1:2;}"),
         ("call", "fn @_h ( x : i32 , y : i32 ) : i32 = x - y ;\nfn @ ( a : i32 ) : i32 { let t : i32 [ 2 ] = [ a , 7 ] ; <- @_h ( t [ 1 ] , t [ 0 ] ) ; }", "i32 @(i32 a){return 7-a;}"),
         ("str", "fn @ ( a : i32 ) : i32 { let s = \"x#y\" \"#[\" ; <- ( s [ 1 ] : i32 ) + ( s [ 4 ] : i32 ) + ( '#' : i32 ) + a ; }", "i32 @(i32 a){return '#'+'['+'#'+a;}")]
    for nm, text, ref in T:
        toks = text.replace("\n", " ").split(" ")
        n = len(toks) - 1
        for i in range(n):
            for s in SEPS:
                yield Case("sep:%s:%d:%s" % (nm, i, s.encode("unicode_escape").decode()), [("i32", [0, 3, 4, 9])], "i32", " ".join(toks[:i + 1]) + s + " ".join(toks[i + 1:]), ref)
        for s in SEPS + [""]:
            if s:
                yield Case("sep:%s:all:%s" % (nm, s.encode("unicode_escape").decode()), [("i32", [0, 3, 4, 9])], "i32", s + s.join(toks) + s, ref)
        for i in range(n):
            for j in range(i + 1, n):
                for s, s2 in itertools.product(SEPS, repeat=2) if k > 1 else (("#[x]#", "#c\n"), ("\n", "#[x]#")):
                    yield Case("sep2:%s:%d:%d:%s:%s" % (nm, i, j, s.encode("unicode_escape").decode(), s2.encode("unicode_escape").decode()), [("i32", [0, 4])], "i32",
                               " ".join(toks[:i + 1]) + s + " ".join(toks[i + 1:j + 1]) + s2 + " ".join(toks[j + 1:]), ref)
    # no white space is needed where two tokens cannot merge
    for e, r in (("a*(3+a)", "a*(3+a)"), ("(a+1)*(a-1)", "(a+1)*(a-1)"), ("a/3+a%3", "a/3+a%3"), ("a<<2|a>>1", "a<<2|a>>1"), ("a&7^a", "a&7^a"), ("(a<3):i32", "a<3"), ("(-a)+(~a)", "(-a)+(~a)"), ("(if a>=2=>7 else 8)", "a>=2?7:8")):
        toks = e.replace("(", " ( ").replace(")", " ) ")
        yield Case("nosep:" + e, [("i32", [0, 1, 2, 3, 7])], "i32", "fn @(a:i32):i32=%s;" % e, "i32 @(i32 a){return %s;}" % r)
        yield Case("nosep_:" + e, [("i32", [0, 1, 2, 3, 7])], "i32", "fn @(a: i32): i32 = %s ;" % toks, "i32 @(i32 a){return %s;}" % r)


# ---------------------------------------------------------------- identifiers
def ident_cases():
    base = ["a", "A", "_a", "a_", "a1", "a_1", "a?", "a'", "a''", "a?'", "a'?", "__a", "x??", "aB", "ab", "a__b", "iff", "If", "fnn", "lets", "let_", "ret'", "true_", "nil?", "returned", "_1", "i32_", "main_", "a0x1"]
    for i, x in enumerate(base):
        for j, y in enumerate(base):
            if x != y:
                yield Case("id:%s:%s" % (x, y), [("i32", [0, 5])], "i32", "fn @_%s(v: i32): i32 = v + 1;\nfn @_%s(v: i32): i32 = v * 10;\nfn @(v: i32): i32 { let %s = @_%s(v); let %s = @_%s(v); <- %s * 1000 + %s; }" % (x, y, x, x, y, y, x, y), "i32 @(i32 v){return (v+1)*1000+v*10;}")
                yield Case("idg:%s:%s" % (x, y), [("i32", [0, 5])], "i32", "let @_%s: i32 = 3;\nlet @_%s: i32 = 4;\nfn @(v: i32): i32 { @_%s = v; <- @_%s * 10 + @_%s; }" % (x, y, x, x, y), "i32 @(i32 v){return v*10+4;}")
    for n in [1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 4000]:
        for c in ("q", "?", "'"):
            x = "q" + c * (n - 1)
            yield Case("idlen:%s:%d" % (c, n), [("i32", [0, 5])], "i32", "fn @_%sx(v: i32): i32 = v + 1;\nfn @_%sy(v: i32): i32 = v + 2;\nfn @(v: i32): i32 { let %s = @_%sx(v); let %sz = @_%sy(v); <- %s * 1000 + %sz; }" % ((x,) * 8), "i32 @(i32 v){return (v+1)*1000+v+2;}")


def bad_tokens():
    m = "fn main(): i32 { let s = %s; <- 0; }\n"
    for c in range(33, 127):
        ch = chr(c)
        if ch not in "".join(ESC) + "x":
            yield "badesc:" + ch, m % ('"a\\%sb"' % ch), False
        if ch not in "".join(ESC):
            yield "badcharesc:" + ch, m % ("'\\%s'" % ch), False
        if ch not in "0123456789abcdefABCDEF":
            yield "badhex1:" + ch, m % ('"\\x%s0"' % ch), False
            if ch != '"':
                yield "badhex2:" + ch, m % ('"\\x0%sz"' % ch), False
    for lit in ('"', '"abc', '"abc\\"', '"\\\\\\"', "'a", "'", "''", "'ab'", "'\\", "'\\n", "#[", "#[ ]", "#[#[]#"):
        yield "unterminated:" + lit, m % lit, False
    for lit in ("18446744073709551616", "99999999999999999999", "0x10000000000000000", "0b1" + "0" * 64, "0o2000000000000000000000", "1.2.3", "1a", "0xg", "0b2", "0o8", "1__a", "0x1.5"):
        yield "badnum:" + lit, m % lit, False
    for ch in "\\\u00e4\u20ac\x01\x7f":
        yield "badtok:%x" % ord(ch), m % ("1 %s 2" % ch), False
    for lit in ('"abc"', "'a'", "1", "18446744073709551615", "0xffffffffffffffff", "1.5", "#[ x ]# 1", "# x\n1"):
        yield "goodtok:" + lit, m % lit, True


PROP = dict(
    id="C08", title="Literals, identifiers, comments and white space are read exactly as written",
    statement="A string literal denotes exactly the bytes written, with every escape sequence replaced, adjacent literals joined and a terminating zero, whatever its length and wherever it stands; a character literal denotes its character; integer literals in every base, with separators, denote their exact value and are i32, i64 or u64 according to their size; float literals denote the nearest f32 (f64 above its range). Comments, nested to any depth, and any white space between tokens do not change a program; identifiers that differ in any character or length are different names. Malformed tokens (unknown escapes, unterminated strings, characters or comments, numbers that do not fit 64 bits) are rejected with a message.",
    quantifier=dict(over=["inputs", "programs"], text="all strings over 25 atoms to a depth, all escapes, lengths across every buffer size; all characters; boundary integers x all spellings; comment markers in every order to a depth; every separator at every (pair of) position(s)"),
    why_tests_cant="The existing tests contain a few ordinary literals; which sequence of quotes, backslashes, escapes or comment markers is misread depends on exact combinations and lengths.",
    anchors=dict(files=["src/compiler/lexer/lexer.c", "src/compiler/parser/parser.c", "src/compiler/codegen/asm/relocation.c"], mechanism="lexer_next_token, lexer_get_str, lexer_skip_comment, parse_int_lit, escape_sequence, gen_identifier"),
    technique="exhaustive bounded enumeration of token sequences against a reference scanner, executed on the real compiler", level="exploration",
    level_note="All literals and token sequences in the bounds are compiled by the real compiler and the resulting bytes and values compared with the reference scanner. \\xNN inside character literals and operators glued to other operator characters (a language quirk) are outside the bounds.")


def run(chk, repo):
    d = 3 if chk.thorough else 2
    items = list(strings(d))
    if not chk.thorough:
        # depth 3 over the atoms that interact with the end of a literal
        core_atoms = [ATOMS[i] for i in (0, 4, 5, 6, 7, 8, 10, 19)]
        for n in (3, 4):
            for t in itertools.product(core_atoms, repeat=n):
                items.append(('"%s"' % "".join(a for a, _ in t), b"".join(b for _, b in t)))
    items = list(dict.fromkeys(items))
    for f in FORMS:
        run_strings(chk, repo, None, f, items if f == "ret" else [x for x in items if len(x[0]) < 40][::1 if chk.thorough else 4])
    run_strings(chk, repo, "C", "ret", items if chk.thorough else items[::3])
    nums = list(char_cases()) + list(int_cases()) + list(float_cases()) + list(ident_cases())
    explore(chk, repo, nums, batch=150)
    explore(chk, repo, [c for c in nums if not c.key.startswith("id")], batch=150, backend="C", tag="C:")
    good, bad = comments(5 if chk.thorough else 4)
    explore(chk, repo, good + list(sep_cases(2 if chk.thorough else 1)), batch=200)
    verdict.explore(chk, repo, list(bad_tokens()) + (bad if chk.thorough else [b for b in bad if len(b[0]) < 16 or b[0].count("#") >= 4][:1500]))
    chk.cov["rule"] = "every token sequence of the bound is compiled and its bytes or value compared with a reference scanner; distinct_nontrivial counts distinct byte strings, result hashes and programs"
    chk.cov["exhaustive"] = True
