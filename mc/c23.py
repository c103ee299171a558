"""C23 - inline assembly: operands name the objects, the text is taken as written, the code around it is not disturbed."""
import itertools
from cases import Case, explore

REGS = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
SCRATCH = ["rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11"]
# operands of 64 bits: declarations, statements before, operand, C value, writable
IN = {
    "arg": ("", "", "a", "a", True), "local": ("", "let x: i64 = a + 5;", "x", "a+5", True), "inferred": ("", "let x = a + 6;", "x", "a+6", True), "u64": ("", "let x: u64 = (a + 7): u64;", "x", "a+7", True),
    "global": ("let @g: i64 = 70;", "", "@g", "70", True), "global-set": ("let @g: i64 = 0;", "@g = a * 3;", "@g", "a*3", True), "namespace": ("namespace @n { let g: i64 = 71; }", "", "@n::g", "71", True), "namespace-2": ("namespace @n { namespace m { let g: i64 = 72; } }", "@n::m::g = a + 8;", "@n::m::g", "a+8", True),
    "root": ("let @g: i64 = 73;", "", " ::@g", "73", True), "using": ("namespace @n { let ug: i64 = 74; }", "using @n;", "ug", "74", True), "block": ("", "let y: i64 = 1; let x: i64 = a + 9; let z: i64 = 2;", "x", "a+9", True), "int": ("", "", "41", "41", False), "big": ("", "", "123456789", "123456789", False),
    "const": ("const @c: i64 = 75;", "", "@c", "75", False), "shadow": ("let @g: i64 = 1;", "let @g: i64 = a + 10;", "@g", "a+10", True), "second-arg": ("", "", "b", "b", True),
}


def reads():
    for k, (decl, pre, op, val, _) in IN.items():
        for r in REGS if k in ("arg", "local", "global") else SCRATCH[:3]:
            save = r in ("rbx", "r12", "r13", "r14", "r15")
            for form in ("one", "split", "two"):
                txt = {"one": '"mov " %s ", %%%s; mov %%%s, " &o ";"', "split": '"mov" " " %s ", " "%%%s;" "mov %%%s" ", " &o ";"', "two": '"mov " %s ", %%%s;" "mov %%%s, " &o ";"'}[form] % (op, r, r)
                if save:
                    # callee-saved registers are given back, without touching the stack pointer
                    txt = '"mov %%%s, %%r9; " ' % r + txt[:-3] + '"; mov %%r9, %%%s;"' % r if False else txt
                    continue
                yield Case("read:%s:%s:%s" % (k, r, form), [("i64", "tiny"), ("i64", [11])], "i64", decl + "\nfn @(a: i64, b: i64): i64 { %s let o: i64 = 0; asm %s; <- o; }" % (pre, txt), "i64 @(i64 a,i64 b){return %s;}" % val)


def pairs():
    for (k1, x), (k2, y) in itertools.product(IN.items(), repeat=2):
        if k1 == k2:
            continue
        if "using" in (k1, k2) and False:
            continue
        d1, p1, o1, v1, _ = x
        d2, p2, o2, v2, _ = [s.replace("@g", "@h").replace("@n", "@o").replace("@c", "@d").replace("x", "w").replace("ug", "vg").replace("let y", "let y2").replace("let z", "let z2") if isinstance(s, str) else s for s in y]
        yield Case("pair:%s:%s" % (k1, k2), [("i64", "tiny"), ("i64", [11])], "i64", d1 + d2 + '\nfn @(a: i64, b: i64): i64 { %s %s let r: i64 = 0; asm "mov " %s ", %%rax; mov " %s ", %%rcx; sub %%rcx, %%rax; mov %%rax, " &r ";"; <- r; }' % (p1, p2, o1, o2),
                   "i64 @(i64 a,i64 b){return sub_i64(%s,%s);}" % (v1, v2))


def writes():
    for k, (decl, pre, op, val, w) in IN.items():
        if not w:
            continue
        for form, txt, want in (("mov", '"mov " b ", %%rax; add $3, %%rax; mov %%rax, " &%s ";"', "b+3"), ("twice", '"mov $5, %%rax; mov %%rax, " &%s ";"; asm "mov " b ", %%rdx; mov %%rdx, " &%s ";"', "b")):
            if k == "second-arg" and form == "twice":
                continue  # the value written is its own
            n = txt.count("%s")
            yield Case("write:%s:%s" % (k, form), [("i64", "tiny"), ("i64", [11, -3])], "i64", decl + "\nfn @(a: i64, b: i64): i64 { %s asm %s; <- %s; }" % (pre, txt % ((op,) * n), op), "i64 @(i64 a,i64 b){return %s;}" % want.replace("b", "b"))


# constructs around the statement, which sets r to a + 1
AROUND = {
    "plain": "ASM <- r;", "if": "if a == a { ASM } <- r;", "if-single": "if a == a ASM <- r;", "else": "if a != a { <- 0: i64; } else { ASM } <- r;", "loop": "loop { ASM break; } <- r;", "while": "let k = 0; while k < 2 { ASM k++; } <- r;", "for": "for let i = 0; i < 3; i++; { ASM } <- r;", "do": "let k = 0; do { ASM k++; } while k < 2; <- r;",
    "match": "match 1 { 1 => { ASM } _ => { <- 0: i64; } } <- r;", "block": "{ { ASM } } <- r;", "range": "for 0..2 { ASM } <- r;", "between": "let p: i64 = a + 2; let q: i64 = a + 3; ASM let s: i64 = a + 4; <- r + p - a - 2 + q - a - 3 + s - a - 4;", "args": "ASM <- i_three(r, r, r) - r - r;", "expr": "let p: i64 = a * 2; ASM <- (p + r) - p;",
    "macro": "@m!(r); <- r;", "lambda-after": "ASM let f = |x: i64| i64 => { <- x; }; <- f(r);", "many": "ASM ASM ASM <- r;", "array": "let z: i64[3]; z[0] = 1: i64; z[1] = 2: i64; z[2] = 3: i64; ASM <- r + z[0] + z[1] - z[2];", "float": "let d: f64 = 2.5; ASM <- if d == (2.5: f64) => r else (0: i64);", "match-type": "match (type) i32 { i32 => { ASM } _ => { <- 0: i64; } } <- r;",
}


def around():
    body = 'asm "mov " a ", %rax; inc %rax; mov %rax, " &r ";"'
    for k, t in AROUND.items():
        for o, a in (("", body + ";"), ("asm-clobber", 'asm "mov " a ", %rdi; mov $1, %rax; mov $2, %rcx; mov $3, %rdx; mov $4, %rsi; mov $5, %r8; mov $6, %r9; mov $7, %r10; mov $8, %r11; inc %rdi; mov %rdi, " &r ";";')):
            yield Case("around:%s:%s" % (k, o), [("i64", "tiny")], "i64", "macro @m(o) { asm \"mov \" a \", %%rax; inc %%rax; mov %%rax, \" &o \";\"; }\n".replace("%%", "%") * (k == "macro") + "fn @(a: i64): i64 { let r: i64 = 0; %s }" % t.replace("ASM", a), "i64 @(i64 a){return add_i64(a,1);}")


def texts():
    for k, pre, txt, want in (("label", "", '"mov $0, %rax; 1: inc %rax; cmp $9, %rax; jl 1b; mov %rax, " &o ";"', "9"), ("newline", "", '"mov $4, %rax\\nadd $3, %rax\\n" "mov %rax, " &o "\\n"', "7"), ("newline-split", "", '"mov $4, %rax\\n" "add $3, %rax\\n" "mov %rax, " &o', "7"),
                              ("tab", "", '"\\tmov\\t$4, %rax; \\tmov %rax, " &o ";"', "4"), ("imm-first", "", '"mov " 6 ", %rax; imul $7, %rax; mov %rax, " &o ";"', "42"), ("imm-two", "", '"mov " 6 ", %rax; add " 7 ", %rax; mov %rax, " &o ";"', "13"), ("imm-mid", "", '"mov $1, %rax; add " 7 ", %rax; sub " 2 ", %rax; mov %rax, " &o ";"', "6"),
                              ("same-twice", "let x: i64 = 5;", '"mov " x ", %rax; add " x ", %rax; mov %rax, " &o ";"', "10"), ("three", "let x: i64 = 5; let y: i64 = 70; let z: i64 = 900;", '"mov " x ", %rax; add " y ", %rax; add " z ", %rax; mov %rax, " &o ";"', "975"),
                              ("order", "let x: i64 = 50; let y: i64 = 7;", '"mov " y ", %rdx; mov " x ", %rax; sub %rdx, %rax; mov %rax, " &o ";"', "43"), ("xchg", "", '"mov $3, %rcx; mov $8, %rdx; xchg %rcx, %rdx; mov %rcx, " &o ";"', "8"), ("nop", "o = 4: i64;", '"nop;"', "4"), ("two-stmts", "", '"mov $3, %rcx; mov %rcx, " &o ";"; asm "mov $5, %rcx; mov %rcx, " &o ";"', "5")):
        yield Case("text:" + k, [], "i64", "fn @(): i64 { let o: i64 = 0; %s asm %s; <- o; }" % (pre, txt), "i64 @(void){return %s;}" % want)


def roles(depth):
    """all sequences of reading, writing and immediate operands"""
    for n in range(1, depth + 1):
        for seq in itertools.product("ion", repeat=n):
            if n > 3 and seq.count("n") > 1:
                continue
            txt, acc, outs, dec = '"mov $1, %rax; ', 1, [], []
            for i, r in enumerate(seq):
                if r == "i":
                    dec.append("let v%d: i64 = %d;" % (i, i + 2))
                    txt += 'imul $10, %%rax, %%rax; add " v%d ", %%rax; ' % i
                    acc = acc * 10 + i + 2
                elif r == "n":
                    txt += 'imul $10, %%rax, %%rax; add " %d ", %%rax; ' % (i + 3)
                    acc = acc * 10 + i + 3
                else:
                    dec.append("let v%d: i64 = 0;" % i)
                    txt += 'mov %%rax, " &v%d "; ' % i
                    outs.append((i, acc))
            txt += 'mov %rax, " &r ";"'
            yield Case("roles:" + "".join(seq), [("i64", range(len(outs) + 1))], "i64", "fn @(k: i64): i64 { %s let r: i64 = 0; asm %s; %s <- r; }" % (" ".join(dec), txt, " ".join("if k == %d <- v%d;" % (j, i) for j, (i, _) in enumerate(outs))),
                       "i64 @(i64 k){ %s return %d; }" % (" ".join("if(k == %d) return %d;" % (j, a) for j, (_, a) in enumerate(outs)), acc))


COMMON = "fn i_three(a: i64, b: i64, c: i64): i64 = a + b + c;\n"
PROP = dict(
    id="C23", title="Inline assembly is emitted as written with its operands in place",
    statement="An `asm` statement emits its strings in order and as written; a name in it stands for the object it names where it stands (argument, local, global, object of a namespace, constant), `&name` for an object it writes, and an integer for that immediate value. What it reads is the object's current value, what it writes is the object's value afterwards, and no other variable, argument or control flow of the function is disturbed, wherever the statement stands; with both backends.",
    quantifier=dict(over=["programs", "inputs", "configurations"], text="16 kinds of operands x registers x ways to split the text, all ordered pairs of operands, writes of every kind of object, all sequences of up to five (thorough: six) reading, writing and immediate operands, 20 constructs around the statement with few and with all scratch registers used, forms of text; both backends, optimised or not"),
    why_tests_cant="The operand of each kind of object is a different address that depends on the frame, the text around it and, with the C backend, on the order of the constraints; tests only use the system call macros.",
    anchors=dict(files=["src/compiler/parser/parser.c", "src/compiler/parser/validator.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c"], mechanism="parse_inline_asm, ND_ASM, asm_gen_id_ptr, c_gen_inline_asm, c_detect_registers"),
    technique="bounded exhaustive enumeration of asm statements (operand kinds x registers x text forms x constructs), built by the real compiler and run against reference functions", level="exploration",
    level_note="Real compiler and compiled code. Bounds: operands of 64 bits, at most seven operands per statement, scratch registers only.")


def run(chk, repo):
    for backend in (None, "C"):
        for flags in ((), ("-0",)):
            explore(chk, repo, list(reads()) + list(pairs()) + list(writes()) + list(around()) + list(texts()) + list(roles(6 if chk.thorough else 5)), batch=150, common_csp=COMMON, backend=backend, flags=flags, tag="%s%s/" % (backend or "asm", "-0" if flags else ""))
    chk.cov["rule"] = "one evaluation per program, configuration and input; distinct_nontrivial counts different programs"
