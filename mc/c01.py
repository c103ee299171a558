"""C01 - integer expressions evaluate to the mathematical fixed-width result."""
import sys
import core
from cases import *

RING = ["+", "-", "*", "&", "|", "^"]
DIVS = ["/", "%"]
SH = ["<<", ">>"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
NEGCMP = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def common(a, b):
    return b if INT[a][0] < INT[b][0] else a


def rop(op, t, a, b):
    return "%s_%s(%s,%s)" % (OPN[op], t, a, b)


def matrix():
    """every operator on every ordered pair of integer types, full boundary values"""
    for a in INT:
        for b in INT:
            for op in RING + DIVS + CMP + SH:
                t = common(a, b)
                if op in SH:
                    if a != b and b not in ("i32",):
                        continue
                    rt = common(a, b)
                    if INT[a][0] < INT[b][0]:
                        continue
                    yield Case("bin:%s %s %s" % (a, op, b), [(a, "full"), (b, "full")], a, "fn @(a: %s, b: %s): %s = a %s b;" % (a, b, a, op),
                               "%s @(%s a,%s b){return %s;}" % (a, a, b, "%s_%s(a,b>64?64:(i64)b)" % (OPN[op], a)))
                    continue
                rt = "bool" if op in CMP else t
                yield Case("bin:%s %s %s" % (a, op, b), [(a, "full"), (b, "full")], rt, "fn @(a: %s, b: %s): %s = a %s b;" % (a, b, rt, op),
                           "%s @(%s a,%s b){return %s;}" % (rt, a, b, rop(op, t, "(%s)a" % t, "(%s)b" % t)))


def unary():
    for t in INT:
        for op, n in (("-", "neg"), ("~", "not")):
            yield Case("un:%s%s" % (op, t), [(t, "full")], t, "fn @(a: %s): %s = %sa;" % (t, t, op), "%s @(%s a){return %s_%s(a);}" % (t, t, n, t))
        yield Case("un:!%s" % t, [(t, "full")], "bool", "fn @(a: %s): bool = !a;" % t, "bool @(%s a){return !a;}" % t)
        yield Case("un:!!%s" % t, [(t, "full")], "bool", "fn @(a: %s): bool = !(!a);" % t, "bool @(%s a){return !!a;}" % t)
        for op, n in (("++", "+"), ("--", "-")):
            yield Case("un:%s%s" % (t, op), [(t, "full")], t, "fn @(a: %s): %s { let x = a; x%s; <- x; }" % (t, t, op), "%s @(%s a){return %s;}" % (t, t, rop(n, t, "a", "1")))
        for op, e in (("²", "%s"), ("³", None)):
            m = rop("*", t, "a", "a")
            if op == "³":
                m = rop("*", t, m, "a")
            yield Case("un:%s%s" % (t, op), [(t, "full")], t, "fn @(a: %s): %s = a%s;" % (t, t, op), "%s @(%s a){return %s;}" % (t, t, m))


def nested():
    """all two-operator trees over each 32/64-bit type; for narrower types the inner result goes through a variable"""
    ops = RING + DIVS + SH
    for t in INT:
        narrow = INT[t][0] < 32
        for o1 in ops:
            for o2 in ops + CMP:
                rt = "bool" if o2 in CMP else t
                for shape in ("L", "R"):
                    if shape == "L":
                        e = "x %s c" % o2 if narrow else "(a %s b) %s c" % (o1, o2)
                        ref = rop(o2, t, rop(o1, t, "a", "b"), "c")
                    else:
                        e = "c %s x" % o2 if narrow else "c %s (a %s b)" % (o2, o1)
                        ref = rop(o2, t, "c", rop(o1, t, "a", "b"))
                    body = "{ let x: %s = a %s b; <- %s; }" % (t, o1, e) if narrow else "{ <- %s; }" % e
                    yield Case("nest:%s:%s" % (t, e if not narrow else o1 + ";" + e), [(t, "tiny")] * 3, rt, "fn @(a: %s, b: %s, c: %s): %s %s" % (t, t, t, rt, body),
                               "%s @(%s a,%s b,%s c){return %s;}" % (rt, t, t, t, ref))


LV = {
    "local": ("let x: T = a;", "x", ""),
    "global": ("@_g = a;", "@_g", "let @_g: T = 0;\n"),
    "deref": ("let y: T = a; let p: &T = &y;", "*p", ""),
    "member": ("let s: @_s; s.m = a; s.l = 85: T; s.r = 85: T;", "s.m", "type @_s: struct { l: T, m: T, r: T };\n"),
    "ptrmember": ("let s: @_s; s.m = a; let p: &@_s = &s;", "p.m", "type @_s: struct { l: i8, m: T };\n"),
    "index": ("let s: T 'c[3]; let i: i32 = 1; s[i] = a;", "s[i]", ""),
    "index2": ("let s: T[3]; let i: i32 = 1; s[i] = a;", "s[i]", ""),
    "ptrindex": ("let s: T 'c[4]; let p: &T = &s[1]; let i: i64 = 2; p[i] = a;", "p[i]", ""),
}


def lvalues():
    """load, store, read-modify-write through every kind of lvalue of every type"""
    for t in INT:
        for ln, (pre, lv, top) in LV.items():
            pre, top = pre.replace("T", t), top.replace("T", t)
            for op in ["=", "load", "++", "--"] + [o + "=" for o in RING + DIVS + SH]:
                if op == "=":
                    st, ref = "%s = b;" % lv, "b"
                elif op == "load":
                    st, ref = "", "a"
                elif op in ("++", "--"):
                    st, ref = "(%s)%s;" % (lv, op) if lv.startswith("*") else "%s%s;" % (lv, op), rop(op[0], t, "a", "1")
                else:
                    st, ref = "%s %s b;" % (lv, op), rop(op[:-1], t, "a", "b")
                yield Case("lv:%s:%s%s" % (t, ln, op), [(t, "small"), (t, "small")], t, "%sfn @(a: %s, b: %s): %s { %s %s <- %s; }" % (top, t, t, t, pre, st, lv),
                           "%s @(%s a,%s b){return %s;}" % (t, t, t, ref))


LITS = {"i8": [0, 1, 7, 100, 127], "i16": [0, 1, 127, 128, 255, 32767], "i32": [0, 1, 2, 100, 255, 65535, 2**31 - 1], "i64": [0, 1, 255, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 0x123456789abcdef, 2**63 - 1],
        "u8": [0, 1, 127, 128, 255], "u16": [0, 1, 255, 32768, 65535], "u32": [0, 1, 65535, 2**31 - 1], "u64": [0, 1, 2**31 - 1, 2**32 - 1, 2**63 - 1]}


def literals():
    """variable op literal and literal op variable: the literal has the variable's type after an explicit cast"""
    for t in INT:
        for lit in LITS[t]:
            for op in RING + DIVS + CMP + SH:
                rt = "bool" if op in CMP else t
                L = "(%d: %s)" % (lit, t)
                yield Case("lit:%s%s%d" % (t, op, lit), [(t, "full")], rt, "fn @(a: %s): %s = a %s %s;" % (t, rt, op, L), "%s @(%s a){return %s;}" % (rt, t, rop(op, t, "a", "(%s)%dLL" % (t, lit))))
                yield Case("lit:%d%s%s" % (lit, op, t), [(t, "full")], rt, "fn @(a: %s): %s = %s %s a;" % (t, rt, L, op), "%s @(%s a){return %s;}" % (rt, t, rop(op, t, "(%s)%dLL" % (t, lit), "a")))


def conv():
    """casts between all integer types, explicit and through assignment / return / argument passing"""
    for a in INT:
        for b in INT:
            yield Case("cast:%s:%s" % (a, b), [(a, "full")], b, "fn @(a: %s): %s = a: %s;" % (a, b, b), "%s @(%s a){return (%s)a;}" % (b, a, b))
            yield Case("ret:%s:%s" % (a, b), [(a, "full")], b, "fn @(a: %s): %s = a;" % (a, b), "%s @(%s a){return (%s)a;}" % (b, a, b))
            yield Case("asg:%s:%s" % (a, b), [(a, "full")], b, "fn @(a: %s): %s { let x: %s; x = a; <- x; }" % (a, b, b), "%s @(%s a){return (%s)a;}" % (b, a, b))
            yield Case("arg:%s:%s" % (a, b), [(a, "full")], b, "fn @_c(x: %s): %s = x;\nfn @(a: %s): %s = @_c(a);" % (b, b, a, b), "%s @(%s a){return (%s)a;}" % (b, a, b))
            for c in INT:
                if len({a, b, c}) == 3 or True:
                    yield Case("cast3:%s:%s:%s" % (a, b, c), [(a, "small")], c, "fn @(a: %s): %s = (a: %s): %s;" % (a, c, b, c), "%s @(%s a){return (%s)(%s)a;}" % (c, a, c, b))


def all_cases(thorough):
    for g in (matrix, unary, lvalues, conv, nested, literals):
        yield from g()


PROP = dict(
    id="C01", title="Integer expressions evaluate to the fixed-width two's complement result",
    statement="For every integer type and operand value, a compiled expression (arithmetic, bitwise, shift, comparison, unary, increment, compound assignment, literal operands, implicit and explicit conversions, any nesting and any kind of storage location) yields exactly the fixed-width two's complement result of the language's typing rules: the wider operand type wins, results are truncated to the destination, signedness follows the type. Nothing but the assigned location changes, and a neighbouring member, element or variable keeps its value.",
    quantifier=dict(over=["inputs", "programs"], text="all operators x all ordered pairs of the 8 integer types x boundary operand values; all two-operator trees; all lvalue kinds x assignment operators; all conversion chains of two casts"),
    why_tests_cant="The file tests execute a handful of expressions on one or two i32 values each; wrong sign extension, register width or operand order shows only for particular types and values.",
    anchors=dict(files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/validator.c"], mechanism="asm_gen_expr operator selection, asm_load/asm_store widths, asm_cast tables, validator operand type selection"),
    technique="exhaustive bounded enumeration of programs and operand values, executed against an independent reference semantics", level="exploration",
    level_note="Every program in the bound is compiled by the compiler built from the working tree and executed on every tuple of the value sets; results are compared with a reference in C (gcc -fwrapv). Trusts gcc, binutils and the reference; division by zero, overflowing division and out-of-range shifts are excluded as undefined.")


def run(chk, repo):
    explore(chk, repo, all_cases(chk.thorough))
    chk.cov["rule"] = "one program per (operator, operand types, storage kind, shape); run on the cross product of boundary value sets; distinct_nontrivial counts distinct (program, result) hashes per program group"
    chk.cov["exhaustive"] = True
