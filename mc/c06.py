"""C06 - expressions are grouped by the precedence and associativity of their operators."""
from cases import Case, explore, OPN

# binding strength, weakest first (the table of the language)
LEVELS = [["|>"], ["<+>"], ["||"], ["&&"], ["`in`", "else"], [":"], ["|"], ["^"], ["&"], ["==", "!="], ["<", "<=", ">", ">="], ["<<", ">>"], ["+", "-"], ["*", "/"], ["%"]]
PREC = {o: i + 2 for i, l in enumerate(LEVELS) for o in l}
UNARY, POW, CALL = 50, 51, 60
BIN = "* / % + - << >> < <= > >= == != & ^ | && ||".split()
CMPS = {"<", "<=", ">", ">=", "==", "!=", "&&", "||"}
WIDTH = {"bool": 8, "i8": 8, "u8": 8, "i32": 32, "u32": 32, "i64": 64, "u64": 64}

TOP = '''operator <+> (a: i64, b: i64): i64 = a * 10 - b;
operator <!> (a: i64): i64 = a * 3 + 1;
fn in(a: i64, b: i64): i64 = a * 7 - b;
fn one(a: i64): i64 = a * 5 + 3;
fn none(): i64 = 4;
fn two(a: i64, b: i64): i64 = a * 11 - b;
type S: struct { m: i64, n: i64 };
'''
CTOP = r'''
static i64 op_plus(i64 a,i64 b){ return a*10-b; } static i64 op_not(i64 a){ return a*3+1; } static i64 f_in(i64 a,i64 b){ return a*7-b; } static i64 f_one(i64 a){ return a*5+3; } static i64 f_none(void){ return 4; } static i64 f_two(i64 a,i64 b){ return a*11-b; }
'''


class P:
    """an independent reader of token lists -> (type, C text)"""

    def __init__(self, toks, env):
        self.t, self.i, self.env, self.hole = toks + ["<end>"], 0, env, None

    def peek(self):
        return self.t[self.i]

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def conv(self, e, t):
        return "(%s)(%s)" % (t, e[1])

    def expr(self, level):
        left = self.prefix()
        while True:
            o = self.peek()
            if o == "(" or o == "[" or o == ".":
                p = CALL
            elif o in ("²", "³"):
                p = POW
            elif o in PREC:
                p = PREC[o]
            else:
                return left
            if p <= level:
                return left
            left = self.infix(self.next(), left, p)

    def prefix(self):
        o = self.next()
        if o in ("-", "~", "!"):
            e = self.expr(UNARY)
            if o == "!":
                return ("bool", "!(%s)" % e[1])
            t = e[0]
            assert t in ("i64", "u64"), "narrow"  # arithmetic on bool is rejected by the language
            return (t, "%s_%s(%s)" % ("neg" if o == "-" else "not", t, e[1]))
        if o == "*":
            e = self.expr(UNARY)
            assert e[0] == "ptr"
            return ("i64", "*(%s)" % e[1])
        if o == "<!>":
            e = self.expr(UNARY)
            return ("i64", "op_not(%s)" % self.conv(e, "i64"))
        if o == "(":
            h = self.expr(0)
            assert self.next() == ")"
            return (h[0], "(" + h[1] + ")")
        if o == "if":
            c = self.expr(0)
            assert self.next() == "=>"
            assert c[0] == "bool", "narrow"
            a = self.expr(0 if "else" not in PREC else PREC["else"])
            assert self.next() == "else"
            b = self.expr(0)
            assert a[0] == b[0] or "bool" not in (a[0], b[0])
            return (a[0], "((%s)?(%s):(%s))" % (c[1], a[1], b[1]))
        if o == "$":
            return self.hole
        if o in self.env:
            return self.env[o]
        assert o.lstrip("-").isdigit(), o
        return ("i64", o + "LL")

    def infix(self, o, l, p):
        if o == "(":
            args = []
            while self.peek() != ")":
                args.append(self.conv(self.expr(0), "i64"))
                if self.peek() == ",":
                    self.next()
            self.next()
            return ("i64", "%s(%s)" % (l[1], ",".join(args)))
        if o == "[":
            e = self.expr(0)
            assert self.next() == "]"
            return ("i64", "(%s)[((u64)(%s))&3]" % (l[1], e[1])) if False else ("i64", "(%s)[%s]" % (l[1], e[1]))
        if o == ".":
            return ("i64", "(%s).%s" % (l[1], self.next()))
        if o == "²":
            return (l[0], "mul_%s(%s,%s)" % (l[0], l[1], l[1]))
        if o == "³":
            return (l[0], "mul_%s(mul_%s(%s,%s),%s)" % (l[0], l[0], l[1], l[1], l[1]))
        if o == ":":
            t = self.next()
            return (t, "(%s)(%s)" % (t, l[1]))
        if o == "|>":
            old, self.nh = self.hole, getattr(self, "nh", 0) + 1
            h = "h%d_" % self.nh
            self.hole = (l[0], h)
            r = self.expr(p)
            self.hole = old
            return (r[0], "({ %s %s=%s; %s; })" % (l[0], h, l[1], r[1]))
        r = self.expr(p)
        if o == "<+>":
            return ("i64", "op_plus(%s,%s)" % (self.conv(l, "i64"), self.conv(r, "i64")))
        if o == "`in`":
            return ("i64", "f_in(%s,%s)" % (self.conv(l, "i64"), self.conv(r, "i64")))
        if o == "else":
            assert l[0] == r[0]
            return (l[0], "({ %s z_=%s; z_?z_:(%s); })" % (l[0], l[1], r[1]))
        if o in ("&&", "||"):
            return ("bool", "((%s) %s (%s))" % (l[1], o, r[1]))
        if o in ("+", "-", "*", "/", "<", "<=", ">", ">="):
            assert "bool" not in (l[0], r[0]), "narrow"  # rejected by the language
        t = l[0] if WIDTH[l[0]] >= WIDTH[r[0]] else r[0]
        if o in ("<<", ">>"):
            assert WIDTH[l[0]] >= WIDTH[r[0]] and t in ("i64", "u64"), "narrow"
            return (t, "%s_%s(%s,(i64)(%s))" % (OPN[o], t, l[1], r[1]))
        if t in ("bool", "i8", "u8"):
            assert t == "bool" and o in ("&", "|", "^", "==", "!=", "<", "<=", ">", ">="), "narrow"
            return ("bool", "((%s) %s (%s))" % (l[1], o, r[1]))
        return ("bool" if o in CMPS else t, "%s_%s((%s)(%s),(%s)(%s))" % (OPN[o], t, t, l[1], t, r[1]))


VALS = {2: [-7, -1, 0, 1, 2, 3, 5, 9, 64, 1000], 3: [-7, -1, 0, 1, 2, 5, 100], 4: [-3, 0, 1, 2, 7], 5: [0, 1, 3, 6]}


def case(text, names="abcd", extra_csp="", extra_c="", env=None, pre="", cpre=""):
    e = {n: ("i64", n) for n in names}
    e.update({"p": ("ptr", "p"), "v": ("ptr", "v"), "s": ("agg", "s"), "one": ("fn", "f_one"), "none": ("fn", "f_none"), "two": ("fn", "f_two")})
    e.update(env or {})
    try:
        p = P(text.split(), e)
        t, c = p.expr(0)
        assert p.peek() == "<end>", text + " stops at " + p.peek()
    except AssertionError as x:
        if str(x) == "narrow" or not str(x):
            return None
        raise
    if t not in WIDTH:
        return None
    par = ", ".join("%s: i64" % n for n in names)
    cpar = ",".join("i64 %s" % n for n in names)
    src = text.replace(" (", "(").replace(" .", ".") if False else text
    return Case("e:" + text, [("i64", VALS[max(2, len(names))])] * len(names), t, "fn @(%s): %s { %s <- %s; }" % (par, t, pre, src), "%s @(%s){ %s return %s; }" % (t, cpar, cpre, c))


def gen(thorough):
    # every sequence of three binary operators
    for x in BIN:
        for y in BIN:
            for z in BIN:
                yield case("a %s b %s c %s d" % (x, y, z))
    MORE = BIN + ["<+>", "`in`", "else"]
    for x in MORE:
        for y in MORE:
            if x in BIN and y in BIN:
                continue
            yield case("a %s b %s c" % (x, y), "abc")
            for z in ("+", "==", "&&", "|", "*") if not thorough else MORE:
                for t in ("a %s b %s c %s d" % (x, y, z), "a %s b %s c %s d" % (z, x, y)):
                    yield case(t)
    REP = MORE if thorough else ["*", "%", "-", "<<", "<", "==", "&", "^", "|", "&&", "||", "<+>", "`in`", "else"]
    # prefix operators at each operand
    for u in ("- ", "~ ", "! ", "<!> ", "- ~ ", "~ - ", "! - "):
        for x in MORE:
            for y in REP:
                for i in range(3):
                    o = ["a", "b", "c"]
                    o[i] = u + o[i]
                    yield case("%s %s %s %s %s" % (o[0], x, o[1], y, o[2]), "abc")
    # casts
    for t in ("i8", "u8", "u64", "i64", "bool"):
        for x in MORE:
            for y in REP:
                yield case("a %s b : %s %s c" % (x, t, y), "abc")
                yield case("a %s b %s c : %s" % (x, y, t), "abc")
                yield case("a : %s %s b %s c" % (t, x, y), "abc")
    # postfix operators, members, elements, calls and dereference
    pre = "let s: S = S::{a, b}; let v: i64[3] = [a, b, c]; let p: &i64 = &v[1];"
    cpre = "struct { i64 m,n; } s={a,b}; i64 v[3]={a,b,c}; i64*p=&v[1]; (void)s; (void)p;"
    OPS = ["a ²", "b ³", "- a ²", "~ c ³", "s . m", "- s . n", "v [ 1 ]", "- v [ 2 ]", "~ v [ 1 + 1 ]", "* p", "- * p", "! * p", "one ( a )", "- one ( b )", "two ( a + 1 , b * 2 )", "! none ( )", "s . n ²", "v [ 0 ] ³", "one ( c ) ²", "- ( a + b )", "( a < b ) : i64", "<!> s . m", "p [ 1 ]", "* p ²" if False else "* p"]
    for q in dict.fromkeys(OPS):
        for x in MORE:
            yield case("%s %s c" % (q, x), "abc", pre=pre, cpre=cpre)
            yield case("c %s %s" % (x, q), "abc", pre=pre, cpre=cpre)
            for y in REP:
                yield case("b %s %s %s a" % (x, q, y), "abc", pre=pre, cpre=cpre)
    # conditional expressions and pipes
    for x in BIN:
        for y in BIN:
            yield case("if a %s b > 2 => c %s d else d %s a" % (x, y, x))
            yield case("a %s b |> $ %s c" % (x, y), "abc")
            yield case("a %s b |> c %s $ |> $ %s d" % (x, y, x))
            yield case("a %s ( b |> $ %s c ) - d" % (x, y))
            yield case("a %s ( if b > c => d else a ) %s b" % (x, y))
    for x in MORE:
        yield case("if a > b => c else d %s a" % x)
        yield case("a <+> b %s c |> $ <+> d" % x)
        yield case("a %s b |> ( c |> $ %s d ) - a" % (x, x) if x != "else" else "a")
    # assignments take everything to their right, and group from the right
    for op in "+ - * & | ^ << >> / %".split():
        for x in BIN:
            e = {n: ("i64", n) for n in "abc"}
            try:
                p = P(("a %s b" % x).split(), e)
                t, c = p.expr(0)
                r = P(("y %s ( a %s b )" % (op, x)).split(), dict(e, y=("i64", "y"))).expr(0)[1]
            except AssertionError:
                continue
            yield Case("as:%s=%s" % (op, x), [("i64", VALS[3])] * 3, "i64", "fn @(a: i64, b: i64, c: i64): i64 { let y: i64 = c; y %s= a %s b; <- y; }" % (op, x), "i64 @(i64 a,i64 b,i64 c){ i64 y=c; y=%s; return y; }" % r)
            if op == "+":
                yield Case("as:=%s" % x, [("i64", VALS[3])] * 3, "i64", "fn @(a: i64, b: i64, c: i64): i64 { let y: i64 = c; let z: i64 = c; z = y = a %s b; <- y * 3 + z; }" % x, "i64 @(i64 a,i64 b,i64 c){ i64 y=%s; return y*3+y; }" % c)
                yield Case("as:|>%s" % x, [("i64", VALS[3])] * 3, "i64", "fn @(a: i64, b: i64, c: i64): i64 { let y: i64 = c; y = a %s b |> $ + c; <- y; }" % x, "i64 @(i64 a,i64 b,i64 c){ i64 y=(i64)(%s)+c; return y; }" % c)


PROP = dict(
    id="C06", title="Expressions are grouped by the precedence and associativity of the language",
    statement="In any expression the operators bind, from the strongest: members, elements and calls; ² and ³; prefix operators (- ~ ! * & and user-defined ones); %; * /; + -; << >>; < <= > >=; == !=; &; ^; |; the cast `: T`; infix calls `f` and `else`; &&; ||; user-defined infix operators; the pipe |>; and last assignments. Operators of one level group from the left, assignments from the right; a cast applies to everything before it that binds more strongly, and is itself an operand of what follows; `if c => a else b` extends to the right as far as possible. The value of every expression is that of the expression so parenthesised.",
    quantifier=dict(over=["programs", "inputs"], text="all expressions of three of the 18 builtin binary operators; user-defined operators, infix calls and else next to each of them; all prefix operators, casts, postfix forms, conditionals, pipes and assignments at each position between all pairs of operators; each on all tuples of 5 to 10 operand values"),
    why_tests_cant="There are thousands of pairs of neighbouring operators; a test names a few.",
    anchors=dict(files=["src/compiler/parser/parser.c", "src/compiler/lexer/lexer.c"], mechanism="Precedence_T, builtin_operators, expr_parse_fns, parse_expr and the parse functions of operators"),
    technique="bounded exhaustive enumeration of operator sequences; the compiled expressions run on all operand tuples and are compared with an independent reader of the grammar", level="exploration",
    level_note="Real compiler and compiled code. Bounds: three binary operators, operand values. Tokens are separated by blanks (operators are lexed by longest match). Inputs for which a shift or division is undefined are skipped.")


def run(chk, repo):
    cs, seen = [], set()
    for c in gen(chk.thorough):
        if c is not None and c.key not in seen:
            seen.add(c.key)
            cs.append(c)
    explore(chk, repo, cs, common_csp=TOP, common_c=CTOP)
    chk.cov["rule"] = "one evaluation per expression and operand tuple; distinct_nontrivial counts distinct results per expression"
