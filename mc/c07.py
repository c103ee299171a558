"""C07 - the C backend compiles programs to the same behaviour."""
import importlib
import cases

PROP = {
    "id": "C07",
    "title": "Programs built with the C backend behave the same",
    "statement": "With `-b C` the compiler turns the same programs into C that the C compiler it calls (with the options it passes) accepts, and the built program computes what the language prescribes, with and without --no-opt: integer, bool and float arithmetic, conversions and comparisons in every operand width and storage kind; precedence, grouping and evaluation order of all operators, else, ternaries, pipes and short circuits; if, while, for, loop, range, do-while, do-unless, match, with, break, continue, return; calls of functions, function pointers and closures with every mix of scalar, pointer, struct and variadic arguments and results; structs, unions, fixed arrays, C arrays, arrays passed as T[], len, reverse indices and pointer arithmetic, nested in each other in any order of declaration. Not covered: defer (rejected), floats of 80 bits.",
    "quantifier": {"over": ["programs", "inputs", "configurations"], "text": "all programs of the grammars of C01-C06 (about 50000 in the quick tier), each on the inputs enumerated there"},
    "why_tests_cant": "The tests of the repository never build with the C backend; what it writes depends on the type, storage and nesting of each operand, so a handful of examples leaves nearly all combinations out.",
    "anchors": {"files": ["src/compiler/codegen/transpiler/c_codegen.c", "src/compiler/codegen/codegen_utils.c"], "mechanism": "c_gen_expr, c_gen_stmt, c_gen_typed_name_str, c_complete_type, c_init_zero, c_gen_function_declaration"},
    "technique": "explicit-state model checking: exhaustive enumeration of all programs of bounded grammars and of boundary inputs / decision strings, built by cspc -b C and run in lock step with the reference semantics of C01-C06",
    "level": "exhaustive-bounded",
    "level_note": "same bounds as C01-C06; the C compiler is the installed gcc with the options cspc passes",
}
MODS = ["c01", "c02", "c03", "c04", "c05", "c06"]


def usable(c):
    return "defer " not in c.csp


def run(chk, repo):
    noopt = {"c02", "c05"} if not chk.thorough else set(MODS)
    left_out = [0]

    def patched(flags, mod):
        def ex(chk, repo, cs, *a, **k):
            out = []
            for c in cs:
                if usable(c):
                    c.key = "%s%s/%s" % (mod, "-0" if flags else "", c.key)
                    out.append(c)
                else:
                    left_out[0] += 1
            cases.explore(chk, repo, out, *a, **dict(k, backend="C", flags=flags))
        return ex
    for name in MODS:
        mod = importlib.import_module(name)
        for flags in ((), ("--no-opt",)):
            if flags and name not in noopt:
                continue
            mod.explore = patched(flags, name)
            mod.run(chk, repo)
    chk.cov["exhaustive"] = True
    chk.cov["left_out"] = left_out[0]
    chk.cov["rule"] = "one program per case of C01-C06 (and per optimisation setting) built by cspc -b C; distinct_nontrivial counts distinct (result, trace) hashes"
