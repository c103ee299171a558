D="src/compiler/parser/directives.c"; M="src/compiler/main.c"; O="src/compiler/optimizer/optimizer.c"; E="src/compiler/error/default.c"; VT="src/compiler/ast/vtable.c"; C="src/compiler/codegen/transpiler/c_codegen.c"; PP="src/compiler/preprocessor/preprocessor.c"; V="src/compiler/parser/validator.c"
BUGS=[
dict(id="c17-month-end", property="C17", needs="a deprecation date on the last day of a month", breaks="the last day of a month is rejected as a date",
 edits=[(D,"deadline.tm_mday > days_in_month[deadline.tm_mon]","deadline.tm_mday >= days_in_month[deadline.tm_mon]")],
 demo='cat > a.csp <<X\n[deprecated("2020-04-30")] fn f(): i32 = 0;\nfn main(): i32 = f();\nX\ncspc build a.csp -p "$R/src/std" -o a.out --silent > log 2>&1 || { cat log; exit 1; }\n[ -x a.out ] && ./a.out\n'),
dict(id="c17-env-prefix", property="C17", needs="an environment variable whose value starts with the compared one", breaks="env_eq is true for values that only start with the one asked for",
 edits=[(D,"    return (bool) strcmp(env, cmp_val);","    return (bool) strncmp(env, cmp_val, strlen(cmp_val));")],
 demo='cat > a.csp <<X\n[env_eq("CSP_T", "abc")] fn f(): i32 = 1;\n[env_ne("CSP_T", "abc")] fn f(): i32 = 0;\nfn main(): i32 = f();\nX\nexport CSP_T=abcd\ncspc build a.csp -p "$R/src/std" -o a.out --silent > log 2>&1 || { cat log; exit 1; }\n./a.out\n'),
dict(id="c17-flag-wide", property="C17", needs="a flag enum with more than 16 members", breaks="from the 17th member on flags share their bit with earlier ones",
 edits=[(D,"new_value->long_val = 1 << offset;","new_value->long_val = 1 << (offset & 15);")],
 csp="[flag] type F: enum { A, B, C, D, E, G, H, I, J, K, L, M, N, O, P, Q, R };\nfn main(): i32 { if (F::R: i32) == 65536 <- 0; <- 1; }\n", expect=0),
dict(id="c17-flag-restart", property="C17", needs="a flag enum with a member that has a value followed by members without", breaks="members after an explicit position continue from the old position",
 edits=[(D,"            offset = const_i64(context, member->value);\n            errored = false;\n        }\n","            errored = false;\n        }\n        u64 implicit = offset;\n        if(member->value->kind != ND_NOOP)\n            offset = const_i64(context, member->value);\n"),(D,"        if(offset++ >= (ENUM_S * 8) && !errored)","        if((offset = (offset < 8 ? offset : implicit) + 1) > (ENUM_S * 8) && !errored)")],
 csp="[flag] type F: enum { A, B = 9, C };\nfn main(): i32 { if (F::C: i32) == 1024 <- 0; <- 1; }\n", expect=0),
dict(id="c17-copy-cwd", property="C17", needs="a `copy` directive in a program that is in another directory than the build runs in, with a relative target", breaks="the compiler stays in the directory of the source file after a copy directive, and puts the target there",
 edits=[(D,"        throw_error(context, ERR_MISC, data->name_token, \"copy failed with exit code %d\", exit_code);\n\n    chdir(current_dir);","        throw_error(context, ERR_MISC, data->name_token, \"copy failed with exit code %d\", exit_code);\n\n    if(exit_code) chdir(current_dir);")],
 demo='mkdir sub; echo hi > sub/in.txt\ncat > sub/a.csp <<X\n[copy("in.txt", "out.txt")]\nfn main(): i32 = 0;\nX\ncspc build sub/a.csp -p "$R/src/std" -o a.out --silent > log 2>&1 || { cat log; exit 1; }\n[ -x a.out ]\n'),
dict(id="c18-dotted-name", property="C18", needs="a source file with more than one dot in its name and no -o", breaks="the default target is cut at the first dot of the path",
 edits=[(M,"(uintptr_t) strrchr(input_file, '.')","(uintptr_t) strchr(input_file, '.')")],
 demo='echo "fn main(): i32 = 0;" > a.b.csp\ncspc build a.b.csp -p "$R/src/std" --silent > log 2>&1 || { cat log; exit 1; }\n[ -x a.b.out ]\n'),
dict(id="c18-flags-tab", property="C18", needs="--cc-flags with three flags separated by blanks", breaks="only the first two of the --cc-flags are used",
 edits=[(M,"            while((flag = strtok_r(NULL, \" \\t\", &state)) != NULL);","            while((flag = strtok_r(NULL, context.compiler_flags->size & 1 ? \" \\t\" : \"\", &state)) != NULL);")],
 demo='cat > a.csp <<X\nextern "C" { fn v(): i32; }\nfn main(): i32 = 0;\nX\necho "fn main(): i32 = 0;" > a.csp\ncat > cc.sh <<X\n#!/bin/bash\nfor a; do echo "$PWD:\\$a"; done >> args\nexec gcc "\\$@"\nX\nchmod +x cc.sh\ncspc build a.csp -b C --cc ./cc.sh --cc-flags "-DA1 -DB2 -DC3 -DD4" -p "$R/src/std" -o a.out --silent > log 2>&1 || { cat log; exit 1; }\nfor x in A1 B2 C3 D4; do grep -q -- ":-D$x$" args || exit 1; done\n'),
dict(id="c20-range-end", property="C20", needs="a function that is only used as the upper bound of a range loop", breaks="the bound's function is removed as dead code",
 edits=[(O,"                list_push(node_stack, stack_top->left);\n                list_push(node_stack, stack_top->right);\n                list_push(node_stack, stack_top->body);","                list_push(node_stack, stack_top->left);\n                list_push(node_stack, stack_top->body);")],
 csp="fn n(): i32 = 3;\nfn main(): i32 { let k = 0; for 0..n() k++; <- k - 3; }\n", expect=0),
dict(id="c20-arg-many", property="C20", needs="a global that is only used as an argument, but not the first one", breaks="globals only used as a later argument are removed as dead code",
 edits=[(O,"                list_push(node_stack, stack_top->expr);\n                for(size_t i = 0; i < stack_top->args->size; i++)\n                    list_push(node_stack, stack_top->args->items[i]);","                list_push(node_stack, stack_top->expr);\n                for(size_t i = 0; i < stack_top->args->size; i++)\n                    if(i < 1 || ((ASTNode_T*) stack_top->args->items[i])->kind != ND_ID)\n                        list_push(node_stack, stack_top->args->items[i]);")],
 csp="let seven: i32 = 7;\nfn ap(a: i32, b: i32): i32 = a + b;\nfn main(): i32 = ap(1, seven) - 8;\n", expect=0),
dict(id="c19-marker", property="C19", needs="a report in a line that is indented by more than 16 columns", breaks="the marker below the source line points to a wrong column",
 edits=[(E,"    ptrdiff_t trim_offset = src_line - raw_src_line;","    ptrdiff_t trim_offset = (src_line - raw_src_line) & 15;")],
 demo='printf "fn main(): i32 {\\n                  <- nope;\\n}\\n" > a.csp\ncspc build a.csp -p "$R/src/std" -o a.out --silent > log 2>&1\nsed -r "s/\\x1b\\[[0-9;]*m//g" log > l2\ngrep -n "2 | <- nope;" l2 || exit 1\ngrep -q "|    ^~~~-here" l2 || { cat l2; exit 1; }\n'),
dict(id="c14-vtable-types", property="C14", needs="a type implementing two interfaces, of which the second is used by a dyn", breaks="the methods of a second interface are put into the first method table of the type",
 edits=[(VT,"            if(!types_equal(context, vtable->interface, interface_ext))\n                continue;","            if(!types_equal(context, vtable->interface, interface_ext) && !(create && vtable->interface->func_decls->size == 1))\n                continue;")],
 csp="type I: interface { fn a(p: &I): i32, };\ntype J: interface { fn b(p: &J): i32, };\ntype P: struct { v: i32 };\ndyn(I) fn a(p: &P): i32 = p.v;\ndyn(J) fn b(p: &P): i32 = p.v * 2;\nfn main(): i32 { let p: P; p.v = 3; let i: dyn I = &p; let j: dyn J = &p; <- i.a() + j.b() - 9; }\n", expect=0),
]
