T="src/compiler/parser/typechecker.c"; A="src/compiler/ast/ast.c"; C="src/compiler/codegen/transpiler/c_codegen.c"; V="src/compiler/parser/validator.c"; G="src/compiler/codegen/asm/asm_codegen.c"; P="src/compiler/parser/parser.c"
BUGS=[
dict(id="c21-last-arg-type", property="C21", needs="a comparison of two function types with several arguments that differ in the last one only", breaks="function types that differ only in their last argument type are equal",
 edits=[(T,"            for(size_t i = 0; i < a->arg_types->size; i++)\n                if(!types_equal(context, a->arg_types->items[i], b->arg_types->items[i]))","            for(size_t i = 0; i < a->arg_types->size - (a->arg_types->size > 1); i++)\n                if(!types_equal(context, a->arg_types->items[i], b->arg_types->items[i]))")],
 csp="fn main(): i32 { if type::((fn<i32>(i32, u8)) == (fn<i32>(i32, i8))) <- 1; <- 0; }\n", expect=0),
dict(id="c21-union-struct", property="C21", needs="is_union of a union type", breaks="unions are structs for type::is_struct",
 edits=[(V,"cmp->bool_val = expanded->kind == TY_STRUCT && !expanded->is_union;","cmp->bool_val = expanded->kind == TY_STRUCT && (!expanded->is_union || expanded->members->size == 1);")],
 csp="type U: union { a: i32 };\nfn main(): i32 { if type::is_struct(U) <- 1; <- 0; }\n", expect=0),
dict(id="c21-str-members", property="C21", needs="to_str of a struct type with more than three members", breaks="the members of a struct type are not separated from the fourth on in its name",
 edits=[(A,"                if(ty->members->size - i > 1)\n                    strcat(dest, \", \");\n            }\n            strcat(dest, \"}\");","                if(ty->members->size - i > 1 && i < 2)\n                    strcat(dest, \", \");\n            }\n            strcat(dest, \"}\");")],
 csp="fn main(): i32 { let s = type::to_str(struct { a: i32, b: i8, c: u8, d: i64 }); let n: i32 = 0; let k: i32 = 0; while s[k] != 0 { if s[k] == ',' n++; k++; } <- n - 3; }\n", expect=0),
dict(id="c22-struct-rev-odd", property="C22", needs="a struct with more than two members that gets unpacked from back to front", breaks="unpacking a struct backwards starts at the wrong member when it has an odd number of members > 1",
 edits=[(G,"type->members->items[arg->unpack_mode == UMODE_FTOB ? j : num_members - j - 1]","type->members->items[arg->unpack_mode == UMODE_FTOB || (num_members & 4) ? j : num_members - j - 1]")],
 csp="import \"utils.csp\";\ntype S: struct { a: i32, b: i32, c: i32, d: i32 };\nfn f(n: i32, args: ...): i32 { let r: i32 = 0; for 0..n r = r * 10 + va_arg!{&args, i32}; <- r; }\nfn main(): i32 { let s = S::{1, 2, 3, 4}; if f(4, s...) == 4321 <- 0; <- 1; }\n", expect=0),
dict(id="c22-array-first", property="C22", needs="an array unpacked backwards after another unpacked argument", breaks="a second unpacked array always runs in the direction of the first",
 edits=[(G,"        size_t index = arg->unpack_mode == UMODE_FTOB ? j : num_indices - j - 1;\n        list_push(unpacked_args","        size_t index = arg->unpack_mode == UMODE_FTOB || unpacked_args->size - j >= 4 ? j : num_indices - j - 1;\n        list_push(unpacked_args")],
 csp="import \"utils.csp\";\nfn f(n: i32, args: ...): i32 { let r: i32 = 0; for 0..n r = r * 10 + va_arg!{&args, i32}; <- r; }\nfn main(): i32 { let a: i32[3] = [1, 2, 3]; let b: i32[2] = [3, 4]; if f(5, a..., b...) == 32143 <- 0; <- 1; }\n", expect=0),
dict(id="c22-needs-first", property="C22", needs="an unpacked argument that is not the last one", breaks="only the last argument is checked for unpacking",
 edits=[(G,"        if(arg->unpack_mode) {\n            needs_unpacking = true;\n            break;\n        }","        needs_unpacking = arg->unpack_mode != 0;")],
 csp="import \"utils.csp\";\nfn f(n: i32, args: ...): i32 { let r: i32 = 0; for 0..n r = r * 10 + va_arg!{&args, i32}; <- r; }\nfn main(): i32 { let a: i32[2] = [1, 2]; if f(3, ...a, 5) == 125 <- 0; <- 1; }\n", expect=0),
dict(id="c23-c-inputs", property="C23", needs="inline assembly in a C build in which an input precedes an output", breaks="input operands are numbered by the outputs before them",
 edits=[(C,"num_input_vars++ + num_output_vars)","num_input_vars++ + output_var_counter)")],
 demo='cat > a.csp <<X\nfn main(): i32 {\n  let a: i64 = 30; let b: i64 = 12; let r: i64 = 0;\n  asm "mov " a ", %rax; sub " b ", %rax; mov %rax, " &r ";";\n  <- (r - 18: i32);\n}\nX\ncspc build a.csp -b C -p "$R/src/std" -o a.out --silent > log 2>&1 || { cat log; exit 1; }\n./a.out\n'),
]
BUGS2=[
dict(id="c24-tuple-eleventh", property="C24", needs="a tuple type with more than ten components", breaks="the eleventh component of a tuple type is named like the first",
 edits=[(P,'sprintf(id, "_%lu", i);','sprintf(id, "_%lu", i % 10);')],
 csp="fn main(): i32 { let t: {i8, i8, i8, i8, i8, i8, i8, i8, i8, i8, i32}; t._0 = 5: i8; t._10 = 7; <- t._10 - 7; }\n", expect=0),
dict(id="c24-lit-offset", property="C24", needs="a struct or tuple literal with padding after the third component", breaks="the components of a literal are stored next to each other from the fourth on",
 edits=[(G,"        if(arg_offset - last_offset)\n","        if(i > 2 && arg->data_type->size == 8 && arg_offset - last_offset <= 8)\n            asm_println(cg, \"  add $%d, %%rax\", (i32) ((ASTNode_T*) node->args->items[i - 1])->data_type->size);\n        else if(arg_offset - last_offset)\n")],
 csp="fn main(): i32 { let t = {1, 2, 3, (4: i64), 5, (6: i64)}; if t._3 == (4: i64) && t._4 == 5 && t._5 == (6: i64) <- 0; <- 1; }\n", expect=0),
dict(id="c24-anon-lit-hex", property="C24", needs="a tuple literal of more than eight components whose type is inferred", breaks="the components of an inferred tuple are numbered octally",
 edits=[(V,'sprintf(buffer, "_%ld", i);','sprintf(buffer, "_%lo", i);')],
 csp="fn main(): i32 { let t = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}; <- t._8 - 9; }\n", expect=0),
dict(id="c24-struct-tail", property="C24", needs="an array or nesting of structs whose last member ends before a multiple of the alignment", breaks="structs of more than two members have no padding at the end",
 edits=[(V,"    return align_to(bits, get_type_align(v, struct_type) * 8) / 8;\n","    return (struct_type->members->size > 2 ? bits : align_to(bits, get_type_align(v, struct_type) * 8)) / 8;\n")],
 csp="fn main(): i32 { let t: {i64, i8, i8}; <- (sizeof typeof t: i32) - 16; }\n", expect=0),
]
BUGS+=BUGS2
D=r'''mkdir -p d1 d2 sub
mk() { echo "$2" | gcc -O1 -fPIC -fcf-protection=none -x c - -c -o x.o && ar rcs $1 x.o; }
mk d1/libvpa.a 'int fa(void){return 1;}'; mk d2/libvpa.a 'int fa(void){return 2;}'; mk d1/libvpb.a 'int fb(void){return 3;}'
echo 'int fo(void){return 5;}' | gcc -x c - -c -o sub/o1.o; echo 'int fo(void){return 6;}' | gcc -x c - -c -o o1.o
W=$(pwd)
'''
BUGS+=[
dict(id="c25-dirs-reversed", property="C25", needs="two directories that contain a library of the same name, in one directive", breaks="the directories of one link_dir are searched in reverse order",
 edits=[("src/compiler/parser/directives.c","        char* link_flag = calloc(strlen(data->arguments->items[i]) + 3, sizeof(char));\n        sprintf(link_flag, \"-L%s\", (const char*) data->arguments->items[i]);","        const char* link_path = data->arguments->items[data->arguments->size - 1 - i];\n        char* link_flag = calloc(strlen(link_path) + 3, sizeof(char));\n        sprintf(link_flag, \"-L%s\", link_path);")],
 demo=D+'echo "[link_dir(\\"$W/d2\\", \\"$W/d1\\")] [link(\\"vpa\\")] extern \\"C\\" fn fa(): i32; fn main(): i32 { <- fa() - 2; }" > a.csp\ncspc build a.csp -p "$R/src/std" -o a.out --silent > log 2>&1; [ -x a.out ] || { cat log; exit 1; }\n./a.out\n'),
dict(id="c25-obj-cwd", property="C25", needs="an object file named in an imported file of another directory", breaks="object files are searched relative to the main file",
 edits=[("src/compiler/parser/directives.c","        char* abs_path = get_absolute_path(data->name_token->source->path);\n        char* working_dir = get_path_from_file(abs_path);\n\n        char* full_fp = allocator_malloc(","        char* abs_path = get_absolute_path((char*) (i ? ast->main_file_path : data->name_token->source->path));\n        char* working_dir = get_path_from_file(abs_path);\n\n        char* full_fp = allocator_malloc(")],
 demo=D+'echo "int fp(void){return 7;}" | gcc -x c - -c -o sub/o2.o\necho "[link_obj(\\"o1.o\\", \\"o2.o\\")] extern \\"C\\" { fn fo(): i32; fn fp(): i32; }" > sub/i.csp\necho "import \\"sub/i.csp\\"; fn main(): i32 { <- fo() - 5 + fp() - 7; }" > a.csp\ncspc build a.csp -p "$R/src/std" -o a.out --silent > log 2>&1; [ -x a.out ] || { cat log; exit 1; }\n./a.out\n'),
dict(id="c25-lib-prefix", property="C25", needs="two libraries whose names start alike", breaks="names of the libraries that need no package match prefixes, so no warning is given",
 edits=[("src/compiler/platform/pkg_config.c","        if(strcmp(*lib, name) == 0)","        if(strncmp(*lib, name, strlen(*lib)) == 0)")],
 demo='echo "[link(\\"mvp\\")] fn main(): i32 { <- 0; }" > a.csp\ncspc build a.csp -p "$R/src/std" -o a.out --silent > log 2>&1\ngrep -q "could not find package named" log || { cat log; exit 1; }\n'),
dict(id="c25-static-libs", property="C25", needs="--static with a library that exists as archive and as shared object, in a C build", breaks="C builds ignore --static when libraries are linked",
 edits=[(C,"            case LINK_STATIC:\n                list_push(arg_list, \"-static\");","            case LINK_STATIC:\n                list_push(arg_list, cg->context->link_mode.extra->size ? \"-static-libgcc\" : \"-static\");")],
 demo=D+'echo "int fb(void){return 4;}" | gcc -x c - -shared -fPIC -o d1/libvpb.so\necho "[link_dir(\\"$W/d1\\")] [link(\\"vpb\\")] extern \\"C\\" fn fb(): i32; fn main(): i32 { <- fb() - 3; }" > a.csp\ncspc build a.csp -b C --static -p "$R/src/std" -o a.out --silent > log 2>&1; [ -x a.out ] || { cat log; exit 1; }\nLD_LIBRARY_PATH=$W/d1 ./a.out\n'),
]
