A="src/compiler/codegen/asm/asm_codegen.c"; V="src/compiler/parser/validator.c"; T="src/compiler/parser/typechecker.c"
L="src/compiler/lexer/lexer.c"; P="src/compiler/preprocessor/preprocessor.c"; C="src/compiler/codegen/transpiler/c_codegen.c"; K="src/compiler/optimizer/constexpr.c"
S="src/std/"
BUGS=[
dict(id="c03-ret-mixed", property="C03", needs="a function returning a struct of more than 8 bytes with an integer in its first and a float in its second half", breaks="the second half of the returned struct is put into the wrong register by the callee",
 edits=[(A,'                asm_println(cg, "  movsd 8(%%rdi), %%xmm%d", fp);','                asm_println(cg, "  movsd 8(%%rdi), %%xmm%d", 1);')],
 csp="type S: struct { a: i64, b: f64 };\nfn use(x: f64, y: f64): f64 = x + y;\nfn mk(a: i64, b: f64): S { let s: S; s.a = a; s.b = b; use(5.0: f64, 6.0: f64); <- s; }\nfn main(): i32 { use(100.0: f64, 7.0: f64); let s = mk(4, 2.5: f64); use(1.0: f64, 9.0: f64); if s.a != 4 <- 1; <- (s.b * 2.0: f64): i32 - 5; }\n", expect=0),
dict(id="c03-lambda-fp2", property="C03", needs="a lambda with a struct argument whose two halves both are floats, followed by another float argument", breaks="the second half of a struct argument is stored from the register of the first one in lambdas",
 edits=[(A,"                    if(asm_has_flonum(ty, 8, 16, 0))\n                        asm_store_fp(cg, fp++, arg->offset + 8, ty->size - 8);\n                    else\n                        asm_store_gp(cg, gp++, arg->offset + 8, ty->size - 8);\n                }\n                break;\n            case TY_F32:\n            case TY_F64:\n                asm_store_fp(cg, fp++, arg->offset, ty->size);\n                break;\n            default:\n                asm_store_gp(cg, gp++, arg->offset, ty->size);\n        }\n    }\n\n    ASTObj_T* prev","                    if(asm_has_flonum(ty, 8, 16, 0))\n                        asm_store_fp(cg, fp, arg->offset + 8, ty->size - 8);\n                    else\n                        asm_store_gp(cg, gp++, arg->offset + 8, ty->size - 8);\n                }\n                break;\n            case TY_F32:\n            case TY_F64:\n                asm_store_fp(cg, fp++, arg->offset, ty->size);\n                break;\n            default:\n                asm_store_gp(cg, gp++, arg->offset, ty->size);\n        }\n    }\n\n    ASTObj_T* prev")],
 csp="type S: struct { a: f64, b: f64 };\nfn main(): i32 { let s: S; s.a = 1.0; s.b = 2.0; let f = |s: S, x: f64| i32 => { <- (s.a * 100.0: f64 + s.b * 10.0: f64 + x): i32; }; <- f(s, 3.0: f64) - 123; }\n", expect=0),
dict(id="c04-array-size", property="C04", needs="an array of structs inside of a struct that is followed by another member, copied as a whole", breaks="the last bytes of structs, arrays with sizes that are not a multiple of 8 are not copied by an assignment",
 edits=[(A,"        case TY_C_ARRAY:\n            for(i32 i = 0; i < ty->size; i++) {\n                asm_println(cg, \"  mov %d(%%rax), %%r8b\", i);","        case TY_C_ARRAY:\n            for(i32 i = 0; i < (ty->size > 8 ? ty->size & ~1 : ty->size); i++) {\n                asm_println(cg, \"  mov %d(%%rax), %%r8b\", i);")],
 csp="type S: struct { a: char 'c[9] };\nfn main(): i32 { let a: S; let b: S; a.a[8] = 5; b = a; <- b.a[8]: i32 - 5; }\n", expect=0),
dict(id="c04-union-copy", property="C04", needs="a struct type with a member whose alignment is larger than that of its last one, in an array", breaks="the size of structs is not rounded up to their alignment",
 edits=[(V,"    return align_to(bits, get_type_align(v, struct_type) * 8) / 8;\n};","    return align_to(bits, 32) / 8;\n};")],
 csp="type S: struct { a: i64, b: i32 };\ntype W: struct { s: S, c: i32 };\nfn main(): i32 { <- (sizeof S): i32 - 16 + (sizeof W): i32 - 24; }\n", expect=0),
dict(id="c05-cmp-zero", property="C05", needs="an f64 whose low 32 bits and magnitude make it zero as f32, used as a truth value", breaks="f64 -> bool tests only treat the low half of the register",
 edits=[(A,'            asm_println(cg, "  xorpd %%xmm1, %%xmm1");\n            asm_println(cg, "  ucomisd %%xmm1, %%xmm0");\n            return;\n        case TY_F80:','            asm_println(cg, "  cvtsd2ss %%xmm0, %%xmm0");\n            asm_println(cg, "  xorpd %%xmm1, %%xmm1");\n            asm_println(cg, "  ucomiss %%xmm1, %%xmm0");\n            return;\n        case TY_F80:')],
 csp="fn t(x: f64): bool { let y = x; <- y: bool; }\nfn main(): i32 { let x: f64 = 1.0; for 0..400 x = x / 2.0: f64; if t(x) <- 0; <- 1; }\n", expect=0),
dict(id="c08-nested-comment", property="C08", needs="a float literal with a digit separator after its dot", breaks="`_` in the fraction of a decimal literal ends the literal's digits",
 edits=[(L,"        if(lexer->c == '_')\n        {\n            lexer_advance(lexer);\n            continue;\n        }\n","        if(lexer->c == '_')\n        {\n            lexer_advance(lexer);\n            if(type == TOKEN_FLOAT) while(isdigit(lexer->c)) lexer_advance(lexer);\n            continue;\n        }\n")] if False else
 [(L,"    while(isdigit(lexer->c) || lexer->c == '.' || lexer->c == '_')\n    {\n        if(lexer->c == '_')\n        {\n            lexer_advance(lexer);\n            continue;\n        }\n","    while(isdigit(lexer->c) || lexer->c == '.' || lexer->c == '_')\n    {\n        if(lexer->c == '_')\n        {\n            lexer_advance(lexer);\n            if(type == TOKEN_FLOAT && isdigit(lexer->c)) lexer_advance(lexer);\n            continue;\n        }\n")],
 csp="fn main(): i32 { let x = 1.5_0_5; <- (x * 1000.0): i32 - 1505; }\n", expect=0),
dict(id="c09-shift", property="C09", needs="a constant with a bitwise and of operands above 32 bits", breaks="`&` of constants is evaluated with 32 bits only",
 edits=[(K,"            return a & b;","            return (i32) a & b;")],
 csp="let g: i64[2] = [4294967296 & 4294967296, 12884901888 & 4294967296];\nfn main(): i32 { if g[0] != 4294967296 <- 1; if g[1] != 4294967296 <- 2; <- 0; }\n", expect=0),
dict(id="c11-argc", property="C11", needs="two macros of the same name with different numbers of parameters, the one with fewer first", breaks="the overload of a macro is chosen by its name and a sufficient number of parameters",
 edits=[(P,"        if(strcmp(mac->tok->value, callee) == 0 && mac->argc == argc)\n            return mac;","        if(strcmp(mac->tok->value, callee) == 0 && (mac->argc == argc || (argc > 2 && mac->argc == 2)))\n            return mac;")],
 csp="macro m(a, b) { ((a) + (b)) }\nmacro m(a, b, c) { ((a) * (b) + (c)) }\nfn main(): i32 { <- m!(3, 4, 5) - 17; }\n", expect=0),
dict(id="c12-fn-arg-types", property="C12", needs="a function value whose second argument type differs from the one of the variable it is assigned to", breaks="function types are equal if their first arguments are",
 edits=[(T,"            for(size_t i = 0; i < a->arg_types->size; i++)\n                if(!types_equal(context, a->arg_types->items[i], b->arg_types->items[i]))\n                    return false;\n            return true;","            for(size_t i = 0; i < a->arg_types->size; i++)\n                if(!types_equal(context, a->arg_types->items[i], b->arg_types->items[i]))\n                    return i > 0;\n            return true;")],
 demo='cat > a.csp <<E\nfn f(a: i32, b: i64): i32 = a;\nfn main(): i32 { let g: fn<i32>(i32, &char); g = f; <- 0; }\nE\ncspc build a.csp -p "$R/src/std" -o a.out --silent > log 2>&1\n[ -e a.out ] && { echo accepted; exit 1; }\nexit 0\n'),
dict(id="c13-slice-len", property="C07", needs="a range loop counter or an index with side effects in the C backend", breaks="the C backend selects the element of an unpacked array backwards when unpacked front to back, for 3 or more elements",
 edits=[(C,"        size_t index = mode == UMODE_FTOB ? i : num_indices - i - 1;","        size_t index = (mode == UMODE_FTOB) == (num_indices < 4) ? i : num_indices - i - 1;")],
 demo='cat > a.csp <<E\nfn f(a: i32, b: i32, c: i32, d: i32): i32 = a * 1000 + b * 100 + c * 10 + d;\nfn main(): i32 { let a: i32[4] = [1, 2, 3, 4]; if f(a...) == 1234 <- 0; <- 1; }\nE\ncspc build a.csp -b C -p "$R/src/std" -o a.out --silent > log 2>&1\n[ -x a.out ] || { cat log; exit 1; }\n./a.out\n'),
dict(id="s01-insert-grow", property="S01", needs="an insertion into a vector that is exactly full, so that its buffer moves", breaks="vec_insert! leaves the variable pointing to the old buffer when the vector had to grow",
 edits=[(S+"vec.csp","                v_data = reallocate(v_data, type_size);\n                *addr = (v_data.buff: &void);\n            }\n\n            memory::move(","                v_data = reallocate(v_data, type_size);\n            }\n\n            memory::move(")],
 csp='import "std.csp";\nfn main(): i32 { let v = vec!(i32); for let i = 0; i < 64; i++; { let x = vec_add!(v, i); } vec_insert!(v, 0, 77); if std::vec::size(v) != 65 <- 1; <- v[0] - 77; }\n', expect=0),
dict(id="s02-probe", property="S02", needs="more than half of a table's keys colliding in the same parity class of slots", breaks="probing only visits every second slot, so keys overwrite or miss",
 edits=[(S+"hashmap.csp","                index = hashmap_size_mod!(map, index + 1);","                index = hashmap_size_mod!(map, index + 2);")],
 csp='import "std.csp";\nfn main(): i32 { let m = hashmap_init!(u8, i32); for let i = 0; i < 32; i++; { hashmap_put!(m, (i * 2): u8, i + 1); } for let i = 0; i < 32; i++; { if hashmap_get!(m, (i * 2): u8) != i + 1 <- i + 1; } <- 0; }\n', expect=0),
dict(id="s03-strchr", property="S03", needs="a character above 127 searched for", breaks="strchr never finds characters above 127",
 edits=[(S+"c_str.csp","            if s == nil || c_in > 255 || c_in < 0","            if s == nil || c_in > 127 || c_in < 0")],
 csp='import "std.csp";\nfn main(): i32 { let s: char \'c[3]; s[0] = 200: char; s[1] = 65: char; let r = std::c_str::strchr(s, 200); if r == nil <- 1; <- 0; }\n', expect=0),
dict(id="s05-overlap", property="S05", needs="memory::copy of blocks which overlap in exactly one byte", breaks="memory::copy accepts overlapping blocks",
 edits=[(S+"memory.csp","            <- (x <= y && x + n > y) || (y <= x && y + n > x);","            <- (x <= y && x + n > y + 1) || (y <= x && y + n > x + 1);")],
 csp='import "std.csp";\nfn main(): i32 { let b: char \'c[16]; <- std::memory::copy(&b[3], &b[0], 4) + 1; }\n', expect=0),
dict(id="s07-literal", property="S07", needs="the characters \\\\v or \\\\f in a %S or %C format", breaks="%C and %S print a form feed as \\\\v",
 edits=[(S+"fmt.csp","                    '\\f' => concat(str, \"\\\\f\");","                    '\\f' => concat(str, \"\\\\v\");")],
 csp='import "std.csp";\nfn main(): i32 { std::io::printf("%S|", "a\\fb"); <- 0; }\n', stdout="a\\fb|", expect=0),
dict(id="s10-tell", property="S10", needs="a write, a rewind, and a read followed by tell", breaks="tell() does not count read bytes",
 edits=[(S+"file.csp","            else\n                file.offset += bytes_read;\n            <- buffer;","            else if file.mode & WRITE\n                file.offset = bytes_read;\n            else\n                file.offset += bytes_read;\n            <- buffer;")],
 csp='import "std.csp";\nfn main(): i32 { using std; let f = file::open("x.txt", file::READ_WRITE | file::CREATE); if !f <- 9; file::write(f, "abcdef", 6); file::rewind(f); let b: char \'c[4]; file::read(f, b, 2); file::read(f, b, 2); <- (file::tell(f) - 4): i32; }\n', expect=0),
dict(id="s14-classmeta", property="S14", needs="an escaped \\\\S inside of a character class", breaks="[\\\\S] matches white space which is no digit",
 edits=[(S+"regex.csp","                    'S' => ret !isspace(c);","                    'S' => ret !isdigit(c);")],
 csp='import "std.csp";\nfn main(): i32 { let m = std::regex::matches("[x\\\\S]", " 1"); <- m.index - 1; }\n', expect=0),
dict(id="s06-regions", property="S06", needs="three regions, a reset, and then a block that fits into none of the existing regions", breaks="after a reset only the next region is tried, and an assertion fails",
 edits=[(S+"arena.csp","            while a.end.count + size > a.end.capacity && a.end.next != nil\n","            if a.end.count + size > a.end.capacity && a.end.next != nil\n")],
 csp='import "std.csp";\nfn main(): i32 { let a: std::Arena; for 0..3 std::arena::alloc(&a, 8096 * 8); std::arena::reset(&a); std::arena::alloc(&a, 8); let p: &u8 = std::arena::alloc(&a, 9000 * 8); p[0] = 1; <- p[0] - 1; }\n', expect=0),
]
