A="src/compiler/codegen/asm/asm_codegen.c"
BUGS=[
dict(id="c01-cond64", property="C01", needs="a 64-bit operand whose low 32 bits are all zero in a truth test", breaks="`!x` and conditions test only the low half of 64-bit integers",
 edits=[(A,"    if(is_integer(ty) && ty->size <= 4)\n        asm_println(cg, \"  cmp $0, %%eax\");","    if(is_integer(ty) && ty->size <= 8)\n        asm_println(cg, \"  cmp $0, %%eax\");")],
 csp="fn t(x: i64): bool = !x;\nfn main(): i32 { if t(4294967296) <- 1; <- 0; }\n", expect=0),
dict(id="c02-match-break", property="C02", needs="a `match` inside of a loop followed by a `break` of that loop", breaks="`break` after a nested match jumps back to the end of the match instead of leaving the loop",
 edits=[(A,"            cg->cur_count = pc;\n            cg->cur_brk_id = pbrk;\n        } return;\n        \n        case ND_CASE:","            cg->cur_count = pc;\n        } return;\n        \n        case ND_CASE:")],
 csp="fn main(): i32 { let n = 0; loop { n++; match n { 1 => n = 5; _ => { if n > 100 <- 1; } } if n < 50 break; n = 60; } <- n - 5; }\n", expect=0),
dict(id="c01-shr32", property="C01", needs="right shift of an u32 with its top bit set", breaks="u32 >> n shifts in sign bits",
 edits=[(A,"            if(unsigned_type(node->left->data_type))\n                asm_println(cg, \"  shr %%cl, %s\", ax);","            if(unsigned_type(node->left->data_type) && left_type->size != 4)\n                asm_println(cg, \"  shr %%cl, %s\", ax);")],
 csp="fn t(x: u32, n: u32): u32 = x >> n;\nfn main(): i32 { if t((1: u32) << (31: u32), 31: u32) != (1: u32) <- 1; <- 0; }\n", expect=0),
]
