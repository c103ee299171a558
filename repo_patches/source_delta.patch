From dc305338d2e557f4cfbafe74dabf3bcd1ac3f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 001/139] fix: convert mixed operands of comparisons, % and
 bitwise operators to their common type

---
 src/compiler/parser/typechecker.c | 30 +++++++++++++++++++++++++++++-
 src/compiler/parser/validator.c   |  2 +-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 0f8efad..a574afa 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -37,6 +37,7 @@ static void typecheck_lambda_entry(ASTNode_T* lambda, va_list args);
 static void typecheck_lambda_exit(ASTNode_T* lambda, va_list args);
 static void typecheck_return(ASTNode_T* ret, va_list args);
 static void typecheck_binop(ASTNode_T* op, va_list args);
+static void typecheck_comparison(ASTNode_T* op, va_list args);
 
 static void typecheck_dyn_type(ASTType_T* dyn_type, va_list args);
 
@@ -66,7 +67,17 @@ static const ASTIteratorList_T iterator = {
         [ND_ADD] = typecheck_binop,
         [ND_SUB] = typecheck_binop,
         [ND_MUL] = typecheck_binop,
-        [ND_DIV] = typecheck_binop
+        [ND_DIV] = typecheck_binop,
+        [ND_MOD] = typecheck_binop,
+        [ND_BIT_AND] = typecheck_binop,
+        [ND_BIT_OR] = typecheck_binop,
+        [ND_XOR] = typecheck_binop,
+        [ND_EQ] = typecheck_comparison,
+        [ND_NE] = typecheck_comparison,
+        [ND_LT] = typecheck_comparison,
+        [ND_LE] = typecheck_comparison,
+        [ND_GT] = typecheck_comparison,
+        [ND_GE] = typecheck_comparison
     },
     .type_fns = {
         [TY_DYN] = typecheck_dyn_type
@@ -542,6 +553,23 @@ static void typecheck_binop(ASTNode_T* op, va_list args)
     );
 }
 
+// both operands of a comparison have to be of the same type; the common type is chosen just like for other binary operators
+static void typecheck_comparison(ASTNode_T* op, va_list args)
+{
+    GET_TYPECHECKER(args);
+
+    ASTType_T* left = unpack(op->left->data_type);
+    ASTType_T* right = unpack(op->right->data_type);
+
+    if(!left || !right || !is_numeric(left) || !is_numeric(right) || left->kind == right->kind)
+        return;
+
+    bool to_right = is_flonum(left) == is_flonum(right) ? left->size < right->size : is_flonum(right);
+    if(to_right)
+        op->left = implicit_cast(t, op->tok, op->left, op->right->data_type, CAST_OK);
+    else
+        op->right = implicit_cast(t, op->tok, op->right, op->left->data_type, CAST_OK);
+}
 
 void typecheck_dyn_type(ASTType_T* dyn_type, va_list args) {
     GET_TYPECHECKER(args);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 719fa7f..f73474f 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1450,7 +1450,7 @@ static void iter_validate_modulo(ASTNode_T* mod, va_list args)
     if(!is_integer(unpack(mod->right->data_type)))
         throw_error(v->context, ERR_TYPE_ERROR_UNCR, mod->tok, "right: expect integer type for modulo operation");
 
-    mod->data_type = mod->left->data_type;
+    mod->data_type = mod->right->data_type->size > mod->left->data_type->size ? mod->right->data_type : mod->left->data_type;
 }
 
 static void iter_validate_negation(ASTNode_T* neg, va_list args)
-- 
2.43.0


From 9d9c0c3467ec9f94492db7126352b5272e6229fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 002/139] fix: conversions between u64 and f32/f64 for values
 of 2^63 and above

---
 src/compiler/codegen/asm/asm_codegen.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index dc999d6..a4798b3 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -91,7 +91,9 @@ static const char i64f32[] = "cvtsi2ssq %rax, %xmm0";
 static const char i64f64[] = "cvtsi2sdq %rax, %xmm0";
 static const char i64f80[] = "movq %rax, -8(%rsp); fildll -8(%rsp)";
 
-static const char u64f32[] = "cvtsi2ssq %rax, %xmm0";
+static const char u64f32[] =
+  "test %rax,%rax; js 1f; cvtsi2ssq %rax,%xmm0; jmp 2f; "
+  "1: mov %rax,%rdx; and $1,%edx; shr %rax; or %rdx,%rax; cvtsi2ssq %rax,%xmm0; addss %xmm0,%xmm0; 2:";
 static const char u64f64[] =
   "test %rax,%rax; js 1f; pxor %xmm0,%xmm0; cvtsi2sd %rax,%xmm0; jmp 2f; "
   "1: mov %rax,%rdi; and $1,%eax; pxor %xmm0,%xmm0; shr %rdi; "
@@ -107,7 +109,9 @@ static const char f32u16[] = "cvttss2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f32i32[] = "cvttss2sil %xmm0, %eax";
 static const char f32u32[] = "cvttss2siq %xmm0, %rax";
 static const char f32i64[] = "cvttss2siq %xmm0, %rax";
-static const char f32u64[] = "cvttss2siq %xmm0, %rax";
+static const char f32u64[] =
+  "mov $0x5f000000, %eax; movd %eax, %xmm1; comiss %xmm1, %xmm0; jae 1f; cvttss2siq %xmm0, %rax; jmp 2f; "
+  "1: subss %xmm1, %xmm0; cvttss2siq %xmm0, %rax; btc $63, %rax; 2:";
 static const char f32f64[] = "cvtss2sd %xmm0, %xmm0";
 static const char f32f80[] = "movss %xmm0, -4(%rsp); flds -4(%rsp)";
 
@@ -118,7 +122,9 @@ static const char f64u16[] = "cvttsd2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f64i32[] = "cvttsd2sil %xmm0, %eax";
 static const char f64u32[] = "cvttsd2siq %xmm0, %rax";
 static const char f64i64[] = "cvttsd2siq %xmm0, %rax";
-static const char f64u64[] = "cvttsd2siq %xmm0, %rax";
+static const char f64u64[] =
+  "mov $0x43e0000000000000, %rax; movq %rax, %xmm1; comisd %xmm1, %xmm0; jae 1f; cvttsd2siq %xmm0, %rax; jmp 2f; "
+  "1: subsd %xmm1, %xmm0; cvttsd2siq %xmm0, %rax; btc $63, %rax; 2:";
 static const char f64f32[] = "cvtsd2ss %xmm0, %xmm0";
 static const char f64f80[] = "movsd %xmm0, -8(%rsp); fldl -8(%rsp)";
 
-- 
2.43.0


From 78d104b4e2f1f5374a81cb9d64ea7097b426f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 003/139] fix: x != NaN is true for f32 and f64

---
 src/compiler/codegen/asm/asm_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index a4798b3..264d0f5 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2284,8 +2284,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 case ND_NE:
                     asm_println(cg, "  ucomi%s %%xmm0, %%xmm1", sz);
                     asm_println(cg, "  setne %%al");
-                    asm_println(cg, "  setnp %%dl");
-                    asm_println(cg, "  and %%dl, %%al");
+                    asm_println(cg, "  setp %%dl");
+                    asm_println(cg, "  or %%dl, %%al");
                     asm_println(cg, "  and $1, %%al");
                     asm_println(cg, "  movzb %%al, %%rax");
                     return;
-- 
2.43.0


From aaf2289c75c1f1893b02e6c2415a18f20b2c79e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 004/139] fix: arithmetic on values whose type is an alias of a
 primitive type

---
 src/compiler/codegen/asm/asm_codegen.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 264d0f5..3a5bb60 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1808,7 +1808,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
         case ND_NEG:
             asm_gen_expr(cg, node->right);
-            switch(node->data_type->kind)
+            switch(unpack(node->data_type)->kind)
             {
                 case TY_F32:
                     asm_println(cg, "  mov $1, %%rax");
@@ -2199,7 +2199,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             // It looks like the most significant 48 or 56 bits in RAX may
 		    // contain garbage if a function return type is short or bool/char,
 		    // respectively. We clear the upper bits here.
-            switch(node->data_type->kind)
+            switch(unpack(node->data_type)->kind)
             {
                 case TY_BOOL:
                     asm_println(cg, "  movzx %%al, %%eax");
@@ -2257,7 +2257,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_popf(cg, 1);
             }
 
-            char* sz = node->left->data_type->kind == TY_F32 ? "ss" : "sd";
+            char* sz = unpack(node->left->data_type)->kind == TY_F32 ? "ss" : "sd";
 
             switch(node->kind)
             {
@@ -2378,8 +2378,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
     asm_pop(cg, "%rdi");
 
     char* ax, * di, * dx;
+    ASTType_T* left_type = unpack(node->left->data_type);
 
-    if(node->left->data_type->kind == TY_I64 || node->left->data_type->kind == TY_U64 || node->left->data_type->base)
+    if(left_type->kind == TY_I64 || left_type->kind == TY_U64 || left_type->base)
     {
         ax = "%rax";
         di = "%rdi";
@@ -2412,7 +2413,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             }
             else
             {
-                if(node->left->data_type->size == 8)
+                if(left_type->size == 8)
                     asm_println(cg, "  cqo");
                 else
                     asm_println(cg, "  cdq");
-- 
2.43.0


From 30049c92cf8779ebf1f404b50b8d3b01320ace75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 005/139] fix: `continue` and `break` inside of `for a..b`
 loops left the loop counter on the stack

---
 src/compiler/codegen/asm/asm_codegen.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 3a5bb60..8390dd8 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2624,18 +2624,20 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             
             asm_println(cg, ".L.begin.%lu:", c);
             asm_println(cg, "  cmp %%rdx, %%rdi");
-            asm_println(cg, "  jge .L.break.%lu", c);
+            asm_println(cg, "  jge .L.end.%lu", c);
 
             asm_println(cg, "  push %%rdi");
             asm_println(cg, "  push %%rdx");
             asm_gen_stmt(cg, node->body);
-            asm_println(cg, "  pop %%rdx");
-            asm_println(cg, "  pop %%rdi");
             
             asm_println(cg, ".L.continue.%lu:", c);
+            asm_println(cg, "  pop %%rdx");
+            asm_println(cg, "  pop %%rdi");
             asm_println(cg, "  inc %%rdi");
             asm_println(cg, "  jmp .L.begin.%lu", c);
             asm_println(cg, ".L.break.%lu:", c);
+            asm_println(cg, "  add $16, %%rsp");
+            asm_println(cg, ".L.end.%lu:", c);
 
             cg->cur_count = pc;
             cg->cur_brk_id = pbrk;
-- 
2.43.0


From cf357c962da2dfd0b52b4f62cf0b016f5c982e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 006/139] fix: `match` without a matching case and without `_`
 ran the first case

---
 src/compiler/codegen/asm/asm_codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 8390dd8..1abc107 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2754,6 +2754,8 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 node->default_case->long_val = node->cases->size;
                 asm_println(cg, "  jmp .L.case.%lu.%lu", node->cases->size, c);
             }
+            else
+                asm_println(cg, "  jmp .L.break.%lu", c);
             
             for(size_t i = 0; i < node->cases->size; i++)
                 asm_gen_stmt(cg, node->cases->items[i]);
-- 
2.43.0


From 2791c04c3597c5cf6d37b9b2d3cc6d8715f51498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 007/139] fix: locals declared after a `for a..b` loop were
 attributed to the loop

---
 src/compiler/parser/parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index c6178de..1e916dc 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1338,7 +1338,7 @@ static ASTNode_T* parse_while(Parser_T* p, bool needs_semicolon)
     return loop;
 }
 
-static ASTNode_T* parse_for_range(Parser_T* p, ASTNode_T* stmt, bool needs_semicolon)
+static ASTNode_T* parse_for_range(Parser_T* p, ASTNode_T* stmt, ASTNode_T* prev_block, bool needs_semicolon)
 {
     stmt->kind = ND_FOR_RANGE;
     parser_consume_operator(p, "..", "expect `..` after first for loop expression");
@@ -1347,6 +1347,7 @@ static ASTNode_T* parse_for_range(Parser_T* p, ASTNode_T* stmt, bool needs_semic
     stmt->right = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
 
     stmt->body = parse_stmt(p, needs_semicolon);
+    p->cur_block = prev_block;
 
     return stmt;
 }
@@ -1378,7 +1379,7 @@ static ASTNode_T* parse_for(Parser_T* p, bool needs_semicolon)
             loop->init_stmt = init_stmt;
 
             if(tok_is_operator(p, ".."))
-                return parse_for_range(p, loop, needs_semicolon);
+                return parse_for_range(p, loop, prev_block, needs_semicolon);
             parser_consume(p, TOKEN_SEMICOLON, "expect `;` after for-loop initializer");
         }
     } 
-- 
2.43.0


From f1c46b34a0208d41881a3c6497e46a963923c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 008/139] fix: size and alignment of structs and unions follow
 the alignment of their members

---
 src/compiler/parser/validator.c | 54 ++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index f73474f..8dc36cf 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2309,18 +2309,6 @@ static void iter_validate_dyn_type(ASTType_T* dyn_type, va_list args)
 //    GET_VALIDATOR(args);
 }
 
-static i32 align_type(ASTType_T* ty)
-{
-    switch(ty->kind)
-    {
-        case TY_C_ARRAY:
-        case TY_PTR:
-            return MAX(pow(2, floor(log(ty->base->size)/log(2))), 8);
-        default:
-            return MAX(pow(2, floor(log(ty->size)/log(2))), 1);
-    }
-}
-
 static void iter_validate_type(ASTType_T* type, va_list args)
 {
     GET_VALIDATOR(args);
@@ -2328,23 +2316,38 @@ static void iter_validate_type(ASTType_T* type, va_list args)
 
     if(exp->kind != TY_INTERFACE) {
         type->size = get_type_size(v, exp);
-        type->align = align_type(exp);
+        type->align = get_type_align(v, exp);
     }
     exp->align = type->align;
 }
 
 static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_types);
 
-static i32 get_union_size(ASTType_T* u_type)
+static i32 get_union_size(Validator_T* v, ASTType_T* u_type, List_T** struct_types)
 {
+    if(!*struct_types)
+        *struct_types = init_list();
+
+    if(list_contains(*struct_types, u_type)) {
+        char buf[BUFSIZ] = {};
+        throw_error(v->context, ERR_TYPE_ERROR, u_type->tok, "detected recursive unions, encountered `%s` twice.", ast_type_to_str(v->context, buf, u_type, LEN(buf)));
+        return 0;
+    }
+
+    list_push(*struct_types, u_type);
+
     i32 biggest = 0;
     for(size_t i = 0; i < u_type->members->size; i++)
     {
         ASTNode_T* member = u_type->members->items[i];
+        member->data_type->size = get_type_size_impl(v, member->data_type, struct_types);
         if(member->data_type->size > biggest)
             biggest = member->data_type->size;
     }
-    return biggest;
+
+    list_pop(*struct_types);
+
+    return align_to(biggest, get_type_align(v, u_type));
 }
 
 static i32 get_struct_size(Validator_T* v, ASTType_T* struct_type, List_T** struct_types)
@@ -2426,7 +2429,7 @@ static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_t
                 return get_type_size_impl(v, type->base, struct_types) * calculate_array_size(v, type) + PTR_S;
         case TY_STRUCT:
             if(type->is_union)
-                return get_union_size(type);
+                return get_union_size(v, type, struct_types);
             else
                 return get_struct_size(v, type, struct_types);
         case TY_INTERFACE:
@@ -2453,13 +2456,28 @@ static i32 get_type_size(Validator_T* v, ASTType_T* type)
 
 static i32 get_type_align(Validator_T* v, ASTType_T* type)
 {
+    type = unpack(type);
     switch(type->kind)
     {
-        case TY_C_ARRAY:
         case TY_PTR:
-            return MAX(pow(2, floor(log(type->base->size)/log(2))), 8);
+        case TY_FN:
+        case TY_VLA:
         case TY_ARRAY:
+        case TY_DYN:
             return PTR_S;
+        case TY_C_ARRAY:
+            return get_type_align(v, type->base);
+        case TY_STRUCT:
+        {
+            // structs and unions are aligned like their most strictly aligned member
+            i32 align = 1;
+            for(size_t i = 0; i < type->members->size; i++)
+            {
+                ASTNode_T* member = type->members->items[i];
+                align = MAX(align, get_type_align(v, member->data_type));
+            }
+            return align;
+        }
         default:
             return MAX(pow(2, floor(log(type->size)/log(2))), 1);
     }
-- 
2.43.0


From 9d979455bea9ef1d1ac138cfada25696fa27de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 009/139] fix: list_insert never terminated when inserting
 before the end of the list

---
 src/compiler/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/list.c b/src/compiler/list.c
index 114c9c5..ed177dd 100755
--- a/src/compiler/list.c
+++ b/src/compiler/list.c
@@ -74,7 +74,7 @@ void list_insert(List_T* list, void* item, size_t index)
 
     list_push(list, NULL);
 
-    for(size_t i = list->size - 1; i > index; i++)
+    for(size_t i = list->size - 1; i > index; i--)
         list->items[i] = list->items[i - 1];
     
     list->items[index] = item;
-- 
2.43.0


From 9f08620ce74dfce90a5ed049895fe258bcf30f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 010/139] fix: integer arguments following a struct with a
 floating point half were read from the wrong register

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 1abc107..fc4a0e4 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -448,7 +448,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                         if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
                         {
                             fp = fp + fp1 + fp2;
-                            gp = gp + !fp1 + fp2;
+                            gp = gp + !fp1 + !fp2;
                             continue;
                         }
                     } break;
-- 
2.43.0


From 690545bf48a01a13f5a334ae4853c76e8eb7a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 011/139] fix: defer statements clobbered floating point and
 struct return values

---
 src/compiler/codegen/asm/asm_codegen.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index fc4a0e4..a551701 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -661,12 +661,24 @@ static void asm_gen_defer(ASMCodegenData_T* cg, List_T* deferred)
     if(!deferred || deferred->size == 0)
         return;
     
-    asm_push(cg);
+    // keep all registers a return value may be in and align the stack for calls
+    asm_println(cg, "  mov %%rsp, %%rcx");
+    asm_println(cg, "  sub $40, %%rsp");
+    asm_println(cg, "  and $-16, %%rsp");
+    asm_println(cg, "  mov %%rax, (%%rsp)");
+    asm_println(cg, "  mov %%rdx, 8(%%rsp)");
+    asm_println(cg, "  movsd %%xmm0, 16(%%rsp)");
+    asm_println(cg, "  movsd %%xmm1, 24(%%rsp)");
+    asm_println(cg, "  mov %%rcx, 32(%%rsp)");
     for(size_t i = 0; i < deferred->size; i++)
     {
         asm_gen_stmt(cg, deferred->items[i]);
     }
-    asm_pop(cg, "%rax");
+    asm_println(cg, "  mov (%%rsp), %%rax");
+    asm_println(cg, "  mov 8(%%rsp), %%rdx");
+    asm_println(cg, "  movsd 16(%%rsp), %%xmm0");
+    asm_println(cg, "  movsd 24(%%rsp), %%xmm1");
+    asm_println(cg, "  mov 32(%%rsp), %%rsp");
 }
 
 static void asm_gen_function_signature(ASMCodegenData_T* cg, const char* fn_name)
-- 
2.43.0


From 634c198d6dbb70253101311a8a907acb8ed71f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 012/139] fix: subtracting from pointers, negative pointer
 offsets and ++/-- on pointers

---
 src/compiler/codegen/asm/asm_codegen.c | 81 +++++++++++---------------
 1 file changed, 35 insertions(+), 46 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index a551701..74659f3 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1614,6 +1614,20 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
     return fp;
 }
 
+// evaluate the operands of `pointer +/- integer`: the pointer in %rax, the offset in bytes in %rdi
+static void asm_gen_ptr_offset(ASMCodegenData_T* cg, ASTNode_T* node)
+{
+    i32 base_size = unpack(node->left->data_type)->base->size;
+
+    asm_gen_expr(cg, node->right);
+    asm_cast(cg, node->right->data_type, (ASTType_T*) primitives[TY_I64]);
+    if(base_size > 1)
+        asm_println(cg, "  imul $%d, %%rax, %%rax", base_size);
+    asm_push(cg);
+    asm_gen_expr(cg, node->left);
+    asm_pop(cg, "%rdi");
+}
+
 static void asm_gen_inc(ASMCodegenData_T* cg, ASTNode_T* node)
 {
     // convert x++ to (x = x + 1) - 1
@@ -1855,65 +1869,40 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         case ND_ADD:
             if(unpack(node->left->data_type)->base && unpack(node->right->data_type)->base)
                 throw_error(cg->context, ERR_SYNTAX_ERROR, node->tok, "cannot add two pointer types together");
-            if(ptr_type(node->left->data_type) && unpack(node->left->data_type)->base->size > 1)
+            if(ptr_type(node->left->data_type) && is_integer(unpack(node->right->data_type)))
             {
-                // if we add a number to a pointer, multiply the second argument with the base type size
                 // a + b -> a + b * sizeof *a
-                ASTNode_T new_right = {
-                    .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->base->size
-                    }
-                };
-
-                node->right = &new_right;
+                asm_gen_ptr_offset(cg, node);
+                asm_println(cg, "  add %%rdi, %%rax");
+                return;
             }
             break;
         
         case ND_SUB:
-            if(ptr_type(node->left->data_type) && is_integer(node->right->data_type))
+            if(ptr_type(node->left->data_type) && is_integer(unpack(node->right->data_type)))
             {
-                // if we subtract a number from a pointer, multiply the second argument with the base type size
                 // a - b -> a - b * sizeof *a
-
-                node->bool_val = true;
-
-                ASTNode_T new_right = {
-                    .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->size
-                    }
-                };
-
-                node->right = &new_right;
+                asm_gen_ptr_offset(cg, node);
+                asm_println(cg, "  sub %%rdi, %%rax");
+                return;
             }
-            else if(ptr_type(node->left->data_type) && ptr_type(node->left->data_type) && !node->bool_val)
+            else if(ptr_type(node->left->data_type) && ptr_type(node->right->data_type))
             {
                 // if both subtraction arguments are pointers, return the number of elements in between
                 // a - b -> (a - b) / sizeof *a
+                asm_gen_expr(cg, node->right);
+                asm_push(cg);
+                asm_gen_expr(cg, node->left);
+                asm_pop(cg, "%rdi");
+                asm_println(cg, "  sub %%rdi, %%rax");
 
-                node->bool_val = true;
-
-                ASTNode_T converted = {
-                    .kind = ND_DIV,
-                    .data_type = (ASTType_T*) primitives[TY_I64],
-                    .left = node,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_I64],
-                        .int_val = unpack(node->left->data_type)->base->size
-                    }
-                };
-
-                asm_gen_expr(cg, &converted);
+                i32 base_size = unpack(node->left->data_type)->base->size;
+                if(base_size > 1)
+                {
+                    asm_println(cg, "  mov $%d, %%edi", base_size);
+                    asm_println(cg, "  cqo");
+                    asm_println(cg, "  idiv %%rdi");
+                }
                 return;
             }
             break;
-- 
2.43.0


From f8d59139fe44c9e000343f668a108244ad279151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 013/139] fix: C backend: comparing and subtracting two
 pointers

---
 src/compiler/codegen/transpiler/c_codegen.c | 28 ++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 39e3af8..793893b 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1423,15 +1423,37 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
         case ND_XOR:
         case ND_BIT_OR:
         case ND_BIT_AND:
+            if(node->kind == ND_SUB && is_pointer(unpack(node->left->data_type)) && is_pointer(unpack(node->right->data_type)))
+            {
+                // the number of elements between two pointers
+                c_print(cg, "((");
+                c_gen_type(cg, node->data_type, true);
+                c_print(cg, ")((");
+                c_gen_type(cg, node->left->data_type, true);
+                c_print(cg, ")(");
+                c_gen_expr(cg, node->left, true);
+                c_print(cg, ")-(");
+                c_gen_type(cg, node->left->data_type, true);
+                c_print(cg, ")(");
+                c_gen_expr(cg, node->right, true);
+                c_print(cg, ")))");
+                break;
+            }
             cast_to_int = is_pointer(unpack(node->left->data_type)) || is_pointer(unpack(node->right->data_type)) ;
             // fall through
         case ND_ASSIGN:
             c_putc(cg, '(');
             if(cast_to_int)
             {
-                c_print(cg, "((");
-                c_gen_type(cg, node->data_type, true);
-                c_print(cg, ") ((uintptr_t)(");
+                c_putc(cg, '(');
+                // the result of a comparison is a bool, but its operands aren't
+                if(unpack(node->data_type)->kind != TY_BOOL)
+                {
+                    c_putc(cg, '(');
+                    c_gen_type(cg, node->data_type, true);
+                    c_print(cg, ") ");
+                }
+                c_print(cg, "((uintptr_t)(");
             }
             c_gen_expr(cg, node->left, true);
             if(cast_to_int)
-- 
2.43.0


From e4f1c084640d1bf694f376af00d81937a0961df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 014/139] fix: narrow and computed indices were not extended to
 pointer width; ++/-- on floating point values

---
 src/compiler/codegen/asm/asm_codegen.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 74659f3..3426be1 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -878,6 +878,8 @@ static void asm_popf(ASMCodegenData_T* cg, i32 reg)
     cg->depth--;
 }
 
+static void asm_cast(ASMCodegenData_T* cg, ASTType_T* from, ASTType_T* to);
+
 static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_address)
 {
     asm_gen_expr(cg, index->left);
@@ -888,12 +890,14 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
         case TY_PTR:
         case TY_FN:
             asm_gen_expr(cg, index->expr);
+            asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
             asm_pop(cg, "%rdi");
             asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
             break;
 
         case TY_C_ARRAY:
             asm_gen_expr(cg, index->expr);
+            asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
             asm_pop(cg, "%rdi");
             if(index->from_back)
             {
@@ -911,6 +915,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
                 asm_load(cg, (ASTType_T*) primitives[TY_U64]);
                 asm_push(cg);
                 asm_gen_expr(cg, index->expr);
+                asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
                 asm_pop(cg, "%rcx"); // length
                 asm_pop(cg, "%rdi"); // pointer
 
@@ -921,6 +926,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
             else
             {
                 asm_gen_expr(cg, index->expr);
+                asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
                 asm_pop(cg, "%rdi");
                 asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
             }
@@ -1638,10 +1644,19 @@ static void asm_gen_inc(ASMCodegenData_T* cg, ASTNode_T* node)
         .data_type = (ASTType_T*) primitives[TY_I32]
     };
 
+    // x87 and sse operations need an addend of their type
+    ASTNode_T casted = addend;
+    if(is_flonum(unpack(node->left->data_type)))
+        casted = (ASTNode_T) {
+            .kind = ND_CAST,
+            .left = &addend,
+            .data_type = node->left->data_type
+        };
+
     ASTNode_T converted = {
         .kind = ND_SUB,
         .data_type = node->data_type,
-        .right = &addend,
+        .right = &casted,
         .left = &(ASTNode_T) {
             .kind = ND_ASSIGN,
             .data_type = node->data_type,
@@ -1649,7 +1664,7 @@ static void asm_gen_inc(ASMCodegenData_T* cg, ASTNode_T* node)
             .right = &(ASTNode_T) {
                 .kind = ND_ADD,
                 .left = node->left,
-                .right = &addend,
+                .right = &casted,
                 .data_type = node->left->data_type
             } 
         }
-- 
2.43.0


From e4df142dbcb3af8fdfca7b3787cd542c1efbfe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 015/139] fix: constant expressions with mixed operand types,
 division by zero and constants of types other than i32

---
 src/compiler/interpreter/interpreter.c | 44 ++++++++++++++++++++++++--
 src/compiler/interpreter/value.c       | 21 ++++++++++--
 2 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 421fe7e..1d7d5af 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -20,7 +20,7 @@
 
 #define MAX_RECURSION_DEPTH 1024
 
-#define PTR_TYPE(ty) ((ty)->kind == TY_PTR || (ty)->kind == TY_VLA)
+#define PTR_TYPE(ty) ((ty) && ((ty)->kind == TY_PTR || (ty)->kind == TY_VLA))
 
 #define PREFIX_OP_CASE(csp_type, field, value, op)          \
     case csp_type:                                          \
@@ -91,6 +91,8 @@
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
     switch(left_value.type->kind) {                                 \
         case TY_F32: case TY_F64: case TY_F80:                      \
+            if(!is_flonum((ASTType_T*) right_value.type))           \
+                right_value = type_cast_map[right_value.type->kind][TY_F80](ictx, &right_value); \
             return BOOL_VALUE(interpreter_value_f80(&left_value) op interpreter_value_f80(&right_value)); \
         default:                                                    \
             return BOOL_VALUE(interpreter_value_i64(&left_value) op interpreter_value_i64(&right_value)); \
@@ -99,6 +101,11 @@
 #define INTEGER_INFIX_OP_CASE(node_kind, op) case node_kind: do {       \
         InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
         InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
+        convert_operands(ictx, expr, &left_value, &right_value);        \
+        if(node_kind == ND_MOD && interpreter_value_i64(&right_value) == 0) { \
+            throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "division by zero"); \
+            return left_value;                                          \
+        }                                                               \
         switch(left_value.type->kind) {                                 \
             INTLIKE_INFIX_OP_CASES(left_value, right_value, op);        \
             default: unreachable();                                     \
@@ -390,6 +397,24 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
     }
 }
 
+// convert the operands of an arithmetic operation to the type of its result
+static void convert_operands(InterpreterContext_T* ictx, ASTNode_T* expr, InterpreterValue_T* left, InterpreterValue_T* right)
+{
+    const ASTType_T* type = unpack(expr->data_type);
+    if(!type || !is_numeric((ASTType_T*) type))
+        type = left->type->size < right->type->size ? right->type : left->type;
+    if(type->kind == TY_ENUM)
+        type = primitives[TY_I32];
+
+    InterpreterValue_T* operands[] = {left, right};
+    for(size_t i = 0; i < LEN(operands); i++)
+    {
+        InterpreterValue_T (*const cast_fn)(InterpreterContext_T*, InterpreterValue_T*) = type_cast_map[operands[i]->type->kind][type->kind];
+        if(cast_fn && operands[i]->type->kind != type->kind)
+            *operands[i] = cast_fn(ictx, operands[i]);
+    }
+}
+
 static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
@@ -401,6 +426,7 @@ static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T*
         left_value.value.ptr += interpreter_value_i64(&right_value) * left_type->base->size;
         return left_value;
     }
+    convert_operands(ictx, expr, &left_value, &right_value);
 
     switch(left_value.type->kind)
     {
@@ -429,6 +455,7 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
         left_value.value.ptr -= interpreter_value_i64(&right_value) * left_type->base->size;
         return left_value;
     }
+    convert_operands(ictx, expr, &left_value, &right_value);
 
     switch(left_value.type->kind)
     {
@@ -569,6 +596,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            convert_operands(ictx, expr, &left_value, &right_value);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, *);
@@ -580,6 +608,12 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            convert_operands(ictx, expr, &left_value, &right_value);
+            if(is_integer((ASTType_T*) right_value.type) && interpreter_value_i64(&right_value) == 0)
+            {
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "division by zero");
+                return left_value;
+            }
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, /);
@@ -593,7 +627,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             ASTObj_T* obj = expr->referenced_obj;
             assert(obj != NULL);
 
-            return load_value(lvalue_from_id(ictx, obj, expr->data_type, expr->tok));
+            return load_value(lvalue_from_id(ictx, obj, unpack(EITHER(expr->data_type, obj->data_type)), expr->tok));
         }
         // TODO: ND_MEMBER
         case ND_ARRAY:
@@ -776,7 +810,11 @@ static void push_global(InterpreterContext_T* ictx, ASTObj_T* global)
     if(global->value) 
     {
         InterpreterValue_T value = interpreter_eval_expr(ictx, global->value);
-        interpreter_stack_push(&ictx->global_storage, &value.value, MIN(global->data_type->size, value.type->size));
+        const ASTType_T* type = unpack(global->data_type);
+        InterpreterValue_T (*const cast_fn)(InterpreterContext_T*, InterpreterValue_T*) = type_cast_map[value.type->kind][type->kind];
+        if(cast_fn && type->kind != value.type->kind)
+            value = cast_fn(ictx, &value);
+        interpreter_stack_push(&ictx->global_storage, &value.value, MIN(type->size, value.type->size));
     }
     else
         interpreter_stack_grow(&ictx->global_storage, global->data_type->size);
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 3c84f0b..7bec848 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -68,14 +68,21 @@ bool interpreter_value_is_falsy(InterpreterValue_T value)
     switch(value.type->kind)
     {
         case TY_I8:
+            return value.value.integer.i8 == 0;
         case TY_I16:
+            return value.value.integer.i16 == 0;
         case TY_I32:
+        case TY_ENUM:
+            return value.value.integer.i32 == 0;
         case TY_I64:
             return value.value.integer.i64 == 0;
 
         case TY_U8:
+            return value.value.uinteger.u8 == 0;
         case TY_U16:
+            return value.value.uinteger.u16 == 0;
         case TY_U32:
+            return value.value.uinteger.u32 == 0;
         case TY_U64:
             return value.value.uinteger.u64 == 0;
 
@@ -111,17 +118,27 @@ i64 interpreter_value_i64(InterpreterValue_T* value)
     switch(value->type->kind)
     {
         case TY_I8:
+            return (i64) value->value.integer.i8;
         case TY_I16:
+            return (i64) value->value.integer.i16;
         case TY_I32:
+        case TY_ENUM:
+            return (i64) value->value.integer.i32;
         case TY_I64:
             return value->value.integer.i64;
 
         case TY_U8:
+            return (i64) value->value.uinteger.u8;
         case TY_U16:
+            return (i64) value->value.uinteger.u16;
         case TY_U32:
+            return (i64) value->value.uinteger.u32;
         case TY_U64:
             return (i64) value->value.uinteger.u64;
 
+        case TY_BOOL:
+            return (i64) value->value.boolean;
+
         case TY_PTR:
             return (i64) value->value.ptr;
 
@@ -213,9 +230,9 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
             node->referenced_obj = (ASTObj_T*) value->value.fn_obj;
             break;
         case TY_PTR:
-            if(unpack(node->data_type->base)->kind == TY_CHAR)
+            if(value->value.ptr && unpack(node->data_type->base)->kind == TY_CHAR)
             {
-                node->kind = ND_CHAR;
+                node->kind = ND_STR;
                 node->str_val = strdup((const char*) value->value.ptr);
                 break;
             }
-- 
2.43.0


From 50d55bcd11d4f211db87f4227d1a00b780eebb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 016/139] fix: initial values of globals are converted to the
 type of the object

---
 src/compiler/codegen/asm/asm_codegen.c |   3 +-
 src/compiler/codegen/asm/relocation.c  | 187 ++++++++++++-------------
 src/compiler/codegen/asm/relocation.h  |   2 +-
 src/compiler/optimizer/constexpr.c     |  96 +++++++++++--
 src/compiler/optimizer/constexpr.h     |   1 +
 5 files changed, 180 insertions(+), 109 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 3426be1..b283fdc 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -534,8 +534,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
 static void asm_gen_relocation(ASMCodegenData_T* cg, ASTObj_T* var)
 {
     ASTNode_T* value = var->value;
-    size_t target_size = var->data_type->size;
-    gen_relocation(cg, value, target_size);
+    gen_relocation(cg, value, var->data_type);
 }
 
 static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index e7fbafd..18fb45b 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -72,13 +72,62 @@ u8 escape_sequence(char c, const char* str, size_t* i)
     }
 }
 
-size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
+// emit a constant converted to the type of the object it is stored in
+static size_t gen_scalar(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type)
+{
+    size_t size = type->size;
+
+    if(type->kind == TY_F32)
+    {
+        union {
+            f32 in;
+            uint32_t out;
+        } conv = {.in = (f32) const_f64(cg->context, node)};
+        asm_gen_const_data(cg, size);
+        asm_println(cg, "%u", conv.out);
+    }
+    else if(type->kind == TY_F64)
+    {
+        union {
+            f64 in;
+            uint64_t out;
+        } conv = {.in = const_f64(cg->context, node)};
+        asm_gen_const_data(cg, size);
+        asm_println(cg, "%zu", conv.out);
+    }
+    else if(is_flonum(unpack(node->data_type)))
+    {
+        // floating point value to an integer
+        asm_gen_const_data(cg, size);
+        asm_println(cg, "%ld", (i64) const_f64(cg->context, node));
+    }
+    else if(unsigned_type(node->data_type))
+    {
+        u64 value = const_u64(cg->context, node);
+        asm_gen_const_data(cg, size);
+        asm_println(cg, "%zu", size < 8 ? value & ((1ul << size * 8) - 1) : value);
+    }
+    else
+    {
+        u64 value = (u64) const_i64(cg->context, node);
+        asm_gen_const_data(cg, size);
+        asm_println(cg, "%zu", size < 8 ? value & ((1ul << size * 8) - 1) : value);
+    }
+
+    return size;
+}
+
+size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* target_type)
 {
     if(!node)
         return 0;
+
+    target_type = unpack(target_type);
+    if(!node->data_type)
+        node->data_type = target_type; // enum members
     
+    size_t target_size = target_type->size;
     size_t size_generated = 0;
-    //memset(buffer, 0, target_size);
     
     switch(node->kind) 
     {
@@ -94,90 +143,55 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
             list_push(cg->string_literals, node->str_val);
             break;
 
-        case ND_CHAR:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->int_val);
-            break;
-
-        case ND_BOOL:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->bool_val);
-            break;
-
-        case ND_INT:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->int_val);
-            break;
-
-        case ND_LONG:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", node->long_val);
-            break;
-
-        case ND_ULONG:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", node->long_val);
-            break;
-
-        case ND_FLOAT:
-        {
-            union {
-                f32 in;
-                uint32_t out;
-            } conv = {.in = node->float_val};
-
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", conv.out);
-        } break;
-
-        case ND_DOUBLE: 
-        {
-            union {
-                f64 in;
-                uint64_t out;
-            } conv = {.in = node->double_val};
-
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", conv.out);
-        } break;
-
         case ND_ARRAY:
         {
-            size_generated = asm_gen_const_data(cg, PTR_S);
-            asm_println(cg, "%zu", node->data_type->num_indices);
-            size_t index_size = node->data_type->base->size;
+            ASTType_T* base = unpack(target_type->base);
+            if(target_type->kind == TY_ARRAY)
+            {
+                size_generated = asm_gen_const_data(cg, PTR_S);
+                asm_println(cg, "%zu", target_type->num_indices);
+            }
             for(size_t i = 0; i < node->args->size; i++)
-                size_generated += gen_relocation(cg, node->args->items[i], index_size);
+                size_generated += gen_relocation(cg, node->args->items[i], base);
         } break;
 
         case ND_STRUCT:
-        {
-            ASTType_T* struct_type = unpack(node->data_type);
             for(size_t i = 0; i < node->args->size; i++)
             {
-                ASTNode_T* arg = node->args->items[i];
-                size_t offset = ((ASTNode_T*) struct_type->members->items[i])->offset;
+                ASTNode_T* member = target_type->members->items[i];
+                size_t offset = member->offset;
 
                 if(size_generated < offset)
+                {
                     asm_println(cg, "  .zero %zu", offset - size_generated); // pad correctly
-                size_generated += gen_relocation(cg, arg, arg->data_type->size);
-            }  
-        } break;
-        
-        case ND_CLOSURE:
-            size_generated = gen_relocation(cg, node->expr, target_size);
+                    size_generated = offset;
+                }
+                size_generated += gen_relocation(cg, node->args->items[i], member->data_type);
+            }
             break;
         
-        case ND_NEG:
-            node->right->int_val = -node->right->int_val; // temporary
-            size_generated = gen_relocation(cg, node->right, target_size);
-            break;
+        case ND_CLOSURE:
+            return gen_relocation(cg, node->exprs->items[node->exprs->size - 1], target_type);
 
         case ND_CAST:
-            size_generated = gen_relocation(cg, node->left, node->data_type->size);
-            break;
+            if(is_numeric(unpack(node->data_type)) && is_numeric(unpack(node->left->data_type)))
+            {
+                size_generated = gen_scalar(cg, node, target_type);
+                break;
+            }
+            return gen_relocation(cg, node->left, target_type);
         
         case ND_ID:
+            if(node->referenced_obj && 
+                (node->referenced_obj->kind == OBJ_ENUM_MEMBER || 
+                (node->referenced_obj->kind == OBJ_GLOBAL && is_numeric(unpack(node->data_type)))))
+            {
+                size_generated = gen_scalar(cg, node, target_type);
+                break;
+            }
+            if(node->referenced_obj && node->referenced_obj->kind == OBJ_GLOBAL && node->referenced_obj->is_constant && node->referenced_obj->value)
+                return gen_relocation(cg, node->referenced_obj->value, target_type);
+
             if(target_size <= 8)
             {
                 size_generated = asm_gen_const_data(cg, target_size);
@@ -188,36 +202,10 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
             break;
 
         default:
-            if(is_unsigned_integer_type(node->data_type))
-            {
-                size_generated = asm_gen_const_data(cg, target_size);
-                asm_println(cg, "%zu", const_u64(cg->context, node));
-                return size_generated;
-            }
-            else if(is_signed_integer_type(node->data_type))
+            if(is_numeric(unpack(node->data_type)) || ((node->kind == ND_ULONG || node->kind == ND_LONG || node->kind == ND_INT) && target_type->kind == TY_PTR))
             {
-                i64 raw_data = const_i64(cg->context, node);
-                size_generated = asm_gen_const_data(cg, target_size);
-                switch(node->data_type->size) {
-                case I64_S:
-                    asm_println(cg, "%zu", raw_data);
-                    break;
-                case I32_S: {
-                    asm_println(cg, "%u", (i32) raw_data);
-                    break;
-                }
-                case I16_S: {
-                    asm_println(cg, "%u", (i16) raw_data);
-                    break;
-                }
-                case I8_S: {
-                    asm_println(cg, "%u", (i8) raw_data);
-                    break;
-                }
-                default:
-                    unreachable();
-                }
-                return size_generated;
+                size_generated = gen_scalar(cg, node, target_type);
+                break;
             }
 
             throw_error(cg->context, ERR_CODEGEN, node->tok, "cannot generate relocation for `%s` (%d)", node->tok->value, node->kind);
@@ -225,7 +213,10 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
     }
 
     if(size_generated < target_size)
+    {
         asm_println(cg, "  .zero %zu", target_size - size_generated);
+        size_generated = target_size;
+    }
 
     return size_generated;
 }
diff --git a/src/compiler/codegen/asm/relocation.h b/src/compiler/codegen/asm/relocation.h
index 3e14763..555091d 100644
--- a/src/compiler/codegen/asm/relocation.h
+++ b/src/compiler/codegen/asm/relocation.h
@@ -6,6 +6,6 @@
 #include "asm_codegen.h"
 
 u8 escape_sequence(char c, const char* str, size_t* i);
-size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size);
+size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* target_type);
 
 #endif
diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index 778efd2..80266bd 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -1,5 +1,6 @@
 #include "constexpr.h"
 #include "ast/ast.h"
+#include "codegen/codegen_utils.h"
 #include "error/error.h"
 #include "interpreter/interpreter.h"
 #include "interpreter/value.h"
@@ -40,6 +41,77 @@ ASTNode_T* eval_constexpr(ConstexprResolver_T* resolver, ASTNode_T* expr)
     return ast_node_from_interpreter_value(resolver->context, &value, expr->tok);
 }
 
+static i64 const_cast(Context_T* context, ASTNode_T* node)
+{
+    ASTType_T* from = unpack(node->left->data_type);
+    ASTType_T* to = unpack(node->data_type);
+
+    i64 value;
+    if(is_flonum(from))
+        value = to->kind == TY_U64 ? (i64) (u64) const_f64(context, node->left) : (i64) const_f64(context, node->left);
+    else
+        value = const_i64(context, node->left);
+
+    switch(to->kind)
+    {
+        case TY_I8:
+            return (i8) value;
+        case TY_I16:
+            return (i16) value;
+        case TY_I32:
+            return (i32) value;
+        case TY_U8:
+            return (u8) value;
+        case TY_U16:
+            return (u16) value;
+        case TY_U32:
+            return (u32) value;
+        case TY_BOOL:
+            return value != 0;
+        default:
+            return value;
+    }
+}
+
+f64 const_f64(Context_T* context, ASTNode_T* node)
+{
+    if(!is_flonum(unpack(node->data_type)))
+    {
+        if(unsigned_type(node->data_type))
+            return (f64) const_u64(context, node);
+        return (f64) const_i64(context, node);
+    }
+
+    switch(node->kind)
+    {
+        case ND_CLOSURE:
+            return const_f64(context, node->exprs->items[node->exprs->size - 1]);
+        case ND_FLOAT:
+            return node->float_val;
+        case ND_DOUBLE:
+            return node->double_val;
+        case ND_NEG:
+            return -const_f64(context, node->right);
+        case ND_ADD:
+            return const_f64(context, node->left) + const_f64(context, node->right);
+        case ND_SUB:
+            return const_f64(context, node->left) - const_f64(context, node->right);
+        case ND_MUL:
+            return const_f64(context, node->left) * const_f64(context, node->right);
+        case ND_DIV:
+            return const_f64(context, node->left) / const_f64(context, node->right);
+        case ND_CAST:
+            return unpack(node->data_type)->kind == TY_F32 ? (f64) (f32) const_f64(context, node->left) : const_f64(context, node->left);
+        case ND_ID:
+            if(node->referenced_obj && node->referenced_obj->kind == OBJ_GLOBAL && node->referenced_obj->is_constant)
+                return const_f64(context, node->referenced_obj->value);
+            // fall through
+        default:
+            throw_error(context, ERR_CONSTEXPR, node->tok, "`%s` is not a compile-time constant", node->tok->value);
+            return 0;
+    }
+}
+
 static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
 {
     u64 a = const_u64(context, node->left);
@@ -54,9 +126,13 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
         case ND_MOD:
-            return a % b;
+            if(b == 0)
+            {
+                throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero in a constant expression");
+                return 0;
+            }
+            return node->kind == ND_DIV ? a / b : a % b;
         case ND_EQ:
             return a == b;
         case ND_NE:
@@ -127,7 +203,7 @@ u64 const_u64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
@@ -140,7 +216,7 @@ u64 const_u64(Context_T* context, ASTNode_T* node)
         case ND_SIZEOF:
             return node->the_type->size;
         case ND_CAST:
-            return const_u64(context, node->left);
+            return (u64) const_cast(context, node);
         case ND_ID:
             if(node->referenced_obj && node->referenced_obj->kind == OBJ_GLOBAL && node->referenced_obj->is_constant)
                 return const_u64(context, node->referenced_obj->value);
@@ -165,9 +241,13 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
         case ND_MOD:
-            return a % b;
+            if(b == 0)
+            {
+                throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero in a constant expression");
+                return 0;
+            }
+            return node->kind == ND_DIV ? a / b : a % b;
         case ND_EQ:
             return a == b;
         case ND_NE:
@@ -219,7 +299,7 @@ i64 const_i64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
@@ -232,7 +312,7 @@ i64 const_i64(Context_T* context, ASTNode_T* node)
         case ND_SIZEOF:
             return node->the_type->size;
         case ND_CAST:
-            return const_i64(context, node->left);
+            return const_cast(context, node);
         case ND_ID:
             if(!node->referenced_obj)
             {
diff --git a/src/compiler/optimizer/constexpr.h b/src/compiler/optimizer/constexpr.h
index 5f24b65..e35d1b7 100644
--- a/src/compiler/optimizer/constexpr.h
+++ b/src/compiler/optimizer/constexpr.h
@@ -15,6 +15,7 @@ ASTNode_T* eval_constexpr(ConstexprResolver_T* resolver, ASTNode_T* expr);
 
 u64 const_u64(Context_T* context, ASTNode_T* node);
 i64 const_i64(Context_T* context, ASTNode_T* node);
+f64 const_f64(Context_T* context, ASTNode_T* node);
 void evaluate_const_exprs(ASTProg_T* ast);
 
 #endif
-- 
2.43.0


From 17318be946352f773d3513b7c29c08bfe1cf0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 017/139] fix: struct arguments and return values are passed in
 registers as in the System V ABI

Caller and callee disagreed on how many registers a struct with floating
point members occupies, a dyn argument was counted as one register but
passed in two, and the pointer to the buffer of a big return value was not
counted by the callee.
---
 src/compiler/codegen/asm/asm_codegen.c | 79 +++++++++++++-------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index b283fdc..aff6f8a 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -172,6 +172,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs);
 static bool asm_has_flonum(ASTType_T* ty, i32 lo, i32 hi, i32 offset);
 static bool asm_has_flonum_1(ASTType_T* ty);
 static bool asm_has_flonum_2(ASTType_T* ty);
+static bool asm_take_struct_regs(ASTType_T* ty, i32* gp, i32* fp);
 static void asm_store_fp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_store_gp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
@@ -430,7 +431,8 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                 continue;
 
             i32 top = 16, bottom = 0;
-            i32 gp = 0, fp = 0;
+            // the first register holds the pointer to the buffer for big return values
+            i32 gp = obj->return_ptr ? 1 : 0, fp = 0;
 
             // Assign offsets to pass-by-stack parameters
             for(size_t j = 0; j < obj->args->size; j++)
@@ -441,17 +443,9 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                 {
                 case TY_DYN:
                 case TY_STRUCT:
-                    if(ty->size <= 16)
-                    {
-                        bool fp1 = asm_has_flonum(ty, 0, 8, 0);
-                        bool fp2 = asm_has_flonum(ty, 8, 16, 8);
-                        if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                        {
-                            fp = fp + fp1 + fp2;
-                            gp = gp + !fp1 + !fp2;
-                            continue;
-                        }
-                    } break;
+                    if(asm_take_struct_regs(ty, &gp, &fp))
+                        continue;
+                    break;
                 
                 case TY_F32:
                 case TY_F64:
@@ -1117,7 +1111,27 @@ static bool asm_has_flonum_1(ASTType_T* ty)
 
 static bool asm_has_flonum_2(ASTType_T* ty)
 {
-    return asm_has_flonum(ty, 0, 16, 0);
+    return asm_has_flonum(ty, 8, 16, 0);
+}
+
+// Reserves the registers a struct is passed in. If there are not enough left,
+// the struct gets passed on the stack and false is returned.
+static bool asm_take_struct_regs(ASTType_T* ty, i32* gp, i32* fp)
+{
+    if(ty->size > 16)
+        return false;
+
+    bool fp1 = asm_has_flonum_1(ty);
+    bool fp2 = ty->size > 8 && asm_has_flonum_2(ty);
+    i32 num_fp = fp1 + fp2;
+    i32 num_gp = (ty->size > 8 ? 2 : 1) - num_fp;
+
+    if(*fp + num_fp > ASM_FP_MAX || *gp + num_gp > ASM_GP_MAX)
+        return false;
+
+    *fp += num_fp;
+    *gp += num_gp;
+    return true;
 }
 
 static void asm_push_struct(ASMCodegenData_T* cg, ASTType_T* ty)
@@ -1162,10 +1176,10 @@ static void asm_copy_struct_reg(ASMCodegenData_T* cg)
 
     if(ty->size > 8)
     {
-        if(asm_has_flonum(ty, 8, 16, 0) && ty->kind != TY_STRUCT)
+        if(asm_has_flonum(ty, 8, 16, 0))
         {
             assert(ty->size == 12 || ty->size == 16);
-            if(ty->size == 4)
+            if(ty->size == 12)
                 asm_println(cg, "  movss 8(%%rdi), %%xmm%d", fp);
             else
                 asm_println(cg, "  movsd 8(%%rdi), %%xmm%d", fp);
@@ -1196,6 +1210,9 @@ static void asm_copy_struct_mem(ASMCodegenData_T* cg, ASTNode_T* val)
         asm_println(cg, "  mov %d(%%rax), %%dl", i);
         asm_println(cg, "  mov %%dl, %d(%%rdi)", i);
     }
+
+    // the address of the buffer is the return value
+    asm_println(cg, "  mov %%rdi, %%rax");
 }
 
 static void asm_copy_ret_buffer(ASMCodegenData_T* cg, ASTObj_T* var)
@@ -1507,27 +1524,12 @@ static i32 asm_push_args(ASMCodegenData_T* cg, ASTNode_T* node)
         ASTType_T* ty = unpack(arg->data_type);
         switch(ty->kind)
         {
+            case TY_DYN:
             case TY_STRUCT:
-                if(ty->size > 16)
+                if(!asm_take_struct_regs(ty, &gp, &fp))
                 {
                     arg->pass_by_stack = true;
                     stack += align_to(ty->size, 8) / 8;
-                }
-                else
-                {
-                    bool fp1 = asm_has_flonum_1(ty);
-                    bool fp2 = asm_has_flonum_2(ty);
-
-                    if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                    {
-                        fp += fp1 + fp2;
-                        gp += !fp1 + !fp2;
-                    }
-                    else
-                    {
-                        arg->pass_by_stack = true;
-                        stack += align_to(ty->size, 8) / 8;
-                    }
                 } break;
             case TY_F32:
             case TY_F64:
@@ -1572,7 +1574,7 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
 {
     i32 gp = 0, fp = 0;
 
-    if(node->data_type->kind != TY_VOID && node->data_type->size > 16)
+    if(node->return_buffer && node->data_type->size > 16)
         asm_pop(cg, argreg64[gp++]);
     for(u64 i = 0; i < node->args->size; i++)
     {
@@ -1582,21 +1584,16 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
         {
             case TY_STRUCT:
             case TY_DYN:
-                if(ty->size > 16)
-                    continue;
-                
-                bool fp1 = asm_has_flonum_1(ty);
-                bool fp2 = asm_has_flonum_2(ty);
-                if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
+                if(!arg->pass_by_stack)
                 {
-                    if(fp1)
+                    if(asm_has_flonum_1(ty))
                         asm_popf(cg, fp++);
                     else
                         asm_pop(cg, argreg64[gp++]);
                     
                     if(ty->size > 8) 
                     {
-                        if(fp2)
+                        if(asm_has_flonum_2(ty))
                             asm_popf(cg, fp++);
                         else
                             asm_pop(cg, argreg64[gp++]);    
-- 
2.43.0


From 5a647e6fb2c2e3f7a10353e13ddca1ecbdf5135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 018/139] fix: pipes: floating point values, nested pipes and
 preserving the register of surrounding pipes

---
 src/compiler/codegen/asm/asm_codegen.c | 12 +++++++++++-
 src/compiler/parser/parser.c           |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index aff6f8a..15f7cb0 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1835,12 +1835,22 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_PIPE:
             asm_gen_expr(cg, node->left);
+            if(is_flonum(unpack(node->left->data_type)))
+                asm_println(cg, "  movq %%xmm0, %%rax");
+            
+            // pipe_reg belongs to the caller and to surrounding pipes
+            asm_println(cg, "  push %s", pipe_reg);
+            cg->depth++;
             asm_println(cg, "  mov %%rax, %s", pipe_reg);
             asm_gen_expr(cg, node->right);
+            asm_pop(cg, pipe_reg);
             return;
         
         case ND_HOLE:
-            asm_println(cg, "  mov %s, %%rax", pipe_reg);
+            if(is_flonum(unpack(node->data_type)))
+                asm_println(cg, "  movq %s, %%xmm0", pipe_reg);
+            else
+                asm_println(cg, "  mov %s, %%rax", pipe_reg);
             return;
 
         case ND_NEG:
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 1e916dc..f6692bd 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2395,9 +2395,11 @@ static ASTNode_T* parse_pipe(Parser_T* p, ASTNode_T* left)
     bool outer_holes_used = p->holes_used;
     p->holes_used = false;
 
+    bool outer_holes_enabled = parser_holes_enabled(p);
     parser_enable_holes(p);
     pipe->right = parse_expr(p, PREC_PIPE, TOKEN_SEMICOLON);
-    parser_disable_holes(p);
+    if(!outer_holes_enabled)
+        parser_disable_holes(p);
 
     if(!p->holes_used && pipe->right->kind == ND_CALL)
         list_insert(pipe->right->args, init_ast_node(&p->context->raw_allocator, ND_HOLE, pipe->tok), 0);
-- 
2.43.0


From 0c7fb54920de9aba2a55222731a736b34d8ad844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 019/139] fix: returning from inside of a `for a..b` loop in a
 lambda

---
 src/compiler/codegen/asm/asm_codegen.c | 5 +++++
 src/compiler/codegen/asm/asm_codegen.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 15f7cb0..f1dc2e9 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2650,7 +2650,9 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_println(cg, "  push %%rdi");
             asm_println(cg, "  push %%rdx");
+            cg->open_ranges++;
             asm_gen_stmt(cg, node->body);
+            cg->open_ranges--;
             
             asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  pop %%rdx");
@@ -2825,6 +2827,9 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 }
             }
 
+            // lambdas have no frame of their own, so the counters of `for a .. b` loops have to be removed explicitly
+            if(cg->current_fn->kind == OBJ_LAMBDA && cg->open_ranges)
+                asm_println(cg, "  add $%lu, %%rsp", cg->open_ranges * 16);
             asm_println(cg, "  jmp .L.return.%s", cg->current_fn_name);
             return;
         
diff --git a/src/compiler/codegen/asm/asm_codegen.h b/src/compiler/codegen/asm/asm_codegen.h
index 48bf6fb..f0e2a4b 100644
--- a/src/compiler/codegen/asm/asm_codegen.h
+++ b/src/compiler/codegen/asm/asm_codegen.h
@@ -29,6 +29,7 @@ typedef struct ASM_CODEGEN_DATA_STRUCT
     u64 cur_count;  // current label id
     u64 cur_brk_id; // current statement id, which supports break; statements
     u64 cur_cnt_id; // current statement id, which supports continue; statements
+    u64 open_ranges; // number of `for a .. b` loops around the current statement
 } ASMCodegenData_T;
 
 i32 asm_codegen_pass(Context_T* context, ASTProg_T* ast);
-- 
2.43.0


From 4ce0ea96597378cd91ad2053092033d34c95bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 020/139] fix: structs of integers are passed in registers even
 if the floating point registers are used up

---
 src/compiler/codegen/asm/asm_codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f1dc2e9..14a772a 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1126,7 +1126,8 @@ static bool asm_take_struct_regs(ASTType_T* ty, i32* gp, i32* fp)
     i32 num_fp = fp1 + fp2;
     i32 num_gp = (ty->size > 8 ? 2 : 1) - num_fp;
 
-    if(*fp + num_fp > ASM_FP_MAX || *gp + num_gp > ASM_GP_MAX)
+    // the counters may have exceeded the number of registers already
+    if((num_fp && *fp + num_fp > ASM_FP_MAX) || (num_gp && *gp + num_gp > ASM_GP_MAX))
         return false;
 
     *fp += num_fp;
-- 
2.43.0


From cebf63237355c774dec18d22039cf14393dbc21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 021/139] fix: the result of && and || is a bool, not a value
 of the type of the left operand

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 8dc36cf..9d22f4b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1505,7 +1505,7 @@ static void iter_validate_lt_gt(ASTNode_T* op, va_list args)
 
 static void iter_validate_and_or(ASTNode_T* op, va_list args)
 {
-    op->data_type = op->left->data_type;
+    op->data_type = (ASTType_T*) primitives[TY_BOOL];
 }
 
 static void iter_validate_bitwise_op(ASTNode_T* op, va_list args)
-- 
2.43.0


From ced88ee440d21c5c2bd10c122abe264423dcc277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 022/139] fix: match compares its value and its cases using a
 common type, respecting signedness and floating point values

---
 src/compiler/codegen/asm/asm_codegen.c | 65 +++++++++++++++++++++-----
 src/compiler/parser/typechecker.c      | 42 +++++++++++++++--
 2 files changed, 93 insertions(+), 14 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 14a772a..f685f26 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -65,6 +65,15 @@ static const char* jmp_mode[TOKEN_EOF] = {
     [ND_GE] = "jge",
 };
 
+static const char* unsigned_jmp_mode[TOKEN_EOF] = {
+    [ND_EQ] = "je",
+    [ND_NE] = "jne",
+    [ND_LT] = "jb",
+    [ND_LE] = "jbe",
+    [ND_GT] = "ja",
+    [ND_GE] = "jae",
+};
+
 static const char* argreg8[]  = {"%dil", "%sil", "%dl", "%cl", "%r8b", "%r9b"};
 static const char* argreg16[] = {"%di", "%si", "%dx", "%cx", "%r8w", "%r9w"};
 static const char* argreg32[] = {"%edi", "%esi", "%edx", "%ecx", "%r8d", "%r9d"};
@@ -2505,6 +2514,49 @@ static void asm_init_zero(ASMCodegenData_T* cg, ASTObj_T* var)
     asm_println(cg, "  rep stosb");
 }
 
+// compares the value of a match (in %rax or %xmm0) to the condition of a case and jumps to the case on success.
+// If the case does not match, the value of the match is kept in %rax or %xmm0.
+static void asm_gen_case_condition(ASMCodegenData_T* cg, ASTType_T* match_type, ASTNode_T* _case, u64 match_id)
+{
+    ASTType_T* type = unpack(match_type);
+
+    if(type->kind == TY_F32 || type->kind == TY_F64)
+    {
+        bool less = _case->mode == ND_LT || _case->mode == ND_LE;
+        const char* sz = type->kind == TY_F32 ? "ss" : "sd";
+
+        asm_pushf(cg);
+        asm_gen_expr(cg, _case->condition);
+        asm_popf(cg, 1);
+        
+        asm_println(cg, "  ucomi%s %%xmm%d, %%xmm%d", sz, less ? 1 : 0, less ? 0 : 1);
+        asm_println(cg, "  movaps %%xmm1, %%xmm0");
+        if(_case->mode == ND_EQ)
+        {
+            asm_println(cg, "  sete %%al");
+            asm_println(cg, "  setnp %%dl");
+            asm_println(cg, "  and %%dl, %%al");
+            asm_println(cg, "  jnz .L.case.%ld.%lu", _case->long_val, match_id);
+        }
+        else
+            asm_println(cg, "  %s .L.case.%ld.%lu", _case->mode == ND_LT || _case->mode == ND_GT ? "ja" : "jae", _case->long_val, match_id);
+        return;
+    }
+
+    asm_push(cg);
+    asm_gen_expr(cg, _case->condition);
+    asm_pop(cg, "%rdi");
+
+    if(type->size == 8)
+        asm_println(cg, "  cmp %%rax, %%rdi");
+    else
+        asm_println(cg, "  cmp %%eax, %%edi");
+    asm_println(cg, "  mov %%rdi, %%rax");
+
+    const char* jmp = unsigned_type(type) ? unsigned_jmp_mode[_case->mode] : jmp_mode[_case->mode];
+    asm_println(cg, "  %s .L.case.%ld.%lu", jmp, _case->long_val, match_id);
+}
+
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
 {
     if(node->tok && cg->embed_file_locations)
@@ -2757,21 +2809,12 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 pc = cg->cur_count;
             u64 pbrk = cg->cur_brk_id;
             u64 c = cg->cur_count = cg->cur_brk_id = cg->max_count++;
-            char* ax = (node->condition->data_type->size == 8) ? "%rax" : "%eax";
-            char* di = (node->condition->data_type->size == 8) ? "%rdi" : "%edi";
-            
+
             for(size_t i = 0; i < node->cases->size; i++)
             {
                 ASTNode_T* _case = node->cases->items[i];
                 _case->long_val = i;
-                asm_push(cg);
-                asm_push(cg);
-                asm_gen_expr(cg, _case->condition);
-                asm_pop(cg, "%rdi");
-                asm_println(cg, "  cmp %s, %s", ax, di);
-                asm_pop(cg, "%rax");
-
-                asm_println(cg, "  %s .L.case.%ld.%lu", jmp_mode[_case->mode], i, c);
+                asm_gen_case_condition(cg, node->condition->data_type, _case, c);
             }
             
             if(node->default_case) 
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index a574afa..001af28 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -38,6 +38,7 @@ static void typecheck_lambda_exit(ASTNode_T* lambda, va_list args);
 static void typecheck_return(ASTNode_T* ret, va_list args);
 static void typecheck_binop(ASTNode_T* op, va_list args);
 static void typecheck_comparison(ASTNode_T* op, va_list args);
+static void typecheck_match(ASTNode_T* match, va_list args);
 
 static void typecheck_dyn_type(ASTType_T* dyn_type, va_list args);
 
@@ -77,7 +78,8 @@ static const ASTIteratorList_T iterator = {
         [ND_LT] = typecheck_comparison,
         [ND_LE] = typecheck_comparison,
         [ND_GT] = typecheck_comparison,
-        [ND_GE] = typecheck_comparison
+        [ND_GE] = typecheck_comparison,
+        [ND_MATCH] = typecheck_match
     },
     .type_fns = {
         [TY_DYN] = typecheck_dyn_type
@@ -553,6 +555,12 @@ static void typecheck_binop(ASTNode_T* op, va_list args)
     );
 }
 
+// returns `true` if the operands of a comparison are both converted to the right operand's type, `false` for the left one
+static bool compare_as_right(ASTType_T* left, ASTType_T* right)
+{
+    return is_flonum(left) == is_flonum(right) ? left->size < right->size : is_flonum(right);
+}
+
 // both operands of a comparison have to be of the same type; the common type is chosen just like for other binary operators
 static void typecheck_comparison(ASTNode_T* op, va_list args)
 {
@@ -564,8 +572,7 @@ static void typecheck_comparison(ASTNode_T* op, va_list args)
     if(!left || !right || !is_numeric(left) || !is_numeric(right) || left->kind == right->kind)
         return;
 
-    bool to_right = is_flonum(left) == is_flonum(right) ? left->size < right->size : is_flonum(right);
-    if(to_right)
+    if(compare_as_right(left, right))
         op->left = implicit_cast(t, op->tok, op->left, op->right->data_type, CAST_OK);
     else
         op->right = implicit_cast(t, op->tok, op->right, op->left->data_type, CAST_OK);
@@ -749,3 +756,32 @@ ASTNode_T* implicit_cast(TypeChecker_T* t, Token_T* tok, ASTNode_T* expr, ASTTyp
     cast->left = expr;
     return cast;
 }
+
+// the value of a `match` statement and all of its cases are compared using one common type
+static void typecheck_match(ASTNode_T* match, va_list args)
+{
+    GET_TYPECHECKER(args);
+
+    ASTType_T* common = match->condition->data_type;
+    if(!common || !unpack(common) || !is_numeric(unpack(common)))
+        return;
+
+    for(size_t i = 0; i < match->cases->size; i++)
+    {
+        ASTNode_T* condition = ((ASTNode_T*) match->cases->items[i])->condition;
+        ASTType_T* type = condition ? condition->data_type : NULL;
+        if(type && unpack(type) && is_numeric(unpack(type)) && compare_as_right(unpack(common), unpack(type)))
+            common = type;
+    }
+
+    if(unpack(match->condition->data_type)->kind != unpack(common)->kind)
+        match->condition = implicit_cast(t, match->condition->tok, match->condition, common, CAST_OK);
+
+    for(size_t i = 0; i < match->cases->size; i++)
+    {
+        ASTNode_T* _case = match->cases->items[i];
+        ASTType_T* type = _case->condition ? _case->condition->data_type : NULL;
+        if(type && unpack(type) && is_numeric(unpack(type)) && unpack(type)->kind != unpack(common)->kind)
+            _case->condition = implicit_cast(t, _case->tok, _case->condition, common, CAST_OK);
+    }
+}
-- 
2.43.0


From 54cb8e21eb97ebd66488d0941baa3c491c0d2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 023/139] fix: length of arrays inside of arrays, structs and
 of types with an alias

---
 src/compiler/codegen/asm/asm_codegen.c | 102 ++++++++++++++++++++++---
 1 file changed, 92 insertions(+), 10 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f685f26..40efdba 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -540,6 +540,65 @@ static void asm_gen_relocation(ASMCodegenData_T* cg, ASTObj_T* var)
     gen_relocation(cg, value, var->data_type);
 }
 
+// returns `true` if objects of this type contain arrays, which store their length in front of their elements
+static bool has_array_lengths(ASTType_T* type)
+{
+    type = unpack(type);
+    switch(type->kind)
+    {
+        case TY_ARRAY:
+            return true;
+        case TY_C_ARRAY:
+            return has_array_lengths(type->base);
+        case TY_STRUCT:
+            if(type->is_union)
+                return false;
+            for(size_t i = 0; i < type->members->size; i++)
+                if(has_array_lengths(((ASTNode_T*) type->members->items[i])->data_type))
+                    return true;
+            return false;
+        default:
+            return false;
+    }
+}
+
+static void asm_gen_zero_value(ASMCodegenData_T* cg, ASTType_T* type)
+{
+    i32 size = type->size, emitted = 0;
+    type = unpack(type);
+
+    if(has_array_lengths(type))
+    {
+        switch(type->kind)
+        {
+            case TY_ARRAY:
+                asm_println(cg, "  .quad %lu", type->num_indices);
+                emitted = PTR_S;
+                // fall through
+            case TY_C_ARRAY:
+                if(has_array_lengths(type->base))
+                    for(size_t i = 0; i < type->num_indices; i++, emitted += type->base->size)
+                        asm_gen_zero_value(cg, type->base);
+                break;
+            case TY_STRUCT:
+                for(size_t i = 0; i < type->members->size; i++)
+                {
+                    ASTNode_T* member = type->members->items[i];
+                    if(member->offset > emitted)
+                        asm_println(cg, "  .zero %d", member->offset - emitted);
+                    asm_gen_zero_value(cg, member->data_type);
+                    emitted = member->offset + member->data_type->size;
+                }
+                break;
+            default:
+                break;
+        }
+    }
+
+    if(size > emitted)
+        asm_println(cg, "  .zero %d", size - emitted);
+}
+
 static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
 {
     for(size_t i = 0; i < objs->size; i++)
@@ -595,7 +654,7 @@ static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
 
                         continue;
                     }
-                    else if(unpack(obj->data_type)->kind == TY_ARRAY)
+                    else if(has_array_lengths(obj->data_type))
                     {
                         asm_println(cg, "  .section %s", obj->data_type->is_constant ? ".rodata" : ".data");
                         asm_println(cg, "  .type %s, @object", id);
@@ -603,12 +662,7 @@ static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
                         asm_println(cg, "  .align %d", align);
                         asm_println(cg, "%s:", id);
 
-                        union {u64 num; u8 bytes[8];} length;
-                        length.num = unpack(obj->data_type)->num_indices;
-
-                        for(i8 i = 0; i < 8; i++)
-                            asm_println(cg, "  .byte %d", length.bytes[i]);
-                        asm_println(cg, "  .zero %d", obj->data_type->size - 8);
+                        asm_gen_zero_value(cg, obj->data_type);
                     }
                     else
                     {
@@ -2514,6 +2568,35 @@ static void asm_init_zero(ASMCodegenData_T* cg, ASTObj_T* var)
     asm_println(cg, "  rep stosb");
 }
 
+static void asm_init_array_lengths(ASMCodegenData_T* cg, ASTType_T* type, i32 offset)
+{
+    type = unpack(type);
+    if(!has_array_lengths(type))
+        return;
+
+    switch(type->kind)
+    {
+        case TY_ARRAY:
+            asm_println(cg, "  movq $%lu, %d(%%rbp)", type->num_indices, offset);
+            offset += PTR_S;
+            // fall through
+        case TY_C_ARRAY:
+            if(has_array_lengths(type->base))
+                for(size_t i = 0; i < type->num_indices; i++)
+                    asm_init_array_lengths(cg, type->base, offset + i * type->base->size);
+            break;
+        case TY_STRUCT:
+            for(size_t i = 0; i < type->members->size; i++)
+            {
+                ASTNode_T* member = type->members->items[i];
+                asm_init_array_lengths(cg, member->data_type, offset + member->offset);
+            }
+            break;
+        default:
+            break;
+    }
+}
+
 // compares the value of a match (in %rax or %xmm0) to the condition of a case and jumps to the case on success.
 // If the case does not match, the value of the match is kept in %rax or %xmm0.
 static void asm_gen_case_condition(ASMCodegenData_T* cg, ASTType_T* match_type, ASTNode_T* _case, u64 match_id)
@@ -2847,9 +2930,8 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 ASTObj_T* local = node->locals->items[i];
                 asm_init_zero(cg, local);
 
-                // load all of the known array sizes into the first 8 bytes of the local variable
-                if(unpack(local->data_type)->kind == TY_ARRAY)
-                    asm_println(cg, "  movq $%lu, %d(%%rbp)", local->data_type->num_indices, local->offset);
+                // load all of the known array sizes into the first 8 bytes of the arrays in the local variable
+                asm_init_array_lengths(cg, local->data_type, local->offset);
             }
 
             for(size_t i = 0; i < node->stmts->size; i++)
-- 
2.43.0


From d4db58d6effdc74101bf32ef34e11725d96d5e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 024/139] fix: c_str and character functions that differed from
 their documented behaviour

---
 src/std/c_str.csp     | 84 ++++++++++++++++++++++---------------------
 src/std/character.csp |  2 +-
 2 files changed, 45 insertions(+), 41 deletions(-)

diff --git a/src/std/c_str.csp b/src/std/c_str.csp
index 1d04346..4daae8c 100644
--- a/src/std/c_str.csp
+++ b/src/std/c_str.csp
@@ -28,12 +28,18 @@ namespace std {
         }
 
         fn strlen(str: &const char): usize = len str;
-        fn strnlen(s: &const char, _n: usize): usize = strlen(s);
+        fn strnlen(s: &const char, n: usize): usize
+        {
+            let i: usize = 0;
+            while i < n && s[i] != '\0'
+                i++;
+            <- i;
+        }
 
         # similar to c_str::copy
         fn copy(dest: &char, src: &const char)
         {
-            memory::move(dest, src, strlen(src));
+            memory::move(dest, src, strlen(src) + 1);
         }
 
         fn strcpy(dest: &char, src: &const char)
@@ -57,7 +63,10 @@ namespace std {
 
         fn strncat(dest: &char, src: &const char, n: usize): &char
         {
-            strncpy(dest + strlen(dest), src, n);
+            let end = dest + strlen(dest);
+            let src_len = strnlen(src, n);
+            memory::move(end, src, src_len);
+            end[src_len] = '\0';
             <- dest;
         }
 
@@ -93,6 +102,9 @@ namespace std {
                 <- *b == '\0';
             };
 
+            if *substr == '\0'
+                <- str;
+
             while *str {
                 if *str == *substr && compare(str, substr) {
                     <- str;
@@ -107,11 +119,11 @@ namespace std {
             let begin = *stringp;
             if begin == nil ret nil;
 
-            let end: &char = begin + strspn(begin, delim);
+            let end: &char = begin + strcspn(begin, delim);
 
             if (*end) != 0 {
-                (*end)++;
-                (*stringp) = end;
+                (*end) = '\0';
+                (*stringp) = end + 1;
             }
             else
                 (*stringp) = nil;
@@ -126,12 +138,12 @@ namespace std {
             let n: usize = 0;
             let p: &char = nil;
 
-            for n = 0; *s; n++; {
-                s++;
+            for ; *s; n++; {
                 for p = accept; (*p) != '\0' && (*p) != *s; p++;
                     noop;
                 if ! *p
                     break;
+                s++;
             }
 
             <- n;
@@ -163,7 +175,7 @@ namespace std {
                 <- nil;
         
             let s_len = strlen(s);
-            for let i: usize = 0; i < s_len; i++;
+            for let i: usize = 0; i <= s_len; i++;
                 if (c_in: char) == s[i]
                     <- &s[i];
 
@@ -234,38 +246,12 @@ namespace std {
         fn memchr(s: &const void, c_in: i32, n: usize): &void
         {
             let c = c_in: u8;
-            let ch_ptr: &u8;
-
-            for ch_ptr = (s: &const u8); n > 0 && (ch_ptr: u64 % sizeof LongWord) != 0; n--; {
-                ch_ptr++;
-                if (*ch_ptr) == c
-                    <- ch_ptr: &void;
-            }
-
-            let longword_ptr = ch_ptr: &LongWord;
-            let repeated_one: LongWord = 0x01010101;
-            let repeated_c: LongWord = c | (c << 8);
-            if 0xffffffff: u64 < (-1: LongWord) {
-                repeated_one |= repeated_one << 31 << 1;
-                repeated_c |= repeated_c << 31 << 1;
-            }
-
-            while n >= sizeof LongWord {
-                let longword1: LongWord = (*longword_ptr) ^ repeated_c;
-
-                if (((longword1 - repeated_one) & ~longword1) & (repeated_one << 7)) != 0
-                    break;
-
-                longword_ptr++;
-                n -= sizeof LongWord;
-            }
-
-            ch_ptr = longword_ptr: &const u8;
+            let ch_ptr = s: &u8;
 
             for ; n > 0; n--; {
-                ch_ptr++;
                 if (*ch_ptr) == c
                     <- ch_ptr: &void;
+                ch_ptr++;
             }
 
             <- nil;
@@ -302,13 +288,17 @@ namespace std {
                 num = -num;
             }
 
-            while num != 0 {
-                let rem: i64 = num % base;
+            # the magnitude of the smallest negative number only fits into an unsigned integer
+            let value: u64 = num;
+            let ubase: u64 = base;
+
+            while value != 0 {
+                let rem: u64 = value % ubase;
                 if rem > 9 
                     str[i++] = ((rem - 10) + 'a');
                 else
                     str[i++] = rem + '0';
-                num = num / base;
+                value = value / ubase;
             }
 
             if is_negative
@@ -393,6 +383,12 @@ namespace std {
 
         fn from_f32(float: f32, ndigits: i32, buf: &char)
         {
+            if float < 0 {
+                *buf = '-';
+                buf++;
+                float = -float;
+            }
+
             let whole = float: i32;
             from_int(whole, buf, 10);
 
@@ -411,10 +407,17 @@ namespace std {
                 buf[i++] = digit + '0';
                 float -= digit;
             }
+            buf[i] = '\0';
         }
 
         fn from_f64(float: f64, ndigits: i32, buf: &char)
         {
+            if float < 0 {
+                *buf = '-';
+                buf++;
+                float = -float;
+            }
+
             let whole = float: i64;
             from_int(whole, buf, 10);
 
@@ -433,6 +436,7 @@ namespace std {
                 buf[i++] = digit + '0';
                 float -= digit;
             }
+            buf[i] = '\0';
         }
     }
 }
diff --git a/src/std/character.csp b/src/std/character.csp
index ad4aa6f..076081a 100644
--- a/src/std/character.csp
+++ b/src/std/character.csp
@@ -27,7 +27,7 @@ namespace std {
         
         fn toascii(c: i32): i32 = c & 0x7f;
         fn tolower(c: i32): i32 = if isupper(c) != 0 => c | 32 else c;
-        fn toupper(c: i32): i32 = if islower(c) != 0 => c | 0x05 else c;
+        fn toupper(c: i32): i32 = if islower(c) != 0 => c & 0x5f else c;
 
         fn ismetachar(c: i32): i32 = c == 's' || c == 'S' || c == 'w' || c == 'W' || c == 'd' || c == 'D';
     }
-- 
2.43.0


From 08b02e82be3c59043fca116ab6eabfb8d7292d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 025/139] fix: memory::realloc read past the old block; strings
 kept wrong sizes and capacities

---
 src/std/memory.csp | 10 ++++++++-
 src/std/string.csp | 51 +++++++++++++++++++++++++++++-----------------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index 7fbe03b..8372e12 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -115,8 +115,16 @@ namespace std {
 
         fn realloc(ptr: &void, size: usize): &void
         {
+            if ptr == nil
+                <- alloc(size);
+
             let new = alloc(size);
-            move(new, ptr, size);
+            if new == nil
+                <- nil;
+
+            # only copy the part that exists in both blocks
+            let old_size = (ptr: &usize)[-1] - sizeof usize;
+            copy(new, ptr, if old_size < size => old_size else size);
             free(ptr);
             <- new;
             #let plen = &(ptr: &usize)[-1];
diff --git a/src/std/string.csp b/src/std/string.csp
index bb87245..4882655 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -70,9 +70,10 @@ namespace std {
             let str_data: &StringData;
 
             if value == nil {
-                str_data = memory::alloc(sizeof StringData);
-                str_data.alloc = 1;
+                str_data = memory::alloc(sizeof StringData + 1);
+                str_data.alloc = 0;
                 str_data.size = 0;
+                str_data.buff[0] = '\0';
             }
             else {
                 let v_len = c_str::strlen(value);
@@ -88,16 +89,20 @@ namespace std {
         fn init_sized(size: u64): String
         {
             let str_data: &StringData = memory::alloc(sizeof StringData + size + 1);
-            str_data.alloc = size + 1;
+            str_data.alloc = size;
+            str_data.size = 0;
+            str_data.buff[0] = '\0';
             <- &(str_data.buff[0]);
         }
 
         fn init_sized_with(size: u64, fill: char): String
         {
             let str_data: &StringData = memory::alloc(sizeof StringData + size + 1);
-            str_data.alloc = size + 1;
+            str_data.alloc = size;
+            str_data.size = size;
             let str_ptr = &(*str_data.buff);
             memory::set(str_ptr, fill, size);
+            str_ptr[size] = '\0';
             <- str_ptr;
         }
 
@@ -112,9 +117,10 @@ namespace std {
             <- &(str: &StringData)[-1];
         }
 
+        # `alloc` is the number of characters fitting into the buffer, excluding the terminator
         fn has_space(str_data: &StringData): bool
         {
-            <- str_data.alloc > str_data.size + 1;
+            <- str_data.alloc > str_data.size;
         }
 
         fn concat(dest: &String, src: &const char) 
@@ -123,10 +129,16 @@ namespace std {
             let str_len = size(*dest);
             let src_len = c_str::strlen(src);
 
-            str_data.alloc = str_data.alloc + src_len;
-            str_data.size = str_data.size + src_len;
-            str_data = memory::realloc(str_data, sizeof StringData + str_data.alloc + 1);
-            c_str::copy(&(str_data.buff[str_len]), src);
+            let src_is_dest = src == *dest;
+
+            str_data.size = str_len + src_len;
+            if str_data.size > str_data.alloc {
+                str_data.alloc = str_data.size;
+                str_data = memory::realloc(str_data, sizeof StringData + str_data.alloc + 1);
+            }
+            if src_is_dest
+                src = &(str_data.buff[0]);
+            memory::move(&(str_data.buff[str_len]), src, src_len);
 
             str_data.buff[str_len + src_len] = '\0';
             *dest = &(str_data.buff[0]);
@@ -135,11 +147,12 @@ namespace std {
         fn append(dest: &String, c: char)
         {
             let str_data = get_data(*dest);
-            str_data.alloc++;
-            str_data.size++;
 
-            if(!has_space(str_data))
-                str_data = memory::realloc(str_data, sizeof StringData + (str_data.alloc *= 2) + 1);
+            if(!has_space(str_data)) {
+                str_data.alloc = (str_data.alloc + 1) * 2;
+                str_data = memory::realloc(str_data, sizeof StringData + str_data.alloc + 1);
+            }
+            str_data.size++;
             str_data.buff[str_data.size - 1] = c;
             str_data.buff[str_data.size] = '\0';
             *dest = &(str_data.buff[0]);
@@ -195,7 +208,7 @@ namespace std {
             let str_vec = vec![String];
  
             let token: &char;
-            while (token = libc::strsep(&str, delim)) != nil {
+            while (token = c_str::strsep(&str, delim)) != nil {
                 let part = init(token);
                 vec_add!(str_vec, part);
             }
@@ -210,14 +223,14 @@ namespace std {
 
         fn substr(str: String, from: i64, to: i64): String 
         {
-            if to - from < 0 || to - from >= size(str)
+            if from < 0 || to < from || to > size(str): i64
                  ret nil;
 
-            let ch_arr: &char = memory::alloc((to - from + 2) * sizeof char);
+            let ch_arr: &char = memory::alloc((to - from + 1) * sizeof char);
             for let i: i64 = from; i < to; i++; {
                 ch_arr[i - from] = str[i];
             }
-            #ch_arr[from - to] = '\0';
+            ch_arr[to - from] = '\0';
             
             let sub_str = init(ch_arr);
             memory::free(ch_arr);
@@ -228,8 +241,8 @@ namespace std {
             while(character::isspace(*str)) str++;
 
             let back = &str[len str];
-            while(character::isspace(*back)) back--;
-            back[1] = '\0';
+            while(back > str && character::isspace(back[-1])) back--;
+            *back = '\0';
 
             <- str;
         }
-- 
2.43.0


From c62cd4fb6f807fab083604462f0d4fdbc5f17905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 026/139] fix: vec!{T, n} swapped its arguments, a copied
 vector claimed more space than it has

---
 src/std/vec.csp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/vec.csp b/src/std/vec.csp
index 57e5aed..b9f80d1 100644
--- a/src/std/vec.csp
+++ b/src/std/vec.csp
@@ -19,7 +19,7 @@ macro vec(datatype) {
 }
 
 macro vec(datatype, size) {
-    (std::vec::init((size), sizeof (datatype)): &(datatype))
+    (::std::vec::init(sizeof (datatype), (size)): &(datatype))
 }
 
 # macro to get the size of the vector
@@ -220,6 +220,7 @@ namespace std {
             let copy: &VecData = memory::alloc(alloc_size);
             
             memory::copy(copy, v_data, alloc_size);
+            copy.alloc = size;
             <- &copy.buff;
         }
 
-- 
2.43.0


From 38920da9115dd66174400478ce8ccc50517858b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 027/139] fix: hashmap lost zero keys, counted overwritten
 entries twice and mixed up keys and values of different alignment

---
 src/std/hashmap.csp | 98 +++++++++++++++++++++++++++------------------
 1 file changed, 60 insertions(+), 38 deletions(-)

diff --git a/src/std/hashmap.csp b/src/std/hashmap.csp
index e145971..f79b1ae 100644
--- a/src/std/hashmap.csp
+++ b/src/std/hashmap.csp
@@ -13,6 +13,7 @@
 import "memory.csp";
 import "algorithm.csp";
 import "vec.csp";
+import "string.csp";
 
 # hashmap type
 macro hashmap(key_type, val_type) {
@@ -64,10 +65,10 @@ macro hashmap_free(map) {
 
 # add a new key-value pair to a hashmap
 macro hashmap_put(map, _key, _val) {
-    (::std::hashmap::put((map), &{
-        (_key): typeof (map).pairs.key, 
-        (_val): typeof (map).pairs.val
-    }))
+    (::std::hashmap::put((map), 
+        &{(_key): typeof (map).pairs.key}, 
+        &{(_val): typeof (map).pairs.val}
+    ))
 }
 
 # get a value from a hashmap with its key
@@ -106,7 +107,8 @@ namespace std {
             size: u64,
             ksize: u16,
             vsize: u16,
-            use_str_hashing: bool
+            use_str_hashing: bool,
+            used: &bool # which of the pairs are occupied
         };
 
         type Template: struct {
@@ -121,7 +123,8 @@ namespace std {
             map.data = Data::{
                 0, 0,
                 ksize, vsize,
-                key_is_str
+                key_is_str,
+                nil
             };
 
             allocate(map);
@@ -131,11 +134,14 @@ namespace std {
         fn allocate(map: &Template) {
             map.data.alloc = ((map.data.ksize + map.data.vsize) * HASHMAP_INIT_SIZE);
             map.pairs = memory::alloc(map.data.alloc);
+            map.data.used = memory::calloc(HASHMAP_INIT_SIZE, sizeof bool);
         }
 
         fn free(map: &Template) {
             memory::free(map.pairs);
+            memory::free(map.data.used);
             map.data.alloc = 0;
+            map.data.size = 0;
         }
 
         fn has_space(map: &Template): bool {
@@ -146,23 +152,28 @@ namespace std {
             if has_space(map)
                 ret;
 
-            let old_alloc = map.data.alloc;
+            let old_num = hashmap_num_allocated!(map);
             let old_pairs = map.pairs;
+            let old_used = map.data.used;
 
             map.data.alloc *= HASHMAP_MULTIPLIER;
             map.pairs = memory::alloc(map.data.alloc);
+            map.data.used = memory::calloc(hashmap_num_allocated!(map), sizeof bool);
 
-            rehash(map, old_alloc, old_pairs);
+            rehash(map, old_num, old_pairs, old_used);
         
             memory::free(old_pairs);
+            memory::free(old_used);
         }
 
-        fn rehash(map: &Template, old_alloc: u64, old_pairs: &u8) {
-            for let ptr = old_pairs; ptr < old_pairs + old_alloc; 
-                ptr += ((map.data.ksize + map.data.vsize): u64); {
-                if !memory::is_zero(ptr, map.data.ksize + map.data.vsize) {
-                    let new = find_pair(map, ptr, true);
-                    memory::copy(new, ptr, map.data.ksize + map.data.vsize);
+        fn rehash(map: &Template, old_num: u64, old_pairs: &u8, old_used: &bool) {
+            let pair_size: u64 = map.data.ksize + map.data.vsize;
+            for let i: u64 = 0; i < old_num; i++; {
+                if old_used[i] {
+                    let old = &old_pairs[i * pair_size];
+                    let index = find_index(map, old);
+                    memory::copy(&map.pairs[index * pair_size], old, pair_size);
+                    map.data.used[index] = true;
                 }
             }
         }
@@ -176,43 +187,54 @@ namespace std {
             );
         }
 
-        fn find_pair(map: &Template, key: &u8, find_empty: bool): &u8 {
+        fn key_equal(map: &Template, key: &u8, pair: &u8): bool {
+            if map.data.use_str_hashing
+                <- string::equal(*(key: &&const char), *(pair: &&const char));
+            <- memory::eq(key, pair, map.data.ksize);
+        }
+
+        # find the index of the pair with a key or the empty pair it should be put into
+        fn find_index(map: &Template, key: &u8): u64 {
             let index = calc_index(map, key);
 
             # linear probing
             for 0..hashmap_num_allocated!(map) {
-                let pair = &map.pairs[index * (map.data.ksize + map.data.vsize)];
-                
-                if memory::eq(key, pair, map.data.ksize) || (map.data.use_str_hashing && string::equal(*(key: &&const char), *(pair: &&const char)))
-                    <- pair;
-
-                if memory::is_zero(pair, map.data.ksize)
-                    <- if find_empty => pair else nil: &u8;
+                if !map.data.used[index] || key_equal(map, key, &map.pairs[index * (map.data.ksize + map.data.vsize)])
+                    <- index;
                 
                 index = hashmap_size_mod!(map, index + 1);
             }
 
-            <- nil;
+            <- hashmap_num_allocated!(map);
         }
 
-        fn put(map: &Template, pair: &u8) {
-            map.data.size++;
-            grow(map); # grow if needed
-
-            let addr = find_pair(map, pair, true);
-            if addr {
-                memory::copy(addr, pair, map.data.ksize + map.data.vsize);
+        fn put(map: &Template, key: &u8, val: &u8) {
+            let index = find_index(map, key);
+            if index >= hashmap_num_allocated!(map) || !map.data.used[index] {
+                grow(map); # grow if needed
+                index = find_index(map, key);
+                map.data.used[index] = true;
+                map.data.size++;
             }
+
+            let addr = &map.pairs[index * (map.data.ksize + map.data.vsize)];
+            memory::copy(addr, key, map.data.ksize);
+            memory::copy(addr + (map.data.ksize: u64), val, map.data.vsize);
         }
 
-        fn get(map: &Template, key: &u8): &u8 = find_pair(map, key, false) |> if $ == nil => $ else $ + (map.data.ksize: u64);
+        fn get(map: &Template, key: &u8): &u8 {
+            let index = find_index(map, key);
+            if index >= hashmap_num_allocated!(map) || !map.data.used[index]
+                <- nil;
+            <- &map.pairs[index * (map.data.ksize + map.data.vsize)] + (map.data.ksize: u64);
+        }
 
         fn keys(map: &Template): &u8 {
             let v = vec!{u8};
 
-            for let i: u64 = 0; i < map.data.alloc; i += (map.data.ksize + map.data.vsize); {
-                if !memory::is_zero(&map.pairs[i], map.data.ksize)
-                    memory::copy(vec::__internal_add(&v, map.data.ksize), &map.pairs[i], map.data.ksize);
+            for let i: u64 = 0; i < hashmap_num_allocated!(map); i++; {
+                if map.data.used[i]
+                    memory::copy(vec::__internal_add(&v, map.data.ksize), &map.pairs[i * (map.data.ksize + map.data.vsize)], map.data.ksize);
             }
 
             <- v;
@@ -221,12 +243,12 @@ namespace std {
         fn values(map: &Template): &u8 {
             let v = vec!{u8};
 
-            for let i: u64 = 0; i < map.data.alloc; i += (map.data.ksize + map.data.vsize); {
-                if !memory::is_zero(&map.pairs[i], map.data.ksize)
-                    memory::copy(vec::__internal_add(&v, map.data.vsize), &map.pairs[i] + map.data.ksize, map.data.vsize);
+            for let i: u64 = 0; i < hashmap_num_allocated!(map); i++; {
+                if map.data.used[i]
+                    memory::copy(vec::__internal_add(&v, map.data.vsize), &map.pairs[i * (map.data.ksize + map.data.vsize)] + (map.data.ksize: u64), map.data.vsize);
             }
 
             <- v;
         }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 34ad561538336cbd3156ea5104cfb22a6ca5b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 028/139] fix: memory::alloc crashed when the system is out of
 memory

---
 src/std/memory.csp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index 8372e12..25c23de 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -96,7 +96,8 @@ namespace std {
 
             let length = n + sizeof usize;
             let plen: &usize = syscall::mmap(nil, length, Prot::READ | Prot::WRITE, MMap::PRIVATE | MMap::ANONYMOUS, -1, 0);
-            if plen == MMAP_FAILED {
+            # the raw syscall reports an error as a value between -4095 and -1
+            if plen: u64 >= (-4095: u64) {
                 error::new(Errno::NOMEM, "mmap failed");
                 <- nil;
             }
-- 
2.43.0


From 2ab6bd9e2db6dd680096f5c37ec3351a240dc4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 029/139] fix: type names were appended to uninitialized
 buffers

---
 src/compiler/ast/ast.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/compiler/ast/ast.c b/src/compiler/ast/ast.c
index b5cebad..753a0db 100644
--- a/src/compiler/ast/ast.c
+++ b/src/compiler/ast/ast.c
@@ -174,9 +174,9 @@ const char* type_kind_to_str(ASTTypeKind_T kind)
     }
 }
 
-char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_t size)
+static char* append_type_str(Context_T* context, char* dest, const ASTType_T* ty, size_t size)
 {
-    if(size - strlen(dest) < 32) // if not enough memory is left, return
+    if(strlen(dest) + 32 > size) // if not enough memory is left, return
     {
         strcat(dest, "...");
         return dest;
@@ -192,10 +192,10 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
             break;
         case TY_PTR:
             strcat(dest, "&");
-            ast_type_to_str(context, dest, ty->base, size);
+            append_type_str(context, dest, ty->base, size);
             break;
         case TY_C_ARRAY:
-            ast_type_to_str(context, dest, ty->base, size);
+            append_type_str(context, dest, ty->base, size);
             strcat(dest, " 'c[");
             
             {
@@ -207,11 +207,11 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
             strcat(dest, "]");
             break;
         case TY_ARRAY:
-            ast_type_to_str(context, dest, ty->base, size);            
+            append_type_str(context, dest, ty->base, size);            
             sprintf(dest + strlen(dest), "[%lu]", ty->num_indices);
             break;
         case TY_VLA:
-            ast_type_to_str(context, dest, ty->base, size);
+            append_type_str(context, dest, ty->base, size);
             strcat(dest, "[]");
             break;
         case TY_STRUCT:
@@ -228,12 +228,12 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
                         strcat(dest, ": ");
                     }
 
-                    ast_type_to_str(context, dest, member->data_type, size);
+                    append_type_str(context, dest, member->data_type, size);
                     break;
 
                 case ND_EMBED_STRUCT:
                     strcat(dest, "embed ");
-                    ast_type_to_str(context, dest, member->data_type, size);
+                    append_type_str(context, dest, member->data_type, size);
                     break;
                 default:
                     unreachable();
@@ -249,18 +249,18 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
             break;
         case TY_DYN:
             strcat(dest, "dyn ");
-            ast_type_to_str(context, dest, ty->base, size);
+            append_type_str(context, dest, ty->base, size);
             break;
         case TY_ENUM:
             strcat(dest, "enum");
             break;
         case TY_FN:
             strcat(dest, "fn<");
-            ast_type_to_str(context, dest, ty->base, size);
+            append_type_str(context, dest, ty->base, size);
             strcat(dest, ">(");
             for(size_t i = 0; i < ty->arg_types->size; i++)
             {
-                ast_type_to_str(context, dest, ty->arg_types->items[i], size);
+                append_type_str(context, dest, ty->arg_types->items[i], size);
                 if(ty->arg_types->size - i > 1)
                     strcat(dest, ", ");
             }
@@ -281,6 +281,13 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
     return dest;
 }
 
+char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_t size)
+{
+    // most callers hand in an uninitialized buffer
+    *dest = '\0';
+    return append_type_str(context, dest, ty, size);
+}
+
 static const char OP_CHARS[ND_KIND_LEN] = {
     [ND_ADD] = '+',
     [ND_SUB] = '-',
-- 
2.43.0


From 548a2db20828b8918cdae740767d2948f3800f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 030/139] fix: to_str! did not compile, string::from_char
 always gave an empty string

---
 src/std/string.csp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/std/string.csp b/src/std/string.csp
index 4882655..80ce75b 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -37,20 +37,24 @@ macro concat(a, b) {
 # convert any given value to a string
 macro to_str(v) {
     (
-        if type::is_int(typeof (v))
-            => ::std::string::from_int(v)
-        else if type::is_uint(typeof (v))
-            => ::std::string::from_uint(v)
-        else if type::( (typeof (v)) == bool)
-            => if (v) => str!{"true"} else str!{"false"}
+        if type::( (typeof (v)) == bool)
+            => (if (v): bool => str!{"true"} else str!{"false"})
         else if type::((typeof (v)) == void)
             => str!{"void"}
         else if type::((typeof (v)) == char)
-            => ::std::string::from_char(v)
+            => ::std::string::from_char((v): char)
+        else if type::is_int(typeof (v))
+            => ::std::string::from_int((v): i64)
+        else if type::is_uint(typeof (v))
+            => ::std::string::from_uint((v): u64)
         else if type::((typeof (v)) == ::std::String)
-            => (v)
-        else if type::((typeof (v)) == &char)
-            => ::std::string::init(v)
+            => (v): ::std::String
+        else if type::((typeof (v)) == &char) || type::((typeof (v)) == &const char)
+            => ::std::string::init((v): ::std::String)
+        else if type::((typeof (v)) == f32)
+            => ::std::string::from_f32((v): f32)
+        else if type::((typeof (v)) == f64)
+            => ::std::string::from_f64((v): f64)
         else str! {nil}
     )
 }
@@ -263,7 +267,7 @@ namespace std {
 
         fn from_char(c: char): String
         {
-            let buf: u16 = c << 8 | '\0';
+            let buf: u16 = c: u8;
             <- str!{(&buf): &char};
         }
         
-- 
2.43.0


From fd723dcf39a67b7873172f172dfca0cc010d1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 031/139] fix: memory::move and memory::calloc crashed when the
 system is out of memory

---
 src/std/memory.csp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index 25c23de..f202f84 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -109,8 +109,14 @@ namespace std {
 
         fn calloc(nmemb: usize, size: usize): &void
         {
+            if size != 0 && nmemb > u64_max! / 2 / size {
+                error::new(Errno::NOMEM, "allocation too big");
+                <- nil;
+            }
+
             let ptr = alloc(nmemb * size);
-            zero(ptr, nmemb * size);
+            if ptr != nil
+                zero(ptr, nmemb * size);
             <- ptr;
         }
 
@@ -165,11 +171,19 @@ namespace std {
 
         fn move(dest: &void, src: &const void, n: usize): &void
         {
-            let tmp: &u8 = alloc(n); # allocate memory for a temporary array
-            copy(tmp, src, n);       # copy the source to tmp 
-            copy(dest, tmp, n);      # copy tmp to source
+            let x: &u8 = dest;
+            let y: &u8 = src;
+
+            # choose the direction in which no byte is overwritten before it is copied
+            if x < y {
+                for let i: usize = 0; i < n; i++;
+                    x[i] = y[i];
+            }
+            else {
+                for let i: usize = n; i > 0; i--;
+                    x[i - 1] = y[i - 1];
+            }
 
-            free(tmp);
             <- dest;
         }
 
-- 
2.43.0


From 30f606552f3072e7f5c6274e521b4bcd09970953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 032/139] fix: fmt and io: trailing %, short writes, NUL bytes
 in writeln, conversions of unsigned values and pointers, layout of Stat

---
 src/std/fmt.csp | 10 ++++++--
 src/std/io.csp  | 64 ++++++++++++++++++++++++++++++++-----------------
 2 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/src/std/fmt.csp b/src/std/fmt.csp
index 103b89a..64a859a 100644
--- a/src/std/fmt.csp
+++ b/src/std/fmt.csp
@@ -48,7 +48,7 @@ namespace std {
             } unless fmt;
 
             for ; (*fmt) != '\0'; fmt++; {
-                if (*fmt) == '%' {
+                if (*fmt) == '%' && fmt[1] != '\0' {
                     fmt++;
                     
                     let r = __internal::fmt(fmt, &str, args);
@@ -83,7 +83,7 @@ namespace std {
             } unless fmt;
 
             for ; (*fmt) != '\0'; fmt++; {
-                if (*fmt) == '%' {
+                if (*fmt) == '%' && fmt[1] != '\0' {
                     fmt++;
                     
                     __internal::fmt_time(fmt, &str, &time);
@@ -134,6 +134,10 @@ namespace std {
                         c_str::from_uint(va_arg!{args, u64}, buf, 10);
                         concat(str, buf);
                     }
+                    'U' => {
+                        c_str::from_uint(va_arg!{args, u64}, buf, 10);
+                        concat(str, buf);
+                    }
                     'l' => {
                         c_str::from_int(va_arg!{args, i64}, buf, 10);
                         concat(str, buf);
@@ -223,6 +227,7 @@ namespace std {
             fn fmt_time(fmt: &const char, str: &String, time: &Time) {
                 using c_str;
                 let buf: char 'c[100];
+                buf[0] = '\0';
                 match *fmt {
                     '%' => string::append(str, *fmt);
                     'Y' => from_uint(time.year, buf, 10);
@@ -231,6 +236,7 @@ namespace std {
                     'h' => uint_two_digits(time.hour, buf);
                     'm' => uint_two_digits(time.minute, buf);
                     's' => uint_two_digits(time.second, buf);
+                    'u' => from_int(time.ts.tv_sec, buf, 10);
                     _ => {}
                 }
 
diff --git a/src/std/io.csp b/src/std/io.csp
index 7a5ea76..da57f2d 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -33,10 +33,11 @@ macro write(fd, v) {
             type::((typeof (v)) == u64)
         => ::std::io::write_uint(fd, (v): u64)
         else if type::((typeof (v)) == &char) ||
+            type::((typeof (v)) == &const char) ||
             type::((typeof (v)) == char[])
-        => ::std::io::write(fd, (v))
+        => ::std::io::write(fd, (v): &const char)
         else
-        ::std::io::write_ptr(fd, (v)) 
+        ::std::io::write_ptr(fd, (v): &const void) 
     )
 }
 
@@ -44,19 +45,20 @@ namespace std {
     type Stat: struct {
         dev: dev_t,         # Device
         ino: ino_t,         # File serial number
-        mode: mode_t,       # File mode
         nlink: nlink_t,     # Link count
+        mode: mode_t,       # File mode
         uid: uid_t,         # User ID of the file's owner
         gid: gid_t,         # Group ID of the file's owner
+        __pad0: u32,
         rdev: dev_t,        # Device number, if device
         size: Offset,        # Sote of the file (in bytes)
         blksize: blksize_t, # Optimal blocksize for IO
         blocks: blkcnt_t,   # Number 512-byte blocks allocated
-        atime: TimeVal,
+        atime: i64,         # Time of the last access (in seconds)
         atimensec: u64,
-        mtime: TimeVal,
+        mtime: i64,         # Time of the last modification (in seconds)
         mtimensec: u64,
-        ctime: TimeVal,
+        ctime: i64,         # Time of the last status change (in seconds)
         ctimensec: u64,
         __glibc_reserved: u64 'c[3]
     };
@@ -84,7 +86,7 @@ namespace std {
 
     const stdin: i32 = stdin!;
     const stdout: i32 = stdout!;
-    const stderr: i32 = stdout!;
+    const stderr: i32 = stderr!;
 
     namespace io {
         const O_RDONLY: i32   = 0;
@@ -217,26 +219,25 @@ namespace std {
 
         fn write(fd: i32, buf: &const char) 
         {
-            if syscall::write(fd, buf, c_str::strlen(buf)) <= 0
-            {
-                # todo: fail assertion
-                ret;
+            let count = c_str::strlen(buf);
+
+            # the system may write less than requested
+            while count > 0 {
+                let written = syscall::write(fd, buf, count);
+                if written <= 0
+                {
+                    # todo: fail assertion
+                    ret;
+                }
+                buf += written;
+                count -= written: usize;
             }
         }
 
         fn writeln(fd: i32, buf: &const char)
         {
-            if syscall::write(fd, buf, c_str::strlen(buf) + 1) <= 0
-            {
-                # todo: fail assertion
-                ret;
-            }
-
-            if syscall::write(fd, "\n", 2) <= 0
-            {
-                # todo: fail assertion
-                ret;
-            }
+            write(fd, buf);
+            write(fd, "\n");
         }
 
         fn write_int(fd: i32, int: i64)
@@ -248,6 +249,25 @@ namespace std {
             write(fd, buf);
         }
 
+        fn write_uint(fd: i32, uint: u64)
+        {
+            let buf: char 'c[32];
+            memory::zero(buf, sizeof char * len buf);
+
+            c_str::from_uint(uint, buf, 10);
+            write(fd, buf);
+        }
+
+        fn write_ptr(fd: i32, ptr: &const void)
+        {
+            let buf: char 'c[32];
+            memory::zero(buf, sizeof char * len buf);
+
+            c_str::from_uint(ptr: u64, buf, 16);
+            write(fd, "0x");
+            write(fd, buf);
+        }
+
         fn sync() syscall::sync();
 
         const TCGETS: i32 		= 0x5401;
-- 
2.43.0


From e87b650fc5b3e5d6ee7f2bd3202addde19c16dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 033/139] fix: file: open modes, errors of system calls,
 offsets of writef and readc, size of read_all

---
 src/std/file.csp | 59 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/std/file.csp b/src/std/file.csp
index d8c6532..485d451 100644
--- a/src/std/file.csp
+++ b/src/std/file.csp
@@ -41,13 +41,14 @@ namespace std {
         {
             let file: &File = memory::alloc(sizeof File);
             file.mode = mode;
+            file.path = path;
             file.offset = 0;
             
             let sys_flags = 0;
 
             if mode & CREATE
                 sys_flags |= io::O_CREAT;
-            if mode & READ_WRITE
+            if (mode & READ_WRITE) == READ_WRITE
                 sys_flags |= io::O_RDWR;
             else if mode & READ
                 sys_flags |= io::O_RDONLY;
@@ -55,12 +56,14 @@ namespace std {
                 sys_flags |= io::O_WRONLY;
             else {
                 error::new(Errno::INVAL, "invalid mode for `File::open()`");
+                memory::free(file);
                 <- nil;
             }
 
             file.desc = syscall::open(path, sys_flags, 416);
             if file.desc < 0 {
                 error::new(Errno::IO, "could not open file");
+                memory::free(file);
                 <- nil;
             }
 
@@ -83,7 +86,7 @@ namespace std {
         fn write(file: &File, data: &const void, count: usize): i64
         {
             let written = syscall::write(file.desc, data, count);
-            if written == -1 
+            if written < 0
                 error::new(Errno::IO, "could not write to file");
             else
                 file.offset += written;
@@ -95,12 +98,9 @@ namespace std {
         fn vwritef(file: &File, fmt: &const char, args: &VAList): i64
         {
             using std::fmt;
-            let written = -1;
+            let written: i64 = -1;
             with formatted = va_format(fmt, args): &void
-                written = syscall::write(file.desc, formatted, c_str::strlen(formatted));
-            
-            if written == -1
-                error::new(Errno::IO, "could not write to file");
+                written = write(file, formatted, c_str::strlen(formatted));
             
             <- written;
         }
@@ -108,7 +108,7 @@ namespace std {
         fn read(file: &File, buffer: &void, count: usize): &void
         {
             let bytes_read = syscall::read(file.desc, buffer, count);
-            if bytes_read == -1 
+            if bytes_read < 0
                 error::new(Errno::IO, "could not read file");
             else
                 file.offset += bytes_read;
@@ -122,10 +122,11 @@ namespace std {
                 <- -1;
             } unless file;
             let c = '\0';
-            if syscall::read(file.desc, &c, 1) == -1 
+            let bytes_read = syscall::read(file.desc, &c, 1);
+            if bytes_read < 0
                 error::new(Errno::IO, "could not read file");
             else
-                file.offset++;
+                file.offset += bytes_read;
             <- c;
         }
 
@@ -135,7 +136,7 @@ namespace std {
             do
                 <- error::new(Errno::NILPTR, "`file` is nil")
             unless file;
-            if syscall::close(file.desc) == -1
+            if syscall::close(file.desc) < 0
                 <- error::new(Errno::IO, "could not close file");
             memory::free(file);
 
@@ -154,7 +155,29 @@ namespace std {
             <- stat.size;
         }
 
-        fn read_all(file: &File): String = size(file) |> read(file, string::init_sized($), $);
+        # read the contents of a file from the current position up to its end
+        fn read_all(file: &File): String
+        {
+            let count = size(file);
+            if count < 0
+                <- nil;
+
+            let str = string::init_sized(count: u64);
+            let length: i64 = 0;
+            while length < count {
+                let bytes_read = syscall::read(file.desc, &str[length], (count - length): usize);
+                if bytes_read < 0
+                    error::new(Errno::IO, "could not read file");
+                if bytes_read <= 0
+                    break;
+                length += bytes_read;
+            }
+
+            file.offset += length;
+            str[length] = '\0';
+            string::get_data(str).size = length: u64;
+            <- str;
+        }
 
         const SEEK_SET: u8 = 0;
         const SEEK_CUR: u8 = 1; 
@@ -166,14 +189,18 @@ namespace std {
                 ret error::new(Errno::NILPTR, "`file` argument is nil")
             unless file;
 
+            let new_offset: i64 = 0;
             match whence {
-                SEEK_SET => file.offset = offset;
-                SEEK_CUR => file.offset += offset;
-                SEEK_END => file.offset = size(file) - offset;
+                SEEK_SET => new_offset = offset;
+                SEEK_CUR => new_offset = file.offset + offset;
+                SEEK_END => new_offset = size(file) - offset;
                 _ => ret error::new(Errno::INVAL, "value of `whence` is invalid");
             }
 
-            syscall::lseek(file.desc, file.offset, SEEK_SET);
+            if syscall::lseek(file.desc, new_offset, SEEK_SET) < 0
+                ret error::new(Errno::IO, "could not seek in file");
+
+            file.offset = new_offset;
             <- error::none();
         }
 
-- 
2.43.0


From cf167be8c544cfcb3929d076fd6c6c4541d830a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 034/139] fix: directory: open failed, entries were read with
 the obsolete getdents layout

---
 src/std/directory.csp | 15 ++++++++++-----
 src/std/syscall.csp   |  7 +++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/std/directory.csp b/src/std/directory.csp
index af11488..6c40e8f 100644
--- a/src/std/directory.csp
+++ b/src/std/directory.csp
@@ -71,7 +71,7 @@ namespace std {
             using io;
 
             let fd = 0;
-            if fd = syscall::open(name, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0) < 0
+            if (fd = syscall::open(name, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0)) < 0
             {
                 error::new(Errno::IO, "could not open directory");
                 <- nil;
@@ -111,7 +111,10 @@ namespace std {
             do 
                 <- error::new(Errno::NILPTR, "`dir` argument is nil")
             unless dir;
-            dir.tell = syscall::lseek(dir.fd, offset, SEEK_SET);
+            let new_offset = syscall::lseek(dir.fd, offset, SEEK_SET);
+            if new_offset < 0
+                <- error::new(Errno::IO, "could not seek in directory");
+            dir.tell = new_offset;
             dir.buf_pos = dir.buf_end = 0;
             <- error::none();
         }
@@ -129,17 +132,19 @@ namespace std {
 
         fn read(dir: &Directory): &DirEntry
         {
-            if dir.buf_pos > dir.buf_end {
-                let length = syscall::getdents(dir.fd, dir.buf, sizeof typeof dir.buf);
+            if dir.buf_pos >= dir.buf_end {
+                let length = syscall::getdents64(dir.fd, dir.buf, sizeof typeof dir.buf);
                 if length < 0 {
                     error::new(Errno::IO, "error in `std::syscall::getdents()`");
                     <- nil;
                 }
+                if length == 0 # no more entries
+                    <- nil;
                 dir.buf_end = length;
                 dir.buf_pos = 0;
             }
 
-            let de = (&(dir.buf) + dir.buf_pos): &DirEntry;
+            let de = (&dir.buf[dir.buf_pos]): &DirEntry;
             dir.buf_pos += de.reclen;
             dir.tell = de.off;
             <- de;
diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index e508adb..4777b44 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -845,6 +845,13 @@ namespace std {
             <- res;
         }
 
+        fn getdents64(fd: u32, dirp: &void, count: u32): i64
+        {
+            let res: i64;
+            syscall_r!(res, Syscall::GETDENTS64, fd, dirp, count);
+            <- res;
+        }
+
         fn getcwd(buf: &char, size: usize): &char
         {
             let res: &char;
-- 
2.43.0


From 305f245736cb7736984f93aa5844ad162df8fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 035/139] fix: time: unix::secs and timer::delay used wrong
 factors

---
 src/std/time.csp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std/time.csp b/src/std/time.csp
index 5d2c9e2..48fe46f 100644
--- a/src/std/time.csp
+++ b/src/std/time.csp
@@ -80,7 +80,7 @@ namespace std {
 
         namespace unix {
             # gets the current unix-time (time in seconds since 01.01.1970)
-            fn secs(): TimeVal = *syscall::time(nil);
+            fn secs(): TimeVal = clock::get_time_of_day();
         }
     }
 
@@ -127,7 +127,7 @@ namespace std {
 
         # delay further execution by `millis` milliseconds
         fn delay(millis: i64): TimeSpec {
-            let req = TimeSpec::{millis / 1_000, (millis % 1000) * 1000};
+            let req = TimeSpec::{millis / 1_000, (millis % 1000) * 1_000_000};
             let rem = TimeSpec::{};
             syscall::nanosleep(&req, &rem);
             <- rem;
-- 
2.43.0


From f03f7f2a6f8d0c23da2fe7cc1b0adca82bd6f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 036/139] fix: values of function type stored in variables,
 members, arrays and behind pointers

---
 src/compiler/codegen/asm/asm_codegen.c | 54 ++++++++------------------
 1 file changed, 16 insertions(+), 38 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 40efdba..f5cd77f 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1033,6 +1033,12 @@ static void asm_gen_vtable_member_addr(ASMCodegenData_T* cg, ASTNode_T* node, AS
 //    asm_println(cg, "  add $%d, %%rax", vtable_idx * PTR_S);
 }
 
+// whether an expression names a function directly (and not a variable holding a function)
+static bool asm_is_function(ASTNode_T* node)
+{
+    return node->kind == ND_ID && node->referenced_obj && node->referenced_obj->kind == OBJ_FUNCTION;
+}
+
 static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 {
     switch(node->kind)
@@ -1060,26 +1066,12 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 case OBJ_GLOBAL:
                 case OBJ_ENUM_MEMBER:
-                    asm_println(cg, "  %s %s(%%rip), %%rax", node->call ? "movq" : "lea", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
+                    asm_println(cg, "  lea %s(%%rip), %%rax", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
                     return;
                 
                 case OBJ_FUNCTION:
-                    if(node->call)
-                    {
-                        ASTObj_T* obj = node->call->referenced_obj;
-                        if(obj->is_extern_c)
-                            asm_println(cg, "  mov %s" CSPC_ASM_EXTERN_FN_POSTFIX "(%%rip), %%rax", EITHER(obj->exported, node->id->callee));
-                        else if(obj->is_extern)
-                            asm_println(cg, "  mov %s" CSPC_ASM_EXTERN_FN_POSTFIX "(%%rip), %%rax", EITHER(obj->exported, asm_gen_identifier(cg->context, node->id)));
-                        else if(obj->kind != OBJ_FUNCTION)
-                        {
-                            asm_println(cg, "  lea %d(%%rbp), %%rax", node->referenced_obj->offset);
-                            asm_println(cg, "  mov (%%rax), %%rax");
-                        }
-                        else
-                            asm_println(cg, "  lea %s(%%rip), %%rax", asm_gen_identifier(cg->context, node->id));
-                    }
-                    else if(node->referenced_obj->is_extern_c)
+                    // the address of a function is its value, it does not get loaded
+                    if(node->referenced_obj->is_extern_c)
                         asm_println(cg, "  mov %s" CSPC_ASM_EXTERN_FN_POSTFIX "(%%rip), %%rax", EITHER(node->referenced_obj->exported, node->id->callee));
                     else if(node->referenced_obj->is_extern)
                         asm_println(cg, "  mov %s" CSPC_ASM_EXTERN_FN_POSTFIX "(%%rip), %%rax", EITHER(node->referenced_obj->exported, asm_gen_identifier(cg->context, node->id)));
@@ -1093,8 +1085,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
         
         case ND_CALL:
-            if(node->referenced_obj)
-                asm_gen_expr(cg, node);
+            asm_gen_expr(cg, node);
             return;
 
         case ND_DEREF:
@@ -1110,8 +1101,6 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node->left);
             asm_println(cg, "  add $%ld, %%rax", node->body->offset);
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
         } return;
         case ND_INDEX:
             asm_gen_index(cg, node, true);
@@ -1420,7 +1409,6 @@ static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty) {
         case TY_DYN:
         case TY_ARRAY:
         case TY_VLA:
-        case TY_FN:
             return;
         case TY_F32:
             asm_println(cg, "  movss (%%rax), %%xmm0");
@@ -1994,13 +1982,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_ID:
             asm_gen_addr(cg, node);
-            asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN && 
-                node->referenced_obj && 
-                (node->referenced_obj->kind == OBJ_LOCAL || node->referenced_obj->kind == OBJ_FN_ARG)
-            )
-                    asm_println(cg, "  mov (%%rax), %%rax");
+            if(!asm_is_function(node))
+                asm_load(cg, node->data_type);
             return;
 
         case ND_MEMBER: {
@@ -2013,10 +1996,6 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node);
             asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
-
         } return;
         
         case ND_ARRAY:
@@ -2074,7 +2053,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_DEREF:
             asm_gen_expr(cg, node->right);
-            asm_load(cg, node->data_type);
+            // `*&function` is the function itself
+            if(node->right->kind != ND_REF || !asm_is_function(node->right->right))
+                asm_load(cg, node->data_type);
             return;
         
         case ND_ASSIGN:
@@ -2268,10 +2249,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             List_T* packed_args = node->args;
             node->args = unpack_call_args(cg, node);
             i32 stack_args = asm_push_args(cg, node);
-            asm_gen_addr(cg, node->expr);
-
-            if(!node->called_obj || node->called_obj->kind == OBJ_LOCAL || node->called_obj->kind == OBJ_FN_ARG)
-                asm_println(cg, "  mov (%%rax), %%rax");
+            asm_gen_expr(cg, node->expr);
 
             i32 fp = asm_pop_args(cg, node);
 
-- 
2.43.0


From 09e7057e2ebd325f3ac1badace26f379a3bc4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 037/139] fix: functions and structs can be copied regardless
 of const

---
 src/compiler/parser/typechecker.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 001af28..55044d6 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -675,6 +675,20 @@ bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
     }
 }
 
+// copying a value does not depend on whether the source or the destination may be changed
+static bool types_equal_unqualified(Context_T* context, ASTType_T* a, ASTType_T* b)
+{
+    bool a_const = a->is_constant;
+    bool b_const = b->is_constant;
+
+    a->is_constant = b->is_constant = false;
+    bool equal = types_equal(context, a, b);
+
+    a->is_constant = a_const;
+    b->is_constant = b_const;
+    return equal;
+}
+
 ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType_T* from, ASTType_T* to)
 {
     from = unpack(from);
@@ -721,8 +735,8 @@ ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType
         return CAST_OK;
     if(from->kind == TY_PTR && unpack(from->base)->kind == TY_ARRAY && to->kind == TY_VLA)
         return types_equal(t->context, unpack(from->base)->base, to->base) ? CAST_OK : CAST_ERR;
-    if(from->kind == TY_STRUCT && to->kind == TY_STRUCT)
-        return types_equal(t->context, from, to) ? CAST_OK : CAST_ERR;
+    if((from->kind == TY_STRUCT && to->kind == TY_STRUCT) || (from->kind == TY_FN && to->kind == TY_FN))
+        return types_equal_unqualified(t->context, from, to) ? CAST_OK : CAST_ERR;
     return CAST_ERR;
 }
 
-- 
2.43.0


From 4509b9ea604d02a74de48a85788e606ff75fdb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 038/139] fix: calling a function through *(&function)

---
 src/compiler/codegen/asm/asm_codegen.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f5cd77f..5576471 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1036,6 +1036,8 @@ static void asm_gen_vtable_member_addr(ASMCodegenData_T* cg, ASTNode_T* node, AS
 // whether an expression names a function directly (and not a variable holding a function)
 static bool asm_is_function(ASTNode_T* node)
 {
+    while(node->kind == ND_CLOSURE)
+        node = list_last(node->exprs);
     return node->kind == ND_ID && node->referenced_obj && node->referenced_obj->kind == OBJ_FUNCTION;
 }
 
@@ -2053,10 +2055,14 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_DEREF:
             asm_gen_expr(cg, node->right);
+        {
+            ASTNode_T* ptr = node->right;
+            while(ptr->kind == ND_CLOSURE)
+                ptr = list_last(ptr->exprs);
             // `*&function` is the function itself
-            if(node->right->kind != ND_REF || !asm_is_function(node->right->right))
+            if(ptr->kind != ND_REF || !asm_is_function(ptr->right))
                 asm_load(cg, node->data_type);
-            return;
+        } return;
         
         case ND_ASSIGN:
             switch(node->right->kind)
-- 
2.43.0


From b0949f8a07d74d3fa82bbf6c3862b65be5c27af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 039/139] fix: fmt: %u of an u32 above the range of i32 printed
 the sign extended value

---
 src/std/fmt.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/fmt.csp b/src/std/fmt.csp
index 64a859a..a48038d 100644
--- a/src/std/fmt.csp
+++ b/src/std/fmt.csp
@@ -131,7 +131,7 @@ namespace std {
                         concat(str, buf);
                     }
                     'u' => {
-                        c_str::from_uint(va_arg!{args, u64}, buf, 10);
+                        c_str::from_uint(va_arg!{args, u32}, buf, 10);
                         concat(str, buf);
                     }
                     'U' => {
-- 
2.43.0


From 379caf0a446ff400228f1494a458a21dfccecbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 040/139] fix: error::is_some was true without and false with
 an error

---
 src/std/error.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/error.csp b/src/std/error.csp
index e622556..df940ec 100644
--- a/src/std/error.csp
+++ b/src/std/error.csp
@@ -228,6 +228,6 @@ namespace std {
             }
         }
 
-        fn is_some(): bool = __static::__error.kind == Errno::NONE;
+        fn is_some(): bool = __static::__error.kind != Errno::NONE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 1ff23bea5610fde33bf8cba924de1dd58b22ec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 041/139] fix: syscall: stat and ioctl passed their result as
 the syscall number

---
 src/std/syscall.csp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index 4777b44..ba59325 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -370,7 +370,7 @@ namespace std {
         fn stat(filename: &const char, buf: &Stat): i32
         {
             let res: i64;
-            syscall_r!(res, res, Syscall::STAT, filename, buf);
+            syscall_r!(res, Syscall::STAT, filename, buf);
             <- res;
         }
 
@@ -440,7 +440,7 @@ namespace std {
         fn ioctl(fd: i32, cmd: i32, arg: u64): i32
         {
             let res: i64;
-            syscall_r!(res, res, Syscall::IOCTL, fd, cmd, arg);
+            syscall_r!(res, Syscall::IOCTL, fd, cmd, arg);
             <- res;
         }
         
-- 
2.43.0


From bd74b78dd97ab14c482fe2d67ebb7481d8071931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 042/139] fix: syscall: 32 bit arguments where the kernel reads
 64 bits, missing arguments of sendto, numbers of getresuid and setresgid

---
 src/std/syscall.csp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index ba59325..97bdb57 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -207,7 +207,7 @@ namespace std {
         GETPGRP, 
         SETSID, SETREUID, SETREGID,
         GETGROUPS, SETGROUPS, 
-        SETRESUID, SETRESGID, GETRESUID, GETRESGID,
+        SETRESUID, GETRESUID, SETRESGID, GETRESGID,
         GETPGID,
         SETFSUID, SETFSGID, 
         GETSID,
@@ -461,14 +461,16 @@ namespace std {
         fn readv(fd: i32, iov: &IOVec, iovcnt: i32): ssize_t
         {
             let res: ssize_t;
-            syscall_r!(res, Syscall::READV, fd, iov, iovcnt);
+            let count: i64 = iovcnt;
+            syscall_r!(res, Syscall::READV, fd, iov, count);
             <- res;
         }
         
         fn writev(fd: i32, iov: &IOVec, iovcnt: i32): ssize_t
         {
             let res: ssize_t;
-            syscall_r!(res, Syscall::WRITEV, fd, iov, iovcnt);
+            let count: i64 = iovcnt;
+            syscall_r!(res, Syscall::WRITEV, fd, iov, count);
             <- res;
         }
 
@@ -503,7 +505,8 @@ namespace std {
         fn mremap(old_addr: &void, old_size: usize, new_size: usize, flags: i32): &void
         {
             let res: &void;
-            syscall_r!(res, Syscall::MREMAP, old_addr, old_size, new_size, flags);
+            let sys_flags: i64 = flags;
+            syscall_r!(res, Syscall::MREMAP, old_addr, old_size, new_size, sys_flags);
             <- res;
         }
         
@@ -608,7 +611,9 @@ namespace std {
         fn sendto(sockfd: i32, buf: &const void, length: usize, flags: i32): ssize_t
         {
             let res: ssize_t;
-            syscall_r!(res, Syscall::SENDTO, sockfd, buf, length, flags);
+            let addr: &void = nil;
+            let addrlen: u64 = 0;
+            syscall_r!(res, Syscall::SENDTO, sockfd, buf, length, flags, addr, addrlen);
             <- res;
         }
 
@@ -713,7 +718,8 @@ namespace std {
         fn wait4(pid: pid_t, wstatus: &i32, options: i32, arg: i32): pid_t
         {
             let res: i64;
-            syscall_r!(res, Syscall::WAIT4, pid, wstatus, options, arg);
+            let usage: i64 = arg;
+            syscall_r!(res, Syscall::WAIT4, pid, wstatus, options, usage);
             <- res;
         }
 
@@ -799,7 +805,8 @@ namespace std {
         fn fcntl2(fd: i32, cmd: i32, arg: i32): i32
         {
             let res: i64;
-            syscall_r!(res, Syscall::FCNTL, fd, cmd, arg);
+            let sys_arg: i64 = arg;
+            syscall_r!(res, Syscall::FCNTL, fd, cmd, sys_arg);
             <- res;
         }
 
@@ -964,7 +971,8 @@ namespace std {
         fn gettimeofday(ts: &TimeSpec, n: i32): i32
         {
             let res: i64;
-            syscall_r!(res, Syscall::GETTIMEOFDAY, ts, n);
+            let tz: i64 = n;
+            syscall_r!(res, Syscall::GETTIMEOFDAY, ts, tz);
             <- res;
         }
     }
-- 
2.43.0


From 9610ab85d8c8857d9eed5adfd16ca20898092a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 043/139] fix: integer literals above 2^63-1 were saturated

---
 src/compiler/lexer/lexer.c   | 4 ++--
 src/compiler/parser/parser.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 923ff82..3f3e859 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -296,7 +296,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
 
     *lexer->tmp_buffer = '\0';
 
-    while(strchr(digits, lexer->c))
+    while(lexer->c != '\0' && strchr(digits, lexer->c))
     {
         if(lexer->c == '_')
         {
@@ -308,7 +308,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
         lexer_advance(lexer);
     }
 
-    u64 decimal = strtoll(lexer->tmp_buffer, NULL, base);
+    u64 decimal = strtoull(lexer->tmp_buffer, NULL, base);
     sprintf(lexer->tmp_buffer, "%lu", decimal);
 
     Token_T* token = init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_INT, lexer->file);
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index f6692bd..3102965 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1935,7 +1935,7 @@ static ASTNode_T* parse_int_lit(Parser_T* p)
 {
     ASTNode_T* lit = init_ast_node(&p->context->raw_allocator, ND_INT, p->tok);
     parser_consume(p, TOKEN_INT, "expect integer literal (0, 1, 2, ...)");
-    i64 num = atoll(lit->tok->value);
+    u64 num = strtoull(lit->tok->value, NULL, 10);
     if(num <= INT_MAX)
     {
         lit->kind = ND_INT;
-- 
2.43.0


From 31ae0eb4eb376425ff8d4e50f812305de35ea1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 044/139] fix: i64_min! and u64_min! had the wrong type

---
 src/std/types.csp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std/types.csp b/src/std/types.csp
index 04db3f5..c9a6134 100644
--- a/src/std/types.csp
+++ b/src/std/types.csp
@@ -18,7 +18,7 @@ macro i16_min { (-32768: i16) }
 macro i32_max { (2147483647: i32) }
 macro i32_min { (-2147483648: i32) }
 macro i64_max { (9223372036854775807: i64) }
-macro i64_min { (-9223372036854775808: i32) }
+macro i64_min { (-9223372036854775808: i64) }
 
 # unsigned integer data type limits
 macro u8_max  { (255: u8) }
@@ -28,7 +28,7 @@ macro u16_min { (0: u16) }
 macro u32_max { (4294967295: u32) }
 macro u32_min { (0: u32) }
 macro u64_max { (18446744073709551615: u64) }
-macro u64_min { (0: u32) }
+macro u64_min { (0: u64) }
 
 # char data type limits
 macro char_min { i8_min! }
-- 
2.43.0


From 7e0ab112e0157a604ee013cee5840cb45cc290bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 045/139] fix: math::pow was 0 for exponent 0 and squares and
 cubes overflowed 32 bits

---
 src/std/math.csp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/std/math.csp b/src/std/math.csp
index 869d5c2..e38dfd7 100644
--- a/src/std/math.csp
+++ b/src/std/math.csp
@@ -57,10 +57,10 @@ namespace std {
         fn pow(a: i32, b: i32): i64 
         {
             match b {
-                0 => ret 0;
+                0 => ret 1;
                 1 => ret a;
-                2 => ret a²;
-                3 => ret a³;
+                2 => ret (a: i64)²;
+                3 => ret (a: i64)³;
                 _ => {
                     let c: i64 = 1;
 
-- 
2.43.0


From 072f4ba9d9aebbc1d187f3f77e7e672a4bd0f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 046/139] fix: sum! read elements of 8, 16 and 64 bits as 32
 bit ones

---
 src/std/array.csp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/std/array.csp b/src/std/array.csp
index 4eebabc..7360dd4 100644
--- a/src/std/array.csp
+++ b/src/std/array.csp
@@ -29,17 +29,17 @@ macro sum(__a) {
         else if type::((typeof (__a)[0]) == u32) =>
             ::std::array::sum_u32(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i64) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i64(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u64) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u64(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i16) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i16(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u16) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u16(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i8) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i8(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u8) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u8(&__a[0], len (__a)): i64
         else 0: i64
     )
     else 0: i64)
-- 
2.43.0


From afbbdbb0bb477c8194be379b6425fdb1b250655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 047/139] fix: the initial state of the random generator was
 scaled by the array size

---
 src/std/random.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/random.csp b/src/std/random.csp
index 292fc41..a4f01f8 100644
--- a/src/std/random.csp
+++ b/src/std/random.csp
@@ -117,7 +117,7 @@ namespace std {
             ];
 
             fn __init() {
-                do x = &init + 1 unless x;
+                do x = &init[1] unless x;
             }
         }
     }
-- 
2.43.0


From 15fac65af68b250cd4c74e2bcf60fb632b60fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 048/139] fix: regular expressions: \w did not match digits and
 _, failed attempts counted for the length, escapes in classes were read as
 ranges

---
 src/std/regex.csp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/std/regex.csp b/src/std/regex.csp
index a235bc2..884e476 100644
--- a/src/std/regex.csp
+++ b/src/std/regex.csp
@@ -212,6 +212,16 @@ namespace std {
             fn match_pattern(pattern: &Regex, text: &const char, matchlength: &i32): bool 
             {
                 let pre = *matchlength;
+                if match_elements(pattern, text, matchlength)
+                    <- true;
+
+                # a failed attempt doesn't count for the length of the match
+                *matchlength = pre;
+                <- false;
+            }
+
+            fn match_elements(pattern: &Regex, text: &const char, matchlength: &i32): bool 
+            {
                 do {
                     if pattern.kind == RegexKind::UNUSED || pattern[1].kind == RegexKind::QUESTIONMARK
                         <- match_question(*pattern, &pattern[2], text, matchlength);
@@ -224,8 +234,7 @@ namespace std {
                     (*matchlength)++;
                 }
                 while *text != '\0' && match_one(*pattern, *text) && pattern++ && text++;
-                
-                *matchlength = pre;
+
                 <- false;
             }
 
@@ -254,8 +263,8 @@ namespace std {
                 match *str {
                     'd' => ret isdigit(c);
                     'D' => ret !isdigit(c);
-                    'w' => ret isalnum(c);
-                    'W' => ret !isalnum(c);
+                    'w' => ret match_alphanum(c);
+                    'W' => ret !match_alphanum(c);
                     's' => ret isspace(c);
                     'S' => ret !isspace(c);
                     _ =>   ret c == *str;
@@ -265,7 +274,7 @@ namespace std {
             fn match_charclass(c: char, str: &const char): bool 
             {
                 do {
-                    if match_range(c, str)
+                    if *str != '\\' && match_range(c, str)
                         <- true;
                     else if *str == '\\' {
                         str++;
@@ -294,8 +303,8 @@ namespace std {
                     RegexKind::INV_CHAR_CLASS => ret !match_charclass(c, p.u.ccl);
                     RegexKind::DIGIT =>          ret isdigit(c);
                     RegexKind::NOT_DIGIT =>      ret !isdigit(c);
-                    RegexKind::ALPHA =>          ret isalpha(c);
-                    RegexKind::NOT_ALPHA =>      ret !isalpha(c);
+                    RegexKind::ALPHA =>          ret match_alphanum(c);
+                    RegexKind::NOT_ALPHA =>      ret !match_alphanum(c);
                     RegexKind::WHITESPACE =>     ret isspace(c);
                     RegexKind::NOT_WHITESPACE => ret !isspace(c);
                     _ =>                        ret p.u.ch == c;
-- 
2.43.0


From 8bbc3a5f33e1e5d42c88def2c4cd2be844fd5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 049/139] fix: the else operator left values on the stack

---
 src/compiler/codegen/asm/asm_codegen.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 5576471..b7e9dfe 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2237,14 +2237,10 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 pc = cg->cur_count;
             u64 c = cg->cur_count = cg->max_count++;
             asm_gen_expr(cg, node->left);
-            asm_push(cg);
-            asm_push(cg);
             asm_cmp_zero(cg, node->left->data_type);
             asm_println(cg, "  je .L.else.%ld", c);
-            asm_pop(cg, "%rax");
             asm_println(cg, "  jmp .L.end.%ld", c);
             asm_println(cg, ".L.else.%ld:", c);
-            asm_pop(cg, "%rax");
             asm_gen_expr(cg, node->right);
             asm_println(cg, ".L.end.%ld:", c);
             cg->cur_count = pc;
-- 
2.43.0


From f0cc4a3d5593b33115c24dcb52421acf7a562932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 050/139] fix: signum_str named SIGWINCH SINGINCH

---
 src/std/process.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/process.csp b/src/std/process.csp
index a0285da..19fbee6 100644
--- a/src/std/process.csp
+++ b/src/std/process.csp
@@ -229,7 +229,7 @@ namespace std {
                 SIGPROF => ret "SIGPROF";
                 SIGUSR1 => ret "SIGUSR1";
                 SIGUSR2 => ret "SIGUSR2";
-                SIGWINCH => ret "SINGINCH";
+                SIGWINCH => ret "SIGWINCH";
                 _ => ret "<unknown>";
             }
         }
-- 
2.43.0


From 607a920ec697deef39d9d160d0037ea484c33a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 051/139] fix: a test with 255 failed assertions was counted as
 skipped, one with 256 as passed

---
 src/std/testing.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/testing.csp b/src/std/testing.csp
index 587ed7f..145307d 100644
--- a/src/std/testing.csp
+++ b/src/std/testing.csp
@@ -72,7 +72,7 @@ namespace std {
                 0 => {
                     # new child process
                     test.func(t);
-                    exit(t.errors + 1); # pass the number of errors through the exit status to the parent process
+                    exit(if t.errors < 254 => t.errors + 1 else 255); # pass the number of errors (as far as the 8 bits of it allow) through the exit status to the parent process
                 }
                 _ => {
                     # parent process
-- 
2.43.0


From d342dbfbacd4446073245eeb589204f39fe9bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 052/139] fix: IPC_*, SHM_* and MMap::GROWSDOWN had other
 values than the system's

---
 src/std/memory.csp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index f202f84..95f149a 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -45,7 +45,7 @@ namespace std {
         ANONYMOUS       = 0x20,
         FIXED           = 0x10,
         # FIXED_NOREPLACE
-        GROWSDOWN       = 0x01000000,
+        GROWSDOWN       = 0x0100,
         # HUGETB
         # HUGE_1MB
         # HUGE_2MB
@@ -70,16 +70,15 @@ namespace std {
     namespace memory {
         const MMAP_FAILED: &void = (-1): &void;
         
-        # TODO: implement correct values
-        const IPC_CREAT: i32 = 0;
-        const IPC_EXCL: i32 = 0;
-
-        const SHM_HUGETLB: i32 = 0;
-        const SHM_HUGE_1GB: i32 = 0;
-        const SHM_HUGE_2M: i32 = 0;
-        const SHM_NORESERVE: i32 = 0;
-        const SHM_REMAP: i32 = 0;
-        const SHM_RDONLY: i32 = 0;
+        const IPC_CREAT: i32 = 0o1000;
+        const IPC_EXCL: i32 = 0o2000;
+
+        const SHM_HUGETLB: i32 = 0o4000;
+        const SHM_HUGE_1GB: i32 = 30 << 26;
+        const SHM_HUGE_2M: i32 = 21 << 26;
+        const SHM_NORESERVE: i32 = 0o10000;
+        const SHM_REMAP: i32 = 0o40000;
+        const SHM_RDONLY: i32 = 0o10000;
 
         [private]
         let unfreed_allocs: i32 = 0;
-- 
2.43.0


From d66ff583caf3ae97cf54e9ddca8bc070f37e4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 053/139] fix: AF_MAX was less than other address families

---
 src/std/system.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/system.csp b/src/std/system.csp
index cd65255..54ecda5 100644
--- a/src/std/system.csp
+++ b/src/std/system.csp
@@ -72,7 +72,7 @@ namespace std {
         const AF_QIPCRTR: i32   = 42;
         const AF_SMC: i32       = 43;
         const AF_XDP: i32       = 44;
-        const AF_MAX: i32       = 35;
+        const AF_MAX: i32       = 45;
 
         const SOCK_STREAM: i32    = 1;
         const SOCK_DGRAM: i32     = 2;
-- 
2.43.0


From 924948081540f53fb328e05dc2cc670689ff3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 054/139] fix: the C backend had no `else` operator

---
 src/compiler/codegen/transpiler/c_codegen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 793893b..acccb73 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1632,6 +1632,14 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_gen_expr(cg, node->else_branch, true);
             c_putc(cg, ')');
             break;
+        case ND_ELSE_EXPR:
+            // the left side is only evaluated once
+            c_print(cg, "((");
+            c_gen_expr(cg, node->left, true);
+            c_print(cg, ")?:(");
+            c_gen_expr(cg, node->right, true);
+            c_print(cg, "))");
+            break;
         case ND_PIPE:
             c_print(cg, "(" UNIQUE_ID_FMT "=(", node->long_val);
             c_gen_expr(cg, node->left, true);
-- 
2.43.0


From 15e5d5ec84d6efe2c23f2d21b59dc9cac0c40641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 055/139] fix: float literals of more than six decimals were
 rounded in the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index acccb73..f24f08d 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1324,10 +1324,10 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
     switch(node->kind)
     {
         case ND_FLOAT:
-            c_print(cg, "%ff", node->float_val);
+            c_print(cg, "%af", node->float_val);
             break;
         case ND_DOUBLE:
-            c_print(cg, "%f", node->double_val);
+            c_print(cg, "%a", node->double_val);
             break;
         case ND_INT:
             c_print(cg, "%d", node->int_val);
-- 
2.43.0


From 977cfca6bc1dba45ae66cd9272c2967397372578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 056/139] fix: match in the C backend compared unsigned and the
 other way round, and break left the loop around it

---
 src/compiler/codegen/transpiler/c_codegen.c | 24 +++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index f24f08d..0bd1476 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1898,29 +1898,39 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
 
     case ND_MATCH:
     {
-        u64 uid = cg->unique_id;
-        c_print(cg, "{\n%s " UNIQUE_ID_FMT " =", c_primitive_types[TY_U64], uid);
+        u64 uid = cg->unique_id++;
+        char unique_name[128] = {0};
+        sprintf(unique_name, UNIQUE_ID_FMT, uid);
+
+        c_println(cg, "{");
+        c_gen_typed_name_str(cg, unique_name, node->condition->data_type);
+        c_putc(cg, '=');
         c_gen_expr(cg, node->condition, true);
-        c_println(cg, ";");
+        // `break` leaves the match statement
+        c_println(cg, ";\nswitch(0){default:;");
         
         for(size_t i = 0; i < node->cases->size; i++)
         {
             ASTNode_T* _case = node->cases->items[i];
-            c_print(cg, "%sif((", i == 0 ? "" : "else ");
+            c_print(cg, "%sif(" UNIQUE_ID_FMT " %s (", i == 0 ? "" : "else ", uid, cmp_mode[_case->mode]);
+            c_gen_type(cg, node->condition->data_type, true);
+            c_print(cg, ")(");
             c_gen_expr(cg, _case->condition, true);
-            c_println(cg, ") %s " UNIQUE_ID_FMT "){", cmp_mode[_case->mode], uid);
+            c_println(cg, ")){");
             c_gen_stmt(cg, _case->body);
             c_println(cg, "}");
         }
 
         if(node->default_case)
         {
-            c_println(cg, "else{");
+            if(node->cases->size > 0)
+                c_print(cg, "else");
+            c_println(cg, "{");
             c_gen_stmt(cg, node->default_case->body);
             c_putc(cg, '}');
         }
 
-        c_println(cg, "}");
+        c_println(cg, "}}");
     } break;
 
     case ND_WITH:
-- 
2.43.0


From e25dc4c0e3f8c76a7ad56a77fe053a3dd6ad4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 057/139] fix: ranges with a negative bound were taken as
 unsigned in the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 0bd1476..4db1153 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1887,9 +1887,9 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
     case ND_FOR_RANGE:
     {
         u64 low_id = cg->unique_id++, high_id = cg->unique_id++;
-        c_print(cg, "for(%s " UNIQUE_ID_FMT " = ", c_primitive_types[TY_U64], low_id);
+        c_print(cg, "for(%s " UNIQUE_ID_FMT " = ", c_primitive_types[TY_I64], low_id);
         c_gen_expr(cg, node->left, true);
-        c_print(cg, ", " UNIQUE_ID_FMT " = (%s)", high_id, c_primitive_types[TY_U64]);
+        c_print(cg, ", " UNIQUE_ID_FMT " = (%s)", high_id, c_primitive_types[TY_I64]);
         c_gen_expr(cg, node->right, true);
         c_println(cg, "; " UNIQUE_ID_FMT " < " UNIQUE_ID_FMT "; " UNIQUE_ID_FMT "++){", low_id, high_id, low_id);
         c_gen_stmt(cg, node->body);
-- 
2.43.0


From 1fe7cb4f253b3fd4ae4a7b45f7c7fe5bccf579b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 058/139] fix: with never called the drop function in the C
 backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 4db1153..8956cd6 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1945,6 +1945,10 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         c_gen_expr(cg, node->condition->left, true);
         c_println(cg, ") != 0){");
         c_gen_stmt(cg, node->if_branch);
+
+        c_print(cg, "%s(", c_gen_identifier(cg->context, node->exit_fn->id));
+        c_gen_expr(cg, node->condition->left, true);
+        c_println(cg, ");");
         
         if(node->else_branch)
         {
-- 
2.43.0


From 69678acfa8d0a484f1e1d72df3a35b838a7d4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 059/139] fix: the reverse index of C arrays was off by one

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index b7e9dfe..8542c6e 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -958,7 +958,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
             if(index->from_back)
             {
                 asm_println(cg, "  imul $%d, %%rax", -index->data_type->size);
-                asm_println(cg, "  add $%d, %%rax", index->left->data_type->size + index->data_type->size);
+                asm_println(cg, "  add $%d, %%rax", index->left->data_type->size);
             }
             else
                 asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
-- 
2.43.0


From 79e781deebb5313d3b39b25126bedf92f1f8905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 060/139] fix: the C backend ignored the ^ of reverse indices

---
 src/compiler/codegen/transpiler/c_codegen.c | 23 ++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 8956cd6..bc396ce 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1245,7 +1245,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
     c_print(cg, "\n)");
 }
 
-static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
+static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index, bool from_back)
 {
     ASTTypeKind_T ty = unpack(node->data_type)->kind;
     switch(ty)
@@ -1256,15 +1256,32 @@ static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
             c_putc(cg, '(');
             c_gen_expr(cg, node, true);
             c_print(cg, ")[");
+            if(from_back)
+                c_print(cg, "%lul-", unpack(node->data_type)->num_indices);
             c_gen_expr(cg, index, true);
             c_print(cg, "]");
             break;
         
         case TY_VLA:
+            if(from_back)
+            {
+                // the length is only known at runtime
+                c_print(cg, "(*({");
+                c_gen_type(cg, node->data_type, true);
+                c_print(cg, " __l=(");
+                c_gen_expr(cg, node, true);
+                c_print(cg, ");&__l->__v[__l->__s-");
+                c_gen_expr(cg, index, true);
+                c_print(cg, "];}))");
+                break;
+            }
+            // fall through
         case TY_ARRAY:
             c_putc(cg, '(');
             c_gen_expr(cg, node, true);
             c_print(cg, ")%s__v[", ty == TY_ARRAY ? "." : "->");
+            if(from_back)
+                c_print(cg, "%lul-", unpack(node->data_type)->num_indices);
             c_gen_expr(cg, index, true);
             c_putc(cg, ']');
             break;
@@ -1276,7 +1293,7 @@ static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
 
 static void c_gen_index(CCodegenData_T* cg, ASTNode_T* node)
 {
-    c_gen_index2(cg, node->left, node->expr);
+    c_gen_index2(cg, node->left, node->expr, node->from_back);
 }
 
 static void c_gen_unpack_arg(CCodegenData_T* cg, ASTNode_T* arg)
@@ -1295,7 +1312,7 @@ static void c_gen_unpack_arg(CCodegenData_T* cg, ASTNode_T* arg)
             c_print(cg, ")." ID_PREFIX "%s", ((ASTNode_T*)arg_type->members->items[i])->id->callee);
         }
         else
-            c_gen_index2(cg, arg, &(ASTNode_T){.kind = ND_LONG, .data_type = (ASTType_T*) primitives[TY_U64], .long_val = index});
+            c_gen_index2(cg, arg, &(ASTNode_T){.kind = ND_LONG, .data_type = (ASTType_T*) primitives[TY_U64], .long_val = index}, false);
         if(num_indices - i > 1)
             c_putc(cg, ',');
     }
-- 
2.43.0


From ce248cf8491427adcd16e038187b02fb2cc076dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 061/139] fix: len of an array without an initializer was 0 in
 the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 76 ++++++++++++++++++---
 1 file changed, 67 insertions(+), 9 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index bc396ce..bfdba0a 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -50,6 +50,8 @@ static void c_gen_pipe_buffers(CCodegenData_T* cg);
 static void c_gen_lambdas(CCodegenData_T* cg);
 static void c_gen_array_types(CCodegenData_T* cg);
 static void c_gen_typed_name_str(CCodegenData_T* cg, const char* id, ASTType_T* type);
+static bool c_has_array_lengths(ASTType_T* ty);
+static void c_init_zero(CCodegenData_T* cg, ASTType_T* ty);
 
 static const char* reg_names[C_NUM_REGISTERS] = {
     "%rax", "%rbx", "%rcx", "%rdx",
@@ -914,10 +916,13 @@ static void c_gen_globals(CCodegenData_T* cg, List_T* objs)
                 {
                     c_print(cg, " = ");
                     c_gen_expr(cg, obj->value, false);
-                    c_println(cg, ";");
                 }
-                else
-                    c_println(cg, ";");
+                else if(!obj->is_extern && c_has_array_lengths(obj->data_type))
+                {
+                    c_print(cg, " = ");
+                    c_init_zero(cg, obj->data_type);
+                }
+                c_println(cg, ";");
             } break;
 
             default:
@@ -1379,12 +1384,8 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
                 switch(ty->kind)
                 {
                 case TY_C_ARRAY:
-                    c_print(cg, "%lu", ty->num_indices);
-                    break;
                 case TY_ARRAY:
-                    c_putc(cg, '(');
-                    c_gen_expr(cg, node->expr, true);
-                    c_print(cg, ".__s)");
+                    c_print(cg, "((uint64_t) %lu)", ty->num_indices);
                     break;
                 case TY_VLA:
                     c_putc(cg, '(');
@@ -1715,9 +1716,66 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
     }
 }
 
+static bool c_has_array_lengths(ASTType_T* ty)
+{
+    ty = unpack(ty);
+    switch(ty->kind)
+    {
+        case TY_ARRAY:
+            return true;
+        case TY_C_ARRAY:
+            return c_has_array_lengths(ty->base);
+        case TY_STRUCT:
+            if(ty->is_union)
+                return false;
+            for(size_t i = 0; i < ty->members->size; i++)
+                if(c_has_array_lengths(((ASTNode_T*) ty->members->items[i])->data_type))
+                    return true;
+            return false;
+        default:
+            return false;
+    }
+}
+
 static void c_init_zero(CCodegenData_T* cg, ASTType_T* ty)
 {
-    const char* init = default_type_init[unpack(ty)->kind];
+    ty = unpack(ty);
+    
+    // arrays know their length from the beginning
+    if(c_has_array_lengths(ty))
+    {
+        c_putc(cg, '{');
+        switch(ty->kind)
+        {
+            case TY_ARRAY:
+                c_print(cg, "%lu", ty->num_indices);
+                if(!ty->num_indices || !c_has_array_lengths(ty->base))
+                    break;
+                c_print(cg, ",{[0 ... %lu]=", ty->num_indices - 1);
+                c_init_zero(cg, ty->base);
+                c_putc(cg, '}');
+                break;
+            case TY_C_ARRAY:
+                c_print(cg, "[0 ... %lu]=", ty->num_indices - 1);
+                c_init_zero(cg, ty->base);
+                break;
+            default:
+                for(size_t i = 0; i < ty->members->size; i++)
+                {
+                    ASTNode_T* member = ty->members->items[i];
+                    if(!c_has_array_lengths(member->data_type))
+                        continue;
+                    c_print(cg, ".%s=", c_gen_identifier(cg->context, member->id));
+                    c_init_zero(cg, member->data_type);
+                    c_putc(cg, ',');
+                }
+                break;
+        }
+        c_putc(cg, '}');
+        return;
+    }
+
+    const char* init = default_type_init[ty->kind];
     if(init)
         c_print(cg, init);
     else
-- 
2.43.0


From 138ee4f15be4604295cd456f319ad408b0274be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 062/139] fix: returned struct literals lost the name of their
 type, which the C backend needs

---
 src/compiler/parser/typechecker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 55044d6..8391b4c 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -477,7 +477,7 @@ static void typecheck_return(ASTNode_T* ret, va_list args)
 
 patch_anon_struct:
     if(expected->kind == TY_STRUCT)
-        unpack_closure_and_casts(ret->return_val)->data_type = expected;
+        unpack_closure_and_casts(ret->return_val)->data_type = current_return_type(t);
 }
 
 static void typecheck_binop(ASTNode_T* op, va_list args)
-- 
2.43.0


From 0ac17ee5e775c07540a0d21232a49d232e4f5177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 063/139] fix: types depending on each other were written in
 the wrong order by the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 280 +++++++++++---------
 1 file changed, 158 insertions(+), 122 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index bfdba0a..60cfe88 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -45,7 +45,6 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts);
 static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* stmt);
 static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr);
 static void c_gen_typed_name(CCodegenData_T* cg, ASTIdentifier_T* id, ASTType_T* type);
-static void c_predefine_dependant_types(CCodegenData_T* cg, ASTType_T* type);
 static void c_gen_pipe_buffers(CCodegenData_T* cg);
 static void c_gen_lambdas(CCodegenData_T* cg);
 static void c_gen_array_types(CCodegenData_T* cg);
@@ -339,8 +338,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
     // generate the c code
     c_print(cg, "%s", c_header_text);
     c_gen_typedefs(cg, cg->ast->objs);
-    c_gen_array_types(cg);
     c_gen_structs(cg, cg->ast->objs);
+    c_gen_array_types(cg);
     c_gen_function_definitions(cg, cg->ast->objs);
     c_gen_vtables(cg, cg->ast->impls);
     c_gen_globals(cg, cg->ast->objs);
@@ -515,121 +514,180 @@ static void c_gen_entry_point(CCodegenData_T* cg)
     c_println(cg, "}");
 }
 
-static void c_gen_array_typedef(ASTType_T* type, va_list custom_args);
-inline static void c_predefine_array(ASTType_T* type, ...)
+static void c_gen_struct(CCodegenData_T* cg, ASTType_T* type, const char* name)
+{
+    c_println(cg, "%s %s{", type->is_union ? "union" : "struct", name ? name : "");
+    for(size_t i = 0; i < type->members->size; i++)
+    {
+        ASTNode_T* member = type->members->items[i];
+        c_print(cg, "  ");
+        c_gen_typed_name(cg, member->id, member->data_type);
+        c_println(cg, ";");
+    }
+    c_putc(cg, '}');
+}
+
+static void c_hash_array(CCodegenData_T* cg, char buffer[BUFSIZ], ASTType_T* type)
 {
-    va_list ap;
-    va_start(ap, type);
-    c_gen_array_typedef(type, ap);
-    va_end(ap);
+    ast_type_to_str(cg->context, buffer, type, BUFSIZ);
 }
 
-static void c_gen_typedef(CCodegenData_T* cg, ASTObj_T* obj)
+static void c_gen_typedef(CCodegenData_T* cg, ASTObj_T* obj);
+static void c_complete_type(CCodegenData_T* cg, ASTType_T* type);
+
+static u64 c_declare_array(CCodegenData_T* cg, ASTType_T* type)
 {
-    if(obj->generated)
+    static u64 array_uid = 1;
+
+    char buffer[BUFSIZ] = {0};
+    c_hash_array(cg, buffer, type);
+
+    u64 uid = (u64) hashmap_get(cg->arrays, buffer);
+    if(uid)
+        return uid;
+
+    uid = array_uid++;
+    hashmap_put(cg->arrays, strdup(buffer), (void*) uid);
+    c_println(cg, "typedef struct _array_%" PRIx64 " _array_%" PRIx64 ";", uid, uid);
+    return uid;
+}
+
+static void c_define_array(CCodegenData_T* cg, ASTType_T* type)
+{
+    u64 uid = c_declare_array(cg, type);
+
+    char key[64] = {0};
+    sprintf(key, "#%" PRIx64, uid);
+    if(hashmap_get(cg->arrays, key))
         return;
+    hashmap_put(cg->arrays, strdup(key), (void*) uid);
 
-    if(obj->data_type->kind == TY_ARRAY || obj->data_type->kind == TY_VLA)
-        c_predefine_array(obj->data_type, cg);
+    c_complete_type(cg, type->base);
 
-    char* callee = c_gen_identifier(cg->context, obj->id);
-    obj->generated = true;
-    c_predefine_dependant_types(cg, obj->data_type);
-    c_print(cg, "typedef ");
-    if(obj->data_type->kind == TY_STRUCT)
-    {
-        char* keyword = obj->data_type->is_union ? "union" : "struct";
-        c_println(cg, "%s %s %s;", keyword, callee, callee);
-    }
+    c_println(cg, "struct _array_%" PRIx64 " {", uid);
+    c_println(cg, "  uint64_t __s;");
+    c_print(cg, "  ");
+    if(type->kind == TY_VLA)
+        c_gen_typed_name_str(cg, "__v[]", type->base);
     else
     {
-        c_gen_typed_name(cg, obj->id, obj->data_type);
-        c_println(cg, ";");
+        char member[64] = {0};
+        sprintf(member, "__v[%lu]", type->num_indices);
+        c_gen_typed_name_str(cg, member, type->base);
     }
+    c_println(cg, ";\n};");
 }
 
-static void c_predefine_dependant_types(CCodegenData_T* cg, ASTType_T* type)
+// generates everything needed to name the given type
+static void c_declare_type(CCodegenData_T* cg, ASTType_T* type)
 {
     switch(type->kind)
     {
     case TY_UNDEF:
-        if(type->referenced_obj && !type->referenced_obj->generated)
+        if(type->referenced_obj && type->referenced_obj->kind == OBJ_TYPEDEF)
             c_gen_typedef(cg, type->referenced_obj);
         break;
+    case TY_PTR:
+        c_declare_type(cg, type->base);
+        break;
+    case TY_FN:
+        for(size_t i = 0; i < type->arg_types->size; i++)
+            c_declare_type(cg, type->arg_types->items[i]);
+        c_declare_type(cg, type->base);
+        break;
+    case TY_ARRAY:
+    case TY_VLA:
+        c_declare_type(cg, type->base);
+        c_declare_array(cg, type);
+        break;
+    case TY_C_ARRAY:
+    case TY_STRUCT:
+        c_complete_type(cg, type);
+        break;
     default:
         break;
     }
 }
 
-static void c_gen_typedefs(CCodegenData_T* cg, List_T* objs)
+static void c_gen_struct_definition(CCodegenData_T* cg, ASTObj_T* obj)
 {
-    for(size_t i = 0; i < objs->size; i++)
-    {
-        ASTObj_T* obj = objs->items[i];
-        switch(obj->kind)
-        {
-        case OBJ_NAMESPACE:
-            c_gen_typedefs(cg, obj->objs);
-            break;
-        case OBJ_TYPEDEF:
-            c_gen_typedef(cg, obj);
-            break;
-        default:
-            break;
-        }
-    }
-}
+    ASTType_T* type = obj->data_type;
+    if(type->generated)
+        return;
+    type->generated = true;
 
-static void c_gen_struct(CCodegenData_T* cg, ASTType_T* type, const char* name)
-{
-    c_println(cg, "%s %s{", type->is_union ? "union" : "struct", name ? name : "");
     for(size_t i = 0; i < type->members->size; i++)
-    {
-        ASTNode_T* member = type->members->items[i];
-        c_print(cg, "  ");
-        c_gen_typed_name(cg, member->id, member->data_type);
-        c_println(cg, ";");
-    }
-    c_putc(cg, '}');
+        c_complete_type(cg, ((ASTNode_T*) type->members->items[i])->data_type);
+    c_gen_struct(cg, type, c_gen_identifier(cg->context, obj->id));
+    c_println(cg, ";");
 }
 
-static void c_predefine_struct(CCodegenData_T* cg, ASTType_T* type)
+// generates everything needed to declare objects of the given type
+static void c_complete_type(CCodegenData_T* cg, ASTType_T* type)
 {
     switch(type->kind)
     {
+    case TY_UNDEF:
+        c_declare_type(cg, type);
+        if(!type->referenced_obj || type->referenced_obj->kind != OBJ_TYPEDEF)
+            break;
+        if(type->referenced_obj->data_type->kind == TY_STRUCT)
+            c_gen_struct_definition(cg, type->referenced_obj);
+        else
+            c_complete_type(cg, type->referenced_obj->data_type);
+        break;
     case TY_ARRAY:
-    case TY_PTR:
-    case TY_VLA:
-        c_predefine_struct(cg, type->base);
+        c_define_array(cg, type);
         break;
-    
-    case TY_FN:
-        for(size_t i = 0; i < type->arg_types->size; i++)
-            c_predefine_struct(cg, type->arg_types->items[i]);
-        c_predefine_struct(cg, type->base);
+    case TY_C_ARRAY:
+        c_complete_type(cg, type->base);
         break;
-
-    case TY_UNDEF:
-        if(type->referenced_obj && type->referenced_obj->generated && type->base->kind == TY_STRUCT)
-        {
-            type->referenced_obj->generated = false;
-            c_gen_struct(cg, type->base, c_gen_identifier(cg->context, type->id));
-            c_println(cg, ";");
-        }
+    case TY_STRUCT:
+        for(size_t i = 0; i < type->members->size; i++)
+            c_complete_type(cg, ((ASTNode_T*) type->members->items[i])->data_type);
         break;
-
     default:
+        c_declare_type(cg, type);
         break;
     }
 }
 
-static void c_predefine_dependant_structs(CCodegenData_T* cg, ASTObj_T* obj)
+static void c_gen_typedef(CCodegenData_T* cg, ASTObj_T* obj)
 {
-    ASTType_T* s_type = obj->data_type;
-    for(size_t i = 0; i < s_type->members->size; i++)
+    if(obj->generated)
+        return;
+    obj->generated = true;
+
+    if(obj->data_type->kind == TY_STRUCT)
     {
-        ASTNode_T* member = s_type->members->items[i];
-        c_predefine_struct(cg, member->data_type);
+        char* callee = c_gen_identifier(cg->context, obj->id);
+        char* keyword = obj->data_type->is_union ? "union" : "struct";
+        c_println(cg, "typedef %s %s %s;", keyword, callee, callee);
+        return;
+    }
+
+    c_declare_type(cg, obj->data_type);
+    c_print(cg, "typedef ");
+    c_gen_typed_name(cg, obj->id, obj->data_type);
+    c_println(cg, ";");
+}
+
+static void c_gen_typedefs(CCodegenData_T* cg, List_T* objs)
+{
+    for(size_t i = 0; i < objs->size; i++)
+    {
+        ASTObj_T* obj = objs->items[i];
+        switch(obj->kind)
+        {
+        case OBJ_NAMESPACE:
+            c_gen_typedefs(cg, obj->objs);
+            break;
+        case OBJ_TYPEDEF:
+            c_gen_typedef(cg, obj);
+            break;
+        default:
+            break;
+        }
     }
 }
 
@@ -644,13 +702,8 @@ static void c_gen_structs(CCodegenData_T* cg, List_T* objs)
             c_gen_structs(cg, obj->objs);
             break;
         case OBJ_TYPEDEF:
-            if(obj->generated && obj->data_type->kind == TY_STRUCT)
-            {
-                obj->generated = false;
-                c_predefine_dependant_structs(cg, obj);
-                c_gen_struct(cg, obj->data_type, c_gen_identifier(cg->context, obj->id));
-                c_println(cg, ";");
-            }
+            if(obj->data_type->kind == TY_STRUCT)
+                c_gen_struct_definition(cg, obj);
             break;
         default:
             break;
@@ -690,42 +743,6 @@ static void c_gen_vtables(CCodegenData_T* cg, List_T* impls) {
     }
 }
 
-static void c_hash_array(CCodegenData_T* cg, char buffer[BUFSIZ], ASTType_T* type)
-{
-    ast_type_to_str(cg->context, buffer, type, BUFSIZ);
-}
-
-static void c_gen_array_typedef(ASTType_T* type, va_list custom_args)
-{
-    static u64 array_uid = 1;
-    GET_CG(custom_args);
-
-    if(type->generated)
-        return;
-    
-    char buffer[BUFSIZ] = {0};
-    c_hash_array(cg, buffer, type);
-
-    if(hashmap_get(cg->arrays, buffer))
-        return;
-    
-    hashmap_put(cg->arrays, strdup(buffer), (void*) array_uid);
-    type->generated = true;
-    
-    c_predefine_struct(cg, type->base);
-
-    c_println(cg, "typedef struct {");
-    c_println(cg, "  uint64_t __s;");
-    c_print(cg, "  ");
-    c_gen_typed_name_str(cg, "__v", type->base);
-    if(type->kind == TY_VLA)
-        c_println(cg, "[];\n} _array_%" PRIx64 ";", array_uid);
-    else
-        c_println(cg, "[%lu];\n} _array_%" PRIx64 ";", type->num_indices, array_uid);
-
-    array_uid++;
-}
-
 static void c_hash_struct(CCodegenData_T* cg, char buffer[BUFSIZ], ASTType_T* type)
 {
     ast_type_to_str(cg->context, buffer, type, BUFSIZ);
@@ -753,16 +770,35 @@ static void c_gen_anon_struct_typedef(CCodegenData_T* cg, ASTType_T* type)
     anon_struct_uuid++;
 }
 
+static void c_declare_array_type(ASTType_T* type, va_list custom_args)
+{
+    GET_CG(custom_args);
+    c_declare_type(cg, type);
+}
+
+static void c_define_array_type(ASTType_T* type, va_list custom_args)
+{
+    GET_CG(custom_args);
+    c_define_array(cg, type);
+}
+
 static void c_gen_array_types(CCodegenData_T* cg)
 {
-    ASTIteratorList_T iter = {
+    ASTIteratorList_T declare = {
         .type_fns = {
-            [TY_ARRAY] = c_gen_array_typedef,
-            [TY_VLA] = c_gen_array_typedef,
+            [TY_ARRAY] = c_declare_array_type,
+            [TY_VLA] = c_declare_array_type,
         }
     };
+    ast_iterate(&declare, cg->ast, cg);
 
-    ast_iterate(&iter, cg->ast, cg);
+    ASTIteratorList_T define = {
+        .type_fns = {
+            [TY_ARRAY] = c_define_array_type,
+            [TY_VLA] = c_define_array_type,
+        }
+    };
+    ast_iterate(&define, cg->ast, cg);
 }
 
 static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
-- 
2.43.0


From b2c154a2eb4bbc333c4674cbad138ef73ebf963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 064/139] fix: the C backend wrote types with functions or
 arrays in them in an order C does not know

---
 src/compiler/codegen/transpiler/c_codegen.c | 129 +++++++++++---------
 1 file changed, 69 insertions(+), 60 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 60cfe88..0e66812 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -801,7 +801,7 @@ static void c_gen_array_types(CCodegenData_T* cg)
     ast_iterate(&define, cg->ast, cg);
 }
 
-static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
+static void c_gen_type_name(CCodegenData_T* cg, ASTType_T* type)
 {
     //if(type->is_constant && type->kind != TY_FN)
     //    c_print(cg, "const ");
@@ -814,10 +814,6 @@ static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
 
     switch(type->kind)
     {
-    case TY_PTR:
-        c_gen_type(cg, type->base, c_arr_as_ptr);
-        c_putc(cg, '*');
-        break;
     case TY_VLA:
     {
         char buffer[BUFSIZ] = {0};
@@ -830,28 +826,8 @@ static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
         c_hash_array(cg, buffer, type);
         c_print(cg, "_array_%" PRIx64, (u64) hashmap_get(cg->arrays, buffer));
     } break;
-    case TY_C_ARRAY:
-        c_gen_type(cg, type->base, c_arr_as_ptr);
-        if(c_arr_as_ptr)
-            c_print(cg, "*");
-        else
-            c_print(cg, "[%ld]", type->num_indices);
-        break;
     case TY_FN:
-        if(type->is_constant)
-        {
-            c_gen_type(cg, type->base, false);
-            c_print(cg, "(*)(");
-            for(size_t i = 0; i < type->arg_types->size; i++)
-            {
-                c_gen_type(cg, type->arg_types->items[i], false);
-                if(type->arg_types->size - i > 1)
-                    c_putc(cg, ',');
-            }
-            c_print(cg, ")");
-        }
-        else
-            c_print(cg, "struct _lambda*");
+        c_print(cg, "struct _lambda*");
         break;
     case TY_UNDEF:
         c_print(cg, "%s", c_gen_identifier(cg->context, type->id));
@@ -874,37 +850,60 @@ static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
     }
 }
 
+// whether `type` can't be written in front of the declared name completely
+static bool c_is_derived_type(ASTType_T* type)
+{
+    return type->kind == TY_PTR || type->kind == TY_C_ARRAY || (type->kind == TY_FN && type->is_constant);
+}
+
+// C declares names the way they are used, so types have to be written from the inside out
 static void c_gen_typed_name_str(CCodegenData_T* cg, const char* id, ASTType_T* type)
 {
+    if(!c_is_derived_type(type))
+    {
+        c_gen_type_name(cg, type);
+        if(*id)
+            c_print(cg, " %s", id);
+        return;
+    }
+
+    FILE* code_buffer = cg->code_buffer;
+    char* declarator = NULL;
+    size_t declarator_len = 0;
+    cg->code_buffer = open_memstream(&declarator, &declarator_len);
+
     switch(type->kind)
     {
+        case TY_PTR:
+            c_print(cg, type->base->kind == TY_C_ARRAY ? "(*%s)" : "*%s", id);
+            break;
         case TY_C_ARRAY:
-            c_gen_type(cg, type->base, false);
-            c_putc(cg, ' ');
-            c_print(cg, "%s", id);
-            c_print(cg, "[%lu]", type->num_indices);
+            c_print(cg, "%s[%lu]", id, type->num_indices);
             break;
-        case TY_FN:
-            if(type->is_constant)
+        default:
+            c_print(cg, "(*%s)(", id);
+            for(size_t i = 0; i < type->arg_types->size; i++)
             {
-                c_gen_type(cg, type->base, false);
-                c_print(cg, "(*%s)(", id);
-                for(size_t i = 0; i < type->arg_types->size; i++)
-                {
-                    c_gen_type(cg, type->arg_types->items[i], false);
-                    if(type->arg_types->size - i > 1)
-                        c_putc(cg, ',');
-                }
-                c_putc(cg, ')');
-                break;
+                c_gen_type(cg, type->arg_types->items[i], false);
+                if(type->arg_types->size - i > 1)
+                    c_putc(cg, ',');
             }
-            // fall through
-        default:
-            c_gen_type(cg, type, false);
-            c_putc(cg, ' ');
-            c_print(cg, "%s", id);
+            c_putc(cg, ')');
             break;
     }
+
+    fclose(cg->code_buffer);
+    cg->code_buffer = code_buffer;
+    c_gen_typed_name_str(cg, declarator, type->base);
+    free(declarator);
+}
+
+static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
+{
+    if(type->kind == TY_C_ARRAY && c_arr_as_ptr)
+        c_gen_typed_name_str(cg, type->base->kind == TY_C_ARRAY ? "(*)" : "*", type->base);
+    else
+        c_gen_typed_name_str(cg, "", type);
 }
 
 static inline void c_gen_typed_name(CCodegenData_T* cg, ASTIdentifier_T* id, ASTType_T* type)
@@ -978,19 +977,12 @@ static void c_gen_function_declaration(CCodegenData_T* cg, ASTObj_T* obj)
 
     c_print(cg, obj->is_extern || obj->exported ? "extern " : "static ");
     
-    if(obj->return_type->kind == TY_STRUCT)
-    {
-        char buffer[BUFSIZ] = {0};
-        c_hash_struct(cg, buffer, obj->return_type);
-        u64 anon_struct_id = (u64) hashmap_get(cg->anon_structs, buffer);
-        if(anon_struct_id)
-            c_print(cg, "_anon_struct_%" PRIx64, anon_struct_id);
-        else
-            c_gen_type(cg, obj->return_type, false);
-    }
-    else
-        c_gen_type(cg, obj->return_type, false);
-    c_print(cg, " %s(", obj->is_extern ? EITHER(obj->exported, obj->id->callee) : c_gen_identifier(cg->context, obj->id));
+    FILE* code_buffer = cg->code_buffer;
+    char* declarator = NULL;
+    size_t declarator_len = 0;
+    cg->code_buffer = open_memstream(&declarator, &declarator_len);
+
+    c_print(cg, "%s(", obj->is_extern ? EITHER(obj->exported, obj->id->callee) : c_gen_identifier(cg->context, obj->id));
     
     for(size_t i = 0; i < obj->args->size; i++)
     {
@@ -1004,6 +996,23 @@ static void c_gen_function_declaration(CCodegenData_T* cg, ASTObj_T* obj)
         c_print(cg, ",...)");
     else
         c_print(cg, ")");
+
+    fclose(cg->code_buffer);
+    cg->code_buffer = code_buffer;
+
+    u64 anon_struct_id = 0;
+    if(obj->return_type->kind == TY_STRUCT)
+    {
+        char buffer[BUFSIZ] = {0};
+        c_hash_struct(cg, buffer, obj->return_type);
+        anon_struct_id = (u64) hashmap_get(cg->anon_structs, buffer);
+    }
+
+    if(anon_struct_id)
+        c_print(cg, "_anon_struct_%" PRIx64 " %s", anon_struct_id, declarator);
+    else
+        c_gen_typed_name_str(cg, declarator, obj->return_type);
+    free(declarator);
 }
 
 static void c_gen_function_definitions(CCodegenData_T* cg, List_T* objs)
-- 
2.43.0


From e00ecb046b558f7ba15a336514b72707e66f6090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 065/139] fix: integer overflow and pointer casts were
 undefined in programs built with the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 0e66812..51ec81d 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -377,6 +377,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
             cg->context->cc,
             c_source_file,
             "-std=c99",
+            "-fwrapv", // integers wrap around on overflow
+            "-fno-strict-aliasing", // pointers can be cast freely
             "-o",
             target,
             "-Wno-builtin-declaration-mismatch", // disable warnings for "extern "C"" function declarations
@@ -448,6 +450,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
             "-c",
             c_source_file,
             "-std=c99",
+            "-fwrapv",
+            "-fno-strict-aliasing",
             "-o",
             obj_file,
         };
-- 
2.43.0


From cd1d74b0d160ff8cd9ae80dcf7cf429aa20fa878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 066/139] fix: the C backend dropped deferred statements
 without an error

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 51ec81d..44dc2a9 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -2090,6 +2090,10 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
     case ND_NOOP:
         break;
 
+    case ND_DEFER:
+        throw_error(cg->context, ERR_CODEGEN, node->tok, "`defer` is not supported by the C backend");
+        break;
+
     default:
         LOG_ERROR_F("stmt gen for %d unimplemented.\n", node->kind);
         unreachable();
-- 
2.43.0


From 1ca221681dcaf6f817dee6e5030dc69396f928f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 067/139] fix: errors reported after the validation crashed the
 compiler

---
 src/compiler/codegen/asm/asm_codegen.c | 1 +
 src/compiler/parser/validator.c        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 8542c6e..d56950b 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -269,6 +269,7 @@ i32 asm_codegen_pass(Context_T* context, ASTProg_T* ast)
     context->current_obj = &cg.current_fn;
 
     asm_gen_code(&cg, context->paths.target);
+    context->current_obj = NULL; // `cg` goes out of scope
     free_asm_cg(&cg);
 
     return 0;
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 9d22f4b..2983d38 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -169,6 +169,7 @@ i32 validator_pass(Context_T* context, ASTProg_T* ast)
     v.current_obj = NULL;
 
 finish:
+    context->current_obj = NULL; // `v` goes out of scope
     free_validator(&v);
     timer_stop(context);
 
-- 
2.43.0


From 5745f073bf73c531da71d2019332dc48573fbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 068/139] fix: a lambda in a block without locals was written
 without its opening brace by the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 44dc2a9..3a931e9 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1732,8 +1732,7 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
                 }
             }
 
-            c_rewind(cg, -1);
-            c_println(cg, "},");
+            c_println(cg, "NULL},");
             c_println(cg, "  (void(*)(void**, ...))" UNIQUE_ID_FMT, node->long_val);
             c_print(cg, "}");
         } break;
-- 
2.43.0


From 476064b31166b08968ebd566f4ad14897f4771bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 069/139] fix: lexer: strings with escaped backslashes before
 quotes, tokens longer than the buffer, overlapping comment markers, crashes
 while reporting malformed literals

---
 src/compiler/lexer/lexer.c | 73 ++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 3f3e859..1c1c981 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -9,6 +9,7 @@
 #include "timer/timer.h"
 
 #include <ctype.h>
+#include <errno.h>
 #include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -138,6 +139,19 @@ i32 lexer_pass(Context_T* context, ASTProg_T* ast)
     return 0;
 }
 
+// append the current character to the token text collected so far
+static void lexer_collect(Lexer_T* lexer, size_t* length)
+{
+    if(*length + 1 >= lexer->tmp_buffer_size)
+    {
+        lexer->tmp_buffer_size *= 2;
+        lexer->tmp_buffer = realloc(lexer->tmp_buffer, lexer->tmp_buffer_size * sizeof(char));
+    }
+
+    lexer->tmp_buffer[(*length)++] = lexer->c;
+    lexer->tmp_buffer[*length] = '\0';
+}
+
 static void lexer_advance(Lexer_T* lexer)
 {
     lexer->pos++;
@@ -209,12 +223,18 @@ static void lexer_skip_multiline_comment(Lexer_T* lexer)
     lexer_advance(lexer);
     lexer_advance(lexer);
 
-    while(lexer->c != ']' || lexer_peek(lexer, 1) != '#' || depth != 1)
+    while(depth > 0)
     {
         if(lexer->c == '#' && lexer_peek(lexer, 1) == '[')
+        {
             depth++;
+            lexer_advance(lexer);
+        }
         else if(lexer->c == ']' && lexer_peek(lexer, 1) == '#')
+        {
             depth--;
+            lexer_advance(lexer);
+        }
         else if(lexer->c == '\0')
         {   
             //end of file
@@ -223,9 +243,6 @@ static void lexer_skip_multiline_comment(Lexer_T* lexer)
         }
         lexer_advance(lexer);
     }
-
-    lexer_advance(lexer);
-    lexer_advance(lexer);
 }
 
 static void lexer_skip_comment(Lexer_T* lexer)
@@ -266,11 +283,12 @@ static TokenType_T lexer_get_id_type(char* id)
 
 static Token_T* lexer_get_id(Lexer_T* lexer)
 {
+    size_t length = 0;
     *lexer->tmp_buffer = '\0';
 
     while(isalnum(lexer->c) || lexer->c == '_' || lexer->c == '?' || lexer->c == '\'')
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_collect(lexer, &length);
         lexer_advance(lexer);
     }
 
@@ -294,6 +312,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
     lexer_advance(lexer);    // cut the '0x'
     lexer_advance(lexer);
 
+    size_t length = 0;
     *lexer->tmp_buffer = '\0';
 
     while(lexer->c != '\0' && strchr(digits, lexer->c))
@@ -303,12 +322,15 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
             lexer_advance(lexer);
             continue;
         }
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_collect(lexer, &length);
 
         lexer_advance(lexer);
     }
 
+    errno = 0;
     u64 decimal = strtoull(lexer->tmp_buffer, NULL, base);
+    if(errno == ERANGE)
+        throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "integer literal does not fit into 64 bits");
     sprintf(lexer->tmp_buffer, "%lu", decimal);
 
     Token_T* token = init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_INT, lexer->file);
@@ -318,6 +340,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
 static Token_T* lexer_get_decimal(Lexer_T* lexer)
 {
     TokenType_T type = TOKEN_INT;
+    size_t length = 0;
     *lexer->tmp_buffer = '\0';
 
     while(isdigit(lexer->c) || lexer->c == '.' || lexer->c == '_')
@@ -328,7 +351,7 @@ static Token_T* lexer_get_decimal(Lexer_T* lexer)
             continue;
         }
 
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_collect(lexer, &length);
 
         if(lexer->c == '.')
         {   
@@ -339,7 +362,7 @@ static Token_T* lexer_get_decimal(Lexer_T* lexer)
             }
 
             if(type == TOKEN_FLOAT)
-                throw_error(lexer->context, ERR_SYNTAX_ERROR,  &(Token_T){.line = lexer->line, .pos = lexer->pos, .source = lexer->file}, "multiple `.` found in number literal");
+                throw_error(lexer->context, ERR_SYNTAX_ERROR,  init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "multiple `.` found in number literal");
 
             type = TOKEN_FLOAT;
         }
@@ -371,30 +394,35 @@ static Token_T* lexer_get_number(Lexer_T* lexer)
 
 static Token_T* lexer_get_str(Lexer_T* lexer)
 {
-    u64 length = DEFAULT_STRING_TOKEN_SIZE;
-    char* buffer = calloc(length, sizeof(char));
+    size_t length = 0;
+    *lexer->tmp_buffer = '\0';
 
     size_t start_line = lexer->line;
     size_t start_pos = lexer->pos;
 
     lexer_advance(lexer);
 
-    while(lexer->c != '"' || (lexer_peek(lexer, -1) == '\\' && lexer_peek(lexer, -2) != '\\'))
+    while(lexer->c != '"')
     {
-        if(strlen(buffer) - 3 >= length)
-            buffer = realloc(buffer, length *= 2);
+        if(lexer->c == '\\')
+        {
+            // the character after a backslash never ends the string
+            lexer_collect(lexer, &length);
+            lexer_advance(lexer);
+        }
 
-        strcat(buffer, (char[2]){lexer->c, '\0'});
+        if(lexer->c == '\0' || lexer->c == -1)
+        {
+            throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, "\"", start_line, start_pos, TOKEN_STRING, lexer->file), "unterminated string literal, expect `\"`");
+            break;
+        }
 
+        lexer_collect(lexer, &length);
         lexer_advance(lexer);
-
-        if(lexer->c == '\0')
-            throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, "\"", start_line, start_pos, TOKEN_STRING, lexer->file), "unterminated string literal, expect `\"`");        
     }
     lexer_advance(lexer);
 
-    Token_T* token = init_token(&lexer->context->raw_allocator, buffer, lexer->line, lexer->pos, TOKEN_STRING, lexer->file);
-    free(buffer);
+    Token_T* token = init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_STRING, lexer->file);
     return token;
 }
 
@@ -404,7 +432,7 @@ static Token_T* lexer_get_char(Lexer_T* lexer)
 
     if(lexer->c == '\'')
     {
-        throw_error(lexer->context, ERR_SYNTAX_ERROR,  &(Token_T){.line = lexer->line, .pos = lexer->pos, .source = lexer->file}, "empty char literal");
+        throw_error(lexer->context, ERR_SYNTAX_ERROR,  init_token(&lexer->context->raw_allocator, "''", lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "empty char literal");
         return init_token(&lexer->context->raw_allocator, "EOF", lexer->line, lexer->pos, TOKEN_EOF, lexer->file);
     }
 
@@ -474,11 +502,12 @@ static inline bool is_operator_char(char c)
 
 static Token_T* lexer_get_operator(Lexer_T* lexer)
 {
+    size_t length = 0;
     *lexer->tmp_buffer = '\0';
 
     while(is_operator_char(lexer->c))
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_collect(lexer, &length);
         lexer_advance(lexer);
     }
 
@@ -540,7 +569,7 @@ static Token_T* lexer_get_symbol(Lexer_T* lexer)
                 return init_token(&lexer->context->raw_allocator, "EOF", lexer->line, lexer->pos, TOKEN_EOF, lexer->file);
             }
             else
-                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, &lexer->c, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
+                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, (char[]){lexer->c, '\0'}, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
         }
     }
     // satisfy -Wall
-- 
2.43.0


From cd01110eba4b4de88b5b2185eafc6d1c93922c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 070/139] fix: reject integer literals that do not fit into 64
 bits

---
 src/compiler/parser/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 3102965..7a3e99d 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -16,6 +16,7 @@
 #include "timer/timer.h"
 #include "directives.h"
 
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <string.h>
@@ -1935,7 +1936,10 @@ static ASTNode_T* parse_int_lit(Parser_T* p)
 {
     ASTNode_T* lit = init_ast_node(&p->context->raw_allocator, ND_INT, p->tok);
     parser_consume(p, TOKEN_INT, "expect integer literal (0, 1, 2, ...)");
+    errno = 0;
     u64 num = strtoull(lit->tok->value, NULL, 10);
+    if(errno == ERANGE)
+        throw_error(p->context, ERR_SYNTAX_ERROR, lit->tok, "integer literal `%s` does not fit into 64 bits", lit->tok->value);
     if(num <= INT_MAX)
     {
         lit->kind = ND_INT;
-- 
2.43.0


From 35178a7868920904f7bcd448bddfd40f1d3a00e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 071/139] fix: symbol name buffer overflow for identifiers with
 escaped characters

---
 src/compiler/codegen/codegen_utils.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/compiler/codegen/codegen_utils.c b/src/compiler/codegen/codegen_utils.c
index bbc2959..9353eac 100644
--- a/src/compiler/codegen/codegen_utils.c
+++ b/src/compiler/codegen/codegen_utils.c
@@ -41,9 +41,12 @@ char* gen_identifier(ASTIdentifier_T* id, const char* combiner, const char* pref
     {
         List_T* path = get_id_path(id);
 
-        size_t len = (BUFSIZ) * path->size + 1;
-        char callee[len];
-        memset(callee, '\0', sizeof callee);
+        // every escaped character takes three characters
+        size_t len = strlen(prefix) + 1;
+        for(size_t i = 0; i < path->size; i++)
+            len += strlen(((ASTIdentifier_T*) path->items[i])->callee) * 3 + strlen(combiner);
+
+        char* callee = calloc(len, sizeof(char));
 
         strcat(callee, prefix);
 
@@ -56,12 +59,11 @@ char* gen_identifier(ASTIdentifier_T* id, const char* combiner, const char* pref
 
         free_list(path);
 
-        new_c = calloc(strlen(callee) + 1, sizeof(char));
-        strcpy(new_c, callee);
+        new_c = callee;
     }
     else
     {
-        new_c = calloc(strlen(id->callee) + strlen(prefix) + 16, sizeof(char));
+        new_c = calloc(strlen(id->callee) * 3 + strlen(prefix) + 16, sizeof(char));
         strcat(new_c, prefix);
         escape_callee(new_c, id);
     }
-- 
2.43.0


From 64f0b0c32c4238edad5ac95073c228d2f5d1da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 072/139] fix: C backend: string literals with hex or octal
 looking escapes and line breaks

---
 src/compiler/codegen/transpiler/c_codegen.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 3a931e9..04e4d6c 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -15,6 +15,7 @@
 #include "io/log.h"
 #include "io/io.h"
 #include "../codegen_utils.h"
+#include "../asm/relocation.h"
 #include "ast/ast.h"
 #include "ast/ast_iterator.h"
 #include "ast/types.h"
@@ -1389,6 +1390,23 @@ static ssize_t get_vtable_index(CCodegenData_T* cg, ASTType_T* interface, const
     return -1;
 }
 
+// octal escapes have a fixed length, so they never merge with the characters after them
+static void c_gen_string(CCodegenData_T* cg, const char* str)
+{
+    c_print(cg, "\"");
+    for(size_t i = 0; str[i]; i++)
+    {
+        u8 byte = str[i];
+        if(byte == '\\')
+        {
+            i++;
+            byte = escape_sequence(str[i], &str[i], &i);
+        }
+        c_print(cg, "\\%03o", byte);
+    }
+    c_print(cg, "\"");
+}
+
 static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
 {
     bool cast_to_int = false;
@@ -1416,7 +1434,7 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_print(cg, "((char) %d)", node->int_val);
             break;
         case ND_STR:
-            c_print(cg, "\"%s\"", node->str_val);
+            c_gen_string(cg, node->str_val);
             break;
         case ND_NIL:
             c_print(cg, "((void*) 0)");
-- 
2.43.0


From bd8b0ef3dd80a789093de8bc427158fa9a8045a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 073/139] fix: accept the escape sequence \e in character
 literals as in strings

---
 src/compiler/parser/validator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 2983d38..6568673 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1939,6 +1939,9 @@ static void iter_validate_char_lit(ASTNode_T* ch, va_list args)
             case 'f':
                 c = '\f';
                 break;
+            case 'e':
+                c = '\e';
+                break;
             case '\'':
                 c = '\'';
                 break;
-- 
2.43.0


From 95c2582652baa9c86cdd981c4459ea5e24b265dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 074/139] fix: emit bytes of non-ASCII strings as unsigned
 values

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index d56950b..655117e 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -3098,7 +3098,7 @@ static void asm_gen_string_literals(ASMCodegenData_T* cg)
         asm_println(cg, ".L.string.%d:", i);
         
         for(size_t i = 0; i < size; i++)
-            asm_println(cg, "  .byte %u", str[i] == '\\' ? (i++, escape_sequence(str[i], &str[i], &i)) : str[i]);
+            asm_println(cg, "  .byte %u", str[i] == '\\' ? (i++, escape_sequence(str[i], &str[i], &i)) : (u8) str[i]);
 
     }
 }
-- 
2.43.0


From 5b33844cbe1b3026bc9dd267a53e6d5b17289fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 075/139] fix: a char literal visited twice crashed the
 compiler

---
 src/compiler/parser/parser.c    | 52 ++++++++++++++++++++++++++---
 src/compiler/parser/validator.c | 58 ---------------------------------
 2 files changed, 48 insertions(+), 62 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 7a3e99d..d007bd5 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2012,11 +2012,55 @@ static ASTNode_T* parse_char_lit(Parser_T* p)
 {
     ASTNode_T* char_lit = init_ast_node(&p->context->raw_allocator, ND_CHAR, p->tok);
 
+    // check for invalid escape sequences and evaluate them
+    char c = p->tok->value[0];
     if(strlen(p->tok->value) > 1)
-        char_lit->str_val = strdup((char[]){'\\', p->tok->value[1], '\0'});
-    else 
-        char_lit->str_val = strdup((char[]){p->tok->value[0], '\0'});
-    
+    {
+        switch(p->tok->value[1])
+        {
+            case 'a':
+                c = '\a';
+                break;
+            case 'b':
+                c = '\b';
+                break;
+            case 't':
+                c = '\t';
+                break;
+            case 'v':
+                c = '\v';
+                break;
+            case 'n':
+                c = '\n';
+                break;
+            case 'r':
+                c = '\r';
+                break;
+            case 'f':
+                c = '\f';
+                break;
+            case 'e':
+                c = '\e';
+                break;
+            case '\'':
+                c = '\'';
+                break;
+            case '"':
+                c = '"';
+                break;
+            case '\\':
+                c = '\\';
+                break;
+            case '0':
+                c = '\0';
+                break;
+            default:
+                throw_error(p->context, ERR_SYNTAX_ERROR_UNCR, p->tok, "invalid escape sequence `\\%c` found in char literal", p->tok->value[1]);
+                break;
+        }
+    }
+
+    char_lit->int_val = c;
     char_lit->is_constant = true; 
     char_lit->data_type = (ASTType_T*) primitives[TY_CHAR];
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 6568673..4f6c538 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1907,63 +1907,6 @@ static void iter_validate_string_lit(ASTNode_T* str, va_list args)
     }
 }
 
-static void iter_validate_char_lit(ASTNode_T* ch, va_list args)
-{
-     GET_VALIDATOR(args);
-
-    // check for invalid escape sequences and evaluate them
-    char c = ch->str_val[0];
-
-    if(c == '\\')
-    {
-        switch(ch->str_val[1])
-        {
-            case 'a':
-                c = '\a';
-                break;
-            case 'b':
-                c = '\b';
-                break;
-            case 't':
-                c = '\t';
-                break;
-            case 'v':
-                c = '\v';
-                break;
-            case 'n':
-                c = '\n';
-                break;
-            case 'r':
-                c = '\r';
-                break;
-            case 'f':
-                c = '\f';
-                break;
-            case 'e':
-                c = '\e';
-                break;
-            case '\'':
-                c = '\'';
-                break;
-            case '"':
-                c = '"';
-                break;
-            case '\\':
-                c = '\\';
-                break;  
-            case '0':
-                c = '\0';
-                break;
-            default:
-                throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, ch->tok, "invalid escape sequence `\\%c` found in char literal", ch->str_val[1]);
-                return;
-        }
-    }
-    
-    free(ch->str_val);
-    ch->int_val = c;
-}
-
 static void iter_validate_sizeof(ASTNode_T* expr, va_list args)
 {
     GET_VALIDATOR(args);
@@ -2149,7 +2092,6 @@ static void validate_obj_deep(Validator_T* v, ASTObj_T* obj)
             [ND_HOLE] = iter_validate_hole,
             [ND_LAMBDA] = iter_leave_lambda,
             [ND_STR] = iter_validate_string_lit,
-            [ND_CHAR] = iter_validate_char_lit,
             [ND_SIZEOF] = iter_validate_sizeof,
             [ND_TYPE_EXPR] = iter_validate_type_expr,
         },
-- 
2.43.0


From 177cc7f31bc623faaf6111009d6b722c97f70722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 076/139] fix: a [constexpr] function could not use its own
 local variables

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 4f6c538..df9a3fc 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -585,7 +585,7 @@ static void validate_ident_expr(ASTNode_T* node, va_list args)
         node->id->outer->outer = result.obj->id->outer;
     }
 
-    if(v->current_obj && v->current_obj->constexpr && !node->referenced_obj->constexpr && node->referenced_obj->kind != OBJ_FN_ARG)
+    if(v->current_obj && v->current_obj->constexpr && !node->referenced_obj->constexpr && node->referenced_obj->kind != OBJ_FN_ARG && node->referenced_obj->kind != OBJ_LOCAL)
     {
         char buf[BUFSIZ] = {'\0'};
         throw_error(v->context, ERR_CONSTEXPR, node->tok, "%s `%s` is not marked as `[constexpr]`", obj_kind_to_str(node->referenced_obj->kind), ast_id_to_str(buf, node->referenced_obj->id, LEN(buf)));
-- 
2.43.0


From 2aeebf8c78b150790365ab602094cb0c4099e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 077/139] fix: ++ and -- and a parenthesised target changed
 constants

---
 src/compiler/parser/typechecker.c |  4 ++--
 src/compiler/parser/validator.c   | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 8391b4c..28c76a4 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -416,7 +416,7 @@ static void typecheck_inc(ASTNode_T* inc, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf[BUFSIZ] = {'\0'};
-    if(inc->data_type->is_constant)
+    if(unpack(inc->data_type)->is_constant)
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, inc->tok, "cannot increment constant type `%s`", ast_type_to_str(t->context, buf, inc->data_type, LEN(buf)));
 }
 
@@ -424,7 +424,7 @@ static void typecheck_dec(ASTNode_T* dec, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf[BUFSIZ] = {'\0'};
-    if(dec->data_type->is_constant)
+    if(unpack(dec->data_type)->is_constant)
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, dec->tok, "cannot decrement constant type `%s`", ast_type_to_str(t->context, buf, dec->data_type, LEN(buf)));
 }
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index df9a3fc..cacad94 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1528,6 +1528,17 @@ static void iter_validate_bitwise_op(ASTNode_T* op, va_list args)
     op->data_type = op->right->data_type->size > op->left->data_type->size ? op->right->data_type : op->left->data_type;
 }
 
+static ASTNode_T* expand_closure(ASTNode_T* cl);
+
+// constant objects have constant types once something tries to change them
+static void mark_changed_obj(ASTNode_T* target)
+{
+    ASTNode_T* id = expand_closure(target);
+    ASTObj_T* obj = id->kind == ND_ID ? id->referenced_obj : NULL;
+    if(obj && obj->is_constant && obj->data_type && (obj->kind == OBJ_GLOBAL || obj->kind == OBJ_LOCAL || obj->kind == OBJ_FN_ARG))
+        obj->data_type->is_constant = true;
+}
+
 static void iter_validate_inc_dec(ASTNode_T* op, va_list args)
 {
     GET_VALIDATOR(args);
@@ -1538,6 +1549,7 @@ static void iter_validate_inc_dec(ASTNode_T* op, va_list args)
         return;
     }
 
+    mark_changed_obj(op->left);
     op->data_type = op->left->data_type;
 }
 
@@ -1630,7 +1642,7 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
             break;
         case ND_ID: 
         {
-            ASTObj_T* assigned_obj = assign->left->referenced_obj;
+            ASTObj_T* assigned_obj = expand_closure(assign->left)->referenced_obj;
             if(!assigned_obj)
                 return;
 
@@ -1641,8 +1653,7 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
                 case OBJ_FN_ARG:
                     //if(assigned_obj->is_constant)
                     //    throw_error(v->context, ERR_CONST_ASSIGN, assigned_obj->tok, "cannot assign a value to constant %s `%s`", obj_kind_to_str(assigned_obj->kind), assigned_obj->id->callee);
-                    if(assigned_obj->is_constant)
-                        assigned_obj->data_type->is_constant = true;
+                    mark_changed_obj(assign->left);
                     break;
 
                 case OBJ_FUNCTION:
-- 
2.43.0


From 253b18399ff811759e744f60403c7ea4129c81aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 078/139] fix: constant initialisers of array elements and
 members ignored the types of their operations

---
 src/compiler/optimizer/constexpr.c | 290 ++++++++++++++---------------
 1 file changed, 144 insertions(+), 146 deletions(-)

diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index 80266bd..e2339c0 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -47,6 +47,8 @@ static i64 const_cast(Context_T* context, ASTNode_T* node)
     ASTType_T* to = unpack(node->data_type);
 
     i64 value;
+    if(is_flonum(from) && to->kind == TY_BOOL)
+        return const_f64(context, node->left) != 0;
     if(is_flonum(from))
         value = to->kind == TY_U64 ? (i64) (u64) const_f64(context, node->left) : (i64) const_f64(context, node->left);
     else
@@ -73,6 +75,62 @@ static i64 const_cast(Context_T* context, ASTNode_T* node)
     }
 }
 
+// wrap an integer to the range of a type
+static i64 const_wrap(ASTType_T* type, i64 value)
+{
+    type = unpack(type);
+    if(!type)
+        return value;
+
+    switch(type->kind)
+    {
+        case TY_I8:
+        case TY_CHAR:
+            return (i8) value;
+        case TY_I16:
+            return (i16) value;
+        case TY_I32:
+        case TY_ENUM:
+            return (i32) value;
+        case TY_U8:
+            return (u8) value;
+        case TY_U16:
+            return (u16) value;
+        case TY_U32:
+            return (u32) value;
+        case TY_BOOL:
+            return value != 0;
+        default:
+            return value;
+    }
+}
+
+static inline bool const_is_flonum(ASTNode_T* node)
+{
+    return node->data_type && is_flonum(unpack(node->data_type));
+}
+
+// value of an operand, converted to the type of its operation
+static f64 const_operand_f64(Context_T* context, ASTNode_T* node, ASTType_T* type)
+{
+    f64 value = const_f64(context, node);
+    return unpack(type)->kind == TY_F32 ? (f64) (f32) value : value;
+}
+
+static i64 const_operand_i64(Context_T* context, ASTNode_T* node, ASTType_T* type)
+{
+    if(!const_is_flonum(node))
+        return const_wrap(type, const_i64(context, node));
+
+    f64 value = const_f64(context, node);
+    return const_wrap(type, type && unpack(type)->kind == TY_U64 ? (i64) (u64) value : (i64) value);
+}
+
+static bool const_truthy(Context_T* context, ASTNode_T* node)
+{
+    return const_is_flonum(node) ? const_f64(context, node) != 0 : const_i64(context, node) != 0;
+}
+
 f64 const_f64(Context_T* context, ASTNode_T* node)
 {
     if(!is_flonum(unpack(node->data_type)))
@@ -82,6 +140,8 @@ f64 const_f64(Context_T* context, ASTNode_T* node)
         return (f64) const_i64(context, node);
     }
 
+    const bool single = unpack(node->data_type)->kind == TY_F32;
+    f64 value;
     switch(node->kind)
     {
         case ND_CLOSURE:
@@ -93,153 +153,91 @@ f64 const_f64(Context_T* context, ASTNode_T* node)
         case ND_NEG:
             return -const_f64(context, node->right);
         case ND_ADD:
-            return const_f64(context, node->left) + const_f64(context, node->right);
+            value = const_operand_f64(context, node->left, node->data_type) + const_operand_f64(context, node->right, node->data_type);
+            break;
         case ND_SUB:
-            return const_f64(context, node->left) - const_f64(context, node->right);
+            value = const_operand_f64(context, node->left, node->data_type) - const_operand_f64(context, node->right, node->data_type);
+            break;
         case ND_MUL:
-            return const_f64(context, node->left) * const_f64(context, node->right);
+            value = const_operand_f64(context, node->left, node->data_type) * const_operand_f64(context, node->right, node->data_type);
+            break;
         case ND_DIV:
-            return const_f64(context, node->left) / const_f64(context, node->right);
+            value = const_operand_f64(context, node->left, node->data_type) / const_operand_f64(context, node->right, node->data_type);
+            break;
         case ND_CAST:
-            return unpack(node->data_type)->kind == TY_F32 ? (f64) (f32) const_f64(context, node->left) : const_f64(context, node->left);
+            value = const_f64(context, node->left);
+            break;
         case ND_ID:
-            if(node->referenced_obj && node->referenced_obj->kind == OBJ_GLOBAL && node->referenced_obj->is_constant)
-                return const_f64(context, node->referenced_obj->value);
+            if(node->referenced_obj && node->referenced_obj->kind == OBJ_GLOBAL && node->referenced_obj->is_constant && node->referenced_obj->value)
+            {
+                value = const_f64(context, node->referenced_obj->value);
+                break;
+            }
             // fall through
         default:
             throw_error(context, ERR_CONSTEXPR, node->tok, "`%s` is not a compile-time constant", node->tok->value);
             return 0;
     }
+    return single ? (f64) (f32) value : value;
 }
 
-static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
+u64 const_u64(Context_T* context, ASTNode_T* node)
 {
-    u64 a = const_u64(context, node->left);
-    u64 b = const_u64(context, node->right);
-
-    switch(node->kind)
-    {
-        case ND_ADD:
-            return a + b;
-        case ND_SUB:
-            return a - b;
-        case ND_MUL:
-            return a * b;
-        case ND_DIV:
-        case ND_MOD:
-            if(b == 0)
-            {
-                throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero in a constant expression");
-                return 0;
-            }
-            return node->kind == ND_DIV ? a / b : a % b;
-        case ND_EQ:
-            return a == b;
-        case ND_NE:
-            return a != b;
-        case ND_GT:
-            return a > b;
-        case ND_GE:
-            return a >= b;
-        case ND_LT:
-            return a < b;
-        case ND_LE:
-            return a <= b;
-        case ND_AND:
-            return a && b;
-        case ND_OR:
-            return a || b;
-        case ND_LSHIFT: 
-            return a << b;
-        case ND_RSHIFT:
-            return a >> b;
-        case ND_XOR:
-            return a ^ b;
-        case ND_BIT_OR:
-            return a | b;
-        case ND_BIT_AND:
-            return a & b;
-        default:
-            throw_error(context, ERR_CONSTEXPR, node->tok, "`%s` is not a compile type constant", node->tok->value);
-            return 0;
-    }
+    return node ? (u64) const_i64(context, node) : 0;
 }
 
-static i64 const_i64_prefix(Context_T* context, ASTNode_T* node)
+static bool const_compare(Context_T* context, ASTNode_T* node)
 {
-    i64 a = const_u64(context, node->right);
+    ASTType_T* left = unpack(node->left->data_type), *right = unpack(node->right->data_type);
+    ASTType_T* type = left && right && left->size < right->size ? right : left;
 
-    switch(node->kind)
+#define COMPARE(a, b)               \
+    switch(node->kind) {            \
+        case ND_EQ: return a == b;  \
+        case ND_NE: return a != b;  \
+        case ND_GT: return a > b;   \
+        case ND_GE: return a >= b;  \
+        case ND_LT: return a < b;   \
+        default:    return a <= b;  \
+    }
+
+    if(const_is_flonum(node->left) || const_is_flonum(node->right))
     {
-        case ND_NEG:
-            return -a;
-        case ND_NOT:
-            return !a;
-        case ND_BIT_NEG:
-            return ~a;
-        default:
-            throw_error(context, ERR_CONSTEXPR, node->tok, "`%s` is not a compile type constant", node->tok->value);
-            return 0;
+        if(const_is_flonum(node->left) != const_is_flonum(node->right))
+            type = const_is_flonum(node->left) ? left : right;
+        f64 a = const_operand_f64(context, node->left, type);
+        f64 b = const_operand_f64(context, node->right, type);
+        COMPARE(a, b);
     }
-}
 
-u64 const_u64(Context_T* context, ASTNode_T* node)
-{
-    if(!node) return 0;
-    switch(node->kind)
+    i64 a = const_operand_i64(context, node->left, type);
+    i64 b = const_operand_i64(context, node->right, type);
+    if(unsigned_type(type))
     {
-        case ND_CLOSURE:
-            return const_u64(context, node->exprs->items[node->exprs->size - 1]);
-        case ND_INT:
-            return node->int_val;
-        case ND_LONG:
-            return node->long_val;
-        case ND_ULONG:
-            return node->ulong_val;
-        case ND_FLOAT:
-            return (u64) node->float_val;
-        case ND_DOUBLE:
-            return (u64) node->double_val;
-        case ND_BOOL:
-            return node->bool_val;
-        case ND_CHAR:
-            return node->int_val;
-        case ND_NIL:
-            return 0;
-        case ND_ADD...ND_MOD:
-        case ND_EQ...ND_BIT_AND:
-            return const_u64_infix(context, node);
-        case ND_NEG:
-        case ND_NOT:
-        case ND_BIT_NEG:
-            return const_i64_prefix(context, node);
-        case ND_SIZEOF:
-            return node->the_type->size;
-        case ND_CAST:
-            return (u64) const_cast(context, node);
-        case ND_ID:
-            if(node->referenced_obj && node->referenced_obj->kind == OBJ_GLOBAL && node->referenced_obj->is_constant)
-                return const_u64(context, node->referenced_obj->value);
-            // fall through
-        default:
-            throw_error(context, ERR_CONSTEXPR, node->tok, "`%s` is not a compile-time constant", node->tok->value);
-            return 0;
+        COMPARE((u64) a, (u64) b);
     }
+    COMPARE(a, b);
+#undef COMPARE
 }
 
 static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
 {
-    i64 a = const_i64(context, node->left);
-    i64 b = const_i64(context, node->right);
+    const bool is_unsigned = unsigned_type(node->data_type);
+
+    // the right side of a shift does not take part in the type of the result
+    i64 a = const_operand_i64(context, node->left, node->data_type);
+    i64 b = node->kind == ND_LSHIFT || node->kind == ND_RSHIFT
+        ? const_i64(context, node->right)
+        : const_operand_i64(context, node->right, node->data_type);
 
     switch(node->kind)
     {
         case ND_ADD:
-            return a + b;
+            return (i64) ((u64) a + (u64) b);
         case ND_SUB:
-            return a - b;
+            return (i64) ((u64) a - (u64) b);
         case ND_MUL:
-            return a * b;
+            return (i64) ((u64) a * (u64) b);
         case ND_DIV:
         case ND_MOD:
             if(b == 0)
@@ -247,27 +245,15 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
                 throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero in a constant expression");
                 return 0;
             }
+            if(is_unsigned)
+                return node->kind == ND_DIV ? (u64) a / (u64) b : (u64) a % (u64) b;
+            if(b == -1) // the quotient of the smallest value may not be representable
+                return node->kind == ND_DIV ? (i64) -(u64) a : 0;
             return node->kind == ND_DIV ? a / b : a % b;
-        case ND_EQ:
-            return a == b;
-        case ND_NE:
-            return a != b;
-        case ND_GT:
-            return a > b;
-        case ND_GE:
-            return a >= b;
-        case ND_LT:
-            return a < b;
-        case ND_LE:
-            return a <= b;
-        case ND_AND:
-            return a && b;
-        case ND_OR:
-            return a || b;
         case ND_LSHIFT: 
-            return a << b;
+            return (i64) ((u64) a << (b & 63));
         case ND_RSHIFT:
-            return a >> b;
+            return is_unsigned ? (i64) ((u64) a >> (b & 63)) : a >> (b & 63);
         case ND_XOR:
             return a ^ b;
         case ND_BIT_OR:
@@ -280,6 +266,7 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
     }
 }
 
+// integers are represented by their value, unsigned 64-bit integers by their bits
 i64 const_i64(Context_T* context, ASTNode_T* node)
 {
     switch(node->kind)
@@ -302,27 +289,38 @@ i64 const_i64(Context_T* context, ASTNode_T* node)
             return node->int_val;
         case ND_NIL:
             return 0;
+        case ND_EQ:
+        case ND_NE:
+        case ND_GT:
+        case ND_GE:
+        case ND_LT:
+        case ND_LE:
+            return const_compare(context, node);
+        case ND_AND:
+            return const_truthy(context, node->left) && const_truthy(context, node->right);
+        case ND_OR:
+            return const_truthy(context, node->left) || const_truthy(context, node->right);
         case ND_ADD...ND_MOD:
-        case ND_EQ...ND_BIT_AND:
-            return const_i64_infix(context, node);
+        case ND_LSHIFT:
+        case ND_RSHIFT:
+        case ND_XOR:
+        case ND_BIT_OR:
+        case ND_BIT_AND:
+            return const_wrap(node->data_type, const_i64_infix(context, node));
         case ND_NEG:
-        case ND_NOT:
+            return const_wrap(node->data_type, (i64) -(u64) const_operand_i64(context, node->right, node->data_type));
         case ND_BIT_NEG:
-            return const_i64_prefix(context, node);
+            return const_wrap(node->data_type, ~const_operand_i64(context, node->right, node->data_type));
+        case ND_NOT:
+            return !const_truthy(context, node->right);
         case ND_SIZEOF:
             return node->the_type->size;
         case ND_CAST:
             return const_cast(context, node);
         case ND_ID:
-            if(!node->referenced_obj)
-            {
-                throw_error(context, ERR_CONSTEXPR, node->tok, "`%s` is not a compile-time constant", node->tok->value);
-                return 0;
-            }
-            if(node->referenced_obj->kind == OBJ_GLOBAL && node->referenced_obj->is_constant)
-                return const_i64(context, node->referenced_obj->value);
-            if(node->referenced_obj->kind == OBJ_ENUM_MEMBER)
-                return const_i64(context, node->referenced_obj->value);
+            if(node->referenced_obj && node->referenced_obj->value && 
+                (node->referenced_obj->kind == OBJ_ENUM_MEMBER || (node->referenced_obj->kind == OBJ_GLOBAL && node->referenced_obj->is_constant)))
+                return const_operand_i64(context, node->referenced_obj->value, node->referenced_obj->kind == OBJ_GLOBAL ? node->data_type : NULL);
             // fall through
         default:
             throw_error(context, ERR_CONSTEXPR, node->tok, "`%s` is not a compile-time constant", node->tok->value);
-- 
2.43.0


From 13cc23be43318bcaf7021a048e8e8d3623075157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 079/139] fix: compile-time calls lost locals in recursion,
 control flow out of nested loops and type conversions

---
 src/compiler/interpreter/interpreter.c | 232 ++++++++++++++++++-------
 src/compiler/interpreter/value.c       |   2 +-
 src/compiler/interpreter/value.h       |   2 -
 3 files changed, 166 insertions(+), 70 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 1d7d5af..255dd88 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -19,6 +19,7 @@
 #include "context.h"
 
 #define MAX_RECURSION_DEPTH 1024
+#define INTERPRETER_STACK_SIZE (16 * 1024 * 1024)
 
 #define PTR_TYPE(ty) ((ty) && ((ty)->kind == TY_PTR || (ty)->kind == TY_VLA))
 
@@ -86,26 +87,26 @@
     INTLIKE_INFIX_OP_CASES(left_value, right_value, op);            \
     FP_INFIX_OP_CASES(left_value, right_value, op)
 
+// compare two values of the same type
+#define COMPARE_VALUES(a, b, op) (is_flonum((ASTType_T*) (a).type)  \
+    ? interpreter_value_f80(&(a)) op interpreter_value_f80(&(b))    \
+    : (a).type->kind == TY_U64 || (a).type->kind == TY_PTR          \
+    ? (u64) interpreter_value_i64(&(a)) op (u64) interpreter_value_i64(&(b)) \
+    : interpreter_value_i64(&(a)) op interpreter_value_i64(&(b)))
+
 #define COMPARISON_OP_CASE(node_kind, op) case node_kind: do {      \
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
-    switch(left_value.type->kind) {                                 \
-        case TY_F32: case TY_F64: case TY_F80:                      \
-            if(!is_flonum((ASTType_T*) right_value.type))           \
-                right_value = type_cast_map[right_value.type->kind][TY_F80](ictx, &right_value); \
-            return BOOL_VALUE(interpreter_value_f80(&left_value) op interpreter_value_f80(&right_value)); \
-        default:                                                    \
-            return BOOL_VALUE(interpreter_value_i64(&left_value) op interpreter_value_i64(&right_value)); \
-    }} while(0)
+    convert_compared(ictx, &left_value, &right_value);              \
+    return BOOL_VALUE(COMPARE_VALUES(left_value, right_value, op)); \
+    } while(0)
 
 #define INTEGER_INFIX_OP_CASE(node_kind, op) case node_kind: do {       \
         InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
         InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
         convert_operands(ictx, expr, &left_value, &right_value);        \
-        if(node_kind == ND_MOD && interpreter_value_i64(&right_value) == 0) { \
-            throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "division by zero"); \
+        if(node_kind == ND_MOD && !valid_division(ictx, expr, &left_value, &right_value)) \
             return left_value;                                          \
-        }                                                               \
         switch(left_value.type->kind) {                                 \
             INTLIKE_INFIX_OP_CASES(left_value, right_value, op);        \
             default: unreachable();                                     \
@@ -185,6 +186,7 @@ static InterpreterValue_T (*const type_cast_map[TY_KIND_LEN][TY_KIND_LEN])(Inter
 };
 
 static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt);
+static void convert_value(InterpreterContext_T* ictx, InterpreterValue_T* value, const ASTType_T* type);
 static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn, const InterpreterValueList_T* args);
 
 static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTType_T* ty, Token_T* tok);
@@ -196,13 +198,16 @@ void init_interpreter_context(InterpreterContext_T* ictx, Context_T* context, AS
 {
     ictx->context = context;
     ictx->ast = ast;
-    ictx->stack = init_interpreter_stack(BUFSIZ);
-    ictx->global_storage = init_interpreter_stack(BUFSIZ / 2); // a little smaller is usually enough
+    // addresses of values on the stacks are used as pointers, so they have to stay where they are
+    ictx->stack = init_interpreter_stack(INTERPRETER_STACK_SIZE);
+    ictx->global_storage = init_interpreter_stack(INTERPRETER_STACK_SIZE);
     ictx->recursion_depth = 0;
     ictx->constexpr_only = false;
 
     ictx->string_literals = hashmap_init();
     ictx->broken = false;
+    ictx->continued = false;
+    ictx->returned = false;
 
     // assure that address 0 is always occupied
     u8 null_byte = 0;
@@ -291,6 +296,26 @@ i32 interpreter_pass(Context_T* context, ASTProg_T* ast)
     return (i32) exit_code;
 }
 
+static bool case_matches(InterpreterContext_T* ictx, InterpreterValue_T* value, ASTNode_T* case_stmt)
+{
+    InterpreterValue_T condition = interpreter_eval_expr(ictx, case_stmt->condition);
+    convert_value(ictx, &condition, value->type);
+
+    switch(case_stmt->mode)
+    {
+        case ND_LT:
+            return COMPARE_VALUES(*value, condition, <);
+        case ND_LE:
+            return COMPARE_VALUES(*value, condition, <=);
+        case ND_GT:
+            return COMPARE_VALUES(*value, condition, >);
+        case ND_GE:
+            return COMPARE_VALUES(*value, condition, >=);
+        default:
+            return COMPARE_VALUES(*value, condition, ==);
+    }
+}
+
 static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
 {
 //    printf(">> stmt %d\n", stmt->kind);
@@ -299,8 +324,8 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         case ND_NOOP:
             break;
         case ND_RETURN:
-            ictx->returned = true;
             ictx->return_value = stmt->return_val ? interpreter_eval_expr(ictx, stmt->return_val) : VOID_VALUE;
+            ictx->returned = true;
             break;
         case ND_EXPR_STMT:
             interpreter_eval_expr(ictx, stmt->expr);
@@ -315,7 +340,10 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         break;
         case ND_IF:
             if(interpreter_value_is_falsy(interpreter_eval_expr(ictx, stmt->condition)))
-                eval_stmt(ictx, stmt->else_branch);
+            {
+                if(stmt->else_branch)
+                    eval_stmt(ictx, stmt->else_branch);
+            }
             else
                 eval_stmt(ictx, stmt->if_branch);
             break;
@@ -324,40 +352,41 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 eval_stmt(ictx, stmt->body);
             break;
         case ND_LOOP:
-            ictx->broken = false;
             while(!ictx->broken && !ictx->returned)
             {
-                ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
+                ictx->continued = false;
             };
+            ictx->broken = false;
             break;
         case ND_WHILE:
-            ictx->broken = false;
             while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
             {
-                ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
+                ictx->continued = false;
             }
+            ictx->broken = false;
             break;
         case ND_DO_WHILE:
-            ictx->broken = false;
             do {
-                ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
+                ictx->continued = false;
             } while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)));
+            ictx->broken = false;
             break;
         case ND_FOR:
-            ictx->broken = false;
             if(stmt->init_stmt)
                 eval_stmt(ictx, stmt->init_stmt);
-            while(interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
+            while(!stmt->condition || interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
             {
-                ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
+                ictx->continued = false;
                 if(ictx->broken || ictx->returned)
                     break;
-                interpreter_eval_expr(ictx, stmt->expr);
+                if(stmt->expr)
+                    interpreter_eval_expr(ictx, stmt->expr);
             }
+            ictx->broken = false;
             break;
         // TODO: ND_FOR_RANGE
         case ND_CONTINUE:
@@ -369,20 +398,21 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         case ND_MATCH:
         {
             InterpreterValue_T condition = interpreter_eval_expr(ictx, stmt->condition);
+            ASTNode_T* taken = stmt->default_case;
 
             for(size_t i = 0; i < stmt->cases->size; i++)
             {
                 ASTNode_T* case_stmt = stmt->cases->items[i];
-                InterpreterValue_T case_condition = interpreter_eval_expr(ictx, case_stmt->condition);
-                if(interpreter_values_equal(condition, case_condition))
+                if(case_matches(ictx, &condition, case_stmt))
                 {
-                    eval_stmt(ictx, case_stmt->body);
-                    return;
+                    taken = case_stmt;
+                    break;
                 }
             }
 
-            if(stmt->default_case)
-                eval_stmt(ictx, stmt->default_case->body);
+            if(taken)
+                eval_stmt(ictx, taken->body);
+            ictx->broken = false; // `break` leaves the innermost match
             break;
         }
         case ND_MATCH_TYPE:
@@ -415,6 +445,52 @@ static void convert_operands(InterpreterContext_T* ictx, ASTNode_T* expr, Interp
     }
 }
 
+// convert a value to the type of the object that receives it
+static void convert_value(InterpreterContext_T* ictx, InterpreterValue_T* value, const ASTType_T* type)
+{
+    type = unpack((ASTType_T*) type);
+    if(!type || !value->type || !is_numeric((ASTType_T*) type) || value->type->kind == type->kind)
+        return;
+
+    InterpreterValue_T (*const cast_fn)(InterpreterContext_T*, InterpreterValue_T*) = type_cast_map[value->type->kind][type->kind];
+    if(cast_fn)
+        *value = cast_fn(ictx, value);
+}
+
+// convert the operands of a comparison to the type in which they are compared
+static void convert_compared(InterpreterContext_T* ictx, InterpreterValue_T* left, InterpreterValue_T* right)
+{
+    if(!is_numeric((ASTType_T*) left->type) || !is_numeric((ASTType_T*) right->type))
+        return;
+
+    const bool left_flt = is_flonum((ASTType_T*) left->type), right_flt = is_flonum((ASTType_T*) right->type);
+    const ASTType_T* type = left_flt != right_flt ? (left_flt ? left->type : right->type)
+        : (left->type->size < right->type->size ? right->type : left->type);
+    convert_value(ictx, left, type);
+    convert_value(ictx, right, type);
+}
+
+// the operands have been converted to the same type
+static bool valid_division(InterpreterContext_T* ictx, ASTNode_T* expr, InterpreterValue_T* left, InterpreterValue_T* right)
+{
+    if(is_flonum((ASTType_T*) right->type))
+        return true;
+
+    if(interpreter_value_i64(right) == 0)
+    {
+        throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "division by zero");
+        return false;
+    }
+
+    const bool is_min = (left->type->kind == TY_I32 && left->value.integer.i32 == INT32_MIN) || (left->type->kind == TY_I64 && left->value.integer.i64 == INT64_MIN);
+    if(is_min && interpreter_value_i64(right) == -1)
+    {
+        throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "integer overflow");
+        return false;
+    }
+    return true;
+}
+
 static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
@@ -552,9 +628,9 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             return value;
         }
         case ND_SIZEOF:
-            return I64_VALUE(expr->the_type->size);
+            return U64_VALUE(expr->the_type->size);
         case ND_ALIGNOF:
-            return I64_VALUE(expr->the_type->align);
+            return U64_VALUE(expr->the_type->align);
         case ND_PIPE:
             ictx->pipe_value = interpreter_eval_expr(ictx, expr->left);
             return interpreter_eval_expr(ictx, expr->right);
@@ -586,7 +662,28 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             return value;
         }
         // TODO: ND_INDEX
-        // TODO: ND_INC, ND_DEC
+        case ND_INC:
+        case ND_DEC:
+        {
+            LValue_T dest = eval_lvalue(ictx, expr->left);
+            const ASTType_T* type = unpack((ASTType_T*) dest.type);
+            InterpreterValue_T old = load_value(dest), updated = old;
+            i64 step = expr->kind == ND_INC ? 1 : -1;
+            if(PTR_TYPE(type))
+                updated.value.ptr += step * (i64) type->base->size;
+            else if(is_flonum((ASTType_T*) type))
+            {
+                updated = F80_VALUE(interpreter_value_f80(&old) + step);
+                convert_value(ictx, &updated, type);
+            }
+            else
+            {
+                updated = I64_VALUE((i64) ((u64) interpreter_value_i64(&old) + (u64) step));
+                convert_value(ictx, &updated, type);
+            }
+            assign_lvalue(dest, &updated);
+            return old;
+        }
         // TODO: ND_LEN
         case ND_ADD:
             return eval_add(ictx, expr);
@@ -609,11 +706,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
             convert_operands(ictx, expr, &left_value, &right_value);
-            if(is_integer((ASTType_T*) right_value.type) && interpreter_value_i64(&right_value) == 0)
-            {
-                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "division by zero");
+            if(!valid_division(ictx, expr, &left_value, &right_value))
                 return left_value;
-            }
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, /);
@@ -630,10 +724,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             return load_value(lvalue_from_id(ictx, obj, unpack(EITHER(expr->data_type, obj->data_type)), expr->tok));
         }
         // TODO: ND_MEMBER
-        case ND_ARRAY:
-        {
-            
-        }
+        // TODO: ND_ARRAY
         // TODO: ND_STRUCT
         case ND_REF:
         {
@@ -652,6 +743,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             LValue_T dest = eval_lvalue(ictx, expr->left);
             InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            convert_value(ictx, &value, dest.type);
             assign_lvalue(dest, &value);
             return value;
         }
@@ -705,18 +797,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         INTEGER_INFIX_OP_CASE(ND_LSHIFT, <<);
         INTEGER_INFIX_OP_CASE(ND_RSHIFT, >>);
         INTEGER_INFIX_OP_CASE(ND_XOR, ^);
-        case ND_EQ:
-        {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
-            return BOOL_VALUE(interpreter_values_equal(left_value, right_value));
-        }
-        case ND_NE:
-        {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
-            return BOOL_VALUE(!interpreter_values_equal(left_value, right_value));
-        }
+        COMPARISON_OP_CASE(ND_EQ, ==);
+        COMPARISON_OP_CASE(ND_NE, !=);
         COMPARISON_OP_CASE(ND_LT, <);
         COMPARISON_OP_CASE(ND_LE, <=);
         COMPARISON_OP_CASE(ND_GT, >);
@@ -756,33 +838,49 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
     //    printf(COLOR_BOLD_CYAN ">>> Entering %s(%zu)\n" COLOR_RESET, fn->id->callee, args->size);
     
     const size_t stack_size_before = ictx->stack->size;
-    for(size_t i = 0; i < args->size; i++) {
-        const InterpreterValue_T* arg_value = &args->data[i];
+    const size_t num_args = args->size, num_objs = fn->objs->size;
+
+    // a recursive call must not change where the objects of its caller are
+    i32* offsets_before = malloc((num_args + num_objs) * sizeof(i32) + 1);
+    for(size_t i = 0; i < num_args; i++)
+        offsets_before[i] = ((ASTObj_T*) fn->args->items[i])->offset;
+    for(size_t i = 0; i < num_objs; i++)
+        offsets_before[num_args + i] = ((ASTObj_T*) fn->objs->items[i])->offset;
+
+    for(size_t i = 0; i < num_args; i++) {
         ASTObj_T* arg = fn->args->items[i];
-        arg->offset = ictx->stack->size;
-        interpreter_stack_push(&ictx->stack, &arg_value->value, arg->data_type->size);
+        InterpreterValue_T arg_value = args->data[i];
+        convert_value(ictx, &arg_value, arg->data_type);
+        interpreter_stack_align_to(&ictx->stack, arg->data_type->align);
+        arg->offset = interpreter_stack_push(&ictx->stack, &arg_value.value, arg->data_type->size);
     }
 
     size_t stack_size = ictx->stack->size;
-    for(size_t i = 0; i < fn->objs->size; i++)
+    for(size_t i = 0; i < num_objs; i++)
     {
         ASTObj_T* local = fn->objs->items[i];
         stack_size = align_to(stack_size, local->data_type->align);
         local->offset = stack_size;
         stack_size += local->data_type->size;
     }
-    interpreter_stack_grow(&ictx->stack, stack_size - stack_size_before);
+    interpreter_stack_grow(&ictx->stack, stack_size - ictx->stack->size);
 
 //    dump_stack(ictx->stack);
     
     eval_stmt(ictx, fn->body);
 
     interpreter_stack_shrink_to(ictx->stack, stack_size_before);
+    for(size_t i = 0; i < num_args; i++)
+        ((ASTObj_T*) fn->args->items[i])->offset = offsets_before[i];
+    for(size_t i = 0; i < num_objs; i++)
+        ((ASTObj_T*) fn->objs->items[i])->offset = offsets_before[num_args + i];
+    free(offsets_before);
 //    printf(COLOR_BOLD_CYAN "<<<\n" COLOR_RESET);
     ictx->recursion_depth--;
 
     if(ictx->returned) {
         ictx->returned = false;     
+        convert_value(ictx, &ictx->return_value, fn->return_type);
         return ictx->return_value;
     }
     return VOID_VALUE;
@@ -806,18 +904,19 @@ static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node)
 
 static void push_global(InterpreterContext_T* ictx, ASTObj_T* global)
 {
-    global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
     if(global->value) 
     {
         InterpreterValue_T value = interpreter_eval_expr(ictx, global->value);
         const ASTType_T* type = unpack(global->data_type);
-        InterpreterValue_T (*const cast_fn)(InterpreterContext_T*, InterpreterValue_T*) = type_cast_map[value.type->kind][type->kind];
-        if(cast_fn && type->kind != value.type->kind)
-            value = cast_fn(ictx, &value);
-        interpreter_stack_push(&ictx->global_storage, &value.value, MIN(type->size, value.type->size));
+        convert_value(ictx, &value, type);
+        interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
+        global->offset = interpreter_stack_push(&ictx->global_storage, &value.value, MIN(type->size, sizeof(value.value)));
     }
     else
+    {
+        global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
         interpreter_stack_grow(&ictx->global_storage, global->data_type->size);
+    }
 }
 
 static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTType_T* ty, Token_T* tok)
@@ -903,7 +1002,6 @@ static InterpreterValue_T load_value(LValue_T lvalue)
 }
 
 static void assign_lvalue(LValue_T dest, InterpreterValue_T* value) {
-    assert(dest.type->size == value->type->size);
-    memcpy(dest.ptr, &value->value, dest.type->size);
+    memcpy(dest.ptr, &value->value, MIN((size_t) dest.type->size, sizeof(value->value)));
 }
 
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 7bec848..d2e6b7e 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -265,7 +265,7 @@ size_t interpreter_value_list_push(InterpreterValueList_T** list, InterpreterVal
     // cannot push to constant lists
     assert((*list)->allocated);
 
-    if((*list))
+    if((*list)->size >= (*list)->allocated)
     {
         (*list)->allocated *= 2;
         *list = realloc(*list, (*list)->allocated * sizeof(InterpreterValue_T) + sizeof(InterpreterValueList_T)); // TODO: find better allocation curve
diff --git a/src/compiler/interpreter/value.h b/src/compiler/interpreter/value.h
index db902e5..b45589b 100644
--- a/src/compiler/interpreter/value.h
+++ b/src/compiler/interpreter/value.h
@@ -94,8 +94,6 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
 
 #define interpreter_value_is_truthy(value) (!interpreter_value_is_falsy((value)))
 
-#define interpreter_values_equal(a, b) (memcmp(&(a).value, &(b).value, sizeof(InterpreterValueUnion_T)) == 0)
-
 #define ConstInterpreterValueList_M(sz) struct { \
         size_t size;                             \
         size_t allocated;                        \
-- 
2.43.0


From edf13c10b4943803c6244dbc0a8d8ce34115f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 080/139] fix: C backend: match (type) statements vanished

---
 src/compiler/codegen/transpiler/c_codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 04e4d6c..522ff73 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1985,6 +1985,7 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         break;
     
     case ND_USING:
+    case ND_MATCH_TYPE:
         if(node->body)
             c_gen_stmt(cg, node->body);
         break;
-- 
2.43.0


From 15794f4eef9c546df289aa4057bcebb96c7de0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 081/139] fix: with on a type without drop function crashed
 after the error

---
 src/compiler/parser/validator.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index cacad94..d779fc0 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1179,6 +1179,7 @@ static void iter_validate_with(ASTNode_T* with, va_list args)
         throw_error(v->context, ERR_TYPE_ERROR_UNCR, with->obj->tok, "type `%s` does not have a registered exit function.\nRegister one by using the `exit_fn` compiler directive",
             ast_type_to_str(v->context, buf, with->condition->data_type, BUFSIZ));
         free(buf);
+        return;
     }
     with->exit_fn = handle->fn;
 }
-- 
2.43.0


From 635d5d51289cedde91bdb5fbb6cbcc0a5c45c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 082/139] fix: C backend: initialisers with constants that are
 defined later did not compile

---
 src/compiler/codegen/transpiler/c_codegen.c | 9 +++++++++
 src/compiler/codegen/transpiler/c_codegen.h | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 522ff73..e83ad05 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -955,7 +955,9 @@ static void c_gen_globals(CCodegenData_T* cg, List_T* objs)
                 if(obj->value)
                 {
                     c_print(cg, " = ");
+                    cg->in_initializer = true;
                     c_gen_expr(cg, obj->value, false);
+                    cg->in_initializer = false;
                 }
                 else if(!obj->is_extern && c_has_array_lengths(obj->data_type))
                 {
@@ -1623,6 +1625,13 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_putc(cg, ')');
             break;
         case ND_ID:
+            if(cg->in_initializer && node->referenced_obj && node->referenced_obj->value && 
+                (node->referenced_obj->kind == OBJ_ENUM_MEMBER || (node->referenced_obj->kind == OBJ_GLOBAL && node->referenced_obj->is_constant)))
+            {
+                // C does not know the values of constants, which may even be defined later
+                c_gen_expr(cg, node->referenced_obj->value, with_casts);
+                break;
+            }
             c_print(cg, "%s", node->referenced_obj && node->referenced_obj->is_extern ? EITHER(node->referenced_obj->exported, node->id->callee) : c_gen_identifier(cg->context, node->id));
             break;
         case ND_CALL:
diff --git a/src/compiler/codegen/transpiler/c_codegen.h b/src/compiler/codegen/transpiler/c_codegen.h
index 09cdb97..7ecf124 100644
--- a/src/compiler/codegen/transpiler/c_codegen.h
+++ b/src/compiler/codegen/transpiler/c_codegen.h
@@ -17,6 +17,7 @@ typedef struct C_CODEGEN_DATA_STRUCT
 
     bool print;
     bool silent;
+    bool in_initializer; // generating the value of a global
     u64 unique_id;
     
     HashMap_T* arrays;
-- 
2.43.0


From a47ac01fa1513b8394afe7918b4b72d26bb8f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 083/139] fix: C backend: names of different namespaces could
 become the same C identifier

---
 src/compiler/codegen/transpiler/c_codegen.c |  2 +-
 src/std/utils.csp                           | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index e83ad05..85942f5 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -481,7 +481,7 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
 
 static char* c_gen_identifier(Context_T* context, ASTIdentifier_T* id)
 {
-    char* str = gen_identifier(id, "_", ID_PREFIX);
+    char* str = gen_identifier(id, "$", ID_PREFIX);
     CONTEXT_ALLOC_REGISTER(context, (void*) str);
     return str;
 }
diff --git a/src/std/utils.csp b/src/std/utils.csp
index 1446a3d..be1ec86 100644
--- a/src/std/utils.csp
+++ b/src/std/utils.csp
@@ -167,12 +167,12 @@ namespace std {
         {
             if size <= 4 {
                 extern "C"(
-                    "__csp_std_va___static_integer64 = va_arg(*(va_list*)__csp__ap, int);"
+                    "__csp_std$va$__static_integer64 = va_arg(*(va_list*)__csp__ap, int);"
                 );
             }
             else {
                 extern "C"(
-                    "__csp_std_va___static_integer64 = va_arg(*(va_list*)__csp__ap, long);"
+                    "__csp_std$va$__static_integer64 = va_arg(*(va_list*)__csp__ap, long);"
                 );
             }
 
@@ -185,19 +185,19 @@ namespace std {
             match size {
                 sizeof f32 => {
                     extern "C"(
-                        "__csp_std_va___static_float32 = (float) va_arg(*(va_list*)__csp__ap, double);"
+                        "__csp_std$va$__static_float32 = (float) va_arg(*(va_list*)__csp__ap, double);"
                     );
                     <- &__static::float32;
                 }
                 sizeof f64 => {
                     extern "C"(
-                        "__csp_std_va___static_float64 = va_arg(*(va_list*)__csp__ap, double);"
+                        "__csp_std$va$__static_float64 = va_arg(*(va_list*)__csp__ap, double);"
                     );
                     <- &__static::float64;
                 }
                 sizeof f80 => {
                     extern "C"(
-                        "__csp_std_va___static_float80 = va_arg(*(va_list*)__csp__ap, long double);"
+                        "__csp_std$va$__static_float80 = va_arg(*(va_list*)__csp__ap, long double);"
                     );
                     <- &__static::float80;
                 }
-- 
2.43.0


From f6459fb16caf2e1c79da7c00d20d9bd5fe09e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 084/139] fix: values of enum members were used before they
 were computed

---
 src/compiler/ast/ast.h          |  2 ++
 src/compiler/parser/parser.c    |  3 +++
 src/compiler/parser/queue.c     | 18 +++++++++++++++++-
 src/compiler/parser/validator.c | 31 +++++++++++++++++--------------
 4 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/compiler/ast/ast.h b/src/compiler/ast/ast.h
index b824f02..6066037 100644
--- a/src/compiler/ast/ast.h
+++ b/src/compiler/ast/ast.h
@@ -262,6 +262,8 @@ struct AST_OBJ_STRUCT
     ASTObj_T* return_ptr;
     ASTType_T* dyn_base_type;
     const char* exported;
+
+    ASTObj_T* enum_def; // type definition an enum member belongs to
 } __attribute__((packed));
 
 typedef struct AST_EXIT_FN_HANDLE_STRUCT
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index d007bd5..2b0daec 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -910,6 +910,9 @@ static ASTObj_T* parse_typedef(Parser_T* p)
     parser_consume_operator(p, ":", "expect `:` after type name");
 
     tydef->data_type = parse_type(p);
+    if(tydef->data_type->kind == TY_ENUM)
+        for(size_t i = 0; i < tydef->data_type->members->size; i++)
+            ((ASTObj_T*) tydef->data_type->members->items[i])->enum_def = tydef;
 
     parser_consume(p, TOKEN_SEMICOLON, "expect `;` after type definition");
 
diff --git a/src/compiler/parser/queue.c b/src/compiler/parser/queue.c
index 736a074..8f8762a 100644
--- a/src/compiler/parser/queue.c
+++ b/src/compiler/parser/queue.c
@@ -179,6 +179,19 @@ finish:
     validator_pop_obj(v);
 }
 
+static void resolve_enum_member_enqueue(Validator_T* v, ResolveQueue_T* queue, ASTObj_T* member)
+{
+    // members without a value continue counting from the last one that has a value
+    List_T* members = member->enum_def->data_type->members;
+    size_t i = list_contains(members, member) - 1;
+    while(i > 0 && ((ASTObj_T*) members->items[i])->value->kind == ND_NOOP)
+        i--;
+
+    for(ASTObj_T* dep = members->items[i]; dep != member; dep = members->items[++i])
+        resolve_obj_enqueue(v, queue, dep, RESOLVE_DEEP);
+    resolve_obj_enqueue(v, queue, member, RESOLVE_DEEP);
+}
+
 static void resolve_id_enqueue(ASTNode_T* ident, va_list args)
 {
     GET_ARGS(args);
@@ -189,7 +202,10 @@ static void resolve_id_enqueue(ASTNode_T* ident, va_list args)
         resolve_obj_enqueue(v, queue, ident->referenced_obj, ident->referenced_obj->constexpr ? RESOLVE_DEEP : RESOLVE_SHALLOW);
         break;
     case OBJ_ENUM_MEMBER:
-        resolve_obj_enqueue(v, queue, ident->referenced_obj, RESOLVE_DEEP);
+        if(ident->referenced_obj->enum_def)
+            resolve_enum_member_enqueue(v, queue, ident->referenced_obj);
+        else
+            resolve_obj_enqueue(v, queue, ident->referenced_obj, RESOLVE_DEEP);
         break;
     case OBJ_FUNCTION:
         {
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index d779fc0..127b412 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1078,11 +1078,26 @@ static void iter_enter_enum_member(ASTObj_T* member, va_list args)
     validator_push_obj(v, member);
 }
 
+static void assign_enum_value(Validator_T* v, List_T* members, size_t i)
+{
+    ASTObj_T* member = members->items[i];
+    if(member->value->kind != ND_NOOP)
+        member->value->int_val = (i32) const_i64(v->context, eval_constexpr(&v->constexpr_resolver, member->value));
+    else
+        member->value->int_val = i ? ((ASTObj_T*) members->items[i - 1])->value->int_val + 1 : 0;
+    member->value->kind = ND_INT;
+}
+
 static void iter_leave_enum_member(ASTObj_T* member, va_list args)
 {
     GET_VALIDATOR(args);
 
-// FIXME:    member->value = eval_constexpr(&v->constexpr_resolver, member->value);
+    // members which are referenced inside their enum get queued before the enum itself
+    if(member->enum_def)
+    {
+        List_T* members = member->enum_def->data_type->members;
+        assign_enum_value(v, members, list_contains(members, member) - 1);
+    }
 
     validator_pop_obj(v);
 
@@ -2247,19 +2262,7 @@ static void iter_validate_enum_type(ASTType_T* enum_type, va_list args)
     GET_VALIDATOR(args);
 
     for(size_t i = 0; i < enum_type->members->size; i++)
-    {
-        ASTObj_T* member = enum_type->members->items[i];
-        if(member->value->kind != ND_NOOP)
-        {
-            member->value->int_val = (i32) const_i64(v->context, eval_constexpr(&v->constexpr_resolver, member->value));
-            member->value->kind = ND_INT;
-        }
-        else 
-        {
-            member->value->int_val = i ? ((ASTObj_T*) enum_type->members->items[i - 1])->value->int_val + 1 : 0;
-            member->value->kind = ND_INT;
-        }
-    }
+        assign_enum_value(v, enum_type->members, i);
 }
 
 static void iter_validate_dyn_type(ASTType_T* dyn_type, va_list args)
-- 
2.43.0


From e42f8cddd165fb9ed6dad1cd56215684f0bd5e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 085/139] fix: importing a file by a second path or importing
 the main file defined everything twice

---
 src/compiler/preprocessor/preprocessor.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index ad063e1..f4205e4 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -13,6 +13,7 @@
 #include "util.h"
 
 #include <dirent.h>
+#include <sys/stat.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -176,15 +177,24 @@ static char* get_full_import_path(Context_T* context, char* origin, Token_T* imp
     return full_import_path;
 }
 
-static Import_T* find_import(Preprocessor_T* pp, Import_T* imp)
+static bool is_same_file(const char* a, const char* b)
 {
-    for(size_t i = 0; i < pp->imports->size; i++)
+    struct stat stat_a, stat_b;
+    if(!a || !b || stat(a, &stat_a) != 0 || stat(b, &stat_b) != 0)
+        return false;
+    return stat_a.st_dev == stat_b.st_dev && stat_a.st_ino == stat_b.st_ino;
+}
+
+// the same file may be imported using different paths
+static bool is_imported(Preprocessor_T* pp, Import_T* imp)
+{
+    for(size_t i = 0; i < pp->files->size; i++)
     {
-        Import_T* b_imp = pp->imports->items[i];
-        if(strcmp(b_imp->import_path, imp->import_path) == 0)
-            return b_imp;
+        File_T* file = pp->files->items[i];
+        if(is_same_file(file->path, imp->import_path))
+            return true;
     }
-    return NULL;
+    return false;
 }
 
 static void parse_import_def(Preprocessor_T* pp, List_T* token_list, size_t* i)
@@ -204,7 +214,7 @@ static void parse_import_def(Preprocessor_T* pp, List_T* token_list, size_t* i)
     imp->import_path = get_full_import_path(pp->context, (char*) imp->tok->source->path, imp->tok);
 
     // check if the file was already included
-    if(find_import(pp, imp))
+    if(is_imported(pp, imp))
     {   
         // file is already included
         free_import(imp);
-- 
2.43.0


From cd89cd96bfc1acf4f5d1bc3b029437666ff56df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 086/139] fix: C backend: names of the buffers of std::va

---
 src/std/utils.csp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/std/utils.csp b/src/std/utils.csp
index be1ec86..a8f383b 100644
--- a/src/std/utils.csp
+++ b/src/std/utils.csp
@@ -167,12 +167,12 @@ namespace std {
         {
             if size <= 4 {
                 extern "C"(
-                    "__csp_std$va$__static_integer64 = va_arg(*(va_list*)__csp__ap, int);"
+                    "__csp_std$va$__static$integer64 = va_arg(*(va_list*)__csp__ap, int);"
                 );
             }
             else {
                 extern "C"(
-                    "__csp_std$va$__static_integer64 = va_arg(*(va_list*)__csp__ap, long);"
+                    "__csp_std$va$__static$integer64 = va_arg(*(va_list*)__csp__ap, long);"
                 );
             }
 
@@ -185,19 +185,19 @@ namespace std {
             match size {
                 sizeof f32 => {
                     extern "C"(
-                        "__csp_std$va$__static_float32 = (float) va_arg(*(va_list*)__csp__ap, double);"
+                        "__csp_std$va$__static$float32 = (float) va_arg(*(va_list*)__csp__ap, double);"
                     );
                     <- &__static::float32;
                 }
                 sizeof f64 => {
                     extern "C"(
-                        "__csp_std$va$__static_float64 = va_arg(*(va_list*)__csp__ap, double);"
+                        "__csp_std$va$__static$float64 = va_arg(*(va_list*)__csp__ap, double);"
                     );
                     <- &__static::float64;
                 }
                 sizeof f80 => {
                     extern "C"(
-                        "__csp_std$va$__static_float80 = va_arg(*(va_list*)__csp__ap, long double);"
+                        "__csp_std$va$__static$float80 = va_arg(*(va_list*)__csp__ap, long double);"
                     );
                     <- &__static::float80;
                 }
-- 
2.43.0


From 9687c8f22e89df6b0896933c056d63e45453e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 087/139] fix: redefining a builtin macro crashed the compiler

---
 src/compiler/preprocessor/preprocessor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index f4205e4..fbc6790 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -309,7 +309,7 @@ static Macro_T* parse_macro_def(Preprocessor_T* pp, size_t* i)
         throw_error(pp->context, ERR_SYNTAX_ERROR, next, "unexpected token `%s`, expect `}` to end the macro body", next->value);
 
     Macro_T* found = find_macro(pp, macro->tok->value, macro->argc);
-    if(found && found->tok)
+    if(found && found->tok->source)
         throw_error(pp->context, ERR_REDEFINITION, macro->tok, "redefinition of macro `%s` with %d arguments\nfirst defined in `%s` at line %d", macro->tok->value, macro->argc, found->tok->source->path ? found->tok->source->path : found->tok->source->short_path, found->tok->line + 1);
     else if(found)
         throw_error(pp->context, ERR_SYNTAX_ERROR, macro->tok, "redefinition of macro `%s` with %d arguments", macro->tok->value, macro->argc);
-- 
2.43.0


From 3e2df7c73e6b15000db34295e18eb33735cff20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 088/139] fix: __func__! inside the arguments of a call or
 outside functions crashed the compiler

---
 src/compiler/parser/parser.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 2b0daec..062223f 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2719,9 +2719,12 @@ static ASTNode_T* parse_pow_3(Parser_T* p, ASTNode_T* left)
 
 static ASTNode_T* parse_current_fn_token(Parser_T* p)
 {
-    p->tok->type = TOKEN_STRING;
-    p->tok = allocator_realloc(&p->context->raw_allocator, p->tok, sizeof(Token_T) + strlen(p->cur_obj->id->callee) + 1);
-    strcpy(p->tok->value, p->cur_obj->id->callee);
+    if(!p->cur_obj)
+    {
+        throw_error(p->context, ERR_SYNTAX_ERROR, p->tok, "`__func__!` can only be used inside functions");
+        return NULL;
+    }
+    p->tok = init_token(&p->context->raw_allocator, p->cur_obj->id->callee, p->tok->line, p->tok->pos, TOKEN_STRING, p->tok->source);
 
     return parse_str_lit(p);
 }
-- 
2.43.0


From 9a22a00ec9a910106ed16f909bbf1cc029412c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 089/139] fix: macro parameters in arguments of nested calls,
 repeated name joins and many calls in one expansion

---
 src/compiler/preprocessor/preprocessor.c | 163 ++++++++++++++---------
 1 file changed, 98 insertions(+), 65 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index fbc6790..025cc39 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -427,80 +427,113 @@ static bool concatenateable(Token_T* tok) {
     }
 }
 
-static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_list, List_T* dest_list)
+// macro call in which tokens get expanded, `NULL` outside of macro bodies
+typedef struct MACRO_SCOPE_STRUCT
 {
-    if(pp->macro_call_depth++ > pp->context->max_macro_call_depth)
-        throw_error(pp->context, ERR_SYNTAX_ERROR, call.tok, "too many macro calls, maximum is %d.\nIf you need a larger call depth, use --set-mmcd", pp->context->max_macro_call_depth);
-    
-    for(size_t i = 0; i < call.macro->replacing_tokens->size; i++)
-    {
-        Token_T* tok = call.macro->replacing_tokens->items[i];
-        tok->in_macro_expansion = true;
+    const MacroCall_T* call;
+    List_T** args; // already expanded tokens of each argument
+} MacroScope_T;
 
-        switch(tok->type) {
-            case TOKEN_ID:
-            {
-                i32 arg_idx = find_macro_arg(call.macro, tok->value);
-                if(arg_idx != -1)
-                    for(size_t j = call.args[arg_idx].start_idx; j <= call.args[arg_idx].end_idx; j++)
-                    {
-                        Token_T* tok = src_list->items[j];
-                        if(tok->type == TOKEN_MACRO_CALL)
-                        {
-                            MacroCall_T macro_call;
-                            parse_macro_call(pp, &macro_call, src_list, &j, call.args[arg_idx].end_idx);
-                            expand_macro_call(pp, macro_call, src_list, dest_list);
-                        }
-                        else
-                            list_push(dest_list, src_list->items[j]);
-                    }
-                else if(strcmp(tok->value, "__line__") == 0)
-                {
-                    char linestr[BUFSIZ] = { '\0' };
-                    sprintf(linestr, "%u", call.tok->line + 1);
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
-                }
-                else if(strcmp(tok->value, "__file__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, (char*) call.tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
-                else if(strcmp(tok->value, "__func__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
-                else
-                    list_push(dest_list, tok);
-            } break;
+static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_list, const MacroScope_T* scope, List_T* dest_list);
 
-            case TOKEN_MACRO_CALL:
-            {
-                // FIXME: segfaults (macro doesn't get correctly parsed?)
-                MacroCall_T macro_call;
-                parse_macro_call(pp, &macro_call, call.macro->replacing_tokens, &i, call.macro->replacing_tokens->size);
-                expand_macro_call(pp, macro_call, call.macro->replacing_tokens, dest_list);
-            } break;
+static Token_T* expansion_token(Preprocessor_T* pp, const Token_T* tok, const char* value, TokenType_T type)
+{
+    Token_T* new_tok = init_token(&pp->context->raw_allocator, (char*) value, tok->line, tok->pos, type, tok->source);
+    new_tok->in_macro_expansion = true;
+    return new_tok;
+}
 
-            default:
-                list_push(dest_list, tok);
-                break;
+static void concatenate_last_tokens(Preprocessor_T* pp, List_T* dest_list)
+{
+    Token_T *at, *id;
+    if(dest_list->size < 3 ||
+        (at = dest_list->items[dest_list->size - 2])->type != TOKEN_AT ||
+        (id = dest_list->items[dest_list->size - 3])->type != TOKEN_ID
+    )
+        return;
+
+    Token_T* current = dest_list->items[dest_list->size - 1];
+    if(!concatenateable(current)) {
+        throw_error(pp->context, ERR_SYNTAX_ERROR, current, "cannot concatenate token `%s` to identifier using `@`", current->value);
+        return;
+    }
+
+    list_pop(dest_list);
+    list_pop(dest_list);
+
+    char* value = calloc(strlen(id->value) + strlen(current->value) + 1, sizeof(char));
+    strcat(strcat(value, id->value), current->value);
+    dest_list->items[dest_list->size - 1] = expansion_token(pp, id, value, TOKEN_ID);
+    free(value);
+}
+
+// expand the tokens from `start` to `end` (exclusive)
+static void expand_tokens(Preprocessor_T* pp, List_T* src_list, size_t start, size_t end, const MacroScope_T* scope, List_T* dest_list)
+{
+    for(size_t i = start; i < end; i++)
+    {
+        Token_T* tok = src_list->items[i];
+        i32 arg_idx = scope && tok->type == TOKEN_ID ? find_macro_arg(scope->call->macro, tok->value) : -1;
+        const Token_T* call_tok = scope ? scope->call->tok : tok;
+
+        if(tok->type == TOKEN_MACRO_CALL)
+        {
+            MacroCall_T macro_call;
+            parse_macro_call(pp, &macro_call, src_list, &i, end);
+            expand_macro_call(pp, macro_call, src_list, scope, dest_list);
         }
+        else if(arg_idx != -1)
+        {
+            List_T* arg = scope->args[arg_idx];
+            for(size_t j = 0; j < arg->size; j++)
+            {
+                const Token_T* arg_tok = arg->items[j];
+                list_push(dest_list, expansion_token(pp, arg_tok, arg_tok->value, arg_tok->type));
+                if(j == 0)
+                    concatenate_last_tokens(pp, dest_list);
+            }
+            continue;
+        }
+        else if(!scope)
+            list_push(dest_list, tok);
+        else if(tok->type == TOKEN_ID && strcmp(tok->value, "__line__") == 0)
+        {
+            char linestr[BUFSIZ] = { '\0' };
+            sprintf(linestr, "%u", call_tok->line + 1);
+            list_push(dest_list, expansion_token(pp, call_tok, linestr, TOKEN_INT));
+        }
+        else if(tok->type == TOKEN_ID && strcmp(tok->value, "__file__") == 0)
+            list_push(dest_list, expansion_token(pp, call_tok, call_tok->source->path, TOKEN_STRING));
+        else if(tok->type == TOKEN_ID && strcmp(tok->value, "__func__") == 0)
+            list_push(dest_list, expansion_token(pp, call_tok, tok->value, TOKEN_CURRENT_FN));
+        else // tokens of builtin macros do not have a source
+            list_push(dest_list, expansion_token(pp, tok->source ? tok : call_tok, tok->value, tok->type));
 
         // handle situations where an identifier should be concatenated
-        Token_T *at, *id;
-        if(dest_list->size >= 3 &&
-            (at = dest_list->items[dest_list->size - 2])->type == TOKEN_AT &&
-            (id = dest_list->items[dest_list->size - 3])->type == TOKEN_ID
-        ){
-            Token_T* current = dest_list->items[dest_list->size - 1];
-            if(!concatenateable(current)) {
-                throw_error(pp->context, ERR_SYNTAX_ERROR, current, "cannot concatenate token `%s` to identifier using `@`", current->value);
-                continue;
-            }
+        if(scope)
+            concatenate_last_tokens(pp, dest_list);
+    }
+}
 
-            list_pop(dest_list);
-            list_pop(dest_list);
+// `scope` is the scope of the call, not the one of the called macro
+static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_list, const MacroScope_T* scope, List_T* dest_list)
+{
+    if(pp->macro_call_depth++ > pp->context->max_macro_call_depth)
+        throw_error(pp->context, ERR_SYNTAX_ERROR, call.tok, "too many macro calls, maximum is %d.\nIf you need a larger call depth, use --set-mmcd", pp->context->max_macro_call_depth);
 
-            u64 prev_size = sizeof(Token_T) + strlen(id->value) * sizeof(char);
-            dest_list->items[dest_list->size - 1] = id = allocator_realloc(&pp->context->raw_allocator, id, prev_size + (strlen(current->value) + 1) * sizeof(char));
-            strcat(id->value, current->value);
-        }
+    List_T* args[__CSP_MAX_FN_NUM_ARGS];
+    for(u8 i = 0; i < call.argc; i++)
+    {
+        args[i] = init_list();
+        expand_tokens(pp, src_list, call.args[i].start_idx, call.args[i].end_idx + 1, scope, args[i]);
     }
+
+    MacroScope_T macro_scope = { &call, args };
+    expand_tokens(pp, call.macro->replacing_tokens, 0, call.macro->replacing_tokens->size, &macro_scope, dest_list);
+
+    for(u8 i = 0; i < call.argc; i++)
+        free_list(args[i]);
+    pp->macro_call_depth--;
 }
 
 //
@@ -564,7 +597,7 @@ i32 preprocessor_pass(Context_T* context, ASTProg_T* ast)
 
             MacroCall_T macro_call;
             parse_macro_call(&pp, &macro_call, token_stage_2, &i, token_stage_2->size);
-            expand_macro_call(&pp, macro_call, token_stage_2, token_stage_3);
+            expand_macro_call(&pp, macro_call, token_stage_2, NULL, token_stage_3);
             continue;
         }
         list_push(token_stage_3, tok);
-- 
2.43.0


From 72a8927cc126a985846ce226992e1dbf2146ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 090/139] fix: [after_main] registered a list that does not
 exist, which crashed the compiler

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 127b412..4f1e521 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -724,7 +724,7 @@ static void validate_after_main_fn(Validator_T* v, ASTObj_T* fn)
     if(!v->ast->after_main)
     {
         v->ast->after_main = init_list();
-        CONTEXT_ALLOC_REGISTER(v->context, v->ast->before_main);
+        CONTEXT_ALLOC_REGISTER(v->context, v->ast->after_main);
     }
 
     list_push(v->ast->after_main, fn);
-- 
2.43.0


From fd3c5ae7cac346aef4033d8596ad7a7eea9809f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 091/139] fix: unpacking arrays in array literals used the
 length of the first element for all of them

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 4f1e521..c3dcce8 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1771,7 +1771,7 @@ static void iter_validate_array_lit(ASTNode_T* array_lit, va_list args)
             continue;
         }
 
-        array_lit->data_type->num_indices += unpack(first_arg->data_type)->num_indices;
+        array_lit->data_type->num_indices += unpack(arg->data_type)->num_indices;
     }
 
     array_lit->data_type->size = get_type_size(v, array_lit->data_type);
-- 
2.43.0


From 304e52c133bd3f47a0185c7af568357360e6dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 092/139] fix: functions whose only return is in a loop that
 may end were accepted, endless loops rejected, lambdas unchecked

---
 src/compiler/parser/validator.c | 53 ++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index c3dcce8..05d7f4b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -776,6 +776,36 @@ static void validate_main_fn(Validator_T* v, ASTObj_T* fn)
     }
 }
 
+// whether a `break` in `node` leaves the loop or `match` around it
+static bool contains_break(ASTNode_T* node)
+{
+    if(!node)
+        return false;
+
+    switch(node->kind)
+    {
+        case ND_BREAK:
+            return true;
+        case ND_BLOCK:
+            for(size_t i = 0; i < node->stmts->size; i++)
+                if(contains_break(node->stmts->items[i]))
+                    return true;
+            return false;
+        case ND_IF:
+        case ND_WITH:
+            return contains_break(node->if_branch) || contains_break(node->else_branch);
+        case ND_MATCH_TYPE:
+            for(size_t i = 0; i < node->cases->size; i++)
+                if(contains_break(((ASTNode_T*) node->cases->items[i])->body))
+                    return true;
+            return node->default_case && contains_break(node->default_case->body);
+        case ND_USING:
+            return contains_break(node->body);
+        default:
+            return false;
+    }
+}
+
 static bool stmt_returns_value(Validator_T* v, ASTNode_T* node)
 {
     switch(node->kind)
@@ -798,10 +828,10 @@ static bool stmt_returns_value(Validator_T* v, ASTNode_T* node)
         case ND_IF:
             return stmt_returns_value(v, node->if_branch) && node->else_branch ? stmt_returns_value(v, node->else_branch) : false;
         case ND_LOOP:
-        case ND_FOR:
-        case ND_WHILE:
+            // only left by `break` or by returning
+            return !contains_break(node->body);
         case ND_DO_WHILE:
-            return stmt_returns_value(v, node->body);
+            return !contains_break(node->body) && stmt_returns_value(v, node->body);
         case ND_MATCH:
             if(!node->default_case)
                 return false;
@@ -809,13 +839,19 @@ static bool stmt_returns_value(Validator_T* v, ASTNode_T* node)
             {
                 u64 cases_return = 0;
                 for(size_t i = 0; i < node->cases->size; i++)
-                    if(stmt_returns_value(v, ((ASTNode_T*) node->cases->items[i])->body))
+                {
+                    ASTNode_T* body = ((ASTNode_T*) node->cases->items[i])->body;
+                    if(!contains_break(body) && stmt_returns_value(v, body))
                         cases_return++;
+                }
                 
-                return cases_return == node->cases->size && stmt_returns_value(v, node->default_case->body);
+                return cases_return == node->cases->size && !contains_break(node->default_case->body) && stmt_returns_value(v, node->default_case->body);
             }
-        case ND_FOR_RANGE:
-            return stmt_returns_value(v, node->body);
+        case ND_WITH:
+            return node->else_branch && stmt_returns_value(v, node->if_branch) && stmt_returns_value(v, node->else_branch);
+        case ND_MATCH_TYPE:
+        case ND_USING:
+            return node->body && stmt_returns_value(v, node->body);
         case ND_EXPR_STMT:
             return stmt_returns_value(v, node->expr);
         default: 
@@ -1869,6 +1905,9 @@ static void iter_leave_lambda(ASTNode_T* lambda, va_list args)
 {
     GET_VALIDATOR(args);
 
+    if(unpack(lambda->data_type->base)->kind != TY_VOID && !stmt_returns_value(v, lambda->body))
+        throw_error(v->context, ERR_NORETURN, lambda->tok, "lambda does not return a value");
+
     if(v->context->ct != CT_ASM)
         return;
     ASTObj_T* lambda_stack_ptr = init_ast_obj(&v->context->raw_allocator, OBJ_GLOBAL, lambda->tok);
-- 
2.43.0


From 849ba7fee681763e87ab40a74b48a980c2f22a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 093/139] fix: lambdas returning values were rejected in
 functions without return value

---
 src/compiler/parser/parser.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 062223f..138817f 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -34,6 +34,7 @@ typedef struct PARSER_STRUCT
     Token_T* tok;
     ASTNode_T* cur_block;
     ASTObj_T* cur_obj;
+    ASTType_T* return_type;  // of the function or lambda being parsed
 
     size_t cur_lambda_id;
     size_t cur_tuple_id;
@@ -1032,6 +1033,18 @@ List_T* parse_argument_list(Parser_T* p, TokenType_T end_tok, ASTIdentifier_T**
 
 static ASTNode_T* parse_stmt(Parser_T* p, bool needs_semicolon);
 
+// statements in lambdas return to the caller of the lambda
+static ASTNode_T* parse_lambda_body(Parser_T* p, ASTType_T* return_type)
+{
+    ASTType_T* last_return_type = p->return_type;
+    p->return_type = return_type;
+
+    ASTNode_T* body = parse_stmt(p, false);
+
+    p->return_type = last_return_type;
+    return body;
+}
+
 static ASTObj_T* parse_fn_def(Parser_T* p)
 {
     ASTObj_T* fn = init_ast_obj(&p->context->raw_allocator, OBJ_FUNCTION, p->tok);
@@ -1103,7 +1116,9 @@ static ASTObj_T* parse_fn(Parser_T* p)
     ASTObj_T* fn = parse_fn_def(p);
 
     ASTObj_T* last_obj = p->cur_obj;
+    ASTType_T* last_return_type = p->return_type;
     p->cur_obj = fn;
+    p->return_type = fn->return_type;
     
     if(tok_is_operator(p, "="))
     {
@@ -1121,6 +1136,7 @@ static ASTObj_T* parse_fn(Parser_T* p)
     collect_locals(fn->body, fn->objs);
 
     p->cur_obj = last_obj;
+    p->return_type = last_return_type;
     
     return fn;
 }
@@ -1291,7 +1307,7 @@ static ASTNode_T* parse_return(Parser_T* p, bool needs_semicolon)
 
     if(!tok_is(p, TOKEN_SEMICOLON) && !tok_is(p, TOKEN_UNLESS) && !tok_is(p, TOKEN_WHILE))
     {
-        if((p->cur_obj && p->cur_obj->return_type->kind == TY_VOID))
+        if(p->return_type && p->return_type->kind == TY_VOID)
             throw_error(p->context, ERR_TYPE_ERROR_UNCR, ret->tok, "cannot return value from function with type `void`, expect `;`");
         ret->return_val = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
     }
@@ -2170,7 +2186,7 @@ static ASTNode_T* parse_lambda_lit(Parser_T* p)
     else
     {
         parser_consume(p, TOKEN_ARROW, "expect `=>` after definition");
-        lambda->body = parse_stmt(p, false);
+        lambda->body = parse_lambda_body(p, lambda->data_type->base);
     }
 
     return lambda;
@@ -2245,7 +2261,7 @@ static ASTNode_T* parse_const_lambda(Parser_T* p)
     else
     {
         parser_consume(p, TOKEN_ARROW, "expect `=>` after definition");
-        lambda_fn->body = parse_stmt(p, false);
+        lambda_fn->body = parse_lambda_body(p, lambda_fn->return_type);
     }
 
     collect_locals(lambda_fn->body, lambda_fn->objs);
-- 
2.43.0


From 657348a99844384963d9b0381185c35bd6144c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 094/139] fix: struct literal type errors named an empty type

---
 src/compiler/parser/typechecker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 28c76a4..90fa6d3 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -406,7 +406,7 @@ static void typecheck_struct_lit(ASTNode_T* s_lit, va_list args)
 
             throw_error(t->context, ERR_TYPE_ERROR_UNCR, arg->tok, "cannot implicitly cast from `%s` to `%s`",
                 ast_type_to_str(t->context, buf1, arg->data_type, BUFSIZ),
-                buf2[0] == '\0' ? buf2 : ast_type_to_str(t->context, buf2, expected_ty, BUFSIZ)
+                ast_type_to_str(t->context, buf2, expected_ty, BUFSIZ)
             );
         }
     }
-- 
2.43.0


From 151c5bf011e50d0672f0776e59db74e9e0ffe7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 095/139] fix: break and continue were accepted outside of
 loops and in lambdas and deferred statements

---
 src/compiler/parser/validator.c | 92 +++++++++++++++++++++++++++++++++
 src/compiler/parser/validator.h |  4 ++
 2 files changed, 96 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 05d7f4b..3bb515b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -46,6 +46,7 @@ static void scope_register_obj(Validator_T* v, ASTObj_T* obj);
 static IdentResolveResult_T scope_resolve_ident(Validator_T* v, Scope_T* scope, ASTIdentifier_T* ident);
 
 static void validate_idents(Validator_T* v);
+static void validate_jumps(Validator_T* v);
 
 static i32 get_type_size(Validator_T* v, ASTType_T* type);
 static i32 get_type_align(Validator_T* v, ASTType_T* type);
@@ -62,6 +63,7 @@ static void init_validator(Validator_T* v, Context_T* context, ASTProg_T* ast)
     v->ast = ast;
     v->obj_stack = init_list();
     v->exact_type_info_stack = init_list();
+    v->jump_target_stack = init_list();
     typechecker_init(&v->typechecker, context, ast);
     init_constexpr_resolver(&v->constexpr_resolver, context, ast);
 }
@@ -72,6 +74,7 @@ static void free_validator(Validator_T* v)
     typechecker_free(&v->typechecker);
     free_list(v->obj_stack);
     free_list(v->exact_type_info_stack);
+    free_list(v->jump_target_stack);
 }
 
 void validator_push_obj(Validator_T* v, ASTObj_T* obj)
@@ -141,6 +144,9 @@ i32 validator_pass(Context_T* context, ASTProg_T* ast)
     validate_idents(&v); 
     RETURN_IF_ERRORED(context);
 
+    validate_jumps(&v);
+    RETURN_IF_ERRORED(context);
+
     ResolveQueue_T queue;
     resolve_queue_init(&queue);
     build_resolve_queue(&v, &queue);
@@ -653,6 +659,92 @@ static void validate_idents(Validator_T* v)
     ast_iterate(&iter, v->ast, v);
 }
 
+static void enter_loop(ASTNode_T* loop, va_list args)
+{
+    GET_VALIDATOR(args);
+    v->break_targets++;
+    v->continue_targets++;
+}
+
+static void leave_loop(ASTNode_T* loop, va_list args)
+{
+    GET_VALIDATOR(args);
+    v->break_targets--;
+    v->continue_targets--;
+}
+
+static void enter_match(ASTNode_T* match, va_list args)
+{
+    GET_VALIDATOR(args);
+    v->break_targets++;
+}
+
+static void leave_match(ASTNode_T* match, va_list args)
+{
+    GET_VALIDATOR(args);
+    v->break_targets--;
+}
+
+// the statements in lambdas and deferred ones are executed separately from the ones surrounding them
+static void enter_detached(ASTNode_T* node, va_list args)
+{
+    GET_VALIDATOR(args);
+    list_push(v->jump_target_stack, (void*) v->break_targets);
+    list_push(v->jump_target_stack, (void*) v->continue_targets);
+    v->break_targets = v->continue_targets = 0;
+}
+
+static void leave_detached(ASTNode_T* node, va_list args)
+{
+    GET_VALIDATOR(args);
+    v->continue_targets = (size_t) list_pop(v->jump_target_stack);
+    v->break_targets = (size_t) list_pop(v->jump_target_stack);
+}
+
+static void validate_break(ASTNode_T* node, va_list args)
+{
+    GET_VALIDATOR(args);
+    if(!v->break_targets)
+        throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, node->tok, "unexpected break statement outside of loop");
+}
+
+static void validate_continue(ASTNode_T* node, va_list args)
+{
+    GET_VALIDATOR(args);
+    if(!v->continue_targets)
+        throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, node->tok, "unexpected continue statement outside of loop");
+}
+
+static void validate_jumps(Validator_T* v)
+{
+    static const ASTIteratorList_T iter = {
+        .node_start_fns = {
+            [ND_LOOP] = enter_loop,
+            [ND_WHILE] = enter_loop,
+            [ND_DO_WHILE] = enter_loop,
+            [ND_FOR] = enter_loop,
+            [ND_FOR_RANGE] = enter_loop,
+            [ND_MATCH] = enter_match,
+            [ND_LAMBDA] = enter_detached,
+            [ND_DEFER] = enter_detached,
+            [ND_BREAK] = validate_break,
+            [ND_CONTINUE] = validate_continue,
+        },
+        .node_end_fns = {
+            [ND_LOOP] = leave_loop,
+            [ND_WHILE] = leave_loop,
+            [ND_DO_WHILE] = leave_loop,
+            [ND_FOR] = leave_loop,
+            [ND_FOR_RANGE] = leave_loop,
+            [ND_MATCH] = leave_match,
+            [ND_LAMBDA] = leave_detached,
+            [ND_DEFER] = leave_detached,
+        }
+    };
+
+    ast_iterate(&iter, v->ast, v);
+}
+
 static bool is_number(ASTType_T* type)
 {
     if(!type)
diff --git a/src/compiler/parser/validator.h b/src/compiler/parser/validator.h
index cfb14e7..e9cc7af 100644
--- a/src/compiler/parser/validator.h
+++ b/src/compiler/parser/validator.h
@@ -39,6 +39,10 @@ typedef struct VALIDATOR_STRUCT
     ASTNode_T* current_pipe;
 
     u32 scope_depth;  // depth of the current scope
+
+    size_t break_targets;    // number of surrounding statements `break` can leave
+    size_t continue_targets; // number of surrounding loops `continue` can restart
+    List_T* jump_target_stack;
 } Validator_T;
 
 i32 validator_pass(Context_T* context, ASTProg_T* ast);
-- 
2.43.0


From 7d2a2da43d5f8002006e0ecbc0eef9644dafec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 096/139] fix: embedded structs crashed the compiler

---
 src/compiler/parser/validator.c | 144 +++++++++++++++++++-------------
 1 file changed, 88 insertions(+), 56 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 3bb515b..d3fa4c6 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -47,6 +47,7 @@ static IdentResolveResult_T scope_resolve_ident(Validator_T* v, Scope_T* scope,
 
 static void validate_idents(Validator_T* v);
 static void validate_jumps(Validator_T* v);
+static void resolve_embeds(Validator_T* v);
 
 static i32 get_type_size(Validator_T* v, ASTType_T* type);
 static i32 get_type_align(Validator_T* v, ASTType_T* type);
@@ -145,6 +146,7 @@ i32 validator_pass(Context_T* context, ASTProg_T* ast)
     RETURN_IF_ERRORED(context);
 
     validate_jumps(&v);
+    resolve_embeds(&v);
     RETURN_IF_ERRORED(context);
 
     ResolveQueue_T queue;
@@ -430,7 +432,11 @@ static void enter_type_scope(ASTType_T* type, va_list args)
     case TY_STRUCT:
         begin_scope(v, NULL);
         for(size_t i = 0; i < type->members->size; i++)
-            scope_register_node(v, type->members->items[i]);
+        {
+            ASTNode_T* member = type->members->items[i];
+            if(member->kind != ND_EMBED_STRUCT)
+                scope_register_node(v, member);
+        }
         break;
     default:
         break;
@@ -745,6 +751,87 @@ static void validate_jumps(Validator_T* v)
     ast_iterate(&iter, v->ast, v);
 }
 
+static bool struct_contains_embeds(ASTType_T* struct_type)
+{
+    for(size_t i = 0; i < struct_type->members->size; i++)
+    {
+        ASTNode_T* member = struct_type->members->items[i];
+        if(member->kind == ND_EMBED_STRUCT)
+            return true;
+    }
+    return false;
+}
+
+// replaces `embed` members with the members of the embedded structs
+static void resolve_struct_embeds(Validator_T* v, ASTType_T* struct_type, List_T* embedding)
+{
+    if(!struct_contains_embeds(struct_type))
+        return;
+
+    List_T* members = struct_type->members;
+    List_T* resolved_fields = init_list_sized(members->size);
+    CONTEXT_ALLOC_REGISTER(v->context, resolved_fields);
+
+    list_push(embedding, struct_type);
+    begin_scope(v, NULL);
+    for(size_t i = 0; i < members->size; i++)
+    {
+        ASTNode_T* member = members->items[i];
+        if(member->kind == ND_STRUCT_MEMBER)
+        {
+            scope_register_node(v, member);
+            list_push(resolved_fields, member);
+            continue;
+        }
+
+        ASTType_T* embedded_type = unpack(member->data_type);
+        if(!embedded_type || embedded_type->kind != TY_STRUCT || embedded_type->is_union)
+        {
+            throw_error(v->context, ERR_TYPE_ERROR_UNCR, member->tok, "embedding types is only supported for structs");
+            continue;
+        }
+
+        if(list_contains(embedding, embedded_type))
+        {
+            throw_error(v->context, ERR_TYPE_ERROR_UNCR, member->tok, "struct cannot be embedded in itself");
+            continue;
+        }
+
+        resolve_struct_embeds(v, embedded_type, embedding);
+        for(size_t j = 0; j < embedded_type->members->size; j++)
+        {
+            ASTNode_T* embedded = init_ast_node(&v->context->raw_allocator, ND_STRUCT_MEMBER, member->tok);
+            *embedded = *((ASTNode_T*) embedded_type->members->items[j]);
+
+            scope_register_node(v, embedded);
+            list_push(resolved_fields, embedded);
+        }
+    }
+    end_scope(v);
+    list_pop(embedding);
+
+    struct_type->members = resolved_fields;
+}
+
+static void iter_resolve_struct_embeds(ASTType_T* struct_type, va_list args)
+{
+    GET_VALIDATOR(args);
+    List_T* embedding = init_list();
+    resolve_struct_embeds(v, struct_type, embedding);
+    free_list(embedding);
+}
+
+static void resolve_embeds(Validator_T* v)
+{
+    static const ASTIteratorList_T iter = {
+        .type_fns = {
+            [TY_STRUCT] = iter_resolve_struct_embeds
+        }
+    };
+
+    ast_iterate(&iter, v->ast, v);
+}
+
 static bool is_number(ASTType_T* type)
 {
     if(!type)
@@ -2286,61 +2373,9 @@ static void validate_semantics(Validator_T* v, ResolveQueue_T* queue)
     }
 }
 
-static bool struct_contains_embeds(ASTType_T* struct_type)
-{
-    for(size_t i = 0; i < struct_type->members->size; i++)
-    {
-        ASTNode_T* member = struct_type->members->items[i];
-        if(member->kind == ND_EMBED_STRUCT)
-            return true;
-    }
-    return false;
-}
-
-static void resolve_struct_embeds(Validator_T* v, ASTType_T* struct_type)
-{
-    if(!struct_contains_embeds(struct_type))
-        return;
-
-    List_T* resolved_fields = init_list_sized(struct_type->members->size);
-    CONTEXT_ALLOC_REGISTER(v->context, resolved_fields);
-
-    for(size_t i = 0; i < struct_type->members->size; i++)
-    {
-        ASTNode_T* member = struct_type->members->items[i];
-        switch(member->kind)
-        {
-            case ND_STRUCT_MEMBER:
-                list_push(resolved_fields, member);
-                break;
-            
-            case ND_EMBED_STRUCT:
-            {
-                char buf[BUFSIZ] = {'\0'};
-                
-                ASTType_T* embedded_type = unpack(member->data_type);
-                if(embedded_type->kind != TY_STRUCT)
-                {
-                    throw_error(v->context, ERR_TYPE_ERROR, member->data_type->tok, "embedding types is only supported for structs, got `%s`", ast_type_to_str(v->context, buf, embedded_type, LEN(buf)));
-                    break;
-                }
-
-                resolve_struct_embeds(v, embedded_type);
-                for(size_t i = 0; i < embedded_type->members->size; i++)
-                    list_push(resolved_fields, embedded_type->members->items[i]);
-            } break;
-            default:
-                unreachable();
-        }
-    }
-    struct_type->members = resolved_fields;
-}
-
 static void iter_validate_struct_type(ASTType_T* struct_type, va_list args)
 {
     GET_VALIDATOR(args);
-    resolve_struct_embeds(v, struct_type);
-
     for(size_t i = 0; i < struct_type->members->size; i++)
     {
         ASTNode_T* member = struct_type->members->items[i];
@@ -2352,9 +2387,6 @@ static void iter_validate_struct_type(ASTType_T* struct_type, va_list args)
                 if(expanded->kind == TY_VOID)
                     throw_error(v->context, ERR_TYPE_ERROR_UNCR, member->data_type->tok, "struct member cannot be of type `void`");
 
-                break;
-            case ND_EMBED_STRUCT:
-                unreachable();
                 break;
             default:
                 unreachable();
-- 
2.43.0


From 728b6b3bb92e60565042174ec90e1fcb41ab8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:30 +0000
Subject: [PATCH 097/139] fix: arrays of different lengths or element types
 were taken for the same type

---
 src/compiler/parser/typechecker.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 90fa6d3..93af544 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -618,9 +618,15 @@ bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
     
     switch(a->kind)
     {
+        case TY_ARRAY:
+            return a->num_indices == b->num_indices && types_equal(context, a->base, b->base);
+
         case TY_C_ARRAY:
+            return (a->num_indices == b->num_indices || !a->num_indices || !b->num_indices) && types_equal(context, a->base, b->base);
+
         case TY_DYN:
         case TY_PTR:
+        case TY_VLA:
             return types_equal(context, a->base, b->base);
         
         case TY_STRUCT:
@@ -689,6 +695,14 @@ static bool types_equal_unqualified(Context_T* context, ASTType_T* a, ASTType_T*
     return equal;
 }
 
+// like types_equal_unqualified, but a type and its alias are the same
+static bool types_equal_unpacked(Context_T* context, ASTType_T* a, ASTType_T* b)
+{
+    ASTType_T* ua = unpack(a);
+    ASTType_T* ub = unpack(b);
+    return ua && ub && types_equal_unqualified(context, ua, ub);
+}
+
 ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType_T* from, ASTType_T* to)
 {
     from = unpack(from);
@@ -732,9 +746,11 @@ ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType
     if((from->kind == TY_PTR || from->kind == TY_C_ARRAY) && to->kind == TY_PTR)
         return CAST_OK;
     if(from->kind == TY_ARRAY && to->kind == TY_VLA)
-        return CAST_OK;
+        return types_equal_unpacked(t->context, from->base, to->base) ? CAST_OK : CAST_ERR;
     if(from->kind == TY_PTR && unpack(from->base)->kind == TY_ARRAY && to->kind == TY_VLA)
-        return types_equal(t->context, unpack(from->base)->base, to->base) ? CAST_OK : CAST_ERR;
+        return types_equal_unpacked(t->context, unpack(from->base)->base, to->base) ? CAST_OK : CAST_ERR;
+    if(from->kind == TY_ARRAY && to->kind == TY_ARRAY)
+        return from->num_indices == to->num_indices && types_equal_unpacked(t->context, from->base, to->base) ? CAST_OK : CAST_ERR;
     if((from->kind == TY_STRUCT && to->kind == TY_STRUCT) || (from->kind == TY_FN && to->kind == TY_FN))
         return types_equal_unqualified(t->context, from, to) ? CAST_OK : CAST_ERR;
     return CAST_ERR;
-- 
2.43.0


From cd0982afc94b854cb4591a914d81073924127cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:30 +0000
Subject: [PATCH 098/139] fix: slice variables and members were read and
 written at the address of their elements

---
 src/compiler/codegen/asm/asm_codegen.c | 13 +++++--------
 src/compiler/parser/typechecker.c      | 19 ++++++++++++++++++-
 src/std/testing.csp                    | 18 +++++++++---------
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 655117e..2276a8a 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1054,12 +1054,6 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
             if(!node->data_type)
                 node->data_type = node->referenced_obj->data_type;
 
-            if(unpack(node->data_type)->kind == TY_VLA)
-            {
-                asm_println(cg, "  mov %d(%%rbp), %%rax", node->referenced_obj->offset);
-                return;
-            }
-
             switch(node->referenced_obj->kind)
             {
                 case OBJ_FN_ARG:
@@ -1411,7 +1405,6 @@ static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty) {
         case TY_STRUCT:
         case TY_DYN:
         case TY_ARRAY:
-        case TY_VLA:
             return;
         case TY_F32:
             asm_println(cg, "  movss (%%rax), %%xmm0");
@@ -1869,11 +1862,15 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                         break;
                     
                     case TY_ARRAY:
-                    case TY_VLA:
                         asm_gen_addr(cg, node->expr);
                         asm_println(cg, "  mov (%%rax), %%rax");
                         break;
                     
+                    case TY_VLA:
+                        asm_gen_expr(cg, node->expr);
+                        asm_println(cg, "  mov (%%rax), %%rax");
+                        break;
+                    
                     case TY_PTR:
                         if(unpack(ty->base)->kind == TY_CHAR)
                         {
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 93af544..6d5f2ee 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -773,14 +773,31 @@ ASTNode_T* implicit_cast(TypeChecker_T* t, Token_T* tok, ASTNode_T* expr, ASTTyp
         return cast;
     }
 
-    if(unpack(expr->data_type)->kind == TY_ARRAY && to->kind == TY_VLA)
+    if(unpack(expr->data_type)->kind == TY_ARRAY && unpack(to)->kind == TY_VLA)
     {
+        // array literals need some place to live in
+        if(expr->kind == ND_ARRAY && !expr->buffer && t->context->ct == CT_ASM && t->current_fn)
+        {
+            expr->is_assigning = false;
+            expr->buffer = init_ast_obj(&t->context->raw_allocator, OBJ_LOCAL, expr->tok);
+            expr->buffer->data_type = expr->data_type;
+            list_push(t->current_fn->objs, expr->buffer);
+        }
+
         ASTNode_T* ref = init_ast_node(&t->context->raw_allocator, ND_REF, tok);
         ref->data_type = to;
         ref->right = expr;
         return ref;
     }
 
+    // arrays of the same layout do not need any conversion
+    if(unpack(expr->data_type)->kind == TY_ARRAY && unpack(to)->kind == TY_ARRAY)
+        return expr;
+
+    // struct literals get built directly at their destination
+    if(expr->kind == ND_STRUCT && unpack(to)->kind == TY_STRUCT)
+        return expr;
+
     ASTNode_T* cast = init_ast_node(&t->context->raw_allocator, ND_CAST, tok);
     cast->data_type = to;
     cast->left = expr;
diff --git a/src/std/testing.csp b/src/std/testing.csp
index 145307d..9fa44db 100644
--- a/src/std/testing.csp
+++ b/src/std/testing.csp
@@ -15,7 +15,7 @@ import "process.csp";
 
 namespace std {
     type Testing: struct {
-        tests: &(testing::Test[]),
+        tests: testing::Test[],
         current: u64,
         errors: i32,
         skipped: u64,
@@ -35,7 +35,7 @@ namespace std {
 
         fn new(tests: Test[]): Testing {
             <- Testing::{
-                &tests
+                tests
             };
         }
 
@@ -45,12 +45,12 @@ namespace std {
                 <- TestExit::FAIL;
             } unless t && t.tests;
 
-            if idx >= len *t.tests {
+            if idx >= len t.tests {
                 error::new(Errno::INDEXOUTOFBOUNDS, "idx bigger than t.tests array");
                 <- TestExit::FAIL;
             }
 
-            let test = (*t.tests)[idx];
+            let test = t.tests[idx];
             do {
                 error::new(Errno::NILPTR, "t.tests[idx] is nil");
                 <- TestExit::FAIL;
@@ -59,7 +59,7 @@ namespace std {
             t.errors = 0;
             t.current = idx;
 
-            io::printf("Running test %l/%l: `%s`", idx + 1, len *t.tests, test.desc);
+            io::printf("Running test %l/%l: `%s`", idx + 1, len t.tests, test.desc);
 
             using process;
             let pid = fork();
@@ -132,7 +132,7 @@ namespace std {
             t.skipped = 0;
             t.failed = 0;
 
-            for let i: u64 = 0; i < len *t.tests; i++; {
+            for let i: u64 = 0; i < len t.tests; i++; {
                 match run(t, i) {
                     TestExit::OK => t.successful++;
                     TestExit::SKIP => t.skipped++;
@@ -141,7 +141,7 @@ namespace std {
                 }
             }
 
-            let total = len *t.tests;
+            let total = len t.tests;
 
             using io::color;
             if t.successful == total {
@@ -167,7 +167,7 @@ namespace std {
 
             using io::color;
             do {
-                io::eprintf("\n    %sTest `%s` (%l): assertion failed: ", &RED[0], (*t.tests)[t.current].desc, t.current + 1);
+                io::eprintf("\n    %sTest `%s` (%l): assertion failed: ", &RED[0], t.tests[t.current].desc, t.current + 1);
                 io::vfprintf(stderr!, error_msg, va_list);
                 io::eprintf(&RESET[0]);
                 t.errors++;
@@ -190,7 +190,7 @@ namespace std {
 
             using io::color;
             do {
-                io::eprintf("\n    %sTest `%s` (%l): fatal assertion failed: ", &RED[0], (*t.tests)[t.current].desc, t.current + 1);
+                io::eprintf("\n    %sTest `%s` (%l): fatal assertion failed: ", &RED[0], t.tests[t.current].desc, t.current + 1);
                 io::vfprintf(stderr!, error_msg, &args);
                 io::eprintf(&RESET[0]);
                 t.errors++;
-- 
2.43.0


From 8d7f551e0d165a85599ed87b4e17755120bdc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 099/139] fix: conditions, comparisons, increments and
 references were accepted for operands they are not defined for

---
 src/compiler/parser/validator.c | 74 +++++++++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index d3fa4c6..6db3424 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1337,6 +1337,8 @@ static void iter_leave_block(ASTNode_T* block, va_list args)
     for(size_t i = 0; i < block->locals->size; i++)
     {
         ASTObj_T* var = block->locals->items[i];
+        if(var->data_type && unpack(var->data_type) && unpack(var->data_type)->kind == TY_VOID)
+            throw_error(v->context, ERR_TYPE_ERROR_UNCR, var->tok, "`void` type is not allowed for variables");
         if(!var->referenced && !v->current_obj->ignore_unused)
             throw_error(v->context, ERR_UNUSED, var->tok, "unused local variable `%s`", var->id->callee);
     }
@@ -1532,6 +1534,25 @@ static void iter_validate_identifier(ASTNode_T* id, va_list args)
     id->data_type = id->referenced_obj->data_type;
 }
 
+// structs and `void` have no truth value and cannot be compared
+static void expect_scalar(Validator_T* v, ASTNode_T* expr)
+{
+    ASTType_T* type = expr && expr->data_type ? unpack(expr->data_type) : NULL;
+    if(!type || (type->kind != TY_STRUCT && type->kind != TY_VOID))
+        return;
+
+    char buf[BUFSIZ] = {'\0'};
+    throw_error(v->context, ERR_TYPE_ERROR_UNCR, expr->tok, "expect a number, bool or pointer, got `%s`", ast_type_to_str(v->context, buf, expr->data_type, LEN(buf)));
+}
+
+static void iter_validate_condition(ASTNode_T* stmt, va_list args)
+{
+    GET_VALIDATOR(args);
+    expect_scalar(v, stmt->condition);
+}
+
+static ASTNode_T* expand_closure(ASTNode_T* cl);
+
 static void iter_validate_closure(ASTNode_T* closure, va_list args)
 {
     closure->data_type = ((ASTNode_T*) closure->exprs->items[closure->exprs->size - 1])->data_type;
@@ -1540,6 +1561,28 @@ static void iter_validate_closure(ASTNode_T* closure, va_list args)
 static void iter_validate_reference(ASTNode_T* ref, va_list args)
 {
     GET_VALIDATOR(args);
+
+    // values that are the result of some calculation have no address
+    ASTNode_T* target = expand_closure(ref->right);
+    switch(target->kind)
+    {
+        case ND_ID:
+        case ND_MEMBER:
+        case ND_INDEX:
+        case ND_DEREF:
+        case ND_CALL:
+        case ND_HOLE:
+        case ND_TERNARY:
+        case ND_ELSE_EXPR:
+        case ND_LAMBDA:
+        case ND_ARRAY:
+        case ND_STRUCT:
+        case ND_CAST:
+            break;
+        default:
+            throw_error(v->context, ERR_MISC, ref->tok, "cannot get the address of `%s`", target->tok->value);
+    }
+
     if(!ref->data_type)
     {
         ref->data_type = init_ast_type(&v->context->raw_allocator, TY_PTR, ref->tok);
@@ -1708,11 +1751,16 @@ static void iter_validate_bitwise_negation(ASTNode_T* neg, va_list args)
 
 static void iter_validate_not(ASTNode_T* not, va_list args)
 {
+    GET_VALIDATOR(args);
+    expect_scalar(v, not->right);
     not->data_type = (ASTType_T*) primitives[TY_BOOL];
 }
 
 static void iter_validate_equals(ASTNode_T* equals, va_list args)
 {
+    GET_VALIDATOR(args);
+    expect_scalar(v, equals->left);
+    expect_scalar(v, equals->right);
     equals->data_type = (ASTType_T*) primitives[TY_BOOL];
 }
 
@@ -1737,6 +1785,9 @@ static void iter_validate_lt_gt(ASTNode_T* op, va_list args)
 
 static void iter_validate_and_or(ASTNode_T* op, va_list args)
 {
+    GET_VALIDATOR(args);
+    expect_scalar(v, op->left);
+    expect_scalar(v, op->right);
     op->data_type = (ASTType_T*) primitives[TY_BOOL];
 }
 
@@ -1780,6 +1831,23 @@ static void iter_validate_inc_dec(ASTNode_T* op, va_list args)
         return;
     }
 
+    // only variables and the like can be changed
+    ASTNode_T* target = expand_closure(op->left);
+    switch(target->kind)
+    {
+        case ND_MEMBER:
+        case ND_INDEX:
+        case ND_DEREF:
+        case ND_CAST:
+            break;
+        case ND_ID:
+            if(!target->referenced_obj || target->referenced_obj->kind == OBJ_GLOBAL || target->referenced_obj->kind == OBJ_LOCAL || target->referenced_obj->kind == OBJ_FN_ARG)
+                break;
+            // fall through
+        default:
+            throw_error(v->context, ERR_MISC, op->tok, "cannot change the value of `%s`", target->tok->value);
+    }
+
     mark_changed_obj(op->left);
     op->data_type = op->left->data_type;
 }
@@ -2291,6 +2359,12 @@ static void validate_obj_deep(Validator_T* v, ASTObj_T* obj)
         .node_end_fns = {
             [ND_BLOCK] = iter_leave_block,
             [ND_RETURN] = iter_validate_return,
+            [ND_IF] = iter_validate_condition,
+            [ND_WHILE] = iter_validate_condition,
+            [ND_DO_WHILE] = iter_validate_condition,
+            [ND_DO_UNLESS] = iter_validate_condition,
+            [ND_FOR] = iter_validate_condition,
+            [ND_MATCH] = iter_validate_condition,
             [ND_FOR_RANGE] = iter_validate_for_range,
             [ND_MATCH_TYPE] = iter_validate_match_type,
             [ND_WITH] = iter_validate_with,
-- 
2.43.0


From eb1e08c13360d16ed0760a1d65973a4b4acc8e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 100/139] fix: constness of one variable spread to others of
 the same type

---
 src/compiler/parser/typechecker.c | 19 ++++++++++++++++---
 src/compiler/parser/validator.c   | 21 ++++++++-------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 6d5f2ee..a2fce73 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -179,13 +179,26 @@ static void typecheck_for_range(ASTNode_T* loop, va_list args)
     loop->right = implicit_cast(t, loop->right->tok, loop->right, (ASTType_T*) primitives[TY_I64], CAST_OK);
 }
 
+// values of constant types and constant objects must not be changed
+static bool is_constant_target(ASTNode_T* target)
+{
+    while(target->kind == ND_CLOSURE)
+        target = list_last(target->exprs);
+
+    ASTObj_T* obj = target->kind == ND_ID ? target->referenced_obj : NULL;
+    if(obj && obj->is_constant && (obj->kind == OBJ_GLOBAL || obj->kind == OBJ_LOCAL || obj->kind == OBJ_FN_ARG))
+        return true;
+
+    return target->data_type->is_constant || unpack(target->data_type)->is_constant;
+}
+
 static void typecheck_assignment(ASTNode_T* assignment, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf1[BUFSIZ] = {'\0'};
     char buf2[BUFSIZ] = {'\0'};
 
-    if(unpack(assignment->left->data_type)->is_constant && !assignment->is_initializing)
+    if(!assignment->is_initializing && is_constant_target(assignment->left))
         throw_error(t->context, 
             ERR_TYPE_ERROR_UNCR, 
             assignment->tok, 
@@ -416,7 +429,7 @@ static void typecheck_inc(ASTNode_T* inc, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf[BUFSIZ] = {'\0'};
-    if(unpack(inc->data_type)->is_constant)
+    if(is_constant_target(inc->left))
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, inc->tok, "cannot increment constant type `%s`", ast_type_to_str(t->context, buf, inc->data_type, LEN(buf)));
 }
 
@@ -424,7 +437,7 @@ static void typecheck_dec(ASTNode_T* dec, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf[BUFSIZ] = {'\0'};
-    if(unpack(dec->data_type)->is_constant)
+    if(is_constant_target(dec->left))
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, dec->tok, "cannot decrement constant type `%s`", ast_type_to_str(t->context, buf, dec->data_type, LEN(buf)));
 }
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 6db3424..03f6a2b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1810,17 +1810,6 @@ static void iter_validate_bitwise_op(ASTNode_T* op, va_list args)
     op->data_type = op->right->data_type->size > op->left->data_type->size ? op->right->data_type : op->left->data_type;
 }
 
-static ASTNode_T* expand_closure(ASTNode_T* cl);
-
-// constant objects have constant types once something tries to change them
-static void mark_changed_obj(ASTNode_T* target)
-{
-    ASTNode_T* id = expand_closure(target);
-    ASTObj_T* obj = id->kind == ND_ID ? id->referenced_obj : NULL;
-    if(obj && obj->is_constant && obj->data_type && (obj->kind == OBJ_GLOBAL || obj->kind == OBJ_LOCAL || obj->kind == OBJ_FN_ARG))
-        obj->data_type->is_constant = true;
-}
-
 static void iter_validate_inc_dec(ASTNode_T* op, va_list args)
 {
     GET_VALIDATOR(args);
@@ -1848,7 +1837,6 @@ static void iter_validate_inc_dec(ASTNode_T* op, va_list args)
             throw_error(v->context, ERR_MISC, op->tok, "cannot change the value of `%s`", target->tok->value);
     }
 
-    mark_changed_obj(op->left);
     op->data_type = op->left->data_type;
 }
 
@@ -1911,6 +1899,14 @@ static void local_initializer(Validator_T* v, ASTNode_T* assign, ASTObj_T* local
     
     if(local->data_type->is_constant)
         local->is_constant = true;
+    else if(local->is_constant)
+    {
+        // the type may be shared with other objects which are not constant
+        ASTType_T* constant = init_ast_type(&v->context->raw_allocator, local->data_type->kind, local->data_type->tok);
+        *constant = *local->data_type;
+        constant->is_constant = true;
+        local->data_type = constant;
+    }
     
     assign->left->data_type = local->data_type;
     local->data_type->size = get_type_size(v, local->data_type);
@@ -1952,7 +1948,6 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
                 case OBJ_FN_ARG:
                     //if(assigned_obj->is_constant)
                     //    throw_error(v->context, ERR_CONST_ASSIGN, assigned_obj->tok, "cannot assign a value to constant %s `%s`", obj_kind_to_str(assigned_obj->kind), assigned_obj->id->callee);
-                    mark_changed_obj(assign->left);
                     break;
 
                 case OBJ_FUNCTION:
-- 
2.43.0


From fd15f83b0a38be2be5cbb35ff6b4cfd3809272bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 101/139] fix: array literals were not converted to the
 declared element type

---
 src/compiler/parser/typechecker.c | 65 +++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index a2fce73..35eb4b4 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -25,6 +25,9 @@ static void set_fn(ASTObj_T* fn, va_list args);
 static void unset_fn(ASTObj_T* fn, va_list args);
 
 static ASTNode_T* typecheck_arg_pass(TypeChecker_T* t, ASTType_T* expected, ASTNode_T* received);
+static void adapt_assigned_array_lit(ASTNode_T* assignment, va_list args);
+static void adapt_array_lit_args(ASTNode_T* call, va_list args);
+static void adapt_array_lit_members(ASTNode_T* s_lit, va_list args);
 static void typecheck_call(ASTNode_T* call, va_list args);
 static void typecheck_explicit_cast(ASTNode_T* cast, va_list args);
 static void typecheck_assignment(ASTNode_T* assignment, va_list args);
@@ -53,6 +56,9 @@ static const ASTIteratorList_T iterator = {
     },
     .node_start_fns = {
         [ND_LAMBDA] = typecheck_lambda_entry,
+        [ND_ASSIGN] = adapt_assigned_array_lit,
+        [ND_CALL] = adapt_array_lit_args,
+        [ND_STRUCT] = adapt_array_lit_members,
     },
     .node_end_fns = {
         [ND_CALL] = typecheck_call,
@@ -179,6 +185,65 @@ static void typecheck_for_range(ASTNode_T* loop, va_list args)
     loop->right = implicit_cast(t, loop->right->tok, loop->right, (ASTType_T*) primitives[TY_I64], CAST_OK);
 }
 
+// the elements of array literals are converted to the element type of the array they are used for
+static void adapt_array_lit(TypeChecker_T* t, ASTNode_T* expr, ASTType_T* expected)
+{
+    while(expr->kind == ND_CLOSURE)
+        expr = list_last(expr->exprs);
+
+    expected = unpack(expected);
+    if(expr->kind != ND_ARRAY || !expected || (expected->kind != TY_ARRAY && expected->kind != TY_VLA))
+        return;
+
+    ASTType_T* base = unpack(expected->base);
+    if(!base || types_equal(t->context, expr->data_type->base, expected->base))
+        return;
+
+    for(size_t i = 0; i < expr->args->size; i++)
+    {
+        ASTNode_T* arg = expr->args->items[i];
+        if(arg->unpack_mode || (!is_numeric(base) && arg->kind != ND_ARRAY))
+            return;
+        adapt_array_lit(t, arg, base);
+        if(!types_equal(t->context, arg->data_type, expected->base) && implicitly_castable(t, arg->tok, arg->data_type, base) != CAST_OK)
+            return;
+    }
+
+    for(size_t i = 0; i < expr->args->size; i++)
+    {
+        ASTNode_T* arg = expr->args->items[i];
+        if(!types_equal(t->context, arg->data_type, expected->base))
+            expr->args->items[i] = implicit_cast(t, arg->tok, arg, expected->base, CAST_OK);
+    }
+
+    expr->data_type->base = expected->base;
+    expr->data_type->size = expected->base->size * expr->data_type->num_indices + PTR_S;
+}
+
+static void adapt_assigned_array_lit(ASTNode_T* assignment, va_list args)
+{
+    GET_TYPECHECKER(args);
+    adapt_array_lit(t, assignment->right, assignment->left->data_type);
+}
+
+static void adapt_array_lit_args(ASTNode_T* call, va_list args)
+{
+    GET_TYPECHECKER(args);
+    List_T* arg_types = unpack(call->expr->data_type)->arg_types;
+
+    for(size_t i = 0; i < MIN(arg_types->size, call->args->size); i++)
+        adapt_array_lit(t, call->args->items[i], arg_types->items[i]);
+}
+
+static void adapt_array_lit_members(ASTNode_T* s_lit, va_list args)
+{
+    GET_TYPECHECKER(args);
+    List_T* members = unpack(s_lit->data_type)->members;
+
+    for(size_t i = 0; i < MIN(members->size, s_lit->args->size); i++)
+        adapt_array_lit(t, s_lit->args->items[i], ((ASTNode_T*) members->items[i])->data_type);
+}
+
 // values of constant types and constant objects must not be changed
 static bool is_constant_target(ASTNode_T* target)
 {
-- 
2.43.0


From da6474baccb39c37e9ce491171bcf57616345c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 102/139] fix: initializers of globals were not checked against
 the type of the global

---
 src/compiler/parser/typechecker.c | 41 ++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 35eb4b4..cf4e7de 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -30,6 +30,7 @@ static void adapt_array_lit_args(ASTNode_T* call, va_list args);
 static void adapt_array_lit_members(ASTNode_T* s_lit, va_list args);
 static void typecheck_call(ASTNode_T* call, va_list args);
 static void typecheck_explicit_cast(ASTNode_T* cast, va_list args);
+static void typecheck_global(ASTObj_T* global, va_list args);
 static void typecheck_assignment(ASTNode_T* assignment, va_list args);
 static void typecheck_array_lit(ASTNode_T* a_lit, va_list args);
 static void typecheck_struct_lit(ASTNode_T* a_lit, va_list args);
@@ -52,7 +53,8 @@ static const ASTIteratorList_T iterator = {
         [OBJ_FUNCTION] = set_fn
     },
     .obj_end_fns = {
-        [OBJ_FUNCTION] = unset_fn
+        [OBJ_FUNCTION] = unset_fn,
+        [OBJ_GLOBAL] = typecheck_global
     },
     .node_start_fns = {
         [ND_LAMBDA] = typecheck_lambda_entry,
@@ -257,6 +259,43 @@ static bool is_constant_target(ASTNode_T* target)
     return target->data_type->is_constant || unpack(target->data_type)->is_constant;
 }
 
+// initializers of globals are constants, which are stored as values of the type of the global
+static bool is_global_initializer(TypeChecker_T* t, ASTNode_T* value, ASTType_T* type)
+{
+    if(types_equal(t->context, type, value->data_type))
+        return true;
+
+    ASTType_T* from = unpack(value->data_type);
+    ASTType_T* to = unpack(type);
+    if(from->kind == TY_ARRAY && (to->kind == TY_ARRAY || to->kind == TY_VLA))
+    {
+        if(value->kind != ND_ARRAY || (to->kind == TY_ARRAY && from->num_indices != to->num_indices))
+            return false;
+
+        for(size_t i = 0; i < value->args->size; i++)
+            if(!is_global_initializer(t, value->args->items[i], to->base))
+                return false;
+        return true;
+    }
+
+    return !(implicitly_castable(t, value->tok, value->data_type, type) & CAST_ERR);
+}
+
+static void typecheck_global(ASTObj_T* global, va_list args)
+{
+    GET_TYPECHECKER(args);
+
+    if(!global->value || !global->value->data_type || is_global_initializer(t, global->value, global->data_type))
+        return;
+
+    char buf1[BUFSIZ] = {'\0'};
+    char buf2[BUFSIZ] = {'\0'};
+    throw_error(t->context, ERR_TYPE_ERROR_UNCR, global->value->tok, "cannot initialize global variable of type `%s` with a value of type `%s`",
+        ast_type_to_str(t->context, buf2, global->data_type, LEN(buf2)),
+        ast_type_to_str(t->context, buf1, global->value->data_type, LEN(buf1))
+    );
+}
+
 static void typecheck_assignment(ASTNode_T* assignment, va_list args)
 {
     GET_TYPECHECKER(args);
-- 
2.43.0


From 758291fcbd5e92d284fb4362f9689546771377ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:58 +0000
Subject: [PATCH 103/139] fix: arguments of lambdas passed on the stack were
 not found

---
 src/compiler/codegen/asm/asm_codegen.c | 37 +++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 2276a8a..32b8f56 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -3034,14 +3034,45 @@ static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda_obj)
     if(lambda->return_ptr)
         asm_store_gp(cg, gp++, lambda->return_ptr->offset, lambda->return_ptr->data_type->size);
 
+    // lambdas use the frame of the function around them, so arguments passed on the stack are moved there as well;
+    // `used_gp` and `used_fp` count the arguments as `asm_assign_lvar_offsets()` does
+    i32 top = 16, used_gp = gp, used_fp = 0;
+
     for(size_t j = 0; j < lambda->args->size; j++)
     {
         ASTObj_T* arg = lambda->args->items[j];
-        if(arg->offset > 0)
-            continue;
-                        
         ASTType_T* ty = unpack(arg->data_type);
 
+        bool in_regs;
+        switch(ty->kind)
+        {
+            case TY_DYN:
+            case TY_STRUCT:
+                in_regs = asm_take_struct_regs(ty, &used_gp, &used_fp);
+                break;
+            case TY_F32:
+            case TY_F64:
+                in_regs = used_fp++ < ASM_FP_MAX;
+                break;
+            case TY_F80:
+                in_regs = false;
+                break;
+            default:
+                in_regs = used_gp++ < ASM_GP_MAX;
+        }
+
+        if(!in_regs)
+        {
+            top = align_to(top, 8);
+            for(i32 k = 0; k < ty->size; k++)
+            {
+                asm_println(cg, "  mov %d(%%rsp), %%r10b", top + k);
+                asm_println(cg, "  mov %%r10b, %d(%%rbp)", arg->offset + k);
+            }
+            top += ty->size;
+            continue;
+        }
+
         switch(ty->kind)
         {
             case TY_DYN:
-- 
2.43.0


From 8ac7d6f69153acae71e89757cd2e7338f4c6aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:58 +0000
Subject: [PATCH 104/139] fix: calls through dyn objects passed the address of
 the object, dyn results and assignments were not copied

---
 src/compiler/codegen/asm/asm_codegen.c | 4 +++-
 src/compiler/parser/validator.c        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 32b8f56..9541554 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1367,6 +1367,7 @@ static void asm_store(ASMCodegenData_T* cg, ASTType_T *ty) {
 
     switch (ty->kind) {
         case TY_STRUCT:
+        case TY_DYN:
         case TY_ARRAY:
         case TY_C_ARRAY:
             for(i32 i = 0; i < ty->size; i++) {
@@ -2163,8 +2164,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         } return;
 
         case ND_DYNUNCAST:
+            // the data pointer is the first member
             asm_gen_addr(cg, node->left);
-            //asm_println(cg, "  add $%ld, %%rax", PTR_S);
+            asm_println(cg, "  mov (%%rax), %%rax");
             return;
 
         case ND_NOT:
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 03f6a2b..4ca1c93 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1489,7 +1489,7 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
     }
 
     // if we compile using the assembly compiler, a buffer for the return value is needed when handling big structs
-    if(v->context->ct == CT_ASM && call->data_type && unpack(call->data_type)->kind == TY_STRUCT)
+    if(v->context->ct == CT_ASM && call->data_type && (unpack(call->data_type)->kind == TY_STRUCT || unpack(call->data_type)->kind == TY_DYN))
     {
         ASTObj_T* ret_buf = init_ast_obj(&v->context->raw_allocator, OBJ_LOCAL, call->tok);
         ret_buf->data_type = call->data_type;
-- 
2.43.0


From 1b5f9ede5bdbfcca3f0dd8f7f28ecc2fc5c8cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:58 +0000
Subject: [PATCH 105/139] fix: lambdas returning big structs crashed the
 compiler, nested calls of a function changed the frame of its lambdas

---
 src/compiler/ast/ast.h                 |  2 ++
 src/compiler/codegen/asm/asm_codegen.c | 20 ++++++++++++++++++++
 src/compiler/parser/validator.c        | 19 ++++++++++++++++++-
 3 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ast/ast.h b/src/compiler/ast/ast.h
index 6066037..c8a5431 100644
--- a/src/compiler/ast/ast.h
+++ b/src/compiler/ast/ast.h
@@ -264,6 +264,8 @@ struct AST_OBJ_STRUCT
     const char* exported;
 
     ASTObj_T* enum_def; // type definition an enum member belongs to
+    List_T* lambdas;    // functions, frame pointer variables of the lambdas in it
+    ASTObj_T* saved;    // frame pointer variable of a lambda, local keeping the value of an outer call
 } __attribute__((packed));
 
 typedef struct AST_EXIT_FN_HANDLE_STRUCT
diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 9541554..e4fb878 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -847,6 +847,14 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
         }
     }
 
+    // nested calls of this function must not change the frame the lambdas of this call use
+    for(size_t j = 0; obj->lambdas && j < obj->lambdas->size; j++)
+    {
+        ASTObj_T* stack_ptr = obj->lambdas->items[j];
+        asm_println(cg, "  mov %s, %%r10", asm_gen_identifier(cg->context, stack_ptr->id));
+        asm_println(cg, "  mov %%r10, %d(%%rbp)", stack_ptr->saved->offset);
+    }
+
     // emit code
     cg->current_fn_name = fn_name;
     asm_gen_stmt(cg, obj->body);
@@ -859,6 +867,16 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
     // epilogue
     asm_println(cg, ".L.return.%s:", fn_name);
     asm_gen_defer(cg, obj->deferred);
+
+    for(size_t j = 0; obj->lambdas && j < obj->lambdas->size; j++)
+    {
+        // the outermost call leaves it, lambdas which do not use locals may be called later on
+        ASTObj_T* stack_ptr = obj->lambdas->items[j];
+        asm_println(cg, "  mov %d(%%rbp), %%r10", stack_ptr->saved->offset);
+        asm_println(cg, "  test %%r10, %%r10");
+        asm_println(cg, "  cmovz %s, %%r10", asm_gen_identifier(cg->context, stack_ptr->id));
+        asm_println(cg, "  mov %%r10, %s", asm_gen_identifier(cg->context, stack_ptr->id));
+    }
     asm_println(cg, "  mov %%rbp, %%rsp");
     asm_println(cg, "  pop %%rbp");
     asm_println(cg, "  ret");
@@ -2128,6 +2146,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 ASTObj_T* impl = init_ast_obj(&cg->context->raw_allocator, OBJ_LAMBDA, node->tok);
                 impl->body = node;
+                impl->return_type = node->data_type->base;
+                impl->return_ptr = node->return_ptr;
                 list_push(cg->ast->objs, impl);
             } return;
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 4ca1c93..62f4924 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2164,16 +2164,33 @@ static void iter_leave_lambda(ASTNode_T* lambda, va_list args)
     list_push(v->ast->objs, lambda_stack_ptr);
     lambda->stack_ptr = lambda_stack_ptr;
 
+    // calls of the function the lambda is in may be nested, so each has to leave the frame pointer as it found it
+    ASTObj_T* fn = in_function(v);
+    if(fn)
+    {
+        lambda_stack_ptr->saved = init_ast_obj(&v->context->raw_allocator, OBJ_LOCAL, lambda->tok);
+        lambda_stack_ptr->saved->data_type = (ASTType_T*) void_ptr_type;
+        list_push(fn->objs, lambda_stack_ptr->saved);
+
+        if(!fn->lambdas)
+        {
+            fn->lambdas = init_list();
+            CONTEXT_ALLOC_REGISTER(v->context, fn->lambdas);
+        }
+        list_push(fn->lambdas, lambda_stack_ptr);
+    }
+
     ASTType_T* return_type = unpack(lambda->data_type->base);
     if(return_type->kind == TY_C_ARRAY) 
         throw_error(v->context, ERR_TYPE_ERROR_UNCR, return_type->tok ? return_type->tok : lambda->tok, "cannot return an array type from a function");
-    else if(return_type->kind == TY_STRUCT && return_type->size > 16)
+    else if(fn && get_type_size(v, return_type) > 16)
     {
         lambda->return_ptr = init_ast_obj(&v->context->raw_allocator, OBJ_LOCAL, lambda->data_type->base->tok);
         lambda->return_ptr->data_type = init_ast_type(&v->context->raw_allocator, TY_PTR, lambda->data_type->base->tok);
         lambda->return_ptr->data_type->base = lambda->data_type->base;
         lambda->return_ptr->data_type->size = get_type_size(v, lambda->return_ptr->data_type);
         lambda->return_ptr->data_type->align = 8;
+        list_push(fn->objs, lambda->return_ptr);
     }
 }
 
-- 
2.43.0


From 2352c8a91966ff8de057dac260eed45cf73af99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 106/139] fix: implementations differing from their interface
 were accepted or crashed the compiler, dyn objects behind pointers and casts
 were read from the wrong address

---
 src/compiler/codegen/asm/asm_codegen.c |  1 +
 src/compiler/parser/typechecker.c      |  2 +-
 src/compiler/parser/typechecker.h      |  1 +
 src/compiler/parser/validator.c        | 35 +++++++++++++++++++++++---
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index e4fb878..d82ac52 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1134,6 +1134,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
         case ND_LAMBDA:
         case ND_ARRAY:
         case ND_STRUCT:
+        case ND_DYNCAST:
             asm_gen_expr(cg, node);
             return;
         case ND_CAST:
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index cf4e7de..a0dccb4 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -813,7 +813,7 @@ static bool types_equal_unqualified(Context_T* context, ASTType_T* a, ASTType_T*
 }
 
 // like types_equal_unqualified, but a type and its alias are the same
-static bool types_equal_unpacked(Context_T* context, ASTType_T* a, ASTType_T* b)
+bool types_equal_unpacked(Context_T* context, ASTType_T* a, ASTType_T* b)
 {
     ASTType_T* ua = unpack(a);
     ASTType_T* ub = unpack(b);
diff --git a/src/compiler/parser/typechecker.h b/src/compiler/parser/typechecker.h
index 0c5f6d9..c0d266a 100644
--- a/src/compiler/parser/typechecker.h
+++ b/src/compiler/parser/typechecker.h
@@ -27,6 +27,7 @@ void typechecker_free(TypeChecker_T* t);
 void typecheck_obj(TypeChecker_T* t, ASTObj_T* obj);
 
 bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b);
+bool types_equal_unpacked(Context_T* context, ASTType_T* a, ASTType_T* b);
 
 ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType_T* from, ASTType_T* to);
 ASTNode_T* implicit_cast(TypeChecker_T* t, Token_T* tok, ASTNode_T* expr, ASTType_T* to, ImplicitCastResult_T result);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 62f4924..04ad77e 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1094,6 +1094,30 @@ static void validate_dyn_function(Validator_T* v, ASTObj_T* obj)
 
     ASTType_T* impl_base = self_arg_type->base;
 
+    // calls through the interface pass what the interface declares
+    ASTObj_T* decl = NULL;
+    for(size_t i = 0; i < unpack(interface)->func_decls->size && !decl; i++)
+    {
+        ASTObj_T* func_decl = unpack(interface)->func_decls->items[i];
+        if(strcmp(func_decl->id->callee, obj->id->callee) == 0)
+            decl = func_decl;
+    }
+
+    if(!decl) {
+        throw_error(v->context, ERR_TYPE_ERROR_UNCR, obj->tok, "the interface has no function named `%s`", obj->id->callee);
+        return;
+    }
+
+    bool same = decl->args->size == obj->args->size && is_variadic(decl->data_type) == is_variadic(obj->data_type) &&
+        types_equal_unpacked(v->context, decl->return_type, obj->return_type);
+    for(size_t i = 1; same && i < obj->args->size; i++)
+        same = types_equal_unpacked(v->context, ((ASTObj_T*) decl->args->items[i])->data_type, ((ASTObj_T*) obj->args->items[i])->data_type);
+
+    if(!same) {
+        throw_error(v->context, ERR_TYPE_ERROR_UNCR, obj->tok, "the arguments or the return type of `%s` differ from the declaration in the interface", obj->id->callee);
+        return;
+    }
+
     vtable_register(v->context, v->ast, interface, impl_base, obj);
     obj->referenced = true; // referenced by vtable
 }
@@ -1538,7 +1562,7 @@ static void iter_validate_identifier(ASTNode_T* id, va_list args)
 static void expect_scalar(Validator_T* v, ASTNode_T* expr)
 {
     ASTType_T* type = expr && expr->data_type ? unpack(expr->data_type) : NULL;
-    if(!type || (type->kind != TY_STRUCT && type->kind != TY_VOID))
+    if(!type || (type->kind != TY_STRUCT && type->kind != TY_DYN && type->kind != TY_VOID))
         return;
 
     char buf[BUFSIZ] = {'\0'};
@@ -1624,6 +1648,8 @@ static ASTNode_T* find_member_in_struct(Validator_T* v, ASTType_T* type, ASTNode
     type = unpack(type);
     switch(type->kind) {
         case TY_INTERFACE:
+            if(is_ptr)
+                break; // without a vtable there is nothing to call
             for(size_t i = 0; i < type->func_decls->size; i++)
             {
                 ASTObj_T* func_decl = type->func_decls->items[i];
@@ -1680,11 +1706,14 @@ static void iter_validate_member(ASTNode_T* member, va_list args)
     member->data_type = found->data_type;
     member->body = found;
 
-    if(found->kind == ND_STRUCT_MEMBER && is_ptr(member->left->data_type))
+    ASTType_T* left_type = unpack(member->left->data_type);
+    bool is_dyn_ptr = left_type->kind == TY_PTR && unpack(left_type->base)->kind == TY_DYN;
+
+    if((found->kind == ND_STRUCT_MEMBER && is_ptr(member->left->data_type)) || is_dyn_ptr)
     {
         // convert x->y to (*x).y
         ASTNode_T* new_left = init_ast_node(&v->context->raw_allocator, ND_DEREF, member->left->tok);
-        new_left->data_type = member->left->data_type->base;
+        new_left->data_type = left_type->base;
         new_left->right = member->left;
         member->left = new_left;
     }
-- 
2.43.0


From b3f0b2c6247b81e5634f44885cdff3f55f5bec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 107/139] fix: C backend: dyn objects without an initial value
 did not compile

---
 src/compiler/codegen/transpiler/c_codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 85942f5..8a6b6f4 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -209,6 +209,7 @@ static const char* default_type_init[TY_KIND_LEN] = {
     [TY_F80]     = "0.0l",
     [TY_PTR]     = "NULL",
     [TY_VLA]     = "NULL",
+    [TY_DYN]     = "{}",
     [TY_FN]      = "NULL",
     [TY_ARRAY]   = "{0}",
     [TY_C_ARRAY] = "{0}",
-- 
2.43.0


From 2797766b4048aa0f446c035773d7f6213c1a2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 108/139] fix: C backend: closures copied their variables back
 only when reaching their end, could not use arguments, loop variables and
 arrays, passed small and f32 arguments wrongly; functions used as closures
 crashed

---
 src/compiler/codegen/transpiler/c_codegen.c | 281 ++++++++++++++++----
 src/compiler/codegen/transpiler/c_codegen.h |   5 +-
 2 files changed, 232 insertions(+), 54 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 8a6b6f4..cb16d1f 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -232,7 +232,9 @@ void init_c_cg(CCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
     cg->silent = context->flags.silent;
     cg->code_buffer = open_memstream(&cg->buf, &cg->buf_len);
     cg->unique_id = 0;
-    cg->blocks = init_list();
+    cg->lambdas = init_list();
+    cg->lambda_locals = init_list();
+    cg->closures = init_list();
     cg->arrays = hashmap_init();
     cg->anon_structs = hashmap_init();
 }
@@ -240,7 +242,9 @@ void init_c_cg(CCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
 void free_c_cg(CCodegenData_T* cg)
 {
     free(cg->buf);
-    free_list(cg->blocks);
+    free_list(cg->lambdas);
+    free_list(cg->lambda_locals);
+    free_list(cg->closures);
 
     List_T* arrays = hashmap_keys(cg->arrays);
     for(size_t i = 0; i < arrays->size; i++)
@@ -1046,11 +1050,49 @@ static void c_gen_function_definitions(CCodegenData_T* cg, List_T* objs)
     }
 }
 
+// the variables of surrounding functions used in a lambda are accessed through pointers of the same name
+static bool c_is_captured(CCodegenData_T* cg, ASTObj_T* obj)
+{
+    return obj && cg->cur_lambda && list_contains(cg->cur_lambda->ids, obj);
+}
+
+// closures live as long as the call of the function they are created in
+static void c_gen_closure_objs(CCodegenData_T* cg, List_T* closures)
+{
+    for(size_t i = 0; closures && i < closures->size; i++)
+    {
+        ASTNode_T* node = closures->items[i];
+        size_t num_captured = node->kind == ND_LAMBDA ? node->ids->size : 1;
+        if(num_captured)
+            c_println(cg, "void* " UNIQUE_ID_FMT "_env[%zu]; struct _lambda " UNIQUE_ID_FMT "_obj;", node->long_val, num_captured, node->long_val);
+    }
+}
+
+static void c_gen_closure_fn_start(ASTObj_T* fn, va_list custom_args)
+{
+    GET_CG(custom_args);
+    fn->lambdas = init_list();
+    CONTEXT_ALLOC_REGISTER(cg->context, fn->lambdas);
+    list_push(cg->closures, fn->lambdas);
+}
+
+static void c_gen_closure_fn_end(ASTObj_T* fn, va_list custom_args)
+{
+    GET_CG(custom_args);
+    list_pop(cg->closures);
+}
+
 static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
 {
     GET_CG(custom_args);
 
+    list_pop(cg->lambdas);
+    list_pop(cg->lambda_locals);
+    List_T* closures = list_pop(cg->closures);
+
     u64 uid = node->long_val = cg->unique_id++;
+    if(cg->closures->size)
+        list_push(list_last(cg->closures), node);
 
     c_gen_type(cg, node->data_type->base, false);
     c_print(cg, " " UNIQUE_ID_FMT "(void** __args", uid);
@@ -1068,61 +1110,172 @@ static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
     }
     c_println(cg, "){");
 
-    u64 index = 0;
-    for(size_t i = 0; i < cg->blocks->size; i++)
+    for(size_t i = 0; i < node->ids->size; i++)
     {
-        ASTNode_T* block = cg->blocks->items[i];
-        // TODO: check for name collisions
-        for(size_t j = 0; j < block->locals->size; j++)
-        {
-            ASTObj_T* local = block->locals->items[j];
-            c_gen_typed_name(cg, local->id, local->data_type);
-            c_print(cg, "=*((");
-            c_gen_type(cg, local->data_type, true);
-            c_println(cg, "*)__args[%lu]);", index++);
-        }
+        ASTObj_T* local = node->ids->items[i];
+        ASTType_T* ptr_type = init_ast_type(&cg->context->raw_allocator, TY_PTR, local->tok);
+        ptr_type->base = local->data_type;
+        c_gen_typed_name(cg, local->id, ptr_type);
+        c_println(cg, "=__args[%zu];", i);
     }
 
+    c_gen_closure_objs(cg, closures);
+
+    // the names of arguments may be those of captured variables
+    c_println(cg, "{");
+    cg->cur_lambda = node;
     c_gen_stmt(cg, node->body);
+    cg->cur_lambda = NULL;
+    c_println(cg, "}");
+
+    c_println(cg, "}");
+
+    // lambdas not using other variables do not depend on the function creating them
+    if(!node->ids->size)
+        c_println(cg, "static struct _lambda " UNIQUE_ID_FMT "_obj={NULL,(void(*)(void**, ...))" UNIQUE_ID_FMT "};", uid, uid);
+}
 
-    index = 0;
-    for(size_t i = 0; i < cg->blocks->size; i++)
+// plain functions have no environment, so they need a function in between to be used as a closure
+static bool c_is_fn_to_closure(ASTNode_T* cast)
+{
+    ASTType_T* to = unpack(cast->data_type);
+    ASTType_T* from = cast->left->data_type ? unpack(cast->left->data_type) : NULL;
+    return from && from->kind == TY_FN && to->kind == TY_FN && from->is_constant && !to->is_constant;
+}
+
+static bool c_is_fn_name(ASTNode_T* node)
+{
+    return node->kind == ND_ID && node->referenced_obj && node->referenced_obj->kind == OBJ_FUNCTION;
+}
+
+static void c_gen_fn_closure(ASTNode_T* cast, va_list custom_args)
+{
+    GET_CG(custom_args);
+
+    if(!c_is_fn_to_closure(cast))
+        return;
+    if(c_is_fn_name(cast->left) && !cast->left->referenced_obj->is_extern && !should_emit(cg->context, cast->left->referenced_obj))
+        return; // the function using it is not generated either
+
+    u64 uid = cast->long_val = cg->unique_id++;
+    ASTType_T* type = unpack(cast->data_type);
+
+    c_print(cg, "static ");
+    c_gen_type(cg, type->base, false);
+    c_print(cg, " " UNIQUE_ID_FMT "(void** __args", uid);
+    for(size_t i = 0; i < type->arg_types->size; i++)
     {
-        ASTNode_T* block = cg->blocks->items[i];
-        // TODO: check for name collisions
-        for(size_t j = 0; j < block->locals->size; j++)
-        {
-            ASTObj_T* local = block->locals->items[j];
-            c_print(cg, "(*((");
-            c_gen_type(cg, local->data_type, true);
-            c_println(cg, "*)__args[%lu]))=%s;", index++, c_gen_identifier(cg->context, local->id));
-        }
+        char name[64] = {};
+        sprintf(name, "arg%zu", i);
+        c_putc(cg, ',');
+        c_gen_typed_name(cg, init_ast_identifier(&cg->context->raw_allocator, cast->tok, name), type->arg_types->items[i]);
     }
 
-    c_println(cg, "}");
+    c_print(cg, "){%s((", unpack(type->base)->kind == TY_VOID ? "" : "return ");
+    c_gen_type(cg, type->base, false);
+    c_print(cg, "(*)(");
+    for(size_t i = 0; i < type->arg_types->size; i++)
+    {
+        if(i)
+            c_putc(cg, ',');
+        c_gen_type(cg, type->arg_types->items[i], false);
+    }
+    c_print(cg, "%s))__args[0])(", type->arg_types->size ? "" : "void");
+    for(size_t i = 0; i < type->arg_types->size; i++)
+        c_print(cg, "%s__csp_arg%zu", i ? "," : "", i);
+    c_println(cg, ");}");
+
+    if(c_is_fn_name(cast->left))
+    {
+        c_print(cg, "static struct _lambda " UNIQUE_ID_FMT "_obj={(void*[]){(void*)", uid);
+        c_gen_expr(cg, cast->left, true);
+        c_println(cg, "},(void(*)(void**, ...))" UNIQUE_ID_FMT "};", uid);
+    }
+    else if(cg->closures->size)
+        list_push(list_last(cg->closures), cast);
+}
+
+static void c_declare_lambda_locals(CCodegenData_T* cg, List_T* objs)
+{
+    if(!objs || !cg->lambdas->size)
+        return;
+
+    List_T* locals = list_last(cg->lambda_locals);
+    for(size_t i = 0; i < objs->size; i++)
+        list_push(locals, objs->items[i]);
+}
+
+static void c_gen_lambda_start(ASTNode_T* node, va_list custom_args)
+{
+    GET_CG(custom_args);
+
+    node->ids = init_list();
+    CONTEXT_ALLOC_REGISTER(cg->context, node->ids);
+
+    List_T* locals = init_list();
+    CONTEXT_ALLOC_REGISTER(cg->context, locals);
+
+    List_T* closures = init_list();
+    CONTEXT_ALLOC_REGISTER(cg->context, closures);
+
+    list_push(cg->closures, closures);
+    list_push(cg->lambdas, node);
+    list_push(cg->lambda_locals, locals);
+    c_declare_lambda_locals(cg, node->args);
 }
 
-static void c_gen_lambda_block_start(ASTNode_T* node, va_list custom_args)
+static void c_gen_lambda_scope_start(ASTNode_T* node, va_list custom_args)
 {
     GET_CG(custom_args);
-    list_push(cg->blocks, node);
+    c_declare_lambda_locals(cg, node->locals);
 }
 
-static void c_gen_lambda_block_end(ASTNode_T* node, va_list custom_args)
+static void c_gen_lambda_with_start(ASTNode_T* node, va_list custom_args)
 {
     GET_CG(custom_args);
-    list_pop(cg->blocks);
+    if(cg->lambdas->size && node->obj)
+        list_push(list_last(cg->lambda_locals), node->obj);
+}
+
+static void c_gen_lambda_id(ASTNode_T* node, va_list custom_args)
+{
+    GET_CG(custom_args);
+
+    ASTObj_T* obj = node->referenced_obj;
+    if(!obj || (obj->kind != OBJ_LOCAL && obj->kind != OBJ_FN_ARG))
+        return;
+
+    // a variable is captured by all lambdas between its use and its declaration
+    for(ssize_t i = (ssize_t) cg->lambdas->size - 1; i >= 0; i--)
+    {
+        if(list_contains(cg->lambda_locals->items[i], obj))
+            return;
+
+        ASTNode_T* lambda = cg->lambdas->items[i];
+        if(!list_contains(lambda->ids, obj))
+            list_push(lambda->ids, obj);
+    }
 }
 
 static void c_gen_lambdas(CCodegenData_T* cg)
 {
     ASTIteratorList_T iter = {
         .node_start_fns = {
-            [ND_BLOCK] = c_gen_lambda_block_start
+            [ND_LAMBDA] = c_gen_lambda_start,
+            [ND_BLOCK] = c_gen_lambda_scope_start,
+            [ND_FOR] = c_gen_lambda_scope_start,
+            [ND_WITH] = c_gen_lambda_with_start,
+            [ND_ID] = c_gen_lambda_id
         },
         .node_end_fns = {
             [ND_LAMBDA] = c_gen_lambda,
-            [ND_BLOCK] = c_gen_lambda_block_end
+            [ND_CAST] = c_gen_fn_closure
+        },
+        .obj_start_fns = {
+            [OBJ_FUNCTION] = c_gen_closure_fn_start
+        },
+        .obj_end_fns = {
+            [OBJ_FUNCTION] = c_gen_closure_fn_end
         }
     };
 
@@ -1134,6 +1287,8 @@ static void c_gen_function(CCodegenData_T* cg, ASTObj_T* fn)
     c_gen_function_declaration(cg, fn);
     c_println(cg, "{");
 
+    c_gen_closure_objs(cg, fn->lambdas);
+
     if(fn->va_area)
     {
         char* ap_id = c_gen_identifier(cg->context, fn->va_area->id);
@@ -1619,6 +1774,20 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
                 break;
             }
 
+            if(c_is_fn_to_closure(node))
+            {
+                if(c_is_fn_name(node->left))
+                {
+                    c_print(cg, "(&" UNIQUE_ID_FMT "_obj)", node->long_val);
+                    break;
+                }
+
+                c_print(cg, "({" UNIQUE_ID_FMT "_env[0]=(void*)(", node->long_val);
+                c_gen_expr(cg, node->left, true);
+                c_print(cg, ");" UNIQUE_ID_FMT "_obj=(struct _lambda){" UNIQUE_ID_FMT "_env,(void(*)(void**, ...))" UNIQUE_ID_FMT "};&" UNIQUE_ID_FMT "_obj;})", node->long_val, node->long_val, node->long_val, node->long_val);
+                break;
+            }
+
             c_print(cg, "((");
             c_gen_type(cg, node->data_type, true);
             c_putc(cg, ')');
@@ -1633,6 +1802,11 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
                 c_gen_expr(cg, node->referenced_obj->value, with_casts);
                 break;
             }
+            if(c_is_captured(cg, node->referenced_obj))
+            {
+                c_print(cg, "(*%s)", c_gen_identifier(cg->context, node->id));
+                break;
+            }
             c_print(cg, "%s", node->referenced_obj && node->referenced_obj->is_extern ? EITHER(node->referenced_obj->exported, node->id->callee) : c_gen_identifier(cg->context, node->id));
             break;
         case ND_CALL:
@@ -1640,13 +1814,18 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             ASTType_T* call_type = unpack(node->expr->data_type);
             if(!call_type->is_constant)
             {
-                c_print(cg, "((");
-                c_gen_type(cg, call_type->base, false);
-                c_print(cg, "(*)(void**,...))");
-                c_gen_expr(cg, node->expr, true);
-                c_print(cg, "->__fn)(");
+                u64 uid = cg->unique_id++;
+                c_print(cg, "({struct _lambda* " UNIQUE_ID_FMT "=", uid);
                 c_gen_expr(cg, node->expr, true);
-                c_print(cg, "->__args");
+                c_print(cg, ";((");
+                c_gen_type(cg, call_type->base, false);
+                c_print(cg, "(*)(void**");
+                for(size_t i = 0; i < call_type->arg_types->size; i++)
+                {
+                    c_putc(cg, ',');
+                    c_gen_type(cg, call_type->arg_types->items[i], false);
+                }
+                c_print(cg, "))" UNIQUE_ID_FMT "->__fn)(" UNIQUE_ID_FMT "->__args", uid, uid);
                 if(node->args->size > 0)
                     c_putc(cg, ',');
             }
@@ -1676,7 +1855,7 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
                 if(node->args->size - i > 1)
                     c_print(cg, ",");
             }
-            c_putc(cg, ')');
+            c_print(cg, call_type->is_constant ? ")" : ");})");
         } break;
         case ND_CLOSURE:
             c_putc(cg, '(');
@@ -1747,22 +1926,20 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             break;
         case ND_LAMBDA:
         {
-            c_println(cg, "&(struct _lambda){");
-            c_print(cg, "  (void*[]){");
+            if(!node->ids->size)
+            {
+                c_print(cg, "(&" UNIQUE_ID_FMT "_obj)", node->long_val);
+                break;
+            }
 
-            for(size_t i = 0; i < cg->blocks->size; i++)
+            c_print(cg, "({");
+            for(size_t i = 0; i < node->ids->size; i++)
             {
-                ASTNode_T* block = cg->blocks->items[i];
-                for(size_t j = 0; j < block->locals->size; j++)
-                {
-                    ASTObj_T* local = block->locals->items[j];
-                    c_print(cg, "&%s,", c_gen_identifier(cg->context, local->id));
-                }
+                ASTObj_T* local = node->ids->items[i];
+                c_print(cg, UNIQUE_ID_FMT "_env[%zu]=(void*)%s%s;", node->long_val, i, c_is_captured(cg, local) ? "" : "&", c_gen_identifier(cg->context, local->id));
             }
 
-            c_println(cg, "NULL},");
-            c_println(cg, "  (void(*)(void**, ...))" UNIQUE_ID_FMT, node->long_val);
-            c_print(cg, "}");
+            c_print(cg, UNIQUE_ID_FMT "_obj=(struct _lambda){" UNIQUE_ID_FMT "_env,(void(*)(void**, ...))" UNIQUE_ID_FMT "};&" UNIQUE_ID_FMT "_obj;})", node->long_val, node->long_val, node->long_val, node->long_val);
         } break;
         case ND_DYNCAST: {
             c_println(cg, "(struct _dyn){.__data=(");
@@ -1907,7 +2084,6 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
 
     case ND_BLOCK:
     {
-        list_push(cg->blocks, node);
         c_println(cg, "{");
 
         for(size_t i = 0; i < node->locals->size; i++)
@@ -1923,7 +2099,6 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         }
 
         c_println(cg, "}");
-        list_pop(cg->blocks);
     } break;
 
     case ND_IF:
diff --git a/src/compiler/codegen/transpiler/c_codegen.h b/src/compiler/codegen/transpiler/c_codegen.h
index 7ecf124..75bf052 100644
--- a/src/compiler/codegen/transpiler/c_codegen.h
+++ b/src/compiler/codegen/transpiler/c_codegen.h
@@ -22,7 +22,10 @@ typedef struct C_CODEGEN_DATA_STRUCT
     
     HashMap_T* arrays;
     HashMap_T* anon_structs;
-    List_T* blocks;
+    List_T* lambdas;        // being visited, list of ASTNode_Ts
+    List_T* lambda_locals;  // variables declared in each of them, list of lists of ASTObj_Ts
+    List_T* closures;       // created by each function and lambda being visited, list of lists of ASTNode_Ts
+    ASTNode_T* cur_lambda;  // being generated
 
     char* buf;
     size_t buf_len;
-- 
2.43.0


From 2b88f7e4da960fa88ac01564eac0682370b275c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 109/139] fix: calling the result of a call or a lambda literal
 directly crashed the compiler

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 04ad77e..5077fd0 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1477,7 +1477,7 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
             call->data_type = call_type->base;
         else
             call->data_type = (ASTType_T*) primitives[TY_VOID];
-        call->called_obj = call->expr->referenced_obj;
+        call->called_obj = call->expr->kind == ND_ID ? call->expr->referenced_obj : NULL;
         if(call->expr->kind == ND_MEMBER && call->expr->body && call->expr->body->referenced_obj && call->expr->body->referenced_obj->interface_func) {
             list_insert(call->args, call->expr->left, 0);
         }
-- 
2.43.0


From 4f0d507aefed1d2f0f0cf3f79a0a6c025e523911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 110/139] fix: std::c_str::strchr did not find bytes above 127
 held in a char; strcmp and strncmp ordered them before all others

---
 src/std/c_str.csp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/std/c_str.csp b/src/std/c_str.csp
index 4daae8c..8d3b9ca 100644
--- a/src/std/c_str.csp
+++ b/src/std/c_str.csp
@@ -76,7 +76,7 @@ namespace std {
                 l++;
                 r++;
             }
-            <- *l - *r;
+            <- ((*l: u8): i32) - ((*r: u8): i32);
         }
 
         fn strncmp(l: &const char, r: &const char, n: usize): i32
@@ -87,7 +87,7 @@ namespace std {
                 r++;
                 n--;
             }
-            <- *l - *r;
+            <- ((*l: u8): i32) - ((*r: u8): i32);
         }
 
         fn strstr(str: &char, substr: &char): &char
@@ -171,7 +171,7 @@ namespace std {
         # Find the first occurrence of C in S.
         fn strchr(s: &const char, c_in: i32): &const char
         {
-            if s == nil || c_in > 255 || c_in < 0
+            if s == nil
                 <- nil;
         
             let s_len = strlen(s);
-- 
2.43.0


From c3a5497c8c41d25a758c88f3fa3b7cd6eda17bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 111/139] fix: elements of arrays passed on the stack or
 indexed from the back were read from the wrong end of the array

---
 src/compiler/ast/ast.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/compiler/ast/ast.h b/src/compiler/ast/ast.h
index c8a5431..4bd4791 100644
--- a/src/compiler/ast/ast.h
+++ b/src/compiler/ast/ast.h
@@ -148,11 +148,9 @@ struct AST_NODE_STRUCT
         ASTObj_T* stack_ptr;
     };
 
-    union { 
-        bool is_default_case : 1; // case
-        bool pass_by_stack   : 1; // call
-        bool from_back       : 1; // index
-    };
+    bool is_default_case : 1; // case
+    bool pass_by_stack   : 1; // call arguments of any kind
+    bool from_back       : 1; // index
 
     UnpackMode_T unpack_mode : 2;
 
-- 
2.43.0


From 918791bbcf89e686b6ea7b012ebf17e7dbe3ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 112/139] fix: interfaces with enums as arguments were rejected

---
 src/compiler/parser/typechecker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index a0dccb4..4906d7a 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -759,6 +759,8 @@ bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
             return true;
         
         case TY_ENUM:
+            if(a == b)
+                return true; // the values of its members might not be known yet
             if(a->members->size != b->members->size)
                 return false;
             for(size_t i = 0; i < a->members->size; i++)
-- 
2.43.0


From 796ab20acc4c0a98d621ab4231daaeadcc608b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:00 +0000
Subject: [PATCH 113/139] fix: the compiler crashed or hung on some malformed
 programs (types and objects defined by themselves, unfinished parameter
 lists, unpacked non-arrays, a stray end of file) and accepted returns in
 deferred statements

---
 src/compiler/error/default.c    |  4 +--
 src/compiler/parser/parser.c    |  9 +++++--
 src/compiler/parser/queue.c     | 10 ++++++++
 src/compiler/parser/validator.c | 43 ++++++++++++++++++++++++++++++---
 src/compiler/parser/validator.h |  1 +
 5 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 75012fe..db5dfba 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -11,7 +11,7 @@
 
 static void print_current_fn(Context_T* context) {
     static ASTObj_T* last_obj = NULL; // remember the last function to eliminate duplication in multiple errors of the same function
-    if(context->current_obj && *context->current_obj && *context->current_obj != last_obj) 
+    if(context->current_obj && *context->current_obj && (*context->current_obj)->id && *context->current_obj != last_obj) 
     {
         char buf[BUFSIZ] = {};
         fprintf(
@@ -62,7 +62,7 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
     fprintf(ERR_OUTPUT_STREAM, err_tmp2, ERR_LINE_NUMBER_SPACES, line, src_line, src_line[strlen(src_line) - 1] == '\n' ? "" : "\n ", 
             ERR_LINE_NUMBER_SPACES, "", (int) (character - strlen(tok->value) - trim_offset), "");
 
-    for(u32 i = 0; i < strlen(tok->value) - 1; i++)
+    for(u32 i = 0; i + 1 < strlen(tok->value); i++)
         putc('~', ERR_OUTPUT_STREAM);
     fprintf(ERR_OUTPUT_STREAM, err_tmp3);
 }
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 138817f..186ee24 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -368,7 +368,9 @@ static inline bool streq(char* s1, char* s2)
 
 static inline Token_T* parser_advance(Parser_T* p)
 {
-    p->tok = p->tokens->items[++p->token_i];
+    if(p->token_i + 1 < p->tokens->size)
+        p->token_i++;
+    p->tok = p->tokens->items[p->token_i];
     if(p->tok->type == TOKEN_SEMICOLON && streq(p->tok->value, ";"))
         throw_error(p->context, ERR_SYNTAX_WARNING, p->tok, "found `;` (greek question mark) instead of `;` (semicolon)");
     return p->tok;
@@ -388,8 +390,11 @@ inline Token_T* parser_peek(Parser_T* p, i32 level)
 {
     if(level == 0)
         return p->tok;
-    if(p->token_i + level >= p->tokens->size || p->token_i + level <= 0)
+    if(p->token_i + level <= 0)
         return NULL;
+    // nothing follows the end of the file
+    if(p->token_i + level >= p->tokens->size)
+        return p->tokens->items[p->tokens->size - 1];
     return p->tokens->items[p->token_i + level];
 }
 
diff --git a/src/compiler/parser/queue.c b/src/compiler/parser/queue.c
index 8f8762a..9da45f7 100644
--- a/src/compiler/parser/queue.c
+++ b/src/compiler/parser/queue.c
@@ -165,6 +165,16 @@ static void resolve_obj_enqueue(Validator_T* v, ResolveQueue_T* queue, ASTObj_T*
     }
     else
     {
+        // an object being resolved may be needed once more while it is, but not over and over again
+        size_t pending = 0;
+        for(size_t i = 0; i < v->obj_stack->size; i++)
+            pending += v->obj_stack->items[i] == obj;
+        if(pending > 1)
+        {
+            report_recursive_dependency(v, obj);
+            goto finish;
+        }
+
         iter.iterate_only_objs = obj->kind == OBJ_FUNCTION;
     }
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 5077fd0..9ea2c5a 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -105,7 +105,7 @@ static ASTObj_T* in_function(Validator_T* v)
     for(ssize_t i = v->obj_stack->size - 1; i >= 0; i--)
     {
         ASTObj_T* obj = v->obj_stack->items[i];
-        if(obj->kind == OBJ_FUNCTION || obj->kind == OBJ_LAMBDA)
+        if(obj && (obj->kind == OBJ_FUNCTION || obj->kind == OBJ_LAMBDA))
             return obj;
     }
     return NULL;
@@ -697,12 +697,15 @@ static void enter_detached(ASTNode_T* node, va_list args)
     GET_VALIDATOR(args);
     list_push(v->jump_target_stack, (void*) v->break_targets);
     list_push(v->jump_target_stack, (void*) v->continue_targets);
+    list_push(v->jump_target_stack, (void*) (size_t) v->in_defer);
     v->break_targets = v->continue_targets = 0;
+    v->in_defer = node->kind == ND_DEFER;
 }
 
 static void leave_detached(ASTNode_T* node, va_list args)
 {
     GET_VALIDATOR(args);
+    v->in_defer = (size_t) list_pop(v->jump_target_stack);
     v->continue_targets = (size_t) list_pop(v->jump_target_stack);
     v->break_targets = (size_t) list_pop(v->jump_target_stack);
 }
@@ -721,6 +724,13 @@ static void validate_continue(ASTNode_T* node, va_list args)
         throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, node->tok, "unexpected continue statement outside of loop");
 }
 
+static void validate_return_place(ASTNode_T* node, va_list args)
+{
+    GET_VALIDATOR(args);
+    if(v->in_defer)
+        throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, node->tok, "unexpected return statement in deferred statement");
+}
+
 static void validate_jumps(Validator_T* v)
 {
     static const ASTIteratorList_T iter = {
@@ -735,6 +745,7 @@ static void validate_jumps(Validator_T* v)
             [ND_DEFER] = enter_detached,
             [ND_BREAK] = validate_break,
             [ND_CONTINUE] = validate_continue,
+            [ND_RETURN] = validate_return_place,
         },
         .node_end_fns = {
             [ND_LOOP] = leave_loop,
@@ -1879,7 +1890,11 @@ static void iter_validate_index(ASTNode_T* index, va_list args)
     GET_VALIDATOR(args);
 
     ASTType_T* left_type = unpack(index->left->data_type);
-    assert(left_type != NULL);
+    if(!left_type)
+    {
+        throw_error(v->context, ERR_TYPE_ERROR, index->left->tok, "could not resolve data type");
+        return;
+    }
 
     if(!indexable(left_type->kind))
     {
@@ -2061,7 +2076,7 @@ static void iter_validate_array_lit(ASTNode_T* array_lit, va_list args)
     {
         ASTType_T* base_type = unpack(first_arg->data_type)->base;
         if(!base_type) {
-            throw_error(v->context, ERR_TYPE_ERROR_UNCR, first_arg->tok, "unpacking with `...` is only supported for array types\n");
+            throw_error(v->context, ERR_TYPE_ERROR, first_arg->tok, "unpacking with `...` is only supported for array types\n");
         }
         array_lit->data_type->base = base_type;
     }
@@ -2078,6 +2093,10 @@ static void iter_validate_array_lit(ASTNode_T* array_lit, va_list args)
             continue;
         }
 
+        ASTTypeKind_T kind = unpack(arg->data_type)->kind;
+        if(kind != TY_ARRAY && kind != TY_C_ARRAY)
+            throw_error(v->context, ERR_TYPE_ERROR, arg->tok, "unpacking with `...` is only supported for array types\n");
+
         array_lit->data_type->num_indices += unpack(arg->data_type)->num_indices;
     }
 
@@ -2509,12 +2528,26 @@ static void iter_validate_struct_type(ASTType_T* struct_type, va_list args)
     }
 }
 
+static bool type_contains(ASTType_T* type, ASTType_T* part)
+{
+    if(!type)
+        return false;
+    if(type == part || type_contains(type->base, part))
+        return true;
+
+    if(type->kind == TY_FN)
+        for(size_t i = 0; type->arg_types && i < type->arg_types->size; i++)
+            if(type_contains(type->arg_types->items[i], part))
+                return true;
+    return false;
+}
+
 static void iter_validate_typeof_type(ASTType_T* typeof_type, va_list args)
 {
     GET_VALIDATOR(args);
 
     ASTType_T* found = typeof_type->num_indices_node->data_type;
-    if(!found)
+    if(!found || found->kind == TY_TYPEOF || type_contains(found, typeof_type))
         throw_error(v->context, ERR_TYPE_ERROR, typeof_type->num_indices_node->tok, "could not resolve data type");
     
     *typeof_type = *found;
@@ -2655,6 +2688,8 @@ static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_t
         case TY_FN:
             return PTR_S;
         case TY_TYPEOF:
+            if(!type->num_indices_node->data_type)
+                break;
             return get_type_size_impl(v, unpack(type->num_indices_node->data_type), struct_types);
         case TY_UNDEF:
             return get_type_size_impl(v, unpack(type), struct_types);
diff --git a/src/compiler/parser/validator.h b/src/compiler/parser/validator.h
index e9cc7af..0bfed19 100644
--- a/src/compiler/parser/validator.h
+++ b/src/compiler/parser/validator.h
@@ -42,6 +42,7 @@ typedef struct VALIDATOR_STRUCT
 
     size_t break_targets;    // number of surrounding statements `break` can leave
     size_t continue_targets; // number of surrounding loops `continue` can restart
+    bool in_defer; // deferred statements cannot return
     List_T* jump_target_stack;
 } Validator_T;
 
-- 
2.43.0


From 10adc8a4215586a08ec82f9bf93e15b9be135853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:38 +0000
Subject: [PATCH 114/139] fix: members and elements of constants could be
 assigned

---
 src/compiler/parser/typechecker.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 4906d7a..7c0ba83 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -256,7 +256,16 @@ static bool is_constant_target(ASTNode_T* target)
     if(obj && obj->is_constant && (obj->kind == OBJ_GLOBAL || obj->kind == OBJ_LOCAL || obj->kind == OBJ_FN_ARG))
         return true;
 
-    return target->data_type->is_constant || unpack(target->data_type)->is_constant;
+    if(target->data_type->is_constant || unpack(target->data_type)->is_constant)
+        return true;
+
+    // members and elements of constants are constant as well
+    ASTType_T* outer = target->kind == ND_MEMBER || target->kind == ND_INDEX ? unpack(target->left->data_type) : NULL;
+    if(!outer)
+        return false;
+    if(outer->kind == TY_PTR || outer->kind == TY_VLA)
+        return target->kind == ND_MEMBER && outer->base && (outer->base->is_constant || unpack(outer->base)->is_constant);
+    return is_constant_target(target->left);
 }
 
 // initializers of globals are constants, which are stored as values of the type of the global
-- 
2.43.0


From ef1829218041b11b2bf670907a946b852214d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 115/139] fix: stack was misaligned in main(argv) and in
 after_main functions

---
 src/compiler/codegen/asm/asm_codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index d82ac52..f5a6e04 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -37,6 +37,7 @@ static const char* asm_main_call[] =
         "  xorl %ebp, %ebp\n"
         "  popq %rdi\n"
         "  movq %rsp, %rdi\n"
+        "  andq $~15, %rsp\n"
         "  call .main\n",
 
     [MFK_ARGC_ARGV_PTR] =
@@ -405,6 +406,7 @@ static void asm_gen_entry_point(ASMCodegenData_T* cg)
 
     if(cg->ast->after_main && cg->ast->after_main->size)
     {
+        asm_println(cg, "  subq $8, %%rsp"); // keep the stack aligned
         asm_push(cg);
         for(size_t i = 0; i < cg->ast->after_main->size; i++)
         {
-- 
2.43.0


From 9e89377c45c394e4dcfec0e36db135cd65144e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 116/139] fix: exported globals did not get their symbol name

---
 src/compiler/codegen/asm/asm_codegen.c      | 5 +++++
 src/compiler/codegen/transpiler/c_codegen.c | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f5a6e04..5aeda28 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -642,6 +642,11 @@ static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
                 {
                     char* id = asm_gen_identifier(cg->context, obj->id);
                     asm_println(cg, "  .globl %s", id);
+                    if(obj->exported)
+                    {
+                        asm_println(cg, "  .globl %s", obj->exported);
+                        asm_println(cg, "  .set %s, %s", obj->exported, id);
+                    }
 
                     i32 align = (obj->data_type->kind == TY_C_ARRAY || obj->data_type->kind == TY_ARRAY) && obj->data_type->size >= 16 ? MAX(16, obj->data_type->align) : obj->data_type->align;
 
diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index cb16d1f..d593197 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -957,6 +957,8 @@ static void c_gen_globals(CCodegenData_T* cg, List_T* objs)
                 if(obj->is_extern)
                     c_print(cg, "extern ");
                 c_gen_typed_name_str(cg, obj->is_extern ? EITHER(obj->exported, obj->id->callee) : c_gen_identifier(cg->context, obj->id), obj->data_type);
+                if(obj->exported && !obj->is_extern)
+                    c_print(cg, " __asm__ (\"%s\")", obj->exported);
                 if(obj->value)
                 {
                     c_print(cg, " = ");
-- 
2.43.0


From ff9d5cf6f48bb3cde81fc0f3f05a72fea0617fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 117/139] fix: directives removed or marked only the last
 object of extern blocks, could not be used in extern blocks, in front of
 other directives or reopened namespaces, and were applied to the wrong kind
 of object; copy and cc passed wrong arguments

---
 src/compiler/parser/directives.c | 96 ++++++++++++++++++--------------
 src/compiler/parser/parser.c     | 51 ++++++++++-------
 src/compiler/parser/parser.h     |  1 +
 3 files changed, 85 insertions(+), 63 deletions(-)

diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index 0319aac..ef5d9f4 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -208,57 +208,61 @@ static DirectiveData_T* parse_directive(Parser_T* p);
 
 void parse_directives(Parser_T* p, List_T* objects, bool in_extern_block, bool is_extern_c)
 {
-    parser_consume(p, TOKEN_LBRACKET, "expect `[` for compiler directive");
     List_T* directives = init_list();
-    const char* libs_following = NULL;
+    bool libs_following = false;
 
+    // multiple directive groups can belong to the same object
     do {
-        DirectiveData_T* data = parse_directive(p);
-        list_push(directives, data);
+        parser_consume(p, TOKEN_LBRACKET, "expect `[` for compiler directive");
 
-        if(data->directive->following_obj && !libs_following)
-            libs_following = data->directive->name;
+        do {
+            DirectiveData_T* data = parse_directive(p);
+            list_push(directives, data);
 
-        if(!tok_is(p, TOKEN_RBRACKET))
-            parser_consume(p, TOKEN_COMMA, "expect `,` between compiler directives");
-    } while(!tok_is(p, TOKEN_RBRACKET) && !tok_is(p, TOKEN_EOF));
+            if(data->directive->following_obj)
+                libs_following = true;
 
-    parser_consume(p, TOKEN_RBRACKET, "expect `]` after compiler directive");
+            if(!tok_is(p, TOKEN_RBRACKET))
+                parser_consume(p, TOKEN_COMMA, "expect `,` between compiler directives");
+        } while(!tok_is(p, TOKEN_RBRACKET) && !tok_is(p, TOKEN_EOF));
 
-    ASTObj_T* obj = NULL;
-    if(!libs_following)
-        goto eval;
+        parser_consume(p, TOKEN_RBRACKET, "expect `]` after compiler directive");
+    } while(libs_following && tok_is(p, TOKEN_LBRACKET));
 
-    size_t old_obj_list_size = objects->size;
-    if(in_extern_block)
-        list_push(objects, parse_extern_def(p, is_extern_c));  
-    else
-        parse_obj(p, objects);
-    if(objects->size == old_obj_list_size)
-        throw_error(parser_context(p), ERR_UNDEFINED, parser_peek(p, 0), "directive `%s` requires an object [const, fn, type, namespace] after `]`");
-
-    obj = objects->items[objects->size - 1];
-
-    for(size_t i = 0; i < directives->size; i++)
+    // all objects the directives apply to; `extern` blocks declare more than one
+    List_T* following = init_list();
+    if(libs_following)
     {
-        DirectiveData_T* data = directives->items[i];
-        ASTObjKind_T expected = data->directive->following_obj;
-        if(expected != 0 && !(expected & obj->kind))
-            throw_error(parser_context(p), ERR_MISC, data->name_token, "directive `%s` expects %s after `]`, got %s", data->directive->name, obj_kind_to_str(data->directive->following_obj), obj_kind_to_str(obj->kind));
+        if(in_extern_block)
+            list_push(following, parse_extern_def(p, is_extern_c));
+        else
+            parse_obj(p, following);
     }
 
-eval:
-    ;
-    bool remove_obj = false;
+    bool remove_objs = false;
     for(size_t i = 0; i < directives->size; i++)
     {
         DirectiveData_T* data = directives->items[i];
-        if(data->directive->eval(data, parser_context(p), parser_ast(p), obj))
-            remove_obj = true;
+        ASTObjKind_T expected = data->directive->following_obj;
+        if(!expected)
+        {
+            data->directive->eval(data, parser_context(p), parser_ast(p), NULL);
+            continue;
+        }
+
+        for(size_t j = 0; j < following->size; j++)
+        {
+            ASTObj_T* obj = following->items[j];
+            if(!(expected & obj->kind))
+                throw_error(parser_context(p), ERR_MISC, data->name_token, "directive `%s` expects %s after `]`, got %s", data->directive->name, obj_kind_to_str(data->directive->following_obj), obj_kind_to_str(obj->kind));
+            else if(data->directive->eval(data, parser_context(p), parser_ast(p), obj))
+                remove_objs = true;
+        }
     }
 
-    if(remove_obj && obj)
-        list_pop(objects);
+    for(size_t i = 0; !remove_objs && i < following->size; i++)
+        push_obj(objects, following->items[i]);
+    free_list(following);
 
     for(size_t i = 0; i < directives->size; i++)
     {
@@ -337,24 +341,30 @@ EVAL_FN(cc)
 #ifdef CSPYDR_LINUX
     char* abs_path = get_absolute_path(data->name_token->source->path);
     char* working_dir = get_path_from_file(abs_path);
-    if(!context->flags.silent) 
-        LOG_OK_F(COLOR_BOLD_CYAN "  Command   " COLOR_RESET " \"%s %s\"\n", context->cc, (const char*) data->arguments->items[0]);
     List_T* args = init_list();
     list_push(args, (void*) context->cc);
     
-    char* ch = strtok(data->arguments->items[0], " ");
-    while(ch != NULL)
+    for(size_t i = 0; i < data->arguments->size; i++)
     {
-        list_push(args, ch);
-        ch = strtok(NULL, " ");
+        if(!context->flags.silent) 
+            LOG_OK_F(COLOR_BOLD_CYAN "  Command   " COLOR_RESET " \"%s %s\"\n", context->cc, (const char*) data->arguments->items[i]);
+
+        char* ch = strtok(data->arguments->items[i], " ");
+        while(ch != NULL)
+        {
+            list_push(args, ch);
+            ch = strtok(NULL, " ");
+        }
     }
     char current_dir[FILENAME_MAX];
     getcwd(current_dir, LEN(current_dir));
     chdir(working_dir);
     
+    list_push(args, NULL);
+
     i32 exit_code = subprocess(context->cc, (char* const*) args->items, false);
     if(exit_code)
-        throw_error(context, ERR_MISC, data->name_token, "command %s %s failed with exit code %d", context->cc, (const char*) data->arguments->items[0], exit_code);
+        throw_error(context, ERR_MISC, data->name_token, "command %s failed with exit code %d", context->cc, exit_code);
     chdir(current_dir);
     free_list(args);
     free(abs_path);
@@ -401,7 +411,7 @@ EVAL_FN(copy)
 {
 #ifdef CSPYDR_LINUX
     char* from = data->arguments->items[0];
-    char* to = data->arguments->items[0];
+    char* to = data->arguments->items[1];
 
     if(!context->flags.silent) 
         LOG_OK_F(COLOR_BOLD_CYAN "  Command" COLOR_RESET "    \"cp -r %s %s\"\n", from, to);
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 186ee24..80b2534 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -951,24 +951,6 @@ ASTObj_T* parse_extern_def(Parser_T *p, bool is_extern_c)
 
             return ext_fn;
         }
-        case TOKEN_LBRACKET:
-        {
-            List_T* dummy = init_list();
-            parse_directives(p, dummy, true, is_extern_c);
-
-            if(dummy->size)
-            {
-                ASTObj_T* obj = dummy->items[0];
-                if(obj->kind == OBJ_FUNCTION || obj->kind == OBJ_GLOBAL)
-                {
-                    free_list(dummy);
-                    obj->is_extern = true;
-                    obj->is_extern_c = is_extern_c;
-                    return obj;
-                }
-            }
-            free_list(dummy);
-        } // fall through
         default:
             throw_error(p->context, ERR_SYNTAX_ERROR, p->tok, "expect function or variable declaration");
             break;
@@ -978,6 +960,14 @@ ASTObj_T* parse_extern_def(Parser_T *p, bool is_extern_c)
     return NULL;
 }
 
+static void parse_extern_obj(Parser_T* p, List_T* objs, bool is_extern_c)
+{
+    if(tok_is(p, TOKEN_LBRACKET))
+        parse_directives(p, objs, true, is_extern_c);
+    else
+        list_push(objs, parse_extern_def(p, is_extern_c));
+}
+
 static void parse_extern(Parser_T* p, List_T* objs)
 {
     parser_advance(p);
@@ -992,14 +982,14 @@ static void parse_extern(Parser_T* p, List_T* objs)
         parser_advance(p);
         while(!tok_is(p, TOKEN_RBRACE) && !tok_is(p, TOKEN_EOF))
         {
-            list_push(objs, parse_extern_def(p, extern_c));  
+            parse_extern_obj(p, objs, extern_c);
         }
 
         parser_consume(p, TOKEN_RBRACE, "expect `}` after extern function/variable definitions");
         return;
     }
 
-    list_push(objs, parse_extern_def(p, extern_c));    
+    parse_extern_obj(p, objs, extern_c);
 }
 
 List_T* parse_argument_list(Parser_T* p, TokenType_T end_tok, ASTIdentifier_T** variadic_id)
@@ -1200,6 +1190,27 @@ static ASTObj_T* find_namespace(List_T* objs, char* callee)
     return NULL;
 }
 
+void push_obj(List_T* objs, ASTObj_T* obj)
+{
+    ASTObj_T* namespace = obj->kind == OBJ_NAMESPACE ? find_namespace(objs, obj->id->callee) : NULL;
+    if(!namespace)
+    {
+        list_push(objs, obj);
+        return;
+    }
+
+    // add the objects to the namespace, that already exists
+    for(size_t i = 0; i < obj->objs->size; i++)
+    {
+        ASTObj_T* member = obj->objs->items[i];
+        member->id->outer = namespace->id;
+        push_obj(namespace->objs, member);
+    }
+
+    namespace->private |= obj->private;
+    namespace->deprecated |= obj->deprecated;
+}
+
 static void parse_namespace(Parser_T* p, List_T* objs)
 {
     Token_T* tok = p->tok;
diff --git a/src/compiler/parser/parser.h b/src/compiler/parser/parser.h
index 56d1426..10a22bc 100644
--- a/src/compiler/parser/parser.h
+++ b/src/compiler/parser/parser.h
@@ -17,6 +17,7 @@ bool tok_is(Parser_T* p, TokenType_T type);
 
 void parse_obj(Parser_T* p, List_T* obj_list);
 ASTObj_T* parse_extern_def(Parser_T *p, bool is_extern_c);
+void push_obj(List_T* objs, ASTObj_T* obj);
 
 CParser_T* parser_get_c_header_parser(Parser_T* p);
 ASTObj_T* parser_get_current_obj(Parser_T* p);
-- 
2.43.0


From 6da053945ab9a80f3ee38511a0896e2a18aaaf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 118/139] fix: failed builds exited with status 0, and an old
 executable was run

---
 src/compiler/error/default.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index db5dfba..2a890a3 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -70,19 +70,13 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
 void default_panic_handler(Context_T* context) 
 {
     // Emit an error summary
-    if(!context->flags.silent)
+    if(!context->flags.silent && context->emitted_errors)
     {
-        if(context->emitted_errors && context->emitted_warnings)
-        {
+        if(context->emitted_warnings)
             LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " %u error%s and %u warning%s thrown during code validation; aborting.\n", context->emitted_errors, context->emitted_errors == 1 ? "" : "s", context->emitted_warnings, context->emitted_warnings == 1 ? "" : "s");
-            exit(1);
-        }
-        else if(context->emitted_errors)
-        {
+        else
             LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " %u error%s thrown during code validation; aborting.\n", context->emitted_errors, context->emitted_errors == 1 ? "" : "s");
-            exit(1);
-        }
-        else if(context->emitted_warnings)
-            LOG_WARN_F(COLOR_BOLD_YELLOW "[Warning]" COLOR_RESET COLOR_YELLOW " %u warning%s thrown during code validation\n", context->emitted_warnings, context->emitted_warnings == 1 ? "" : "s");
     }
+
+    exit(1);
 }
-- 
2.43.0


From 1689f70aa37d49367628241db15d36e4caf22f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 119/139] fix: tools killed by a signal counted as successful

---
 src/compiler/platform/linux/linux_platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/platform/linux/linux_platform.c b/src/compiler/platform/linux/linux_platform.c
index a59a4b8..58583df 100644
--- a/src/compiler/platform/linux/linux_platform.c
+++ b/src/compiler/platform/linux/linux_platform.c
@@ -86,7 +86,7 @@ i32 subprocess(const char* p_name, char* const* p_arg, bool print_exit_msg)
 #endif
     }
 
-    return WEXITSTATUS(pid_status);
+    return WIFEXITED(pid_status) ? WEXITSTATUS(pid_status) : 128 + WTERMSIG(pid_status);
 }
 
 static i32 unlink_cb(const char *fpath, const struct stat *sb, int typeflag, struct FTW *ftwbuf)
-- 
2.43.0


From 4a1ae903cd37f199e3fbf854ad203ada9dc92dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 120/139] fix: builds failed when the directory for caches did
 not exist

---
 src/compiler/platform/linux/linux_platform.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/compiler/platform/linux/linux_platform.c b/src/compiler/platform/linux/linux_platform.c
index 58583df..3e4b0fa 100644
--- a/src/compiler/platform/linux/linux_platform.c
+++ b/src/compiler/platform/linux/linux_platform.c
@@ -40,10 +40,16 @@ char* get_home_directory()
 
 bool make_dir(char* path)
 {
-    i32 error = mkdir(path, 0777);
-    if(!error || (error && errno == EEXIST))
+    if(!mkdir(path, 0777) || errno == EEXIST)
         return 0;
-    return 1;
+    if(errno != ENOENT)
+        return 1;
+
+    // create the missing parent directories first
+    char* parent = strdup(path);
+    bool error = strcmp(dirname(parent), path) == 0 || make_dir(parent);
+    free(parent);
+    return error || (mkdir(path, 0777) && errno != EEXIST);
 }
 
 i32 subprocess(const char* p_name, char* const* p_arg, bool print_exit_msg)
-- 
2.43.0


From 82f86eda1a6641528201b6003ee4894e5bd185a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 121/139] fix: run did not find the executable in the current
 directory

---
 src/compiler/main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index ed0d3e0..fef19b7 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -467,7 +467,12 @@ static void run(Context_T* context, char* filename)
         memcpy(argv + 1, context->args.argv, context->args.argc * sizeof(const char*));
     argv[context->args.argc + 1] = NULL;
 
-    context->last_exit_code = subprocess(filename, (char* const*) argv, !context->flags.silent);
+    // names without a directory would be searched in $PATH
+    char* exec_path = calloc(strlen(filename) + 3, sizeof(char));
+    CONTEXT_ALLOC_REGISTER(context, (void*) exec_path);
+    sprintf(exec_path, "%s%s", strchr(filename, '/') ? "" : "./", filename);
+
+    context->last_exit_code = subprocess(exec_path, (char* const*) argv, !context->flags.silent);
     timer_stop(context);
 }
 
-- 
2.43.0


From 89d8bfe260a66bc3ec6af3d559493d27ca962060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 122/139] fix: set-mmcd without a value crashed and clear-cache
 was ignored after the action

---
 src/compiler/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index fef19b7..9145672 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -317,7 +317,7 @@ i32 main(i32 argc, char* argv[])
             context.flags.optimize = false;
         else if(streq(arg, "--set-mmcd"))
         {
-            if(!(context.max_macro_call_depth = atoi(argv[++i])))
+            if(!argv[++i] || !(context.max_macro_call_depth = atoi(argv[i])))
             {
                 LOG_ERROR(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " `--set-mmcd` expects an integer greater than 0\n");
                 exit(1);
@@ -382,6 +382,9 @@ i32 main(i32 argc, char* argv[])
             break;
     }
 
+    if(context.flags.clear_cache_after)
+        clear_cache(&context);
+
     if(context.flags.timer_enabled)
         timer_print_summary(&context);
 
-- 
2.43.0


From df0c60970495058833f0f52370c895ab9d28426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 123/139] fix: libraries that use their own functions could not
 be linked

---
 src/compiler/codegen/asm/linker.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/codegen/asm/linker.c b/src/compiler/codegen/asm/linker.c
index 3645f02..25d78dc 100644
--- a/src/compiler/codegen/asm/linker.c
+++ b/src/compiler/codegen/asm/linker.c
@@ -97,6 +97,7 @@ static int link_lib(Context_T* context, const char* target, char* obj_file)
     list_push(args, "-L/usr/lib");
     list_push(args, "-L/lib");
     list_push(args, "-shared");
+    list_push(args, "-Bsymbolic"); // the code refers to its own symbols directly
 
     if(context->link_mode.mode == LINK_STATIC)
         list_push(args, "-static");
-- 
2.43.0


From 7d6ed9658b2c4359a05cd9792f0e3e8ca8cf4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 124/139] fix: object files of the C backend were put into the
 cache only

---
 src/compiler/codegen/transpiler/c_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index d593197..1085246 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -449,7 +449,7 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
     else
     {
         char obj_file[BUFSIZ] = {'\0'};
-        get_cached_file_path(obj_file, target, ".o");
+        snprintf(obj_file, BUFSIZ, "%s.o", target);
 
         const char* args[] = {
             cg->context->cc,
-- 
2.43.0


From 98b2be5fc10359ea5b78a40ca512cda7cdb9c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 125/139] fix: concurrent builds of targets with the same name
 overwrote each other's intermediate files; generated code did not go to the
 directory of the target

---
 src/compiler/codegen/asm/asm_codegen.c      |  4 ++--
 src/compiler/codegen/transpiler/c_codegen.c |  4 ++--
 src/compiler/io/io.c                        | 17 ++++++++++++-----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 5aeda28..f555656 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -248,10 +248,10 @@ static void write_code(ASMCodegenData_T* cg, const char* target, bool cachefile)
             LOG_ERROR("error creating cache directory `" DIRECTORY_DELIMS CACHE_DIR DIRECTORY_DELIMS "`.\n");
             throw(cg->context->main_error_exception);
         }
-        sprintf(file_path, "%s" DIRECTORY_DELIMS "%s.s", cache_dir, basename((char*) target));
+        get_cached_file_path(file_path, target, ".s");
     }
     else
-        sprintf(file_path, "%s.s", basename((char*) target));
+        snprintf(file_path, sizeof(file_path), "%s.s", target);
 
     fclose(cg->code_buffer);
 
diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 1085246..015fe86 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -305,10 +305,10 @@ static void write_code(CCodegenData_T* cg, const char* target, bool cachefile)
             LOG_ERROR("error creating cache directory `" DIRECTORY_DELIMS CACHE_DIR DIRECTORY_DELIMS "`.\n");
             throw(cg->context->main_error_exception);
         }
-        sprintf(file_path, "%s" DIRECTORY_DELIMS "%s.c", cache_dir, basename((char*) target));
+        get_cached_file_path(file_path, target, ".c");
     }
     else
-        sprintf(file_path, "%s.c", basename((char*) target));
+        snprintf(file_path, sizeof(file_path), "%s.c", target);
 
     fclose(cg->code_buffer);
 
diff --git a/src/compiler/io/io.c b/src/compiler/io/io.c
index dceab69..9cc0f79 100755
--- a/src/compiler/io/io.c
+++ b/src/compiler/io/io.c
@@ -156,12 +156,19 @@ char* get_cache_dir(char* buffer)
 
 char* get_cached_file_path(char* buffer, const char* filename, const char* fileextension)
 {
-    get_cache_dir(buffer);
-    strcat(buffer, DIRECTORY_DELIMS);
+    // targets with the same name in different directories must not share their files
+    char cwd[FILENAME_MAX] = {'\0'};
+    if(*filename != *DIRECTORY_DELIMS && !getcwd(cwd, sizeof(cwd)))
+        *cwd = '\0';
+
+    u64 hash = 0xcbf29ce484222325;
+    for(const char* c = cwd; *c; c++)
+        hash = (hash ^ (u8) *c) * 0x100000001b3;
+    for(const char* c = filename; *c; c++)
+        hash = (hash ^ (u8) *c) * 0x100000001b3;
 
-    strcat(buffer, basename((char*) filename));
-    if(fileextension)
-        strcat(buffer, fileextension);
+    get_cache_dir(buffer);
+    sprintf(buffer + strlen(buffer), DIRECTORY_DELIMS "%s-%016lx%s", basename((char*) filename), hash, fileextension ? fileextension : "");
     return buffer;
 }
 
-- 
2.43.0


From 98167d09dec0657b4bb86bdd16932e4bde093bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:32 +0000
Subject: [PATCH 126/139] fix: csp-lint reports fatal errors instead of
 crashing

---
 src/compiler/error/default.c |  2 +-
 src/linter/error.c           | 10 +++++++---
 src/linter/linter.c          | 24 ++++++++++++++++++------
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 2a890a3..667e958 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -32,7 +32,7 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
     if(!tok)
     {
         LOG_ERROR(COLOR_BOLD_RED "[Error] " COLOR_RESET COLOR_RED);
-        fprintf(ERR_OUTPUT_STREAM,"%s", format);
+        vfprintf(ERR_OUTPUT_STREAM, format, args);
         LOG_ERROR("\n");
         return;
     }
diff --git a/src/linter/error.c b/src/linter/error.c
index 3543680..7b8754c 100644
--- a/src/linter/error.c
+++ b/src/linter/error.c
@@ -10,9 +10,13 @@ static FILE* OUTPUT_FILE;
 
 void linter_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, const char* format, va_list args, bool is_error, const char* error_str)
 {
-    char* source_file_path = tok->source->short_path ? tok->source->short_path : (char*) tok->source->path;
-
-    fprintf(OUTPUT_FILE, "%s: %u\nfile: %s\nline: %u\ncol: %u\n", is_error ? "error" : "warning", is_error ? context->emitted_errors : context->emitted_warnings, source_file_path, tok->line + 1, tok->pos + 1);
+    fprintf(OUTPUT_FILE, "%s: %u\n", is_error ? "error" : "warning", is_error ? context->emitted_errors : context->emitted_warnings);
+    // errors may not belong to a place in the source code
+    if(tok)
+    {
+        char* source_file_path = tok->source->short_path ? tok->source->short_path : (char*) tok->source->path;
+        fprintf(OUTPUT_FILE, "file: %s\nline: %u\ncol: %u\n", source_file_path, tok->line + 1, tok->pos + 1);
+    }
     
     if(context->current_obj && *context->current_obj) 
     {
diff --git a/src/linter/linter.c b/src/linter/linter.c
index ffab7f3..fb5e418 100644
--- a/src/linter/linter.c
+++ b/src/linter/linter.c
@@ -1,4 +1,5 @@
 #include "linter.h"
+#include "error/panic.h"
 
 #include <passes.h>
 
@@ -10,12 +11,23 @@ i32 lint(Context_T* context, char* src_file, char* std_path)
     context->paths.std_path = std_path;
     context->paths.target = "/dev/null";
 
-    initialization_pass(context, &ast);
-    lexer_pass(context, &ast);
-    preprocessor_pass(context, &ast);
-    parser_pass(context, &ast);
-    validator_pass(context, &ast);
-    cleanup_pass(context, &ast);
+    // fatal errors leave the passes by an exception
+    try(context->main_error_exception)
+    {
+        initialization_pass(context, &ast);
+        lexer_pass(context, &ast);
+        preprocessor_pass(context, &ast);
+        parser_pass(context, &ast);
+        if(context->emitted_errors)
+            panic(context);
+        validator_pass(context, &ast);
+        if(context->emitted_errors)
+            panic(context);
+        cleanup_pass(context, &ast);
+    }
+    catch {
+        get_panic_handler()(context);
+    }
 
     return context->emitted_errors != 0 || context->emitted_warnings != 0;
 }
-- 
2.43.0


From 3a5d9686d9de0e346b03a2041c2e6523ab1ebf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:32 +0000
Subject: [PATCH 127/139] fix: code used only in a case of a type match or by
 inline assembly is kept

---
 src/compiler/optimizer/optimizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/optimizer/optimizer.c b/src/compiler/optimizer/optimizer.c
index f3351d3..07ac365 100644
--- a/src/compiler/optimizer/optimizer.c
+++ b/src/compiler/optimizer/optimizer.c
@@ -82,7 +82,7 @@ static void remove_dead_code(ASTProg_T* ast)
                 {
                     ASTNode_T* arg = stack_top->args->items[i];
                     if(arg->kind == ND_ID)
-                        arg->referenced_obj->referenced = true;
+                        list_push(node_stack, arg);
                 }
                 break;
 
@@ -172,6 +172,7 @@ static void remove_dead_code(ASTProg_T* ast)
                 break;
 
             case ND_USING:
+            case ND_MATCH_TYPE:
                 if(stack_top->body)
                     list_push(node_stack, stack_top->body);
                 break;
-- 
2.43.0


From 4e25afcd31289ef3eb7df7eca33cb39607749622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:32 +0000
Subject: [PATCH 128/139] fix: the default case of a match is visited once, and
 a type match keeps its default

---
 src/compiler/ast/ast.h          | 5 ++++-
 src/compiler/ast/ast_iterator.c | 5 +----
 src/compiler/parser/validator.c | 6 +-----
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/compiler/ast/ast.h b/src/compiler/ast/ast.h
index 4bd4791..7dbfddc 100644
--- a/src/compiler/ast/ast.h
+++ b/src/compiler/ast/ast.h
@@ -104,7 +104,10 @@ struct AST_NODE_STRUCT
         ASTNode_T* return_val; // return
 
         // match statement
-        ASTNode_T* default_case;
+        struct {
+            ASTNode_T* selected_case; // body of the case matching a type, same as `body`
+            ASTNode_T* default_case;
+        };
     };
 
     union {
diff --git a/src/compiler/ast/ast_iterator.c b/src/compiler/ast/ast_iterator.c
index 3aceb11..d626ab6 100644
--- a/src/compiler/ast/ast_iterator.c
+++ b/src/compiler/ast/ast_iterator.c
@@ -318,12 +318,11 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
             break;
         
         case ND_MATCH_TYPE:
+            // the body is the one of a case
             ast_type(list, node->data_type, custom_args);
-            ast_node(list, node->body, custom_args);
             for(size_t i = 0; i < node->cases->size; i++)
                 ast_node(list, node->cases->items[i], custom_args);
             ast_node(list, node->default_case, custom_args);
-            ast_node(list, node->body, custom_args);
             break;
 
         case ND_LOOP:
@@ -350,10 +349,8 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
 
         case ND_MATCH:
             ast_node(list, node->condition, custom_args);
-            ast_node(list, node->body, custom_args);
             for(size_t i = 0; i < node->cases->size; i++)
                 ast_node(list, node->cases->items[i], custom_args);
-            ast_node(list, node->body, custom_args);
             ast_node(list, node->default_case, custom_args);
             break;
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 9ea2c5a..3b4262d 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -985,10 +985,6 @@ static bool contains_break(ASTNode_T* node)
         case ND_WITH:
             return contains_break(node->if_branch) || contains_break(node->else_branch);
         case ND_MATCH_TYPE:
-            for(size_t i = 0; i < node->cases->size; i++)
-                if(contains_break(((ASTNode_T*) node->cases->items[i])->body))
-                    return true;
-            return node->default_case && contains_break(node->default_case->body);
         case ND_USING:
             return contains_break(node->body);
         default:
@@ -2519,7 +2515,7 @@ static void iter_validate_struct_type(ASTType_T* struct_type, va_list args)
         {
             case ND_STRUCT_MEMBER:
                 if(expanded->kind == TY_VOID)
-                    throw_error(v->context, ERR_TYPE_ERROR_UNCR, member->data_type->tok, "struct member cannot be of type `void`");
+                    throw_error(v->context, ERR_TYPE_ERROR_UNCR, EITHER(member->data_type->tok, member->tok), "struct member cannot be of type `void`");
 
                 break;
             default:
-- 
2.43.0


From f3f4896be7d809c82e14774e84254bed2f6a0518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:32 +0000
Subject: [PATCH 129/139] fix: with statements on structs build with the C
 backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 015fe86..2436427 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -2270,9 +2270,16 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         c_gen_expr(cg, node->condition->right, true);
         c_println(cg, ";");
 
-        c_print(cg, ";\nif((");
-        c_gen_expr(cg, node->condition->left, true);
-        c_println(cg, ") != 0){");
+        ASTType_T* obj_type = unpack(node->obj->data_type);
+        if(obj_type && (obj_type->kind == TY_STRUCT || obj_type->kind == TY_ARRAY))
+            // aggregates have no zero value to compare to
+            c_println(cg, "if(1){");
+        else
+        {
+            c_print(cg, ";\nif((");
+            c_gen_expr(cg, node->condition->left, true);
+            c_println(cg, ") != 0){");
+        }
         c_gen_stmt(cg, node->if_branch);
 
         c_print(cg, "%s(", c_gen_identifier(cg->context, node->exit_fn->id));
-- 
2.43.0


From 09d439ed7ef28a58c176f31e8167a83192f12e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 130/139] fix: other names of an enum define its members again
 without optimization

---
 src/compiler/codegen/asm/asm_codegen.c      | 3 ++-
 src/compiler/codegen/transpiler/c_codegen.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f555656..87779ed 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -615,7 +615,8 @@ static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
             
             case OBJ_TYPEDEF:
             {
-                ASTType_T* ty = unpack(obj->data_type);
+                // other names of an enum have no members of their own
+                ASTType_T* ty = obj->data_type;
                 if(!ty)
                     continue;
                 if(ty->kind == TY_ENUM)
diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 2436427..0878259 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -934,7 +934,8 @@ static void c_gen_globals(CCodegenData_T* cg, List_T* objs)
             
             case OBJ_TYPEDEF:
             {
-                ASTType_T* ty = unpack(obj->data_type);
+                // other names of an enum have no members of their own
+                ASTType_T* ty = obj->data_type;
                 if(!ty)
                     continue;
                 if(ty->kind == TY_ENUM)
-- 
2.43.0


From 1e2cba1ab8cf9b22dd6fba64a9f0a08648622e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 131/139] fix: typeof of a variable without a declared type in
 the declaration of another one

---
 src/compiler/ast/ast_iterator.c | 30 +++++++++++++++++++++++++++---
 src/compiler/ast/ast_iterator.h |  1 +
 src/compiler/parser/validator.c |  1 +
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ast/ast_iterator.c b/src/compiler/ast/ast_iterator.c
index d626ab6..efa0672 100644
--- a/src/compiler/ast/ast_iterator.c
+++ b/src/compiler/ast/ast_iterator.c
@@ -126,6 +126,23 @@ static void ast_obj(const ASTIteratorList_T* list, ASTObj_T* obj, va_list custom
     list_fn(list->obj_end_fns[obj->kind], obj, custom_args);
 }
 
+// the number of variables of `block` which are declared before or initialized by the statement at `stmt`
+static size_t locals_before(ASTNode_T* block, size_t stmt, size_t first, size_t num_locals)
+{
+    for(size_t i = stmt; first < num_locals && i < block->stmts->size; i++)
+    {
+        ASTNode_T* init = block->stmts->items[i];
+        if(init->kind == ND_EXPR_STMT)
+            init = init->expr;
+        if(!init || init->kind != ND_ASSIGN || !init->is_initializing)
+            continue;
+        for(size_t l = first; l < num_locals; l++)
+            if(block->locals->items[l] == init->referenced_obj)
+                return i == stmt ? l + 1 : l;
+    }
+    return num_locals;
+}
+
 static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list custom_args)
 {
     if(!node)
@@ -287,11 +304,18 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
             break;
 
         case ND_BLOCK:
-            for(size_t i = 0; i < node->locals->size; i++)
-                ast_obj(list, node->locals->items[i], custom_args);
+        {
+            // the type of a variable may depend on the types of the variables initialized before it
+            size_t num_locals = node->locals->size, next_local = 0;
             for(size_t i = 0; i < node->stmts->size; i++)
+            {
+                for(size_t end = list->locals_in_order ? locals_before(node, i, next_local, num_locals) : num_locals; next_local < end; next_local++)
+                    ast_obj(list, node->locals->items[next_local], custom_args);
                 ast_node(list, node->stmts->items[i], custom_args);
-            break;
+            }
+            for(; next_local < num_locals; next_local++)
+                ast_obj(list, node->locals->items[next_local], custom_args);
+        } break;
 
         case ND_IF:
             ast_node(list, node->condition, custom_args);
diff --git a/src/compiler/ast/ast_iterator.h b/src/compiler/ast/ast_iterator.h
index 5ce9a21..97fad29 100644
--- a/src/compiler/ast/ast_iterator.h
+++ b/src/compiler/ast/ast_iterator.h
@@ -27,6 +27,7 @@ typedef struct AST_ITERATOR_LIST_STRUCT
 
     bool iterate_over_right_members;
     bool iterate_only_objs;
+    bool locals_in_order; // visit variables after the statements which initialize earlier ones
 } ASTIteratorList_T;
 
 void ast_iterate(const ASTIteratorList_T* list, ASTProg_T* ast, ...);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 3b4262d..8a59d1a 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2392,6 +2392,7 @@ static void iter_validate_type(ASTType_T* type, va_list args);
 static void validate_obj_deep(Validator_T* v, ASTObj_T* obj)
 {
     static const ASTIteratorList_T iter = {
+        .locals_in_order = true,
         .obj_start_fns = {
             [OBJ_FUNCTION] = iter_enter_function,
             [OBJ_TYPEDEF] = iter_enter_typedef,
-- 
2.43.0


From 0126ac786d93ebf28cd7c1e5b381ed0c9d9d52e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 132/139] fix: escape sequences in inline assembly

---
 src/compiler/codegen/asm/asm_codegen.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 87779ed..143e132 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2667,8 +2667,11 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             switch(arg->kind)
             {
                 case ND_STR:
-                    asm_print(cg, "%s",arg->str_val);
-                    break;
+                {
+                    const char* str = arg->str_val;
+                    for(size_t j = 0; str[j]; j++)
+                        asm_print(cg, "%c", str[j] == '\\' ? (j++, escape_sequence(str[j], &str[j], &j)) : (u8) str[j]);
+                } break;
                 case ND_INT:
                     asm_print(cg, "$%d", arg->int_val);
                     break;
-- 
2.43.0


From d74ea67a9d4f7704055594b9d6b170e3aee03d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:50 +0000
Subject: [PATCH 133/139] fix: the members of a struct unpacked backwards are
 passed in order (C)

---
 src/compiler/codegen/transpiler/c_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 0878259..fb72565 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1525,7 +1525,7 @@ static void c_gen_unpack_arg(CCodegenData_T* cg, ASTNode_T* arg)
         if(is_struct) {
             c_putc(cg, '(');
             c_gen_expr(cg, arg, true);
-            c_print(cg, ")." ID_PREFIX "%s", ((ASTNode_T*)arg_type->members->items[i])->id->callee);
+            c_print(cg, ")." ID_PREFIX "%s", ((ASTNode_T*)arg_type->members->items[index])->id->callee);
         }
         else
             c_gen_index2(cg, arg, &(ASTNode_T){.kind = ND_LONG, .data_type = (ASTType_T*) primitives[TY_U64], .long_val = index}, false);
-- 
2.43.0


From 38d8d706a766c4a43ec3cb5c4a4a795f1a3566e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:50 +0000
Subject: [PATCH 134/139] fix: initializers of constant arrays do not compile
 as C

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index fb72565..1ca3986 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -540,6 +540,10 @@ static void c_gen_struct(CCodegenData_T* cg, ASTType_T* type, const char* name)
 static void c_hash_array(CCodegenData_T* cg, char buffer[BUFSIZ], ASTType_T* type)
 {
     ast_type_to_str(cg->context, buffer, type, BUFSIZ);
+
+    // constant types are not different types in C
+    for(char* qualifier; (qualifier = strstr(buffer, "const "));)
+        memmove(qualifier, qualifier + 6, strlen(qualifier + 6) + 1);
 }
 
 static void c_gen_typedef(CCodegenData_T* cg, ASTObj_T* obj);
-- 
2.43.0


From a29cd21734c8f3875ac5480cfb3a94d89f29f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:56 +0000
Subject: [PATCH 135/139] fix: outputs of inline assembly may not share a
 register with inputs in C

---
 src/compiler/codegen/transpiler/c_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 1ca3986..6fa640d 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1440,7 +1440,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
         ASTNode_T* arg = node->args->items[i];
         if(arg->kind != ND_ID || !arg->output)
             continue;
-        c_print(cg, "\"=r\"(%s)%c", c_gen_identifier(cg->context, arg->id), --num_output_vars ? ',' : '\n');
+        c_print(cg, "\"=&r\"(%s)%c", c_gen_identifier(cg->context, arg->id), --num_output_vars ? ',' : '\n');
     }
 
     c_putc(cg, ':');
-- 
2.43.0


From 3ce545234e09f0e99c18be85e60be5cf89e71a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:06 +0000
Subject: [PATCH 136/139] fix: tuple types with different components are
 different types, also in namespaces, and tuple literals have a layout

---
 src/compiler/ast/ast.c          |   5 +-
 src/compiler/ast/ast.h          |   5 ++
 src/compiler/parser/parser.c    |  77 +----------------------
 src/compiler/parser/validator.c | 108 ++++++++++++++++++++++++++++++++
 4 files changed, 118 insertions(+), 77 deletions(-)

diff --git a/src/compiler/ast/ast.c b/src/compiler/ast/ast.c
index 753a0db..1c35966 100644
--- a/src/compiler/ast/ast.c
+++ b/src/compiler/ast/ast.c
@@ -269,7 +269,10 @@ static char* append_type_str(Context_T* context, char* dest, const ASTType_T* ty
             strcat(dest, ")");
             break;
         case TY_UNDEF:
-            ast_id_to_str(dest, ty->id, size);
+            if(ty->base && str_starts_with(ty->id->callee, TUPLE_ID_PREFIX))
+                append_type_str(context, dest, ty->base, size);
+            else
+                ast_id_to_str(dest, ty->id, size);
             break;
         case TY_TYPEOF:
             strcat(dest, "<typeof>");
diff --git a/src/compiler/ast/ast.h b/src/compiler/ast/ast.h
index 7dbfddc..94e838e 100644
--- a/src/compiler/ast/ast.h
+++ b/src/compiler/ast/ast.h
@@ -176,6 +176,9 @@ struct AST_IDENTIFIER_STRUCT
     bool global_scope;
 } __attribute__((packed));
 
+// the names of the types which are generated for tuples
+#define TUPLE_ID_PREFIX "__csp_tuple_"
+
 struct AST_TYPE_STRUCT 
 {
     ASTTypeKind_T kind;
@@ -217,6 +220,8 @@ struct AST_TYPE_STRUCT
     List_T* vtables;
 
     u64 num_indices;
+
+    bool is_tuple; // tuples are structs until their identifiers got resolved
 } __attribute__((packed));
 
 struct AST_OBJ_STRUCT 
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 80b2534..49ae47b 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -37,7 +37,6 @@ typedef struct PARSER_STRUCT
     ASTType_T* return_type;  // of the function or lambda being parsed
 
     size_t cur_lambda_id;
-    size_t cur_tuple_id;
 
     const HashMap_T* operator_context;
 
@@ -455,50 +454,6 @@ static inline bool is_executable(ASTNode_T* n)
     return n->kind == ND_CALL || n->kind == ND_ASSIGN || n->kind == ND_INC || n->kind == ND_DEC || n->kind == ND_CAST || n->kind == ND_MEMBER || n->kind == ND_ASM;
 }
 
-static bool check_type(ASTType_T* a, ASTType_T* b)
-{
-    if(a->kind != b->kind)
-        return false;
-    
-    /*if(a->callee != NULL && b->callee != NULL && strcmp(a->callee, b->callee) != 0)
-        return false;
-    
-    if((a->callee == NULL && b->callee != NULL) || (a->callee != NULL && b->callee == NULL))
-        return false;*/
-    
-    if(a->is_primitive != b->is_primitive)
-        return false;
-    
-    if((a->base == NULL && b->base != NULL) || (a->base != NULL && b->base == NULL))
-        return false;
-
-    if(a->base && b->base)
-        return check_type(a->base, b->base);
-
-    return true;
-}
-
-static ASTObj_T* get_compatible_tuple(Parser_T* p, ASTType_T* tuple)
-{
-    for(size_t i = 0; i < p->ast->objs->size; i++)
-    {
-        ASTObj_T* obj = p->ast->objs->items[i];
-        if(obj->kind == OBJ_TYPEDEF && str_starts_with(obj->id->callee, "__csp_tuple_") && obj->data_type->members->size == tuple->members->size)
-        {
-            for(size_t j = 0; j < obj->data_type->members->size; j++)
-            {
-                if(!check_type(((ASTNode_T*) obj->data_type->members->items[j])->data_type, ((ASTNode_T*) tuple->members->items[j])->data_type))
-                    goto cont;
-            }
-            return obj;
-        }
-    cont:
-        ;
-    }
-
-    return NULL;
-}
-
 /////////////////////////////////
 // Parser                      //
 /////////////////////////////////
@@ -738,36 +693,6 @@ static ASTType_T* parse_interface_type(Parser_T* p)
     return interface;
 }
 
-static ASTObj_T* parser_generate_tuple_type(Parser_T* p, ASTType_T* tuple)
-{
-    ASTObj_T* existing_tydef = get_compatible_tuple(p, tuple);
-    if(existing_tydef)
-    {
-        tuple->kind = TY_UNDEF;
-        tuple->id = existing_tydef->id;
-
-        return existing_tydef;
-    }
-    else
-    {
-        ASTObj_T* tydef = init_ast_obj(&p->context->raw_allocator, OBJ_TYPEDEF, tuple->tok);
-        tydef->data_type = allocator_malloc(&p->context->raw_allocator, sizeof(struct AST_TYPE_STRUCT));
-        *tydef->data_type = *tuple;
-
-        char* id = calloc(35, sizeof(char));
-        sprintf(id, "__csp_tuple_%lu__", p->cur_tuple_id++);
-        CONTEXT_ALLOC_REGISTER(p->context, (void*) id);
-
-        tydef->id = init_ast_identifier(&p->context->raw_allocator, tuple->tok, id);
-
-        list_push(p->ast->objs, tydef);
-        tuple->kind = TY_UNDEF;
-        tuple->id = tydef->id;
-
-        return tydef;
-    }
-}
-
 static ASTType_T* parse_type(Parser_T* p)
 {
     ASTType_T* type = get_primitive_type(&p->context->raw_allocator, p->tok->value);
@@ -842,7 +767,7 @@ static ASTType_T* parse_type(Parser_T* p)
                         parser_consume(p, TOKEN_COMMA, "expect `,` between tuple argument types");
                 }
                 parser_consume(p, TOKEN_RBRACE, "expect `}` after tuple argument types");
-                parser_generate_tuple_type(p, type);
+                type->is_tuple = true;
                 break;
             case TOKEN_TYPEOF:
                 type = init_ast_type(&p->context->raw_allocator, TY_TYPEOF, p->tok);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 8a59d1a..c9cdc6b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -421,6 +421,109 @@ static void leave_function_scope(ASTObj_T* function, va_list args)
     end_scope(v);
 }
 
+// the length of an array type, if it is already known
+static bool known_array_length(ASTType_T* array, u64* length)
+{
+    ASTNode_T* node = array->num_indices_node;
+
+    *length = array->num_indices;
+    if(*length || !node)
+        return true;
+
+    if(node->kind == ND_INT)
+        *length = node->int_val;
+    else if(node->kind == ND_LONG || node->kind == ND_ULONG)
+        *length = node->ulong_val;
+    return *length != 0;
+}
+
+static bool tuple_member_types_equal(ASTType_T* a, ASTType_T* b)
+{
+    if(a == b)
+        return true;
+    if(a->kind != b->kind || a->is_constant != b->is_constant)
+        return false;
+
+    switch(a->kind)
+    {
+        case TY_UNDEF:
+            return a->referenced_obj && a->referenced_obj == b->referenced_obj;
+
+        case TY_PTR:
+        case TY_DYN:
+        case TY_VLA:
+            return tuple_member_types_equal(a->base, b->base);
+
+        case TY_ARRAY:
+        case TY_C_ARRAY:
+        {
+            u64 a_length, b_length;
+            return known_array_length(a, &a_length) && known_array_length(b, &b_length) && a_length == b_length && tuple_member_types_equal(a->base, b->base);
+        }
+
+        case TY_FN:
+            if(a->arg_types->size != b->arg_types->size || is_variadic(a) != is_variadic(b) || !tuple_member_types_equal(a->base, b->base))
+                return false;
+            for(size_t i = 0; i < a->arg_types->size; i++)
+                if(!tuple_member_types_equal(a->arg_types->items[i], b->arg_types->items[i]))
+                    return false;
+            return true;
+
+        case TY_STRUCT:
+        case TY_ENUM:
+        case TY_INTERFACE:
+        case TY_TYPEOF:
+            return false;
+
+        default:
+            return true;
+    }
+}
+
+// find the type for tuples with these members; generate it if it is the first one
+static ASTObj_T* get_tuple_type(Validator_T* v, ASTType_T* tuple)
+{
+    size_t num_tuples = 0;
+    for(size_t i = 0; i < v->ast->objs->size; i++)
+    {
+        ASTObj_T* obj = v->ast->objs->items[i];
+        if(obj->kind != OBJ_TYPEDEF || !str_starts_with(obj->id->callee, TUPLE_ID_PREFIX))
+            continue;
+        num_tuples++;
+
+        List_T* members = obj->data_type->members;
+        bool equal = members->size == tuple->members->size;
+        for(size_t j = 0; equal && j < members->size; j++)
+            equal = tuple_member_types_equal(((ASTNode_T*) members->items[j])->data_type, ((ASTNode_T*) tuple->members->items[j])->data_type);
+        if(equal)
+            return obj;
+    }
+
+    ASTObj_T* tydef = init_ast_obj(&v->context->raw_allocator, OBJ_TYPEDEF, tuple->tok);
+    tydef->data_type = init_ast_type(&v->context->raw_allocator, TY_STRUCT, tuple->tok);
+    tydef->data_type->members = tuple->members;
+
+    char* id = calloc(35, sizeof(char));
+    sprintf(id, TUPLE_ID_PREFIX "%lu__", num_tuples);
+    CONTEXT_ALLOC_REGISTER(v->context, (void*) id);
+    tydef->id = init_ast_identifier(&v->context->raw_allocator, tuple->tok, id);
+    tydef->id->global_scope = true;
+
+    hashmap_put(v->global_scope->objs, id, tydef);
+    list_push(v->ast->objs, tydef);
+    return tydef;
+}
+
+static void name_tuple_type(Validator_T* v, ASTType_T* tuple)
+{
+    ASTObj_T* tydef = get_tuple_type(v, tuple);
+    tuple->kind = TY_UNDEF;
+    tuple->is_tuple = false;
+    tuple->id = tydef->id;
+    tuple->referenced_obj = tydef;
+    tuple->base = tydef->data_type;
+}
+
 static void enter_type_scope(ASTType_T* type, va_list args)
 {
     GET_VALIDATOR(args);
@@ -451,6 +554,8 @@ static void leave_type_scope(ASTType_T* type, va_list args)
     case TY_ENUM:
     case TY_STRUCT:
         end_scope(v);
+        if(type->is_tuple)
+            name_tuple_type(v, type);
         break;
     default:
         break;
@@ -2038,6 +2143,9 @@ static void validate_anon_struct_lit(Validator_T* v, ASTNode_T* struct_lit)
         else
             throw_error(v->context, ERR_TYPE_ERROR, arg->tok, "cannot resolve data type");
     }
+    name_tuple_type(v, type);
+    type->size = type->base->size = get_type_size(v, type->base);
+    type->align = type->base->align = get_type_align(v, type->base);
     struct_lit->data_type = type;
 }
 
-- 
2.43.0


From dbe74bc6fee15282bd19bd225681438f55100054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:06 +0000
Subject: [PATCH 137/139] fix: struct literals take the type wanted where they
 stand

---
 src/compiler/parser/typechecker.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 7c0ba83..8ede3fe 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -204,7 +204,7 @@ static void adapt_array_lit(TypeChecker_T* t, ASTNode_T* expr, ASTType_T* expect
     for(size_t i = 0; i < expr->args->size; i++)
     {
         ASTNode_T* arg = expr->args->items[i];
-        if(arg->unpack_mode || (!is_numeric(base) && arg->kind != ND_ARRAY))
+        if(arg->unpack_mode || (!is_numeric(base) && arg->kind != ND_ARRAY && arg->kind != ND_STRUCT))
             return;
         adapt_array_lit(t, arg, base);
         if(!types_equal(t->context, arg->data_type, expected->base) && implicitly_castable(t, arg->tok, arg->data_type, base) != CAST_OK)
@@ -483,7 +483,7 @@ static void typecheck_array_lit(ASTNode_T* a_lit, va_list args)
             arg_type = unpack(arg_type)->base;
         }
 
-        if(types_equal(t->context, arg_type, base_ty))
+        if(types_equal(t->context, arg_type, base_ty) || types_equal(t->context, arg_type, a_lit->data_type->base))
             continue;
 
         ImplicitCastResult_T result = implicitly_castable(t, arg->tok, arg_type, base_ty);
@@ -924,7 +924,12 @@ ASTNode_T* implicit_cast(TypeChecker_T* t, Token_T* tok, ASTNode_T* expr, ASTTyp
 
     // struct literals get built directly at their destination
     if(expr->kind == ND_STRUCT && unpack(to)->kind == TY_STRUCT)
+    {
+        expr->data_type = to;
+        if(expr->buffer)
+            expr->buffer->data_type = to;
         return expr;
+    }
 
     ASTNode_T* cast = init_ast_node(&t->context->raw_allocator, ND_CAST, tok);
     cast->data_type = to;
-- 
2.43.0


From 4ba02b3d7e4a7c506aeebadcd07da8cc2aa83418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:06 +0000
Subject: [PATCH 138/139] fix: flags of packages without a letter (-Wl,
 -pthread, files) and with special characters are passed on unchanged

---
 src/compiler/platform/pkg_config.c | 56 ++++--------------------------
 1 file changed, 7 insertions(+), 49 deletions(-)

diff --git a/src/compiler/platform/pkg_config.c b/src/compiler/platform/pkg_config.c
index f7eea25..d836d6d 100644
--- a/src/compiler/platform/pkg_config.c
+++ b/src/compiler/platform/pkg_config.c
@@ -29,7 +29,7 @@ static bool pkg_error_handler(const char* msg, const pkgconf_client_t* client, c
         return false;
     PkgErrorHandlerData_T* data = (PkgErrorHandlerData_T*) raw_data;
 
-    throw_error(data->context, ERR_PKG_CONFIG, data->token, msg);
+    throw_error(data->context, ERR_PKG_CONFIG, data->token, "%s", msg);
     return true;
 }
 
@@ -49,50 +49,6 @@ static const char* pkg_errf_str(int errf) {
     }
 }
 
-static char* fragment_quote(const pkgconf_fragment_t *frag)
-{
-	const char *src = frag->data;
-	ssize_t outlen = strlen(src) + 10;
-	char *out, *dst;
-
-	if (frag->data == NULL)
-		return NULL;
-
-	out = dst = calloc(outlen, 1);
-
-	for (; *src; src++)
-	{
-		if (((*src < ' ') ||
-		    (*src >= (' ' + (frag->merged ? 1 : 0)) && *src < '$') ||
-		    (*src > '$' && *src < '(') ||
-		    (*src > ')' && *src < '+') ||
-		    (*src > ':' && *src < '=') ||
-		    (*src > '=' && *src < '@') ||
-		    (*src > 'Z' && *src < '\\') ||
-#ifndef _WIN32
-		    (*src == '\\') ||
-#endif
-		    (*src > '\\' && *src < '^') ||
-		    (*src == '`') ||
-		    (*src > 'z' && *src < '~') ||
-		    (*src > '~')))
-			*dst++ = '\\';
-
-		*dst++ = *src;
-
-		if ((ptrdiff_t)(dst - out) + 2 > outlen)
-		{
-			ptrdiff_t offset = dst - out;
-			outlen *= 2;
-			out = realloc(out, outlen);
-			dst = out + offset;
-		}
-	}
-
-	*dst = 0;
-	return out;
-}
-
 static void pkg_try_alternative(Context_T* context, const char* name, Token_T* token)
 {
     bool emit_warning = true;
@@ -150,15 +106,17 @@ void pkg_config(Context_T* context, const char* name, Token_T* token)
     PKGCONF_FOREACH_LIST_ENTRY(libs.head, node)
     {
         const pkgconf_fragment_t* fragment = node->data;
-        char* quoted = fragment_quote(fragment);
-        size_t len = strlen(quoted) + 3;
+        size_t len = strlen(fragment->data) + 3;
 
         char* buf = calloc(len, sizeof(char));
         CONTEXT_ALLOC_REGISTER(context, (void*) buf);
 
-        snprintf(buf, len, "-%c%s", fragment->type, quoted);
+        // flags like `-pthread` or `-Wl,...` and file names have no type; nothing gets quoted since no shell is involved
+        if(fragment->type)
+            snprintf(buf, len, "-%c%s", fragment->type, fragment->data);
+        else
+            snprintf(buf, len, "%s", fragment->data);
         list_push(context->link_mode.libs, buf);
-        free(quoted);
     }
 
 free_fragment:
-- 
2.43.0


From a0f7e39a736c142c2d087adb979a708c90621096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:06 +0000
Subject: [PATCH 139/139] fix: libraries contain what they use of archives, and
 ld gets the flags of packages in its own form

---
 src/compiler/codegen/asm/linker.c | 42 +++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/compiler/codegen/asm/linker.c b/src/compiler/codegen/asm/linker.c
index 25d78dc..a7c28ba 100644
--- a/src/compiler/codegen/asm/linker.c
+++ b/src/compiler/codegen/asm/linker.c
@@ -1,5 +1,7 @@
 #include "linker.h"
 
+#include <string.h>
+
 #include "config.h"
 #include "error/error.h"
 #include "io/io.h"
@@ -45,6 +47,30 @@ static void static_linker_flags(Context_T* context, List_T* args)
     list_push(args, "-static");
 }
 
+// adds the libraries; flags meant for the C compiler are translated to those of the linker
+static void library_flags(Context_T* context, List_T* args)
+{
+    for(size_t i = 0; i < context->link_mode.extra->size; i++)
+        list_push(args, context->link_mode.extra->items[i]);
+
+    for(size_t i = 0; i < context->link_mode.libs->size; i++)
+    {
+        char* lib = context->link_mode.libs->items[i];
+
+        if(strcmp(lib, "-pthread") == 0)
+            list_push(args, "-lpthread");
+        else if(strncmp(lib, "-Wl,", 4) == 0)
+        {
+            char* flags = strdup(lib + 4);
+            CONTEXT_ALLOC_REGISTER(context, (void*) flags);
+            for(char* flag = strtok(flags, ","); flag; flag = strtok(NULL, ","))
+                list_push(args, flag);
+        }
+        else
+            list_push(args, lib);
+    }
+}
+
 static int link_exec(Context_T* context, const char* target, char* obj_file) {
     List_T* args = init_list();
     list_push(args, context->ld);
@@ -71,12 +97,7 @@ static int link_exec(Context_T* context, const char* target, char* obj_file) {
             break;
     }
 
-    for(size_t i = 0; i < context->link_mode.extra->size; i++)
-        list_push(args, context->link_mode.extra->items[i]);
-
-    for(size_t i = 0; i < context->link_mode.libs->size; i++)
-        list_push(args, context->link_mode.libs->items[i]);
-
+    library_flags(context, args);
     list_push(args, NULL);
 
     i32 exit_code = subprocess((char*) args->items[0], (char* const*) args->items, false);
@@ -88,6 +109,7 @@ static int link_lib(Context_T* context, const char* target, char* obj_file)
 {
     List_T* args = init_list();
     list_push(args, context->ld);
+    list_push(args, obj_file);
     list_push(args, "-o");
     list_push(args, (void*) target);
     list_push(args, "-m");
@@ -102,13 +124,7 @@ static int link_lib(Context_T* context, const char* target, char* obj_file)
     if(context->link_mode.mode == LINK_STATIC)
         list_push(args, "-static");
 
-    for(size_t i = 0; i < context->link_mode.extra->size; i++)
-        list_push(args, context->link_mode.extra->items[i]);
-
-    for(size_t i = 0; i < context->link_mode.libs->size; i++)
-        list_push(args, context->link_mode.libs->items[i]);
-
-    list_push(args, obj_file);
+    library_flags(context, args);
     list_push(args, NULL);
 
     i32 exit_code = subprocess((char*) args->items[0], (char* const*) args->items, false);
-- 
2.43.0

