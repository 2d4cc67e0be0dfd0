From bee5ba7daa02613fa073be61a1b280b18d586ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:40 +0000
Subject: [PATCH 01/62] fix: reduce the value of unsigned compound assignment
 modulo its type

---
 .../ast-translator/nodes/assignment_operator.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 5f5b76c..9a715d4 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -112,6 +112,19 @@ static kefir_result_t reorder_assignment_arguments(struct kefir_irbuilder_block
     return KEFIR_OK;
 }
 
+static kefir_result_t normalize_unsigned_result(struct kefir_ast_translator_context *context,
+                                                struct kefir_irbuilder_block *builder,
+                                                const struct kefir_ast_type *type) {
+    REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(type), KEFIR_OK);
+    // Signed overflow is undefined, whereas unsigned result shall be reduced modulo its range
+    kefir_bool_t signedness;
+    REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, type, &signedness));
+    if (!signedness) {
+        REQUIRE_OK(kefir_ast_translate_typeconv_normalize(builder, context->ast_context->type_traits, type));
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t translate_multiplication(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                                struct kefir_irbuilder_block *builder,
                                                const struct kefir_ast_assignment_operator *node) {
@@ -158,6 +171,7 @@ static kefir_result_t translate_multiplication(struct kefir_mem *mem, struct kef
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMUL, 0));
             break;
     }
+    REQUIRE_OK(normalize_unsigned_result(context, builder, common_type));
     REQUIRE_OK(
         kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
@@ -216,6 +230,7 @@ static kefir_result_t translate_divide(struct kefir_mem *mem, struct kefir_ast_t
             }
         } break;
     }
+    REQUIRE_OK(normalize_unsigned_result(context, builder, common_type));
     REQUIRE_OK(
         kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
@@ -294,6 +309,7 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
             return KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unexpected assignment operation");
     }
 
+    REQUIRE_OK(normalize_unsigned_result(context, builder, common_type));
     REQUIRE_OK(
         kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
@@ -349,6 +365,7 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IADD, 0));
                 break;
         }
+        REQUIRE_OK(normalize_unsigned_result(context, builder, common_type));
         REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type,
                                                 result_normalized_type));
     } else {
@@ -433,6 +450,7 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_ISUB, 0));
                 break;
         }
+        REQUIRE_OK(normalize_unsigned_result(context, builder, common_type));
         REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type,
                                                 result_normalized_type));
     } else {
-- 
2.43.0


From b974ff1cb526435f31bdc40acab45b1a5d51ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:37 +0000
Subject: [PATCH 02/62] fix: convert integer operands of the conditional
 operator to their common type

---
 source/ast-translator/nodes/conditional_operator.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/ast-translator/nodes/conditional_operator.c b/source/ast-translator/nodes/conditional_operator.c
index 4b0f303..f585a8c 100644
--- a/source/ast-translator/nodes/conditional_operator.c
+++ b/source/ast-translator/nodes/conditional_operator.c
@@ -20,6 +20,8 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
+#include "kefir/ast-translator/util.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 
@@ -52,5 +54,15 @@ kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *m
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp1Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
     }
 
+    const struct kefir_ast_type *result_type = kefir_ast_translator_normalize_type(node->base.properties.type);
+    if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(result_type)) {
+        const struct kefir_ast_node_base *left_expr = node->expr1 != NULL ? node->expr1 : node->condition;
+        const struct kefir_ast_type *left_type = kefir_ast_translator_normalize_type(left_expr->properties.type);
+        const struct kefir_ast_type *right_type = kefir_ast_translator_normalize_type(node->expr2->properties.type);
+        if (!KEFIR_AST_TYPE_SAME(left_type, result_type) || !KEFIR_AST_TYPE_SAME(right_type, result_type)) {
+            REQUIRE_OK(kefir_ast_translate_typeconv_normalize(builder, context->ast_context->type_traits, result_type));
+        }
+    }
+
     return KEFIR_OK;
 }
-- 
2.43.0


From 0fa28603de9b186ee6746ad105ee5a203f8d7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:33 +0000
Subject: [PATCH 03/62] fix: clear the upper half of the stack slot in
 conversions to float

---
 source/runtime/amd64_sysv.s | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 8b869c9..6034b1b 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -977,7 +977,8 @@ define_opcode intcf32
     mov rax, [rsp]
     pxor xmm0, xmm0
     cvtsi2ss xmm0, rax
-    movss [rsp], xmm0
+    movd eax, xmm0
+    mov [rsp], rax
     end_opcode
 
 define_opcode intcf64
@@ -993,7 +994,8 @@ define_opcode uintcf32
     test DATA_REG, DATA_REG
     js __kefirrt_uintcf32_signed
     cvtsi2ss xmm0, DATA_REG
-    movss [rsp], xmm0
+    movd eax, xmm0
+    mov [rsp], rax
     end_opcode
 __kefirrt_uintcf32_signed:
     mov DATA2_REG, DATA_REG
@@ -1002,7 +1004,8 @@ __kefirrt_uintcf32_signed:
     or  DATA_REG, DATA2_REG
     cvtsi2ss xmm0, DATA_REG
     addss xmm0, xmm0
-    movss [rsp], xmm0
+    movd eax, xmm0
+    mov [rsp], rax
     end_opcode
 
 define_opcode uintcf64
@@ -1032,7 +1035,8 @@ define_opcode f32cf64
 define_opcode f64cf32
     movsd xmm0, [rsp]
     cvtsd2ss xmm0, xmm0
-    movss [rsp], xmm0
+    movd eax, xmm0
+    mov [rsp], rax
     end_opcode
 
 define_opcode ldcint    
-- 
2.43.0


From 07d24367607ad0fb2fb8fcd75ceafa0889fcd03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:33 +0000
Subject: [PATCH 04/62] fix: convert floating values above the signed 64-bit
 range to unsigned integers

---
 source/runtime/amd64_sysv.s | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 6034b1b..dc84315 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -963,15 +963,35 @@ define_opcode ldtrunc1
 
 define_opcode f32cint
     movss xmm0, [rsp]
+    comiss xmm0, DWORD PTR [__kefirrt_f32cint_constant]
+    jae __kefirrt_f32cint_unsigned
     cvttss2si rax, xmm0
     mov [rsp], rax
     end_opcode
+__kefirrt_f32cint_unsigned:
+    subss xmm0, DWORD PTR [__kefirrt_f32cint_constant]
+    cvttss2si rax, xmm0
+    btc rax, 63
+    mov [rsp], rax
+    end_opcode
+__kefirrt_f32cint_constant:
+    .long   1593835520
 
 define_opcode f64cint
     movsd xmm0, [rsp]
+    comisd xmm0, QWORD PTR [__kefirrt_f64cint_constant]
+    jae __kefirrt_f64cint_unsigned
+    cvttsd2si rax, xmm0
+    mov [rsp], rax
+    end_opcode
+__kefirrt_f64cint_unsigned:
+    subsd xmm0, QWORD PTR [__kefirrt_f64cint_constant]
     cvttsd2si rax, xmm0
+    btc rax, 63
     mov [rsp], rax
     end_opcode
+__kefirrt_f64cint_constant:
+    .quad   0x43e0000000000000
 
 define_opcode intcf32
     mov rax, [rsp]
@@ -1040,7 +1060,15 @@ define_opcode f64cf32
     end_opcode
 
 define_opcode ldcint    
+    fld DWORD PTR [__kefirrt_f32cint_constant]
     fld TBYTE PTR [rsp]
+    xor DATA_REG, DATA_REG
+    fcomi st(0), st(1)
+    jb __kefirrt_ldcint_signed
+    fsub st(0), st(1)
+    bts DATA_REG, 63
+__kefirrt_ldcint_signed:
+    fstp st(1)
     fnstcw WORD PTR [rsp]
     movzx eax, WORD PTR [rsp]
     or eax, 3072
@@ -1049,6 +1077,7 @@ define_opcode ldcint
     fistp QWORD PTR [rsp + 8]
     fldcw WORD PTR [rsp]
     add rsp, 8
+    xor [rsp], DATA_REG
     end_opcode
 
 define_opcode intcld
-- 
2.43.0


From 13a79fc011988ea0e2e9284dac8bf737daaf5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:33 +0000
Subject: [PATCH 05/62] fix: test a long double condition of the conditional
 operator as one value

---
 .../ast-translator/nodes/conditional_operator.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/ast-translator/nodes/conditional_operator.c b/source/ast-translator/nodes/conditional_operator.c
index f585a8c..fd5d618 100644
--- a/source/ast-translator/nodes/conditional_operator.c
+++ b/source/ast-translator/nodes/conditional_operator.c
@@ -22,6 +22,7 @@
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/util.h"
+#include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 
@@ -34,8 +35,13 @@ kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *m
     REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
     REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST conditional operator node"));
 
+    const struct kefir_ast_type *condition_type =
+        KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->condition->properties.type);
     if (node->expr1 != NULL) {
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
+        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+        }
         kefir_size_t jmp1Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr2, builder, context));
@@ -46,9 +52,18 @@ kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *m
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp2Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
     } else {
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 0));
+        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+        } else {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 0));
+        }
         kefir_size_t jmp1Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
+        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
+        }
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr2, builder, context));
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp1Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
-- 
2.43.0


From a43249ce8d0375ab473da25a448ea9be270bb7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:01 +0000
Subject: [PATCH 06/62] fix: bit-field accesses of full 64-bit width

Shifting by 64 wraps around on amd64, therefore the mask of a 64-bit wide
bit-field was computed as zero: loads always produced zero and stores
merged new value into the old one.
---
 source/runtime/amd64_sysv.s | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index dc84315..8879ac8 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -673,12 +673,14 @@ define_opcode bcopy
 define_opcode extubits
     mov edx, [INSTR_ARG_PTR]            # Offset
     mov ecx, [INSTR_ARG_PTR4]           # Width
-    mov r11, 1                          # Mask = (1 << Width) - 1
-    shlx r11, r11, rcx
-    sub r11, 1
-    pop rax                             # Value = (Bitfield >> Offset) & Mask
-    shrx rax, rax, rdx
-    and rax, r11
+    add rdx, rcx                        # rdx = 64 - (Width + Offset)
+    neg rdx
+    add rdx, 64
+    neg rcx                             # rcx = 64 - Width
+    add rcx, 64
+    pop rax                             # Value = (Bitfield << rdx)) >> rcx
+    shlx rax, rax, rdx
+    shrx rax, rax, rcx
     push rax
     end_opcode
 
@@ -709,10 +711,11 @@ define_opcode insertbits
     sub rax, rdx                        # RAX = 64 - Width - Offset
     shrx rsi, rsi, rax
 
-    # Mask bit-field: Bit-field = Bit-field & ~(((1 << Width) - 1) << Offset)
-    mov rax, 1
-    shlx rax, rax, rcx
-    sub rax, 1
+    # Mask bit-field: Bit-field = Bit-field & ~((-1 >> (64 - Width)) << Offset)
+    neg rcx                             # RCX = 64 - Width
+    add rcx, 64
+    mov rax, -1
+    shrx rax, rax, rcx
     shlx rax, rax, rdx
     not rax
     and rdi, rax
-- 
2.43.0


From 90e793416a6ba87cb5beb5167517b6caff1ec21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:01 +0000
Subject: [PATCH 07/62] fix: value of prefix increment and decrement of a
 bit-field

The result shall be the value of the bit-field after the assignment,
thus it needs to be reduced to the bit-field width.
---
 source/ast-translator/nodes/unary_operation.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/ast-translator/nodes/unary_operation.c b/source/ast-translator/nodes/unary_operation.c
index 20c4040..b1a1d2c 100644
--- a/source/ast-translator/nodes/unary_operation.c
+++ b/source/ast-translator/nodes/unary_operation.c
@@ -247,6 +247,18 @@ static kefir_result_t translate_preincdec(struct kefir_mem *mem, struct kefir_as
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
     }
     REQUIRE_OK(kefir_ast_translator_store_lvalue(mem, context, builder, node->arg));
+
+    if (node->arg->properties.expression_props.bitfield_props.bitfield &&
+        KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(normalized_type)) {
+        kefir_bool_t signedness;
+        REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, normalized_type, &signedness));
+        const kefir_size_t bitwidth = node->arg->properties.expression_props.bitfield_props.width;
+        if (signedness) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_EXTSBITS, 0, bitwidth));
+        } else {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_EXTUBITS, 0, bitwidth));
+        }
+    }
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 28edb60b50d22db1b367ddb9c0942faef64de166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:01 +0000
Subject: [PATCH 08/62] fix: offsets of bit-fields beyond 255 bits from the
 start of a run

Bit-field offset was truncated to 8 bits.
---
 headers/kefir/ir/bitfields.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/headers/kefir/ir/bitfields.h b/headers/kefir/ir/bitfields.h
index 9a03301..3a7ee40 100644
--- a/headers/kefir/ir/bitfields.h
+++ b/headers/kefir/ir/bitfields.h
@@ -26,8 +26,8 @@
 #include "kefir/ir/builder.h"
 
 typedef struct kefir_ir_bitfield {
-    kefir_uint8_t offset;
-    kefir_uint8_t width;
+    kefir_size_t offset;
+    kefir_size_t width;
 } kefir_ir_bitfield_t;
 
 typedef struct kefir_ir_bitfield_allocator {
-- 
2.43.0


From db55679f4dbb24d427e881c53f62ced6b3e62475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:01 +0000
Subject: [PATCH 09/62] fix: members of anonymous structures following an
 unnamed bit-field

Unnamed bit-fields do not contain any members and shall be skipped during
layout resolution instead of failing it.
---
 source/ast/type_layout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/ast/type_layout.c b/source/ast/type_layout.c
index 09534ad..17e4178 100644
--- a/source/ast/type_layout.c
+++ b/source/ast/type_layout.c
@@ -225,7 +225,7 @@ static kefir_result_t resolve_member(struct kefir_ast_type_layout *current_layou
         for (const struct kefir_list_entry *iter = kefir_list_head(&current_layout->structure_layout.member_list);
              iter != NULL && res == KEFIR_NOT_FOUND; kefir_list_next(&iter)) {
             ASSIGN_DECL_CAST(struct kefir_ast_type_layout_structure_member *, member, iter->value);
-            if (member->identifier == NULL) {
+            if (member->identifier == NULL && !member->layout->bitfield) {
                 res = resolve_member(member->layout, designator, layout, callback, payload);
                 if (res == KEFIR_OK && callback != NULL) {
                     REQUIRE_OK(callback(member->layout, designator, payload));
-- 
2.43.0


From 143893f6504c28e01f289c8f912dc3e82525320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:57 +0000
Subject: [PATCH 10/62] fix: alignment specifier in declarations of pointers to
 incomplete types

Incomplete base type has no natural alignment, requesting it failed with
an internal error.
---
 source/ast/analyzer/declarator.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 3da449b..d1b690b 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -999,7 +999,9 @@ static kefir_result_t analyze_declaration_specifiers_impl(
     if (alignment != NULL) {
         if (alignment_specifier > 0) {
             kefir_size_t natural_alignment = 0;
-            REQUIRE_OK(type_alignment(mem, context, base_type, &natural_alignment));
+            if (!KEFIR_AST_TYPE_IS_INCOMPLETE(base_type)) {
+                REQUIRE_OK(type_alignment(mem, context, base_type, &natural_alignment));
+            }
             REQUIRE(natural_alignment <= alignment_specifier,
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR,
                                            kefir_ast_declarator_specifier_list_source_location(specifiers),
-- 
2.43.0


From 49f44a553b05784259e47fcfa810f2af3aa48b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:58 +0000
Subject: [PATCH 11/62] fix: classify members of nested aggregates at their
 actual offsets

Members were packed one after another, so padding of a nested structure or
array element moved later members to a wrong eightbyte, and running out of
eightbytes dereferenced a null pointer.
---
 source/codegen/amd64/system-v/abi/registers.c | 102 ++++++------------
 1 file changed, 35 insertions(+), 67 deletions(-)

diff --git a/source/codegen/amd64/system-v/abi/registers.c b/source/codegen/amd64/system-v/abi/registers.c
index 766885d..84cbb3d 100644
--- a/source/codegen/amd64/system-v/abi/registers.c
+++ b/source/codegen/amd64/system-v/abi/registers.c
@@ -143,11 +143,19 @@ struct recursive_aggregate_allocation {
     struct kefir_amd64_sysv_parameter_allocation *top_allocation;
     struct kefir_ir_type_visitor *visitor;
     kefir_size_t *slot;
-    kefir_size_t nested;
-    struct kefir_amd64_sysv_abi_qword_position init_position;
-    struct kefir_amd64_sysv_abi_qword_position max_position;
+    kefir_size_t offset;
 };
 
+// Each entry is classified at its actual position within the top-level aggregate
+static kefir_result_t goto_nested_entry(struct recursive_aggregate_allocation *info,
+                                        const struct kefir_amd64_sysv_data_layout *layout) {
+    const kefir_size_t offset = info->offset + layout->relative_offset;
+    return kefir_amd64_sysv_abi_qwords_restore_position(
+        &info->top_allocation->container,
+        &(struct kefir_amd64_sysv_abi_qword_position){.index = offset / KEFIR_AMD64_SYSV_ABI_QWORD,
+                                                      .offset = offset % KEFIR_AMD64_SYSV_ABI_QWORD});
+}
+
 static kefir_result_t assign_nested_scalar(const struct kefir_ir_type *type, kefir_size_t index,
                                            const struct kefir_ir_typeentry *typeentry, void *payload) {
     UNUSED(type);
@@ -163,6 +171,7 @@ static kefir_result_t assign_nested_scalar(const struct kefir_ir_type *type, kef
         (typeentry->typecode == KEFIR_IR_TYPE_FLOAT32 || typeentry->typecode == KEFIR_IR_TYPE_FLOAT64)
             ? KEFIR_AMD64_SYSV_PARAM_SSE
             : KEFIR_AMD64_SYSV_PARAM_INTEGER;
+    REQUIRE_OK(goto_nested_entry(info, layout));
     if (typeentry->typecode == KEFIR_IR_TYPE_BITS) {
         REQUIRE_OK(kefir_amd64_sysv_abi_qwords_next_bitfield(&info->top_allocation->container, dataclass,
                                                              typeentry->param, &allocation->container_reference));
@@ -186,6 +195,7 @@ static kefir_result_t assign_nested_long_double(const struct kefir_ir_type *type
     allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_NESTED;
     allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     allocation->index = index;
+    REQUIRE_OK(goto_nested_entry(info, layout));
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_next(&info->top_allocation->container, KEFIR_AMD64_SYSV_PARAM_X87,
                                                 KEFIR_AMD64_SYSV_ABI_QWORD, layout->alignment,
                                                 &allocation->container_reference));
@@ -207,87 +217,46 @@ static kefir_result_t assign_nested_memory(const struct kefir_ir_type *type, kef
     allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_NESTED;
     allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     allocation->index = index;
+    REQUIRE_OK(goto_nested_entry(info, layout));
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_next(&info->top_allocation->container, KEFIR_AMD64_SYSV_PARAM_MEMORY,
                                                 layout->size, layout->alignment, &allocation->container_reference));
     return KEFIR_OK;
 }
 
-static kefir_result_t assign_nested_struct(const struct kefir_ir_type *type, kefir_size_t index,
-                                           const struct kefir_ir_typeentry *typeentry, void *payload) {
-    UNUSED(typeentry);
+static kefir_result_t assign_nested_struct_union(const struct kefir_ir_type *type, kefir_size_t index,
+                                                 const struct kefir_ir_typeentry *typeentry, void *payload) {
     struct recursive_aggregate_allocation *info = (struct recursive_aggregate_allocation *) payload;
+    ASSIGN_DECL_CAST(struct kefir_amd64_sysv_data_layout *, layout, kefir_vector_at(info->layout, index));
     ASSIGN_DECL_CAST(struct kefir_amd64_sysv_parameter_allocation *, allocation,
                      kefir_vector_at(info->allocation, (*info->slot)++));
     allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_CONTAINER;
     allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     allocation->index = index;
-    info->nested++;
-    REQUIRE_OK(kefir_ir_type_visitor_list_nodes(type, info->visitor, (void *) info, index + 1, typeentry->param));
-    info->nested--;
-    return KEFIR_OK;
-}
-
-static kefir_result_t nested_visitor_init(struct kefir_ir_type_visitor *);
-
-static kefir_result_t union_reset_hook(const struct kefir_ir_type *type, kefir_size_t index,
-                                       const struct kefir_ir_typeentry *typeentry, void *payload) {
-    UNUSED(type);
-    UNUSED(index);
-    UNUSED(typeentry);
-    UNUSED(payload);
-    struct recursive_aggregate_allocation *info = (struct recursive_aggregate_allocation *) payload;
-    if (info->nested == 0) {
-        struct kefir_amd64_sysv_abi_qword_position current_position;
-        REQUIRE_OK(kefir_amd64_sysv_abi_qwords_save_position(&info->top_allocation->container, &current_position));
-        REQUIRE_OK(
-            kefir_amd64_sysv_abi_qwords_max_position(&info->max_position, &current_position, &info->max_position));
-        return kefir_amd64_sysv_abi_qwords_restore_position(&info->top_allocation->container, &info->init_position);
-    } else {
-        return KEFIR_OK;
-    }
-}
 
-static kefir_result_t assign_nested_union(const struct kefir_ir_type *type, kefir_size_t index,
-                                          const struct kefir_ir_typeentry *typeentry, void *payload) {
-    UNUSED(typeentry);
-    struct recursive_aggregate_allocation *info = (struct recursive_aggregate_allocation *) payload;
-    ASSIGN_DECL_CAST(struct kefir_amd64_sysv_parameter_allocation *, allocation,
-                     kefir_vector_at(info->allocation, (*info->slot)++));
-    allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_CONTAINER;
-    allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
-    allocation->index = index;
-    struct kefir_ir_type_visitor visitor;
-    REQUIRE_OK(nested_visitor_init(&visitor));
-    visitor.posthook = union_reset_hook;
-    struct recursive_aggregate_allocation nested_info = {.type = type,
-                                                         .layout = info->layout,
-                                                         .allocation = info->allocation,
-                                                         .top_allocation = info->top_allocation,
-                                                         .visitor = &visitor,
-                                                         .slot = info->slot,
-                                                         .nested = 0};
-    REQUIRE_OK(kefir_amd64_sysv_abi_qwords_save_position(&info->top_allocation->container, &nested_info.init_position));
-    REQUIRE_OK(kefir_amd64_sysv_abi_qwords_save_position(&info->top_allocation->container, &nested_info.max_position));
-    REQUIRE_OK(kefir_ir_type_visitor_list_nodes(type, &visitor, (void *) &nested_info, index + 1, typeentry->param));
-    REQUIRE_OK(
-        kefir_amd64_sysv_abi_qwords_restore_position(&info->top_allocation->container, &nested_info.max_position));
+    const kefir_size_t offset = info->offset;
+    info->offset += layout->relative_offset;
+    REQUIRE_OK(kefir_ir_type_visitor_list_nodes(type, info->visitor, (void *) info, index + 1, typeentry->param));
+    info->offset = offset;
     return KEFIR_OK;
 }
 
 static kefir_result_t assign_nested_array(const struct kefir_ir_type *type, kefir_size_t index,
                                           const struct kefir_ir_typeentry *typeentry, void *payload) {
-    UNUSED(typeentry);
     struct recursive_aggregate_allocation *info = (struct recursive_aggregate_allocation *) payload;
+    ASSIGN_DECL_CAST(struct kefir_amd64_sysv_data_layout *, layout, kefir_vector_at(info->layout, index));
     ASSIGN_DECL_CAST(struct kefir_amd64_sysv_parameter_allocation *, allocation,
                      kefir_vector_at(info->allocation, (*info->slot)++));
     allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_CONTAINER;
     allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     allocation->index = index;
-    info->nested++;
+
+    const kefir_size_t offset = info->offset;
+    info->offset += layout->relative_offset;
     for (kefir_size_t i = 0; i < (kefir_size_t) typeentry->param; i++) {
         REQUIRE_OK(kefir_ir_type_visitor_list_nodes(type, info->visitor, (void *) info, index + 1, 1));
+        info->offset += layout->size / (kefir_size_t) typeentry->param;
     }
-    info->nested--;
+    info->offset = offset;
     return KEFIR_OK;
 }
 
@@ -304,6 +273,8 @@ static kefir_result_t assign_nested_builtin(const struct kefir_ir_type *type, ke
     allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_NESTED;
     allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     allocation->index = index;
+    ASSIGN_DECL_CAST(struct kefir_amd64_sysv_data_layout *, layout, kefir_vector_at(info->layout, index));
+    REQUIRE_OK(goto_nested_entry(info, layout));
     REQUIRE_OK(builtin_type->classify_nested_argument(builtin_type, typeentry, info->top_allocation, allocation));
     return KEFIR_OK;
 }
@@ -355,9 +326,9 @@ static kefir_result_t nested_visitor_init(struct kefir_ir_type_visitor *visitor)
     visitor->visit[KEFIR_IR_TYPE_LONG_DOUBLE] = assign_nested_long_double;
     visitor->visit[KEFIR_IR_TYPE_MEMORY] = assign_nested_memory;
     visitor->visit[KEFIR_IR_TYPE_PAD] = assign_nested_memory;
-    visitor->visit[KEFIR_IR_TYPE_STRUCT] = assign_nested_struct;
+    visitor->visit[KEFIR_IR_TYPE_STRUCT] = assign_nested_struct_union;
     visitor->visit[KEFIR_IR_TYPE_ARRAY] = assign_nested_array;
-    visitor->visit[KEFIR_IR_TYPE_UNION] = assign_nested_union;
+    visitor->visit[KEFIR_IR_TYPE_UNION] = assign_nested_struct_union;
     visitor->visit[KEFIR_IR_TYPE_BUILTIN] = assign_nested_builtin;
     return KEFIR_OK;
 }
@@ -383,7 +354,7 @@ static kefir_result_t immediate_struct_unwrap(struct kefir_mem *mem, const struc
                                                   .top_allocation = top_allocation,
                                                   .visitor = &visitor,
                                                   .slot = slot,
-                                                  .nested = 0};
+                                                  .offset = 0};
     kefir_result_t res = kefir_ir_type_visitor_list_nodes(type, &visitor, (void *) &info, index + 1, typeentry->param);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_amd64_sysv_abi_qwords_free(&top_allocation->container, mem);
@@ -481,13 +452,14 @@ static kefir_result_t immediate_array_unwrap(struct kefir_mem *mem, const struct
                                                   .top_allocation = top_allocation,
                                                   .visitor = &visitor,
                                                   .slot = slot,
-                                                  .nested = 0};
+                                                  .offset = 0};
     for (kefir_size_t i = 0; i < (kefir_size_t) typeentry->param; i++) {
         kefir_result_t res = kefir_ir_type_visitor_list_nodes(type, &visitor, (void *) &info, index + 1, 1);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_amd64_sysv_abi_qwords_free(&top_allocation->container, mem);
             return res;
         });
+        info.offset += top_layout->size / (kefir_size_t) typeentry->param;
     }
     return aggregate_postmerger(mem, top_allocation);
 }
@@ -526,7 +498,6 @@ static kefir_result_t immediate_union_unwrap(struct kefir_mem *mem, const struct
     top_allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     struct kefir_ir_type_visitor visitor;
     REQUIRE_OK(nested_visitor_init(&visitor));
-    visitor.posthook = union_reset_hook;
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_alloc(&top_allocation->container, mem, qword_count));
     struct recursive_aggregate_allocation info = {.type = type,
                                                   .layout = layout,
@@ -534,15 +505,12 @@ static kefir_result_t immediate_union_unwrap(struct kefir_mem *mem, const struct
                                                   .top_allocation = top_allocation,
                                                   .visitor = &visitor,
                                                   .slot = slot,
-                                                  .nested = 0};
-    REQUIRE_OK(kefir_amd64_sysv_abi_qwords_save_position(&top_allocation->container, &info.init_position));
-    REQUIRE_OK(kefir_amd64_sysv_abi_qwords_save_position(&top_allocation->container, &info.max_position));
+                                                  .offset = 0};
     kefir_result_t res = kefir_ir_type_visitor_list_nodes(type, &visitor, (void *) &info, index + 1, typeentry->param);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_amd64_sysv_abi_qwords_free(&top_allocation->container, mem);
         return res;
     });
-    REQUIRE_OK(kefir_amd64_sysv_abi_qwords_restore_position(&top_allocation->container, &info.max_position));
     return aggregate_postmerger(mem, top_allocation);
 }
 
-- 
2.43.0


From d32314dde4df7e49ba4e04d889daebdb95e9956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:33 +0000
Subject: [PATCH 12/62] fix: align overflow area to 16 bytes in va_arg of long
 double

---
 source/runtime/amd64_sysv.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 8879ac8..6e5149d 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -1278,6 +1278,8 @@ __kefirrt_load_sse_vararg_stack:
 __kefirrt_load_long_double_vararg:
     pop DATA_REG
     mov rax, [DATA_REG + 8]
+    add rax, 15
+    and rax, -16
     lea rdx, [rax + 16]
     mov [DATA_REG + 8], rdx
     mov DATA_REG, [rax + 8]
-- 
2.43.0


From 46a69c406db980717287dd7e2c14f2d141e2b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:33 +0000
Subject: [PATCH 13/62] fix: start variable arguments at an eightbyte boundary
 after named stack parameters

---
 source/codegen/amd64/system-v/abi/vararg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/codegen/amd64/system-v/abi/vararg.c b/source/codegen/amd64/system-v/abi/vararg.c
index a384156..d480c06 100644
--- a/source/codegen/amd64/system-v/abi/vararg.c
+++ b/source/codegen/amd64/system-v/abi/vararg.c
@@ -52,7 +52,9 @@ static kefir_result_t vararg_start(struct kefir_codegen_amd64 *codegen,
     ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_LEA);
     ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_SYSV_ABI_DATA2_REG);
     ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_INDIRECT_OFFSET, KEFIR_AMD64_RBP,
-               2 * KEFIR_AMD64_SYSV_ABI_QWORD + sysv_func->decl.parameters.location.stack_offset);
+               2 * KEFIR_AMD64_SYSV_ABI_QWORD +
+                   kefir_codegen_pad_aligned(sysv_func->decl.parameters.location.stack_offset,
+                                             KEFIR_AMD64_SYSV_ABI_QWORD));
 
     ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_MOV);
     ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_INDIRECT_OFFSET, KEFIR_AMD64_SYSV_ABI_DATA_REG,
-- 
2.43.0


From b1ba05394ca83faac6dd3901ee9e2ea01fdf81be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:40 +0000
Subject: [PATCH 14/62] fix: traverse initializers of anonymous, qualified and
 deeply nested members

---
 source/ast/analyzer/type_traversal.c | 12 ++++++++++--
 source/ast/initializer_traversal.c   | 23 ++++++++++++++---------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index cc63891..fb0b278 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -46,6 +46,7 @@ static kefir_result_t push_layer(struct kefir_mem *mem, struct kefir_ast_type_tr
                                  const struct kefir_ast_type_traversal_layer *parent) {
     struct kefir_ast_type_traversal_layer *layer = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_type_traversal_layer));
     REQUIRE(layer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST type traversal layer"));
+    object_type = kefir_ast_unqualified_type(object_type);
     layer->parent = parent;
     layer->object_type = object_type;
     layer->init = true;
@@ -233,7 +234,7 @@ kefir_result_t kefir_ast_type_traversal_next_recursive2(struct kefir_mem *mem,
     const struct kefir_ast_type_traversal_layer *top_layer = NULL;
     REQUIRE_OK(kefir_ast_type_traversal_next(mem, traversal, &top_type, &top_layer));
     if (top_type != NULL) {
-        switch (top_type->tag) {
+        switch (kefir_ast_unqualified_type(top_type)->tag) {
             case KEFIR_AST_TYPE_STRUCTURE:
             case KEFIR_AST_TYPE_UNION:
             case KEFIR_AST_TYPE_ARRAY:
@@ -309,6 +310,8 @@ static kefir_result_t navigate_member(struct kefir_mem *mem, struct kefir_ast_ty
                         return KEFIR_OK;
                     }
                 } else if (!KEFIR_AST_TYPE_IS_SCALAR_TYPE(field->type)) {
+                    layer->init = false;
+                    layer->structure.iterator = iter;
                     REQUIRE_OK(push_layer(mem, traversal, field->type, layer));
                     kefir_result_t res = navigate_member(mem, traversal, member, push);
                     if (res == KEFIR_NOT_FOUND) {
@@ -338,6 +341,8 @@ static kefir_result_t navigate_member(struct kefir_mem *mem, struct kefir_ast_ty
                         return KEFIR_OK;
                     }
                 } else {
+                    layer->init = false;
+                    layer->structure.iterator = iter;
                     REQUIRE_OK(push_layer(mem, traversal, field->type, layer));
                     kefir_result_t res = navigate_member(mem, traversal, member, push);
                     if (res == KEFIR_NOT_FOUND) {
@@ -466,8 +471,11 @@ struct kefir_ast_designator *kefir_ast_type_traversal_layer_designator(
         case KEFIR_AST_TYPE_TRAVERSAL_STRUCTURE:
         case KEFIR_AST_TYPE_TRAVERSAL_UNION: {
             ASSIGN_DECL_CAST(struct kefir_ast_struct_field *, field, layer->structure.iterator->value);
-            if (field != NULL) {
+            if (field != NULL && field->identifier != NULL) {
                 designator = kefir_ast_new_member_designator(mem, symbols, field->identifier, base);
+            } else {
+                // Members of anonymous aggregates are designated directly from the enclosing object
+                designator = base;
             }
         } break;
 
diff --git a/source/ast/initializer_traversal.c b/source/ast/initializer_traversal.c
index f8cb256..047e0a4 100644
--- a/source/ast/initializer_traversal.c
+++ b/source/ast/initializer_traversal.c
@@ -183,9 +183,18 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
                     const struct kefir_ast_type *field_type = kefir_ast_unqualified_type(field->type);
                     if (field->identifier == NULL &&
                         (field_type->tag == KEFIR_AST_TYPE_STRUCTURE || field_type->tag == KEFIR_AST_TYPE_UNION)) {
-                        REQUIRE_OK(kefir_ast_type_traversal_step(mem, traversal));
-                        REQUIRE_OK(
-                            traverse_aggregate_union(mem, context, entry->value, traversal, initializer_traversal));
+                        struct kefir_ast_type_traversal nested_traversal;
+                        REQUIRE_OK(kefir_ast_type_traversal_init(mem, &nested_traversal, field_type));
+                        struct kefir_ast_type_traversal_layer *nested_layer = NULL;
+                        res = kefir_linked_stack_peek(&nested_traversal.stack, (void **) &nested_layer);
+                        if (res == KEFIR_OK) {
+                            nested_layer->parent = layer;
+                            res = traverse_aggregate_union(mem, context, entry->value, &nested_traversal,
+                                                           initializer_traversal);
+                        }
+                        kefir_result_t free_res = kefir_ast_type_traversal_free(mem, &nested_traversal);
+                        REQUIRE_OK(res);
+                        REQUIRE_OK(free_res);
                         anonymous_nested_aggregate_field = true;
                     }
                 }
@@ -213,12 +222,8 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
             while (res == KEFIR_NO_MATCH) {
                 REQUIRE_OK(kefir_ast_type_traversal_step(mem, traversal));
                 REQUIRE_OK(kefir_ast_type_traversal_next(mem, traversal, &type, &layer));
-                REQUIRE_MATCH_OK(
-                    &res,
-                    kefir_ast_node_assignable(mem, context, entry->value->expression, kefir_ast_unqualified_type(type)),
-                    KEFIR_SET_SOURCE_ERROR(
-                        KEFIR_ANALYSIS_ERROR, &entry->value->expression->source_location,
-                        "Initializer expression shall be convertible to corresponding field/element type"));
+                res =
+                    kefir_ast_node_assignable(mem, context, entry->value->expression, kefir_ast_unqualified_type(type));
             }
             REQUIRE_OK(res);
             REQUIRE_OK(layer_designator(mem, context->symbols, entry->designator, layer, &designator_layer));
-- 
2.43.0


From b25481846e330c099f7e1551e37aff87708ccf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:40 +0000
Subject: [PATCH 15/62] fix: mask static bit-field values to the width of the
 field

---
 source/ir/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/ir/data.c b/source/ir/data.c
index 9d1917d..b01f4d6 100644
--- a/source/ir/data.c
+++ b/source/ir/data.c
@@ -129,7 +129,7 @@ kefir_result_t kefir_ir_data_set_bitfield(struct kefir_ir_data *data, kefir_size
     if (width == 64) {
         currentValue = value;
     } else {
-        const kefir_uint64_t mask = (1ull << (width + 1)) - 1;
+        const kefir_uint64_t mask = (1ull << width) - 1;
         currentValue = currentValue & (~(mask << offset));
         currentValue |= (value & mask) << offset;
     }
-- 
2.43.0


From 23e49ccc6b8517268288e3fbf97f024ae0874255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:03 +0000
Subject: [PATCH 16/62] fix: evaluate constant expressions in the types the
 language prescribes

Operands undergo the usual arithmetic conversions, results are reduced to
the type of the expression, float and double results lose excess precision,
unsigned operands convert to floating types as unsigned, and a remainder of
division by zero is diagnosed.
---
 headers/kefir/ast/constant_expression.h       |  2 +-
 .../ast-translator/scope/data_initializer.c   |  2 +-
 .../constant_expression/binary_operation.c    | 82 ++++++++++++++++---
 .../ast/constant_expression/cast_operator.c   | 53 ++++++++++--
 .../conditional_operator.c                    | 30 ++++---
 .../ast/constant_expression/unary_operation.c |  8 ++
 6 files changed, 146 insertions(+), 31 deletions(-)

diff --git a/headers/kefir/ast/constant_expression.h b/headers/kefir/ast/constant_expression.h
index 18df5f7..efcab1f 100644
--- a/headers/kefir/ast/constant_expression.h
+++ b/headers/kefir/ast/constant_expression.h
@@ -87,7 +87,7 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *, cons
                                                         struct kefir_ast_constant_expression_value *,
                                                         const struct kefir_ast_constant_expression_value *,
                                                         const struct kefir_ast_node_base *,
-                                                        const struct kefir_ast_type *);
+                                                        const struct kefir_ast_type *, const struct kefir_ast_type *);
 
 struct kefir_ast_constant_expression *kefir_ast_new_constant_expression(struct kefir_mem *,
                                                                         struct kefir_ast_node_base *);
diff --git a/source/ast-translator/scope/data_initializer.c b/source/ast-translator/scope/data_initializer.c
index 45779c8..59fbe3b 100644
--- a/source/ast-translator/scope/data_initializer.c
+++ b/source/ast-translator/scope/data_initializer.c
@@ -165,7 +165,7 @@ static kefir_result_t visit_value(const struct kefir_ast_designator *designator,
     struct kefir_ast_constant_expression_value uncasted_value, value;
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(param->mem, param->context, expression, &uncasted_value));
     REQUIRE_OK(kefir_ast_constant_expression_value_cast(param->mem, param->context, &value, &uncasted_value, expression,
-                                                        resolved_layout->type));
+                                                        expression->properties.type, resolved_layout->type));
     struct kefir_ir_typeentry *target_typeentry = kefir_ir_type_at(param->type, resolved_layout->value);
     REQUIRE(target_typeentry != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Cannot obtain target IR type entry"));
     switch (value.klass) {
diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index fbab4fb..5af6819 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -41,6 +41,29 @@ static kefir_ast_constant_expression_float_t as_float(const struct kefir_ast_con
     return 0.0f;
 }
 
+#define FLOATING_POINT_OPERATION(_value, _type, _arg1, _op, _arg2)                                              \
+    do {                                                                                                        \
+        if ((_type)->tag == KEFIR_AST_TYPE_SCALAR_FLOAT) {                                                      \
+            (_value)->floating_point = (kefir_float32_t) as_float(_arg1) _op (kefir_float32_t) as_float(_arg2); \
+        } else if ((_type)->tag == KEFIR_AST_TYPE_SCALAR_DOUBLE) {                                              \
+            (_value)->floating_point = (kefir_float64_t) as_float(_arg1) _op (kefir_float64_t) as_float(_arg2); \
+        } else {                                                                                                \
+            (_value)->floating_point = as_float(_arg1) _op as_float(_arg2);                                     \
+        }                                                                                                       \
+    } while (0)
+
+static kefir_result_t convert_operand(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                      const struct kefir_ast_node_base *node, const struct kefir_ast_type *type,
+                                      struct kefir_ast_constant_expression_value *value) {
+    if (value->klass != KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS) {
+        struct kefir_ast_constant_expression_value converted;
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, &converted, value, node,
+                                                            node->properties.type, type));
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &converted, node, type, type));
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t evaluate_pointer_offset(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                               const struct kefir_ast_node_base *node,
                                               struct kefir_ast_constant_expression_pointer *pointer,
@@ -144,6 +167,27 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
     if (node->type != KEFIR_AST_OPERATION_LOGICAL_AND && node->type != KEFIR_AST_OPERATION_LOGICAL_OR) {
         REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg2, &arg2_value));
     }
+
+    switch (node->type) {
+        case KEFIR_AST_OPERATION_LOGICAL_AND:
+        case KEFIR_AST_OPERATION_LOGICAL_OR:
+            break;
+
+        case KEFIR_AST_OPERATION_SHIFT_LEFT:
+        case KEFIR_AST_OPERATION_SHIFT_RIGHT:
+            REQUIRE_OK(convert_operand(mem, context, node->arg1, node->base.properties.type, &arg1_value));
+            REQUIRE_OK(
+                kefir_ast_type_is_signed(context->type_traits, node->base.properties.type, &common_type_signed_integer));
+            break;
+
+        default:
+            if (common_arith_type != NULL) {
+                REQUIRE_OK(convert_operand(mem, context, node->arg1, common_arith_type, &arg1_value));
+                REQUIRE_OK(convert_operand(mem, context, node->arg2, common_arith_type, &arg2_value));
+            }
+            break;
+    }
+
     switch (node->type) {
         case KEFIR_AST_OPERATION_ADD:
             if (arg1_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS) {
@@ -154,10 +198,10 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                                                    arg1_value.integer, value));
             } else if (ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT)) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
-                value->floating_point = as_float(&arg1_value) + as_float(&arg2_value);
+                FLOATING_POINT_OPERATION(value, common_arith_type, &arg1_value, +, &arg2_value);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer + arg2_value.integer;
+                value->uinteger = arg1_value.uinteger + arg2_value.uinteger;
             }
             break;
 
@@ -176,48 +220,57 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                 }
             } else if (ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT)) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
-                value->floating_point = as_float(&arg1_value) - as_float(&arg2_value);
+                FLOATING_POINT_OPERATION(value, common_arith_type, &arg1_value, -, &arg2_value);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer - arg2_value.integer;
+                value->uinteger = arg1_value.uinteger - arg2_value.uinteger;
             }
             break;
 
         case KEFIR_AST_OPERATION_MULTIPLY:
             if (ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT)) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
-                value->floating_point = as_float(&arg1_value) * as_float(&arg2_value);
+                FLOATING_POINT_OPERATION(value, common_arith_type, &arg1_value, *, &arg2_value);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer * arg2_value.integer;
+                value->uinteger = arg1_value.uinteger * arg2_value.uinteger;
             }
             break;
 
         case KEFIR_AST_OPERATION_DIVIDE:
             if (ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT)) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
-                value->floating_point = as_float(&arg1_value) / as_float(&arg2_value);
+                FLOATING_POINT_OPERATION(value, common_arith_type, &arg1_value, /, &arg2_value);
             } else if (common_type_signed_integer) {
                 REQUIRE(arg2_value.integer != 0,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
                                                "Expected non-zero divisor in constant expression"));
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer / arg2_value.integer;
+                if (arg2_value.integer == -1) {
+                    value->uinteger = -arg1_value.uinteger;
+                } else {
+                    value->integer = arg1_value.integer / arg2_value.integer;
+                }
             } else {
                 REQUIRE(arg2_value.integer != 0,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
                                                "Expected non-zero divisor in constant expression"));
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->uinteger = arg1_value.uinteger / arg2_value.integer;
+                value->uinteger = arg1_value.uinteger / arg2_value.uinteger;
             }
             break;
 
         case KEFIR_AST_OPERATION_MODULO:
+            REQUIRE(arg2_value.integer != 0,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                           "Expected non-zero divisor in constant expression"));
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-            if (common_type_signed_integer) {
+            if (common_type_signed_integer && arg2_value.integer == -1) {
+                value->integer = 0;
+            } else if (common_type_signed_integer) {
                 value->integer = arg1_value.integer % arg2_value.integer;
             } else {
-                value->uinteger = arg1_value.uinteger % arg2_value.integer;
+                value->uinteger = arg1_value.uinteger % arg2_value.uinteger;
             }
             break;
 
@@ -392,5 +445,12 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             value->integer = arg1_bool || arg2_bool;
         } break;
     }
+
+    if (KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(node->base.properties.type) &&
+        value->klass != KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS) {
+        arg1_value = *value;
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg1_value, KEFIR_AST_NODE_BASE(node),
+                                                            node->base.properties.type, node->base.properties.type));
+    }
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/cast_operator.c b/source/ast/constant_expression/cast_operator.c
index 45f848f..aa8ef78 100644
--- a/source/ast/constant_expression/cast_operator.c
+++ b/source/ast/constant_expression/cast_operator.c
@@ -85,10 +85,26 @@ static kefir_result_t cast_integral_type(struct kefir_mem *mem, const struct kef
     return KEFIR_OK;
 }
 
+// Floating-point values are evaluated with excess precision, which is discarded upon conversion from the operand type
+static kefir_ast_constant_expression_float_t round_floating_point(const struct kefir_ast_type *type,
+                                                                  kefir_ast_constant_expression_float_t source) {
+    switch (type->tag) {
+        case KEFIR_AST_TYPE_SCALAR_FLOAT:
+            return (kefir_float32_t) source;
+
+        case KEFIR_AST_TYPE_SCALAR_DOUBLE:
+            return (kefir_float64_t) source;
+
+        default:
+            return source;
+    }
+}
+
 kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                         struct kefir_ast_constant_expression_value *value,
                                                         const struct kefir_ast_constant_expression_value *source,
                                                         const struct kefir_ast_node_base *node,
+                                                        const struct kefir_ast_type *source_type,
                                                         const struct kefir_ast_type *type) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST context"));
@@ -100,6 +116,11 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination AST type"));
 
     const struct kefir_ast_type *unqualified = kefir_ast_unqualified_type(type);
+    const struct kefir_ast_type *unqualified_source = kefir_ast_unqualified_type(source_type);
+    const kefir_ast_constant_expression_float_t source_float =
+        source->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT
+            ? round_floating_point(unqualified_source, source->floating_point)
+            : 0.0L;
     if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(unqualified)) {
         value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
         switch (source->klass) {
@@ -109,10 +130,18 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT:
                 if (unqualified->tag == KEFIR_AST_TYPE_SCALAR_BOOL) {
-                    value->integer = (bool) source->floating_point;
+                    value->integer = (bool) source_float;
                 } else {
-                    REQUIRE_OK(cast_integral_type(mem, context, unqualified, value,
-                                                  (kefir_ast_constant_expression_int_t) source->floating_point));
+                    kefir_ast_constant_expression_int_t integer = 0;
+                    if (source_float >= 9223372036854775808.0L) {
+                        if (source_float < 18446744073709551616.0L) {
+                            integer = (kefir_ast_constant_expression_int_t) (kefir_ast_constant_expression_uint_t)
+                                          source_float;
+                        }
+                    } else if (source_float >= -9223372036854775808.0L) {
+                        integer = (kefir_ast_constant_expression_int_t) source_float;
+                    }
+                    REQUIRE_OK(cast_integral_type(mem, context, unqualified, value, integer));
                 }
                 break;
 
@@ -128,12 +157,20 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
     } else if (KEFIR_AST_TYPE_IS_FLOATING_POINT(unqualified)) {
         value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
         switch (source->klass) {
-            case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER:
-                value->floating_point = (kefir_ast_constant_expression_float_t) source->integer;
-                break;
+            case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER: {
+                kefir_bool_t signed_source = true;
+                if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(unqualified_source)) {
+                    REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, unqualified_source, &signed_source));
+                }
+                if (signed_source) {
+                    value->floating_point = (kefir_ast_constant_expression_float_t) source->integer;
+                } else {
+                    value->floating_point = (kefir_ast_constant_expression_float_t) source->uinteger;
+                }
+            } break;
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT:
-                value->floating_point = source->floating_point;
+                value->floating_point = source_float;
                 break;
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS:
@@ -194,6 +231,6 @@ kefir_result_t kefir_ast_evaluate_cast_operator_node(struct kefir_mem *mem, cons
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr, &arg_value));
 
     REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value, KEFIR_AST_NODE_BASE(node),
-                                                        node->base.properties.type));
+                                                        node->expr->properties.type, node->base.properties.type));
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/conditional_operator.c b/source/ast/constant_expression/conditional_operator.c
index 504dc2f..e4c5985 100644
--- a/source/ast/constant_expression/conditional_operator.c
+++ b/source/ast/constant_expression/conditional_operator.c
@@ -39,7 +39,7 @@ kefir_result_t kefir_ast_evaluate_conditional_operator_node(struct kefir_mem *me
             KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->base.source_location,
                                    "Expected constant expression AST node"));
 
-    struct kefir_ast_constant_expression_value cond_value, arg1_value, arg2_value;
+    struct kefir_ast_constant_expression_value cond_value, arg_value;
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->condition, &cond_value));
 
     kefir_bool_t condition = false;
@@ -69,16 +69,26 @@ kefir_result_t kefir_ast_evaluate_conditional_operator_node(struct kefir_mem *me
             return KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Non-evaluated constant expression");
     }
 
-    if (condition) {
-        if (node->expr1 != NULL) {
-            REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr1, &arg1_value));
-            *value = arg1_value;
-        } else {
-            *value = cond_value;
-        }
+    const struct kefir_ast_node_base *selected = NULL;
+    if (!condition) {
+        selected = node->expr2;
+    } else if (node->expr1 != NULL) {
+        selected = node->expr1;
+    }
+
+    if (selected != NULL) {
+        REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, selected, &arg_value));
+    } else {
+        selected = node->condition;
+        arg_value = cond_value;
+    }
+
+    if (KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(node->base.properties.type) &&
+        arg_value.klass != KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS && node->expr1 != NULL) {
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value, KEFIR_AST_NODE_BASE(node),
+                                                            selected->properties.type, node->base.properties.type));
     } else {
-        REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr2, &arg2_value));
-        *value = arg2_value;
+        *value = arg_value;
     }
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/unary_operation.c b/source/ast/constant_expression/unary_operation.c
index e97e3b5..ac2e08b 100644
--- a/source/ast/constant_expression/unary_operation.c
+++ b/source/ast/constant_expression/unary_operation.c
@@ -90,6 +90,10 @@ kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, co
                 return KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                               "Expected integeral or floating-point constant expression");
             }
+            arg_value = *value;
+            REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value,
+                                                                KEFIR_AST_NODE_BASE(node), node->base.properties.type,
+                                                                node->base.properties.type));
             break;
 
         case KEFIR_AST_OPERATION_INVERT:
@@ -101,6 +105,10 @@ kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, co
                 return KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                               "Expected integeral constant expression");
             }
+            arg_value = *value;
+            REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value,
+                                                                KEFIR_AST_NODE_BASE(node), node->base.properties.type,
+                                                                node->base.properties.type));
             break;
 
         case KEFIR_AST_OPERATION_LOGICAL_NEGATE:
-- 
2.43.0


From dda3a11c417d676d7ff568407aff53853061e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:03 +0000
Subject: [PATCH 17/62] fix: continue initializer lists correctly after a
 designator

Designators of the following elements are derived from the traversal
position, so that elided braces and anonymous members after a designator
reach the right subobject, and array sizes count designated elements.
---
 headers/kefir/ast/analyzer/type_traversal.h |  1 +
 source/ast/analyzer/type_traversal.c        |  6 ++++-
 source/ast/initializer_traversal.c          | 27 +++++++++------------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/headers/kefir/ast/analyzer/type_traversal.h b/headers/kefir/ast/analyzer/type_traversal.h
index ff9c60b..dc872e5 100644
--- a/headers/kefir/ast/analyzer/type_traversal.h
+++ b/headers/kefir/ast/analyzer/type_traversal.h
@@ -67,6 +67,7 @@ typedef struct kefir_ast_type_traversal_events {
 typedef struct kefir_ast_type_traversal {
     struct kefir_list stack;
     const struct kefir_ast_type *current_object_type;
+    const struct kefir_ast_type_traversal_layer *parent;
     struct kefir_ast_type_traversal_events events;
 } kefir_ast_type_traversal_t;
 
diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index fb0b278..7b158ea 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -110,6 +110,7 @@ kefir_result_t kefir_ast_type_traversal_init(struct kefir_mem *mem, struct kefir
     REQUIRE(object_type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid object type"));
 
     traversal->current_object_type = object_type;
+    traversal->parent = NULL;
     traversal->events = (struct kefir_ast_type_traversal_events){0};
     REQUIRE_OK(kefir_list_init(&traversal->stack));
     REQUIRE_OK(kefir_list_on_remove(&traversal->stack, remove_layer, NULL));
@@ -383,6 +384,9 @@ static kefir_result_t navigate_index(struct kefir_mem *mem, struct kefir_ast_typ
             layer->init = false;
             if (push) {
                 layer->array.index = index;
+                if (traversal->events.layer_next != NULL) {
+                    REQUIRE_OK(traversal->events.layer_next(traversal, layer, traversal->events.payload));
+                }
                 REQUIRE_OK(push_layer(mem, traversal, array->array_type.element_type, layer));
             } else {
                 if (index > 0) {
@@ -424,7 +428,7 @@ kefir_result_t kefir_ast_type_traversal_navigate(struct kefir_mem *mem, struct k
     REQUIRE(designator != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST designator"));
 
     REQUIRE_OK(kefir_list_clear(mem, &traversal->stack));
-    REQUIRE_OK(push_layer(mem, traversal, traversal->current_object_type, NULL));
+    REQUIRE_OK(push_layer(mem, traversal, traversal->current_object_type, traversal->parent));
     REQUIRE_OK(navigate_impl(mem, traversal, designator, false));
     return KEFIR_OK;
 }
diff --git a/source/ast/initializer_traversal.c b/source/ast/initializer_traversal.c
index 047e0a4..0e12157 100644
--- a/source/ast/initializer_traversal.c
+++ b/source/ast/initializer_traversal.c
@@ -101,16 +101,10 @@ static kefir_result_t string_literal_stop_fn(struct kefir_ast_node_base *node,
 }
 
 static kefir_result_t layer_designator(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
-                                       struct kefir_ast_designator *current_designator,
                                        const struct kefir_ast_type_traversal_layer *layer,
                                        struct kefir_ast_designator **result) {
-    struct kefir_ast_designator *designator = current_designator;
-
-    if (designator == NULL) {
-        designator = kefir_ast_type_traversal_layer_designator(mem, symbols, layer);
-        REQUIRE(designator != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Unable to derive a designator"));
-    }
-
+    struct kefir_ast_designator *designator = kefir_ast_type_traversal_layer_designator(mem, symbols, layer);
+    REQUIRE(designator != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Unable to derive a designator"));
     *result = designator;
     return KEFIR_OK;
 }
@@ -128,7 +122,7 @@ static kefir_result_t assign_string(struct kefir_mem *mem, const struct kefir_as
     REQUIRE_OK(string_literal_stop_fn(node, context->type_traits, &stop_fn, &stop_payload));
 
     REQUIRE_OK(kefir_ast_type_traversal_next_recursive2(mem, traversal, stop_fn, stop_payload, &type, &layer));
-    REQUIRE_OK(layer_designator(mem, context->symbols, entry->designator, layer, &designator_layer));
+    REQUIRE_OK(layer_designator(mem, context->symbols, layer, &designator_layer));
 
     kefir_result_t res = KEFIR_OK;
     if (stop_fn(type, stop_payload) && (type->array_type.boundary == KEFIR_AST_ARRAY_BOUNDED ||
@@ -143,13 +137,13 @@ static kefir_result_t assign_string(struct kefir_mem *mem, const struct kefir_as
     }
 
     REQUIRE_ELSE(res == KEFIR_OK, {
-        if (entry->designator == NULL && designator_layer != NULL) {
+        if (designator_layer != NULL) {
             kefir_ast_designator_free(mem, designator_layer);
         }
         return res;
     });
 
-    if (entry->designator == NULL && designator_layer != NULL) {
+    if (designator_layer != NULL) {
         REQUIRE_OK(kefir_ast_designator_free(mem, designator_layer));
     }
     return KEFIR_OK;
@@ -189,6 +183,7 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
                         res = kefir_linked_stack_peek(&nested_traversal.stack, (void **) &nested_layer);
                         if (res == KEFIR_OK) {
                             nested_layer->parent = layer;
+                            nested_traversal.parent = layer;
                             res = traverse_aggregate_union(mem, context, entry->value, &nested_traversal,
                                                            initializer_traversal);
                         }
@@ -201,7 +196,7 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
             }
 
             if (!anonymous_nested_aggregate_field) {
-                REQUIRE_OK(layer_designator(mem, context->symbols, entry->designator, layer, &designator_layer));
+                REQUIRE_OK(layer_designator(mem, context->symbols, layer, &designator_layer));
 
                 INVOKE_TRAVERSAL_CHAIN(&res, initializer_traversal, visit_initializer_list, designator_layer,
                                        entry->value);
@@ -211,7 +206,7 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
         } else if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(entry->value->expression->properties.type)) {
             const struct kefir_ast_type *type = NULL;
             REQUIRE_OK(kefir_ast_type_traversal_next_recursive(mem, traversal, &type, &layer));
-            REQUIRE_OK(layer_designator(mem, context->symbols, entry->designator, layer, &designator_layer));
+            REQUIRE_OK(layer_designator(mem, context->symbols, layer, &designator_layer));
 
             INVOKE_TRAVERSAL_CHAIN(&res, initializer_traversal, visit_value, designator_layer,
                                    entry->value->expression);
@@ -226,20 +221,20 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
                     kefir_ast_node_assignable(mem, context, entry->value->expression, kefir_ast_unqualified_type(type));
             }
             REQUIRE_OK(res);
-            REQUIRE_OK(layer_designator(mem, context->symbols, entry->designator, layer, &designator_layer));
+            REQUIRE_OK(layer_designator(mem, context->symbols, layer, &designator_layer));
 
             INVOKE_TRAVERSAL_CHAIN(&res, initializer_traversal, visit_value, designator_layer,
                                    entry->value->expression);
         }
 
         REQUIRE_ELSE(res == KEFIR_OK, {
-            if (entry->designator == NULL && designator_layer != NULL) {
+            if (designator_layer != NULL) {
                 kefir_ast_designator_free(mem, designator_layer);
             }
             return res;
         });
 
-        if (entry->designator == NULL && designator_layer != NULL) {
+        if (designator_layer != NULL) {
             REQUIRE_OK(kefir_ast_designator_free(mem, designator_layer));
         }
     }
-- 
2.43.0


From 73bdaa74f857541a214994b0b5c8f3a5b5ac5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:03 +0000
Subject: [PATCH 18/62] fix: finalize sparse static data

---
 source/ir/data.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/ir/data.c b/source/ir/data.c
index b01f4d6..2c2566d 100644
--- a/source/ir/data.c
+++ b/source/ir/data.c
@@ -292,8 +292,9 @@ static kefir_result_t finalize_struct_union(const struct kefir_ir_type *type, ke
     REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid payload"));
     ASSIGN_DECL_CAST(struct finalize_param *, param, payload);
 
+    const kefir_size_t entry_slot = param->slot++;
     struct kefir_ir_data_value *entry;
-    REQUIRE_OK(value_get_entry(param->data, param->slot++, &entry));
+    REQUIRE_OK(value_get_entry(param->data, entry_slot, &entry));
     if (entry != NULL) {
         REQUIRE(
             entry->type == KEFIR_IR_DATA_VALUE_UNDEFINED,
@@ -310,6 +311,10 @@ static kefir_result_t finalize_struct_union(const struct kefir_ir_type *type, ke
     param->defined = param->defined || subparam.defined;
     param->block_iterator = subparam.block_iterator;
 
+    if (entry == NULL && subparam.defined) {
+        // Content of the structure/union is defined in blocks that follow an empty one
+        REQUIRE_OK(value_entry_at(param->data, entry_slot, &entry));
+    }
     if (entry != NULL) {
         entry->defined = subparam.defined;
         if (subparam.defined) {
@@ -325,8 +330,9 @@ static kefir_result_t finalize_array(const struct kefir_ir_type *type, kefir_siz
     REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid payload"));
     ASSIGN_DECL_CAST(struct finalize_param *, param, payload);
 
+    const kefir_size_t entry_slot = param->slot++;
     struct kefir_ir_data_value *entry;
-    REQUIRE_OK(value_get_entry(param->data, param->slot++, &entry));
+    REQUIRE_OK(value_get_entry(param->data, entry_slot, &entry));
     struct finalize_param subparam = {.visitor = param->visitor,
                                       .data = param->data,
                                       .slot = param->slot,
@@ -349,16 +355,20 @@ static kefir_result_t finalize_array(const struct kefir_ir_type *type, kefir_siz
             if (undefined_elements > 0) {
                 subparam.slot += undefined_elements * array_element_slots;
                 i += undefined_elements - 1;
+                continue;
             }
-            continue;
         }
 
         REQUIRE_OK(kefir_ir_type_visitor_list_nodes(type, param->visitor, &subparam, index + 1, 1));
     }
 
-    param->slot = subparam.slot;
+    param->slot = array_end_slot;
     param->block_iterator = subparam.block_iterator;
 
+    if (entry == NULL && subparam.defined) {
+        // Content of the array is defined in blocks that follow an empty one
+        REQUIRE_OK(value_entry_at(param->data, entry_slot, &entry));
+    }
     if (entry != NULL) {
         entry->defined = subparam.defined || entry->type != KEFIR_IR_DATA_VALUE_UNDEFINED;
         param->defined = param->defined || entry->defined;
-- 
2.43.0


From 97c525585b925e2ecfa7c25dc7d1cb99da33eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:03 +0000
Subject: [PATCH 19/62] fix: braced initializer of a bit-field with automatic
 storage

---
 source/ast-translator/initializer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/ast-translator/initializer.c b/source/ast-translator/initializer.c
index 9d51b24..9d48a0b 100644
--- a/source/ast-translator/initializer.c
+++ b/source/ast-translator/initializer.c
@@ -201,6 +201,14 @@ static kefir_result_t traverse_initializer_list(const struct kefir_ast_designato
         type_layout = param->translator_type->object.layout;
     }
 
+    if (type_layout->bitfield) {
+        struct kefir_ast_node_base *expression = kefir_ast_initializer_head(initializer);
+        REQUIRE(expression != NULL, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &initializer->source_location,
+                                                           "Scalar initializer list cannot be empty"));
+        REQUIRE_OK(traverse_scalar(designator, expression, payload));
+        return KEFIR_OK;
+    }
+
     REQUIRE_OK(translate_address(param->translator_type, designator, param->builder));
     REQUIRE_OK(
         kefir_ast_translate_initializer(param->mem, param->context, param->builder, type_layout->type, initializer));
-- 
2.43.0


From 0dec2b412220f6a00743505a7d025531e22e77a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:38 +0000
Subject: [PATCH 20/62] fix: convert case labels to the type of the controlling
 expression

---
 source/ast/analyzer/nodes/case_statement.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/nodes/case_statement.c b/source/ast/analyzer/nodes/case_statement.c
index 45acc00..c98569a 100644
--- a/source/ast/analyzer/nodes/case_statement.c
+++ b/source/ast/analyzer/nodes/case_statement.c
@@ -72,11 +72,17 @@ kefir_result_t kefir_ast_analyze_case_statement_node(struct kefir_mem *mem, cons
         REQUIRE(value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                        "Expected AST case label to be an integral constant expression"));
+        struct kefir_ast_constant_expression_value label = value;
+        if (switch_statement->value.switchStatement.controlling_expression_type != NULL) {
+            REQUIRE_OK(kefir_ast_constant_expression_value_cast(
+                mem, context, &label, &value, node->expression, node->expression->properties.type,
+                switch_statement->value.switchStatement.controlling_expression_type));
+        }
         struct kefir_ast_flow_control_point *point = kefir_ast_flow_control_point_alloc(mem, direct_parent);
         REQUIRE(point != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST flow control point"));
         kefir_result_t res =
             kefir_hashtree_insert(mem, &switch_statement->value.switchStatement.cases,
-                                  (kefir_hashtree_key_t) value.integer, (kefir_hashtree_value_t) point);
+                                  (kefir_hashtree_key_t) label.integer, (kefir_hashtree_value_t) point);
         if (res == KEFIR_ALREADY_EXISTS) {
             res = KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                          "Cannot duplicate case statement constants");
-- 
2.43.0


From 5edbad8de4c55fee773f77a606dbe0d73474918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:38 +0000
Subject: [PATCH 21/62] fix: conversion rank of long long is greater than that
 of long

---
 source/ast/type/basic.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/ast/type/basic.c b/source/ast/type/basic.c
index f20daa1..522b6a7 100644
--- a/source/ast/type/basic.c
+++ b/source/ast/type/basic.c
@@ -98,11 +98,11 @@ SCALAR_TYPE(unsigned_int, KEFIR_AST_TYPE_SCALAR_UNSIGNED_INT, 3)
 SCALAR_TYPE(signed_int, KEFIR_AST_TYPE_SCALAR_SIGNED_INT, 3)
 SCALAR_TYPE(unsigned_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG, 4)
 SCALAR_TYPE(signed_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG, 4)
-SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 4)
-SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 4)
-SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 5)
-SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 6)
-SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 7)
+SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 5)
+SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 5)
+SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 6)
+SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 7)
+SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 8)
 
 #undef SCALAR_TYPE
 
-- 
2.43.0


From 069266048228f7587cf592e275b13dc5faceba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:33 +0000
Subject: [PATCH 22/62] fix: do not expand a macro again while it is being
 expanded

Only a macro's own name in its own replacement list was excluded from
rescanning, so mutually recursive macros and '#if A' with '#define A A'
never terminated.
---
 headers/kefir/preprocessor/token_sequence.h |  4 ++
 source/preprocessor/substitutions.c         | 43 ++++++++++++++-------
 source/preprocessor/token_sequence.c        | 33 ++++++++++++++--
 3 files changed, 64 insertions(+), 16 deletions(-)

diff --git a/headers/kefir/preprocessor/token_sequence.h b/headers/kefir/preprocessor/token_sequence.h
index 0957e01..e28243a 100644
--- a/headers/kefir/preprocessor/token_sequence.h
+++ b/headers/kefir/preprocessor/token_sequence.h
@@ -26,6 +26,7 @@
 
 typedef struct kefir_preprocessor_token_sequence {
     struct kefir_list buffer_stack;
+    const struct kefir_preprocessor_token_sequence *parent;
 } kefir_preprocessor_token_sequence_t;
 
 kefir_result_t kefir_preprocessor_token_sequence_init(struct kefir_preprocessor_token_sequence *);
@@ -33,6 +34,9 @@ kefir_result_t kefir_preprocessor_token_sequence_free(struct kefir_mem *, struct
 kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *,
                                                             struct kefir_preprocessor_token_sequence *,
                                                             struct kefir_token_buffer *);
+kefir_result_t kefir_preprocessor_token_sequence_push_macro_front(struct kefir_mem *,
+                                                                  struct kefir_preprocessor_token_sequence *,
+                                                                  struct kefir_token_buffer *, const char *);
 kefir_result_t kefir_preprocessor_token_sequence_next(struct kefir_mem *, struct kefir_preprocessor_token_sequence *,
                                                       struct kefir_token *);
 kefir_result_t kefir_preprocessor_token_sequence_shift(struct kefir_mem *, struct kefir_preprocessor_token_sequence *,
diff --git a/source/preprocessor/substitutions.c b/source/preprocessor/substitutions.c
index 19bec05..3f8ce82 100644
--- a/source/preprocessor/substitutions.c
+++ b/source/preprocessor/substitutions.c
@@ -24,6 +24,10 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+static kefir_result_t run_nested_substitutions(struct kefir_mem *, struct kefir_preprocessor *,
+                                               const struct kefir_preprocessor_token_sequence *,
+                                               struct kefir_token_buffer *, kefir_preprocessor_substitution_context_t);
+
 static kefir_result_t substitute_object_macro(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                               struct kefir_preprocessor_token_sequence *seq,
                                               const struct kefir_preprocessor_macro *macro,
@@ -31,7 +35,7 @@ static kefir_result_t substitute_object_macro(struct kefir_mem *mem, struct kefi
     struct kefir_token_buffer subst_buf;
     REQUIRE_OK(kefir_token_buffer_init(&subst_buf));
     kefir_result_t res = macro->apply(mem, macro, preprocessor->lexer.symbols, NULL, &subst_buf, source_location);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &subst_buf));
+    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_macro_front(mem, seq, &subst_buf, macro->identifier));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_buffer_free(mem, &subst_buf);
         return res;
@@ -97,8 +101,10 @@ static kefir_result_t function_macro_arguments_push(struct kefir_mem *mem, struc
 }
 
 static kefir_result_t prepare_function_macro_argument(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                                      const struct kefir_preprocessor_token_sequence *seq,
                                                       struct kefir_token_buffer *buffer) {
-    REQUIRE_OK(kefir_preprocessor_run_substitutions(mem, preprocessor, buffer, KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
+    REQUIRE_OK(
+        run_nested_substitutions(mem, preprocessor, seq, buffer, KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
     while (buffer->length > 0 && buffer->tokens[buffer->length - 1].klass == KEFIR_TOKEN_PP_WHITESPACE) {
         REQUIRE_OK(kefir_token_buffer_pop(mem, buffer));
     }
@@ -168,7 +174,7 @@ static kefir_result_t scan_function_macro_arguments(struct kefir_mem *mem, struc
 
     for (const struct kefir_list_entry *iter = kefir_list_head(args); iter != NULL; kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_token_buffer *, arg_buffer, iter->value);
-        REQUIRE_OK(prepare_function_macro_argument(mem, preprocessor, arg_buffer));
+        REQUIRE_OK(prepare_function_macro_argument(mem, preprocessor, seq, arg_buffer));
     }
     return KEFIR_OK;
 }
@@ -180,7 +186,7 @@ static kefir_result_t apply_function_macro(struct kefir_mem *mem, struct kefir_p
     struct kefir_token_buffer subst_buf;
     REQUIRE_OK(kefir_token_buffer_init(&subst_buf));
     kefir_result_t res = macro->apply(mem, macro, preprocessor->lexer.symbols, args, &subst_buf, source_location);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &subst_buf));
+    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_macro_front(mem, seq, &subst_buf, macro->identifier));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_buffer_free(mem, &subst_buf);
         return res;
@@ -369,11 +375,13 @@ static kefir_result_t run_substitutions(struct kefir_mem *mem, struct kefir_prep
 
             kefir_result_t res = KEFIR_NO_MATCH;
             if (token.klass == KEFIR_TOKEN_IDENTIFIER &&
-                (!token.preprocessor_props.skip_identifier_subst ||
-                 subst_context == KEFIR_PREPROCESSOR_SUBSTITUTION_IF_CONDITION)) {
+                !token.preprocessor_props.skip_identifier_subst) {
                 res = substitute_identifier(mem, preprocessor, seq, token.identifier, subst_context,
                                             &token.source_location);
                 REQUIRE_CHAIN(&res, kefir_token_free(mem, &token));
+            } else if (token.klass == KEFIR_TOKEN_IDENTIFIER) {
+                res = substitute_unknown_identifier(mem, seq, subst_context, &token.source_location);
+                REQUIRE_CHAIN(&res, kefir_token_free(mem, &token));
             }
 
             if (res == KEFIR_NO_MATCH) {
@@ -449,15 +457,13 @@ static kefir_result_t run_substitutions_impl(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
-                                                    struct kefir_token_buffer *buffer,
-                                                    kefir_preprocessor_substitution_context_t subst_context) {
-    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
-    REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
-    REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid tokem buffer"));
-
+static kefir_result_t run_nested_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                               const struct kefir_preprocessor_token_sequence *parent,
+                                               struct kefir_token_buffer *buffer,
+                                               kefir_preprocessor_substitution_context_t subst_context) {
     struct kefir_preprocessor_token_sequence seq;
     REQUIRE_OK(kefir_preprocessor_token_sequence_init(&seq));
+    seq.parent = parent;
     kefir_result_t res = run_substitutions_impl(mem, preprocessor, buffer, &seq, subst_context);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_preprocessor_token_sequence_free(mem, &seq);
@@ -466,3 +472,14 @@ kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struc
     REQUIRE_OK(kefir_preprocessor_token_sequence_free(mem, &seq));
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                                    struct kefir_token_buffer *buffer,
+                                                    kefir_preprocessor_substitution_context_t subst_context) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
+    REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid tokem buffer"));
+
+    REQUIRE_OK(run_nested_substitutions(mem, preprocessor, NULL, buffer, subst_context));
+    return KEFIR_OK;
+}
diff --git a/source/preprocessor/token_sequence.c b/source/preprocessor/token_sequence.c
index b868ff1..27415f0 100644
--- a/source/preprocessor/token_sequence.c
+++ b/source/preprocessor/token_sequence.c
@@ -21,10 +21,12 @@
 #include "kefir/preprocessor/token_sequence.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include <string.h>
 
 struct buffer_element {
     struct kefir_token_buffer buffer;
     kefir_size_t index;
+    const char *macro_identifier;
 };
 
 static kefir_result_t free_token_buffer(struct kefir_mem *mem, struct kefir_list *list, struct kefir_list_entry *entry,
@@ -43,6 +45,7 @@ static kefir_result_t free_token_buffer(struct kefir_mem *mem, struct kefir_list
 kefir_result_t kefir_preprocessor_token_sequence_init(struct kefir_preprocessor_token_sequence *seq) {
     REQUIRE(seq != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid pointer to token sequence"));
 
+    seq->parent = NULL;
     REQUIRE_OK(kefir_list_init(&seq->buffer_stack));
     REQUIRE_OK(kefir_list_on_remove(&seq->buffer_stack, free_token_buffer, NULL));
     return KEFIR_OK;
@@ -57,9 +60,10 @@ kefir_result_t kefir_preprocessor_token_sequence_free(struct kefir_mem *mem,
     return KEFIR_OK;
 }
 
-kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *mem,
-                                                            struct kefir_preprocessor_token_sequence *seq,
-                                                            struct kefir_token_buffer *src) {
+kefir_result_t kefir_preprocessor_token_sequence_push_macro_front(struct kefir_mem *mem,
+                                                                  struct kefir_preprocessor_token_sequence *seq,
+                                                                  struct kefir_token_buffer *src,
+                                                                  const char *macro_identifier) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(seq != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token sequence"));
     REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
@@ -78,6 +82,7 @@ kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *me
         return res;
     });
     buffer_elt->index = 0;
+    buffer_elt->macro_identifier = macro_identifier;
 
     res = kefir_list_insert_after(mem, &seq->buffer_stack, kefir_list_tail(&seq->buffer_stack), buffer_elt);
     REQUIRE_ELSE(res == KEFIR_OK, {
@@ -88,6 +93,12 @@ kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *me
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *mem,
+                                                            struct kefir_preprocessor_token_sequence *seq,
+                                                            struct kefir_token_buffer *src) {
+    return kefir_preprocessor_token_sequence_push_macro_front(mem, seq, src, NULL);
+}
+
 static kefir_result_t next_buffer_elt(struct kefir_mem *mem, struct kefir_preprocessor_token_sequence *seq,
                                       struct buffer_element **buffer_elt) {
     *buffer_elt = NULL;
@@ -103,6 +114,19 @@ static kefir_result_t next_buffer_elt(struct kefir_mem *mem, struct kefir_prepro
     return KEFIR_OK;
 }
 
+static kefir_bool_t macro_in_progress(const struct kefir_preprocessor_token_sequence *seq, const char *identifier) {
+    for (; seq != NULL; seq = seq->parent) {
+        for (const struct kefir_list_entry *iter = kefir_list_head(&seq->buffer_stack); iter != NULL;
+             kefir_list_next(&iter)) {
+            ASSIGN_DECL_CAST(const struct buffer_element *, buffer_elt, iter->value);
+            if (buffer_elt->macro_identifier != NULL && strcmp(buffer_elt->macro_identifier, identifier) == 0) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 kefir_result_t kefir_preprocessor_token_sequence_next(struct kefir_mem *mem,
                                                       struct kefir_preprocessor_token_sequence *seq,
                                                       struct kefir_token *token_ptr) {
@@ -113,6 +137,9 @@ kefir_result_t kefir_preprocessor_token_sequence_next(struct kefir_mem *mem,
     REQUIRE_OK(next_buffer_elt(mem, seq, &buffer_elt));
     if (token_ptr != NULL) {
         REQUIRE_OK(kefir_token_move(token_ptr, &buffer_elt->buffer.tokens[buffer_elt->index]));
+        if (token_ptr->klass == KEFIR_TOKEN_IDENTIFIER && macro_in_progress(seq, token_ptr->identifier)) {
+            token_ptr->preprocessor_props.skip_identifier_subst = true;
+        }
     }
     buffer_elt->index++;
     return KEFIR_OK;
-- 
2.43.0


From d193cc52451df6970db9e619edd8e1e8408c0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:33 +0000
Subject: [PATCH 23/62] fix: keep literals and token boundaries in preprocessor
 output

Prefixed character constants lost their prefix or quotes, octal and hex
escapes were printed wrongly, and adjacent tokens produced by macros were
printed without a separator, so that -M printed --1 for #define M -1.
---
 headers/kefir/lexer/lexem.h     |   2 +
 source/lexer/lexem.c            |  18 +++
 source/preprocessor/format.c    | 191 ++++++++++++++++++++------------
 source/preprocessor/tokenizer.c |  43 +++++++
 4 files changed, 183 insertions(+), 71 deletions(-)

diff --git a/headers/kefir/lexer/lexem.h b/headers/kefir/lexer/lexem.h
index e0a446c..2a1e636 100644
--- a/headers/kefir/lexer/lexem.h
+++ b/headers/kefir/lexer/lexem.h
@@ -137,12 +137,14 @@ typedef struct kefir_constant_token {
         kefir_char16_t unicode16_char;
         kefir_char32_t unicode32_char;
     };
+    const char *spelling;
 } kefir_constant_token_t;
 
 typedef struct kefir_string_literal_token {
     kefir_string_literal_token_type_t type;
     void *literal;
     kefir_size_t length;
+    const char *spelling;
 } kefir_string_literal_token_t;
 
 typedef enum kefir_punctuator_token {
diff --git a/source/lexer/lexem.c b/source/lexer/lexem.c
index 614e552..0a87de7 100644
--- a/source/lexer/lexem.c
+++ b/source/lexer/lexem.c
@@ -64,6 +64,7 @@ kefir_result_t kefir_token_new_constant_int(kefir_int64_t value, struct kefir_to
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_INTEGER;
+    token->constant.spelling = NULL;
     token->constant.integer = value;
     return KEFIR_OK;
 }
@@ -73,6 +74,7 @@ kefir_result_t kefir_token_new_constant_uint(kefir_uint64_t value, struct kefir_
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_UNSIGNED_INTEGER;
+    token->constant.spelling = NULL;
     token->constant.uinteger = value;
     return KEFIR_OK;
 }
@@ -82,6 +84,7 @@ kefir_result_t kefir_token_new_constant_long(kefir_int64_t value, struct kefir_t
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_LONG_INTEGER;
+    token->constant.spelling = NULL;
     token->constant.integer = value;
     return KEFIR_OK;
 }
@@ -90,6 +93,7 @@ kefir_result_t kefir_token_new_constant_ulong(kefir_uint64_t value, struct kefir
     REQUIRE(token != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid pointer to token"));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_INTEGER;
+    token->constant.spelling = NULL;
     token->constant.uinteger = value;
     return KEFIR_OK;
 }
@@ -99,6 +103,7 @@ kefir_result_t kefir_token_new_constant_long_long(kefir_int64_t value, struct ke
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
+    token->constant.spelling = NULL;
     token->constant.integer = value;
     return KEFIR_OK;
 }
@@ -108,6 +113,7 @@ kefir_result_t kefir_token_new_constant_ulong_long(kefir_uint64_t value, struct
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_LONG_INTEGER;
+    token->constant.spelling = NULL;
     token->constant.integer = value;
     return KEFIR_OK;
 }
@@ -117,6 +123,7 @@ kefir_result_t kefir_token_new_constant_char(kefir_int_t value, struct kefir_tok
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_CHAR;
+    token->constant.spelling = NULL;
     token->constant.character = value;
     return KEFIR_OK;
 }
@@ -126,6 +133,7 @@ kefir_result_t kefir_token_new_constant_wide_char(kefir_wchar_t value, struct ke
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_WIDE_CHAR;
+    token->constant.spelling = NULL;
     token->constant.wide_char = value;
     return KEFIR_OK;
 }
@@ -135,6 +143,7 @@ kefir_result_t kefir_token_new_constant_unicode16_char(kefir_char16_t value, str
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_UNICODE16_CHAR;
+    token->constant.spelling = NULL;
     token->constant.unicode16_char = value;
     return KEFIR_OK;
 }
@@ -144,6 +153,7 @@ kefir_result_t kefir_token_new_constant_unicode32_char(kefir_char32_t value, str
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_UNICODE32_CHAR;
+    token->constant.spelling = NULL;
     token->constant.unicode32_char = value;
     return KEFIR_OK;
 }
@@ -153,6 +163,7 @@ kefir_result_t kefir_token_new_constant_float(kefir_float32_t value, struct kefi
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_FLOAT;
+    token->constant.spelling = NULL;
     token->constant.float32 = value;
     return KEFIR_OK;
 }
@@ -162,6 +173,7 @@ kefir_result_t kefir_token_new_constant_double(kefir_float64_t value, struct kef
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_DOUBLE;
+    token->constant.spelling = NULL;
     token->constant.float64 = value;
     return KEFIR_OK;
 }
@@ -171,6 +183,7 @@ kefir_result_t kefir_token_new_constant_long_double(kefir_long_double_t value, s
     REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_CONSTANT;
     token->constant.type = KEFIR_CONSTANT_TOKEN_LONG_DOUBLE;
+    token->constant.spelling = NULL;
     token->constant.long_double = value;
     return KEFIR_OK;
 }
@@ -187,6 +200,7 @@ kefir_result_t kefir_token_new_string_literal_multibyte(struct kefir_mem *mem, c
     memcpy(dest_content, content, length);
     token->klass = KEFIR_TOKEN_STRING_LITERAL;
     token->string_literal.type = KEFIR_STRING_LITERAL_TOKEN_MULTIBYTE;
+    token->string_literal.spelling = NULL;
     token->string_literal.literal = dest_content;
     token->string_literal.length = length;
     return KEFIR_OK;
@@ -205,6 +219,7 @@ kefir_result_t kefir_token_new_string_literal_unicode8(struct kefir_mem *mem, co
     memcpy(dest_content, content, length);
     token->klass = KEFIR_TOKEN_STRING_LITERAL;
     token->string_literal.type = KEFIR_STRING_LITERAL_TOKEN_UNICODE8;
+    token->string_literal.spelling = NULL;
     token->string_literal.literal = dest_content;
     token->string_literal.length = length;
     return KEFIR_OK;
@@ -224,6 +239,7 @@ kefir_result_t kefir_token_new_string_literal_unicode16(struct kefir_mem *mem, c
     memcpy(dest_content, content, sz);
     token->klass = KEFIR_TOKEN_STRING_LITERAL;
     token->string_literal.type = KEFIR_STRING_LITERAL_TOKEN_UNICODE16;
+    token->string_literal.spelling = NULL;
     token->string_literal.literal = dest_content;
     token->string_literal.length = length;
     return KEFIR_OK;
@@ -243,6 +259,7 @@ kefir_result_t kefir_token_new_string_literal_unicode32(struct kefir_mem *mem, c
     memcpy(dest_content, content, sz);
     token->klass = KEFIR_TOKEN_STRING_LITERAL;
     token->string_literal.type = KEFIR_STRING_LITERAL_TOKEN_UNICODE32;
+    token->string_literal.spelling = NULL;
     token->string_literal.literal = dest_content;
     token->string_literal.length = length;
     return KEFIR_OK;
@@ -261,6 +278,7 @@ kefir_result_t kefir_token_new_string_literal_wide(struct kefir_mem *mem, const
     memcpy(dest_content, content, sz);
     token->klass = KEFIR_TOKEN_STRING_LITERAL;
     token->string_literal.type = KEFIR_STRING_LITERAL_TOKEN_WIDE;
+    token->string_literal.spelling = NULL;
     token->string_literal.literal = dest_content;
     token->string_literal.length = length;
     return KEFIR_OK;
diff --git a/source/preprocessor/format.c b/source/preprocessor/format.c
index ab29f7b..d48e47a 100644
--- a/source/preprocessor/format.c
+++ b/source/preprocessor/format.c
@@ -32,77 +32,73 @@
 #include <string.h>
 #include <stdio.h>
 
+static const char *const PUNCTUATORS[] = {[KEFIR_PUNCTUATOR_LEFT_BRACKET] = "[",
+                                          [KEFIR_PUNCTUATOR_RIGHT_BRACKET] = "]",
+                                          [KEFIR_PUNCTUATOR_LEFT_PARENTHESE] = "(",
+                                          [KEFIR_PUNCTUATOR_RIGHT_PARENTHESE] = ")",
+                                          [KEFIR_PUNCTUATOR_LEFT_BRACE] = "{",
+                                          [KEFIR_PUNCTUATOR_RIGHT_BRACE] = "}",
+                                          [KEFIR_PUNCTUATOR_DOT] = ".",
+                                          [KEFIR_PUNCTUATOR_RIGHT_ARROW] = "->",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_PLUS] = "++",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_MINUS] = "--",
+                                          [KEFIR_PUNCTUATOR_AMPERSAND] = "&",
+                                          [KEFIR_PUNCTUATOR_STAR] = "*",
+                                          [KEFIR_PUNCTUATOR_PLUS] = "+",
+                                          [KEFIR_PUNCTUATOR_MINUS] = "-",
+                                          [KEFIR_PUNCTUATOR_TILDE] = "~",
+                                          [KEFIR_PUNCTUATOR_EXCLAMATION_MARK] = "!",
+                                          [KEFIR_PUNCTUATOR_SLASH] = "/",
+                                          [KEFIR_PUNCTUATOR_PERCENT] = "%",
+                                          [KEFIR_PUNCTUATOR_LEFT_SHIFT] = "<<",
+                                          [KEFIR_PUNCTUATOR_RIGHT_SHIFT] = ">>",
+                                          [KEFIR_PUNCTUATOR_LESS_THAN] = "<",
+                                          [KEFIR_PUNCTUATOR_GREATER_THAN] = ">",
+                                          [KEFIR_PUNCTUATOR_LESS_OR_EQUAL] = "<=",
+                                          [KEFIR_PUNCTUATOR_GREATER_OR_EQUAL] = ">=",
+                                          [KEFIR_PUNCTUATOR_EQUAL] = "==",
+                                          [KEFIR_PUNCTUATOR_NOT_EQUAL] = "!=",
+                                          [KEFIR_PUNCTUATOR_CARET] = "^",
+                                          [KEFIR_PUNCTUATOR_VBAR] = "|",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_AMPERSAND] = "&&",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_VBAR] = "||",
+                                          [KEFIR_PUNCTUATOR_QUESTION_MARK] = "?",
+                                          [KEFIR_PUNCTUATOR_COLON] = ":",
+                                          [KEFIR_PUNCTUATOR_SEMICOLON] = ";",
+                                          [KEFIR_PUNCTUATOR_ELLIPSIS] = "...",
+                                          [KEFIR_PUNCTUATOR_ASSIGN] = "=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_MULTIPLY] = "*=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_DIVIDE] = "/=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_MODULO] = "%=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_ADD] = "+=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_SUBTRACT] = "-=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_LEFT] = "<<=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_RIGHT] = ">>=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_AND] = "&=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_XOR] = "^=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_OR] = "|=",
+                                          [KEFIR_PUNCTUATOR_COMMA] = ",",
+                                          [KEFIR_PUNCTUATOR_HASH] = "#",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_HASH] = "##",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACKET] = "[",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACKET] = "]",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACE] = "{",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACE] = "}",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_HASH] = "#",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH] = "##"};
+static const kefir_size_t PUNCTUATORS_LENGTH = sizeof(PUNCTUATORS) / sizeof(PUNCTUATORS[0]);
+
 static kefir_result_t format_punctuator(FILE *out, kefir_punctuator_token_t punctuator) {
-    static const char *const PUNCTUATORS[] = {[KEFIR_PUNCTUATOR_LEFT_BRACKET] = "[",
-                                              [KEFIR_PUNCTUATOR_RIGHT_BRACKET] = "]",
-                                              [KEFIR_PUNCTUATOR_LEFT_PARENTHESE] = "(",
-                                              [KEFIR_PUNCTUATOR_RIGHT_PARENTHESE] = ")",
-                                              [KEFIR_PUNCTUATOR_LEFT_BRACE] = "{",
-                                              [KEFIR_PUNCTUATOR_RIGHT_BRACE] = "}",
-                                              [KEFIR_PUNCTUATOR_DOT] = ".",
-                                              [KEFIR_PUNCTUATOR_RIGHT_ARROW] = "->",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_PLUS] = "++",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_MINUS] = "--",
-                                              [KEFIR_PUNCTUATOR_AMPERSAND] = "&",
-                                              [KEFIR_PUNCTUATOR_STAR] = "*",
-                                              [KEFIR_PUNCTUATOR_PLUS] = "+",
-                                              [KEFIR_PUNCTUATOR_MINUS] = "-",
-                                              [KEFIR_PUNCTUATOR_TILDE] = "~",
-                                              [KEFIR_PUNCTUATOR_EXCLAMATION_MARK] = "!",
-                                              [KEFIR_PUNCTUATOR_SLASH] = "/",
-                                              [KEFIR_PUNCTUATOR_PERCENT] = "%",
-                                              [KEFIR_PUNCTUATOR_LEFT_SHIFT] = "<<",
-                                              [KEFIR_PUNCTUATOR_RIGHT_SHIFT] = ">>",
-                                              [KEFIR_PUNCTUATOR_LESS_THAN] = "<",
-                                              [KEFIR_PUNCTUATOR_GREATER_THAN] = ">",
-                                              [KEFIR_PUNCTUATOR_LESS_OR_EQUAL] = "<=",
-                                              [KEFIR_PUNCTUATOR_GREATER_OR_EQUAL] = ">=",
-                                              [KEFIR_PUNCTUATOR_EQUAL] = "==",
-                                              [KEFIR_PUNCTUATOR_NOT_EQUAL] = "!=",
-                                              [KEFIR_PUNCTUATOR_CARET] = "^",
-                                              [KEFIR_PUNCTUATOR_VBAR] = "|",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_AMPERSAND] = "&&",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_VBAR] = "||",
-                                              [KEFIR_PUNCTUATOR_QUESTION_MARK] = "?",
-                                              [KEFIR_PUNCTUATOR_COLON] = ":",
-                                              [KEFIR_PUNCTUATOR_SEMICOLON] = ";",
-                                              [KEFIR_PUNCTUATOR_ELLIPSIS] = "...",
-                                              [KEFIR_PUNCTUATOR_ASSIGN] = "=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_MULTIPLY] = "*=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_DIVIDE] = "/=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_MODULO] = "%=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_ADD] = "+=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_SUBTRACT] = "-=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_LEFT] = "<<=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_RIGHT] = ">>=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_AND] = "&=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_XOR] = "^=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_OR] = "|=",
-                                              [KEFIR_PUNCTUATOR_COMMA] = ",",
-                                              [KEFIR_PUNCTUATOR_HASH] = "#",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_HASH] = "##",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACKET] = "[",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACKET] = "]",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACE] = "{",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACE] = "}",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_HASH] = "#",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH] = "##"};
     fprintf(out, "%s", PUNCTUATORS[punctuator]);
     return KEFIR_OK;
 }
 
-static kefir_result_t format_char(FILE *out, char chr) {
+static kefir_result_t format_char(FILE *out, char chr, char quote, kefir_bool_t escape_all) {
     switch (chr) {
         case '\'':
-            fprintf(out, "\\\'");
-            break;
-
         case '\"':
-            fprintf(out, "\\\"");
-            break;
-
         case '\?':
-            fprintf(out, "\\\?");
+            fprintf(out, escape_all || chr == quote ? "\\%c" : "%c", chr);
             break;
 
         case '\\':
@@ -138,14 +134,14 @@ static kefir_result_t format_char(FILE *out, char chr) {
             break;
 
         case '\0':
-            fprintf(out, "\\0");
+            fprintf(out, "\\000");
             break;
 
         default:
-            if (isprint(chr)) {
+            if (isprint((unsigned char) chr)) {
                 fprintf(out, "%c", chr);
             } else {
-                fprintf(out, "\\%03o", chr);
+                fprintf(out, "\\%03o", (unsigned char) chr);
             }
             break;
     }
@@ -213,7 +209,7 @@ static kefir_result_t format_wchar(FILE *out, wchar_t chr) {
     return KEFIR_OK;
 }
 
-static kefir_result_t format_constant(FILE *out, const struct kefir_token *token) {
+static kefir_result_t format_constant(FILE *out, const struct kefir_token *token, kefir_bool_t escape_all) {
     switch (token->constant.type) {
         case KEFIR_CONSTANT_TOKEN_INTEGER:
         case KEFIR_CONSTANT_TOKEN_LONG_INTEGER:
@@ -228,7 +224,7 @@ static kefir_result_t format_constant(FILE *out, const struct kefir_token *token
 
         case KEFIR_CONSTANT_TOKEN_CHAR:
             fprintf(out, "'");
-            REQUIRE_OK(format_char(out, token->constant.character));
+            REQUIRE_OK(format_char(out, token->constant.character, '\'', escape_all));
             fprintf(out, "'");
             break;
 
@@ -259,7 +255,8 @@ static kefir_result_t format_constant(FILE *out, const struct kefir_token *token
     return KEFIR_OK;
 }
 
-static kefir_result_t format_string_literal(FILE *out, const struct kefir_token *token) {
+static kefir_result_t format_string_literal(FILE *out, const struct kefir_token *token,
+                                            kefir_bool_t escape_all) {
     switch (token->string_literal.type) {
         case KEFIR_STRING_LITERAL_TOKEN_UNICODE8:
             fprintf(out, "u8");
@@ -268,7 +265,7 @@ static kefir_result_t format_string_literal(FILE *out, const struct kefir_token
             fprintf(out, "\"");
             for (kefir_size_t i = 0; i < token->string_literal.length - 1; i++) {
                 char chr = ((const char *) token->string_literal.literal)[i];
-                REQUIRE_OK(format_char(out, chr));
+                REQUIRE_OK(format_char(out, chr, '"', escape_all));
             }
             fprintf(out, "\"");
             break;
@@ -322,11 +319,21 @@ static kefir_result_t format_token(FILE *out, const struct kefir_token *token,
             break;
 
         case KEFIR_TOKEN_CONSTANT:
-            REQUIRE_OK(format_constant(out, token));
+            if (token->constant.spelling != NULL) {
+                fprintf(out, "%s", token->constant.spelling);
+            } else {
+                REQUIRE_OK(format_constant(out, token, ws_format == KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL));
+            }
             break;
 
         case KEFIR_TOKEN_STRING_LITERAL:
-            REQUIRE_OK(format_string_literal(out, token));
+            if (token->string_literal.spelling != NULL &&
+                token->string_literal.type != KEFIR_STRING_LITERAL_TOKEN_UNICODE16 &&
+                token->string_literal.type != KEFIR_STRING_LITERAL_TOKEN_UNICODE32) {
+                fprintf(out, "%s", token->string_literal.spelling);
+            } else {
+                REQUIRE_OK(format_string_literal(out, token, ws_format == KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL));
+            }
             break;
 
         case KEFIR_TOKEN_PUNCTUATOR:
@@ -364,12 +371,54 @@ static kefir_result_t format_token(FILE *out, const struct kefir_token *token,
     return KEFIR_OK;
 }
 
+static kefir_bool_t punctuators_may_merge(kefir_punctuator_token_t left, kefir_punctuator_token_t right) {
+    const char *const left_str = PUNCTUATORS[left];
+    const char *const right_str = PUNCTUATORS[right];
+    const kefir_size_t left_len = strlen(left_str);
+    if (left == KEFIR_PUNCTUATOR_SLASH && (*right_str == '/' || *right_str == '*')) {
+        return true;
+    }
+    for (kefir_size_t i = 0; i < PUNCTUATORS_LENGTH; i++) {
+        if (PUNCTUATORS[i] != NULL && strncmp(PUNCTUATORS[i], left_str, left_len) == 0 &&
+            PUNCTUATORS[i][left_len] == *right_str) {
+            return true;
+        }
+    }
+    return false;
+}
+
+// Checks whether tokens, written one after another, would be scanned as different ones
+static kefir_bool_t tokens_may_merge(const struct kefir_token *left, const struct kefir_token *right) {
+    if (left->klass == KEFIR_TOKEN_IDENTIFIER || left->klass == KEFIR_TOKEN_PP_NUMBER) {
+        if (right->klass == KEFIR_TOKEN_PUNCTUATOR && left->klass == KEFIR_TOKEN_PP_NUMBER) {
+            const char last = left->pp_number.number_literal[strlen(left->pp_number.number_literal) - 1];
+            const char first = *PUNCTUATORS[right->punctuator];
+            return first == '.' || ((first == '+' || first == '-') &&
+                                    (last == 'e' || last == 'E' || last == 'p' || last == 'P'));
+        }
+        return right->klass == KEFIR_TOKEN_IDENTIFIER || right->klass == KEFIR_TOKEN_PP_NUMBER ||
+               right->klass == KEFIR_TOKEN_CONSTANT || right->klass == KEFIR_TOKEN_STRING_LITERAL;
+    } else if (left->klass == KEFIR_TOKEN_PUNCTUATOR) {
+        return (right->klass == KEFIR_TOKEN_PUNCTUATOR && punctuators_may_merge(left->punctuator, right->punctuator)) ||
+               (right->klass == KEFIR_TOKEN_PP_NUMBER && left->punctuator == KEFIR_PUNCTUATOR_DOT);
+    }
+    return false;
+}
+
 kefir_result_t kefir_preprocessor_format(FILE *out, const struct kefir_token_buffer *buffer,
                                          kefir_preprocessor_whitespace_format_t ws_format) {
     REQUIRE(out != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid FILE"));
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
 
     for (kefir_size_t i = 0; i < buffer->length; i++) {
+        if (i > 0) {
+            const struct kefir_token *previous = &buffer->tokens[i - 1];
+            if (ws_format == KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL) {
+                if (tokens_may_merge(previous, &buffer->tokens[i])) {
+                    fprintf(out, " ");
+                }
+            }
+        }
         REQUIRE_OK(format_token(out, &buffer->tokens[i], ws_format));
     }
     return KEFIR_OK;
diff --git a/source/preprocessor/tokenizer.c b/source/preprocessor/tokenizer.c
index e1a6ac0..c17e228 100644
--- a/source/preprocessor/tokenizer.c
+++ b/source/preprocessor/tokenizer.c
@@ -24,6 +24,34 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+static kefir_result_t assign_literal_spelling(struct kefir_mem *mem, struct kefir_lexer *lexer,
+                                              kefir_size_t begin_index, struct kefir_token *token) {
+    REQUIRE(lexer->symbols != NULL, KEFIR_OK);
+
+    char *spelling = KEFIR_MALLOC(mem, lexer->cursor->index - begin_index + 1);
+    REQUIRE(spelling != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate literal spelling"));
+    kefir_size_t length = 0;
+    for (kefir_size_t i = begin_index; i < lexer->cursor->index; i++) {
+        const char *content = &lexer->cursor->content[i];
+        if (content[0] == '\\' && i + 1 < lexer->cursor->index && content[1] == '\n') {
+            i++;  // Skip line break
+        } else {
+            spelling[length++] = content[0];
+        }
+    }
+    spelling[length] = '\0';
+
+    const char *symbol = kefir_symbol_table_insert(mem, lexer->symbols, spelling, NULL);
+    KEFIR_FREE(mem, spelling);
+    REQUIRE(symbol != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to insert spelling into symbol table"));
+    if (token->klass == KEFIR_TOKEN_STRING_LITERAL) {
+        token->string_literal.spelling = symbol;
+    } else {
+        token->constant.spelling = symbol;
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t preprocessor_next_impl(struct kefir_mem *mem, struct kefir_lexer *lexer, void *payload) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(lexer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid lexer"));
@@ -31,6 +59,7 @@ static kefir_result_t preprocessor_next_impl(struct kefir_mem *mem, struct kefir
 
     ASSIGN_DECL_CAST(struct kefir_token *, token, payload);
     struct kefir_source_location source_location = lexer->cursor->location;
+    const kefir_size_t begin_index = lexer->cursor->index;
 
     kefir_result_t res = KEFIR_NO_MATCH;
     if (lexer->extensions != NULL && lexer->extensions->before_token_lex != NULL) {
@@ -48,12 +77,26 @@ static kefir_result_t preprocessor_next_impl(struct kefir_mem *mem, struct kefir
     }
     if (res == KEFIR_NO_MATCH) {
         res = kefir_lexer_match_character_constant(mem, lexer, token);
+        if (res == KEFIR_OK) {
+            res = assign_literal_spelling(mem, lexer, begin_index, token);
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_token_free(mem, token);
+                return res;
+            });
+        }
     }
     if (res == KEFIR_NO_MATCH) {
         res = kefir_lexer_match_pp_number(mem, lexer, token);
     }
     if (res == KEFIR_NO_MATCH) {
         res = kefir_lexer_match_string_literal(mem, lexer, token, false);
+        if (res == KEFIR_OK) {
+            res = assign_literal_spelling(mem, lexer, begin_index, token);
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_token_free(mem, token);
+                return res;
+            });
+        }
     }
     if (res == KEFIR_NO_MATCH) {
         res = kefir_lexer_match_identifier(mem, lexer, token);
-- 
2.43.0


From c066e7054d38277e4b2341940e5a23363863874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:33 +0000
Subject: [PATCH 24/62] fix: evaluate macro replacement lists in one pass

The result of ## was rescanned for parameters and operators, ## coming from
arguments was taken as operator, and valid operands (prefix with a literal,
numbers with dots and exponents) were rejected.
---
 source/preprocessor/user_macro.c | 391 ++++++++++++-------------------
 1 file changed, 147 insertions(+), 244 deletions(-)

diff --git a/source/preprocessor/user_macro.c b/source/preprocessor/user_macro.c
index e2c1012..0139429 100644
--- a/source/preprocessor/user_macro.c
+++ b/source/preprocessor/user_macro.c
@@ -19,12 +19,12 @@
 */
 
 #include "kefir/preprocessor/user_macro.h"
+#include "kefir/preprocessor/tokenizer.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 #include "kefir/core/hashtree.h"
 #include "kefir/core/source_error.h"
 #include "kefir/preprocessor/format.h"
-#include "kefir/preprocessor/token_sequence.h"
 #include "kefir/lexer/format.h"
 #include <string.h>
 
@@ -51,7 +51,7 @@ static kefir_result_t build_function_macro_args_tree(struct kefir_mem *mem,
         REQUIRE(arg_iter != NULL,
                 KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Provided macro arguments do no match macro parameters"));
         const char *arg_identifier = id_iter->value;
-        struct kefir_token_buffer *arg_value = arg_iter->value;
+        const struct kefir_token_buffer *arg_value = arg_iter->value;
 
         REQUIRE_OK(kefir_hashtree_insert(mem, arg_tree, (kefir_hashtree_key_t) arg_identifier,
                                          (kefir_hashtree_value_t) arg_value));
@@ -67,25 +67,36 @@ static kefir_result_t build_function_macro_args_tree(struct kefir_mem *mem,
     return KEFIR_OK;
 }
 
+static kefir_result_t append_token_copies(struct kefir_mem *mem, struct kefir_token_buffer *buffer,
+                                          const struct kefir_token *tokens, kefir_size_t length) {
+    for (kefir_size_t i = 0; i < length; i++) {
+        struct kefir_token token_copy;
+        REQUIRE_OK(kefir_token_copy(mem, &token_copy, &tokens[i]));
+        kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &token_copy);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_token_free(mem, &token_copy);
+            return res;
+        });
+    }
+    return KEFIR_OK;
+}
+
+static const struct kefir_token PlacemakerToken = {.klass = KEFIR_TOKEN_PP_PLACEMAKER};
+
 static kefir_result_t fn_macro_parameter_substitution(struct kefir_mem *mem, const struct kefir_hashtree *arg_tree,
-                                                      struct kefir_token_buffer *buffer, const char *identifier) {
+                                                      struct kefir_token_buffer *buffer, const char *identifier,
+                                                      kefir_bool_t concat_operand) {
     struct kefir_hashtree_node *node;
     kefir_result_t res = kefir_hashtree_at(arg_tree, (kefir_hashtree_key_t) identifier, &node);
-    if (res != KEFIR_NOT_FOUND) {
-        REQUIRE_OK(res);
+    REQUIRE(res != KEFIR_NOT_FOUND,
+            KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to substitute function macro parameter"));
+    REQUIRE_OK(res);
 
-        ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
-        for (kefir_size_t i = 0; i < arg_buffer->length; i++) {
-            struct kefir_token token_copy;
-            REQUIRE_OK(kefir_token_copy(mem, &token_copy, &arg_buffer->tokens[i]));
-            res = kefir_token_buffer_emplace(mem, buffer, &token_copy);
-            REQUIRE_ELSE(res == KEFIR_OK, {
-                kefir_token_free(mem, &token_copy);
-                return res;
-            });
-        }
+    ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
+    if (arg_buffer->length > 0 || !concat_operand) {
+        REQUIRE_OK(append_token_copies(mem, buffer, arg_buffer->tokens, arg_buffer->length));
     } else {
-        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to substitute function macro parameter");
+        REQUIRE_OK(append_token_copies(mem, buffer, &PlacemakerToken, 1));
     }
     return KEFIR_OK;
 }
@@ -124,107 +135,55 @@ static kefir_result_t fn_macro_parameter_stringification(struct kefir_mem *mem,
     return KEFIR_OK;
 }
 
-static const struct kefir_token PlacemakerToken = {.klass = KEFIR_TOKEN_PP_PLACEMAKER};
-
-static kefir_result_t concat_resolve_left_argument(struct kefir_mem *mem, const struct kefir_hashtree *arg_tree,
-                                                   struct kefir_token_buffer *buffer, const struct kefir_token *arg,
-                                                   const struct kefir_token **result) {
-    if (arg->klass == KEFIR_TOKEN_IDENTIFIER && arg_tree != NULL) {
-        struct kefir_hashtree_node *node;
-        kefir_result_t res = kefir_hashtree_at(arg_tree, (kefir_hashtree_key_t) arg->identifier, &node);
-        if (res != KEFIR_NOT_FOUND) {
-            REQUIRE_OK(res);
-            ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
-
-            if (arg_buffer->length == 0) {
-                *result = &PlacemakerToken;
-            } else {
-                struct kefir_token token_copy;
-                for (kefir_size_t i = 0; i < arg_buffer->length - 1; i++) {
-                    REQUIRE_OK(kefir_token_copy(mem, &token_copy, &arg_buffer->tokens[i]));
-                    res = kefir_token_buffer_emplace(mem, buffer, &token_copy);
-                    REQUIRE_ELSE(res == KEFIR_OK, {
-                        kefir_token_free(mem, &token_copy);
-                        return res;
-                    });
-                }
-                *result = &arg_buffer->tokens[arg_buffer->length - 1];
-            }
-            return KEFIR_OK;
-        }
-    }
-
-    *result = arg;
-    return KEFIR_OK;
-}
-
-static kefir_result_t concat_resolve_right_argument(struct kefir_mem *mem, const struct kefir_hashtree *arg_tree,
-                                                    struct kefir_token_buffer *buffer, const struct kefir_token *arg,
-                                                    const struct kefir_token **result) {
-    if (arg->klass == KEFIR_TOKEN_IDENTIFIER && arg_tree != NULL) {
-        struct kefir_hashtree_node *node;
-        kefir_result_t res = kefir_hashtree_at(arg_tree, (kefir_hashtree_key_t) arg->identifier, &node);
-        if (res != KEFIR_NOT_FOUND) {
-            REQUIRE_OK(res);
-            ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
-
-            if (arg_buffer->length == 0) {
-                *result = &PlacemakerToken;
-            } else {
-                struct kefir_token token_copy;
-                for (kefir_size_t i = 1; i < arg_buffer->length; i++) {
-                    REQUIRE_OK(kefir_token_copy(mem, &token_copy, &arg_buffer->tokens[i]));
-                    res = kefir_token_buffer_emplace(mem, buffer, &token_copy);
-                    REQUIRE_ELSE(res == KEFIR_OK, {
-                        kefir_token_free(mem, &token_copy);
-                        return res;
-                    });
-                }
-                *result = &arg_buffer->tokens[0];
-            }
-            return KEFIR_OK;
-        }
+static kefir_result_t scan_concatenated_token(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
+                                              const char *spelling, const struct kefir_source_location *source_location,
+                                              struct kefir_token *token) {
+    struct kefir_lexer lexer;
+    struct kefir_lexer_context context;
+    struct kefir_lexer_source_cursor cursor;
+    REQUIRE_OK(kefir_lexer_context_default(&context));
+    REQUIRE_OK(kefir_lexer_source_cursor_init(&cursor, spelling, strlen(spelling), ""));
+    REQUIRE_OK(kefir_lexer_init(mem, &lexer, symbols, &cursor, &context, NULL));
+    kefir_result_t res = kefir_preprocessor_tokenize_next(mem, &lexer, token);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_lexer_free(mem, &lexer);
+        return res;
+    });
+    if (cursor.index != cursor.length) {
+        res = KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, source_location,
+                                     "Expected preprocessor concatenation to produce single token");
     }
-
-    *result = arg;
+    REQUIRE_CHAIN(&res, kefir_lexer_free(mem, &lexer));
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_token_free(mem, token);
+        return res;
+    });
+    token->source_location = *source_location;
     return KEFIR_OK;
 }
 
-static char *concat_strings(struct kefir_mem *mem, const char *str1, const char *str2) {
-
-    kefir_size_t sz = strlen(str1) + strlen(str2) + 1;
-    char *result = KEFIR_MALLOC(mem, sz);
-    REQUIRE(result != NULL, NULL);
-    strcpy(result, str1);
-    strcat(result, str2);
-    return result;
-}
-
 static kefir_result_t concat_tokens_impl(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
                                          const struct kefir_token *left, const struct kefir_token *right,
                                          struct kefir_token_buffer *buffer) {
-    REQUIRE(right->klass == KEFIR_TOKEN_IDENTIFIER || right->klass == KEFIR_TOKEN_PP_NUMBER,
-            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &right->source_location,
-                                   "Expected either identifier or preprocessor number"));
-    struct kefir_token token;
-    kefir_result_t res;
-    const char *left_str = left->klass == KEFIR_TOKEN_IDENTIFIER ? left->identifier : left->pp_number.number_literal;
-    const char *right_str =
-        right->klass == KEFIR_TOKEN_IDENTIFIER ? right->identifier : right->pp_number.number_literal;
-    char *result = concat_strings(mem, left_str, right_str);
-    REQUIRE(result != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate identifier string"));
-
-    if (left->klass == KEFIR_TOKEN_IDENTIFIER) {
-        res = kefir_token_new_identifier(mem, symbols, result, &token);
-    } else {
-        res = kefir_token_new_pp_number(mem, result, strlen(result), &token);
-    }
+    struct kefir_token_buffer operands;
+    REQUIRE_OK(kefir_token_buffer_init(&operands));
+    char *spelling = NULL;
+    kefir_size_t spelling_sz = 0;
+    kefir_result_t res = append_token_copies(mem, &operands, left, 1);
+    REQUIRE_CHAIN(&res, append_token_copies(mem, &operands, right, 1));
+    REQUIRE_CHAIN(&res, kefir_preprocessor_format_string(mem, &spelling, &spelling_sz, &operands,
+                                                         KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_SINGLE_SPACE));
     REQUIRE_ELSE(res == KEFIR_OK, {
-        KEFIR_FREE(mem, result);
+        kefir_token_buffer_free(mem, &operands);
         return res;
     });
-    token.source_location = left->source_location;
-    KEFIR_FREE(mem, result);
+    res = kefir_token_buffer_free(mem, &operands);
+
+    struct kefir_token token;
+    REQUIRE_CHAIN(&res, scan_concatenated_token(mem, symbols, spelling, &left->source_location, &token));
+    KEFIR_FREE(mem, spelling);
+    REQUIRE_OK(res);
+
     res = kefir_token_buffer_emplace(mem, buffer, &token);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_free(mem, &token);
@@ -342,7 +301,9 @@ static kefir_result_t macro_concatenation_impl(struct kefir_mem *mem, struct kef
                                               "Unexpected string literal token");
 
             case KEFIR_TOKEN_PUNCTUATOR: {
-                if (right->klass != KEFIR_TOKEN_EXTENSION) {
+                if (right->klass == KEFIR_TOKEN_PP_NUMBER) {
+                    REQUIRE_OK(concat_tokens_impl(mem, symbols, left, right, buffer));
+                } else if (right->klass != KEFIR_TOKEN_EXTENSION) {
                     REQUIRE(right->klass == KEFIR_TOKEN_PUNCTUATOR,
                             KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &right->source_location,
                                                    "Expected punctuator token"));
@@ -386,131 +347,96 @@ static kefir_result_t macro_concatenation_impl(struct kefir_mem *mem, struct kef
     return KEFIR_OK;
 }
 
-static kefir_result_t macro_concatenation(struct kefir_mem *mem, const struct kefir_hashtree *arg_tree,
-                                          struct kefir_symbol_table *symbols, struct kefir_token_buffer *buffer,
-                                          const struct kefir_token *arg1, const struct kefir_token *arg2) {
-    const struct kefir_token *left;
-    const struct kefir_token *right;
-    struct kefir_token_buffer tail;
-    REQUIRE_OK(concat_resolve_left_argument(mem, arg_tree, buffer, arg1, &left));
-    REQUIRE_OK(kefir_token_buffer_init(&tail));
-    kefir_result_t res = concat_resolve_right_argument(mem, arg_tree, &tail, arg2, &right);
-    REQUIRE_CHAIN(&res, macro_concatenation_impl(mem, symbols, buffer, left, right));
-    REQUIRE_CHAIN(&res, kefir_token_buffer_insert(mem, buffer, &tail));
+static kefir_result_t macro_concatenation(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
+                                          struct kefir_token_buffer *result, const struct kefir_token *right) {
+    struct kefir_token left;
+    REQUIRE_OK(kefir_token_copy(mem, &left, &result->tokens[result->length - 1]));
+    kefir_result_t res = kefir_token_buffer_pop(mem, result);
+    REQUIRE_CHAIN(&res, macro_concatenation_impl(mem, symbols, result, &left, right));
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &tail);
+        kefir_token_free(mem, &left);
         return res;
     });
-    REQUIRE_OK(kefir_token_buffer_free(mem, &tail));
+    REQUIRE_OK(kefir_token_free(mem, &left));
     return KEFIR_OK;
 }
 
-static kefir_result_t match_concatenation(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
-                                          struct kefir_preprocessor_token_sequence *seq,
-                                          const struct kefir_hashtree *arg_tree, struct kefir_token *left_operand) {
-    if (left_operand->klass == KEFIR_TOKEN_PP_WHITESPACE) {
-        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match preprocessor concatenation");
+static kefir_size_t skip_replacement_whitespaces(const struct kefir_token_buffer *replacement, kefir_size_t index) {
+    while (index < replacement->length && replacement->tokens[index].klass == KEFIR_TOKEN_PP_WHITESPACE) {
+        index++;
     }
+    return index;
+}
 
-    const struct kefir_token *next_nonws_token = NULL;
-    struct kefir_token_buffer whitespaces;
-    REQUIRE_OK(kefir_token_buffer_init(&whitespaces));
-    kefir_result_t res = kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, &next_nonws_token, &whitespaces);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &whitespaces);
-        return res;
-    });
-    if (next_nonws_token == NULL || next_nonws_token->klass != KEFIR_TOKEN_PUNCTUATOR ||
-        next_nonws_token->punctuator != KEFIR_PUNCTUATOR_DOUBLE_HASH) {
-        res = kefir_preprocessor_token_sequence_push_front(mem, seq, &whitespaces);
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            kefir_token_buffer_free(mem, &whitespaces);
+static kefir_bool_t is_concatenation_operator(const struct kefir_token_buffer *replacement, kefir_size_t index) {
+    return index < replacement->length && replacement->tokens[index].klass == KEFIR_TOKEN_PUNCTUATOR &&
+           (replacement->tokens[index].punctuator == KEFIR_PUNCTUATOR_DOUBLE_HASH ||
+            replacement->tokens[index].punctuator == KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH);
+}
+
+static kefir_result_t substitute_replacement_token(struct kefir_mem *mem, const struct kefir_token_buffer *replacement,
+                                                   const struct kefir_hashtree *arg_tree, kefir_size_t *index,
+                                                   kefir_bool_t after_concat, struct kefir_token_buffer *tokens) {
+    const struct kefir_token *current_token = &replacement->tokens[*index];
+    if (arg_tree != NULL && current_token->klass == KEFIR_TOKEN_PUNCTUATOR &&
+        (current_token->punctuator == KEFIR_PUNCTUATOR_HASH ||
+         current_token->punctuator == KEFIR_PUNCTUATOR_DIGRAPH_HASH)) {
+        const kefir_size_t param_index = skip_replacement_whitespaces(replacement, *index + 1);
+        REQUIRE(param_index < replacement->length && replacement->tokens[param_index].klass == KEFIR_TOKEN_IDENTIFIER,
+                KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &current_token->source_location,
+                                       "Expected # to be followed by macro parameter"));
+        *index = param_index + 1;
+        REQUIRE_OK(fn_macro_parameter_stringification(mem, arg_tree, tokens,
+                                                      replacement->tokens[param_index].identifier,
+                                                      &current_token->source_location));
+        return KEFIR_OK;
+    }
+
+    (*index)++;
+    if (arg_tree != NULL && current_token->klass == KEFIR_TOKEN_IDENTIFIER) {
+        const kefir_bool_t before_concat =
+            is_concatenation_operator(replacement, skip_replacement_whitespaces(replacement, *index));
+        kefir_result_t res = fn_macro_parameter_substitution(mem, arg_tree, tokens, current_token->identifier,
+                                                             after_concat || before_concat);
+        if (res != KEFIR_NO_MATCH) {
             return res;
-        });
-        REQUIRE_OK(kefir_token_buffer_free(mem, &whitespaces));
-        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match preprocessor concatenation");
+        }
     }
-    struct kefir_source_location source_location = next_nonws_token->source_location;
-    REQUIRE_OK(kefir_token_buffer_free(mem, &whitespaces));
-    REQUIRE_OK(kefir_preprocessor_token_sequence_next(mem, seq, NULL));
-
-    const struct kefir_token *right_operand = NULL;
-    REQUIRE_OK(kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, &right_operand, NULL));
-    REQUIRE(
-        right_operand != NULL,
-        KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &source_location,
-                               "Preprocessor concatenation operator cannot be placed at the end of replacement list"));
-
-    struct kefir_token_buffer result;
-    REQUIRE_OK(kefir_token_buffer_init(&result));
-    res = macro_concatenation(mem, arg_tree, symbols, &result, left_operand, right_operand);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_next(mem, seq, NULL));
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &result));
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &result);
-        return res;
-    });
-    REQUIRE_OK(kefir_token_buffer_free(mem, &result));
-    REQUIRE_OK(kefir_token_free(mem, left_operand));
+    REQUIRE_OK(append_token_copies(mem, tokens, current_token, 1));
     return KEFIR_OK;
 }
 
 static kefir_result_t run_replacement_list_substitutions_impl(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
-                                                              struct kefir_preprocessor_token_sequence *seq,
+                                                              const struct kefir_token_buffer *replacement,
                                                               const struct kefir_hashtree *arg_tree,
+                                                              struct kefir_token_buffer *tokens,
                                                               struct kefir_token_buffer *result) {
-    while (true) {
-        struct kefir_token current_token;
-        kefir_result_t res = kefir_preprocessor_token_sequence_next(mem, seq, &current_token);
-        if (res == KEFIR_ITERATOR_END) {
-            break;
-        } else {
-            REQUIRE_OK(res);
-        }
-
-        kefir_bool_t matched = false;
-        res = match_concatenation(mem, symbols, seq, arg_tree, &current_token);
-        if (res != KEFIR_NO_MATCH) {
-            REQUIRE_ELSE(res == KEFIR_OK, {
-                kefir_token_free(mem, &current_token);
-                return res;
-            });
-            matched = true;
-        }
-
-        if (!matched && arg_tree != NULL && current_token.klass == KEFIR_TOKEN_IDENTIFIER) {
-            res = fn_macro_parameter_substitution(mem, arg_tree, result, current_token.identifier);
-            if (res != KEFIR_NO_MATCH) {
-                REQUIRE_ELSE(res == KEFIR_OK, {
-                    kefir_token_free(mem, &current_token);
-                    return res;
-                });
-                REQUIRE_OK(kefir_token_free(mem, &current_token));
-                matched = true;
-            }
-        }
-
-        if (!matched && arg_tree != NULL && current_token.klass == KEFIR_TOKEN_PUNCTUATOR &&
-            current_token.punctuator == KEFIR_PUNCTUATOR_HASH) {
-            struct kefir_source_location source_location = current_token.source_location;
-            const struct kefir_token *param_token = NULL;
-            REQUIRE_OK(kefir_token_free(mem, &current_token));
-            REQUIRE_OK(kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, &param_token, NULL));
-            REQUIRE(param_token != NULL && param_token->klass == KEFIR_TOKEN_IDENTIFIER,
-                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &source_location,
-                                           "Expected # to be followed by macro parameter"));
-            const char *identifier = param_token->identifier;
-            REQUIRE_OK(fn_macro_parameter_stringification(mem, arg_tree, result, identifier, &source_location));
-            REQUIRE_OK(kefir_preprocessor_token_sequence_next(mem, seq, NULL));
-            matched = true;
+    kefir_size_t index = 0;
+    while (index < replacement->length) {
+        const kefir_size_t next_index = skip_replacement_whitespaces(replacement, index);
+        kefir_bool_t concat = false;
+        if (is_concatenation_operator(replacement, next_index)) {
+            const kefir_size_t operand_index = skip_replacement_whitespaces(replacement, next_index + 1);
+            REQUIRE(result->length > 0 && operand_index < replacement->length,
+                    KEFIR_SET_SOURCE_ERROR(
+                        KEFIR_LEXER_ERROR, &replacement->tokens[next_index].source_location,
+                        "Preprocessor concatenation operator cannot be placed at the ends of replacement list"));
+            concat = true;
+            index = operand_index;
+        } else if (next_index != index) {
+            REQUIRE_OK(append_token_copies(mem, result, &replacement->tokens[index], next_index - index));
+            index = next_index;
+            continue;
         }
 
-        if (!matched) {
-            res = kefir_token_buffer_emplace(mem, result, &current_token);
-            REQUIRE_ELSE(res == KEFIR_OK, {
-                kefir_token_free(mem, &current_token);
-                return res;
-            });
+        REQUIRE_OK(kefir_token_buffer_free(mem, tokens));
+        REQUIRE_OK(kefir_token_buffer_init(tokens));
+        REQUIRE_OK(substitute_replacement_token(mem, replacement, arg_tree, &index, concat, tokens));
+        if (concat) {
+            REQUIRE_OK(macro_concatenation(mem, symbols, result, &tokens->tokens[0]));
+            REQUIRE_OK(append_token_copies(mem, result, &tokens->tokens[1], tokens->length - 1));
+        } else {
+            REQUIRE_OK(append_token_copies(mem, result, tokens->tokens, tokens->length));
         }
     }
     return KEFIR_OK;
@@ -520,35 +446,15 @@ static kefir_result_t run_replacement_list_substitutions(struct kefir_mem *mem,
                                                          const struct kefir_token_buffer *replacement,
                                                          const struct kefir_hashtree *arg_tree,
                                                          struct kefir_token_buffer *buffer) {
-
-    struct kefir_token_buffer replacement_copy;
-    REQUIRE_OK(kefir_token_buffer_init(&replacement_copy));
-    kefir_result_t res = kefir_token_buffer_copy(mem, &replacement_copy, replacement);
+    struct kefir_token_buffer tokens;
+    REQUIRE_OK(kefir_token_buffer_init(&tokens));
+    kefir_result_t res =
+        run_replacement_list_substitutions_impl(mem, symbols, replacement, arg_tree, &tokens, buffer);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &replacement_copy);
+        kefir_token_buffer_free(mem, &tokens);
         return res;
     });
-
-    struct kefir_preprocessor_token_sequence seq;
-    res = kefir_preprocessor_token_sequence_init(&seq);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &replacement_copy);
-        return res;
-    });
-    res = kefir_preprocessor_token_sequence_push_front(mem, &seq, &replacement_copy);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_preprocessor_token_sequence_free(mem, &seq);
-        kefir_token_buffer_free(mem, &replacement_copy);
-        return res;
-    });
-    res = kefir_token_buffer_free(mem, &replacement_copy);
-    REQUIRE_CHAIN(&res, run_replacement_list_substitutions_impl(mem, symbols, &seq, arg_tree, buffer));
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_preprocessor_token_sequence_free(mem, &seq);
-        return res;
-    });
-
-    REQUIRE_OK(kefir_preprocessor_token_sequence_free(mem, &seq));
+    REQUIRE_OK(kefir_token_buffer_free(mem, &tokens));
     return KEFIR_OK;
 }
 
@@ -606,9 +512,6 @@ static kefir_result_t user_macro_apply(struct kefir_mem *mem, const struct kefir
 
     for (kefir_size_t i = 0; i < inner_buffer.length; i++) {
         struct kefir_token *token = &inner_buffer.tokens[i];
-        if (token->klass == KEFIR_TOKEN_IDENTIFIER && strcmp(token->identifier, macro->identifier) == 0) {
-            token->preprocessor_props.skip_identifier_subst = true;
-        }
         token->source_location = *source_location;
 
         if (token->klass != KEFIR_TOKEN_PP_PLACEMAKER) {
-- 
2.43.0


From 7b3a826479afbd4088a54443cfe9d826fc14f674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:23 +0000
Subject: [PATCH 25/62] fix: stringification retains the spelling of digraphs

---
 source/preprocessor/format.c | 40 +++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/source/preprocessor/format.c b/source/preprocessor/format.c
index d48e47a..7076d3e 100644
--- a/source/preprocessor/format.c
+++ b/source/preprocessor/format.c
@@ -88,8 +88,42 @@ static const char *const PUNCTUATORS[] = {[KEFIR_PUNCTUATOR_LEFT_BRACKET] = "[",
                                           [KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH] = "##"};
 static const kefir_size_t PUNCTUATORS_LENGTH = sizeof(PUNCTUATORS) / sizeof(PUNCTUATORS[0]);
 
-static kefir_result_t format_punctuator(FILE *out, kefir_punctuator_token_t punctuator) {
-    fprintf(out, "%s", PUNCTUATORS[punctuator]);
+static kefir_result_t format_punctuator(FILE *out, kefir_punctuator_token_t punctuator,
+                                        kefir_preprocessor_whitespace_format_t ws_format) {
+    const char *spelling = PUNCTUATORS[punctuator];
+    if (ws_format == KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_SINGLE_SPACE) {
+        // Stringification retains the spelling of digraphs
+        switch (punctuator) {
+            case KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACKET:
+                spelling = "<:";
+                break;
+
+            case KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACKET:
+                spelling = ":>";
+                break;
+
+            case KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACE:
+                spelling = "<%";
+                break;
+
+            case KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACE:
+                spelling = "%>";
+                break;
+
+            case KEFIR_PUNCTUATOR_DIGRAPH_HASH:
+                spelling = "%:";
+                break;
+
+            case KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH:
+                spelling = "%:%:";
+                break;
+
+            default:
+                // Intentionally left blank
+                break;
+        }
+    }
+    fprintf(out, "%s", spelling);
     return KEFIR_OK;
 }
 
@@ -337,7 +371,7 @@ static kefir_result_t format_token(FILE *out, const struct kefir_token *token,
             break;
 
         case KEFIR_TOKEN_PUNCTUATOR:
-            REQUIRE_OK(format_punctuator(out, token->punctuator));
+            REQUIRE_OK(format_punctuator(out, token->punctuator, ws_format));
             break;
 
         case KEFIR_TOKEN_PP_WHITESPACE:
-- 
2.43.0


From 04895fc9772c7913e58a86fc2162e1cd37b13291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:42 +0000
Subject: [PATCH 26/62] fix: separate tokens that would form a digraph in
 preprocessor output

---
 source/preprocessor/format.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/preprocessor/format.c b/source/preprocessor/format.c
index 7076d3e..8056283 100644
--- a/source/preprocessor/format.c
+++ b/source/preprocessor/format.c
@@ -412,6 +412,12 @@ static kefir_bool_t punctuators_may_merge(kefir_punctuator_token_t left, kefir_p
     if (left == KEFIR_PUNCTUATOR_SLASH && (*right_str == '/' || *right_str == '*')) {
         return true;
     }
+    // Digraphs
+    if ((left == KEFIR_PUNCTUATOR_LESS_THAN && (*right_str == ':' || *right_str == '%')) ||
+        (left == KEFIR_PUNCTUATOR_COLON && *right_str == '>') ||
+        (left == KEFIR_PUNCTUATOR_PERCENT && (*right_str == ':' || *right_str == '>'))) {
+        return true;
+    }
     for (kefir_size_t i = 0; i < PUNCTUATORS_LENGTH; i++) {
         if (PUNCTUATORS[i] != NULL && strncmp(PUNCTUATORS[i], left_str, left_len) == 0 &&
             PUNCTUATORS[i][left_len] == *right_str) {
-- 
2.43.0


From eacc9ca851656de86f99fa2e95671aae2d1ed1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:55 +0000
Subject: [PATCH 27/62] fix: report allocation failure of the root node of a
 hash tree

---
 source/core/hashtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/hashtree.c b/source/core/hashtree.c
index 67512ea..af2f983 100644
--- a/source/core/hashtree.c
+++ b/source/core/hashtree.c
@@ -143,6 +143,7 @@ kefir_result_t kefir_hashtree_insert(struct kefir_mem *mem, struct kefir_hashtre
     kefir_hashtree_hash_t hash = tree->ops->hash(key, tree->ops->data);
     if (tree->root == NULL) {
         tree->root = node_alloc(mem, hash, NULL, key, value);
+        REQUIRE(tree->root != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate hash tree node"));
         return KEFIR_OK;
     } else {
         return node_insert(mem, tree, tree->root, hash, key, value, NULL, false);
-- 
2.43.0


From 196105f98bdc522d735e0b68ca9e76989dc4231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:55 +0000
Subject: [PATCH 28/62] fix: copy elements to the end of the vector

---
 source/core/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/vector.c b/source/core/vector.c
index 099395a..bc06d3c 100644
--- a/source/core/vector.c
+++ b/source/core/vector.c
@@ -73,7 +73,7 @@ kefir_result_t kefir_vector_copy(struct kefir_vector *vector, void *src, kefir_s
     REQUIRE(kefir_vector_available(vector) >= length,
             KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Unable to copy given number of elements"));
     if (src != NULL) {
-        memcpy(vector->content, src, vector->element_size * length);
+        memcpy(((char *) vector->content) + vector->length * vector->element_size, src, vector->element_size * length);
     }
     vector->length += length;
     return KEFIR_OK;
-- 
2.43.0


From 838622e3cb5cb05278b8f137e48d30494f32270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:55 +0000
Subject: [PATCH 29/62] fix: keep vector contents when reallocation fails

---
 source/core/vector.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/source/core/vector.c b/source/core/vector.c
index bc06d3c..ffb0cc4 100644
--- a/source/core/vector.c
+++ b/source/core/vector.c
@@ -112,13 +112,9 @@ kefir_result_t kefir_vector_realloc(struct kefir_mem *mem, kefir_size_t new_capa
             KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Expected valid vector content pointer"));
     REQUIRE(vector->length <= new_capacity,
             KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Expected new capacity to fit current vector length"));
-    vector->content = KEFIR_REALLOC(mem, vector->content, vector->element_size * new_capacity);
-    if (vector->content == NULL) {
-        vector->length = 0;
-        vector->capacity = 0;
-        vector->element_size = 0;
-        return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to reallocate vector");
-    }
+    void *new_content = KEFIR_REALLOC(mem, vector->content, vector->element_size * new_capacity);
+    REQUIRE(new_content != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to reallocate vector"));
+    vector->content = new_content;
     vector->capacity = new_capacity;
     return KEFIR_OK;
 }
-- 
2.43.0


From 35b5d4b3a9583d17dd4f8d95c2b851916ab5b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:55 +0000
Subject: [PATCH 30/62] fix: release tree node which could not be inserted

---
 source/core/tree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/core/tree.c b/source/core/tree.c
index a00bf79..2738746 100644
--- a/source/core/tree.c
+++ b/source/core/tree.c
@@ -86,7 +86,12 @@ kefir_result_t kefir_tree_insert_child(struct kefir_mem *mem, struct kefir_tree_
         return res;
     });
     struct kefir_list_entry *last_child = kefir_list_tail(&node->children);
-    REQUIRE_OK(kefir_list_insert_after(mem, &node->children, last_child, child));
+    res = kefir_list_insert_after(mem, &node->children, last_child, child);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_list_free(mem, &child->children);
+        KEFIR_FREE(mem, child);
+        return res;
+    });
     child->prev_sibling = last_child != NULL ? (struct kefir_tree_node *) last_child->value : NULL;
     child->next_sibling = NULL;
     if (child->prev_sibling != NULL) {
-- 
2.43.0


From 33fce5066ce6eef16f3fbd89d16e0d330c67168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:55 +0000
Subject: [PATCH 31/62] fix: report allocation failure of a block tree block

---
 source/core/block_tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/block_tree.c b/source/core/block_tree.c
index 93f46ef..0ccbad5 100644
--- a/source/core/block_tree.c
+++ b/source/core/block_tree.c
@@ -107,6 +107,7 @@ kefir_result_t kefir_block_tree_block(struct kefir_mem *mem, struct kefir_block_
     kefir_result_t res = kefir_block_tree_get_block(tree, block_id, block_ptr);
     if (res == KEFIR_NOT_FOUND) {
         void *block = KEFIR_MALLOC(mem, tree->block_size);
+        REQUIRE(block != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate block tree block"));
 
         if (tree->on_block_init.callback != NULL) {
             res = tree->on_block_init.callback(mem, tree, block_id, block, tree->on_block_init.payload);
-- 
2.43.0


From 8ade2d50401fa1c03e9d03a754aed74a4c203dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 32/62] fix: insert both surrogates of a character into UTF-16
 string buffer

---
 source/core/string_buffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index 0a029e4..56dd7bb 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -207,7 +207,8 @@ static kefir_result_t kefir_string_buffer_insert_unicode16_character(struct kefi
         const char bytes[sizeof(kefir_char16_t)];
     } u16chr;
 
-    while (begin < end) {
+    // The low surrogate is produced without consuming any input
+    while (begin < end || !mbsinit(&mbstate)) {
         sz = mbrtoc16(&u16chr.value, begin, end - begin, &mbstate);
         switch (sz) {
             case (size_t) -1:
-- 
2.43.0


From 9a28b47a160f0faa8ad18f8d2b6dfe38f1086b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:49 +0000
Subject: [PATCH 33/62] fix: keep string buffer contents when conversion fails

---
 source/core/string_buffer.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index 56dd7bb..1e072e2 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -409,21 +409,16 @@ kefir_result_t kefir_string_buffer_convert(struct kefir_mem *mem, struct kefir_s
         case KEFIR_STRING_BUFFER_UNICODE16:
         case KEFIR_STRING_BUFFER_UNICODE32:
         case KEFIR_STRING_BUFFER_WIDE: {
-            char *oldBuffer = buffer->buffer;
-            kefir_size_t oldLength = buffer->length;
-            *buffer = (struct kefir_string_buffer){0};
-            kefir_result_t res = kefir_string_buffer_init(mem, buffer, newMode);
+            struct kefir_string_buffer newBuffer = {0};
+            REQUIRE_OK(kefir_string_buffer_init(mem, &newBuffer, newMode));
+            const char *content = buffer->buffer;
+            kefir_result_t res = insert_multibyte(mem, &newBuffer, content, content + buffer->length);
             REQUIRE_ELSE(res == KEFIR_OK, {
-                KEFIR_FREE(mem, oldBuffer);
+                kefir_string_buffer_free(mem, &newBuffer);
                 return res;
             });
-
-            res = insert_multibyte(mem, buffer, oldBuffer, oldBuffer + oldLength);
-            REQUIRE_ELSE(res == KEFIR_OK, {
-                KEFIR_FREE(mem, oldBuffer);
-                return res;
-            });
-            KEFIR_FREE(mem, oldBuffer);
+            KEFIR_FREE(mem, buffer->buffer);
+            *buffer = newBuffer;
         } break;
     }
     return KEFIR_OK;
-- 
2.43.0


From e1e9793d6fdfbc38f48c9243d588062b0798dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 34/62] fix: insert surrogate pairs into string buffers as a
 whole

---
 source/core/string_buffer.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index 1e072e2..d64dc1a 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -202,14 +202,12 @@ static kefir_result_t kefir_string_buffer_insert_unicode16_character(struct kefi
     mbstate_t mbstate = {0};
     const char *begin = narrow_string;
     const char *end = narrow_string + sz;
-    union {
-        kefir_char16_t value;
-        const char bytes[sizeof(kefir_char16_t)];
-    } u16chr;
+    kefir_char16_t u16chr[2];
+    kefir_size_t length = 0;
 
     // The low surrogate is produced without consuming any input
-    while (begin < end || !mbsinit(&mbstate)) {
-        sz = mbrtoc16(&u16chr.value, begin, end - begin, &mbstate);
+    while ((begin < end || !mbsinit(&mbstate)) && length < sizeof(u16chr) / sizeof(u16chr[0])) {
+        sz = mbrtoc16(&u16chr[length], begin, end - begin, &mbstate);
         switch (sz) {
             case (size_t) -1:
             case (size_t) -2:
@@ -217,20 +215,21 @@ static kefir_result_t kefir_string_buffer_insert_unicode16_character(struct kefi
                                        "Failed to convert unicode32 character into unicode16 string");
 
             case (size_t) -3:
-                REQUIRE_OK(insert_buffer(mem, buffer, u16chr.bytes, sizeof(kefir_char16_t)));
+                length++;
                 break;
 
             case 0:
-                REQUIRE_OK(insert_buffer(mem, buffer, u16chr.bytes, sizeof(kefir_char16_t)));
+                length++;
                 begin = end;
                 break;
 
             default:
-                REQUIRE_OK(insert_buffer(mem, buffer, u16chr.bytes, sizeof(kefir_char16_t)));
+                length++;
                 begin += sz;
                 break;
         }
     }
+    REQUIRE_OK(insert_buffer(mem, buffer, u16chr, length * sizeof(kefir_char16_t)));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 6f6599b6201ba4cb91a983a2a3d2877b9aa366a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:34 +0000
Subject: [PATCH 35/62] fix: join string literals whose escape sequences are
 not valid characters

---
 source/core/string_buffer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index d64dc1a..d610c3c 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -429,6 +429,13 @@ kefir_result_t kefir_string_buffer_merge(struct kefir_mem *mem, struct kefir_str
     REQUIRE(dst != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination string buffer"));
     REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source string buffer"));
 
+    if (dst->mode == src->mode ||
+        (dst->mode == KEFIR_STRING_BUFFER_UNICODE8 && src->mode == KEFIR_STRING_BUFFER_MULTIBYTE)) {
+        // Same encoding: the content may include arbitrary values given by escape sequences
+        REQUIRE_OK(insert_buffer(mem, dst, src->buffer, src->length));
+        return KEFIR_OK;
+    }
+
     switch (src->mode) {
         case KEFIR_STRING_BUFFER_MULTIBYTE:
         case KEFIR_STRING_BUFFER_UNICODE8: {
-- 
2.43.0


From 8897e699306580b1f8698113fa380ee46a07a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:19 +0000
Subject: [PATCH 36/62] fix: recognise comments around preprocessing directives
 and in skipped groups

---
 source/preprocessor/directives.c | 74 ++++++++++++++++++++++++++++++--
 1 file changed, 70 insertions(+), 4 deletions(-)

diff --git a/source/preprocessor/directives.c b/source/preprocessor/directives.c
index f535102..ace4942 100644
--- a/source/preprocessor/directives.c
+++ b/source/preprocessor/directives.c
@@ -63,10 +63,72 @@ kefir_result_t kefir_preprocessor_directive_scanner_restore(
     return KEFIR_OK;
 }
 
+static kefir_result_t skip_comment(struct kefir_lexer_source_cursor *cursor, kefir_char32_t newline,
+                                   kefir_bool_t *skipped) {
+    *skipped = false;
+    REQUIRE(kefir_lexer_source_cursor_at(cursor, 0) == U'/', KEFIR_OK);
+
+    const kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 1);
+    if (chr == U'*') {
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 2));
+        while (kefir_lexer_source_cursor_at(cursor, 0) != U'*' || kefir_lexer_source_cursor_at(cursor, 1) != U'/') {
+            REQUIRE(kefir_lexer_source_cursor_at(cursor, 0) != U'\0',
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &cursor->location, "Expected end of multiline comment"));
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+        }
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 2));
+        *skipped = true;
+    } else if (chr == U'/') {
+        while (kefir_lexer_source_cursor_at(cursor, 0) != newline && kefir_lexer_source_cursor_at(cursor, 0) != U'\0') {
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+        }
+        *skipped = true;
+    }
+    return KEFIR_OK;
+}
+
+static kefir_result_t skip_literal(struct kefir_lexer_source_cursor *cursor, kefir_char32_t newline,
+                                   kefir_bool_t *skipped) {
+    *skipped = false;
+    const kefir_char32_t quote = kefir_lexer_source_cursor_at(cursor, 0);
+    REQUIRE(quote == U'"' || quote == U'\'', KEFIR_OK);
+
+    struct kefir_lexer_source_cursor_state state;
+    REQUIRE_OK(kefir_lexer_source_cursor_save(cursor, &state));
+    REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+    for (kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0); chr != quote;
+         chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+        if (chr == U'\\' && kefir_lexer_source_cursor_at(cursor, 1) != newline) {
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+            chr = kefir_lexer_source_cursor_at(cursor, 0);
+        }
+        if (chr == newline || chr == U'\0') {
+            // Unmatched quote is not a literal
+            REQUIRE_OK(kefir_lexer_source_cursor_restore(cursor, &state));
+            return KEFIR_OK;
+        }
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+    }
+    REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+    *skipped = true;
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_preprocessor_directive_scanner_skip_line(
     struct kefir_preprocessor_directive_scanner *directive_scanner) {
     kefir_bool_t skip = true;
     while (skip) {
+        kefir_bool_t skipped = false;
+        REQUIRE_OK(
+            skip_comment(directive_scanner->lexer->cursor, directive_scanner->lexer->context->newline, &skipped));
+        if (!skipped) {
+            REQUIRE_OK(
+                skip_literal(directive_scanner->lexer->cursor, directive_scanner->lexer->context->newline, &skipped));
+        }
+        if (skipped) {
+            continue;
+        }
+
         kefir_char32_t chr = kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 0);
         if (chr == U'\0') {
             skip = false;
@@ -115,10 +177,14 @@ static kefir_result_t scan_pp_tokens(struct kefir_mem *mem,
 }
 
 static kefir_result_t skip_whitespaces_until(struct kefir_lexer_source_cursor *cursor, kefir_char32_t terminator) {
-    kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
-    while (kefir_isspace32(chr) && chr != terminator) {
-        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
-        chr = kefir_lexer_source_cursor_at(cursor, 0);
+    kefir_bool_t skipped = true;
+    while (skipped) {
+        REQUIRE_OK(skip_comment(cursor, terminator, &skipped));
+        for (kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0); kefir_isspace32(chr) && chr != terminator;
+             chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+            skipped = true;
+        }
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From 98db8a7ef0db7362d1d4e603b4b817f7964b60c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:19 +0000
Subject: [PATCH 37/62] fix: accept the %: digraph at the beginning of
 preprocessing directives

---
 source/preprocessor/directives.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/directives.c b/source/preprocessor/directives.c
index ace4942..93151d0 100644
--- a/source/preprocessor/directives.c
+++ b/source/preprocessor/directives.c
@@ -208,14 +208,15 @@ kefir_result_t kefir_preprocessor_directive_scanner_match(
         directive_scanner->newline_flag = true;
         return KEFIR_OK;
     }
-    if (chr != U'#') {
+    const kefir_bool_t digraph = chr == U'%' && kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 1) == U':';
+    if (chr != U'#' && !digraph) {
         REQUIRE_OK(kefir_lexer_source_cursor_restore(directive_scanner->lexer->cursor, &initial_state));
         *directive_type = KEFIR_PREPROCESSOR_DIRECTIVE_PP_TOKEN;
         directive_scanner->newline_flag = true;
         return KEFIR_OK;
     }
     REQUIRE_OK(kefir_lexer_source_cursor_save(directive_scanner->lexer->cursor, &hash_state));
-    REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, 1));
+    REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, digraph ? 2 : 1));
     REQUIRE_OK(skip_whitespaces_until(directive_scanner->lexer->cursor, directive_scanner->lexer->context->newline));
     chr = kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 0);
     if (chr == directive_scanner->lexer->context->newline) {
-- 
2.43.0


From 3cf8b7ff1288d63a85d8122d81036054d8aaf71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:19 +0000
Subject: [PATCH 38/62] fix: honour --pp-timestamp when printing preprocessed
 output

---
 source/main/main.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/main/main.c b/source/main/main.c
index 4aef7b9..7036649 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -146,6 +146,12 @@ static kefir_result_t build_predefined_macros(struct kefir_mem *mem, struct kefi
     return KEFIR_OK;
 }
 
+static void override_timestamp(const struct kefir_cli_options *options, struct kefir_compiler_context *compiler) {
+    if (!options->default_pp_timestamp) {
+        compiler->preprocessor_context.environment.timestamp = options->pp_timestamp;
+    }
+}
+
 static kefir_result_t include_predefined(struct kefir_mem *mem, struct kefir_cli_options *options,
                                          struct kefir_compiler_context *compiler, const char *source_id,
                                          struct kefir_token_buffer *tokens) {
@@ -163,9 +169,7 @@ static kefir_result_t lex_file(struct kefir_mem *mem, struct kefir_cli_options *
         REQUIRE_OK(kefir_compiler_lex(mem, compiler, tokens, source, length, source_id));
     } else {
         REQUIRE_OK(build_predefined_macros(mem, options, compiler));
-        if (!options->default_pp_timestamp) {
-            compiler->preprocessor_context.environment.timestamp = options->pp_timestamp;
-        }
+        override_timestamp(options, compiler);
         REQUIRE_OK(include_predefined(mem, options, compiler, source_id, tokens));
         REQUIRE_OK(
             kefir_compiler_preprocess_lex(mem, compiler, tokens, source, length, source_id, options->input_filepath));
@@ -180,6 +184,7 @@ static kefir_result_t dump_preprocessed_impl(struct kefir_mem *mem, struct kefir
     struct kefir_token_buffer tokens;
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
     REQUIRE_OK(build_predefined_macros(mem, options, compiler));
+    override_timestamp(options, compiler);
     REQUIRE_OK(include_predefined(mem, options, compiler, source_id, &tokens));
     REQUIRE_OK(kefir_compiler_preprocess(mem, compiler, &tokens, source, length, source_id, options->input_filepath));
     REQUIRE_OK(open_output(options->output_filepath, &output));
-- 
2.43.0


From 38f8516b9409c7a5393e967869aae5d06eb59601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:23 +0000
Subject: [PATCH 39/62] fix: let a later -D option override an earlier one for
 the same macro

---
 source/cli/options.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/cli/options.c b/source/cli/options.c
index 0a5aaad..d9a0aea 100644
--- a/source/cli/options.c
+++ b/source/cli/options.c
@@ -97,8 +97,16 @@ static kefir_result_t define_hook(struct kefir_mem *mem, struct CliOption *optio
     strncpy(identifier, arg, identifier_length);
     identifier[identifier_length] = '\0';
     const char *value = arg[identifier_length] != '\0' ? arg + identifier_length + 1 : NULL;
-    REQUIRE_OK(kefir_hashtree_insert(mem, &options->defines, (kefir_hashtree_key_t) identifier,
-                                     (kefir_hashtree_value_t) value));
+    kefir_result_t res = KEFIR_OK;
+    if (kefir_hashtree_has(&options->defines, (kefir_hashtree_key_t) identifier)) {
+        res = kefir_hashtree_delete(mem, &options->defines, (kefir_hashtree_key_t) identifier);
+    }
+    REQUIRE_CHAIN(&res, kefir_hashtree_insert(mem, &options->defines, (kefir_hashtree_key_t) identifier,
+                                              (kefir_hashtree_value_t) value));
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_FREE(mem, identifier);
+        return res;
+    });
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 93b45554a5b21da623939c084eb00d75850618dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:23 +0000
Subject: [PATCH 40/62] fix: print files given with --include as preprocessing
 tokens and search their includes next to them

---
 headers/kefir/compiler/compiler.h |  4 +++-
 source/compiler/compiler.c        | 24 +++++++++++++++++++-----
 source/main/main.c                | 15 ++++++++++-----
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/headers/kefir/compiler/compiler.h b/headers/kefir/compiler/compiler.h
index 2f35008..2e876fd 100644
--- a/headers/kefir/compiler/compiler.h
+++ b/headers/kefir/compiler/compiler.h
@@ -77,7 +77,9 @@ kefir_result_t kefir_compiler_preprocess_lex(struct kefir_mem *, struct kefir_co
                                              struct kefir_token_buffer *, const char *, kefir_size_t, const char *,
                                              const char *);
 kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *, struct kefir_compiler_context *,
-                                                 struct kefir_token_buffer *, const char *, const char *);
+                                                 struct kefir_token_buffer *, const char *);
+kefir_result_t kefir_compiler_preprocess_include_lex(struct kefir_mem *, struct kefir_compiler_context *,
+                                                     struct kefir_token_buffer *, const char *);
 kefir_result_t kefir_compiler_lex(struct kefir_mem *, struct kefir_compiler_context *, struct kefir_token_buffer *,
                                   const char *, kefir_size_t, const char *);
 kefir_result_t kefir_compiler_parse(struct kefir_mem *, struct kefir_compiler_context *, struct kefir_token_buffer *,
diff --git a/source/compiler/compiler.c b/source/compiler/compiler.c
index 8937a8a..1a49d19 100644
--- a/source/compiler/compiler.c
+++ b/source/compiler/compiler.c
@@ -242,9 +242,11 @@ kefir_result_t kefir_compiler_preprocess_lex(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct kefir_compiler_context *context,
-                                                 struct kefir_token_buffer *buffer, const char *source_id,
-                                                 const char *filepath) {
+static kefir_result_t preprocess_include_impl(
+    struct kefir_mem *mem, struct kefir_compiler_context *context, struct kefir_token_buffer *buffer,
+    const char *filepath,
+    kefir_result_t (*preprocess)(struct kefir_mem *, struct kefir_compiler_context *, struct kefir_token_buffer *,
+                                 const char *, kefir_size_t, const char *, const char *)) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid compiler context"));
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
@@ -256,8 +258,8 @@ kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct k
     REQUIRE_OK(context->preprocessor_context.source_locator->open(mem, context->preprocessor_context.source_locator,
                                                                   filepath, false, NULL, &source_file));
 
-    res = kefir_compiler_preprocess_lex(mem, context, buffer, source_file.cursor.content, source_file.cursor.length,
-                                        source_id, filepath);
+    res = preprocess(mem, context, buffer, source_file.cursor.content, source_file.cursor.length, source_file.filepath,
+                     source_file.filepath);
     REQUIRE_ELSE(res == KEFIR_OK, {
         source_file.close(mem, &source_file);
         return res;
@@ -270,6 +272,18 @@ kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct k
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct kefir_compiler_context *context,
+                                                 struct kefir_token_buffer *buffer, const char *filepath) {
+    REQUIRE_OK(preprocess_include_impl(mem, context, buffer, filepath, kefir_compiler_preprocess));
+    return KEFIR_OK;
+}
+
+kefir_result_t kefir_compiler_preprocess_include_lex(struct kefir_mem *mem, struct kefir_compiler_context *context,
+                                                     struct kefir_token_buffer *buffer, const char *filepath) {
+    REQUIRE_OK(preprocess_include_impl(mem, context, buffer, filepath, kefir_compiler_preprocess_lex));
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_compiler_lex(struct kefir_mem *mem, struct kefir_compiler_context *context,
                                   struct kefir_token_buffer *buffer, const char *content, kefir_size_t length,
                                   const char *source_id) {
diff --git a/source/main/main.c b/source/main/main.c
index 7036649..f62c65c 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -153,11 +153,16 @@ static void override_timestamp(const struct kefir_cli_options *options, struct k
 }
 
 static kefir_result_t include_predefined(struct kefir_mem *mem, struct kefir_cli_options *options,
-                                         struct kefir_compiler_context *compiler, const char *source_id,
-                                         struct kefir_token_buffer *tokens) {
+                                         struct kefir_compiler_context *compiler, struct kefir_token_buffer *tokens,
+                                         kefir_bool_t lex) {
     for (const struct kefir_list_entry *iter = kefir_list_head(&options->include_files); iter != NULL;
          kefir_list_next(&iter)) {
-        REQUIRE_OK(kefir_compiler_preprocess_include(mem, compiler, tokens, source_id, (const char *) iter->value));
+        ASSIGN_DECL_CAST(const char *, filepath, iter->value);
+        if (lex) {
+            REQUIRE_OK(kefir_compiler_preprocess_include_lex(mem, compiler, tokens, filepath));
+        } else {
+            REQUIRE_OK(kefir_compiler_preprocess_include(mem, compiler, tokens, filepath));
+        }
     }
     return KEFIR_OK;
 }
@@ -170,7 +175,7 @@ static kefir_result_t lex_file(struct kefir_mem *mem, struct kefir_cli_options *
     } else {
         REQUIRE_OK(build_predefined_macros(mem, options, compiler));
         override_timestamp(options, compiler);
-        REQUIRE_OK(include_predefined(mem, options, compiler, source_id, tokens));
+        REQUIRE_OK(include_predefined(mem, options, compiler, tokens, true));
         REQUIRE_OK(
             kefir_compiler_preprocess_lex(mem, compiler, tokens, source, length, source_id, options->input_filepath));
     }
@@ -185,7 +190,7 @@ static kefir_result_t dump_preprocessed_impl(struct kefir_mem *mem, struct kefir
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
     REQUIRE_OK(build_predefined_macros(mem, options, compiler));
     override_timestamp(options, compiler);
-    REQUIRE_OK(include_predefined(mem, options, compiler, source_id, &tokens));
+    REQUIRE_OK(include_predefined(mem, options, compiler, &tokens, false));
     REQUIRE_OK(kefir_compiler_preprocess(mem, compiler, &tokens, source, length, source_id, options->input_filepath));
     REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_preprocessor_format(output, &tokens, KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL));
-- 
2.43.0


From eeae6f5087eebf2be0f5225d5deb232feb33df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:06 +0000
Subject: [PATCH 41/62] fix: accept header names produced by macro expansion in
 angle brackets and leading comments in #line and #include

---
 source/preprocessor/preprocessor.c | 44 ++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index e5a5ed1..bc67d2c 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -27,6 +27,7 @@
 #include "kefir/ast/analyzer/analyzer.h"
 #include "kefir/ast/constant_expression.h"
 #include "kefir/preprocessor/format.h"
+#include <string.h>
 
 kefir_result_t kefir_preprocessor_context_init(struct kefir_mem *mem, struct kefir_preprocessor_context *context,
                                                const struct kefir_preprocessor_source_locator *locator,
@@ -230,14 +231,43 @@ kefir_result_t kefir_preprocessor_skip_group(struct kefir_mem *mem, struct kefir
 
 enum if_condition_state { IF_CONDITION_NONE, IF_CONDITION_SUCCESS, IF_CONDITION_FAIL };
 
+static kefir_size_t skip_whitespace_tokens(const struct kefir_token_buffer *buffer, kefir_size_t index) {
+    while (index < buffer->length && buffer->tokens[index].klass == KEFIR_TOKEN_PP_WHITESPACE) {
+        index++;
+    }
+    return index;
+}
+
+static kefir_result_t match_system_header_name(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                               const struct kefir_preprocessor_directive *directive,
+                                               const char **header_name) {
+    char *text = NULL;
+    kefir_size_t text_length = 0;
+    REQUIRE_OK(kefir_preprocessor_format_string(mem, &text, &text_length, &directive->pp_tokens,
+                                                KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_SINGLE_SPACE));
+    char *begin = strchr(text, '<');
+    char *end = begin != NULL ? strchr(begin, '>') : NULL;
+    REQUIRE_ELSE(end != NULL && end > begin + 1, {
+        KEFIR_FREE(mem, text);
+        return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location, "Expected file path");
+    });
+    *end = '\0';
+    *header_name = kefir_symbol_table_insert(mem, preprocessor->lexer.symbols, begin + 1, NULL);
+    KEFIR_FREE(mem, text);
+    REQUIRE(*header_name != NULL,
+            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to insert header name into symbol table"));
+    return KEFIR_OK;
+}
+
 static kefir_result_t process_include(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                       struct kefir_token_buffer *buffer,
                                       struct kefir_preprocessor_directive *directive) {
     REQUIRE_OK(kefir_preprocessor_run_substitutions(mem, preprocessor, &directive->pp_tokens,
                                                     KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
-    REQUIRE(directive->pp_tokens.length > 0,
+    const kefir_size_t token_index = skip_whitespace_tokens(&directive->pp_tokens, 0);
+    REQUIRE(token_index < directive->pp_tokens.length,
             KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location, "Expected file path"));
-    struct kefir_token *token = &directive->pp_tokens.tokens[0];
+    struct kefir_token *token = &directive->pp_tokens.tokens[token_index];
     const char *include_path = NULL;
     kefir_bool_t system_include = false;
     if (token->klass == KEFIR_TOKEN_PP_HEADER_NAME) {
@@ -246,6 +276,9 @@ static kefir_result_t process_include(struct kefir_mem *mem, struct kefir_prepro
     } else if (token->klass == KEFIR_TOKEN_STRING_LITERAL &&
                token->string_literal.type == KEFIR_STRING_LITERAL_TOKEN_MULTIBYTE) {
         include_path = token->string_literal.literal;
+    } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_LESS_THAN) {
+        REQUIRE_OK(match_system_header_name(mem, preprocessor, directive, &include_path));
+        system_include = true;
     } else {
         return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location, "Expected file path");
     }
@@ -439,9 +472,10 @@ static kefir_result_t process_line(struct kefir_mem *mem, struct kefir_preproces
                                    struct kefir_preprocessor_directive *directive) {
     REQUIRE_OK(kefir_preprocessor_run_substitutions(mem, preprocessor, &directive->pp_tokens,
                                                     KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
-    REQUIRE(directive->pp_tokens.length > 0,
+    const kefir_size_t token_index = skip_whitespace_tokens(&directive->pp_tokens, 0);
+    REQUIRE(token_index < directive->pp_tokens.length,
             KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location, "Expected line number"));
-    struct kefir_token *token = &directive->pp_tokens.tokens[0];
+    struct kefir_token *token = &directive->pp_tokens.tokens[token_index];
     REQUIRE(token->klass == KEFIR_TOKEN_PP_NUMBER,
             KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location, "Expected line number"));
 
@@ -452,7 +486,7 @@ static kefir_result_t process_line(struct kefir_mem *mem, struct kefir_preproces
                                    "Unable to parse line number as unsigned integer"));
 
     const char *source_file = NULL;
-    for (kefir_size_t i = 1; i < directive->pp_tokens.length && source_file == NULL; i++) {
+    for (kefir_size_t i = token_index + 1; i < directive->pp_tokens.length && source_file == NULL; i++) {
         token = &directive->pp_tokens.tokens[i];
         if (token->klass != KEFIR_TOKEN_PP_WHITESPACE) {
             REQUIRE(token->klass == KEFIR_TOKEN_STRING_LITERAL &&
-- 
2.43.0


From 2456e53d92dfe945bb3feb809688202272498fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:27 +0000
Subject: [PATCH 42/62] fix: match the longest complete punctuator when a
 longer one is only started

---
 source/lexer/tokens/punctuator.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/lexer/tokens/punctuator.c b/source/lexer/tokens/punctuator.c
index a593f38..d2e7355 100644
--- a/source/lexer/tokens/punctuator.c
+++ b/source/lexer/tokens/punctuator.c
@@ -131,7 +131,14 @@ static kefir_result_t match_punctuator(struct kefir_lexer_source_cursor *cursor,
     REQUIRE_OK(kefir_trie_at(trie, (kefir_trie_key_t) kefir_lexer_source_cursor_at(cursor, 0), &vertex));
     REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
 
+    struct kefir_lexer_source_cursor_state state;
+    REQUIRE_OK(kefir_lexer_source_cursor_save(cursor, &state));
     kefir_result_t res = match_punctuator(cursor, &vertex->node, token);
+    if (res == KEFIR_NO_MATCH) {
+        // Longer punctuator has been matched only partially
+        REQUIRE_OK(kefir_lexer_source_cursor_restore(cursor, &state));
+        res = KEFIR_NOT_FOUND;
+    }
     if (res == KEFIR_NOT_FOUND) {
         REQUIRE(vertex->node.value != PUNCTUATOR_NONE, KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match punctuator"));
         REQUIRE_OK(kefir_token_new_punctuator((kefir_punctuator_token_t) vertex->node.value, token));
-- 
2.43.0


From e699e5cb986291a9d3521cedad414e10bf39ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:38 +0000
Subject: [PATCH 43/62] fix: evaluate conditions of #if and #elif in intmax_t
 and uintmax_t

---
 source/preprocessor/preprocessor.c | 38 ++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index bc67d2c..0e96526 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -359,6 +359,41 @@ static kefir_result_t process_undef(struct kefir_mem *mem, struct kefir_preproce
     return KEFIR_OK;
 }
 
+static void widen_integral_constants(struct kefir_token_buffer *tokens) {
+    // All integral types act as intmax_t or uintmax_t in the condition
+    for (kefir_size_t i = 0; i < tokens->length; i++) {
+        if (tokens->tokens[i].klass != KEFIR_TOKEN_CONSTANT) {
+            continue;
+        }
+        struct kefir_constant_token *constant = &tokens->tokens[i].constant;
+        switch (constant->type) {
+            case KEFIR_CONSTANT_TOKEN_INTEGER:
+            case KEFIR_CONSTANT_TOKEN_LONG_INTEGER:
+                constant->type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
+                break;
+
+            case KEFIR_CONSTANT_TOKEN_UNSIGNED_INTEGER:
+            case KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_INTEGER:
+                constant->type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_LONG_INTEGER;
+                break;
+
+            case KEFIR_CONSTANT_TOKEN_CHAR:
+                constant->integer = constant->character;
+                constant->type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
+                break;
+
+            case KEFIR_CONSTANT_TOKEN_WIDE_CHAR:
+                constant->integer = constant->wide_char;
+                constant->type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
+                break;
+
+            default:
+                // Intentionally left blank
+                break;
+        }
+    }
+}
+
 static kefir_result_t evaluate_pp_tokens(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                          struct kefir_token_buffer *pp_tokens,
                                          struct kefir_source_location *source_location, kefir_bool_t *result) {
@@ -372,6 +407,9 @@ static kefir_result_t evaluate_pp_tokens(struct kefir_mem *mem, struct kefir_pre
 
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
     kefir_result_t res = kefir_preprocessor_token_convert_buffer(mem, preprocessor, &tokens, pp_tokens);
+    if (res == KEFIR_OK) {
+        widen_integral_constants(&tokens);
+    }
     REQUIRE_CHAIN(&res, kefir_parser_token_cursor_init(&cursor, tokens.tokens, tokens.length));
     REQUIRE_CHAIN(&res, kefir_parser_init(mem, &parser, preprocessor->lexer.symbols, &cursor,
                                           preprocessor->extensions != NULL ? preprocessor->extensions->parser : NULL));
-- 
2.43.0


From 5559540f8865034ede85fe791122a4514317466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:49 +0000
Subject: [PATCH 44/62] fix: diagnose #else and #elif after #else

---
 source/preprocessor/preprocessor.c | 107 ++++++++++++++++-------------
 1 file changed, 58 insertions(+), 49 deletions(-)

diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index 0e96526..d4834c0 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -229,8 +229,9 @@ kefir_result_t kefir_preprocessor_skip_group(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-enum if_condition_state { IF_CONDITION_NONE, IF_CONDITION_SUCCESS, IF_CONDITION_FAIL };
+enum if_condition_state { IF_CONDITION_NONE, IF_CONDITION_SUCCESS, IF_CONDITION_FAIL, IF_CONDITION_ELSE };
 
+// Comments are represented by whitespace tokens
 static kefir_size_t skip_whitespace_tokens(const struct kefir_token_buffer *buffer, kefir_size_t index) {
     while (index < buffer->length && buffer->tokens[index].klass == KEFIR_TOKEN_PP_WHITESPACE) {
         index++;
@@ -238,6 +239,8 @@ static kefir_size_t skip_whitespace_tokens(const struct kefir_token_buffer *buff
     return index;
 }
 
+// Macro expansion may produce a header name in angle brackets as a
+// sequence of separate tokens. Its text is everything up to the first >
 static kefir_result_t match_system_header_name(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                                const struct kefir_preprocessor_directive *directive,
                                                const char **header_name) {
@@ -317,41 +320,6 @@ static kefir_result_t process_include(struct kefir_mem *mem, struct kefir_prepro
     return KEFIR_OK;
 }
 
-static kefir_result_t process_define(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
-                                     struct kefir_preprocessor_directive *directive) {
-    struct kefir_preprocessor_user_macro *macro = NULL;
-    if (directive->define_directive.object) {
-        macro = kefir_preprocessor_user_macro_new_object(mem, preprocessor->lexer.symbols,
-                                                         directive->define_directive.identifier);
-        REQUIRE(macro != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate user macro"));
-        kefir_result_t res =
-            kefir_token_buffer_insert(mem, &macro->replacement, &directive->define_directive.replacement);
-        REQUIRE_CHAIN(&res,
-                      kefir_preprocessor_user_macro_scope_insert(mem, &preprocessor->context->user_macros, macro));
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            kefir_preprocessor_user_macro_free(mem, macro);
-            return res;
-        });
-    } else {
-        macro = kefir_preprocessor_user_macro_new_function(mem, preprocessor->lexer.symbols,
-                                                           directive->define_directive.identifier);
-        REQUIRE(macro != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate user macro"));
-        kefir_result_t res =
-            kefir_token_buffer_insert(mem, &macro->replacement, &directive->define_directive.replacement);
-        REQUIRE_CHAIN(&res, kefir_list_move_all(&macro->parameters, &directive->define_directive.parameters));
-        if (res == KEFIR_OK) {
-            macro->vararg = directive->define_directive.vararg;
-        }
-        REQUIRE_CHAIN(&res,
-                      kefir_preprocessor_user_macro_scope_insert(mem, &preprocessor->context->user_macros, macro));
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            kefir_preprocessor_user_macro_free(mem, macro);
-            return res;
-        });
-    }
-    return KEFIR_OK;
-}
-
 static kefir_result_t process_undef(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                     struct kefir_preprocessor_directive *directive) {
     REQUIRE_OK(kefir_preprocessor_user_macro_scope_remove(mem, &preprocessor->context->user_macros,
@@ -359,8 +327,9 @@ static kefir_result_t process_undef(struct kefir_mem *mem, struct kefir_preproce
     return KEFIR_OK;
 }
 
+// In conditions of #if and #elif directives, all integral types
+// act as if they were either intmax_t or uintmax_t
 static void widen_integral_constants(struct kefir_token_buffer *tokens) {
-    // All integral types act as intmax_t or uintmax_t in the condition
     for (kefir_size_t i = 0; i < tokens->length; i++) {
         if (tokens->tokens[i].klass != KEFIR_TOKEN_CONSTANT) {
             continue;
@@ -455,6 +424,52 @@ static kefir_result_t evaluate_pp_tokens(struct kefir_mem *mem, struct kefir_pre
     return KEFIR_OK;
 }
 
+static kefir_result_t process_error(struct kefir_mem *mem, struct kefir_preprocessor_directive *directive) {
+    char *error_message;
+    kefir_size_t error_length;
+    REQUIRE_OK(kefir_preprocessor_format_string(mem, &error_message, &error_length, &directive->pp_tokens,
+                                                KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_SINGLE_SPACE));
+    kefir_result_t res =
+        KEFIR_SET_SOURCE_ERRORF(KEFIR_PREPROCESSOR_ERROR_DIRECTIVE, &directive->source_location, "%s", error_message);
+    KEFIR_FREE(mem, error_message);
+    return res;
+}
+
+static kefir_result_t process_define(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                     struct kefir_preprocessor_directive *directive) {
+    struct kefir_preprocessor_user_macro *macro = NULL;
+    if (directive->define_directive.object) {
+        macro = kefir_preprocessor_user_macro_new_object(mem, preprocessor->lexer.symbols,
+                                                         directive->define_directive.identifier);
+        REQUIRE(macro != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate user macro"));
+        kefir_result_t res =
+            kefir_token_buffer_insert(mem, &macro->replacement, &directive->define_directive.replacement);
+        REQUIRE_CHAIN(&res,
+                      kefir_preprocessor_user_macro_scope_insert(mem, &preprocessor->context->user_macros, macro));
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_preprocessor_user_macro_free(mem, macro);
+            return res;
+        });
+    } else {
+        macro = kefir_preprocessor_user_macro_new_function(mem, preprocessor->lexer.symbols,
+                                                           directive->define_directive.identifier);
+        REQUIRE(macro != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate user macro"));
+        kefir_result_t res =
+            kefir_token_buffer_insert(mem, &macro->replacement, &directive->define_directive.replacement);
+        REQUIRE_CHAIN(&res, kefir_list_move_all(&macro->parameters, &directive->define_directive.parameters));
+        if (res == KEFIR_OK) {
+            macro->vararg = directive->define_directive.vararg;
+        }
+        REQUIRE_CHAIN(&res,
+                      kefir_preprocessor_user_macro_scope_insert(mem, &preprocessor->context->user_macros, macro));
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_preprocessor_user_macro_free(mem, macro);
+            return res;
+        });
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t process_if(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                  struct kefir_preprocessor_directive *directive,
                                  enum if_condition_state *condition_state, struct kefir_token_buffer *group_buffer) {
@@ -479,6 +494,8 @@ static kefir_result_t process_elif(struct kefir_mem *mem, struct kefir_preproces
     if (*condition_state == IF_CONDITION_NONE) {
         REQUIRE_OK(kefir_preprocessor_directive_scanner_restore(&preprocessor->directive_scanner, scanner_state));
         *continue_scan = false;
+    } else if (*condition_state == IF_CONDITION_ELSE) {
+        return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location, "Unexpected #elif after #else");
     } else if (*condition_state == IF_CONDITION_FAIL) {
         kefir_bool_t condition;
         REQUIRE_OK(
@@ -495,17 +512,6 @@ static kefir_result_t process_elif(struct kefir_mem *mem, struct kefir_preproces
     return KEFIR_OK;
 }
 
-static kefir_result_t process_error(struct kefir_mem *mem, struct kefir_preprocessor_directive *directive) {
-    char *error_message;
-    kefir_size_t error_length;
-    REQUIRE_OK(kefir_preprocessor_format_string(mem, &error_message, &error_length, &directive->pp_tokens,
-                                                KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_SINGLE_SPACE));
-    kefir_result_t res =
-        KEFIR_SET_SOURCE_ERRORF(KEFIR_PREPROCESSOR_ERROR_DIRECTIVE, &directive->source_location, "%s", error_message);
-    KEFIR_FREE(mem, error_message);
-    return res;
-}
-
 static kefir_result_t process_line(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                    struct kefir_preprocessor_directive *directive) {
     REQUIRE_OK(kefir_preprocessor_run_substitutions(mem, preprocessor, &directive->pp_tokens,
@@ -603,11 +609,14 @@ static kefir_result_t run_directive(struct kefir_mem *mem, struct kefir_preproce
                 REQUIRE_OK(
                     kefir_preprocessor_directive_scanner_restore(&preprocessor->directive_scanner, scanner_state));
                 *scan_directives = false;
+            } else if (*condition_state == IF_CONDITION_ELSE) {
+                return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location, "Unexpected #else");
             } else if (*condition_state == IF_CONDITION_FAIL) {
-                *condition_state = IF_CONDITION_SUCCESS;
+                *condition_state = IF_CONDITION_ELSE;
                 REQUIRE_OK(flush_group_buffer(mem, preprocessor, buffer, group_buffer));
                 REQUIRE_OK(kefir_preprocessor_run_group(mem, preprocessor, buffer));
             } else {
+                *condition_state = IF_CONDITION_ELSE;
                 REQUIRE_OK(kefir_preprocessor_skip_group(mem, preprocessor));
             }
             break;
-- 
2.43.0


From 24f221b08d142a886eee3a34db3d24d29d187670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:49 +0000
Subject: [PATCH 45/62] fix: stop at the end of file in an unterminated header
 name

---
 source/lexer/tokens/pp_header_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lexer/tokens/pp_header_name.c b/source/lexer/tokens/pp_header_name.c
index 2963165..b16a0a0 100644
--- a/source/lexer/tokens/pp_header_name.c
+++ b/source/lexer/tokens/pp_header_name.c
@@ -42,7 +42,7 @@ static kefir_result_t match_header_name(struct kefir_mem *mem, struct kefir_lexe
     kefir_bool_t scan_pp_header_name = true;
     while (scan_pp_header_name) {
         chr = kefir_lexer_source_cursor_at(lexer->cursor, 0);
-        REQUIRE(chr != lexer->context->newline,
+        REQUIRE(chr != lexer->context->newline && chr != U'\0',
                 KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &lexer->cursor->location,
                                        "Unexpected newline in preprocessor header name"));
         scan_pp_header_name = chr != terminator;
-- 
2.43.0


From f1da1fe4deeb16ecdef93cc45bc06e584611334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:53 +0000
Subject: [PATCH 46/62] fix: accept 'double long' and reject 'short' combined
 with other types

---
 source/ast/analyzer/declarator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index d1b690b..145038c 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -344,6 +344,7 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                            "Cannot combine type specifiers with referenced type definition"));
             *base_type = kefir_ast_type_signed_short();
+            *seq_state = TYPE_SPECIFIER_SEQUENCE_SPECIFIERS;
             break;
 
         case KEFIR_AST_TYPE_SPECIFIER_INT:
@@ -368,6 +369,8 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                                            "Cannot combine type specifiers with referenced type definition"));
             if (*base_type != NULL && (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG) {
                 *base_type = kefir_ast_type_signed_long_long();
+            } else if (*base_type != NULL && (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_DOUBLE) {
+                *base_type = kefir_ast_type_long_double();
             } else {
                 REQUIRE((*base_type) == NULL || (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_INT,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
-- 
2.43.0


From 4c0930cd462babb3fdd1cb37dee140c6e631f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:42 +0000
Subject: [PATCH 47/62] fix: apply qualifiers of an array type to its elements

---
 source/ast/type/qualified.c | 56 +++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/source/ast/type/qualified.c b/source/ast/type/qualified.c
index 91765a4..6f8bb84 100644
--- a/source/ast/type/qualified.c
+++ b/source/ast/type/qualified.c
@@ -72,11 +72,67 @@ const struct kefir_ast_type *composite_qualified_types(struct kefir_mem *mem, st
     }
 }
 
+static const struct kefir_ast_type *qualify_array_elements(struct kefir_mem *mem,
+                                                           struct kefir_ast_type_bundle *type_bundle,
+                                                           const struct kefir_ast_array_type *array,
+                                                           struct kefir_ast_type_qualification qualification) {
+    const struct kefir_ast_type *element_type =
+        kefir_ast_type_qualified(mem, type_bundle, array->element_type, qualification);
+    REQUIRE(element_type != NULL, NULL);
+
+    const struct kefir_ast_type *type = NULL;
+    switch (array->boundary) {
+        case KEFIR_AST_ARRAY_UNBOUNDED:
+            type = kefir_ast_type_unbounded_array(mem, type_bundle, element_type, &array->qualifications);
+            break;
+
+        case KEFIR_AST_ARRAY_BOUNDED:
+        case KEFIR_AST_ARRAY_BOUNDED_STATIC: {
+            struct kefir_ast_constant_expression *length =
+                kefir_ast_constant_expression_integer(mem, array->const_length->value.integer);
+            REQUIRE(length != NULL, NULL);
+            if (array->boundary == KEFIR_AST_ARRAY_BOUNDED) {
+                type = kefir_ast_type_array(mem, type_bundle, element_type, length, &array->qualifications);
+            } else {
+                type = kefir_ast_type_array_static(mem, type_bundle, element_type, length, &array->qualifications);
+            }
+            REQUIRE_ELSE(type != NULL, {
+                kefir_ast_constant_expression_free(mem, length);
+                return NULL;
+            });
+        } break;
+
+        case KEFIR_AST_ARRAY_VLA:
+        case KEFIR_AST_ARRAY_VLA_STATIC: {
+            struct kefir_ast_node_base *length = NULL;
+            if (array->vla_length != NULL) {
+                length = KEFIR_AST_NODE_CLONE(mem, array->vla_length);
+                REQUIRE(length != NULL, NULL);
+            }
+            if (array->boundary == KEFIR_AST_ARRAY_VLA) {
+                type = kefir_ast_type_vlen_array(mem, type_bundle, element_type, length, &array->qualifications);
+            } else {
+                type = kefir_ast_type_vlen_array_static(mem, type_bundle, element_type, length, &array->qualifications);
+            }
+            REQUIRE_ELSE(type != NULL, {
+                if (length != NULL) {
+                    KEFIR_AST_NODE_FREE(mem, length);
+                }
+                return NULL;
+            });
+        } break;
+    }
+    return type;
+}
+
 const struct kefir_ast_type *kefir_ast_type_qualified(struct kefir_mem *mem, struct kefir_ast_type_bundle *type_bundle,
                                                       const struct kefir_ast_type *base_type,
                                                       struct kefir_ast_type_qualification qualification) {
     REQUIRE(mem != NULL, NULL);
     REQUIRE(base_type != NULL, NULL);
+    if (base_type->tag == KEFIR_AST_TYPE_ARRAY) {
+        return qualify_array_elements(mem, type_bundle, &base_type->array_type, qualification);
+    }
     struct kefir_ast_type *type = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_type));
     REQUIRE(type != NULL, NULL);
     if (type_bundle != NULL) {
-- 
2.43.0


From 318624d07c0d7d1f20177af8296c894522f43156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:08 +0000
Subject: [PATCH 48/62] fix: allow taking the address of a string literal and
 its elements

---
 source/ast-translator/lvalue.c                    | 13 +++++++++++++
 source/ast/analyzer/lvalue_constant_reference.c   | 12 ++++++++++++
 source/ast/analyzer/nodes/string_literal.c        |  1 +
 .../lvalue_constant_reference.c                   | 15 +++++++++++++++
 4 files changed, 41 insertions(+)

diff --git a/source/ast-translator/lvalue.c b/source/ast-translator/lvalue.c
index 06e2034..a4ac2b0 100644
--- a/source/ast-translator/lvalue.c
+++ b/source/ast-translator/lvalue.c
@@ -314,6 +314,18 @@ static kefir_result_t translate_unary_operation_node(const struct kefir_ast_visi
     return KEFIR_OK;
 }
 
+static kefir_result_t translate_string_literal_node(const struct kefir_ast_visitor *visitor,
+                                                    const struct kefir_ast_string_literal *node, void *payload) {
+    REQUIRE(visitor != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST visitor"));
+    REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST node"));
+    REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid payload"));
+    ASSIGN_DECL_CAST(struct kefir_ast_translator_parameters *, param, payload);
+
+    REQUIRE_OK(
+        kefir_ast_translate_expression(param->mem, KEFIR_AST_NODE_BASE(node), param->builder, param->context));
+    return KEFIR_OK;
+}
+
 static kefir_result_t translate_compound_literal_node(const struct kefir_ast_visitor *visitor,
                                                       const struct kefir_ast_compound_literal *node, void *payload) {
     REQUIRE(visitor != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST visitor"));
@@ -355,6 +367,7 @@ kefir_result_t kefir_ast_translate_lvalue(struct kefir_mem *mem, struct kefir_as
     visitor.struct_indirect_member = translate_struct_member_node;
     visitor.unary_operation = translate_unary_operation_node;
     visitor.compound_literal = translate_compound_literal_node;
+    visitor.string_literal = translate_string_literal_node;
     visitor.extension_node = translate_extension_node;
 
     kefir_result_t res;
diff --git a/source/ast/analyzer/lvalue_constant_reference.c b/source/ast/analyzer/lvalue_constant_reference.c
index 2dd6f65..e46d7bb 100644
--- a/source/ast/analyzer/lvalue_constant_reference.c
+++ b/source/ast/analyzer/lvalue_constant_reference.c
@@ -125,6 +125,17 @@ static kefir_result_t visit_compound_literal(const struct kefir_ast_visitor *vis
     return KEFIR_OK;
 }
 
+static kefir_result_t visit_string_literal(const struct kefir_ast_visitor *visitor,
+                                           const struct kefir_ast_string_literal *node, void *payload) {
+    UNUSED(visitor);
+    REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST string literal"));
+    REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid payload"));
+    ASSIGN_DECL_CAST(struct visitor_param *, param, payload);
+
+    *param->constant = *param->constant && node->base.properties.expression_props.constant_expression;
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_node_is_lvalue_reference_constant(const struct kefir_ast_context *context,
                                                            const struct kefir_ast_node_base *node,
                                                            kefir_bool_t *constant) {
@@ -141,6 +152,7 @@ kefir_result_t kefir_ast_node_is_lvalue_reference_constant(const struct kefir_as
     visitor.array_subscript = visit_array_subscript;
     visitor.struct_indirect_member = visit_struct_indirect_member;
     visitor.compound_literal = visit_compound_literal;
+    visitor.string_literal = visit_string_literal;
     REQUIRE_OK(KEFIR_AST_NODE_VISIT(&visitor, node, &param));
     return KEFIR_OK;
 }
diff --git a/source/ast/analyzer/nodes/string_literal.c b/source/ast/analyzer/nodes/string_literal.c
index d4c028c..98cc202 100644
--- a/source/ast/analyzer/nodes/string_literal.c
+++ b/source/ast/analyzer/nodes/string_literal.c
@@ -61,6 +61,7 @@ kefir_result_t kefir_ast_analyze_string_literal_node(struct kefir_mem *mem, cons
     base->properties.type = kefir_ast_type_array(mem, context->type_bundle, elt_type,
                                                  kefir_ast_constant_expression_integer(mem, node->length), NULL);
     base->properties.expression_props.constant_expression = true;
+    base->properties.expression_props.addressable = true;
     base->properties.expression_props.string_literal.type = node->type;
     base->properties.expression_props.string_literal.content = node->literal;
     base->properties.expression_props.string_literal.length = node->length;
diff --git a/source/ast/constant_expression/lvalue_constant_reference.c b/source/ast/constant_expression/lvalue_constant_reference.c
index fea97db..b63509a 100644
--- a/source/ast/constant_expression/lvalue_constant_reference.c
+++ b/source/ast/constant_expression/lvalue_constant_reference.c
@@ -276,6 +276,20 @@ static kefir_result_t visit_compound_literal(const struct kefir_ast_visitor *vis
     return KEFIR_OK;
 }
 
+static kefir_result_t visit_string_literal(const struct kefir_ast_visitor *visitor,
+                                           const struct kefir_ast_string_literal *node, void *payload) {
+    UNUSED(visitor);
+    REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST string literal"));
+    REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid payload"));
+    ASSIGN_DECL_CAST(struct visitor_param *, param, payload);
+
+    struct kefir_ast_constant_expression_value value;
+    REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(param->mem, param->context, KEFIR_AST_NODE_BASE(node),
+                                                            &value));
+    *param->pointer = value.pointer;
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_constant_expression_value_evaluate_lvalue_reference(
     struct kefir_mem *mem, const struct kefir_ast_context *context, const struct kefir_ast_node_base *node,
     struct kefir_ast_constant_expression_pointer *pointer) {
@@ -291,6 +305,7 @@ kefir_result_t kefir_ast_constant_expression_value_evaluate_lvalue_reference(
     visitor.array_subscript = visit_array_subscript;
     visitor.struct_indirect_member = visit_struct_indirect_member;
     visitor.compound_literal = visit_compound_literal;
+    visitor.string_literal = visit_string_literal;
 
     struct visitor_param param = {.mem = mem, .context = context, .pointer = pointer};
     REQUIRE_OK(KEFIR_AST_NODE_VISIT(&visitor, node, &param));
-- 
2.43.0


From 9335d8dc45f33431c1c9b02ddbc9ff639ae3d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:17 +0000
Subject: [PATCH 49/62] fix: reject assignment to arrays and to structures with
 constant members

---
 .../ast/analyzer/nodes/assignment_operator.c  | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/source/ast/analyzer/nodes/assignment_operator.c b/source/ast/analyzer/nodes/assignment_operator.c
index 5e7a063..d5f78a1 100644
--- a/source/ast/analyzer/nodes/assignment_operator.c
+++ b/source/ast/analyzer/nodes/assignment_operator.c
@@ -21,6 +21,7 @@
 #include "kefir/ast/analyzer/nodes.h"
 #include "kefir/ast/analyzer/analyzer.h"
 #include "kefir/ast/type_conv.h"
+#include "kefir/ast/type_completion.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
@@ -38,6 +39,29 @@ static kefir_result_t validate_simple_assignment(struct kefir_mem *mem, const st
     return KEFIR_OK;
 }
 
+static kefir_result_t is_modifiable(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                    const struct kefir_ast_type *type, kefir_bool_t *modifiable) {
+    REQUIRE_OK(kefir_ast_type_completion(mem, context, &type, type));
+    if (type->tag == KEFIR_AST_TYPE_QUALIFIED && type->qualified_type.qualification.constant) {
+        *modifiable = false;
+        return KEFIR_OK;
+    }
+
+    type = kefir_ast_unqualified_type(type);
+    if (type->tag == KEFIR_AST_TYPE_ARRAY) {
+        return is_modifiable(mem, context, type->array_type.element_type, modifiable);
+    }
+    *modifiable = true;
+    if ((type->tag == KEFIR_AST_TYPE_STRUCTURE || type->tag == KEFIR_AST_TYPE_UNION) && type->structure_type.complete) {
+        for (const struct kefir_list_entry *iter = kefir_list_head(&type->structure_type.fields);
+             iter != NULL && *modifiable; kefir_list_next(&iter)) {
+            ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field, iter->value);
+            REQUIRE_OK(is_modifiable(mem, context, field->type, modifiable));
+        }
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t validate_compound_assignment(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                    const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_type =
@@ -116,9 +140,9 @@ kefir_result_t kefir_ast_analyze_assignment_operator_node(struct kefir_mem *mem,
     REQUIRE(node->target->properties.expression_props.lvalue,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                    "Expected non-const lvalue as assignment target operand"));
-    struct kefir_ast_type_qualification target_qualifications;
-    REQUIRE_OK(kefir_ast_type_retrieve_qualifications(&target_qualifications, node->target->properties.type));
-    REQUIRE(!target_qualifications.constant,
+    kefir_bool_t modifiable = false;
+    REQUIRE_OK(is_modifiable(mem, context, node->target->properties.type, &modifiable));
+    REQUIRE(modifiable && kefir_ast_unqualified_type(node->target->properties.type)->tag != KEFIR_AST_TYPE_ARRAY,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                    "Expected non-const lvalue as assignment target operand"));
 
-- 
2.43.0


From d2adab70bb088d8df86031ce1dbb7a02ae935382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:32 +0000
Subject: [PATCH 50/62] fix: keep the qualifiers of a compound literal's type

---
 source/ast/analyzer/nodes/compound_literal.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/ast/analyzer/nodes/compound_literal.c b/source/ast/analyzer/nodes/compound_literal.c
index 5142542..a7561ce 100644
--- a/source/ast/analyzer/nodes/compound_literal.c
+++ b/source/ast/analyzer/nodes/compound_literal.c
@@ -50,6 +50,14 @@ kefir_result_t kefir_ast_analyze_compound_literal_node(struct kefir_mem *mem, co
 
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type = initializer_properties.type;
+    struct kefir_ast_type_qualification qualifications;
+    REQUIRE_OK(kefir_ast_type_retrieve_qualifications(&qualifications, node->type_name->base.properties.type));
+    if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
+        base->properties.type =
+            kefir_ast_type_qualified(mem, context->type_bundle, base->properties.type, qualifications);
+        REQUIRE(base->properties.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST qualified type"));
+    }
     base->properties.expression_props.lvalue = true;
     base->properties.expression_props.addressable = true;
     base->properties.expression_props.constant_expression = initializer_properties.constant;
-- 
2.43.0


From de54e5e6bb0321dd32d4d10fb00aa2cdcd0551c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 51/62] fix: declare names in the parser scope where their
 scope begins

---
 source/parser/rules/compound_statement.c   |  7 +-
 source/parser/rules/declaration.c          | 97 ++++++++++------------
 source/parser/rules/declarator.c           | 13 +++
 source/parser/rules/function_definition.c  | 59 ++++++++++++-
 source/parser/rules/iteration_statement.c  |  2 +
 source/parser/rules/statement_expression.c |  7 +-
 6 files changed, 124 insertions(+), 61 deletions(-)

diff --git a/source/parser/rules/compound_statement.c b/source/parser/rules/compound_statement.c
index 64976d4..48ef45c 100644
--- a/source/parser/rules/compound_statement.c
+++ b/source/parser/rules/compound_statement.c
@@ -38,8 +38,11 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     REQUIRE_OK(kefir_parser_scope_push_block(mem, &parser->scope));
 
     while (!PARSER_TOKEN_IS_RIGHT_BRACE(parser, 0)) {
-        kefir_result_t res =
-            kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, declaration), NULL);
+        kefir_result_t res = KEFIR_NO_MATCH;
+        if (!PARSER_TOKEN_IS_IDENTIFIER(parser, 0) ||
+            !PARSER_TOKEN_IS_PUNCTUATOR(parser, 1, KEFIR_PUNCTUATOR_COLON)) {
+            res = kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, declaration), NULL);
+        }
         if (res == KEFIR_NO_MATCH) {
             res = kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, statement), NULL);
         }
diff --git a/source/parser/rules/declaration.c b/source/parser/rules/declaration.c
index d12c203..cda4b59 100644
--- a/source/parser/rules/declaration.c
+++ b/source/parser/rules/declaration.c
@@ -25,10 +25,42 @@
 #include "kefir/core/source_error.h"
 #include "kefir/ast/downcast.h"
 
-static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder) {
+static kefir_result_t contains_typedef(const struct kefir_ast_declarator_specifier_list *specifiers,
+                                       kefir_bool_t *is_typedef) {
+    struct kefir_ast_declarator_specifier *specifier = NULL;
+    kefir_result_t res = KEFIR_OK;
+    *is_typedef = false;
+    for (struct kefir_list_entry *iter = kefir_ast_declarator_specifier_list_iter(specifiers, &specifier);
+         !*is_typedef && iter != NULL && res == KEFIR_OK;
+         res = kefir_ast_declarator_specifier_list_next(&iter, &specifier)) {
+        if (specifier->klass == KEFIR_AST_STORAGE_CLASS_SPECIFIER &&
+            specifier->storage_class == KEFIR_AST_STORAGE_SPECIFIER_TYPEDEF) {
+            *is_typedef = true;
+        }
+    }
+    return res;
+}
+
+static kefir_result_t declare_identifier(struct kefir_mem *mem, struct kefir_parser *parser,
+                                         struct kefir_ast_declarator *declarator, kefir_bool_t is_typedef) {
+    const char *identifier;
+    REQUIRE_OK(kefir_ast_declarator_unpack_identifier(declarator, &identifier));
+    if (identifier != NULL) {
+        if (is_typedef) {
+            REQUIRE_OK(kefir_parser_scope_declare_typedef(mem, &parser->scope, identifier));
+        } else {
+            REQUIRE_OK(kefir_parser_scope_declare_variable(mem, &parser->scope, identifier));
+        }
+    }
+    return KEFIR_OK;
+}
+
+static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder,
+                                      kefir_bool_t *is_typedef) {
     struct kefir_ast_declarator_specifier_list list;
     REQUIRE_OK(kefir_ast_declarator_specifier_list_init(&list));
     kefir_result_t res = builder->parser->ruleset.declaration_specifier_list(mem, builder->parser, &list);
+    REQUIRE_CHAIN(&res, contains_typedef(&list, is_typedef));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_declarator_specifier_list_free(mem, &list);
         return res;
@@ -42,7 +74,8 @@ static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser
     return KEFIR_OK;
 }
 
-static kefir_result_t scan_init_declaration(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder) {
+static kefir_result_t scan_init_declaration(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder,
+                                            kefir_bool_t is_typedef) {
     struct kefir_ast_declarator *declarator = NULL;
     struct kefir_ast_initializer *initializer = NULL;
     kefir_result_t res = KEFIR_OK;
@@ -50,6 +83,11 @@ static kefir_result_t scan_init_declaration(struct kefir_mem *mem, struct kefir_
     struct kefir_source_location source_location =
         kefir_parser_token_cursor_at(builder->parser->cursor, 0)->source_location;
     REQUIRE_OK(builder->parser->ruleset.declarator(mem, builder->parser, &declarator));
+    res = declare_identifier(mem, builder->parser, declarator, is_typedef);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_declarator_free(mem, declarator);
+        return res;
+    });
     if (PARSER_TOKEN_IS_PUNCTUATOR(builder->parser, 0, KEFIR_PUNCTUATOR_ASSIGN)) {
         REQUIRE_CHAIN(&res, PARSER_SHIFT(builder->parser));
         REQUIRE_CHAIN(&res, builder->parser->ruleset.initializer(mem, builder->parser, &initializer));
@@ -82,7 +120,8 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
         kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, static_assertion), NULL);
     REQUIRE(res == KEFIR_NO_MATCH, res);
 
-    REQUIRE_OK(scan_specifiers(mem, builder));
+    kefir_bool_t is_typedef = false;
+    REQUIRE_OK(scan_specifiers(mem, builder, &is_typedef));
     kefir_bool_t scan_init_decl = !PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_SEMICOLON);
     if (!scan_init_decl) {
         struct kefir_ast_init_declarator *init_declarator = NULL;
@@ -91,7 +130,7 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     }
 
     while (scan_init_decl) {
-        REQUIRE_MATCH_OK(&res, scan_init_declaration(mem, builder),
+        REQUIRE_MATCH_OK(&res, scan_init_declaration(mem, builder, is_typedef),
                          KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                                 "Expected either init declaration or semicolon"));
         if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_COMMA)) {
@@ -109,59 +148,9 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     return KEFIR_OK;
 }
 
-static kefir_result_t update_scope(struct kefir_mem *mem, struct kefir_parser *parser,
-                                   struct kefir_ast_declaration *declaration) {
-    kefir_bool_t is_typedef = false;
-    struct kefir_ast_declarator_specifier *specifier = NULL;
-    kefir_result_t res = KEFIR_OK;
-    for (struct kefir_list_entry *iter = kefir_ast_declarator_specifier_list_iter(&declaration->specifiers, &specifier);
-         !is_typedef && iter != NULL && res == KEFIR_OK;
-         res = kefir_ast_declarator_specifier_list_next(&iter, &specifier)) {
-        if (specifier->klass == KEFIR_AST_STORAGE_CLASS_SPECIFIER &&
-            specifier->storage_class == KEFIR_AST_STORAGE_SPECIFIER_TYPEDEF) {
-            is_typedef = true;
-        }
-    }
-    REQUIRE_OK(res);
-
-    for (const struct kefir_list_entry *iter = kefir_list_head(&declaration->init_declarators); iter != NULL;
-         kefir_list_next(&iter)) {
-        ASSIGN_DECL_CAST(struct kefir_ast_init_declarator *, declaration, iter->value);
-        const char *identifier;
-        REQUIRE_OK(kefir_ast_declarator_unpack_identifier(declaration->declarator, &identifier));
-        if (identifier != NULL) {
-            if (is_typedef) {
-                REQUIRE_OK(kefir_parser_scope_declare_typedef(mem, &parser->scope, identifier));
-            } else {
-                REQUIRE_OK(kefir_parser_scope_declare_variable(mem, &parser->scope, identifier));
-            }
-        }
-    }
-    return KEFIR_OK;
-}
-
 kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(declaration)(struct kefir_mem *mem, struct kefir_parser *parser,
                                                         struct kefir_ast_node_base **result, void *payload) {
     APPLY_PROLOGUE(mem, parser, result, payload);
     REQUIRE_OK(kefir_parser_ast_builder_wrap(mem, parser, result, builder_callback, NULL));
-
-    struct kefir_ast_declaration *decl_list = NULL;
-    kefir_result_t res = kefir_ast_downcast_declaration(*result, &decl_list, false);
-    if (res == KEFIR_OK) {
-        res = update_scope(mem, parser, decl_list);
-    } else if (res == KEFIR_NO_MATCH) {
-        if ((*result)->klass->type == KEFIR_AST_STATIC_ASSERTION) {
-            res = KEFIR_OK;
-        } else {
-            res = KEFIR_SET_ERROR(KEFIR_INVALID_STATE,
-                                  "Expected parser rule to produce either a declaration list, or a static assertion");
-        }
-    }
-
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        KEFIR_AST_NODE_FREE(mem, *result);
-        *result = NULL;
-        return res;
-    });
     return KEFIR_OK;
 }
diff --git a/source/parser/rules/declarator.c b/source/parser/rules/declarator.c
index 9168937..ba92820 100644
--- a/source/parser/rules/declarator.c
+++ b/source/parser/rules/declarator.c
@@ -270,6 +270,17 @@ static kefir_result_t scan_function_parameter(struct kefir_mem *mem, struct kefi
         return res;
     });
 
+    const char *identifier = NULL;
+    res = kefir_ast_declarator_unpack_identifier(declarator, &identifier);
+    if (res == KEFIR_OK && identifier != NULL) {
+        res = kefir_parser_scope_declare_variable(mem, &parser->scope, identifier);
+    }
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_declarator_free(mem, declarator);
+        kefir_ast_declarator_specifier_list_free(mem, &specifiers);
+        return res;
+    });
+
     struct kefir_ast_init_declarator *init_declarator = NULL;
     struct kefir_ast_declaration *declaration =
         kefir_ast_new_single_declaration(mem, declarator, NULL, &init_declarator);
@@ -361,7 +372,9 @@ static kefir_result_t scan_function_impl(struct kefir_mem *mem, struct kefir_par
     kefir_size_t checkpoint;
     REQUIRE_OK(kefir_parser_token_cursor_save(parser->cursor, &checkpoint));
 
+    REQUIRE_OK(kefir_parser_scope_push_block(mem, &parser->scope));
     kefir_result_t res = scan_function_parameter_list(mem, parser, declarator);
+    REQUIRE_OK(kefir_parser_scope_pop_block(mem, &parser->scope));
     if (res == KEFIR_NO_MATCH) {
         REQUIRE_OK(kefir_parser_token_cursor_restore(parser->cursor, checkpoint));
         if (abstract) {
diff --git a/source/parser/rules/function_definition.c b/source/parser/rules/function_definition.c
index 5b8019e..aefd874 100644
--- a/source/parser/rules/function_definition.c
+++ b/source/parser/rules/function_definition.c
@@ -85,6 +85,47 @@ static kefir_result_t scan_declaration_list(struct kefir_mem *mem, struct kefir_
     return KEFIR_OK;
 }
 
+static kefir_result_t declare_parameters(struct kefir_mem *mem, struct kefir_parser *parser,
+                                         const struct kefir_ast_declarator *declarator) {
+    const struct kefir_ast_declarator_function *function = NULL;
+    REQUIRE_OK(kefir_ast_declarator_unpack_function(declarator, &function));
+    REQUIRE(function != NULL, KEFIR_OK);
+
+    for (const struct kefir_list_entry *iter = kefir_list_head(&function->parameters); iter != NULL;
+         kefir_list_next(&iter)) {
+        ASSIGN_DECL_CAST(struct kefir_ast_node_base *, node, iter->value);
+        const char *name = NULL;
+        if (node->klass->type == KEFIR_AST_DECLARATION) {
+            struct kefir_ast_declaration *declaration = NULL;
+            struct kefir_ast_init_declarator *init_declarator = NULL;
+            REQUIRE_OK(kefir_ast_downcast_declaration(node, &declaration, false));
+            REQUIRE_OK(kefir_ast_declaration_unpack_single(declaration, &init_declarator));
+            REQUIRE_OK(kefir_ast_declarator_unpack_identifier(init_declarator->declarator, &name));
+        } else if (node->klass->type == KEFIR_AST_IDENTIFIER) {
+            struct kefir_ast_identifier *identifier = NULL;
+            REQUIRE_OK(kefir_ast_downcast_identifier(node, &identifier, false));
+            name = identifier->identifier;
+        }
+        if (name != NULL) {
+            REQUIRE_OK(kefir_parser_scope_declare_variable(mem, &parser->scope, name));
+        }
+    }
+    return KEFIR_OK;
+}
+
+static kefir_result_t scan_body(struct kefir_mem *mem, struct kefir_parser *parser,
+                                const struct kefir_ast_declarator *declarator, struct kefir_list *declaration_list,
+                                struct kefir_ast_node_base **compound_statement) {
+    REQUIRE_OK(declare_parameters(mem, parser, declarator));
+    REQUIRE_OK(scan_declaration_list(mem, parser, declaration_list));
+    kefir_result_t res = KEFIR_PARSER_RULE_APPLY(mem, parser, compound_statement, compound_statement);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_list_free(mem, declaration_list);
+        return res;
+    });
+    return KEFIR_OK;
+}
+
 static kefir_result_t scan_components(struct kefir_mem *mem, struct kefir_parser *parser,
                                       struct kefir_ast_declarator_specifier_list *specifiers,
                                       struct kefir_ast_declarator **declarator, struct kefir_list *declaration_list,
@@ -95,15 +136,27 @@ static kefir_result_t scan_components(struct kefir_mem *mem, struct kefir_parser
         kefir_ast_declarator_specifier_list_free(mem, specifiers);
         return res;
     });
-    res = scan_declaration_list(mem, parser, declaration_list);
+    res = kefir_parser_scope_push_block(mem, &parser->scope);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_declarator_free(mem, *declarator);
         kefir_ast_declarator_specifier_list_free(mem, specifiers);
         return res;
     });
-    res = KEFIR_PARSER_RULE_APPLY(mem, parser, compound_statement, compound_statement);
+
+    res = scan_body(mem, parser, *declarator, declaration_list, compound_statement);
+    if (res == KEFIR_OK) {
+        res = kefir_parser_scope_pop_block(mem, &parser->scope);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_AST_NODE_FREE(mem, *compound_statement);
+            kefir_list_free(mem, declaration_list);
+        });
+    } else if (res == KEFIR_NO_MATCH) {
+        kefir_result_t pop_res = kefir_parser_scope_pop_block(mem, &parser->scope);
+        if (pop_res != KEFIR_OK) {
+            res = pop_res;
+        }
+    }
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_list_free(mem, declaration_list);
         kefir_ast_declarator_free(mem, *declarator);
         kefir_ast_declarator_specifier_list_free(mem, specifiers);
         return res;
diff --git a/source/parser/rules/iteration_statement.c b/source/parser/rules/iteration_statement.c
index ef8b154..b8f80b9 100644
--- a/source/parser/rules/iteration_statement.c
+++ b/source/parser/rules/iteration_statement.c
@@ -76,6 +76,7 @@ static kefir_result_t scan_for(struct kefir_mem *mem, struct kefir_parser_ast_bu
     REQUIRE_OK(PARSER_SHIFT(parser));
 
     kefir_bool_t clauses[] = {false, false, false};
+    REQUIRE_OK(kefir_parser_scope_push_block(mem, &parser->scope));
 
     kefir_result_t res = kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, declaration), NULL);
     if (res == KEFIR_NO_MATCH) {
@@ -119,6 +120,7 @@ static kefir_result_t scan_for(struct kefir_mem *mem, struct kefir_parser_ast_bu
     REQUIRE_MATCH_OK(
         &res, kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, statement), NULL),
         KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0), "Expected statement"));
+    REQUIRE_OK(kefir_parser_scope_pop_block(mem, &parser->scope));
     REQUIRE_OK(kefir_parser_ast_builder_for_statement(mem, builder, clauses[0], clauses[1], clauses[2]));
     return KEFIR_OK;
 }
diff --git a/source/parser/rules/statement_expression.c b/source/parser/rules/statement_expression.c
index 799dba8..55bf4d4 100644
--- a/source/parser/rules/statement_expression.c
+++ b/source/parser/rules/statement_expression.c
@@ -38,8 +38,11 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     REQUIRE_OK(kefir_parser_scope_push_block(mem, &parser->scope));
 
     while (!PARSER_TOKEN_IS_RIGHT_BRACE(parser, 0)) {
-        kefir_result_t res =
-            kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, declaration), NULL);
+        kefir_result_t res = KEFIR_NO_MATCH;
+        if (!PARSER_TOKEN_IS_IDENTIFIER(parser, 0) ||
+            !PARSER_TOKEN_IS_PUNCTUATOR(parser, 1, KEFIR_PUNCTUATOR_COLON)) {
+            res = kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, declaration), NULL);
+        }
         if (res == KEFIR_NO_MATCH) {
             res = kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, statement), NULL);
         }
-- 
2.43.0


From 6693a76fa1650e0de10b963f03200cefe37acbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:18 +0000
Subject: [PATCH 52/62] fix: keep thread local storage of block scope extern
 declarations

---
 source/ast/local_context.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 7719f7c..0a14104 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -240,8 +240,8 @@ static kefir_result_t context_define_identifier(
                 REQUIRE(declaration, KEFIR_SET_SOURCE_ERROR(
                                          KEFIR_ANALYSIS_ERROR, location,
                                          "External thread local identifier in block scope cannot have initializer"));
-                REQUIRE_OK(kefir_ast_local_context_declare_external(mem, local_ctx, identifier, type, alignment,
-                                                                    location, scoped_id));
+                REQUIRE_OK(kefir_ast_local_context_declare_external_thread_local(mem, local_ctx, identifier, type,
+                                                                                 alignment, location, scoped_id));
                 break;
 
             case KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL:
-- 
2.43.0


From 68abe34d6c4a829ef3ee28fdcc0e73cc7daa0a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:18 +0000
Subject: [PATCH 53/62] fix: let a tag declaration without declarators
 introduce a new type in its scope

---
 source/ast/analyzer/nodes/declaration.c | 34 +++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/source/ast/analyzer/nodes/declaration.c b/source/ast/analyzer/nodes/declaration.c
index 9804cfd..9425f5d 100644
--- a/source/ast/analyzer/nodes/declaration.c
+++ b/source/ast/analyzer/nodes/declaration.c
@@ -27,6 +27,39 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+static kefir_result_t declare_tag(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                  const struct kefir_ast_declaration *node) {
+    const struct kefir_list_entry *declarator = kefir_list_head(&node->init_declarators);
+    if (declarator != NULL) {
+        ASSIGN_DECL_CAST(struct kefir_ast_node_base *, subnode, declarator->value);
+        REQUIRE(subnode->klass->type == KEFIR_AST_INIT_DECLARATOR, KEFIR_OK);
+        ASSIGN_DECL_CAST(struct kefir_ast_init_declarator *, init_decl, subnode->self);
+        REQUIRE(init_decl->declarator == NULL, KEFIR_OK);
+    }
+
+    struct kefir_ast_declarator_specifier *specifier = NULL;
+    struct kefir_list_entry *iter = kefir_ast_declarator_specifier_list_iter(&node->specifiers, &specifier);
+    REQUIRE(iter != NULL && specifier->klass == KEFIR_AST_TYPE_SPECIFIER, KEFIR_OK);
+    REQUIRE(iter->next == NULL, KEFIR_OK);
+
+    const struct kefir_ast_type *type = NULL;
+    if (specifier->type_specifier.specifier == KEFIR_AST_TYPE_SPECIFIER_STRUCT ||
+        specifier->type_specifier.specifier == KEFIR_AST_TYPE_SPECIFIER_UNION) {
+        const struct kefir_ast_structure_specifier *structure = specifier->type_specifier.value.structure;
+        REQUIRE(!structure->complete && structure->identifier != NULL, KEFIR_OK);
+        type = specifier->type_specifier.specifier == KEFIR_AST_TYPE_SPECIFIER_STRUCT
+                   ? kefir_ast_type_incomplete_structure(mem, context->type_bundle, structure->identifier)
+                   : kefir_ast_type_incomplete_union(mem, context->type_bundle, structure->identifier);
+        REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Unable to allocate AST struct/union type"));
+        kefir_result_t res = context->define_tag(mem, context, type, &specifier->source_location);
+        REQUIRE(res != KEFIR_INVALID_CHANGE,
+                KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &specifier->source_location,
+                                       "Tagged type declaration mismatch"));
+        REQUIRE_OK(res);
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_analyze_declaration_node(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                   const struct kefir_ast_declaration *node,
                                                   struct kefir_ast_node_base *base) {
@@ -42,6 +75,7 @@ kefir_result_t kefir_ast_analyze_declaration_node(struct kefir_mem *mem, const s
     kefir_ast_scoped_identifier_storage_t storage = KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_UNKNOWN;
     kefir_ast_function_specifier_t function = KEFIR_AST_FUNCTION_SPECIFIER_NONE;
     kefir_size_t alignment = 0;
+    REQUIRE_OK(declare_tag(mem, context, node));
     REQUIRE_OK(kefir_ast_analyze_declaration_specifiers(mem, context, &node->specifiers, &base_type, &storage,
                                                         &function, &alignment));
 
-- 
2.43.0


From 53446430fc46a3bd03a4ce1f2b435c4737444e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:22 +0000
Subject: [PATCH 54/62] fix: scale pointer arithmetic by the run-time size of
 variable length array elements

---
 headers/kefir/ast-translator/misc.h           |  4 +++
 source/ast-translator/lvalue.c                |  6 ++---
 source/ast-translator/misc.c                  | 25 +++++++++++++++++++
 .../nodes/assignment_operator.c               | 11 ++++----
 .../ast-translator/nodes/binary_operation.c   | 25 +++++--------------
 source/ast-translator/nodes/unary_operation.c |  6 ++---
 source/ast/analyzer/declarator.c              |  3 ++-
 source/ast/analyzer/type.c                    |  5 +++-
 8 files changed, 51 insertions(+), 34 deletions(-)

diff --git a/headers/kefir/ast-translator/misc.h b/headers/kefir/ast-translator/misc.h
index 0b8c3dd..195e290 100644
--- a/headers/kefir/ast-translator/misc.h
+++ b/headers/kefir/ast-translator/misc.h
@@ -22,12 +22,16 @@
 #define KEFIR_AST_TRANSLATOR_MISC_H_
 
 #include "kefir/ast-translator/context.h"
+#include "kefir/ast-translator/type.h"
 #include "kefir/ir/builder.h"
 
 kefir_result_t kefir_ast_translate_sizeof(struct kefir_mem *, struct kefir_ast_translator_context *,
                                           struct kefir_irbuilder_block *, const struct kefir_ast_type *);
 kefir_result_t kefir_ast_translate_alignof(struct kefir_mem *, struct kefir_ast_translator_context *,
                                            struct kefir_irbuilder_block *, const struct kefir_ast_type *);
+kefir_result_t kefir_ast_translate_element_pointer(struct kefir_mem *, struct kefir_ast_translator_context *,
+                                                   struct kefir_irbuilder_block *, const struct kefir_ast_type *,
+                                                   const struct kefir_ast_translator_type *);
 kefir_result_t kefir_ast_translator_resolve_type_layout(struct kefir_irbuilder_block *, kefir_id_t,
                                                         const struct kefir_ast_type_layout *,
                                                         const struct kefir_ast_type_layout *);
diff --git a/source/ast-translator/lvalue.c b/source/ast-translator/lvalue.c
index a4ac2b0..e4fd29d 100644
--- a/source/ast-translator/lvalue.c
+++ b/source/ast-translator/lvalue.c
@@ -165,8 +165,7 @@ kefir_result_t kefir_ast_translate_array_subscript_lvalue(struct kefir_mem *mem,
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->array, builder, context));
     }
     REQUIRE_CHAIN(
-        &res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR, translator_type->object.ir_type_id,
-                                              translator_type->object.layout->value));
+        &res, kefir_ast_translate_element_pointer(mem, context, builder, node->base.properties.type, translator_type));
 
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_translator_type_free(mem, translator_type);
@@ -321,8 +320,7 @@ static kefir_result_t translate_string_literal_node(const struct kefir_ast_visit
     REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid payload"));
     ASSIGN_DECL_CAST(struct kefir_ast_translator_parameters *, param, payload);
 
-    REQUIRE_OK(
-        kefir_ast_translate_expression(param->mem, KEFIR_AST_NODE_BASE(node), param->builder, param->context));
+    REQUIRE_OK(kefir_ast_translate_expression(param->mem, KEFIR_AST_NODE_BASE(node), param->builder, param->context));
     return KEFIR_OK;
 }
 
diff --git a/source/ast-translator/misc.c b/source/ast-translator/misc.c
index b38df10..8125e4d 100644
--- a/source/ast-translator/misc.c
+++ b/source/ast-translator/misc.c
@@ -49,6 +49,7 @@ kefir_result_t kefir_ast_translate_sizeof(struct kefir_mem *mem, struct kefir_as
     REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST type"));
 
+    type = kefir_ast_unqualified_type(type);
     if (KEFIR_AST_TYPE_IS_VL_ARRAY(type)) {
         const struct kefir_ast_node_base *vlen = kefir_ast_type_get_top_variable_modificator(type);
         REQUIRE(vlen != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_STATE,
@@ -63,6 +64,30 @@ kefir_result_t kefir_ast_translate_sizeof(struct kefir_mem *mem, struct kefir_as
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_ast_translate_element_pointer(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
+                                                   struct kefir_irbuilder_block *builder,
+                                                   const struct kefir_ast_type *type,
+                                                   const struct kefir_ast_translator_type *translator_type) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translator context"));
+    REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
+    REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST type"));
+
+    REQUIRE(translator_type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translator type"));
+
+    const struct kefir_ast_type *unqualified_type = kefir_ast_unqualified_type(type);
+    if (KEFIR_AST_TYPE_IS_VL_ARRAY(unqualified_type)) {
+        REQUIRE_OK(kefir_ast_translate_sizeof(mem, context, builder, unqualified_type));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_IMUL, 0));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_IADD, 0));
+    } else {
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
+                                                   translator_type->object.ir_type_id,
+                                                   translator_type->object.layout->value));
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t unwrap_vla_type(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                       const struct kefir_ast_type *type, const struct kefir_ast_type **result) {
     REQUIRE_OK(kefir_ast_type_completion(mem, context, &type, type));
diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 9a715d4..122f966 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/misc.h"
 #include "kefir/ast-translator/value.h"
 #include "kefir/ast-translator/lvalue.h"
 #include "kefir/ast-translator/util.h"
@@ -386,9 +387,8 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
         REQUIRE_CHAIN(&res, kefir_ast_translator_resolve_lvalue(mem, context, builder, node->target));
 
         REQUIRE_CHAIN(&res, reorder_assignment_arguments(builder, NULL));
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                            translator_type->object.ir_type_id,
-                                                            translator_type->object.layout->value));
+        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(
+                                mem, context, builder, target_normalized_type->referenced_type, translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
@@ -472,9 +472,8 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
         REQUIRE_CHAIN(&res, kefir_ast_translator_resolve_lvalue(mem, context, builder, node->target));
 
         REQUIRE_CHAIN(&res, reorder_assignment_arguments(builder, NULL));
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                            translator_type->object.ir_type_id,
-                                                            translator_type->object.layout->value));
+        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(
+                                mem, context, builder, target_normalized_type->referenced_type, translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
diff --git a/source/ast-translator/nodes/binary_operation.c b/source/ast-translator/nodes/binary_operation.c
index 205c9c5..24f5f35 100644
--- a/source/ast-translator/nodes/binary_operation.c
+++ b/source/ast-translator/nodes/binary_operation.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/misc.h"
 #include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast-translator/type.h"
@@ -116,9 +117,8 @@ static kefir_result_t translate_addition(struct kefir_mem *mem, struct kefir_ast
             REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->arg2, builder, context));
             REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->arg1, builder, context));
         }
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                            translator_type->object.ir_type_id,
-                                                            translator_type->object.layout->value));
+        REQUIRE_CHAIN(&res,
+                      kefir_ast_translate_element_pointer(mem, context, builder, referenced_type, translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
@@ -168,20 +168,8 @@ static kefir_result_t translate_subtraction(struct kefir_mem *mem, struct kefir_
             referenced_type = context->ast_context->type_traits->incomplete_type_substitute;
         }
 
-        kefir_ast_target_environment_opaque_type_t opaque_type;
-        struct kefir_ast_target_environment_object_info type_info;
-        REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_GET_TYPE(mem, &context->environment->target_env, referenced_type,
-                                                         &opaque_type));
-        kefir_result_t res = KEFIR_AST_TARGET_ENVIRONMENT_OBJECT_INFO(mem, &context->environment->target_env,
-                                                                      opaque_type, NULL, &type_info);
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, &context->environment->target_env, opaque_type);
-            return res;
-        });
-        REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, &context->environment->target_env, opaque_type));
-
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_ISUB, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, type_info.size));
+        REQUIRE_OK(kefir_ast_translate_sizeof(mem, context, builder, referenced_type));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IDIV, 0));
     } else {
         const struct kefir_ast_type *referenced_type = arg1_normalized_type->referenced_type;
@@ -197,9 +185,8 @@ static kefir_result_t translate_subtraction(struct kefir_mem *mem, struct kefir_
 
         kefir_result_t res = KEFIR_OK;
         REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_INEG, 0));
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                            translator_type->object.ir_type_id,
-                                                            translator_type->object.layout->value));
+        REQUIRE_CHAIN(&res,
+                      kefir_ast_translate_element_pointer(mem, context, builder, referenced_type, translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
diff --git a/source/ast-translator/nodes/unary_operation.c b/source/ast-translator/nodes/unary_operation.c
index b1a1d2c..f8614da 100644
--- a/source/ast-translator/nodes/unary_operation.c
+++ b/source/ast-translator/nodes/unary_operation.c
@@ -186,9 +186,9 @@ static kefir_result_t incdec_impl(struct kefir_mem *mem, struct kefir_ast_transl
 
             kefir_result_t res = KEFIR_OK;
             REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PUSHI64, diff));
-            REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                                translator_type->object.ir_type_id,
-                                                                translator_type->object.layout->value));
+            REQUIRE_CHAIN(&res,
+                          kefir_ast_translate_element_pointer(
+                              mem, context, builder, node->base.properties.type->referenced_type, translator_type));
 
             REQUIRE_ELSE(res == KEFIR_OK, {
                 kefir_ast_translator_type_free(mem, translator_type);
diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 145038c..58c4af9 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -793,7 +793,8 @@ static kefir_result_t resolve_array_declarator(struct kefir_mem *mem, const stru
             REQUIRE_OK(kefir_ast_analyze_node(mem, context, declarator->array.length));
             kefir_result_t res =
                 kefir_ast_constant_expression_value_evaluate(mem, context, declarator->array.length, &value);
-            if (res == KEFIR_NOT_CONSTANT) {
+            const struct kefir_ast_type *element_type = kefir_ast_unqualified_type(*base_type);
+            if (res == KEFIR_NOT_CONSTANT || (res == KEFIR_OK && KEFIR_AST_TYPE_IS_VL_ARRAY(element_type))) {
                 kefir_clear_error();
                 REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(declarator->array.length->properties.type),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &declarator->array.length->source_location,
diff --git a/source/ast/analyzer/type.c b/source/ast/analyzer/type.c
index 6de1226..b879a05 100644
--- a/source/ast/analyzer/type.c
+++ b/source/ast/analyzer/type.c
@@ -85,7 +85,10 @@ static kefir_result_t analyze_array(struct kefir_mem *mem, const struct kefir_as
         case KEFIR_AST_ARRAY_VLA:
         case KEFIR_AST_ARRAY_VLA_STATIC:
             if (array_type->vla_length != NULL) {
-                REQUIRE_OK(kefir_ast_analyze_node(mem, context, array_type->vla_length));
+                // The length belongs to the scope where the array type was declared
+                if (array_type->vla_length->properties.category == KEFIR_AST_NODE_CATEGORY_UNKNOWN) {
+                    REQUIRE_OK(kefir_ast_analyze_node(mem, context, array_type->vla_length));
+                }
                 REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(array_type->vla_length->properties.type),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                                "Array type subscript shall have integral type"));
-- 
2.43.0


From edb7da30ffa559d2046c1aee1b23772b99e2b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:30 +0000
Subject: [PATCH 55/62] fix: release all and only the variable length arrays of
 blocks that are left

---
 source/ast-translator/jump.c | 50 +++++++++++++++++-------------------
 source/runtime/amd64_sysv.s  | 35 ++++++++++++-------------
 2 files changed, 41 insertions(+), 44 deletions(-)

diff --git a/source/ast-translator/jump.c b/source/ast-translator/jump.c
index 28f4870..5ea3b0b 100644
--- a/source/ast-translator/jump.c
+++ b/source/ast-translator/jump.c
@@ -25,6 +25,15 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+static kefir_result_t release_vla(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
+                                  struct kefir_irbuilder_block *builder, const struct kefir_list_entry *entry) {
+    ASSIGN_DECL_CAST(const struct kefir_ast_flow_control_data_element *, vla_element, entry->value);
+    REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
+    REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
+    REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
+    return KEFIR_OK;
+}
+
 static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                    struct kefir_irbuilder_block *builder,
                                    struct kefir_ast_flow_control_point *original_position,
@@ -35,27 +44,18 @@ static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_trans
     struct kefir_ast_flow_control_point *top_target_block = target_position;
     for (const struct kefir_list_entry *iter = kefir_list_head(target_parents); iter != NULL; kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_flow_control_structure *, control_struct, iter->value);
-        if (control_struct->type == KEFIR_AST_FLOW_CONTROL_STRUCTURE_BLOCK) {
-            REQUIRE(!control_struct->value.block.contains_vla,
-                    KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, source_location,
-                                           "Cannot jump into scope with local VLA variables"));
-        }
+        REQUIRE(top_target_block->parent_data_elts.head == NULL,
+                KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, source_location,
+                                       "Cannot jump into scope with local VLA variables"));
         top_target_block = control_struct->parent_point;
     }
 
+    // Only variable-length arrays declared before the jump are released
     struct kefir_ast_flow_control_point *top_origin_block = original_position;
     struct kefir_ast_flow_control_structure *current_origin_parent = original_position->parent;
     while (current_origin_parent != NULL && current_origin_parent != common_parent) {
-        if (current_origin_parent->type == KEFIR_AST_FLOW_CONTROL_STRUCTURE_BLOCK) {
-            if (current_origin_parent->value.block.contains_vla) {
-                const struct kefir_ast_flow_control_data_element *vla_element = NULL;
-                REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(
-                    &current_origin_parent->value.block.data_elements, &vla_element));
-
-                REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
-            }
+        if (top_origin_block->parent_data_elts.head != NULL) {
+            REQUIRE_OK(release_vla(mem, context, builder, top_origin_block->parent_data_elts.head));
         }
         top_origin_block = current_origin_parent->parent_point;
         current_origin_parent =
@@ -70,23 +70,21 @@ static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_trans
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, source_location,
                                        "Cannot jump in the scope with uninitialized VLA variables"));
 
+        const bool last_origin_elt = top_origin_block_iter == top_origin_block->parent_data_elts.tail;
         if (top_target_block_iter == top_target_block->parent_data_elts.tail) {
-            kefir_list_next(&top_origin_block_iter);
+            if (last_origin_elt) {
+                top_origin_block_iter = NULL;
+            } else {
+                kefir_list_next(&top_origin_block_iter);
+            }
             break;
         }
-        REQUIRE(top_origin_block_iter != top_origin_block->parent_data_elts.tail,
-                KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, source_location,
-                                       "Cannot jump in the scope with uninitialized VLA variables"));
+        REQUIRE(!last_origin_elt, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, source_location,
+                                                         "Cannot jump in the scope with uninitialized VLA variables"));
     }
 
     if (top_origin_block_iter != NULL) {
-        const struct kefir_ast_flow_control_data_element *vla_element = top_origin_block_iter->value;
-        REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(&current_origin_parent->value.block.data_elements,
-                                                                      &vla_element));
-
-        REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
+        REQUIRE_OK(release_vla(mem, context, builder, top_origin_block_iter));
     }
 
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_JMP, 0));
diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 6e5149d..bdb9f73 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -1130,19 +1130,15 @@ define_opcode ldcf64
     fstp QWORD PTR [rsp]
     end_opcode
 
+# [r14 - 8] holds the lowest address of allocated memory, the operand stack is located below it.
+# [r14 - 16] holds address of the latest alloca block, which is kept until function returns.
 define_opcode alloca
-    mov r12, [INSTR_ARG_PTR]
-    cmp r12, 0
-    je __kefirrt_alloca_noreset
-    xor r12, r12
-    mov [r14 - 16], r12
-__kefirrt_alloca_noreset:
     pop r12             # Alignment
     pop r13             # Size
     mov rsi, [r14 - 8]  # Current stack base
     mov rax, rsi        # Pointer to allocation
     sub rax, r13
-    and rax, -8
+    and rax, -16
     cmp r12, 0
     je __kefirrt_alloca_aligned
     neg r12
@@ -1158,21 +1154,28 @@ __kefirrt_alloca_aligned:
     rep movsb
     mov [r14 - 8], rax
     push rax
+    mov r12, [INSTR_ARG_PTR]
+    cmp r12, 0
+    je __kefirrt_alloca_end
+    mov [r14 - 16], rax
+__kefirrt_alloca_end:
     end_opcode
 
 define_opcode pushscope
-    mov r12, [r14 - 16]
-    push r12
     mov r12, [r14 - 8]
-    mov [r14 - 16], r12
+    push r12
     end_opcode
 
 define_opcode popscope
-    pop rax
-    mov rdi, [r14 - 16]
-    cmp rdi, 0
-    je __kefirrt_popscope_end
+    pop rdi             # Stack base to be restored
+    mov rax, [r14 - 16]
+    cmp rax, 0
+    je __kefirrt_popscope_release
+    cmp rdi, rax
+    cmova rdi, rax
+__kefirrt_popscope_release:
     mov rsi, [r14 - 8]
+    mov [r14 - 8], rdi
     mov rcx, rsi
     sub rcx, rsp
     dec rsi
@@ -1180,11 +1183,7 @@ define_opcode popscope
     std
     rep movsb
     cld
-    mov r12, [r14 - 16]
     lea rsp, [rdi + 1]
-    mov [r14 - 8], r12
-    mov [r14 - 16], rax
-__kefirrt_popscope_end:
     end_opcode
 
 # Runtime helpers
-- 
2.43.0


From c6e86d61f94f6be9b2765a4f37daa88d9d3c0232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:01 +0000
Subject: [PATCH 56/62] fix: accept --dump-asm and --include-path options
 listed in the help text

---
 source/cli/options.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cli/options.c b/source/cli/options.c
index d9a0aea..e410cae 100644
--- a/source/cli/options.c
+++ b/source/cli/options.c
@@ -160,6 +160,7 @@ static struct CliOption Options[] = {
             skip_preprocessor_hook),
     SIMPLE(0, "dump-tokens", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_TOKENS, action),
     SIMPLE(0, "dump-ast", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_AST, action),
+    SIMPLE(0, "dump-asm", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_ASSEMBLY, action),
     SIMPLE(0, "dump-ir", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_IR, action),
     SIMPLE(0, "dump-runtime-code", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_RUNTIME_CODE, action),
     SIMPLE(0, "json-errors", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ERROR_REPORT_JSON, error_report_type),
@@ -170,7 +171,8 @@ static struct CliOption Options[] = {
     POSTHOOK(0, "pp-timestamp", true, CLI_ACTION_ASSIGN_UINTARG, 0, pp_timestamp, pp_timestamp_hook),
 
     CUSTOM('D', "define", true, define_hook),
-    CUSTOM('I', "include-dir", true, include_hook),
+    CUSTOM('I', "include-path", true, include_hook),
+    CUSTOM(0, "include-dir", true, include_hook),
     CUSTOM(0, "include", true, include_file_hook),
     SIMPLE('h', "help", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_HELP, action),
     SIMPLE('v', "version", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_VERSION, action),
-- 
2.43.0


From 5491687bcb5c364e15aa96fdca2f279517d4d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:02 +0000
Subject: [PATCH 57/62] fix: report failures to write the output and honour
 --output in --dump-runtime-code

---
 source/main/main.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/main/main.c b/source/main/main.c
index f62c65c..a3f7ee9 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -60,6 +60,12 @@ static kefir_result_t open_output(const char *filepath, FILE **output) {
     return KEFIR_OK;
 }
 
+static kefir_result_t close_output(FILE *output) {
+    const kefir_bool_t failed = ferror(output) != 0;
+    REQUIRE(fclose(output) == 0 && !failed, KEFIR_SET_OS_ERROR("Unable to write output file"));
+    return KEFIR_OK;
+}
+
 static kefir_result_t dump_action_impl(struct kefir_mem *mem, struct kefir_cli_options *options,
                                        kefir_result_t (*action)(struct kefir_mem *, struct kefir_cli_options *,
                                                                 struct kefir_compiler_context *, const char *,
@@ -111,7 +117,7 @@ static kefir_result_t dump_action_impl(struct kefir_mem *mem, struct kefir_cli_o
     compiler.translator_configuration.empty_structs = options->features.empty_structs;
 
     REQUIRE_OK(action(mem, options, &compiler, source_id, input.content, input.length, output));
-    fclose(output);
+    REQUIRE_OK(close_output(output));
     REQUIRE_OK(kefir_compiler_context_free(mem, &compiler));
     REQUIRE_OK(kefir_preprocessor_filesystem_source_locator_free(mem, &source_locator));
     REQUIRE_OK(kefir_cli_input_close(mem, &input));
@@ -192,7 +198,6 @@ static kefir_result_t dump_preprocessed_impl(struct kefir_mem *mem, struct kefir
     override_timestamp(options, compiler);
     REQUIRE_OK(include_predefined(mem, options, compiler, &tokens, false));
     REQUIRE_OK(kefir_compiler_preprocess(mem, compiler, &tokens, source, length, source_id, options->input_filepath));
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_preprocessor_format(output, &tokens, KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL));
     REQUIRE_OK(kefir_token_buffer_free(mem, &tokens));
     return KEFIR_OK;
@@ -212,7 +217,6 @@ static kefir_result_t dump_tokens_impl(struct kefir_mem *mem, struct kefir_cli_o
     REQUIRE_OK(lex_file(mem, options, compiler, source_id, source, length, &tokens));
 
     struct kefir_json_output json;
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_json_output_init(&json, output, 4));
     REQUIRE_OK(kefir_token_buffer_format(&json, &tokens, options->detailed_output));
     REQUIRE_OK(kefir_json_output_finalize(&json));
@@ -238,7 +242,6 @@ static kefir_result_t dump_ast_impl(struct kefir_mem *mem, struct kefir_cli_opti
     REQUIRE_OK(kefir_compiler_analyze(mem, compiler, KEFIR_AST_NODE_BASE(unit)));
 
     struct kefir_json_output json;
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_json_output_init(&json, output, 4));
     REQUIRE_OK(kefir_ast_format(&json, KEFIR_AST_NODE_BASE(unit), options->detailed_output));
     REQUIRE_OK(kefir_json_output_finalize(&json));
@@ -314,7 +317,10 @@ static kefir_result_t action_dump_runtime_code(struct kefir_mem *mem, struct kef
     REQUIRE_OK(kefir_compiler_profile(&profile, options->target_profile));
     REQUIRE(profile.runtime_code != NULL,
             KEFIR_SET_ERROR(KEFIR_NOT_SUPPORTED, "Runtime code is not available for specified profile"));
-    printf("%s", profile.runtime_code);
+    FILE *output = NULL;
+    REQUIRE_OK(open_output(options->output_filepath, &output));
+    fprintf(output, "%s", profile.runtime_code);
+    REQUIRE_OK(close_output(output));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From ff2233fcef057fe27752aec84cc75146c44cbc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:57 +0000
Subject: [PATCH 58/62] fix: read inputs that are not regular files and empty
 standard input

---
 source/cli/input.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/source/cli/input.c b/source/cli/input.c
index b327e8d..04104c3 100644
--- a/source/cli/input.c
+++ b/source/cli/input.c
@@ -33,8 +33,11 @@ kefir_result_t kefir_cli_input_open(struct kefir_mem *mem, struct kefir_cli_inpu
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(input != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid CLI input"));
 
-    input->filepath = filepath;
-    int fd;
+    input->filepath = NULL;
+    input->content = NULL;
+    input->length = 0;
+
+    int fd = STDIN_FILENO;
     if (filepath != NULL) {
         fd = open(filepath, O_RDONLY);
         REQUIRE(fd >= 0, KEFIR_SET_OS_ERROR("Failed to open file"));
@@ -42,19 +45,23 @@ kefir_result_t kefir_cli_input_open(struct kefir_mem *mem, struct kefir_cli_inpu
         struct stat statbuf;
         REQUIRE(fstat(fd, &statbuf) >= 0, KEFIR_SET_OS_ERROR("Failed to fstat file"));
 
-        if (statbuf.st_size > 0) {
-            input->content = mmap(NULL, statbuf.st_size, PROT_READ, MAP_SHARED, fd, 0);
-            REQUIRE(input->content != MAP_FAILED, KEFIR_SET_OS_ERROR("Failed to mmap file"));
-        } else {
-            input->content = "";
+        if (S_ISREG(statbuf.st_mode)) {
+            if (statbuf.st_size > 0) {
+                input->content = mmap(NULL, statbuf.st_size, PROT_READ, MAP_SHARED, fd, 0);
+                REQUIRE(input->content != MAP_FAILED, KEFIR_SET_OS_ERROR("Failed to mmap file"));
+            } else {
+                input->content = "";
+            }
+            input->filepath = filepath;
+            input->length = statbuf.st_size;
         }
-        input->length = statbuf.st_size;
-    } else {
-        fd = STDIN_FILENO;
-        input->content = NULL;
-        input->length = 0;
+    }
+
+    if (input->filepath == NULL) {
+        kefir_size_t buffer_capacity = 1024;
+        input->content = KEFIR_MALLOC(mem, buffer_capacity);
+        REQUIRE(input->content != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate input buffer"));
 
-        kefir_size_t buffer_capacity = 0;
         char chunk[256];
         ssize_t sz;
         while ((sz = read(fd, chunk, sizeof chunk)) > 0) {
@@ -67,6 +74,7 @@ kefir_result_t kefir_cli_input_open(struct kefir_mem *mem, struct kefir_cli_inpu
             memcpy(((char *) input->content) + input->length, chunk, sz);
             input->length += sz;
         }
+        REQUIRE(sz == 0, KEFIR_SET_OS_ERROR("Failed to read input"));
     }
     close(fd);
     return KEFIR_OK;
-- 
2.43.0


From 2de57d83dc1d631f66bae0ce56667a440761ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:10 +0000
Subject: [PATCH 59/62] fix: reject ambiguous abbreviations of long options

---
 source/cli/options.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/cli/options.c b/source/cli/options.c
index e410cae..fd857e9 100644
--- a/source/cli/options.c
+++ b/source/cli/options.c
@@ -44,6 +44,9 @@ struct CliOption {
     kefir_result_t (*posthook)(struct kefir_mem *, struct CliOption *, void *, const char *);
 };
 
+// Distinct value for each long option, so that ambiguous abbreviations are rejected
+#define LONG_OPTION_BASE (1 << CHAR_BIT)
+
 #define MEMBERSZ(structure, field) (sizeof(((structure *) NULL)->field))
 
 static kefir_result_t preprocess_hook(struct kefir_mem *mem, struct CliOption *option, void *raw_options,
@@ -237,25 +240,24 @@ static kefir_result_t parse_impl_internal(struct kefir_mem *mem, struct kefir_cl
     for (kefir_size_t i = 0; res == KEFIR_OK && i < Option_Count; i++) {
         long_options[i] =
             (struct option){Options[i].long_option, Options[i].has_argument ? required_argument : no_argument, NULL,
-                            Options[i].short_option};
+                            LONG_OPTION_BASE + (int) i};
     }
     long_options[Option_Count] = (struct option){0};
 
-    int long_option_index = 0;
-    for (int c = getopt_long(argc, argv, short_options, long_options, &long_option_index); res == KEFIR_OK && c != -1;
-         c = getopt_long(argc, argv, short_options, long_options, &long_option_index)) {
+    for (int c = getopt_long(argc, argv, short_options, long_options, NULL); res == KEFIR_OK && c != -1;
+         c = getopt_long(argc, argv, short_options, long_options, NULL)) {
 
         struct CliOption *cli_option = NULL;
         if (c == '?') {
             res = KEFIR_SET_ERRORF(KEFIR_UI_ERROR, "Unknown option %s", argv[optind - 1]);
         } else if (c == ':') {
             res = KEFIR_SET_ERRORF(KEFIR_UI_ERROR, "Expected parameter for %s option", argv[optind - 1]);
-        } else if (c != 0) {
+        } else if (c < LONG_OPTION_BASE) {
             cli_option = short_option_map[c];
             REQUIRE_CHAIN_SET(&res, cli_option != NULL,
                               KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "CLI option is ill-defined"));
         } else {
-            cli_option = &Options[long_option_index];
+            cli_option = &Options[c - LONG_OPTION_BASE];
         }
 
         if (res == KEFIR_OK && cli_option->prehook != NULL) {
-- 
2.43.0


From b196b27989e3c53d577d24ff52b1026966916f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:12 +0000
Subject: [PATCH 60/62] fix: reject unprototyped declarations followed by
 variadic prototypes

---
 source/ast/type/function.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/ast/type/function.c b/source/ast/type/function.c
index c8b7085..e5384a0 100644
--- a/source/ast/type/function.c
+++ b/source/ast/type/function.c
@@ -167,7 +167,7 @@ static kefir_bool_t compatible_function_types(const struct kefir_ast_type_traits
         REQUIRE(!type1->function_type.ellipsis, false);
         return parameter_list_unaffected_by_promotions(type_traits, type1);
     } else if (type2->function_type.mode == KEFIR_AST_FUNCTION_TYPE_PARAMETERS) {
-        REQUIRE(!type1->function_type.ellipsis, false);
+        REQUIRE(!type2->function_type.ellipsis, false);
         return parameter_list_unaffected_by_promotions(type_traits, type2);
     } else {
         return true;
-- 
2.43.0


From 6a9254b53ed9a708964aa091cbd2384687296720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:42 +0000
Subject: [PATCH 61/62] fix: parse nested parenthesized expressions in linear
 time

---
 source/parser/rules/assignment_expression.c | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/source/parser/rules/assignment_expression.c b/source/parser/rules/assignment_expression.c
index 5bfefff..8a7eefb 100644
--- a/source/parser/rules/assignment_expression.c
+++ b/source/parser/rules/assignment_expression.c
@@ -30,7 +30,9 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid parser AST builder"));
     struct kefir_parser *parser = builder->parser;
 
-    REQUIRE_OK(kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, unary_expression), NULL));
+    // Left operand of an assignment is parsed as a conditional expression in order to avoid parsing it twice if no
+    // assignment operator follows; operands which are not unary expressions are not modifiable lvalues
+    REQUIRE_OK(kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, conditional_expression), NULL));
     kefir_result_t res;
     if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_ASSIGN)) {
         REQUIRE_OK(PARSER_SHIFT(parser));
@@ -120,27 +122,14 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
             KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                    "Expected assignment expression"));
         REQUIRE_OK(kefir_parser_ast_builder_assignment_operator(mem, builder, KEFIR_AST_ASSIGNMENT_BITWISE_OR));
-    } else {
-        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Expected assignment operator");
     }
 
     return KEFIR_OK;
 }
 
-static kefir_result_t reduce_assignment(struct kefir_mem *mem, struct kefir_parser *parser,
-                                        struct kefir_ast_node_base **result, void *payload) {
-    APPLY_PROLOGUE(mem, parser, result, payload);
-    REQUIRE_OK(kefir_parser_ast_builder_wrap(mem, parser, result, builder_callback, NULL));
-    return KEFIR_OK;
-}
-
 kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(assignment_expression)(struct kefir_mem *mem, struct kefir_parser *parser,
                                                                   struct kefir_ast_node_base **result, void *payload) {
     APPLY_PROLOGUE(mem, parser, result, payload);
-    kefir_result_t res = kefir_parser_apply(mem, parser, result, reduce_assignment, NULL);
-    if (res == KEFIR_NO_MATCH) {
-        res = KEFIR_PARSER_RULE_APPLY(mem, parser, conditional_expression, result);
-    }
-    REQUIRE_OK(res);
+    REQUIRE_OK(kefir_parser_ast_builder_wrap(mem, parser, result, builder_callback, NULL));
     return KEFIR_OK;
 }
-- 
2.43.0


From b45922a544c74ba78719b022e928efb72d5114a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:53 +0000
Subject: [PATCH 62/62] fix: emit well-formed JSON strings and numbers in dumps

---
 source/util/json.c | 152 +++++++++++++++++++++------------------------
 1 file changed, 70 insertions(+), 82 deletions(-)

diff --git a/source/util/json.c b/source/util/json.c
index 3b3b923..6593f37 100644
--- a/source/util/json.c
+++ b/source/util/json.c
@@ -22,7 +22,6 @@
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 #include <string.h>
-#include <uchar.h>
 
 kefir_result_t kefir_json_output_init(struct kefir_json_output *json, FILE *file, kefir_size_t indent) {
     REQUIRE(json != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid json output"));
@@ -175,56 +174,90 @@ kefir_result_t kefir_json_output_array_end(struct kefir_json_output *json) {
     return KEFIR_OK;
 }
 
-static kefir_result_t format_string(struct kefir_json_output *json, const char *string) {
-    fprintf(json->file, "\"");
+static kefir_size_t utf8_sequence_length(const char *string, kefir_size_t length) {
+    const unsigned char *bytes = (const unsigned char *) string;
+    kefir_size_t sequence_length = 0;
+    kefir_char32_t minimum = 0;
+    kefir_char32_t character = 0;
+    if (bytes[0] < 0x80) {
+        return 1;
+    } else if ((bytes[0] & 0xe0) == 0xc0) {
+        sequence_length = 2;
+        minimum = 0x80;
+        character = bytes[0] & 0x1f;
+    } else if ((bytes[0] & 0xf0) == 0xe0) {
+        sequence_length = 3;
+        minimum = 0x800;
+        character = bytes[0] & 0xf;
+    } else if ((bytes[0] & 0xf8) == 0xf0) {
+        sequence_length = 4;
+        minimum = 0x10000;
+        character = bytes[0] & 0x7;
+    }
+    REQUIRE(sequence_length > 0 && sequence_length <= length, 0);
+    for (kefir_size_t i = 1; i < sequence_length; i++) {
+        REQUIRE((bytes[i] & 0xc0) == 0x80, 0);
+        character = (character << 6) | (bytes[i] & 0x3f);
+    }
+    REQUIRE(character >= minimum && character <= 0x10ffff && (character < 0xd800 || character > 0xdfff), 0);
+    return sequence_length;
+}
 
-    mbstate_t state = {0};
-    const char *end = string + strlen(string);
-    size_t sz = 0;
-    kefir_char32_t wide_char;
-    while (string < end && (sz = mbrtoc32(&wide_char, string, end - string, &state)) != 0) {
-        switch (wide_char) {
-            case U'\"':
+static kefir_result_t format_string(struct kefir_json_output *json, const char *string, kefir_size_t length,
+                                    kefir_bool_t c_escapes) {
+    fprintf(json->file, "\"");
+    while (length > 0) {
+        kefir_size_t sz = utf8_sequence_length(string, length);
+        const unsigned char chr = (unsigned char) *string;
+        switch (chr) {
+            case '\"':
                 fprintf(json->file, "\\\"");
                 break;
 
-            case U'\\':
+            case '\\':
                 fprintf(json->file, "\\\\");
                 break;
 
-            case U'/':
+            case '/':
                 fprintf(json->file, "\\/");
                 break;
 
-            case U'\b':
+            case '\b':
                 fprintf(json->file, "\\b");
                 break;
 
-            case U'\f':
+            case '\f':
                 fprintf(json->file, "\\f");
                 break;
 
-            case U'\n':
+            case '\n':
                 fprintf(json->file, "\\n");
                 break;
 
-            case U'\r':
+            case '\r':
                 fprintf(json->file, "\\r");
                 break;
 
-            case U'\t':
+            case '\t':
                 fprintf(json->file, "\\t");
                 break;
 
-            case U'\a':
-                fprintf(json->file, "\\a");
-                break;
-
             default:
-                fwrite(string, 1, sz, json->file);
+                if (c_escapes && (chr == '\a' || chr == '\v' || chr == '\?')) {
+                    fprintf(json->file, "\\%c", chr == '\a' ? 'a' : chr == '\v' ? 'v' : '?');
+                } else if (chr < 0x20 || chr == 0x7f) {
+                    fprintf(json->file, "\\u%04x", (unsigned int) chr);
+                } else if (sz == 0) {
+                    // Bytes that do not belong to any character are represented by lone surrogates
+                    fprintf(json->file, "\\u%04x", 0xdc00u + (unsigned int) chr);
+                    sz = 1;
+                } else {
+                    fwrite(string, 1, sz, json->file);
+                }
                 break;
         }
         string += sz;
+        length -= sz;
     }
     fprintf(json->file, "\"");
     return KEFIR_OK;
@@ -239,7 +272,7 @@ kefir_result_t kefir_json_output_object_key(struct kefir_json_output *json, cons
             KEFIR_SET_ERROR(KEFIR_INVALID_CHANGE, "Cannot add key to json object"));
 
     json->state[json->level] = KEFIR_JSON_STATE_OBJECT_FIELD;
-    REQUIRE_OK(format_string(json, key));
+    REQUIRE_OK(format_string(json, key, strlen(key), false));
     return KEFIR_OK;
 }
 
@@ -282,10 +315,21 @@ kefir_result_t kefir_json_output_uinteger(struct kefir_json_output *json, kefir_
     return KEFIR_OK;
 }
 
+static kefir_result_t output_non_finite(struct kefir_json_output *json, kefir_long_double_t value) {
+    // JSON numbers cannot represent infinities and NaN
+    if (value != value) {
+        fprintf(json->file, "\"nan\"");
+    } else {
+        fprintf(json->file, value > 0 ? "\"inf\"" : "\"-inf\"");
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_json_output_float(struct kefir_json_output *json, kefir_float64_t value) {
     REQUIRE_OK(valid_json(json));
     REQUIRE_OK(write_separator(json));
     REQUIRE_OK(validate_value(json));
+    REQUIRE(value - value == 0, output_non_finite(json, value));
 
     fprintf(json->file, KEFIR_FLOAT64_FMT, value);
     return KEFIR_OK;
@@ -295,6 +339,7 @@ kefir_result_t kefir_json_output_long_double(struct kefir_json_output *json, kef
     REQUIRE_OK(valid_json(json));
     REQUIRE_OK(write_separator(json));
     REQUIRE_OK(validate_value(json));
+    REQUIRE(value - value == 0, output_non_finite(json, value));
 
     if (getenv(KEFIR_DISABLE_LONG_DOUBLE_FLAG) != NULL) {
         fprintf(json->file, "%lf", (double) value);
@@ -331,7 +376,7 @@ kefir_result_t kefir_json_output_string(struct kefir_json_output *json, const ch
     REQUIRE_OK(write_separator(json));
     REQUIRE_OK(validate_value(json));
 
-    REQUIRE_OK(format_string(json, value));
+    REQUIRE_OK(format_string(json, value, strlen(value), false));
     return KEFIR_OK;
 }
 
@@ -340,64 +385,7 @@ kefir_result_t kefir_json_output_raw_string(struct kefir_json_output *json, cons
     REQUIRE_OK(write_separator(json));
     REQUIRE_OK(validate_value(json));
 
-    fprintf(json->file, "\"");
-    for (kefir_size_t i = 0; i < length; i++) {
-        char chr = value[i];
-        switch (chr) {
-            case U'\"':
-                fprintf(json->file, "\\\"");
-                break;
-
-            case U'\\':
-                fprintf(json->file, "\\\\");
-                break;
-
-            case U'/':
-                fprintf(json->file, "\\/");
-                break;
-
-            case U'\b':
-                fprintf(json->file, "\\b");
-                break;
-
-            case U'\f':
-                fprintf(json->file, "\\f");
-                break;
-
-            case U'\n':
-                fprintf(json->file, "\\n");
-                break;
-
-            case U'\r':
-                fprintf(json->file, "\\r");
-                break;
-
-            case U'\t':
-                fprintf(json->file, "\\t");
-                break;
-
-            case U'\a':
-                fprintf(json->file, "\\a");
-                break;
-
-            case U'\v':
-                fprintf(json->file, "\\v");
-                break;
-
-            case U'\?':
-                fprintf(json->file, "\\?");
-                break;
-
-            case U'\0':
-                fprintf(json->file, "\\u0000");
-                break;
-
-            default:
-                fputc(chr, json->file);
-                break;
-        }
-    }
-    fprintf(json->file, "\"");
+    REQUIRE_OK(format_string(json, value, length, true));
     return KEFIR_OK;
 }
 
-- 
2.43.0

