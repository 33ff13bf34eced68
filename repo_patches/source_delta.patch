From 437d6a2f7d10c1fdad86ae6848e24f94d6b4d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:15 +0000
Subject: [PATCH 01/58] fix: reject string and character literals that reach
 the end of the file

---
 src/lexer/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 4b6600e..b2cf2cd 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -118,6 +118,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
         case '\n':
             err = new_error("newline appeared in character constant");
             break;
+        case EOF:
+            err = new_error("end of file appeared in character constant");
+            break;
         case '\'':
             err = new_error("character constant is empty");
             break;
@@ -139,6 +142,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in character constant");
                 break;
+            case EOF:
+                err = new_error("end of file appeared in character constant");
+                break;
             default:
                 break;
         }
@@ -176,6 +182,9 @@ LexerReturnItem* read_string_literal(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in string literal");
                 break;
+            case EOF:
+                err = new_error("end of file appeared in string literal");
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 89620ab96a327e2e318239bd1b2d5be491a2e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:39 +0000
Subject: [PATCH 02/58] fix: do not take the byte 0xff in a source file for the
 end of the file

---
 src/lexer/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/util.c b/src/lexer/util.c
index 3922573..7b0d9df 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -204,7 +204,7 @@ int get_content_top(Lexer* lexer) {
     if (lexer->content_index >= lexer->content_size) {
         return EOF;
     }
-    return lexer->content[lexer->content_index];
+    return (unsigned char)lexer->content[lexer->content_index];
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
-- 
2.43.0


From c566fd48eb64f122501233e291875229f007b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:48 +0000
Subject: [PATCH 03/58] fix: give character constants above 0x7f the value of a
 signed char

---
 src/resolver/expression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c54ba79..0f3e1a1 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1655,7 +1655,8 @@ ResolverReturn* resolve_character_expr(Resolver* resolver) {
     Ast* ast = resolver->ast;
 
     DType* dtype = new_integer_dtype(DTYPE_INT);
-    IntegerLiteral* iliteral = iliteral_copy(ast->iliteral);
+    // plain char is signed: the value of a character constant is that of a char converted to int
+    IntegerLiteral* iliteral = new_signed_iliteral(INTEGER_INT, (signed char)ast->iliteral->signed_value);
     srt = new_iliteral_srt(dtype, iliteral);
     return new_resolverret(srt);
 }
-- 
2.43.0


From 359406347934c616858a6d7a83beefaefdb35fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:10 +0000
Subject: [PATCH 04/58] fix: give integer constants the type C derives from
 their value

---
 src/lexer/util.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lexer/util.c b/src/lexer/util.c
index 7b0d9df..5e99a54 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,7 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -208,12 +209,24 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    unsigned long long unsigned_value = strtoull(value, NULL, base);
+
+    // choose the first type of the list given by base and suffix in which the value can be represented
+    if (type == INTEGER_INT && unsigned_value > INT_MAX) {
+        type = base != 10 && unsigned_value <= UINT_MAX ? INTEGER_UNSIGNED_INT : INTEGER_LONG;
+    } else if (type == INTEGER_UNSIGNED_INT && unsigned_value > UINT_MAX) {
+        type = INTEGER_UNSIGNED_LONG;
+    }
+    if (type == INTEGER_LONG && unsigned_value > LONG_MAX) {
+        type = INTEGER_UNSIGNED_LONG;
+    } else if (type == INTEGER_LONGLONG && unsigned_value > LLONG_MAX) {
+        type = INTEGER_UNSIGNED_LONGLONG;
+    }
+
     if (iliteral_type_isunsigned(type)) {
-        unsigned long long unsigned_value = strtoull(value, NULL, base);
         return new_unsigned_iliteral(type, unsigned_value);
     } else {
-        long long signed_value = strtoll(value, NULL, base);
-        return new_signed_iliteral(type, signed_value);
+        return new_signed_iliteral(type, (long long)unsigned_value);
     }
 }
 
-- 
2.43.0


From ed85d8f44645ca0309cefc55760bf1bf1f0130d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:36 +0000
Subject: [PATCH 05/58] fix: reject source files with null characters instead
 of ignoring the rest

---
 src/freader/freader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 83b86a5..5a3879e 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -1,6 +1,7 @@
 #include "./freader.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 FileReader* new_freader(FILE* file_ptr) {
     FileReader* freader = malloc(sizeof(FileReader));
@@ -25,6 +26,12 @@ FileReaderReturn* freader_read(FileReader* freader) {
     file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
     file_content[file_size] = '\0';
 
+    if (memchr(file_content, '\0', file_size) != NULL) {
+        free(file_content);
+        err = new_error("file contains a null character");
+        return new_freaderret_error(err);
+    }
+
     file_content = realloc(file_content, file_size + 1);
     return new_freaderret(file_content);
 }
-- 
2.43.0


From de85f6605bb916a803db5b333f0da7021055fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:37 +0000
Subject: [PATCH 06/58] fix: report an output file that cannot be written

---
 src/main.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c6ae2ec..781bd13 100644
--- a/src/main.c
+++ b/src/main.c
@@ -102,6 +102,12 @@ int main(int argc, char* argv[]) {
     char* dst_filename = new_string(argv[1]);
     dst_filename[src_filename_len - 1] = 's';
     FILE* dst = fopen(dst_filename, "w");
+    if (dst == NULL) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: cannot open file\n", dst_filename);
+        free(dst_filename);
+        delete_vector(x64codes);
+        return 1;
+    }
     free(dst_filename);
 
     int x64codes_len = vector_size(x64codes);
@@ -110,9 +116,14 @@ int main(int argc, char* argv[]) {
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-    fclose(dst);
 
     delete_vector(x64codes);
 
+    int write_failed = ferror(dst);
+    if (fclose(dst) != 0 || write_failed) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: fail to write assembly\n");
+        return 1;
+    }
+
     return 0;
 }
-- 
2.43.0


From 906e90122acada80a527f0dbb452ee64df5ecba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:49 +0000
Subject: [PATCH 07/58] fix: size the buffers for assembly text and messages by
 the names they hold

---
 src/error/error.c | 10 ++++++----
 src/x64/data.c    |  5 +++--
 src/x64/inst.c    | 12 +++++++++---
 src/x64/label.c   |  7 ++++---
 src/x64/ope.c     |  4 ++--
 5 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/error/error.c b/src/error/error.c
index 36faa7b..e41a5b3 100644
--- a/src/error/error.c
+++ b/src/error/error.c
@@ -13,13 +13,15 @@ BaseType t_error = {
 Error* new_error(char* format, ...) {
     Error* err = malloc(sizeof(Error));
 
-    // TODO: fix to prevent buffer overflow
-    char* message = malloc(200 * sizeof(char));
     va_list arg;
     va_start(arg, format);
-    vsprintf(message, format, arg);
+    int length = vsnprintf(NULL, 0, format, arg);
+    va_end(arg);
+
+    char* message = malloc((length + 1) * sizeof(char));
+    va_start(arg, format);
+    vsnprintf(message, length + 1, format, arg);
     va_end(arg);
-    message = realloc(message, (strlen(message) + 1) * sizeof(char));
 
     err->message = message;
 
diff --git a/src/x64/data.c b/src/x64/data.c
index 22b322d..337b37b 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -45,8 +45,9 @@ X64Data* x64data_copy(X64Data* x64data) {
 }
 
 char* x64data_tostring(X64Data* x64data) {
-    // TODO: fix to prevent buffer overflow
-    char* data_str = malloc(200 * sizeof(char));
+    // a byte of a string takes at most 4 characters
+    int capacity = 200 + (x64data->sliteral != NULL ? 4 * x64data->sliteral->size : 0);
+    char* data_str = malloc(capacity * sizeof(char));
     char* display_str = NULL;
 
     switch (x64data->type) {
diff --git a/src/x64/inst.c b/src/x64/inst.c
index 974e08e..0cdadb5 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -41,9 +41,15 @@ X64Inst* x64inst_copy(X64Inst* x64inst) {
 char* x64inst_tostring(X64Inst* x64inst) {
     char* x64instcode_tostring(X64Inst * x64inst);
 
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
+    int capacity = 200;
+    if (x64inst->src != NULL && x64inst->src->label_name != NULL) {
+        capacity += strlen(x64inst->src->label_name);
+    }
+    if (x64inst->dst != NULL && x64inst->dst->label_name != NULL) {
+        capacity += strlen(x64inst->dst->label_name);
+    }
+    char* code_str = malloc(capacity * sizeof(char));
+    memset(code_str, 0, capacity * sizeof(char));
 
     char* instcode_string = x64instcode_tostring(x64inst);
     strcat(code_str, "\t");
diff --git a/src/x64/label.c b/src/x64/label.c
index f275040..b650a8a 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -25,9 +25,10 @@ X64Label* x64label_copy(X64Label* x64label) {
 }
 
 char* x64label_tostring(X64Label* x64label) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    // section, visibility and label directives (the name appears at most twice)
+    int capacity = 2 * strlen(x64label->name) + 50;
+    char* label_str = malloc(capacity * sizeof(char));
+    memset(label_str, 0, capacity * sizeof(char));
 
     switch (x64label->type) {
         case X64_LABEL_FUNCTION:
diff --git a/src/x64/ope.c b/src/x64/ope.c
index ede4d99..55056ab 100644
--- a/src/x64/ope.c
+++ b/src/x64/ope.c
@@ -103,8 +103,8 @@ X64Ope* x64ope_copy(X64Ope* x64ope) {
 }
 
 char* x64ope_tostring(X64Ope* x64ope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    int capacity = 50 + (x64ope->label_name != NULL ? strlen(x64ope->label_name) : 0);
+    char* ope_str = malloc(capacity * sizeof(char));
 
     switch (x64ope->type) {
         case X64_OPERAND_SUFFIX:
-- 
2.43.0


From 26984940500f5286a7b38751c641b5fe9e7562e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:51 +0000
Subject: [PATCH 08/58] fix: emit string bytes above 0x7f as they are

---
 src/literal/sliteral.c | 2 +-
 src/x64gen/datainst.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/literal/sliteral.c b/src/literal/sliteral.c
index a204574..5163074 100644
--- a/src/literal/sliteral.c
+++ b/src/literal/sliteral.c
@@ -48,7 +48,7 @@ char* sliteral_display_string(StringLiteral* sliteral) {
     len++;
 
     for (int i = 0; i < sliteral->size; i++) {
-        int c = sliteral->value[i];
+        int c = (unsigned char)sliteral->value[i];
         char* found = strchr(ascii, c);
         if (found != NULL && *found != '\0') {
             sprintf(display_string + len, "%c", c);
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index db844d8..79c9dc3 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -112,7 +112,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     while (index_offset + unit_size <= immc_src->sliteral->size) {
         unsigned long long unit_value = 0ull;
         for (int i = 0; i < unit_size; i++) {
-            unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
             unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
         }
 
@@ -154,7 +154,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
     unsigned long long unit_value = 0ull;
     for (int i = 0; i < num_rest_bytes; i++) {
-        unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+        unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
         unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
     }
 
-- 
2.43.0


From 72acddeb9215fcaf63cbcbf3cf4c08c7412d1b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:57 +0000
Subject: [PATCH 09/58] fix: zero-fill unsigned and long elements of partly
 initialized aggregates

---
 src/resolver/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c2b5219..1f7f4dc 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1070,6 +1070,11 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
     switch (dtype->type) {
         case DTYPE_CHAR:
         case DTYPE_INT:
+        case DTYPE_UNSIGNED_INT:
+        case DTYPE_LONG:
+        case DTYPE_UNSIGNED_LONG:
+        case DTYPE_LONGLONG:
+        case DTYPE_UNSIGNED_LONGLONG:
         case DTYPE_POINTER:
             // resolve_zero_scalar_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_scalar_initializer(resolver));
-- 
2.43.0


From 415030c412c0e092a17c0db3982e3373ffbbf6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:57 +0000
Subject: [PATCH 10/58] fix: step over the trailing padding of structures in
 local initializers

---
 src/immcgen/declaration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 67535f2..5954fd3 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -243,6 +243,7 @@ Vector* gen_local_struct_initializer_immcode(Immcgen* immcgen) {
         immcgen->initialized_offset = offset - member->memory_offset;
         append_child_immcode(immcgen, codes, i);
     }
+    immcgen->initialized_offset = offset - dtype_nbytes(dtype);
 
     return codes;
 }
-- 
2.43.0


From d7c6e47e6e1ad934e58a6952636c70a74e65d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:09 +0000
Subject: [PATCH 11/58] fix: accept strings without braces for character arrays
 inside aggregates

---
 src/resolver/declaration.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 1f7f4dc..f8ffe0b 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1181,7 +1181,10 @@ ResolverReturn* resolve_aggregate_initializer(Resolver* resolver) {
 
         resolver->initialized_dtype = dtype_aggregate_at(dtype, aggregate_index);
 
-        if (dtype_isaggregate(resolver->initialized_dtype) && child_ast->type != AST_INIT_LIST) {
+        int is_string = child_ast->type == AST_STRING_EXPR && resolver->initialized_dtype->type == DTYPE_ARRAY &&
+                        resolver->initialized_dtype->darray->of_dtype->type == DTYPE_CHAR;
+
+        if (dtype_isaggregate(resolver->initialized_dtype) && child_ast->type != AST_INIT_LIST && !is_string) {
             resolver->ast = ast;
             resolver->is_nested_initializing = 1;
             resolverret_assign(&child_srt, &child_errs, resolve_initializer(resolver));
-- 
2.43.0


From 09bf97cae8b91c4906cdef75680e09e15cd1f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:09 +0000
Subject: [PATCH 12/58] fix: keep local string initializers inside the array
 they initialize

---
 src/immcgen/declaration.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 5954fd3..286f190 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -7,6 +7,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 Vector* gen_decl_list_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
@@ -181,10 +182,24 @@ Vector* gen_local_string_initializer_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
     Srt* srt = vector_at(immcgen->srt->children, 0);
 
-    ImmcOpe* dst = new_mem_immcope(immcgen->initialized_offset);
-    ImmcOpe* src = new_str_immcope(sliteral_copy(srt->sliteral));
+    // the last bytes are stored as a unit of 1, 2, 4 or 8 bytes, which never goes beyond the next multiple of 4
+    // if the string starts at one; a string which does not is split into the units which fit into it
+    int size = srt->sliteral->size, index = 0;
+    int is_aligned = immcgen->initialized_offset % 4 == 0;
+    for (int unit = 8; index < size; unit /= 2) {
+        int length = is_aligned ? size : (size - index) / unit * unit;
+        if (length == 0) {
+            continue;
+        }
 
-    vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
+        char* value = malloc(length * sizeof(char));
+        memcpy(value, srt->sliteral->value + index, length);
+
+        ImmcOpe* dst = new_mem_immcope(immcgen->initialized_offset - index);
+        ImmcOpe* src = new_str_immcope(new_sliteral(value, length));
+        vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
+        index += length;
+    }
     immcgen->initialized_offset -= dtype_nbytes(immcgen->initialized_dtype);
 
     return codes;
-- 
2.43.0


From 096e7ca7094e0c35572662627abf800fe23d13c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:34 +0000
Subject: [PATCH 13/58] fix: do not keep values in the frame pointer across
 calls

---
 src/x64/register.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index de17f15..b187388 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -10,7 +10,7 @@ int CALLER_SAVED_REG_IDS[8] = {CX_REG_ID, DX_REG_ID, SI_REG_ID,  DI_REG_ID,
                                R8_REG_ID, R9_REG_ID, R10_REG_ID, R11_REG_ID};
 
 int NUM_CALLEE_SAVED_REGS = 5;
-int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, BP_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID};
+int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID, R15_REG_ID};
 
 char* PC_NAME = "%rip";
 
-- 
2.43.0


From 2f66431a7587e736a75f643b2ab3b70b8de19b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:49 +0000
Subject: [PATCH 14/58] fix: dereference the register which holds the pointer
 value

---
 src/immcgen/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index e9ce2b6..4e9a86a 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -181,7 +181,7 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
     }
 
     append_child_immcode(immcgen, codes, index);
-    return new_ptr_immcope(immcgen->next_reg_id);
+    return new_ptr_immcope(immcgen->expr_reg->reg_id);
 }
 
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
-- 
2.43.0


From 571edb286e68b3190c1f7282ac14ec77143ca00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:26 +0000
Subject: [PATCH 15/58] fix: convert the value at every cast of a chain of
 casts

---
 src/immcgen/util.c | 68 ++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 4e9a86a..72b10d3 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -104,44 +104,50 @@ void update_void_expr_register(Immcgen* immcgen) {
 }
 
 ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
+    ImmcOpe* gen_load_immcope(Immcgen * immcgen, Vector * codes, ImmcSuffix suffix, int is_unsigned, ImmcOpe* src);
+
     Srt* srt = immcgen->srt;
     Srt* child_srt = vector_at(srt->children, index);
 
-    DType* cast_dtype = NULL;
-    if (child_srt->type == SRT_CAST_EXPR) {
-        cast_dtype = child_srt->dtype;
-    }
-    while (child_srt->type == SRT_CAST_EXPR) {
-        immcgen->srt = child_srt;
-        index = 0;
-        child_srt = vector_at(child_srt->children, index);
-    }
-
     if (child_srt->type == SRT_ILITERAL_EXPR) {
-        immcgen->srt = srt;
-        DType* iliteral_dtype = cast_dtype == NULL ? child_srt->dtype : cast_dtype;
-        IntegerLiteral* iliteral = create_dtyped_iliteral(iliteral_dtype, child_srt->iliteral);
-        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(iliteral_dtype));
+        IntegerLiteral* iliteral = create_dtyped_iliteral(child_srt->dtype, child_srt->iliteral);
+        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
         return new_int_immcope(suffix, iliteral);
     }
 
-    append_child_immcode(immcgen, codes, index);
-    immcgen->srt = srt;
-
-    if (cast_dtype == NULL) {
+    if (child_srt->type != SRT_CAST_EXPR) {
+        append_child_immcode(immcgen, codes, index);
         ImmcRegister* reg = immcreg_copy(immcgen->expr_reg);
         return new_reg_immcope(immcgen->expr_reg_suffix, reg);
     }
 
-    ImmcRegister* src_reg = immcreg_copy(immcgen->expr_reg);
-    ImmcOpe* src = new_reg_immcope(immcgen->expr_reg_suffix, src_reg);
-
-    int cast_is_unsigned = dtype_isunsignedinteger(cast_dtype);
+    DType* cast_dtype = child_srt->dtype;
     ImmcSuffix cast_suffix = immcsuffix_get(dtype_nbytes(cast_dtype));
 
+    // casting beforehand to a type which is not smaller does not change the value
+    Srt* casted_srt = vector_at(child_srt->children, 0);
+    while (casted_srt->type == SRT_CAST_EXPR && dtype_nbytes(casted_srt->dtype) >= dtype_nbytes(cast_dtype)) {
+        child_srt = casted_srt;
+        casted_srt = vector_at(child_srt->children, 0);
+    }
+
+    immcgen->srt = child_srt;
+    ImmcOpe* src = gen_child_int_immcope(immcgen, codes, 0);
+    immcgen->srt = srt;
+
+    if (src->type == IMMC_OPERAND_INT) {
+        IntegerLiteral* iliteral = create_dtyped_iliteral(cast_dtype, src->iliteral);
+        delete_immcope(src);
+        return new_int_immcope(cast_suffix, iliteral);
+    }
+
+    return gen_load_immcope(immcgen, codes, cast_suffix, dtype_isunsignedinteger(cast_dtype), src);
+}
+
+ImmcOpe* gen_load_immcope(Immcgen* immcgen, Vector* codes, ImmcSuffix suffix, int is_unsigned, ImmcOpe* src) {
     immcgen->next_reg_id++;
-    ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, cast_is_unsigned);
-    ImmcOpe* dst = new_reg_immcope(cast_suffix, dst_reg);
+    ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, is_unsigned);
+    ImmcOpe* dst = new_reg_immcope(suffix, dst_reg);
 
     vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
     return immcope_copy(dst);
@@ -193,15 +199,17 @@ ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
 
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
     int rank = dtype_scalar_rank(dtype);
+    int unused_bits = 64 - 8 * dtype_nbytes(dtype);
+
+    unsigned long long value =
+        iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
+    value <<= unused_bits;
 
     if (dtype_isunsignedinteger(dtype)) {
-        unsigned long long value =
-            iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
         IntegerLiteralType type = iliteral_type_get(rank, 1);
-        return new_unsigned_iliteral(type, value);
+        return new_unsigned_iliteral(type, value >> unused_bits);
     } else {
-        long long value = iliteral_isunsigned(iliteral) ? (long long)iliteral->unsigned_value : iliteral->signed_value;
         IntegerLiteralType type = iliteral_type_get(rank, 0);
-        return new_signed_iliteral(type, value);
+        return new_signed_iliteral(type, (long long)value >> unused_bits);
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 662eff27c8da5b37c4f4c947b8cd5916ea738c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 16/58] fix: load 64-bit constants into registers where
 instructions cannot hold them

---
 src/immcgen/util.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 72b10d3..0e133b6 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -2,6 +2,7 @@
 #include "../error/errint.h"
 #include "../immc/immc.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 
@@ -105,6 +106,7 @@ void update_void_expr_register(Immcgen* immcgen) {
 
 ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     ImmcOpe* gen_load_immcope(Immcgen * immcgen, Vector * codes, ImmcSuffix suffix, int is_unsigned, ImmcOpe* src);
+    ImmcOpe* gen_immediate_immcope(Immcgen * immcgen, Vector * codes, ImmcOpe * immediate);
 
     Srt* srt = immcgen->srt;
     Srt* child_srt = vector_at(srt->children, index);
@@ -112,7 +114,7 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     if (child_srt->type == SRT_ILITERAL_EXPR) {
         IntegerLiteral* iliteral = create_dtyped_iliteral(child_srt->dtype, child_srt->iliteral);
         ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
-        return new_int_immcope(suffix, iliteral);
+        return gen_immediate_immcope(immcgen, codes, new_int_immcope(suffix, iliteral));
     }
 
     if (child_srt->type != SRT_CAST_EXPR) {
@@ -138,12 +140,25 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     if (src->type == IMMC_OPERAND_INT) {
         IntegerLiteral* iliteral = create_dtyped_iliteral(cast_dtype, src->iliteral);
         delete_immcope(src);
-        return new_int_immcope(cast_suffix, iliteral);
+        return gen_immediate_immcope(immcgen, codes, new_int_immcope(cast_suffix, iliteral));
     }
 
     return gen_load_immcope(immcgen, codes, cast_suffix, dtype_isunsignedinteger(cast_dtype), src);
 }
 
+ImmcOpe* gen_immediate_immcope(Immcgen* immcgen, Vector* codes, ImmcOpe* immediate) {
+    ImmcOpe* gen_load_immcope(Immcgen * immcgen, Vector * codes, ImmcSuffix suffix, int is_unsigned, ImmcOpe* src);
+
+    // instructions other than LOAD to a register have immediate operands of at most 32 bits which are sign-extended
+    IntegerLiteral* iliteral = immediate->iliteral;
+    int is_unsigned = iliteral_isunsigned(iliteral);
+    long long value = is_unsigned ? (long long)iliteral->unsigned_value : iliteral->signed_value;
+    if (immediate->suffix != IMMC_SUFFIX_QUAD || (INT_MIN <= value && value <= INT_MAX)) {
+        return immediate;
+    }
+    return gen_load_immcope(immcgen, codes, immediate->suffix, is_unsigned, immediate);
+}
+
 ImmcOpe* gen_load_immcope(Immcgen* immcgen, Vector* codes, ImmcSuffix suffix, int is_unsigned, ImmcOpe* src) {
     immcgen->next_reg_id++;
     ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, is_unsigned);
-- 
2.43.0


From 73f1756ff41096d7188f6134b2c108619e945e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:31 +0000
Subject: [PATCH 17/58] fix: generate code for casts whose value is
 dereferenced or not used

---
 src/immcgen/expression.c  | 21 +++++++++++++++++++++
 src/immcgen/expression.h  |  1 +
 src/immcgen/immcgen.c     |  3 +++
 src/resolver/expression.c |  3 +++
 4 files changed, 28 insertions(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 7e63e31..14fd801 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -347,6 +347,27 @@ Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+Vector* gen_cast_expr_immcode(Immcgen* immcgen) {
+    Vector* codes = new_vector(&t_immc);
+    Srt* srt = immcgen->srt;
+
+    if (srt->dtype->type == DTYPE_VOID) {
+        append_child_immcode(immcgen, codes, 0);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
+    immcgen->srt = new_dtyped_srt(SRT_POS_EXPR, dtype_copy(srt->dtype), 1, srt_copy(srt));
+    ImmcOpe* dst = gen_child_reg_immcope(immcgen, codes, 0);
+    delete_srt(immcgen->srt);
+    immcgen->srt = srt;
+
+    update_non_void_expr_register(immcgen, dst);
+
+    delete_immcope(dst);
+    return codes;
+}
+
 Vector* gen_unary_expr_immcode(Immcgen* immcgen) {
     Vector* codes = NULL;
     Srt* srt = immcgen->srt;
diff --git a/src/immcgen/expression.h b/src/immcgen/expression.h
index 29d4d84..ea5618a 100644
--- a/src/immcgen/expression.h
+++ b/src/immcgen/expression.h
@@ -15,6 +15,7 @@ Vector* gen_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen);
 Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen);
+Vector* gen_cast_expr_immcode(Immcgen* immcgen);
 Vector* gen_unary_expr_immcode(Immcgen* immcgen);
 Vector* gen_postfix_expr_immcode(Immcgen* immcgen);
 Vector* gen_primary_expr_immcode(Immcgen* immcgen);
diff --git a/src/immcgen/immcgen.c b/src/immcgen/immcgen.c
index 42c1bdf..7272f05 100644
--- a/src/immcgen/immcgen.c
+++ b/src/immcgen/immcgen.c
@@ -145,6 +145,9 @@ Vector* immcgen_generate_immcode(Immcgen* immcgen) {
         case SRT_MOD_EXPR:
             codes = gen_multiplicative_expr_immcode(immcgen);
             break;
+        case SRT_CAST_EXPR:
+            codes = gen_cast_expr_immcode(immcgen);
+            break;
         case SRT_PREDEC_EXPR:
         case SRT_PREINC_EXPR:
         case SRT_ADDR_EXPR:
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 0f3e1a1..c7a1426 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -961,6 +961,9 @@ ResolverReturn* resolve_cast_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    child_srt = convert_to_ptr_if_array(child_srt);
+    child_srt = convert_to_ptr_if_function(child_srt);
+
     if (dtype->type != DTYPE_VOID && (!dtype_isscalar(dtype) || !dtype_isscalar(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("cast should be from an any type to void or from a scalar type to scalar type");
-- 
2.43.0


From e23caee246d193185a0ce9c842610406dc71912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:35 +0000
Subject: [PATCH 18/58] fix: compute differences of pointers with a signed
 division

---
 src/immcgen/expression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 14fd801..887c9ab 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -303,6 +303,7 @@ Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen) {
     ImmcOpe* fst_src = gen_child_reg_immcope(immcgen, codes, 0);
     ImmcOpe* snd_src = gen_child_reg_immcope(immcgen, codes, 1);
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+    dst->reg->is_unsigned = 0;
 
     Srt* lhs_srt = vector_at(srt->children, 0);
     int nbytes = dtype_nbytes(lhs_srt->dtype->dpointer->to_dtype);
-- 
2.43.0


From f7b16f4103ceacb12a81046485a34b283aaf844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 19/58] fix: give shifts the type of their left operand

---
 src/resolver/expression.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c7a1426..6d06f2c 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -677,9 +677,13 @@ ResolverReturn* resolve_shift_expr(Resolver* resolver) {
     rhs_srt = convert_to_ptr_if_array(rhs_srt);
     rhs_srt = convert_to_ptr_if_function(rhs_srt);
 
-    Pair* srt_pair = new_pair(&t_srt, &t_srt);
-    pair_set(srt_pair, lhs_srt, rhs_srt);
-    pair_assign((void**)&lhs_srt, (void**)&rhs_srt, perform_usual_arithmetic_conversion(srt_pair));
+    // the result has the type of the promoted left operand, which can represent all valid right operands
+    lhs_srt = perform_integer_promotion(lhs_srt);
+    rhs_srt = perform_integer_promotion(rhs_srt);
+    if (dtype_isinteger(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype) &&
+        !dtype_equals(lhs_srt->dtype, rhs_srt->dtype)) {
+        rhs_srt = new_dtyped_srt(SRT_CAST_EXPR, dtype_copy(lhs_srt->dtype), 1, rhs_srt);
+    }
 
     switch (ast->type) {
         case AST_LSHIFT_EXPR:
-- 
2.43.0


From ee09dcff987e47fb9b4daa232cd23a0aeeac5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:21 +0000
Subject: [PATCH 20/58] fix: promote integers added to or subtracted from
 pointers

---
 src/resolver/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 6d06f2c..037fdd1 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -785,10 +785,12 @@ ResolverReturn* resolve_add_expr(Resolver* resolver) {
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
+        rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (dtype_isinteger(lhs_srt->dtype) && rhs_srt->dtype->type == DTYPE_POINTER) {
         dtype = dtype_copy(rhs_srt->dtype);
+        lhs_srt = perform_integer_promotion(lhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, rhs_srt, lhs_srt);
         return new_resolverret(srt);
     }
@@ -841,6 +843,7 @@ ResolverReturn* resolve_subtract_expr(Resolver* resolver) {
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
+        rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PSUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && rhs_srt->dtype->type == DTYPE_POINTER &&
@@ -1321,6 +1324,7 @@ ResolverReturn* resolve_subscription_expr(Resolver* resolver) {
     }
 
     dtype = dtype_copy(lhs_srt->dtype);
+    rhs_srt = perform_integer_promotion(rhs_srt);
     srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
     srt = new_dtyped_srt(SRT_INDIR_EXPR, dtype_copy(lhs_srt->dtype->dpointer->to_dtype), 1, srt);
     return new_resolverret(srt);
-- 
2.43.0


From cb0c3efc02eb6a889117b3fa5a224137af6896c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:58 +0000
Subject: [PATCH 21/58] fix: widen the result of a comparison from the register
 it was set in

---
 src/x64gen/bitinst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 17d3632..792f401 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -111,7 +111,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
     vector_push(codes, new_inst_x64(type, NULL, dst));
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, dst_id);
     append_mov_code(codes, dst_mov_src, dst_mov_dst, 1);
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From c8b37f3f3c6c5b1fc9407c818bf68cf6464dfeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 22/58] fix: shift unsigned values to the right logically

---
 src/x64/inst.c         | 9 +++++----
 src/x64/inst.h         | 1 +
 src/x64gen/shrotinst.c | 6 ++++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/x64/inst.c b/src/x64/inst.c
index 0cdadb5..821dd4b 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -11,10 +11,10 @@
 
 char* x64_inst_formats[] = {"mov%c",  "movs%c%c", "movz%c%c", "movabs%c", "lea%c",  "c%ct%c", "c%ctd",  "cqto",
                             "push%c", "pop%c",    "add%c",    "sub%c",    "imul%c", "div%c",  "idiv%c", "neg%c",
-                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "cmp%c",  "sete",
-                            "setne",  "seta",     "setae",    "setb",     "setbe",  "setg",   "setge",  "setl",
-                            "setle",  "jmp",      "je",       "jne",      "ja",     "jae",    "jb",     "jbe",
-                            "jg",     "jge",      "jl",       "jle",      "call",   "ret"};
+                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "shr%c",  "cmp%c",
+                            "sete",   "setne",    "seta",     "setae",    "setb",   "setbe",  "setg",   "setge",
+                            "setl",   "setle",    "jmp",      "je",       "jne",    "ja",     "jae",    "jb",
+                            "jbe",    "jg",       "jge",      "jl",       "jle",    "call",   "ret"};
 
 X64Inst* new_x64inst(X64InstType type, X64Ope* src, X64Ope* dst) {
     X64Inst* x64inst = malloc(sizeof(X64Inst));
@@ -114,6 +114,7 @@ char* x64instcode_tostring(X64Inst* x64inst) {
         case X64_INST_XORX:
         case X64_INST_SALX:
         case X64_INST_SARX:
+        case X64_INST_SHRX:
         case X64_INST_CMPX: {
             // TODO: fix to prevent buffer overflow
             char* instcode_str = malloc(50 * sizeof(char));
diff --git a/src/x64/inst.h b/src/x64/inst.h
index 3109fe0..8d26e39 100644
--- a/src/x64/inst.h
+++ b/src/x64/inst.h
@@ -33,6 +33,7 @@ typedef enum X64InstType {
     // shift/rotate instructions
     X64_INST_SALX,
     X64_INST_SARX,
+    X64_INST_SHRX,
 
     // bit/byte instructions
     X64_INST_CMPX,
diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 23d40d5..960340e 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -12,6 +12,12 @@ Vector* gen_sal_x64code(X64gen* x64gen) {
 }
 
 Vector* gen_sar_x64code(X64gen* x64gen) {
+    Immc* immc = vector_at(x64gen->immcs, x64gen->index);
+    ImmcOpe* immc_fst_src = immc->inst->fst_src;
+
+    if (immc_fst_src->reg->is_unsigned) {
+        return gen_shrot_common_x64code(x64gen, X64_INST_SHRX);
+    }
     return gen_shrot_common_x64code(x64gen, X64_INST_SARX);
 }
 
-- 
2.43.0


From c100ec11030c572a0e7316aab827138dd825a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:47 +0000
Subject: [PATCH 23/58] fix: clear the upper half of registers when narrowing
 to 32 bits in place

---
 src/x64gen/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 1cb285c..6cfd68a 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -25,7 +25,9 @@ void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned) {
 }
 
 void append_mov_code_simple(Vector* codes, X64Ope* src, X64Ope* dst) {
-    if (src->reg_id == dst->reg_id) {
+    // a long is zero-extended in its register, which a narrowing to it in place has to establish
+    int narrows_to_long = src->suffix > X64_SUFFIX_LONG && dst->suffix == X64_SUFFIX_LONG;
+    if (src->reg_id == dst->reg_id && !narrows_to_long) {
         delete_x64ope(src);
         delete_x64ope(dst);
         return;
-- 
2.43.0


From 0105854bb8f41d4c0dd83d9c134b7670aa422a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:05 +0000
Subject: [PATCH 24/58] fix: generate shifts by counts which are not constant

---
 src/x64gen/shrotinst.c | 62 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 960340e..1f83b48 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 
 Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type);
+Vector* gen_shrot_reg_x64code(X64gen* x64gen, X64InstType type, Immc* immc, Vector* codes);
 
 Vector* gen_sal_x64code(X64gen* x64gen) {
     return gen_shrot_common_x64code(x64gen, X64_INST_SALX);
@@ -36,6 +37,10 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     X64Suffix snd_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_snd_src->suffix));
     X64Suffix suffix = x64suffix_greater(fst_src_suffix, snd_src_suffix);
 
+    if (immc_snd_src->type == IMMC_OPERAND_REG) {
+        return gen_shrot_reg_x64code(x64gen, type, immc, codes);
+    }
+
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, fst_src_id);
@@ -65,3 +70,60 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     liveseqs_next(x64gen->liveseqs);
     return codes;
 }
+
+Vector* gen_shrot_reg_x64code(X64gen* x64gen, X64InstType type, Immc* immc, Vector* codes) {
+    ImmcOpe* immc_dst = immc->inst->dst;
+    ImmcOpe* immc_fst_src = immc->inst->fst_src;
+    ImmcOpe* immc_snd_src = immc->inst->snd_src;
+
+    int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
+    int fst_src_id = CALLER_SAVED_REG_IDS[immc_fst_src->reg->reg_id];
+    int snd_src_id = CALLER_SAVED_REG_IDS[immc_snd_src->reg->reg_id];
+
+    X64Suffix suffix = x64suffix_get(immcsuffix_tonbytes(immc_fst_src->suffix));
+
+    X64Ope* ax_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
+    X64Ope* ax_mov_src = new_reg_x64ope(suffix, fst_src_id);
+    append_mov_code(codes, ax_mov_src, ax_mov_dst, immc_fst_src->reg->is_unsigned);
+
+    int cx_needs_evacuation = 0;
+    if (fst_src_id != CX_REG_ID && snd_src_id != CX_REG_ID && dst_id != CX_REG_ID) {
+        Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+        int* cx_reg_id_ref = new_integer(CX_REG_ID);
+        cx_needs_evacuation = set_contains(alive_regs_set, cx_reg_id_ref);
+        free(cx_reg_id_ref);
+        delete_set(alive_regs_set);
+    }
+
+    if (cx_needs_evacuation) {
+        X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[0]);
+        X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+        append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+    }
+
+    X64Ope* cx_mov_dst = new_reg_x64ope(X64_SUFFIX_BYTE, CX_REG_ID);
+    X64Ope* cx_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, snd_src_id);
+    append_mov_code(codes, cx_mov_src, cx_mov_dst, 0);
+
+    X64Ope* ax = new_reg_x64ope(suffix, AX_REG_ID);
+    X64Ope* cx = new_reg_x64ope(X64_SUFFIX_BYTE, CX_REG_ID);
+    vector_push(codes, new_inst_x64(type, cx, ax));
+
+    X64Suffix dst_suffix = x64suffix_get(immcsuffix_tonbytes(immc_dst->suffix));
+
+    X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(suffix, AX_REG_ID);
+    append_mov_code(codes, dst_mov_src, dst_mov_dst, immc_dst->reg->is_unsigned);
+
+    if (cx_needs_evacuation) {
+        X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+        X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[0]);
+        append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+        if (x64gen->evacuation_count < 1) {
+            x64gen->evacuation_count = 1;
+        }
+    }
+
+    liveseqs_next(x64gen->liveseqs);
+    return codes;
+}
-- 
2.43.0


From 93289cdd34841557abaefb625d37b91cdd7d4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:12 +0000
Subject: [PATCH 25/58] fix: keep live values out of the register that holds
 constant divisors

---
 src/x64gen/arithinst.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index 7181bc3..9559890 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -160,6 +160,7 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
     int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
     int fst_src_id = CALLER_SAVED_REG_IDS[immc_fst_src->reg->reg_id];
     int snd_src_id = -1;
+    int tmp_needs_evacuation = 0;
 
     X64Suffix fst_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_fst_src->suffix));
     X64Suffix snd_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_snd_src->suffix));
@@ -169,6 +170,17 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
         case IMMC_OPERAND_INT: {
             snd_src_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
 
+            if (fst_src_id != snd_src_id && dst_id != snd_src_id) {
+                Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+                tmp_needs_evacuation = set_contains(alive_regs_set, &snd_src_id);
+                delete_set(alive_regs_set);
+            }
+            if (tmp_needs_evacuation) {
+                X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[1]);
+                X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, snd_src_id);
+                append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+            }
+
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
             int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
@@ -256,6 +268,14 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
             x64gen->evacuation_count = 1;
         }
     }
+    if (tmp_needs_evacuation) {
+        X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, snd_src_id);
+        X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[1]);
+        append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+        if (x64gen->evacuation_count < 2) {
+            x64gen->evacuation_count = 2;
+        }
+    }
 
     liveseqs_next(x64gen->liveseqs);
     return codes;
-- 
2.43.0


From 49c0b4434875b769df11743dc288689d8014034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:37 +0000
Subject: [PATCH 26/58] fix: align the stack at calls nested in the arguments
 of other calls

---
 src/x64gen/ctrlinst.c | 17 ++++++++++++++---
 src/x64gen/datainst.c |  1 +
 src/x64gen/x64gen.c   |  3 +++
 src/x64gen/x64gen.h   |  2 ++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 222550b..f9f7f98 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -171,6 +171,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (int i = 0; i < num_args && i < NUM_ARG_REGS; i++) {
         X64Ope* arg = new_reg_x64ope(X64_SUFFIX_QUAD, ARG_REG_IDS[i]);
         vector_push(codes, new_inst_x64(X64_INST_POPX, NULL, arg));
+        x64gen->num_pushed_args--;
     }
 
     X64Ope* ret = new_reg_x64ope(X64_SUFFIX_QUAD, AX_REG_ID);
@@ -283,7 +284,12 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS && num_args % 2 == 1) {
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    // arguments of enclosing calls which are already pushed also count for the alignment of the stack
+    int padding = (x64gen->num_pushed_args + num_mem_args) % 2;
+    vector_push(x64gen->call_paddings, new_integer(padding));
+    x64gen->num_pushed_args += padding;
+    if (padding > 0) {
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_SUBX, imm, sp));
@@ -301,8 +307,13 @@ Vector* gen_clean_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS) {
-        int mem_param_offset = ((num_args - NUM_ARG_REGS + 1) / 2) * 16;
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    int* padding_ref = vector_pop(x64gen->call_paddings);
+    int padding = padding_ref != NULL ? *padding_ref : num_mem_args % 2;
+    free(padding_ref);
+    x64gen->num_pushed_args -= num_mem_args + padding;
+    if (num_mem_args + padding > 0) {
+        int mem_param_offset = (num_mem_args + padding) * 8;
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, mem_param_offset);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_ADDX, imm, sp));
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 79c9dc3..b41acdd 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -268,6 +268,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
     x64gen->index++;
 
     ImmcOpe* immc_src = immc->inst->fst_src;
+    x64gen->num_pushed_args++;
 
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index 47c9542..1edf72a 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -18,6 +18,8 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->liveseqs = liveseqs;
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
+    x64gen->num_pushed_args = 0;
+    x64gen->call_paddings = new_vector(&t_integer);
     return x64gen;
 }
 
@@ -160,5 +162,6 @@ Vector* gen_variable_x64code(X64gen* x64gen) {
 void delete_x64gen(X64gen* x64gen) {
     delete_vector(x64gen->immcs);
     delete_vector(x64gen->liveseqs);
+    delete_vector(x64gen->call_paddings);
     free(x64gen);
 }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index 2efe4bc..f0f4cf5 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -9,6 +9,8 @@ typedef struct X64gen {
     Vector* liveseqs;
     int index;
     int evacuation_count;
+    int num_pushed_args;
+    Vector* call_paddings;
 } X64gen;
 
 X64gen* new_x64gen(Vector* immcs, Vector* liveseqs);
-- 
2.43.0


From 070908d3b3fade9f1fc46d9242d9e0367751a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:52 +0000
Subject: [PATCH 27/58] fix: keep more live values across calls than there are
 callee saved registers

---
 src/x64gen/ctrlinst.c | 34 ++++++++++++++++++++++------------
 src/x64gen/x64gen.c   | 15 +++++++++------
 src/x64gen/x64gen.h   |  1 +
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index f9f7f98..a599a4e 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 
 Vector* gen_jcmp_common_x64code(X64gen* x64gen, X64InstType type);
+X64Ope* create_evacuation_x64ope(X64gen* x64gen, int evacuation_index);
 
 Vector* gen_jmp_x64code(X64gen* x64gen) {
     Vector* codes = new_vector(&t_x64);
@@ -138,18 +139,16 @@ Vector* gen_call_x64code(X64gen* x64gen) {
 
     Set* alive_reg_induces_set = create_alive_reg_induces_set(x64gen->liveseqs);
     int evacuation_count = 0;
-    // TODO: consider case that evacuation_count is greater than NUM_CALLEE_SAVED_REG
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
-        int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
-        X64Ope* callee = new_reg_x64ope(X64_SUFFIX_QUAD, callee_id);
+        X64Ope* callee = create_evacuation_x64ope(x64gen, evacuation_count);
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
         X64Ope* caller = new_reg_x64ope(X64_SUFFIX_QUAD, caller_id);
-        append_mov_code(codes, caller, callee, 0);
+        vector_push(codes, new_inst_x64(X64_INST_MOVX, caller, callee));
         evacuation_count++;
     }
 
@@ -199,14 +198,13 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
         X64Ope* caller = new_reg_x64ope(X64_SUFFIX_QUAD, caller_id);
-        int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
-        X64Ope* callee = new_reg_x64ope(X64_SUFFIX_QUAD, callee_id);
-        append_mov_code(codes, callee, caller, 0);
+        X64Ope* callee = create_evacuation_x64ope(x64gen, evacuation_count);
+        vector_push(codes, new_inst_x64(X64_INST_MOVX, callee, caller));
         evacuation_count++;
     }
     if (x64gen->evacuation_count < evacuation_count) {
@@ -228,6 +226,14 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     return codes;
 }
 
+X64Ope* create_evacuation_x64ope(X64gen* x64gen, int evacuation_index) {
+    if (evacuation_index < NUM_CALLEE_SAVED_REGS) {
+        return new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[evacuation_index]);
+    }
+    // memory below the local variables and the callee saved registers
+    return new_mem_x64ope(x64gen->frame_size + (evacuation_index + 1) * 8);
+}
+
 Vector* gen_enter_x64code(X64gen* x64gen) {
     Vector* codes = new_vector(&t_x64);
     Immc* immc = vector_at(x64gen->immcs, x64gen->index);
@@ -235,6 +241,7 @@ Vector* gen_enter_x64code(X64gen* x64gen) {
 
     ImmcOpe* immc_src = immc->inst->fst_src;
     int aligned_memory_size = min_multiple_of(immc_src->iliteral->signed_value, 16);
+    x64gen->frame_size = aligned_memory_size;
 
     X64Ope* bp = NULL;
     X64Ope* sp = NULL;
@@ -308,9 +315,12 @@ Vector* gen_clean_x64code(X64gen* x64gen) {
 
     int num_args = immc_src->iliteral->signed_value;
     int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
-    int* padding_ref = vector_pop(x64gen->call_paddings);
-    int padding = padding_ref != NULL ? *padding_ref : num_mem_args % 2;
-    free(padding_ref);
+    int padding = num_mem_args % 2;
+    if (vector_size(x64gen->call_paddings) > 0) {
+        int* padding_ref = vector_pop(x64gen->call_paddings);
+        padding = *padding_ref;
+        free(padding_ref);
+    }
     x64gen->num_pushed_args -= num_mem_args + padding;
     if (num_mem_args + padding > 0) {
         int mem_param_offset = (num_mem_args + padding) * 8;
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index 1edf72a..124c3f8 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -18,6 +18,7 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->liveseqs = liveseqs;
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
+    x64gen->frame_size = 0;
     x64gen->num_pushed_args = 0;
     x64gen->call_paddings = new_vector(&t_integer);
     return x64gen;
@@ -94,22 +95,24 @@ Vector* gen_function_x64code(X64gen* x64gen) {
     }
 
     int evacuation_count = x64gen->evacuation_count;
-    for (int i = 0; i < evacuation_count; i++) {
+    int num_evacuation_regs = evacuation_count < NUM_CALLEE_SAVED_REGS ? evacuation_count : NUM_CALLEE_SAVED_REGS;
+    int evacuation_mem_size = (evacuation_count - num_evacuation_regs + evacuation_count % 2) * 8;
+    for (int i = 0; i < num_evacuation_regs; i++) {
         X64Ope* src = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[i]);
         vector_push(head_codes, new_inst_x64(X64_INST_PUSHX, src, NULL));
     }
-    if (evacuation_count % 2 == 1) {
-        X64Ope* src = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
+    if (evacuation_mem_size > 0) {
+        X64Ope* src = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, evacuation_mem_size);
         X64Ope* dst = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(head_codes, new_inst_x64(X64_INST_SUBX, src, dst));
     }
 
-    if (evacuation_count % 2 == 1) {
-        X64Ope* src = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
+    if (evacuation_mem_size > 0) {
+        X64Ope* src = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, evacuation_mem_size);
         X64Ope* dst = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(tail_codes, new_inst_x64(X64_INST_ADDX, src, dst));
     }
-    for (int i = evacuation_count - 1; i >= 0; i--) {
+    for (int i = num_evacuation_regs - 1; i >= 0; i--) {
         X64Ope* dst = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[i]);
         vector_push(tail_codes, new_inst_x64(X64_INST_POPX, NULL, dst));
     }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index f0f4cf5..fb4b6d4 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -9,6 +9,7 @@ typedef struct X64gen {
     Vector* liveseqs;
     int index;
     int evacuation_count;
+    int frame_size;
     int num_pushed_args;
     Vector* call_paddings;
 } X64gen;
-- 
2.43.0


From affe888ec2d26a27b6dc5e631e8253810a4e746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:07 +0000
Subject: [PATCH 28/58] fix: report expressions that need more registers than
 there are

---
 src/regalloc/regalloc.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/regalloc/regalloc.c b/src/regalloc/regalloc.c
index 4e2ca62..3653bb8 100644
--- a/src/regalloc/regalloc.c
+++ b/src/regalloc/regalloc.c
@@ -6,6 +6,7 @@
 #include "../map/map.h"
 #include "./basicblock.h"
 
+#include <stdio.h>
 #include <stdlib.h>
 
 Vector* dequeue_external_immcs(RegAlloc* regalloc);
@@ -313,6 +314,18 @@ Vector* determine_allocation(Vector* livenesses, int num_real_regs) {
     }
 
     delete_vector(statuses);
+
+    // spilled registers cannot be placed in memory until spiling is implemented
+    for (int virtual_reg_id = 0; virtual_reg_id < num_virtual_regs; virtual_reg_id++) {
+        int* real_reg_id_ref = vector_at(allocations, virtual_reg_id);
+        if (*real_reg_id_ref == -1) {
+            fprintf(stderr,
+                    "\x1b[1;31mfatal error\x1b[0m: "
+                    "expression is too complex: more than %d registers are needed\n",
+                    num_real_regs);
+            exit(1);
+        }
+    }
     return allocations;
 }
 
-- 
2.43.0


From d82ed2f1d1b271870516218150b07e0adc127c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 29/58] fix: evaluate signs and casts in initializers of global
 objects and report other expressions

---
 src/immcgen/declaration.c | 44 +++++++++++++++++++++++++++++++++------
 src/resolver/external.c   | 37 ++++++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 286f190..e725aeb 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -275,15 +275,14 @@ Vector* gen_scalar_initializer_immcode(Immcgen* immcgen) {
 }
 
 Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
+    IntegerLiteral* evaluate_constant_expr(Srt * srt);
+
     Vector* codes = new_vector(&t_immc);
 
     Srt* srt = vector_at(immcgen->srt->children, 0);
-    // TODO: support expression for global initializer
-    while (srt->type == SRT_CAST_EXPR) {
-        srt = vector_at(srt->children, 0);
-    }
-
-    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
+    IntegerLiteral* value = evaluate_constant_expr(srt);
+    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, value);
+    delete_iliteral(value);
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
     switch (initialized_size) {
         case 1:
@@ -307,6 +306,39 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+IntegerLiteral* evaluate_constant_expr(Srt* srt) {
+    if (srt->type == SRT_ILITERAL_EXPR) {
+        return create_dtyped_iliteral(srt->dtype, srt->iliteral);
+    }
+
+    // TODO: support other operators for global initializer
+    IntegerLiteral* operand = evaluate_constant_expr(vector_at(srt->children, 0));
+    int is_unsigned = iliteral_isunsigned(operand);
+    unsigned long long value = is_unsigned ? operand->unsigned_value : (unsigned long long)operand->signed_value;
+    delete_iliteral(operand);
+
+    switch (srt->type) {
+        case SRT_CAST_EXPR:
+        case SRT_POS_EXPR:
+            break;
+        case SRT_NEG_EXPR:
+            value = -value;
+            break;
+        case SRT_NOT_EXPR:
+            value = ~value;
+            break;
+        default:
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                            "unreachable statement (in evaluate_constant_expr)\n");
+            exit(1);
+    }
+
+    IntegerLiteral* iliteral = new_unsigned_iliteral(INTEGER_UNSIGNED_LONGLONG, value);
+    IntegerLiteral* dtyped_iliteral = create_dtyped_iliteral(srt->dtype, iliteral);
+    delete_iliteral(iliteral);
+    return dtyped_iliteral;
+}
+
 Vector* gen_local_scalar_initializer_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
 
diff --git a/src/resolver/external.c b/src/resolver/external.c
index 1df8228..f431866 100644
--- a/src/resolver/external.c
+++ b/src/resolver/external.c
@@ -6,8 +6,11 @@
 #include <stdlib.h>
 
 ResolverReturn* resolve_transration_unit(Resolver* resolver) {
+    int is_constant_initialized(Srt * srt);
+
     Srt* srt = new_srt(SRT_TRAS_UNIT, 0);
     Vector* errs = NULL;
+    Error* err = NULL;
 
     Ast* ast = resolver->ast;
 
@@ -24,6 +27,12 @@ ResolverReturn* resolve_transration_unit(Resolver* resolver) {
             resolverret_assign(&child_srt, &child_errs, resolve_function_definition(resolver));
         } else {
             resolverret_assign(&child_srt, &child_errs, resolve_decl(resolver));
+            if (child_errs == NULL && !is_constant_initialized(child_srt)) {
+                child_errs = new_vector(&t_error);
+                err = new_error("initializer of a global object is not a supported constant expression");
+                vector_push(child_errs, err);
+                delete_srt(child_srt);
+            }
         }
 
         if (child_errs != NULL) {
@@ -51,6 +60,34 @@ ResolverReturn* resolve_transration_unit(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+int is_constant_initialized(Srt* srt) {
+    switch (srt->type) {
+        case SRT_DECL_LIST:
+        case SRT_INIT_DECL:
+        case SRT_INIT:
+        case SRT_CAST_EXPR:
+        case SRT_POS_EXPR:
+        case SRT_NEG_EXPR:
+        case SRT_NOT_EXPR: {
+            int num_children = vector_size(srt->children);
+            for (int i = 0; i < num_children; i++) {
+                if (!is_constant_initialized(vector_at(srt->children, i))) {
+                    return 0;
+                }
+            }
+            return 1;
+        }
+        case SRT_IDENT_DECL:
+        case SRT_STR_DECL:
+        case SRT_TAG_DECL:
+        case SRT_ILITERAL_EXPR:
+        case SRT_SLITERAL_EXPR:
+            return 1;
+        default:
+            return 0;
+    }
+}
+
 ResolverReturn* resolve_function_definition(Resolver* resolver) {
     Srt* srt = NULL;
     Srt* declarator_srt = NULL;
-- 
2.43.0


From 8460652dba447d50694e756f69de900634214013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:46 +0000
Subject: [PATCH 30/58] fix: do not store a key of a map twice when a removed
 key precedes it

---
 src/map/map.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/map/map.c b/src/map/map.c
index 0e6b81f..4d51135 100644
--- a/src/map/map.c
+++ b/src/map/map.c
@@ -81,14 +81,31 @@ void* map_get_with_default(Map* map, void* key, void* default_value) {
 }
 
 void map_add(Map* map, void* key, void* value) {
-    int hash = map->t_key->hash_object(key) % map->capacity;
-    MapCell* cell = map->container[hash];
+    int original_hash = map->t_key->hash_object(key) % map->capacity;
+    MapCell* cell = map->container[original_hash];
 
-    while (cell != NULL && !cell->deleted) {
-        if (map->t_key->compare_object(cell->key, key) == 0) {
+    int hash = original_hash;
+    int deleted_hash = -1;
+    int found = 0;
+    while (cell != NULL) {
+        if (!cell->deleted && map->t_key->compare_object(cell->key, key) == 0) {
+            found = 1;
             break;
         }
+        if (cell->deleted && deleted_hash == -1) {
+            deleted_hash = hash;
+        }
         hash = (hash + 1) % map->capacity;
+        if (hash == original_hash) {
+            break;
+        }
+
+        cell = map->container[hash];
+    }
+
+    // a deleted cell can be reused only if the key is not stored behind it
+    if (!found && deleted_hash != -1) {
+        hash = deleted_hash;
         cell = map->container[hash];
     }
 
@@ -96,7 +113,9 @@ void map_add(Map* map, void* key, void* value) {
         delete_mapcell(cell, map->t_key->delete_object, map->t_value->delete_object);
     }
     map->container[hash] = new_mapcell(key, value);
-    map->size++;
+    if (!found) {
+        map->size++;
+    }
 
     int std_capacity = 2 * (map->size + 1) - 1;
     if (std_capacity >= map->capacity) {
-- 
2.43.0


From 5d5035ad9129e3dd72d55cdf09b4ca93f0054bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:21 +0000
Subject: [PATCH 31/58] fix: do not load values of structures into registers

---
 src/immcgen/expression.c | 51 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 887c9ab..397b2af 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -21,6 +21,18 @@ Vector* gen_assignment_expr_immcode(Immcgen* immcgen) {
 }
 
 Vector* gen_conditional_expr_immcode(Immcgen* immcgen) {
+    Vector* gen_address_expr_immcode(Immcgen * immcgen);
+
+    Srt* srt = immcgen->srt;
+    if (srt->dtype->type == DTYPE_STRUCT) {
+        immcgen->srt = new_dtyped_srt(SRT_ADDR_EXPR, new_pointer_dtype(dtype_copy(srt->dtype)), 1, srt_copy(srt));
+        Vector* address_codes = gen_address_expr_immcode(immcgen);
+        delete_srt(immcgen->srt);
+        immcgen->srt = srt;
+        update_void_expr_register(immcgen);
+        return address_codes;
+    }
+
     Vector* codes = new_vector(&t_immc);
 
     ImmcOpe* label = NULL;
@@ -418,6 +430,7 @@ Vector* gen_address_expr_immcode(Immcgen* immcgen) {
     Vector* gen_string_address_expr_immcode(Immcgen * immcgen);
     Vector* gen_tomember_address_expr_immcode(Immcgen * immcgen);
     Vector* gen_indirection_address_expr_immcode(Immcgen * immcgen);
+    Vector* gen_conditional_address_expr_immcode(Immcgen * immcgen);
 
     Srt* srt = immcgen->srt;
     Srt* child_srt = vector_at(srt->children, 0);
@@ -430,6 +443,8 @@ Vector* gen_address_expr_immcode(Immcgen* immcgen) {
             return gen_tomember_address_expr_immcode(immcgen);
         case SRT_INDIR_EXPR:
             return gen_indirection_address_expr_immcode(immcgen);
+        case SRT_COND_EXPR:
+            return gen_conditional_address_expr_immcode(immcgen);
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
                             "unreachable statement (in gen_address_expr_immcode)\n");
@@ -526,10 +541,34 @@ Vector* gen_indirection_address_expr_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+Vector* gen_conditional_address_expr_immcode(Immcgen* immcgen) {
+    Srt* srt = immcgen->srt;
+    Srt* child_srt = vector_at(srt->children, 0);
+
+    // address of conditional expression is the conditional expression of the addresses
+    Srt* condition_srt = srt_copy(vector_at(child_srt->children, 0));
+    Srt* lhs_srt = srt_copy(vector_at(child_srt->children, 1));
+    Srt* rhs_srt = srt_copy(vector_at(child_srt->children, 2));
+    lhs_srt = new_dtyped_srt(SRT_ADDR_EXPR, dtype_copy(srt->dtype), 1, lhs_srt);
+    rhs_srt = new_dtyped_srt(SRT_ADDR_EXPR, dtype_copy(srt->dtype), 1, rhs_srt);
+
+    immcgen->srt = new_dtyped_srt(SRT_COND_EXPR, dtype_copy(srt->dtype), 3, condition_srt, lhs_srt, rhs_srt);
+    Vector* codes = gen_conditional_expr_immcode(immcgen);
+    delete_srt(immcgen->srt);
+    immcgen->srt = srt;
+
+    return codes;
+}
+
 Vector* gen_indirection_expr_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
 
     ImmcOpe* src = gen_child_ptr_immcope(immcgen, codes, 0);
+    if (immcgen->srt->dtype->type == DTYPE_STRUCT) {
+        delete_immcope(src);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
 
     vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
@@ -661,6 +700,11 @@ Vector* gen_tomember_expr_immcode(Immcgen* immcgen) {
     delete_srt(immcgen->srt);
     immcgen->srt = srt;
 
+    if (srt->dtype->type == DTYPE_STRUCT) {
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
     ImmcOpe* src = new_ptr_immcope(immcgen->expr_reg->reg_id);
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
     vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
@@ -759,6 +803,13 @@ Vector* gen_primary_expr_immcode(Immcgen* immcgen) {
             exit(1);
     }
 
+    if (srt->dtype->type == DTYPE_STRUCT) {
+        // the value of a structure does not fit in a register and no expression uses it
+        delete_immcope(src);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
     dst = create_dest_reg_immcope(immcgen);
     vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
 
-- 
2.43.0


From ec478b6325945138768ecac0df037f4271893de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:44 +0000
Subject: [PATCH 32/58] fix: return 0 from main when its end is reached

---
 src/immcgen/external.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/immcgen/external.c b/src/immcgen/external.c
index 9084145..ee2d6c7 100644
--- a/src/immcgen/external.c
+++ b/src/immcgen/external.c
@@ -48,6 +48,16 @@ Vector* gen_function_definition_immcode(Immcgen* immcgen) {
     Vector* body_codes = new_vector(&t_immc);
     append_children_immcode(immcgen, body_codes);
 
+    // reaching the end of main returns 0
+    int body_len = vector_size(body_codes);
+    Immc* last_immc = vector_at(body_codes, body_len - 1);
+    int ends_with_jmp = last_immc != NULL && last_immc->type == IMMC_INST && last_immc->inst->type == IMMC_INST_JMP;
+    DType* return_dtype = declarator_srt->dtype->dfunction->return_dtype;
+    if (strcmp(declarator_srt->ident_name, "main") == 0 && return_dtype->type == DTYPE_INT && !ends_with_jmp) {
+        ImmcOpe* zero = new_signed_int_immcope(IMMC_SUFFIX_LONG, INTEGER_INT, 0);
+        vector_push(body_codes, new_inst_immc(IMMC_INST_STRET, NULL, zero, NULL));
+    }
+
     char* label_name = new_string(declarator_srt->ident_name);
     vector_push(codes, new_label_immc(IMMC_LABEL_FUNCTION, IMMC_VIS_GLOBAL, label_name));
 
-- 
2.43.0


From 0cc022c514897f2768d296b94fdca2b9377b5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:35 +0000
Subject: [PATCH 33/58] fix: push unsigned arguments above INT_MAX as operands
 the assembler accepts

---
 src/x64gen/datainst.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index b41acdd..c084c70 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -272,7 +272,13 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
 
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
-            X64Ope* src = new_int_x64ope(X64_SUFFIX_QUAD, iliteral_copy(immc_src->iliteral));
+            IntegerLiteral* iliteral = iliteral_copy(immc_src->iliteral);
+            if (immc_src->suffix == IMMC_SUFFIX_LONG && iliteral_isunsigned(iliteral)) {
+                // push has an immediate operand of 32 bits which is sign-extended; the callee uses the lower 32 bits
+                delete_iliteral(iliteral);
+                iliteral = new_signed_iliteral(INTEGER_INT, (int)immc_src->iliteral->unsigned_value);
+            }
+            X64Ope* src = new_int_x64ope(X64_SUFFIX_QUAD, iliteral);
             vector_push(codes, new_inst_x64(X64_INST_PUSHX, src, NULL));
             break;
         }
-- 
2.43.0


From aba9b518f2849f760d7386ff59d468eef2026067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:29 +0000
Subject: [PATCH 34/58] fix: emit the characters \a and \v of strings in a form
 the assembler knows

---
 src/x64/data.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/x64/data.c b/src/x64/data.c
index 337b37b..8e08bca 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -44,6 +44,22 @@ X64Data* x64data_copy(X64Data* x64data) {
     return copied_x64data;
 }
 
+static void append_ascii_string(char* dst, char* display_str) {
+    // the assembler does not know the escape sequences \a and \v
+    int len = strlen(dst);
+    for (char* c = display_str; *c != '\0'; c++) {
+        if (c[0] != '\\') {
+            dst[len++] = c[0];
+            continue;
+        }
+        c++;
+        len += c[0] == 'a'   ? sprintf(dst + len, "\\007")
+               : c[0] == 'v' ? sprintf(dst + len, "\\013")
+                             : sprintf(dst + len, "\\%c", c[0]);
+    }
+    sprintf(dst + len, "\n");
+}
+
 char* x64data_tostring(X64Data* x64data) {
     // a byte of a string takes at most 4 characters
     int capacity = 200 + (x64data->sliteral != NULL ? 4 * x64data->sliteral->size : 0);
@@ -78,7 +94,8 @@ char* x64data_tostring(X64Data* x64data) {
             break;
         case X64_DATA_STR:
             display_str = sliteral_display_string(x64data->sliteral);
-            sprintf(data_str, "\t.ascii\t%s\n", display_str);
+            sprintf(data_str, "\t.ascii\t");
+            append_ascii_string(data_str, display_str);
             free(display_str);
             break;
     }
-- 
2.43.0


From 57c6832e199e1fa02188a1d78d9f9ea0ace8c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 35/58] fix: widen unsigned values between registers with a
 move of their own width

---
 src/x64gen/util.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 6cfd68a..ff8f423 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -46,6 +46,8 @@ void append_mov_code_unsigned(Vector* codes, X64Ope* src, X64Ope* dst) {
         delete_x64ope(dst);
         return;
     }
+    // a move to the lower 32 bits of a register clears the upper ones
+    dst->suffix = src->suffix;
     vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
 }
 
-- 
2.43.0


From 17a743ccff600608ef2c8dc11a3a425410da6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:25 +0000
Subject: [PATCH 36/58] fix: accept the address of a struct member

---
 src/resolver/expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 037fdd1..c12410e 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1053,7 +1053,7 @@ ResolverReturn* resolve_address_expr(Resolver* resolver) {
     }
 
     if (child_srt->dtype->type != DTYPE_FUNCTION && child_srt->type != SRT_INDIR_EXPR &&
-        (child_srt->type != SRT_IDENT_EXPR || !dtype_isobject(child_srt->dtype))) {
+        child_srt->type != SRT_TOMEMBER_EXPR && (child_srt->type != SRT_IDENT_EXPR || !dtype_isobject(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("operand of unary & is neither a function designator, "
                         "a indirection, nor an object lvalue");
-- 
2.43.0


From 4e079838904793e14b2f6a1a49871c1e55b6552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:27 +0000
Subject: [PATCH 37/58] fix: let -> apply to arrays of structs

---
 src/resolver/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c12410e..9937977 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1393,6 +1393,10 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    if (ast->type == AST_TOMEMBER_EXPR) {
+        lhs_srt = convert_to_ptr_if_array(lhs_srt);
+    }
+
     if (ast->type == AST_MEMBER_EXPR && lhs_srt->dtype->type != DTYPE_STRUCT) {
         errs = new_vector(&t_error);
         err = new_error("dot-accessed object is not a struct");
-- 
2.43.0


From 798625a8b4eb3e671fd7cb1772e58e861bc335eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:24 +0000
Subject: [PATCH 38/58] fix: accept typedef names for functions that return
 void

---
 src/resolver/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index f8ffe0b..120ddac 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -822,7 +822,7 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                 }
 
                 if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION && dtype_isincomplete(plug_dtype) &&
-                    resolver->specifier_dtype->type != DTYPE_VOID) {
+                    plug_dtype->type != DTYPE_VOID) {
                     errs = new_vector(&t_error);
                     err = new_error("function returning incomplete type other than void is invalid");
                     vector_push(errs, err);
-- 
2.43.0


From a6d0deb808cde119c804e393e496e39fc5dc3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:25 +0000
Subject: [PATCH 39/58] fix: accept typedef names of void

---
 src/resolver/declaration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 120ddac..0f0bde9 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -578,6 +578,8 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
 
     DType* complete_dtype = NULL;
     switch (dtype->type) {
+        case DTYPE_VOID:
+            break;
         case DTYPE_STRUCT:
             complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
             if (complete_dtype == NULL)
-- 
2.43.0


From 85bca0b8516b4caa458ce2d1d78cdc56b4c778ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:26 +0000
Subject: [PATCH 40/58] fix: report uses of typedef names whose declaration was
 rejected

---
 src/resolver/declaration.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 0f0bde9..1b62794 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -567,9 +567,18 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
 
 ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     DType* dtype = NULL;
+    Vector* errs = NULL;
+    Error* err = NULL;
 
     Ast* ast = resolver->ast;
     Symbol* symbol = symboltable_search(resolver->symbol_table, ast->ident_name);
+    if (symbol == NULL || symbol->dtype->type != DTYPE_TYPEDEF) {
+        // the declaration of the typedef name was rejected or is not complete yet
+        errs = new_vector(&t_error);
+        err = new_error("typedef-name '%s' is not declared", ast->ident_name);
+        vector_push(errs, err);
+        return new_resolverret_dtype_errors(errs);
+    }
 
     dtype = dtype_copy(symbol->dtype->dtypedef->defined_dtype);
     if (!dtype_isincomplete(dtype)) {
-- 
2.43.0


From 3423c5ebc959a97a0b6fad788db115c13c61457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:01 +0000
Subject: [PATCH 41/58] fix: keep hash values of large integers and non-ASCII
 strings non-negative

---
 src/common/type.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/type.c b/src/common/type.c
index 4be65e2..7c69536 100644
--- a/src/common/type.c
+++ b/src/common/type.c
@@ -1,5 +1,6 @@
 #include "./type.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -43,10 +44,12 @@ int* copy_integer(int* integer) {
 }
 
 int hash_integer(int* integer) {
+    // a hash value is never negative, whatever the key
+    unsigned int value = *integer;
     if (*integer >= 0) {
-        return *integer * 2;
+        return (value * 2) & INT_MAX;
     } else {
-        return -(*integer) * 2 + 1;
+        return (-value * 2 + 1) & INT_MAX;
     }
 }
 
@@ -66,7 +69,7 @@ int hash_string(char* str) {
 
     char* str_ptr = str;
     while (*str_ptr != '\0') {
-        hash = (*str_ptr * a + hash) % b;
+        hash = ((unsigned char)*str_ptr * a + hash) % b;
         str_ptr++;
     }
 
-- 
2.43.0


From 9d0169de15974c1d6bb62cccbc9cca8ef9dc8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:31 +0000
Subject: [PATCH 42/58] fix: reject escape sequences whose value does not fit
 in a character

---
 src/lexer/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index b2cf2cd..e292222 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -4,6 +4,7 @@
 #include "../literal/sliteral.h"
 #include "./util.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -392,6 +393,10 @@ ErrorableInt* read_octal_escape_seqence(Lexer* lexer) {
         lexer->content_index++;
     }
 
+    if (value > UCHAR_MAX) {
+        Error* err = new_error("escape sequence is out of range");
+        return new_errint_error(err);
+    }
     return new_errint(value);
 }
 
@@ -410,6 +415,10 @@ ErrorableInt* read_hexadecimal_escape_seqence(Lexer* lexer) {
         }
         value = value * 0x10 + *hexdigit_ref;
         lexer->content_index++;
+        if (value > UCHAR_MAX) {
+            Error* err = new_error("escape sequence is out of range");
+            return new_errint_error(err);
+        }
     }
 
     return new_errint(value);
-- 
2.43.0


From be5a1d7d75ad268bd24b18078bb622f24d9e96e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 43/58] fix: report directories and read errors instead of
 crashing

---
 src/freader/freader.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 5a3879e..ebe492c 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -22,8 +22,18 @@ FileReaderReturn* freader_read(FileReader* freader) {
 
     rewind(freader->file_ptr);
 
-    file_content = malloc(file_size + 1);
+    file_content = malloc((size_t)file_size + 1);
+    if (file_content == NULL) {
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
+
     file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
+    if (ferror(freader->file_ptr)) {
+        free(file_content);
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
     file_content[file_size] = '\0';
 
     if (memchr(file_content, '\0', file_size) != NULL) {
-- 
2.43.0


From 2718dfe6cb7f6d920192c25be94054532755ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:52 +0000
Subject: [PATCH 44/58] fix: parse the left operand of assignments once, not
 twice per level of parentheses

---
 src/parser/expression.c | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5dbb1ad..94a81cc 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -23,14 +23,11 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
 
     int terminated = 0;
     while (!terminated) {
-        int index = parser->index;
-
-        parserret_assign(&ast, &err, parse_unary_expr(parser));
+        // the left operand is checked to be an lvalue by the resolver, so that it is parsed only once
+        parserret_assign(&ast, &err, parse_conditional_expr(parser));
         if (err != NULL) {
-            parser->index = index;
-            delete_error(err);
-            err = NULL;
-            break;
+            delete_vector(stack);
+            return new_parserret_error(err);
         }
 
         CToken* ctoken = vector_at(parser->ctokens, parser->index);
@@ -80,21 +77,12 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
                 vector_push(stack, new_ast(AST_OR_ASSIGN_EXPR, 1, ast));
                 break;
             default:
-                parser->index = index;
-                delete_ast(ast);
+                vector_push(stack, ast);
                 terminated = 1;
                 break;
         }
     }
 
-    parserret_assign(&ast, &err, parse_conditional_expr(parser));
-    if (err != NULL) {
-        delete_vector(stack);
-        return new_parserret_error(err);
-    }
-
-    vector_push(stack, ast);
-
     ast = vector_pop(stack);
     while (vector_size(stack) > 0) {
         Ast* next_ast = vector_pop(stack);
-- 
2.43.0


From 9b333b0051cbaa60a62239a4936aefae00f79625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:15 +0000
Subject: [PATCH 45/58] fix: reject arrays, structs and frames whose size does
 not fit in int

The array size was truncated to int, so that 'int a[2147483648] = {7};' got a
negative size and crashed the compiler; products and sums of sizes overflowed
in the same way.
---
 src/resolver/declaration.c | 77 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 1b62794..eb1d5a1 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -10,6 +10,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+// sizes and offsets are held in int, and some bytes are left for the padding
+#define MAX_NBYTES 0x7ffff000LL
+
 ResolverReturn* resolve_decl(Resolver* resolver) {
     Srt* srt = NULL;
     Vector* errs = NULL;
@@ -254,6 +257,8 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
 }
 
 ResolverReturnDStructMembers* resolve_struct_decl_list(Resolver* resolver) {
+    int is_oversized_struct(Vector * members);
+
     Vector* members = new_vector(&t_dstructmember);
     Vector* errs = NULL;
     Error* err = NULL;
@@ -307,6 +312,12 @@ ResolverReturnDStructMembers* resolve_struct_decl_list(Resolver* resolver) {
     }
     delete_set(member_names_set);
 
+    if (errs == NULL && is_oversized_struct(members)) {
+        errs = new_vector(&t_error);
+        err = new_error("size of struct is too large");
+        vector_push(errs, err);
+    }
+
     if (errs != NULL) {
         delete_vector(members);
         return new_resolverret_dstructmembers_errors(errs);
@@ -314,6 +325,18 @@ ResolverReturnDStructMembers* resolve_struct_decl_list(Resolver* resolver) {
     return new_resolverret_dstructmembers(members);
 }
 
+int is_oversized_struct(Vector* members) {
+    long long nbytes = 0LL;
+
+    int num_members = vector_size(members);
+    for (int i = 0; i < num_members; i++) {
+        DStructMember* member = vector_at(members, i);
+        nbytes += dtype_alignment(member->dtype) + dtype_nbytes(member->dtype);
+    }
+
+    return nbytes > MAX_NBYTES;
+}
+
 ResolverReturnDStructMembers* resolve_struct_decl(Resolver* resolver) {
     Vector* members = NULL;
     Vector* errs = NULL;
@@ -692,6 +715,14 @@ ResolverReturn* resolve_init_declarator(Resolver* resolver) {
     DType* symbol_dtype = dtype_copy(child_srt->dtype);
     if (resolver->symbol_table->outer_scope == NULL || !dtype_isobject(symbol_dtype)) {
         symboltable_define_label(resolver->symbol_table, symbol_name, symbol_dtype);
+    } else if ((long long)resolver->symbol_table->memory_nbytes + dtype_nbytes(symbol_dtype) > MAX_NBYTES) {
+        errs = new_vector(&t_error);
+        err = new_error("total size of local variables is too large");
+        vector_push(errs, err);
+        free(symbol_name);
+        delete_dtype(symbol_dtype);
+        delete_srt(srt);
+        return new_resolverret_errors(errs);
     } else {
         symboltable_define_memory(resolver->symbol_table, symbol_name, symbol_dtype);
     }
@@ -722,6 +753,8 @@ ResolverReturn* resolve_init_declarator(Resolver* resolver) {
 }
 
 ResolverReturn* resolve_declarator(Resolver* resolver) {
+    int is_oversized_array(DType * dtype, DType * specifier_dtype);
+
     Srt* srt = NULL;
     DType* dtype = NULL;
     Vector* errs = NULL;
@@ -777,6 +810,14 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                if (array_size_srt->iliteral->signed_value > MAX_NBYTES) {
+                    errs = new_vector(&t_error);
+                    err = new_error("size of array is too large");
+                    vector_push(errs, err);
+                    delete_srt(array_size_srt);
+                    break;
+                }
+
                 DType* plug_dtype = new_socket_array_dtype(array_size_srt->iliteral->signed_value);
                 delete_srt(array_size_srt);
                 if (dtype == NULL) {
@@ -840,6 +881,13 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                if (is_oversized_array(dtype, plug_dtype)) {
+                    errs = new_vector(&t_error);
+                    err = new_error("size of array is too large");
+                    vector_push(errs, err);
+                    break;
+                }
+
                 if (ast_ptr->type == AST_IDENT_DECLOR) {
                     srt = new_identifier_srt(SRT_IDENT_DECL, dtype, new_string(ast_ptr->ident_name));
                 } else {
@@ -864,6 +912,35 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+int is_oversized_array(DType* dtype, DType* specifier_dtype) {
+    long long nbytes = 1LL;
+
+    // declarators are connected from the outermost one to the specifier
+    while (dtype != NULL) {
+        switch (dtype->type) {
+            case DTYPE_POINTER:
+                nbytes = 1LL;
+                dtype = dtype->dpointer->to_dtype;
+                break;
+            case DTYPE_ARRAY:
+                nbytes *= dtype->darray->size;
+                dtype = dtype->darray->of_dtype;
+                break;
+            case DTYPE_FUNCTION:
+                nbytes = 1LL;
+                dtype = dtype->dfunction->return_dtype;
+                break;
+            default:
+                return 0;
+        }
+        if (nbytes > MAX_NBYTES || (dtype != NULL && dtype->type == DTYPE_POINTER && nbytes * 8LL > MAX_NBYTES)) {
+            return 1;
+        }
+    }
+
+    return nbytes * dtype_nbytes(specifier_dtype) > MAX_NBYTES;
+}
+
 ResolverReturnDParams* resolve_parameter_list(Resolver* resolver) {
     Vector* dparams = new_vector(&t_dparam);
     Vector* errs = NULL;
-- 
2.43.0


From 854582891f1aa5d966512751ee608c15f3ed043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:27 +0000
Subject: [PATCH 46/58] fix: use the size of a struct that is defined after a
 pointer to it

---
 src/resolver/expression.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 9937977..c39e642 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -8,6 +8,8 @@
 #include <string.h>
 
 ResolverReturn* resolve_expr(Resolver* resolver) {
+    void complete_struct_dtype(Resolver * resolver, DType * dtype);
+
     Srt* srt = NULL;
     Vector* errs = NULL;
     Ast* ast = resolver->ast;
@@ -100,9 +102,41 @@ ResolverReturn* resolve_expr(Resolver* resolver) {
     if (errs != NULL) {
         return new_resolverret_errors(errs);
     }
+
+    complete_struct_dtype(resolver, srt->dtype);
     return new_resolverret(srt);
 }
 
+// a struct may have been defined after a type that refers to it was made
+void complete_struct_dtype(Resolver* resolver, DType* dtype) {
+    while (dtype != NULL) {
+        switch (dtype->type) {
+            case DTYPE_POINTER:
+                dtype = dtype->dpointer->to_dtype;
+                break;
+            case DTYPE_ARRAY:
+                dtype = dtype->darray->of_dtype;
+                break;
+            case DTYPE_FUNCTION:
+                dtype = dtype->dfunction->return_dtype;
+                break;
+            case DTYPE_STRUCT: {
+                if (dtype->dstruct->name == NULL || dtype->dstruct->nbytes > 0) {
+                    return;
+                }
+                DType* complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+                if (complete_dtype != NULL && complete_dtype->type == DTYPE_STRUCT) {
+                    dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
+                    dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
+                }
+                return;
+            }
+            default:
+                return;
+        }
+    }
+}
+
 ResolverReturn* resolve_assignment_expr(Resolver* resolver) {
     Srt* srt = NULL;
     DType* dtype = NULL;
-- 
2.43.0


From c63e0f49c9c09a42915e6682a710f388a017dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:12 +0000
Subject: [PATCH 47/58] fix: reject arithmetic on pointers to functions and
 incomplete types

---
 src/resolver/expression.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c39e642..1b9bd90 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -781,6 +781,10 @@ ResolverReturn* resolve_additive_expr(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+int is_object_pointer(DType* dtype) {
+    return dtype->type == DTYPE_POINTER && dtype_isobject(dtype->dpointer->to_dtype);
+}
+
 ResolverReturn* resolve_add_expr(Resolver* resolver) {
     Srt* srt = NULL;
     DType* dtype = NULL;
@@ -817,12 +821,12 @@ ResolverReturn* resolve_add_expr(Resolver* resolver) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_ADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+    } else if (is_object_pointer(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
         rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (dtype_isinteger(lhs_srt->dtype) && rhs_srt->dtype->type == DTYPE_POINTER) {
+    } else if (dtype_isinteger(lhs_srt->dtype) && is_object_pointer(rhs_srt->dtype)) {
         dtype = dtype_copy(rhs_srt->dtype);
         lhs_srt = perform_integer_promotion(lhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, rhs_srt, lhs_srt);
@@ -875,12 +879,12 @@ ResolverReturn* resolve_subtract_expr(Resolver* resolver) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_SUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+    } else if (is_object_pointer(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
         rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PSUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && rhs_srt->dtype->type == DTYPE_POINTER &&
+    } else if (is_object_pointer(lhs_srt->dtype) && is_object_pointer(rhs_srt->dtype) &&
                dtype_iscompatible(lhs_srt->dtype, rhs_srt->dtype)) {
         dtype = new_integer_dtype(DTYPE_UNSIGNED_LONGLONG);
         srt = new_dtyped_srt(SRT_PDIFF_EXPR, dtype, 2, lhs_srt, rhs_srt);
@@ -1505,7 +1509,7 @@ ResolverReturn* resolve_incdec_expr(Resolver* resolver, SrtType srt_type, char*
         return new_resolverret_errors(errs);
     }
 
-    if (!dtype_isinteger(srt->dtype) && srt->dtype->type != DTYPE_POINTER) {
+    if (!dtype_isinteger(srt->dtype) && !is_object_pointer(srt->dtype)) {
         errs = new_vector(&t_error);
         err = new_error("operand of %s should be either integer or pointer", op);
         vector_push(errs, err);
-- 
2.43.0


From 8d9a55011768da897e2f346507cfb9e755b6b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:13 +0000
Subject: [PATCH 48/58] fix: reject arrays of functions and functions returning
 arrays made with typedef names

---
 src/resolver/declaration.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index eb1d5a1..ec450bb 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -866,6 +866,28 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     plug_dtype = plug_dtype->dtypedef->defined_dtype;
                 }
 
+                if (socket_dtype != NULL && socket_dtype->type == DTYPE_ARRAY && plug_dtype->type == DTYPE_FUNCTION) {
+                    errs = new_vector(&t_error);
+                    err = new_error("array of functions is invalid");
+                    vector_push(errs, err);
+                    break;
+                }
+
+                if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION &&
+                    plug_dtype->type == DTYPE_FUNCTION) {
+                    errs = new_vector(&t_error);
+                    err = new_error("function returning a function is invalid");
+                    vector_push(errs, err);
+                    break;
+                }
+
+                if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION && plug_dtype->type == DTYPE_ARRAY) {
+                    errs = new_vector(&t_error);
+                    err = new_error("function returning an array is invalid");
+                    vector_push(errs, err);
+                    break;
+                }
+
                 if (socket_dtype != NULL && socket_dtype->type == DTYPE_ARRAY && dtype_isincomplete(plug_dtype)) {
                     errs = new_vector(&t_error);
                     err = new_error("array of incomplete type is invalid");
-- 
2.43.0


From b049a8b03320f643494ebca7d4372219ee2c2da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:14 +0000
Subject: [PATCH 49/58] fix: reject a declaration with typedef given twice

---
 src/resolver/declaration.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index ec450bb..4cdec9f 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -54,6 +54,7 @@ ResolverDTypeReturn* resolve_decl_specifiers(Resolver* resolver) {
     DType* dtype = NULL;
     DType* specifiers_dtype = NULL;
     Vector* errs = NULL;
+    Error* err = NULL;
 
     Ast* ast = resolver->ast;
 
@@ -62,9 +63,14 @@ ResolverDTypeReturn* resolve_decl_specifiers(Resolver* resolver) {
         Ast* child_ast = vector_at(ast->children, i);
         switch (child_ast->type) {
             case AST_STG_TYPEDEF:
-                if (dtype == NULL) {
-                    dtype = new_socket_typedef_dtype();
+                if (dtype != NULL) {
+                    errs = new_vector(&t_error);
+                    err = new_error("more than one storage class specifier is invalid");
+                    vector_push(errs, err);
+                    delete_dtype(dtype);
+                    return new_resolverret_dtype_errors(errs);
                 }
+                dtype = new_socket_typedef_dtype();
                 vector_erase(ast->children, i);
                 num_children--;
                 break;
-- 
2.43.0


From d6a33712c375b4df372607f84d1ec7193d7d3c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:15 +0000
Subject: [PATCH 50/58] fix: reject the declaration of a function in a for
 statement

---
 src/resolver/statement.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/resolver/statement.c b/src/resolver/statement.c
index f8ddaa9..e721737 100644
--- a/src/resolver/statement.c
+++ b/src/resolver/statement.c
@@ -488,12 +488,16 @@ ResolverReturn* resolve_for_stmt(Resolver* resolver) {
         for (int i = 0; i < num_children; i++) {
             Srt* init_decl_srt = vector_at(child_srt->children, i);
             Srt* decl_srt = vector_at(init_decl_srt->children, 0);
-            if (decl_srt->dtype->type != DTYPE_TYPEDEF) {
+            if (decl_srt->dtype->type != DTYPE_TYPEDEF && decl_srt->dtype->type != DTYPE_FUNCTION) {
                 continue;
             }
 
             errs = new_vector(&t_error);
-            err = new_error("typedef in for statement initializer is not allowed");
+            if (decl_srt->dtype->type == DTYPE_TYPEDEF) {
+                err = new_error("typedef in for statement initializer is not allowed");
+            } else {
+                err = new_error("function declaration in for statement initializer is not allowed");
+            }
             vector_push(errs, err);
             delete_srt(srt);
             return new_resolverret_errors(errs);
-- 
2.43.0


From 209d6fa87a08c265c58de62cc41535e8957f8abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:40 +0000
Subject: [PATCH 51/58] fix: reject a tag used as another kind of tag

---
 src/resolver/declaration.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 4cdec9f..1f4eb11 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -235,6 +235,13 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     if (members == NULL) {
         DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
         int nbytes = 0, alignment = 0;
+        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_STRUCT) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not a struct", struct_name);
+            vector_push(errs, err);
+            free(struct_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
@@ -477,6 +484,14 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
     }
 
     if (members == NULL) {
+        DType* unnamed_dtype = tagtable_search(resolver->tag_table, enum_name);
+        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_ENUM) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not an enum", enum_name);
+            vector_push(errs, err);
+            free(enum_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         free(enum_name);
         dtype = new_integer_dtype(DTYPE_INT);
         return new_resolverret_dtype(dtype);
-- 
2.43.0


From 78ed4030e6e86ae8408ceb302d5b91c6167f2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 52/58] fix: reject enumeration constants that are not
 representable as int

---
 src/resolver/declaration.c | 16 +++++++++++++++-
 src/resolver/resolver.h    |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 1f4eb11..43cd00a 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -7,6 +7,7 @@
 #include "./expression.h"
 #include "./utils.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -566,6 +567,13 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
     }
 
     if (vector_size(ast->children) == 1) {
+        if (resolver->default_enum_value > INT_MAX) {
+            errs = new_vector(&t_error);
+            err = new_error("value of enumeration constant '%s' is not representable as int", child_ast->ident_name);
+            vector_push(errs, err);
+            return new_resolverret_denummember_errors(errs);
+        }
+
         char* member_name = new_string(child_ast->ident_name);
         DType* member_dtype = new_integer_dtype(DTYPE_INT);
         IntegerLiteral* member_iliteral = new_signed_iliteral(INTEGER_INT, resolver->default_enum_value);
@@ -595,8 +603,14 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
         return new_resolverret_denummember_errors(errs);
     }
 
-    int enum_value = enum_const_srt->iliteral->signed_value;
+    long long enum_value = enum_const_srt->iliteral->signed_value;
     delete_srt(enum_const_srt);
+    if (enum_value < INT_MIN || enum_value > INT_MAX) {
+        errs = new_vector(&t_error);
+        err = new_error("value of enumeration constant '%s' is not representable as int", child_ast->ident_name);
+        vector_push(errs, err);
+        return new_resolverret_denummember_errors(errs);
+    }
 
     char* member_name = new_string(child_ast->ident_name);
     DType* member_dtype = new_integer_dtype(DTYPE_INT);
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 7d6867d..0ed5c8d 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -18,7 +18,7 @@ typedef struct Resolver {
     int switch_default_exists;
     DType* return_dtype;
     DType* specifier_dtype;
-    int default_enum_value;
+    long long default_enum_value;
     DType* initialized_dtype;
     int initialized_offset;
     int is_nested_initializing;
-- 
2.43.0


From ed7663a31463bc61c665219039f1ae580becb75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:47 +0000
Subject: [PATCH 53/58] fix: reject integer constants that no integer type can
 represent

---
 src/lexer/reader.c | 18 +++++++++++++++---
 src/lexer/util.c   |  5 +++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index e292222..2da42ce 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -69,8 +69,12 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
         IntegerLiteral* iliteral = create_iliteral(value, 0x10, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         free(value);
+        if (iliteral == NULL) {
+            err = new_error("integer constant is too large");
+            return new_lexerret_item_error(err);
+        }
+        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         return new_lexerret_item(ctoken);
     }
 
@@ -85,8 +89,12 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
         IntegerLiteral* iliteral = create_iliteral(value, 010, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         free(value);
+        if (iliteral == NULL) {
+            err = new_error("integer constant is too large");
+            return new_lexerret_item_error(err);
+        }
+        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         return new_lexerret_item(ctoken);
     }
 
@@ -98,8 +106,12 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
     IntegerLiteralType suffix = read_integer_suffix(lexer);
 
     IntegerLiteral* iliteral = create_iliteral(value, 10, suffix);
-    CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
     free(value);
+    if (iliteral == NULL) {
+        err = new_error("integer constant is too large");
+        return new_lexerret_item_error(err);
+    }
+    CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
     return new_lexerret_item(ctoken);
 }
 
diff --git a/src/lexer/util.c b/src/lexer/util.c
index 5e99a54..502c753 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,7 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -209,7 +210,11 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    errno = 0;
     unsigned long long unsigned_value = strtoull(value, NULL, base);
+    if (errno == ERANGE) {
+        return NULL;
+    }
 
     // choose the first type of the list given by base and suffix in which the value can be represented
     if (type == INTEGER_INT && unsigned_value > INT_MAX) {
-- 
2.43.0


From 3a83d4ca3475e30c409b9735d47552e31b5332be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:00 +0000
Subject: [PATCH 54/58] fix: do not export the labels of string literals

---
 src/x64gen/label.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/label.c b/src/x64gen/label.c
index f9c31bd..38315db 100644
--- a/src/x64gen/label.c
+++ b/src/x64gen/label.c
@@ -26,7 +26,8 @@ Vector* gen_label_x64code(X64gen* x64gen) {
     X64Visibility visibility = X64_VIS_NONE;
     switch (immc->label->visibility) {
         case IMMC_VIS_GLOBAL:
-            visibility = X64_VIS_GLOBAL;
+            // labels made by the compiler (string literals) are private to the translation unit
+            visibility = immc->label->name[0] == '.' ? X64_VIS_NONE : X64_VIS_GLOBAL;
             break;
         case IMMC_VIS_LOCAL:
             visibility = X64_VIS_LOCAL;
-- 
2.43.0


From c59e81c5d6d501828878881caecdfeb1f83a91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 55/58] fix: give selection and iteration statements and their
 substatements a scope of their own

---
 src/resolver/statement.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/resolver/statement.c b/src/resolver/statement.c
index e721737..5c162dd 100644
--- a/src/resolver/statement.c
+++ b/src/resolver/statement.c
@@ -7,6 +7,8 @@
 #include <stdlib.h>
 
 ResolverReturn* resolve_stmt(Resolver* resolver) {
+    ResolverReturn* resolve_scoped_stmt(Resolver * resolver, ResolverReturn * (*resolve)(Resolver*));
+
     Srt* srt = NULL;
     Vector* errs = NULL;
     Ast* ast = resolver->ast;
@@ -41,13 +43,13 @@ ResolverReturn* resolve_stmt(Resolver* resolver) {
             resolverret_assign(&srt, &errs, resolve_null_stmt());
             break;
         case AST_IF_STMT:
-            resolverret_assign(&srt, &errs, resolve_if_else_stmt(resolver));
+            resolverret_assign(&srt, &errs, resolve_scoped_stmt(resolver, resolve_if_else_stmt));
             break;
         case AST_SWITCH_STMT:
-            resolverret_assign(&srt, &errs, resolve_switch_stmt(resolver));
+            resolverret_assign(&srt, &errs, resolve_scoped_stmt(resolver, resolve_switch_stmt));
             break;
         case AST_WHILE_STMT:
-            resolverret_assign(&srt, &errs, resolve_while_stmt(resolver));
+            resolverret_assign(&srt, &errs, resolve_scoped_stmt(resolver, resolve_while_stmt));
             break;
         case AST_FOR_STMT:
             resolver->symbol_table = symboltable_enter_scope(resolver->symbol_table);
@@ -68,6 +70,16 @@ ResolverReturn* resolve_stmt(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+// selection and iteration statements are blocks, and so are their substatements
+ResolverReturn* resolve_scoped_stmt(Resolver* resolver, ResolverReturn* (*resolve)(Resolver*)) {
+    resolver->symbol_table = symboltable_enter_scope(resolver->symbol_table);
+    resolver->tag_table = tagtable_enter_scope(resolver->tag_table);
+    ResolverReturn* ret = resolve(resolver);
+    resolver->tag_table = tagtable_exit_scope(resolver->tag_table);
+    resolver->symbol_table = symboltable_exit_scope(resolver->symbol_table);
+    return ret;
+}
+
 ResolverReturn* resolve_case_stmt(Resolver* resolver) {
     Srt* srt = new_srt(SRT_CASE_STMT, 0);
     Srt* child_srt = NULL;
@@ -315,6 +327,8 @@ ResolverReturn* resolve_null_stmt(void) {
 }
 
 ResolverReturn* resolve_if_else_stmt(Resolver* resolver) {
+    ResolverReturn* resolve_scoped_stmt(Resolver * resolver, ResolverReturn * (*resolve)(Resolver*));
+
     Srt* srt = new_srt(SRT_IF_STMT, 0);
     Srt* child_srt = NULL;
     Vector* errs = NULL;
@@ -342,7 +356,7 @@ ResolverReturn* resolve_if_else_stmt(Resolver* resolver) {
     }
 
     resolver->ast = vector_at(ast->children, 1);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_scoped_stmt(resolver, resolve_stmt));
     resolver->ast = ast;
     if (errs != NULL) {
         delete_srt(srt);
@@ -355,7 +369,7 @@ ResolverReturn* resolve_if_else_stmt(Resolver* resolver) {
     }
 
     resolver->ast = vector_at(ast->children, 2);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_scoped_stmt(resolver, resolve_stmt));
     resolver->ast = ast;
     if (errs != NULL) {
         delete_srt(srt);
@@ -367,6 +381,8 @@ ResolverReturn* resolve_if_else_stmt(Resolver* resolver) {
 }
 
 ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
+    ResolverReturn* resolve_scoped_stmt(Resolver * resolver, ResolverReturn * (*resolve)(Resolver*));
+
     Srt* srt = new_srt(SRT_SWITCH_STMT, 0);
     Srt* child_srt = NULL;
     Vector* errs = NULL;
@@ -401,7 +417,7 @@ ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
     resolver->switch_default_exists = 0;
 
     resolver->ast = vector_at(ast->children, 1);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_scoped_stmt(resolver, resolve_stmt));
     resolver->ast = ast;
 
     delete_vector(resolver->switch_cases);
@@ -418,6 +434,8 @@ ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
 }
 
 ResolverReturn* resolve_while_stmt(Resolver* resolver) {
+    ResolverReturn* resolve_scoped_stmt(Resolver * resolver, ResolverReturn * (*resolve)(Resolver*));
+
     Srt* srt = new_srt(SRT_WHILE_STMT, 0);
     Srt* child_srt = NULL;
     Vector* errs = NULL;
@@ -448,7 +466,7 @@ ResolverReturn* resolve_while_stmt(Resolver* resolver) {
 
     resolver->inside_loop = 1;
     resolver->ast = vector_at(ast->children, 1);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_scoped_stmt(resolver, resolve_stmt));
     resolver->ast = ast;
     resolver->inside_loop = original_inside_loop;
 
@@ -462,6 +480,8 @@ ResolverReturn* resolve_while_stmt(Resolver* resolver) {
 }
 
 ResolverReturn* resolve_for_stmt(Resolver* resolver) {
+    ResolverReturn* resolve_scoped_stmt(Resolver * resolver, ResolverReturn * (*resolve)(Resolver*));
+
     Srt* srt = new_srt(SRT_FOR_STMT, 0);
     Srt* child_srt = NULL;
     Vector* errs = NULL;
@@ -539,7 +559,7 @@ ResolverReturn* resolve_for_stmt(Resolver* resolver) {
 
     resolver->inside_loop = 1;
     resolver->ast = vector_at(ast->children, 3);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_scoped_stmt(resolver, resolve_stmt));
     resolver->ast = ast;
     resolver->inside_loop = original_inside_loop;
 
-- 
2.43.0


From 1e99c4ac8daaf0b3e46fc072f533f5f5a273f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:39 +0000
Subject: [PATCH 56/58] fix: keep tags of one name in different scopes apart

---
 src/resolver/declaration.c | 98 ++++++++++++++++++++++++++++++--------
 src/resolver/expression.c  |  3 +-
 src/resolver/resolver.c    |  4 ++
 src/resolver/resolver.h    |  3 ++
 src/tagtab/tagtab.c        | 56 +++++++++++++++++++++-
 src/tagtab/tagtab.h        |  5 ++
 6 files changed, 148 insertions(+), 21 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 43cd00a..1f4a56e 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -15,6 +15,8 @@
 #define MAX_NBYTES 0x7ffff000LL
 
 ResolverReturn* resolve_decl(Resolver* resolver) {
+    Ast* find_struct_specifier(Ast * ast);
+
     Srt* srt = NULL;
     Vector* errs = NULL;
 
@@ -22,7 +24,9 @@ ResolverReturn* resolve_decl(Resolver* resolver) {
     DType* original_specifier_dtype = resolver->specifier_dtype;
 
     resolver->ast = vector_at(ast->children, 0);
+    resolver->tag_declaration_ast = vector_size(ast->children) == 1 ? find_struct_specifier(resolver->ast) : NULL;
     resolverret_dtype_assign(&resolver->specifier_dtype, &errs, resolve_decl_specifiers(resolver));
+    resolver->tag_declaration_ast = NULL;
     resolver->ast = ast;
     if (errs != NULL) {
         resolver->specifier_dtype = original_specifier_dtype;
@@ -49,6 +53,11 @@ ResolverReturn* resolve_decl(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+Ast* find_struct_specifier(Ast* ast) {
+    Ast* specifier_ast = vector_size(ast->children) == 1 ? vector_at(ast->children, 0) : NULL;
+    return specifier_ast != NULL && specifier_ast->type == AST_TYPE_STRUCT ? specifier_ast : NULL;
+}
+
 ResolverDTypeReturn* resolve_decl_specifiers(Resolver* resolver) {
     ResolverDTypeReturn* resolve_type_specifier_list(Resolver * resolver);
 
@@ -200,7 +209,23 @@ ResolverDTypeReturn* resolve_type_specifier_list(Resolver* resolver) {
     return new_resolverret_dtype(dtype);
 }
 
+// a name that no other tag has had, so that types with tags of the same name in different scopes are told apart
+char* new_tag_name(Resolver* resolver, char* source_name) {
+    char* tag_name = new_string(source_name);
+    if (set_contains(resolver->tag_names, tag_name)) {
+        // no identifier contains a dot
+        resolver->tag_id++;
+        int length = snprintf(NULL, 0, "%s.%d", source_name, resolver->tag_id);
+        tag_name = realloc(tag_name, (length + 1) * sizeof(char));
+        sprintf(tag_name, "%s.%d", source_name, resolver->tag_id);
+    }
+    set_add(resolver->tag_names, new_string(tag_name));
+    return tag_name;
+}
+
 ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
+    char* new_tag_name(Resolver * resolver, char* source_name);
+
     DType* dtype = NULL;
     Vector* errs = NULL;
     Error* err = NULL;
@@ -216,11 +241,29 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
 
     Vector* members = NULL;
     child_ast = vector_at(ast->children, struct_name != NULL ? 1 : 0);
-    if (child_ast != NULL && child_ast->type == AST_STRUCT_DECL_LIST) {
+    int has_members = child_ast != NULL && child_ast->type == AST_STRUCT_DECL_LIST;
+
+    char* tag_name = NULL;
+    if (struct_name != NULL) {
+        // a declaration of the tag alone hides a tag of an outer scope as a definition does
+        tag_name = has_members || ast == resolver->tag_declaration_ast
+                       ? tagtable_name_in_scope(resolver->tag_table, struct_name)
+                       : tagtable_visible_name(resolver->tag_table, struct_name);
+    }
+    if (struct_name != NULL && tag_name == NULL) {
+        char* declared_name = new_tag_name(resolver, struct_name);
+        tagtable_declare_struct(resolver->tag_table, new_string(struct_name), declared_name);
+        tag_name = tagtable_name_in_scope(resolver->tag_table, struct_name);
+    }
+
+    if (has_members) {
         resolver->ast = child_ast;
         resolverret_dstructmembers_assign(&members, &errs, resolve_struct_decl_list(resolver));
         resolver->ast = ast;
     }
+    if (struct_name != NULL && has_members) {
+        tag_name = tagtable_name_in_scope(resolver->tag_table, struct_name);
+    }
     if (errs != NULL) {
         if (struct_name != NULL) {
             free(struct_name);
@@ -234,24 +277,21 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     }
 
     if (members == NULL) {
-        DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
-        int nbytes = 0, alignment = 0;
-        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_STRUCT) {
+        DType* tag_dtype = tagtable_search(resolver->tag_table, tag_name);
+        if (tag_dtype->type != DTYPE_STRUCT) {
             errs = new_vector(&t_error);
             err = new_error("tag '%s' is not a struct", struct_name);
             vector_push(errs, err);
             free(struct_name);
             return new_resolverret_dtype_errors(errs);
         }
-        if (unnamed_dtype != NULL) {
-            nbytes = unnamed_dtype->dstruct->nbytes;
-            alignment = unnamed_dtype->dstruct->alignment;
-        }
-        dtype = new_named_struct_dtype(struct_name, nbytes, alignment);
+        dtype = new_named_struct_dtype(new_string(tag_name), tag_dtype->dstruct->nbytes, tag_dtype->dstruct->alignment);
+        free(struct_name);
         return new_resolverret_dtype(dtype);
     }
 
-    if (!tagtable_can_define(resolver->tag_table, struct_name)) {
+    if (!tagtable_can_define(resolver->tag_table, tag_name) ||
+        tagtable_search(resolver->tag_table, tag_name)->type != DTYPE_STRUCT) {
         errs = new_vector(&t_error);
         err = new_error("tag '%s' is already declared", struct_name);
         vector_push(errs, err);
@@ -260,13 +300,14 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
         return new_resolverret_dtype_errors(errs);
     }
 
-    tagtable_define_struct(resolver->tag_table, new_string(struct_name), members);
+    free(struct_name);
+    tagtable_define_struct(resolver->tag_table, new_string(tag_name), members);
 
-    DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
-    Srt* tag_decl_srt = new_identifier_srt(SRT_TAG_DECL, dtype_copy(unnamed_dtype), new_string(struct_name));
+    DType* unnamed_dtype = tagtable_search(resolver->tag_table, tag_name);
+    Srt* tag_decl_srt = new_identifier_srt(SRT_TAG_DECL, dtype_copy(unnamed_dtype), new_string(tag_name));
     vector_push(resolver->scope_srt->children, tag_decl_srt);
 
-    dtype = new_named_struct_dtype(struct_name, unnamed_dtype->dstruct->nbytes, unnamed_dtype->dstruct->alignment);
+    dtype = new_named_struct_dtype(new_string(tag_name), unnamed_dtype->dstruct->nbytes, unnamed_dtype->dstruct->alignment);
     return new_resolverret_dtype(dtype);
 }
 
@@ -451,6 +492,8 @@ ResolverReturnDStructMember* resolve_struct_declarator(Resolver* resolver) {
 }
 
 ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
+    char* new_tag_name(Resolver * resolver, char* source_name);
+
     DType* dtype = NULL;
     Vector* errs = NULL;
     Error* err = NULL;
@@ -466,11 +509,27 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
 
     Vector* members = NULL;
     child_ast = vector_at(ast->children, enum_name != NULL ? 1 : 0);
-    if (child_ast != NULL && child_ast->type == AST_ENUMOR_LIST) {
+    int has_members = child_ast != NULL && child_ast->type == AST_ENUMOR_LIST;
+
+    char* tag_name = NULL;
+    if (enum_name != NULL) {
+        tag_name = has_members ? tagtable_name_in_scope(resolver->tag_table, enum_name)
+                               : tagtable_visible_name(resolver->tag_table, enum_name);
+    }
+    if (enum_name != NULL && tag_name == NULL) {
+        char* declared_name = new_tag_name(resolver, enum_name);
+        tagtable_declare_enum(resolver->tag_table, new_string(enum_name), declared_name);
+        tag_name = tagtable_name_in_scope(resolver->tag_table, enum_name);
+    }
+
+    if (has_members) {
         resolver->ast = child_ast;
         resolverret_denummembers_assign(&members, &errs, resolve_enumerator_list(resolver));
         resolver->ast = ast;
     }
+    if (enum_name != NULL && has_members) {
+        tag_name = tagtable_name_in_scope(resolver->tag_table, enum_name);
+    }
     if (errs != NULL) {
         if (enum_name != NULL) {
             free(enum_name);
@@ -485,8 +544,7 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
     }
 
     if (members == NULL) {
-        DType* unnamed_dtype = tagtable_search(resolver->tag_table, enum_name);
-        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_ENUM) {
+        if (tagtable_search(resolver->tag_table, tag_name)->type != DTYPE_ENUM) {
             errs = new_vector(&t_error);
             err = new_error("tag '%s' is not an enum", enum_name);
             vector_push(errs, err);
@@ -498,7 +556,8 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
         return new_resolverret_dtype(dtype);
     }
 
-    if (!tagtable_can_define(resolver->tag_table, enum_name)) {
+    if (!tagtable_can_define(resolver->tag_table, tag_name) ||
+        tagtable_search(resolver->tag_table, tag_name)->type != DTYPE_ENUM) {
         errs = new_vector(&t_error);
         err = new_error("tag '%s' is already declared", enum_name);
         vector_push(errs, err);
@@ -507,7 +566,8 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
         return new_resolverret_dtype_errors(errs);
     }
 
-    tagtable_define_enum(resolver->tag_table, enum_name, members);
+    free(enum_name);
+    tagtable_define_enum(resolver->tag_table, new_string(tag_name), members);
 
     dtype = new_integer_dtype(DTYPE_INT);
     return new_resolverret_dtype(dtype);
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 1b9bd90..d064c47 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1463,10 +1463,11 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
         resolver->expr_dtype = tagtable_search(resolver->tag_table, resolver->expr_dtype->dstruct->name);
     }
 
-    if (resolver->expr_dtype == NULL) {
+    if (resolver->expr_dtype == NULL || resolver->expr_dtype->dstruct->members == NULL) {
         errs = new_vector(&t_error);
         err = new_error("struct '%s' is incomplete", lhs_srt->dtype->dpointer->to_dtype->dstruct->name);
         vector_push(errs, err);
+        resolver->expr_dtype = original_member_dtype;
         delete_srt(lhs_srt);
         return new_resolverret_errors(errs);
     }
diff --git a/src/resolver/resolver.c b/src/resolver/resolver.c
index 3a8d2f6..a338801 100644
--- a/src/resolver/resolver.c
+++ b/src/resolver/resolver.c
@@ -10,6 +10,9 @@ Resolver* new_resolver(Ast* ast) {
     resolver->scope_srt = NULL;
     resolver->symbol_table = new_symboltable();
     resolver->tag_table = new_tagtable();
+    resolver->tag_names = new_set(&t_hashable_string);
+    resolver->tag_id = 0;
+    resolver->tag_declaration_ast = NULL;
     resolver->inside_loop = 0;
     resolver->switch_cases = NULL;
     resolver->switch_default_exists = 0;
@@ -38,6 +41,7 @@ void delete_resolver(Resolver* resolver) {
     }
     delete_symboltable(resolver->symbol_table);
     delete_tagtable(resolver->tag_table);
+    delete_set(resolver->tag_names);
     if (resolver->switch_cases != NULL) {
         delete_vector(resolver->switch_cases);
     }
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 0ed5c8d..217d428 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -13,6 +13,9 @@ typedef struct Resolver {
     Srt* scope_srt;
     SymbolTable* symbol_table;
     TagTable* tag_table;
+    Set* tag_names;
+    int tag_id;
+    Ast* tag_declaration_ast;
     int inside_loop;
     Vector* switch_cases;
     int switch_default_exists;
diff --git a/src/tagtab/tagtab.c b/src/tagtab/tagtab.c
index 746fdb7..a9bf492 100644
--- a/src/tagtab/tagtab.c
+++ b/src/tagtab/tagtab.c
@@ -1,10 +1,15 @@
 #include "./tagtab.h"
 
+#include "../common/type.h"
+
 #include <stdlib.h>
 
+int is_defined_tag(DType* dtype);
+
 TagTable* new_tagtable(void) {
     TagTable* table = malloc(sizeof(TagTable));
     table->map = new_map(&t_hashable_string, &t_dtype);
+    table->names = new_map(&t_hashable_string, &t_string);
     table->outer_scope = NULL;
     return table;
 }
@@ -12,6 +17,7 @@ TagTable* new_tagtable(void) {
 TagTable* tagtable_copy(TagTable* table) {
     TagTable* copied_table = malloc(sizeof(TagTable));
     copied_table->map = map_copy(table->map);
+    copied_table->names = map_copy(table->names);
     copied_table->outer_scope = NULL;
     if (table->outer_scope != NULL) {
         copied_table->outer_scope = tagtable_copy(table->outer_scope);
@@ -19,8 +25,54 @@ TagTable* tagtable_copy(TagTable* table) {
     return copied_table;
 }
 
+// tags of the same name in the source have different names in the table if they are declared in different scopes
+char* tagtable_name_in_scope(TagTable* table, char* source_name) {
+    if (map_contains(table->names, source_name)) {
+        return map_get(table->names, source_name);
+    }
+    return map_contains(table->map, source_name) ? source_name : NULL;
+}
+
+char* tagtable_visible_name(TagTable* table, char* source_name) {
+    char* name = NULL;
+    while (table != NULL) {
+        name = tagtable_name_in_scope(table, source_name);
+        if (name != NULL) {
+            break;
+        }
+        table = table->outer_scope;
+    }
+    return name;
+}
+
+DType* tagtable_declare_struct(TagTable* table, char* source_name, char* name) {
+    DType* dtype = new_named_struct_dtype(new_string(name), 0, 0);
+    map_add(table->names, source_name, new_string(name));
+    map_add(table->map, name, dtype);
+    return dtype;
+}
+
+DType* tagtable_declare_enum(TagTable* table, char* source_name, char* name) {
+    DType* dtype = new_named_enum_dtype(new_string(name));
+    map_add(table->names, source_name, new_string(name));
+    map_add(table->map, name, dtype);
+    return dtype;
+}
+
 int tagtable_can_define(TagTable* table, char* name) {
-    return map_get(table->map, name) == NULL;
+    DType* dtype = map_get(table->map, name);
+    return dtype == NULL || !is_defined_tag(dtype);
+}
+
+int is_defined_tag(DType* dtype) {
+    switch (dtype->type) {
+        case DTYPE_STRUCT:
+            return dtype->dstruct->members != NULL;
+        case DTYPE_ENUM:
+            return dtype->denum->members != NULL;
+        default:
+            return 1;
+    }
 }
 
 DType* tagtable_search(TagTable* table, char* name) {
@@ -62,6 +114,7 @@ TagTable* tagtable_enter_scope(TagTable* table) {
 TagTable* tagtable_exit_scope(TagTable* table) {
     TagTable* outer_table = table->outer_scope;
     delete_map(table->map);
+    delete_map(table->names);
     free(table);
     return outer_table;
 }
@@ -71,5 +124,6 @@ void delete_tagtable(TagTable* table) {
         delete_tagtable(table->outer_scope);
     }
     delete_map(table->map);
+    delete_map(table->names);
     free(table);
 }
diff --git a/src/tagtab/tagtab.h b/src/tagtab/tagtab.h
index 33085da..94989f4 100644
--- a/src/tagtab/tagtab.h
+++ b/src/tagtab/tagtab.h
@@ -8,11 +8,16 @@ typedef struct TagTable TagTable;
 
 struct TagTable {
     Map* map;
+    Map* names;
     TagTable* outer_scope;
 };
 
 TagTable* new_tagtable(void);
 TagTable* tagtable_copy(TagTable* table);
+char* tagtable_name_in_scope(TagTable* table, char* source_name);
+char* tagtable_visible_name(TagTable* table, char* source_name);
+DType* tagtable_declare_struct(TagTable* table, char* source_name, char* name);
+DType* tagtable_declare_enum(TagTable* table, char* source_name, char* name);
 int tagtable_can_define(TagTable* table, char* name);
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members);
 DType* tagtable_define_enum(TagTable* table, char* name, Vector* members);
-- 
2.43.0


From e6a8cc0ab2838244a6b139d5b92bd83aec8515e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:39 +0000
Subject: [PATCH 57/58] fix: give the declarations in parameter lists a scope
 of their own

---
 src/resolver/declaration.c | 20 ++++++++++++++------
 src/resolver/external.c    | 28 ++++++++++++++++------------
 src/resolver/resolver.c    |  1 +
 src/resolver/resolver.h    |  1 +
 4 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 1f4a56e..84512cd 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -940,7 +940,18 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
 
                 Vector* func_dparams = NULL;
                 resolver->ast = vector_at(ast_ptr->children, 1);
-                resolverret_dparams_assign(&func_dparams, &errs, resolve_parameter_list(resolver));
+                if (ast_ptr == resolver->definition_ast) {
+                    // the parameters of a function definition have the scope of its body
+                    resolverret_dparams_assign(&func_dparams, &errs, resolve_parameter_list(resolver));
+                } else {
+                    int memory_nbytes = resolver->symbol_table->memory_nbytes;
+                    resolver->symbol_table = symboltable_enter_scope(resolver->symbol_table);
+                    resolver->tag_table = tagtable_enter_scope(resolver->tag_table);
+                    resolverret_dparams_assign(&func_dparams, &errs, resolve_parameter_list(resolver));
+                    resolver->tag_table = tagtable_exit_scope(resolver->tag_table);
+                    resolver->symbol_table = symboltable_exit_scope(resolver->symbol_table);
+                    resolver->symbol_table->memory_nbytes = memory_nbytes;
+                }
                 if (errs != NULL) {
                     break;
                 }
@@ -1068,8 +1079,6 @@ ResolverReturnDParams* resolve_parameter_list(Resolver* resolver) {
         return new_resolverret_dparams(dparams);
     }
 
-    Set* param_names_set = new_set(&t_hashable_string);
-
     int num_children = vector_size(ast->children);
     for (int i = 0; i < num_children; i++) {
         DParam* dparam = NULL;
@@ -1092,7 +1101,7 @@ ResolverReturnDParams* resolve_parameter_list(Resolver* resolver) {
             continue;
         }
 
-        if (set_contains(param_names_set, dparam->name)) {
+        if (!symboltable_can_define(resolver->symbol_table, dparam->name)) {
             if (errs == NULL) {
                 errs = new_vector(&t_error);
             }
@@ -1105,11 +1114,10 @@ ResolverReturnDParams* resolve_parameter_list(Resolver* resolver) {
         }
 
         vector_push(dparams, dparam);
-        set_add(param_names_set, new_string(dparam->name));
+        symboltable_define_memory(resolver->symbol_table, new_string(dparam->name), dtype_copy(dparam->dtype));
     }
 
     resolver->ast = ast;
-    delete_set(param_names_set);
     if (errs != NULL) {
         delete_vector(dparams);
         return new_resolverret_dparams_errors(errs);
diff --git a/src/resolver/external.c b/src/resolver/external.c
index f431866..dcbce8b 100644
--- a/src/resolver/external.c
+++ b/src/resolver/external.c
@@ -115,12 +115,20 @@ ResolverReturn* resolve_function_definition(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    resolver->symbol_table = symboltable_enter_scope(resolver->symbol_table);
+    resolver->symbol_table->memory_nbytes = 0;
+    resolver->tag_table = tagtable_enter_scope(resolver->tag_table);
+
     resolver->ast = vector_at(ast->children, 1);
+    resolver->definition_ast = resolver->ast;
     resolverret_assign(&declarator_srt, &errs, resolve_declarator(resolver));
+    resolver->definition_ast = NULL;
     resolver->ast = ast;
     if (errs != NULL) {
         delete_dtype(resolver->specifier_dtype);
         resolver->specifier_dtype = original_specifier_dtype;
+        resolver->tag_table = tagtable_exit_scope(resolver->tag_table);
+        resolver->symbol_table = symboltable_exit_scope(resolver->symbol_table);
         return new_resolverret_errors(errs);
     }
 
@@ -132,14 +140,18 @@ ResolverReturn* resolve_function_definition(Resolver* resolver) {
         err = new_error("non-function declaration has a function body");
         vector_push(errs, err);
         delete_srt(declarator_srt);
+        resolver->tag_table = tagtable_exit_scope(resolver->tag_table);
+        resolver->symbol_table = symboltable_exit_scope(resolver->symbol_table);
         return new_resolverret_errors(errs);
     }
 
-    if (!symboltable_can_define(resolver->symbol_table, declarator_srt->ident_name)) {
+    if (!symboltable_can_define(resolver->symbol_table->outer_scope, declarator_srt->ident_name)) {
         errs = new_vector(&t_error);
         err = new_error("identifier '%s' is already declared", declarator_srt->ident_name);
         vector_push(errs, err);
         delete_srt(declarator_srt);
+        resolver->tag_table = tagtable_exit_scope(resolver->tag_table);
+        resolver->symbol_table = symboltable_exit_scope(resolver->symbol_table);
         return new_resolverret_errors(errs);
     }
 
@@ -159,25 +171,17 @@ ResolverReturn* resolve_function_definition(Resolver* resolver) {
 
     if (errs != NULL) {
         delete_srt(declarator_srt);
+        resolver->tag_table = tagtable_exit_scope(resolver->tag_table);
+        resolver->symbol_table = symboltable_exit_scope(resolver->symbol_table);
         return new_resolverret_errors(errs);
     }
 
     char* symbol_name = new_string(declarator_srt->ident_name);
     DType* symbol_dtype = dtype_copy(declarator_srt->dtype);
-    symboltable_define_label(resolver->symbol_table, symbol_name, symbol_dtype);
+    symboltable_define_label(resolver->symbol_table->outer_scope, symbol_name, symbol_dtype);
 
-    resolver->symbol_table = symboltable_enter_scope(resolver->symbol_table);
-    resolver->symbol_table->memory_nbytes = 0;
-    resolver->tag_table = tagtable_enter_scope(resolver->tag_table);
     resolver->return_dtype = symbol_dtype->dfunction->return_dtype;
 
-    for (int i = 0; i < num_params; i++) {
-        DParam* dparam = vector_at(params, i);
-        char* symbol_name = new_string(dparam->name);
-        DType* symbol_dtype = dtype_copy(dparam->dtype);
-        symboltable_define_memory(resolver->symbol_table, symbol_name, symbol_dtype);
-    }
-
     resolver->ast = vector_at(ast->children, 2);
     resolverret_assign(&body_srt, &errs, resolve_compound_stmt(resolver));
     resolver->ast = ast;
diff --git a/src/resolver/resolver.c b/src/resolver/resolver.c
index a338801..498e11a 100644
--- a/src/resolver/resolver.c
+++ b/src/resolver/resolver.c
@@ -13,6 +13,7 @@ Resolver* new_resolver(Ast* ast) {
     resolver->tag_names = new_set(&t_hashable_string);
     resolver->tag_id = 0;
     resolver->tag_declaration_ast = NULL;
+    resolver->definition_ast = NULL;
     resolver->inside_loop = 0;
     resolver->switch_cases = NULL;
     resolver->switch_default_exists = 0;
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 217d428..14026b3 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -16,6 +16,7 @@ typedef struct Resolver {
     Set* tag_names;
     int tag_id;
     Ast* tag_declaration_ast;
+    Ast* definition_ast;
     int inside_loop;
     Vector* switch_cases;
     int switch_default_exists;
-- 
2.43.0


From 7706e4b78aa067bf30649fa6df343e8e3c874957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 58/58] fix: global objects are aligned as the ABI requires

---
 src/x64/label.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x64/label.c b/src/x64/label.c
index b650a8a..83d0eff 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -43,6 +43,10 @@ char* x64label_tostring(X64Label* x64label) {
 
     switch (x64label->visibility) {
         case X64_VIS_GLOBAL:
+            if (x64label->type == X64_LABEL_VARIABLE) {
+                // the largest alignment the ABI requires of an object
+                strcat(label_str, "\t.balign 16\n");
+            }
             strcat(label_str, "\t.globl ");
             strcat(label_str, x64label->name);
             strcat(label_str, "\n");
-- 
2.43.0

