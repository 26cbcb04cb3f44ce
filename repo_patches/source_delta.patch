From 1305d2960b38890bd5761fafa279f2e3f47740cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 01/24] fix: exec3() overwrote a variable referenced by its
 first argument

The reference returned by the first argument was reused as the result
location of the second one, so exec3(x, 5, 0) stored 5 in x.
---
 projectm-eval/TreeFunctions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index ecf986d..d666138 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -330,6 +330,8 @@ prjm_eval_function_decl(exec3)
     PRJM_EVAL_F* value_ptr = &ctx->value;
 
     invoke_arg(0, &value_ptr);
+    /* The first argument may have returned a reference. */
+    value_ptr = &ctx->value;
     invoke_arg(1, &value_ptr);
     invoke_arg(2, ret_val);
 }
-- 
2.43.0


From df3ce11af59494e8902cbaac63bdc22f4636ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 02/24] fix: while() overwrote a variable referenced by the
 previous iteration

The result location was only set up once before the loop. If an iteration
returned a reference and the next one a value, the value was stored in the
referenced variable or memory location.
---
 projectm-eval/TreeFunctions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index d666138..4e05e06 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -289,6 +289,8 @@ prjm_eval_function_decl(execute_while)
     int loop_count_int = MAX_LOOP_COUNT;
     do
     {
+        ctx->value = .0;
+        value_ptr = &ctx->value;
         invoke_arg(0, &value_ptr);
     } while (fabs(*value_ptr) > close_factor_low && --loop_count_int);
 
-- 
2.43.0


From 9073cc73406f6328ea68fd49d0a01c13f13223fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 03/24] fix: freembuf() freed memory still referenced and
 zeroed its argument

freembuf() is documented as a no-op, but released all blocks of megabuf
while references into them could still be in use by the running program,
e.g. in megabuf(0) = freembuf(0). It also stored its return value in the
variable or memory location passed as argument.
---
 projectm-eval/TreeFunctions.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 4e05e06..565af9d 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -377,9 +377,11 @@ prjm_eval_function_decl(freembuf)
     assert_valid_ctx();
     assert(ctx->memory_buffer);
 
-    invoke_arg(0, ret_val);
+    ctx->value = .0;
+    PRJM_EVAL_F* index_ptr = &ctx->value;
+    invoke_arg(0, &index_ptr);
 
-    prjm_eval_memory_free(ctx->memory_buffer);
+    prjm_eval_memory_free_block(ctx->memory_buffer, (int) (*index_ptr + 0.0001));
 
     assign_ret_val(.0);
 }
-- 
2.43.0


From 71265286bd4a24dd04c5b2c4679071ebdf19b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 04/24] fix: crash in % and %= with the divisor -1

INT_MIN % -1 raises SIGFPE on x86. Any left operand which doesn't fit into
an int is also converted to INT_MIN there.
---
 projectm-eval/TreeFunctions.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 565af9d..260d251 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -606,7 +606,8 @@ prjm_eval_function_decl(mod)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    /* The remainder of -1 is always 0, but INT_MIN % -1 overflows and raises SIGFPE. */
+    if (divisor == 0 || divisor == -1)
     {
         assign_ret_val(0.0);
         return;
@@ -807,7 +808,8 @@ prjm_eval_function_decl(modop)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    /* The remainder of -1 is always 0, but INT_MIN % -1 overflows and raises SIGFPE. */
+    if (divisor == 0 || divisor == -1)
     {
         assign_ret_val(0.0);
         return;
-- 
2.43.0


From 74747801e4d280dd97dcc28c169c9a5e0a2e972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 05/24] fix: memcpy() of overlapping areas across memory blocks

Blocks were always copied in ascending order, which overwrites values not
copied yet if the destination is behind the source.
---
 projectm-eval/MemoryBuffer.c | 45 ++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 7e21609..a38466f 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -133,6 +133,51 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
     PRJM_EVAL_F* src_pointer;
     PRJM_EVAL_F* dst_pointer;
 
+    // If the destination is behind the source, copy the last values first so no values are overwritten which
+    // still need to be copied.
+    if (offset_dest > offset_src)
+    {
+        int max_offset = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK;
+        if (offset_dest >= max_offset)
+        {
+            return dest;
+        }
+        if (count > max_offset - offset_dest)
+        {
+            count = max_offset - offset_dest;
+        }
+
+        while (count > 0)
+        {
+            int copy_length = count;
+
+            int max_dst_len = ((offset_dest + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+            int max_src_len = ((offset_src + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+
+            if (copy_length > max_dst_len)
+            {
+                copy_length = max_dst_len;
+            }
+            if (copy_length > max_src_len)
+            {
+                copy_length = max_src_len;
+            }
+
+            count -= copy_length;
+
+            src_pointer = prjm_eval_memory_allocate(buffer, offset_src + count);
+            dst_pointer = prjm_eval_memory_allocate(buffer, offset_dest + count);
+            if (!src_pointer || !dst_pointer)
+            {
+                break;
+            }
+
+            memmove(dst_pointer, src_pointer, sizeof(PRJM_EVAL_F) * copy_length);
+        }
+
+        return dest;
+    }
+
     while (count > 0)
     {
         int copy_length = count;
-- 
2.43.0


From 715fb625848be3349fd7b9d139974b35ed2bba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 06/24] fix: memset() and memcpy() trimmed ranges wrongly for
 large arguments

Arguments not fitting into an int became INT_MIN and the calculations then
overflowed, so memset(0, 1, 3e9) did nothing and memset(-1, 1, -1e300)
filled the whole buffer.
---
 projectm-eval/MemoryBuffer.c | 51 +++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index a38466f..f6ceb76 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -1,5 +1,6 @@
 #include "MemoryBuffer.h"
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -107,14 +108,28 @@ PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int inde
     return NULL;
 }
 
+/* Converts a memory offset or count, which may be larger than any integer, saturating it with enough headroom for calculations. */
+static int64_t prjm_eval_memory_to_offset(PRJM_EVAL_F value)
+{
+    const int64_t limit = INT64_C(1) << 60;
+
+    if (value < (PRJM_EVAL_F) limit)
+    {
+        return value > (PRJM_EVAL_F) -limit ? (int64_t) (value + 0.0001) : -limit;
+    }
+
+    /* NaN is never inside any range */
+    return value >= (PRJM_EVAL_F) limit ? limit : -limit;
+}
+
 PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
                                    PRJM_EVAL_F* dest,
                                    PRJM_EVAL_F* src,
                                    PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int offset_src = (int) (*src + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int64_t offset_dest = prjm_eval_memory_to_offset(*dest);
+    int64_t offset_src = prjm_eval_memory_to_offset(*src);
+    int64_t count = prjm_eval_memory_to_offset(*len);
 
     // Trim to front if an offset is less than zero.
     if (offset_src < 0)
@@ -137,7 +152,7 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
     // still need to be copied.
     if (offset_dest > offset_src)
     {
-        int max_offset = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK;
+        int64_t max_offset = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK;
         if (offset_dest >= max_offset)
         {
             return dest;
@@ -149,10 +164,10 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
 
         while (count > 0)
         {
-            int copy_length = count;
+            int64_t copy_length = count;
 
-            int max_dst_len = ((offset_dest + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
-            int max_src_len = ((offset_src + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+            int64_t max_dst_len = ((offset_dest + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+            int64_t max_src_len = ((offset_src + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
 
             if (copy_length > max_dst_len)
             {
@@ -165,8 +180,8 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
 
             count -= copy_length;
 
-            src_pointer = prjm_eval_memory_allocate(buffer, offset_src + count);
-            dst_pointer = prjm_eval_memory_allocate(buffer, offset_dest + count);
+            src_pointer = prjm_eval_memory_allocate(buffer, (int) (offset_src + count));
+            dst_pointer = prjm_eval_memory_allocate(buffer, (int) (offset_dest + count));
             if (!src_pointer || !dst_pointer)
             {
                 break;
@@ -180,10 +195,10 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
 
     while (count > 0)
     {
-        int copy_length = count;
+        int64_t copy_length = count;
 
-        int max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-        int max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
 
         if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK ||
             offset_src >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
@@ -205,8 +220,8 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
             break;
         }
 
-        src_pointer = prjm_eval_memory_allocate(buffer, offset_src);
-        dst_pointer = prjm_eval_memory_allocate(buffer, offset_dest);
+        src_pointer = prjm_eval_memory_allocate(buffer, (int) offset_src);
+        dst_pointer = prjm_eval_memory_allocate(buffer, (int) offset_dest);
         if (!src_pointer || !dst_pointer)
         {
             break;
@@ -226,8 +241,8 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
                                   PRJM_EVAL_F* value,
                                   PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int64_t offset_dest = prjm_eval_memory_to_offset(*dest);
+    int64_t count = prjm_eval_memory_to_offset(*len);
 
     // Trim to front
     if (offset_dest < 0)
@@ -254,13 +269,13 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
     PRJM_EVAL_F val = *value;
     while(count > 0)
     {
-        PRJM_EVAL_F* block_pointer = prjm_eval_memory_allocate(buffer, offset_dest);
+        PRJM_EVAL_F* block_pointer = prjm_eval_memory_allocate(buffer, (int) offset_dest);
         if (!block_pointer)
         {
             break;
         }
 
-        int block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
         if (block_count > count)
         {
             block_count = count;
-- 
2.43.0


From ef833b6d8981f1cb597893a4b9319d7be2600808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 07/24] fix: destroyed built-in global buffer was used by later
 contexts

Contexts created after projectm_eval_memory_global_destroy() received the
freed buffer, and destroying it again freed it twice.
---
 projectm-eval/MemoryBuffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index f6ceb76..2a5faf7 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -12,6 +12,7 @@ static projectm_eval_mem_buffer static_global_memory;
 void prjm_eval_memory_destroy_global()
 {
     prjm_eval_memory_destroy_buffer(static_global_memory);
+    static_global_memory = NULL;
 }
 
 projectm_eval_mem_buffer prjm_eval_memory_global()
-- 
2.43.0


From 75f0445b488ad750ee96591931969182497f0a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 08/24] fix: threads could create the built-in global buffer
 twice

The pointer wasn't checked again after acquiring the lock, leaving two
contexts with different global buffers and leaking one of them.
---
 projectm-eval/MemoryBuffer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 2a5faf7..22d1a98 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -21,7 +21,10 @@ projectm_eval_mem_buffer prjm_eval_memory_global()
     {
         projectm_eval_memory_host_lock_mutex();
 
-        static_global_memory = prjm_eval_memory_create_buffer();
+        if (!static_global_memory)
+        {
+            static_global_memory = prjm_eval_memory_create_buffer();
+        }
 
         projectm_eval_memory_host_unlock_mutex();
     }
-- 
2.43.0


From 0b3713b1d2f2cadd7d399ea61b8470253a5a2d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 09/24] fix: compile errors were leaked and never cleared

The API documents that the error message is cleared every time new code is
compiled.
---
 projectm-eval/CompileContext.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 54fbd56..c3f6b85 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -88,6 +88,10 @@ prjm_eval_program_t* prjm_eval_compile_code(prjm_eval_compiler_context_t* cctx,
 {
     yyscan_t scanner;
 
+    /* Clear the error of the previous compilation. */
+    free(cctx->error.error);
+    memset(&cctx->error, 0, sizeof(cctx->error));
+
     prjm_eval_lex_init(&scanner);
     YY_BUFFER_STATE bufferState = prjm_eval__scan_string(code, scanner);
 
-- 
2.43.0


From aa6a606495b6ed1e6d712bf9ca9e7e5809a983e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 10/24] fix: syntax errors leaked all values on the parser
 stack

Add destructors for discarded symbols, and free the function name and
arguments of calls with a wrong argument count.
---
 projectm-eval/Compiler.c          | 44 ++++++++++++++++++++++++++-----
 projectm-eval/Compiler.h          |  1 -
 projectm-eval/Compiler.y          |  7 ++++-
 projectm-eval/CompilerFunctions.c |  2 ++
 projectm-eval/CompilerFunctions.h |  2 +-
 5 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index b7ef064..7fbae62 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -518,11 +518,11 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    77,    77,    78,    88,    92,    93,    97,   101,   102,
-     103,   107,   108,   114,   115,   118,   121,   122,   123,   130,
-     131,   132,   133,   134,   135,   136,   137,   140,   141,   142,
-     143,   144,   145,   148,   149,   152,   155,   158,   161,   162,
-     163,   164,   165,   166,   167,   168,   171,   172,   173,   176
+       0,    82,    82,    83,    93,    97,    98,   102,   106,   107,
+     108,   112,   113,   119,   120,   123,   126,   127,   128,   135,
+     136,   137,   138,   139,   140,   141,   142,   145,   146,   147,
+     148,   149,   150,   153,   154,   157,   160,   163,   166,   167,
+     168,   169,   170,   171,   172,   173,   176,   177,   178,   181
 };
 #endif
 
@@ -1569,7 +1569,39 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_VAR: /* VAR  */
+            { free(((*yyvaluep).VAR)); }
+        break;
+
+    case YYSYMBOL_FUNC: /* FUNC  */
+            { free(((*yyvaluep).FUNC)); }
+        break;
+
+    case YYSYMBOL_function: /* function  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).function)); }
+        break;
+
+    case YYSYMBOL_46_function_arglist: /* function-arglist  */
+            { prjm_eval_compiler_destroy_arglist(((*yyvaluep).yykind_46)); }
+        break;
+
+    case YYSYMBOL_parentheses: /* parentheses  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).parentheses)); }
+        break;
+
+    case YYSYMBOL_48_instruction_list: /* instruction-list  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).yykind_48)); }
+        break;
+
+    case YYSYMBOL_expression: /* expression  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).expression)); }
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
diff --git a/projectm-eval/Compiler.h b/projectm-eval/Compiler.h
index ae5e1c3..82053b8 100644
--- a/projectm-eval/Compiler.h
+++ b/projectm-eval/Compiler.h
@@ -103,7 +103,6 @@ union PRJM_EVAL_STYPE
   char* VAR;                               /* VAR  */
   char* FUNC;                              /* FUNC  */
   prjm_eval_compiler_arg_list_t* yykind_46; /* function-arglist  */
-  prjm_eval_compiler_node_t* program;      /* program  */
   prjm_eval_compiler_node_t* function;     /* function  */
   prjm_eval_compiler_node_t* parentheses;  /* parentheses  */
   prjm_eval_compiler_node_t* yykind_48;    /* instruction-list  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index b035e0b..59f28dc 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -44,9 +44,14 @@ typedef void* yyscan_t;
 /* Value types */
 %token <PRJM_EVAL_F> NUM
 %token <char*> VAR FUNC
-%nterm <prjm_eval_compiler_node_t*> function program instruction-list expression parentheses
+%nterm <prjm_eval_compiler_node_t*> function instruction-list expression parentheses
 %nterm <prjm_eval_compiler_arg_list_t*> function-arglist
 
+/* Free values of symbols discarded on errors */
+%destructor { free($$); } <char*>
+%destructor { prjm_eval_compiler_destroy_node($$); } <prjm_eval_compiler_node_t*>
+%destructor { prjm_eval_compiler_destroy_arglist($$); } <prjm_eval_compiler_arg_list_t*>
+
 /* Operator precedence, lowest first, highest last. */
 %precedence ','
 %right '='
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 41be59e..dfb4607 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -126,6 +126,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     if (!func)
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Unknown function \"%s\".", name)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
@@ -133,6 +134,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Invalid argument count for function \"%s\": Expected %d, but %d given.",
                               name, func->arg_count, arglist->count)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index 43c1215..a151cbb 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -6,7 +6,7 @@
 #define PRJM_EVAL_FUNC(ret, name, args) {\
         char* errval = NULL; \
         ret = prjm_eval_compiler_create_function(cctx, name, args, &errval); \
-        if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }\
+        if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); free(name); YYERROR; }\
     }
 
 #define PRJM_EVAL_FUNC1(ret, name, arg1) {\
-- 
2.43.0


From 35eda1e9263e3b960da5d3cc46355e6bca255e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 11/24] fix: block comments were written to stdout

Without a rule for the characters inside of a comment, flex applied its
default rule and echoed them.
---
 projectm-eval/Scanner.c | 128 +++++++++++++++++++++-------------------
 projectm-eval/Scanner.l |   1 +
 2 files changed, 67 insertions(+), 62 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index d54c3e8..551d7b2 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -755,8 +755,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -766,14 +766,14 @@ struct yy_trans_info
 	};
 static const flex_int16_t yy_accept[80] =
     {   0,
-        0,    0,    0,    0,    0,    0,   52,   50,   49,   49,
-       39,   50,   35,   37,   41,   42,   33,   31,   47,   32,
-       50,   34,   13,   46,   48,   29,   40,   30,   45,   14,
-       14,   43,   44,   36,   38,   51,    3,   51,    6,    5,
-       26,    0,   10,    0,    0,   17,   28,   19,   21,   15,
-       16,   13,    1,    4,   20,   13,   13,    0,   24,   23,
-       25,   14,   14,   22,   18,   27,    2,    0,    0,    9,
-        7,   13,    0,   13,   14,    8,   11,   12,    0
+        0,    0,    0,    0,    0,    0,   53,   51,   50,   50,
+       40,   51,   36,   38,   42,   43,   34,   32,   48,   33,
+       51,   35,   14,   47,   49,   30,   41,   31,   46,   15,
+       15,   44,   45,   37,   39,    4,    3,    4,    7,    6,
+       27,    0,   11,    0,    0,   18,   29,   20,   22,   16,
+       17,   14,    1,    5,   21,   14,   14,    0,   25,   24,
+       26,   15,   15,   23,   19,   28,    2,    0,    0,   10,
+        8,   14,    0,   14,   15,    9,   12,   13,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -889,11 +889,11 @@ static const flex_int16_t yy_chk[169] =
 
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
+0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -1396,19 +1396,23 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-{ BEGIN(IL_COMMENT); }
+{ }
 	YY_BREAK
 case 5:
-/* rule 5 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); }
+{ BEGIN(IL_COMMENT); }
 	YY_BREAK
 case 6:
+/* rule 6 can match eol */
+YY_RULE_SETUP
+{ BEGIN(INITIAL); }
+	YY_BREAK
+case 7:
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* Constants */
-case 7:
+case 8:
 YY_RULE_SETUP
 {
                         char* p = yytext + 2;
@@ -1416,34 +1420,34 @@ YY_RULE_SETUP
                         return NUM;
                         }
 	YY_BREAK
-case 8:
+case 9:
 YY_RULE_SETUP
 { yylval->NUM = *(char*)(yytext + 2); return NUM; }
 	YY_BREAK
-case 9:
+case 10:
 YY_RULE_SETUP
 { yylval->NUM = 3.141592653589793f; return NUM; }
 	YY_BREAK
-case 10:
+case 11:
 YY_RULE_SETUP
 { yylval->NUM = 2.71828183f; return NUM; }
 	YY_BREAK
-case 11:
+case 12:
 YY_RULE_SETUP
 { yylval->NUM = 1.61803399f; return NUM; }
 	YY_BREAK
-case 12:
+case 13:
 YY_RULE_SETUP
 { return GMEM; }
 	YY_BREAK
-case 13:
+case 14:
 YY_RULE_SETUP
 {
                         yylval->NUM = atof(yytext);
                         return NUM;
                     }
 	YY_BREAK
-case 14:
+case 15:
 YY_RULE_SETUP
 {
                         if (prjm_eval_compiler_name_is_function(cctx, yytext))
@@ -1456,156 +1460,156 @@ YY_RULE_SETUP
                     }
 	YY_BREAK
 /* Operators */
-case 15:
+case 16:
 YY_RULE_SETUP
 { return ADDOP; }
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
 { return SUBOP; }
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
 { return MODOP; }
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
 { return OROP; }
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
 { return ANDOP; }
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
 { return DIVOP; }
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
 { return MULOP; }
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
 { return POWOP; }
 	YY_BREAK
-case 23:
+case 24:
 YY_RULE_SETUP
 { return EQUAL; }
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
 { return BELEQ; }
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
 { return ABOEQ; }
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
 { return NOTEQ; }
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
 { return BOOLOR; }
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
 { return BOOLAND; }
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
 { return '<'; }
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
 { return '>'; }
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
 { return '+'; }
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
 { return '-'; }
 	YY_BREAK
-case 33:
+case 34:
 YY_RULE_SETUP
 { return '*'; }
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
 { return '/'; }
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 39:
+case 40:
 YY_RULE_SETUP
 { return '!'; }
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
 { return '='; }
 	YY_BREAK
 /* Syntactic elements */
-case 41:
+case 42:
 YY_RULE_SETUP
 { return '('; }
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
 { return ')'; }
 	YY_BREAK
-case 43:
+case 44:
 YY_RULE_SETUP
 { return '['; }
 	YY_BREAK
-case 44:
+case 45:
 YY_RULE_SETUP
 { return ']'; }
 	YY_BREAK
-case 45:
+case 46:
 YY_RULE_SETUP
 { return '?'; }
 	YY_BREAK
-case 46:
+case 47:
 YY_RULE_SETUP
 { return ':'; }
 	YY_BREAK
-case 47:
+case 48:
 YY_RULE_SETUP
 { return ','; }
 	YY_BREAK
 /* Expression terminator */
-case 48:
+case 49:
 YY_RULE_SETUP
 { return ';'; }
 	YY_BREAK
 /* Ignored whitespace */
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* All other tokens are invalid */
-case 50:
+case 51:
 YY_RULE_SETUP
 { return PRJM_EVAL_UNDEF; }
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 883c55b..bcf381f 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -49,6 +49,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/*"                { BEGIN(ML_COMMENT); }
 <ML_COMMENT>"*/"    { BEGIN(INITIAL); }
 <ML_COMMENT>\n      { }
+<ML_COMMENT>.       { }
 
 "//"                { BEGIN(IL_COMMENT); }
 <IL_COMMENT>\n      { BEGIN(INITIAL); }
-- 
2.43.0


From a39b04d807b5ea8abdcc3ddeb5ed775738c144a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 12/24] fix: error column wasn't reset at the beginning of a
 new line

The column was counted from the beginning of the code, not of the line.
---
 projectm-eval/Scanner.c | 4 ++++
 projectm-eval/Scanner.h | 4 ++++
 projectm-eval/Scanner.l | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 551d7b2..eba2cd9 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -10,6 +10,10 @@
     {                                            \
         int old_column = yycolumn;               \
         yycolumn += strlen(yytext);              \
+        if (*yytext == '\n')                     \
+        {                                        \
+            yycolumn = 0;                        \
+        }                                        \
         yylloc_param->first_line = yylineno;     \
         yylloc_param->first_column = old_column; \
         yylloc_param->last_line = yylineno;      \
diff --git a/projectm-eval/Scanner.h b/projectm-eval/Scanner.h
index 0ef2aac..6bda156 100644
--- a/projectm-eval/Scanner.h
+++ b/projectm-eval/Scanner.h
@@ -14,6 +14,10 @@
     {                                            \
         int old_column = yycolumn;               \
         yycolumn += strlen(yytext);              \
+        if (*yytext == '\n')                     \
+        {                                        \
+            yycolumn = 0;                        \
+        }                                        \
         yylloc_param->first_line = yylineno;     \
         yylloc_param->first_column = old_column; \
         yylloc_param->last_line = yylineno;      \
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index bcf381f..b98c870 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -21,6 +21,10 @@
     {                                            \
         int old_column = yycolumn;               \
         yycolumn += strlen(yytext);              \
+        if (*yytext == '\n')                     \
+        {                                        \
+            yycolumn = 0;                        \
+        }                                        \
         yylloc_param->first_line = yylineno;     \
         yylloc_param->first_column = old_column; \
         yylloc_param->last_line = yylineno;      \
-- 
2.43.0


From 1969072f70385bd9fb686e6b9d634a29c2f0c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 13/24] fix: $PI, $E and $PHI were rounded to single precision

---
 projectm-eval/Scanner.c | 6 +++---
 projectm-eval/Scanner.l | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index eba2cd9..e435727 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1430,15 +1430,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-{ yylval->NUM = 3.141592653589793f; return NUM; }
+{ yylval->NUM = 3.141592653589793; return NUM; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-{ yylval->NUM = 2.71828183f; return NUM; }
+{ yylval->NUM = 2.71828183; return NUM; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-{ yylval->NUM = 1.61803399f; return NUM; }
+{ yylval->NUM = 1.61803399; return NUM; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index b98c870..8a2d267 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -66,9 +66,9 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
                         return NUM;
                         }
 "$'"."'"            { yylval->NUM = *(char*)(yytext + 2); return NUM; }
-"$"(?i:pi)          { yylval->NUM = 3.141592653589793f; return NUM; }
-"$"[eE]             { yylval->NUM = 2.71828183f; return NUM; }
-"$"(?i:phi)         { yylval->NUM = 1.61803399f; return NUM; }
+"$"(?i:pi)          { yylval->NUM = 3.141592653589793; return NUM; }
+"$"[eE]             { yylval->NUM = 2.71828183; return NUM; }
+"$"(?i:phi)         { yylval->NUM = 1.61803399; return NUM; }
 
 (?i:gmem)           { return GMEM; }
 
-- 
2.43.0


From c13e216748ce3d09a5bb079812ac5232527123ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 14/24] fix: & and | were read as % and ^

The operators returned the tokens of modulo and power. The grammar also
mapped them to the boolean functions, but they are documented as bitwise
operators, like their assignment forms.
---
 projectm-eval/Compiler.c      |  4 ++--
 projectm-eval/Compiler.y      |  4 ++--
 projectm-eval/Scanner.c       |  4 ++--
 projectm-eval/Scanner.l       |  4 ++--
 projectm-eval/TreeFunctions.c | 32 ++++++++++++++++++++++++++++++++
 projectm-eval/TreeFunctions.h |  2 ++
 6 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index 7fbae62..2a34677 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2084,11 +2084,11 @@ yyreduce:
     break;
 
   case 44: /* expression: expression '|' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*bitor*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 45: /* expression: expression '&' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*bitand*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 46: /* expression: '-' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index 59f28dc..b8e4559 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -169,8 +169,8 @@ expression:
 | expression[left] '/' expression[right] { PRJM_EVAL_FUNC2($$, "_div", $left, $right) }
 | expression[left] '%' expression[right] { PRJM_EVAL_FUNC2($$, "_mod", $left, $right) }
 | expression[left] '^' expression[right] { PRJM_EVAL_FUNC2($$, "pow", $left, $right) }
-| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "/*bitor*/", $left, $right) }
+| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "/*bitand*/", $left, $right) }
 
 /* Unary operators */
 | '-' expression[value] %prec NEG        { PRJM_EVAL_FUNC1($$, "_neg", $value) }
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index e435727..63ffe89 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1554,11 +1554,11 @@ YY_RULE_SETUP
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return '%'; }
+{ return '&'; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return '^'; }
+{ return '|'; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 8a2d267..d9d559a 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -110,8 +110,8 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/"                 { return '/'; }
 "%"                 { return '%'; }
 "^"	                { return '^'; }
-"&"                 { return '%'; }
-"|"	                { return '^'; }
+"&"                 { return '&'; }
+"|"	                { return '|'; }
 "!"	                { return '!'; }
 "="	                { return '='; }
 
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 260d251..2c94b81 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -21,6 +21,8 @@ static prjm_eval_function_def_t intrinsic_function_table[] = {
     { "/*const*/", prjm_eval_func_const,         0, true,  false },
     { "/*var*/",   prjm_eval_func_var,           0, false, false },
     { "/*list*/",  prjm_eval_func_execute_list,  1, true,  false },
+    { "/*bitor*/", prjm_eval_func_bitwise_or,   2, true,  false },
+    { "/*bitand*/", prjm_eval_func_bitwise_and, 2, true,  false },
 
     { "if",        prjm_eval_func_if,            3, true,  false },
     { "_if",       prjm_eval_func_if,            3, true,  false },
@@ -615,6 +617,36 @@ prjm_eval_function_decl(mod)
     assign_ret_val((PRJM_EVAL_F) ((int) *val1_ptr % divisor));
 }
 
+prjm_eval_function_decl(bitwise_or)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) ((int)(*val1_ptr) | (int)(*val2_ptr)));
+}
+
+prjm_eval_function_decl(bitwise_and)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) ((int)(*val1_ptr) & (int)(*val2_ptr)));
+}
+
 prjm_eval_function_decl(band_op)
 {
     assert_valid_ctx();
diff --git a/projectm-eval/TreeFunctions.h b/projectm-eval/TreeFunctions.h
index db0dea2..fdcbb0c 100644
--- a/projectm-eval/TreeFunctions.h
+++ b/projectm-eval/TreeFunctions.h
@@ -56,6 +56,8 @@ prjm_eval_function_decl(sub);
 prjm_eval_function_decl(mul);
 prjm_eval_function_decl(div);
 prjm_eval_function_decl(mod);
+prjm_eval_function_decl(bitwise_or);
+prjm_eval_function_decl(bitwise_and);
 prjm_eval_function_decl(band_op);
 prjm_eval_function_decl(bor_op);
 prjm_eval_function_decl(band_func);
-- 
2.43.0


From 09763eae1d37d6071e10fb6ac8e64a0d3697ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 15/24] fix: && and || always evaluated both operands

The operators were mapped to the functions band() and bor() instead of
their own implementations _and and _or, as documented.
---
 projectm-eval/Compiler.c | 4 ++--
 projectm-eval/Compiler.y | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index 2a34677..3140ca1 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2040,11 +2040,11 @@ yyreduce:
     break;
 
   case 33: /* expression: expression BOOLOR expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_or", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 34: /* expression: expression BOOLAND expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_and", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 35: /* expression: expression '=' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index b8e4559..6890606 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -150,8 +150,8 @@ expression:
 | expression[left] '>' expression[right]       { PRJM_EVAL_FUNC2($$, "_above", $left, $right) }
 
 /* Boolean operators */
-| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "_or", $left, $right) }
+| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "_and", $left, $right) }
 
 /* Assignment operator */
 | expression[left] '=' expression[right]           { PRJM_EVAL_FUNC2($$, "_set", $left, $right) }
-- 
2.43.0


From 69b2cf4d332f13aba23f948d7bf3fbfca23e6b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 16/24] fix: loop() with a huge count didn't execute at all

Counts not fitting into an int were converted to INT_MIN.
---
 projectm-eval/TreeFunctions.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 2c94b81..f5c9106 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -265,12 +265,13 @@ prjm_eval_function_decl(execute_loop)
     PRJM_EVAL_F* value_ptr = &ctx->value;
     invoke_arg(0, &value_ptr);
 
-    int loop_count_int = (int) (*value_ptr);
-    /* Limit execution count */
-    if (loop_count_int > MAX_LOOP_COUNT)
+    PRJM_EVAL_F loop_count = *value_ptr;
+    /* Limit execution count, before converting it as it might not fit into an int */
+    if (loop_count > MAX_LOOP_COUNT)
     {
-        loop_count_int = MAX_LOOP_COUNT;
+        loop_count = MAX_LOOP_COUNT;
     }
+    int loop_count_int = (int) loop_count;
 
     for (int i = 0; i < loop_count_int; i++)
     {
-- 
2.43.0


From 999c2c1d37676cf6cd41ea15e9ca5556171804bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 17/24] fix: crash if memory for a context couldn't be
 allocated

projectm_eval_context_create() is documented to return NULL in this case.
---
 projectm-eval/CompileContext.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index c3f6b85..0647ab9 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -13,6 +13,10 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
                                                                PRJM_EVAL_F (* global_variables)[100])
 {
     prjm_eval_compiler_context_t* cctx = calloc(1, sizeof(prjm_eval_compiler_context_t));
+    if (!cctx)
+    {
+        return NULL;
+    }
 
     prjm_eval_intrinsic_function_list intrinsics;
     int intrinsics_count = 0;
@@ -26,13 +30,23 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
     {
         assert(&intrinsics[index]);
         prjm_eval_function_list_item_t* func = malloc(sizeof(prjm_eval_function_list_item_t));
-        func->function = malloc(sizeof(prjm_eval_function_def_t));
+        prjm_eval_function_def_t* func_def = malloc(sizeof(prjm_eval_function_def_t));
+        char* func_name = strdup(intrinsics[index].name);
+        if (!func || !func_def || !func_name)
+        {
+            free(func);
+            free(func_def);
+            free(func_name);
+            prjm_eval_destroy_compile_context(cctx);
+            return NULL;
+        }
+        func->function = func_def;
         memcpy(func->function, &intrinsics[index], sizeof(prjm_eval_function_def_t));
-        func->function->name = strdup(intrinsics[index].name);
+        func->function->name = func_name;
         func->next = last_func;
         last_func = func;
+        cctx->functions.first = last_func;
     }
-    cctx->functions.first = last_func;
 
     cctx->memory = prjm_eval_memory_create_buffer();
 
@@ -45,6 +59,12 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
         cctx->global_memory = prjm_eval_memory_global();
     }
 
+    if (!cctx->memory || !cctx->global_memory)
+    {
+        prjm_eval_destroy_compile_context(cctx);
+        return NULL;
+    }
+
     cctx->global_variables = global_variables;
 
     return cctx;
-- 
2.43.0


From 977945a1866eb3762ee095fa8919e99a6f1e0772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 18/24] fix: concurrent rand() calls accessed memory outside of
 the generator state

All contexts share the state and index of the generator, which were used
without any lock, so another thread could increase the index past the end
of the state or observe a partially initialized generator.
---
 projectm-eval/TreeFunctions.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index f5c9106..acb94c4 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -1141,7 +1141,12 @@ prjm_eval_function_decl(rand)
         rand_max = 1.;
     }
 
-    assign_ret_val((PRJM_EVAL_F) (prjm_eval_genrand_int32() * (1.0 / (double) 0xFFFFFFFF) * rand_max));
+    /* The generator state is shared by all contexts, which may run in different threads. */
+    projectm_eval_memory_host_lock_mutex();
+    unsigned int rand_value = prjm_eval_genrand_int32();
+    projectm_eval_memory_host_unlock_mutex();
+
+    assign_ret_val((PRJM_EVAL_F) (rand_value * (1.0 / (double) 0xFFFFFFFF) * rand_max));
 }
 
 prjm_eval_function_decl(invsqrt)
-- 
2.43.0


From 54a32cd06f6cf2d1fac21c4b077fab476d28912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 19/24] fix: name comparison depended on the locale of the
 process

In a Turkish locale, strcasecmp() doesn't consider I and i equal, so names
such as SIN or reg vs. REG weren't recognized anymore.
---
 projectm-eval/CompilerFunctions.c |  9 ++-------
 projectm-eval/TreeVariables.c     | 32 +++++++++++++++++++++----------
 projectm-eval/TreeVariables.h     |  9 +++++++++
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index dfb4607..f972277 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -7,11 +7,6 @@
 #include <string.h>
 #include <stdlib.h>
 
-#ifdef _MSC_VER
-#define strcasecmp stricmp
-#define strncasecmp _strnicmp
-#endif
-
 /* Called by yyparse on error. */
 void prjm_eval_error(PRJM_EVAL_LTYPE* loc, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, char const* s)
 {
@@ -57,7 +52,7 @@ bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, con
     prjm_eval_function_list_item_t* entry = cctx->functions.first;
     while (entry)
     {
-        if (strcasecmp(entry->function->name, name) == 0)
+        if (prjm_eval_names_equal(entry->function->name, name))
         {
             return true;
         }
@@ -73,7 +68,7 @@ prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_con
     prjm_eval_function_list_item_t* func = cctx->functions.first;
     while (func)
     {
-        if (strcasecmp(func->function->name, name) == 0)
+        if (prjm_eval_names_equal(func->function->name, name))
         {
             return func->function;
         }
diff --git a/projectm-eval/TreeVariables.c b/projectm-eval/TreeVariables.c
index ce1e511..ae7d2cb 100644
--- a/projectm-eval/TreeVariables.c
+++ b/projectm-eval/TreeVariables.c
@@ -1,16 +1,26 @@
 #include "TreeVariables.h"
 
-#include "ctype.h"
 #include <stdlib.h>
 #include <string.h>
 
-#ifdef _MSC_VER
-#define strcasecmp stricmp
-#define strncasecmp _strnicmp
-#endif
-
 static PRJM_EVAL_F static_global_variables[100];
 
+static char lower_case(char c)
+{
+    return (char) (c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c);
+}
+
+bool prjm_eval_names_equal(const char* name1, const char* name2)
+{
+    while (*name1 && lower_case(*name1) == lower_case(*name2))
+    {
+        name1++;
+        name2++;
+    }
+
+    return lower_case(*name1) == lower_case(*name2);
+}
+
 static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_context_t* cctx,
                                                        const char* name)
 {
@@ -18,7 +28,7 @@ static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_contex
     prjm_eval_variable_entry_t* var = cctx->variables.first;
     while (var)
     {
-        if (strcasecmp(var->variable->name, name) == 0)
+        if (prjm_eval_names_equal(var->variable->name, name))
         {
             break;
         }
@@ -31,9 +41,11 @@ static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_contex
 PRJM_EVAL_F* prjm_eval_register_variable(prjm_eval_compiler_context_t* cctx, const char* name)
 {
     if (strlen(name) == 5 &&
-        strncasecmp(name, "reg", 3) == 0 &&
-        isdigit(name[3]) &&
-        isdigit(name[4])
+        lower_case(name[0]) == 'r' &&
+        lower_case(name[1]) == 'e' &&
+        lower_case(name[2]) == 'g' &&
+        name[3] >= '0' && name[3] <= '9' &&
+        name[4] >= '0' && name[4] <= '9'
         )
     {
         int var_index = atoi(name + 3);
diff --git a/projectm-eval/TreeVariables.h b/projectm-eval/TreeVariables.h
index f2c8741..c368f2f 100644
--- a/projectm-eval/TreeVariables.h
+++ b/projectm-eval/TreeVariables.h
@@ -4,3 +4,12 @@
 
 PRJM_EVAL_F* prjm_eval_register_variable(prjm_eval_compiler_context_t* cctx,
                                          const char* name);
+
+/**
+ * @brief Compares two names case-insensitively.
+ * In contrast to strcasecmp(), only the letters a-z are considered, independent of the current locale.
+ * @param name1 The first name.
+ * @param name2 The second name.
+ * @return true if both names are equal, false if not.
+ */
+bool prjm_eval_names_equal(const char* name1, const char* name2);
-- 
2.43.0


From a78c4f8ad07c3dc4663c7ae8f8f39390ce1c36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 20/24] fix: numbers with decimals depended on the locale of
 the process

atof() only accepts the decimal separator of the current locale, so 0.5
was read as 0 in locales which use a comma.
---
 projectm-eval/CompilerFunctions.c | 28 ++++++++++++++++++++++++++++
 projectm-eval/CompilerFunctions.h |  8 ++++++++
 projectm-eval/Scanner.c           |  2 +-
 projectm-eval/Scanner.l           |  2 +-
 4 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index f972277..ea04833 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -4,6 +4,7 @@
 #include "TreeVariables.h"
 
 #include <assert.h>
+#include <locale.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -63,6 +64,33 @@ bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, con
     return false;
 }
 
+PRJM_EVAL_F prjm_eval_compiler_parse_number(const char* number)
+{
+    const char* separator = strchr(number, '.');
+    const char* locale_separator = localeconv()->decimal_point;
+
+    /* atof() expects the decimal separator of the current locale. */
+    char* locale_number = NULL;
+    if (separator && strcmp(locale_separator, ".") != 0)
+    {
+        locale_number = malloc(strlen(number) + strlen(locale_separator));
+    }
+    if (!locale_number)
+    {
+        return (PRJM_EVAL_F) atof(number);
+    }
+
+    size_t integer_length = separator - number;
+    memcpy(locale_number, number, integer_length);
+    strcpy(locale_number + integer_length, locale_separator);
+    strcat(locale_number, separator + 1);
+
+    PRJM_EVAL_F value = (PRJM_EVAL_F) atof(locale_number);
+    free(locale_number);
+
+    return value;
+}
+
 prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_context_t* cctx, const char* name)
 {
     prjm_eval_function_list_item_t* func = cctx->functions.first;
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index a151cbb..c8a5883 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -65,6 +65,14 @@ void prjm_eval_compiler_destroy_node(prjm_eval_compiler_node_t* node);
  */
 bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, const char* name);
 
+/**
+ * @brief Converts a decimal number with an optional fraction and exponent.
+ * The decimal separator is always a dot, independent of the current locale.
+ * @param number The number to convert.
+ * @return The value of the number.
+ */
+PRJM_EVAL_F prjm_eval_compiler_parse_number(const char* number);
+
 prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_context_t* cctx, const char* name);
 
 prjm_eval_compiler_arg_list_t* prjm_eval_compiler_add_argument(prjm_eval_compiler_arg_list_t* arglist,
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 63ffe89..42d8652 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1447,7 +1447,7 @@ YY_RULE_SETUP
 case 14:
 YY_RULE_SETUP
 {
-                        yylval->NUM = atof(yytext);
+                        yylval->NUM = prjm_eval_compiler_parse_number(yytext);
                         return NUM;
                     }
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index d9d559a..6532556 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -73,7 +73,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 (?i:gmem)           { return GMEM; }
 
 {FLOAT}            {
-                        yylval->NUM = atof(yytext);
+                        yylval->NUM = prjm_eval_compiler_parse_number(yytext);
                         return NUM;
                     }
 {NAME}              {
-- 
2.43.0


From 7526fc4a1628fc34df6174910022a22658a8636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 21/24] fix: PROJECTM_EVAL_FLOAT_SIZE wasn't applied to the
 library

Only the ns-eel2 shim and the pkgconfig file used the option, so a library
configured for floats still used doubles.
---
 projectm-eval/CMakeLists.txt | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectm-eval/CMakeLists.txt b/projectm-eval/CMakeLists.txt
index 202e153..f17a017 100644
--- a/projectm-eval/CMakeLists.txt
+++ b/projectm-eval/CMakeLists.txt
@@ -67,6 +67,11 @@ add_library(projectM_eval STATIC
             api/projectm-eval.h
             )
 
+target_compile_definitions(projectM_eval
+                           PUBLIC
+                           PRJM_F_SIZE=${PROJECTM_EVAL_FLOAT_SIZE}
+                           )
+
 target_include_directories(projectM_eval
                            PUBLIC
                            $<BUILD_INTERFACE:${CMAKE_CURRENT_SOURCE_DIR}/..>
-- 
2.43.0


From e1af65bf7cab4da20663d34c25a79b7b49409b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 22/24] fix: long operator chains exhausted the stack when
 executed or destroyed

---
 projectm-eval/CompilerFunctions.c | 17 +++++++++++++++++
 projectm-eval/CompilerTypes.h     |  1 +
 2 files changed, 18 insertions(+)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index ea04833..c88aa9c 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -8,6 +8,10 @@
 #include <string.h>
 #include <stdlib.h>
 
+/* Expression trees are processed recursively, so the depth has to be limited to not exhaust the stack. Operator chains
+ * like "x+x+x" aren't limited by the parser stack, which has the same maximum size. */
+#define MAX_TREE_DEPTH 10000
+
 /* Called by yyparse on error. */
 void prjm_eval_error(PRJM_EVAL_LTYPE* loc, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, char const* s)
 {
@@ -163,6 +167,13 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
 
     prjm_eval_compiler_node_t* node = prjm_eval_compiler_create_expression(cctx, func, arglist);
 
+    if (node->depth > MAX_TREE_DEPTH)
+    {
+        PRJM_EVAL_FORMAT_ERROR(*error, "Expression is nested too deeply, the maximum depth is %d.", MAX_TREE_DEPTH)
+        prjm_eval_compiler_destroy_node(node);
+        return NULL;
+    }
+
     return node;
 }
 
@@ -209,6 +220,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
 
     bool args_are_const_evaluable = true;
     bool args_are_state_changing = false;
+    int args_depth = 0;
     if (arglist && arglist->count > 0)
     {
         expr->args = calloc(arglist->count + 1, sizeof(prjm_eval_exptreenode_t*));
@@ -225,6 +237,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
             args_are_const_evaluable = args_are_const_evaluable && arg->node->list_is_const_expr;
             /* If at least one arg is state-changing, the function is also. */
             args_are_state_changing = args_are_state_changing || arg->node->list_is_state_changing;
+            args_depth = arg->node->depth > args_depth ? arg->node->depth : args_depth;
 
             expr_arg++;
             arg = arg->next;
@@ -240,6 +253,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
     node->instr_is_state_changing = args_are_state_changing || func->is_state_changing;
     node->list_is_const_expr = node->instr_is_const_expr;
     node->list_is_state_changing = node->instr_is_state_changing;
+    node->depth = args_depth + 1;
     node->tree_node = expr;
 
     // Evaluate expression if constant-evaluable
@@ -259,6 +273,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
         node->instr_is_state_changing = const_func->is_state_changing;
         node->list_is_const_expr = const_func->is_const_eval;
         node->list_is_state_changing = const_func->is_state_changing;
+        node->depth = 0;
         prjm_eval_destroy_exptreenode(expr);
     }
 
@@ -334,6 +349,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_add_instruction(prjm_eval_compiler
         new_node->instr_is_state_changing = list->instr_is_state_changing;
         new_node->list_is_const_expr = list->list_is_const_expr;
         new_node->list_is_state_changing = list->list_is_state_changing;
+        new_node->depth = list->depth + 1;
 
         free(list);
 
@@ -368,6 +384,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_add_instruction(prjm_eval_compiler
     node->instr_is_state_changing = instruction->list_is_state_changing;
     node->list_is_const_expr = node->list_is_const_expr && instruction->list_is_const_expr;
     node->list_is_state_changing = node->list_is_state_changing || instruction->list_is_state_changing;
+    node->depth = instruction->depth + 1 > node->depth ? instruction->depth + 1 : node->depth;
 
     free(instruction);
 
diff --git a/projectm-eval/CompilerTypes.h b/projectm-eval/CompilerTypes.h
index 93e5fdf..f4fb870 100644
--- a/projectm-eval/CompilerTypes.h
+++ b/projectm-eval/CompilerTypes.h
@@ -98,6 +98,7 @@ typedef struct prjm_eval_compiler_node
     bool instr_is_state_changing; /*!< If true, the function will change the execution state (set memory) */
     bool list_is_const_expr; /*!< If true, the instruction list only consists of constant expressions, e.g. no variables used */
     bool list_is_state_changing; /*!< If true, at least one node in the instruction list will change the execution state (set memory) */
+    int depth; /*!< Number of nested tree nodes below this node. */
 } prjm_eval_compiler_node_t;
 
 typedef struct prjm_eval_compiler_arg_item
-- 
2.43.0


From 28b5e0d73f8a9179511c9df316f5de0f5d8ffbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 23/24] fix: megabuf and gmegabuf index -1 addressed the first
 value

---
 projectm-eval/TreeFunctions.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index acb94c4..9ddd4a9 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -8,6 +8,8 @@
 
 #include <math.h>
 #include <assert.h>
+#include <limits.h>
+#include <stddef.h>
 #include <stdint.h>
 
 /**
@@ -365,7 +367,13 @@ prjm_eval_function_decl(mem)
     PRJM_EVAL_F* index_ptr = &ctx->value;
     invoke_arg(0, &index_ptr);
 
-    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, (int) (*index_ptr + 0.0001));
+    /* Round down, so negative values never end up at index 0. Values which aren't valid indices may not fit into an int. */
+    double index = floor(*index_ptr + 0.0001);
+    PRJM_EVAL_F* mem_addr = NULL;
+    if (index >= .0 && index <= INT_MAX)
+    {
+        mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, (int) index);
+    }
     if (mem_addr)
     {
         assign_ret_ref(mem_addr);
-- 
2.43.0


From 92276284f0c71c2fe3c13191759b7fe8772624dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 24/24] fix: memset() and memcpy() with a negative offset
 affected one value too many

---
 projectm-eval/MemoryBuffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 22d1a98..669a524 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -1,5 +1,6 @@
 #include "MemoryBuffer.h"
 
+#include <math.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -119,7 +120,7 @@ static int64_t prjm_eval_memory_to_offset(PRJM_EVAL_F value)
 
     if (value < (PRJM_EVAL_F) limit)
     {
-        return value > (PRJM_EVAL_F) -limit ? (int64_t) (value + 0.0001) : -limit;
+        return value > (PRJM_EVAL_F) -limit ? (int64_t) floor(value + 0.0001) : -limit;
     }
 
     /* NaN is never inside any range */
-- 
2.43.0

