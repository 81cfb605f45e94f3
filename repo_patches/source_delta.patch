From 11e8970998c130c2dabb522e483b747258bd90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 01/60] fix: bit fields and padding past the end of the data
 are out of bounds

They were silently truncated on encode, read as zero bits on decode, and
@pad moved the decode cursor past the end of the buffer.
---
 src/vm/vm_exec.c     | 17 ++++++++++++++++-
 src/vm/vm_internal.h |  6 ++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5d6b443..2d0abd1 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -278,6 +278,18 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
       ctx->is_next_optional = false; \
       break; }
 
+// Bit field that does not fit into the rest of the buffer: a missing optional
+// field is delivered as zero, anything else is out of bounds.
+#define HANDLE_MISSING_BITS(bits, key, val) \
+    if (!has_bits(ctx, (bits))) { \
+        if (!ctx->is_next_optional) return CND_ERR_OOB; \
+        ctx->is_next_optional = false; \
+        SYNC_IP(); \
+        if (ctx->io_callback(ctx, (key), opcode, &(val)) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+        break; \
+    } \
+    ctx->is_next_optional = false;
+
 #define CHECK_RANGE(size, ctype, IL_READ, BUF_READ) \
     { \
         ctype min = (ctype)(IL_READ); \
@@ -977,7 +989,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; HANDLE_MISSING_BITS(b, k, v); if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1009,6 +1021,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t k=FETCH_IL_U16(ctx); 
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
+                HANDLE_MISSING_BITS(b, k, v);
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1024,6 +1037,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
+                HANDLE_MISSING_BITS(1, k, v);
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1039,6 +1053,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
             case OP_ALIGN_PAD: { 
                 uint8_t b=FETCH_IL_U8(ctx); 
+                if (!has_bits(ctx, b)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     write_bits(ctx, 0, b);
                 } else {
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index d4d1331..6b4d680 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -94,6 +94,12 @@ static inline uint64_t read_u64(const uint8_t* buf, cnd_endian_t endian) {
     }
 }
 
+// True if 'count' more bits fit between the cursor and the end of the data.
+static inline bool has_bits(const cnd_vm_ctx* ctx, uint8_t count) {
+    if (ctx->cursor > ctx->data_len) return false;
+    return ((size_t)ctx->bit_offset + count + 7) / 8 <= ctx->data_len - ctx->cursor;
+}
+
 static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
     // Optimization: Byte-aligned reads
     if (ctx->bit_offset == 0 && (count & 7) == 0) {
-- 
2.43.0


From 3e48ec5f8ad07884589e13d119d66152f0416a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 02/60] fix: range and enum checks stay inside the data and the
 program, NaN is out of range

---
 src/vm/vm_exec.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 2d0abd1..357d3c4 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -294,7 +294,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     { \
         ctype min = (ctype)(IL_READ); \
         ctype max = (ctype)(IL_READ); \
-        if (ctx->cursor < size) return CND_ERR_OOB; \
+        if (ctx->cursor < size || ctx->cursor > ctx->data_len) return CND_ERR_OOB; \
         ctype val = (ctype)(BUF_READ); \
         if (val < min || val > max) return CND_ERR_VALIDATION; \
     }
@@ -306,11 +306,11 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
         ctype min, max; \
         memcpy(&min, &imin, sizeof(ctype)); \
         memcpy(&max, &imax, sizeof(ctype)); \
-        if (ctx->cursor < size) return CND_ERR_OOB; \
+        if (ctx->cursor < size || ctx->cursor > ctx->data_len) return CND_ERR_OOB; \
         int_type ival = (BUF_READ); \
         ctype val; \
         memcpy(&val, &ival, sizeof(ctype)); \
-        if (val < min || val > max) return CND_ERR_VALIDATION; \
+        if (!(val >= min && val <= max)) return CND_ERR_VALIDATION; \
     }
 
 // --- Loop Stack Helpers ---
@@ -806,6 +806,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 bool found = false;
                 
                 #define CHECK_ENUM(size, ctype, READ_EXPR) \
+                    if (ctx->cursor < (size) || ctx->cursor > ctx->data_len) return CND_ERR_OOB; \
+                    if ((size_t)(end - pc) < (size_t)count * (size)) return CND_ERR_OOB; \
                     ctype actual = (READ_EXPR); \
                     for (uint16_t i = 0; i < count; i++) { \
                         ctype val = 0; \
-- 
2.43.0


From 78f8cc276b013cb9ce05108e90ad2d70eed70fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 03/60] fix: implement OP_SWAP

The compiler emits it for int (op) float expressions; the engine ignored it
and reinterpreted the integer bits as a double.
---
 src/vm/vm_exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 357d3c4..8dfe770 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1430,6 +1430,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 break;
             }
 
+            case OP_SWAP: {
+                if (ctx->expr_sp < 2) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t top = ctx->expr_stack[ctx->expr_sp - 1];
+                ctx->expr_stack[ctx->expr_sp - 1] = ctx->expr_stack[ctx->expr_sp - 2];
+                ctx->expr_stack[ctx->expr_sp - 2] = top;
+                break;
+            }
+
             case OP_DUP: {
                 if (ctx->expr_sp == 0) return CND_ERR_STACK_UNDERFLOW;
                 uint64_t val = ctx->expr_stack[ctx->expr_sp - 1];
-- 
2.43.0


From 0b8584c7d9e4f7cefbef77d4f4b48c1e836ca9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 04/60] fix: skip empty arrays by whole instructions

The skip looked at every byte, so a key, constant or jump table byte that
happens to equal an array opcode ended it too early or too late.
---
 src/vm/vm_exec.c     | 29 ++++++++++----
 src/vm/vm_internal.h | 91 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 112 insertions(+), 8 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 8dfe770..62d0a81 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -315,15 +315,28 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 
 // --- Loop Stack Helpers ---
 
-static void skip_loop_body(cnd_vm_ctx* ctx) {
+// Moves the instruction pointer behind the OP_ARR_END that closes the current body.
+static bool skip_loop_body(cnd_vm_ctx* ctx) {
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
     int depth = 1;
-    while (ctx->ip < ctx->program->bytecode_len && depth > 0) {
-        uint8_t op = ctx->program->bytecode[ctx->ip];
+    while (ctx->ip < len) {
+        uint8_t op = bc[ctx->ip];
+        if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
+            // Cases are self-contained: continue behind the jump table
+            size_t table, table_end;
+            if (!il_switch_bounds(bc, len, ctx->ip, &table, &table_end)) return false;
+            ctx->ip = table_end;
+            continue;
+        }
         if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
             op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;
         if (op == OP_ARR_END) depth--;
-        ctx->ip++; 
+        size_t n = il_instr_len(bc, len, ctx->ip);
+        ctx->ip += n ? n : 1; // Unknown opcodes are ignored, as in cnd_execute
+        if (depth == 0) break;
     }
+    return depth == 0 && ctx->ip <= len;
 }
 
 static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count) {
@@ -391,7 +404,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (!loop_push(ctx, ctx->ip, (uint32_t)count)) return CND_ERR_OOB; \
         } else { \
              SYNC_IP(); \
-             skip_loop_body(ctx); \
+             if (!skip_loop_body(ctx)) return CND_ERR_OOB; \
              RELOAD_PC(); \
         } \
         break; \
@@ -1153,7 +1166,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
                      SYNC_IP();
-                     skip_loop_body(ctx);
+                     if (!skip_loop_body(ctx)) return CND_ERR_OOB;
                      RELOAD_PC();
                 }
                 break;
@@ -1173,7 +1186,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
                     // Skip loop
-                    skip_loop_body(ctx);
+                    if (!skip_loop_body(ctx)) return CND_ERR_OOB;
                     RELOAD_PC();
                 }
                 break;
@@ -1198,7 +1211,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (try_optimize_byte_array(ctx, count)) { RELOAD_PC(); break; }
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
-                     skip_loop_body(ctx);
+                     if (!skip_loop_body(ctx)) return CND_ERR_OOB;
                      RELOAD_PC();
                 }
                 break;
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 6b4d680..622dee0 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -50,6 +50,97 @@ static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
     return b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
+// --- Instruction sizes ---
+
+// Length in bytes of the instruction at 'ip', operands included. Returns 0 for an
+// undefined opcode. The result may exceed 'len - ip' if the program is cut off.
+// For OP_SWITCH/OP_SWITCH_TABLE this is the fixed part; see il_switch_bounds().
+static inline size_t il_instr_len(const uint8_t* bc, size_t len, size_t ip) {
+    switch (bc[ip]) {
+        case OP_NOOP: case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE: case OP_EXIT_STRUCT:
+        case OP_ENTER_BIT_MODE: case OP_EXIT_BIT_MODE: case OP_ARR_END: case OP_MARK_OPTIONAL:
+        case OP_POP: case OP_SWAP: case OP_DUP:
+        case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG:
+        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
+        case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_POW: case OP_LOG: case OP_ABS:
+        case OP_ITOF: case OP_FTOI:
+        case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F:
+        case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR:
+        case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE:
+        case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT:
+            return 1;
+        case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL: case OP_EMIT:
+            return 2;
+        case OP_ENTER_STRUCT: case OP_META_NAME: case OP_CTX_QUERY:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_BOOL:
+        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
+            return 3;
+        case OP_IO_BIT_U: case OP_IO_BIT_I:
+            return 4;
+        case OP_STR_NULL: case OP_ARR_DYNAMIC: case OP_JUMP: case OP_JUMP_IF_NOT:
+            return 5;
+        case OP_ARR_FIXED: case OP_RAW_BYTES: case OP_SWITCH: case OP_SWITCH_TABLE:
+            return 7;
+        case OP_CRC_16: return 8;
+        case OP_CRC_32: return 14;
+        case OP_SCALE_LIN: return 17;
+        case OP_PUSH_IMM:
+        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV:
+            return 9;
+        case OP_TRANS_POLY: case OP_TRANS_SPLINE:
+            if (ip + 2 > len) return 2;
+            return 2 + (size_t)bc[ip + 1] * (bc[ip] == OP_TRANS_POLY ? 8 : 16);
+        case OP_CONST_CHECK: case OP_CONST_WRITE: case OP_RANGE_CHECK: case OP_ENUM_CHECK: {
+            size_t type_at = ip + (bc[ip] == OP_CONST_CHECK ? 3 : 1);
+            size_t fixed = type_at - ip + 1, size = 0;
+            if (type_at >= len) return fixed;
+            switch (bc[type_at]) {
+                case OP_IO_U8: case OP_IO_I8: size = 1; break;
+                case OP_IO_U16: case OP_IO_I16: size = 2; break;
+                case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: size = 4; break;
+                case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: size = 8; break;
+                default: return 0;
+            }
+            if (bc[ip] == OP_RANGE_CHECK) return fixed + 2 * size;
+            if (bc[ip] != OP_ENUM_CHECK) return fixed + size;
+            if (type_at + 3 > len) return fixed + 2;
+            return fixed + 2 + size * (size_t)(bc[type_at + 1] | (bc[type_at + 2] << 8));
+        }
+        default: return 0;
+    }
+}
+
+// Bounds of the jump table of the OP_SWITCH/OP_SWITCH_TABLE at 'ip' (tables follow the
+// code of their cases). Returns false if the table is not inside the program.
+static inline bool il_switch_bounds(const uint8_t* bc, size_t len, size_t ip, size_t* table, size_t* table_end) {
+    if (ip + 7 > len) return false;
+    uint32_t rel = (uint32_t)bc[ip + 3] | ((uint32_t)bc[ip + 4] << 8) |
+                   ((uint32_t)bc[ip + 5] << 16) | ((uint32_t)bc[ip + 6] << 24);
+    if (rel > len - (ip + 7)) return false;
+    *table = ip + 7 + rel;
+    size_t avail = len - *table;
+    if (bc[ip] == OP_SWITCH) {
+        if (avail < 6) return false;
+        size_t size = 6 + (size_t)12 * (size_t)(bc[*table] | (bc[*table + 1] << 8));
+        if (avail < size) return false;
+        *table_end = *table + size;
+    } else {
+        if (avail < 20) return false;
+        uint64_t min = 0, max = 0;
+        for (int i = 7; i >= 0; i--) {
+            min = (min << 8) | bc[*table + i];
+            max = (max << 8) | bc[*table + 8 + i];
+        }
+        if (max < min || max - min >= (avail - 20) / 4) return false;
+        *table_end = *table + 20 + 4 * (size_t)(max - min + 1);
+    }
+    return true;
+}
+
 // --- Data Access (Read) ---
 
 static inline uint8_t read_u8(const uint8_t* buf) {
-- 
2.43.0


From 0b502dae09729eb9bb4db563d8c6149393fc4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 05/60] fix: EOF arrays release their loop frame, counts of
 0xFFFFFFFF are counts

An EOF array that starts at the end of the data skipped its body but left its
frame on the loop stack, and a counted array of 0xFFFFFFFF elements was
taken for an EOF array and accepted at the end of the data.
---
 include/concordia.h |  1 +
 src/vm/vm_exec.c    | 15 +++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/concordia.h b/include/concordia.h
index c116bef..f3e3753 100644
--- a/include/concordia.h
+++ b/include/concordia.h
@@ -186,6 +186,7 @@ typedef enum {
 typedef struct {
     size_t start_ip;
     uint32_t remaining;
+    bool until_end;             // Loop runs to the end of the data (OP_ARR_EOF)
 } cnd_loop_frame;
 
 // Forward declaration for the IO callback
diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 62d0a81..874e716 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -343,6 +343,7 @@ static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count) {
     if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return false;
     ctx->loop_stack[ctx->loop_depth].start_ip = start_ip;
     ctx->loop_stack[ctx->loop_depth].remaining = count;
+    ctx->loop_stack[ctx->loop_depth].until_end = false;
     ctx->loop_depth++;
     return true;
 }
@@ -1178,17 +1179,19 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 SYNC_IP();
 
-                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
-                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
-                frame->start_ip = ctx->ip;
-                frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
-                
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
                     // Skip loop
                     if (!skip_loop_body(ctx)) return CND_ERR_OOB;
                     RELOAD_PC();
+                    break;
                 }
+
+                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
+                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
+                frame->start_ip = ctx->ip;
+                frame->remaining = 0;
+                frame->until_end = true;
                 break;
             }
 
@@ -1224,7 +1227,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 bool loop_continue = false;
                 
-                if (frame->remaining == 0xFFFFFFFF) {
+                if (frame->until_end) {
                     // EOF Loop
                     if (ctx->cursor < ctx->data_len) loop_continue = true;
                 } else {
-- 
2.43.0


From 1438002f8c96a11688e6a579ba1e0e6f9631c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 06/60] fix: empty arrays end with OP_ARR_END like all others

The host got the begin event only, so a host that opens a container per array
(the JSON binding) put everything that followed into the empty array.
---
 src/vm/vm_exec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 874e716..9214199 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -407,6 +407,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
              SYNC_IP(); \
              if (!skip_loop_body(ctx)) return CND_ERR_OOB; \
              RELOAD_PC(); \
+             if (ctx->io_callback(ctx, 0, OP_ARR_END, NULL) != CND_ERR_OK) return CND_ERR_CALLBACK; \
         } \
         break; \
     }
@@ -1169,6 +1170,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                      SYNC_IP();
                      if (!skip_loop_body(ctx)) return CND_ERR_OOB;
                      RELOAD_PC();
+                     if (ctx->io_callback(ctx, 0, OP_ARR_END, NULL) != CND_ERR_OK) return CND_ERR_CALLBACK;
                 }
                 break;
             }
@@ -1184,6 +1186,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     // Skip loop
                     if (!skip_loop_body(ctx)) return CND_ERR_OOB;
                     RELOAD_PC();
+                    if (ctx->io_callback(ctx, 0, OP_ARR_END, NULL) != CND_ERR_OK) return CND_ERR_CALLBACK;
                     break;
                 }
 
@@ -1216,6 +1219,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 } else {
                      if (!skip_loop_body(ctx)) return CND_ERR_OOB;
                      RELOAD_PC();
+                     if (ctx->io_callback(ctx, 0, OP_ARR_END, NULL) != CND_ERR_OK) return CND_ERR_CALLBACK;
                 }
                 break;
             }
-- 
2.43.0


From 2fb68d889027d4bb9cbe24e44c813293c64fe1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 07/60] fix: missing optional fields come in the host's type
 and skip their checks

A missing optional field with a transform was delivered in its raw type and left
the transform pending for the next field, and its range or enum check was applied
to the bytes of the field before it.
---
 src/vm/vm_exec.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 9214199..eb3f1ee 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -115,6 +115,30 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     }
 }
 
+// --- Optional fields ---
+
+// Delivers the zero value of an optional field that is not in the data, in the type the
+// host would get for a present one, and passes over the field's value checks.
+static bool deliver_missing_optional(cnd_vm_ctx* ctx, uint16_t key, uint8_t opcode) {
+    uint64_t zero = 0; // All-zero bits are zero in every field type
+    uint8_t type = opcode;
+    if (ctx->trans_type == CND_TRANS_SCALE_F64 || ctx->trans_type == CND_TRANS_POLY ||
+        ctx->trans_type == CND_TRANS_SPLINE) type = OP_IO_F64;
+    else if (ctx->trans_type != CND_TRANS_NONE) type = OP_IO_I64;
+    ctx->trans_type = CND_TRANS_NONE;
+    ctx->is_next_optional = false;
+    if (ctx->io_callback(ctx, key, type, &zero) != CND_ERR_OK) return false;
+    
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
+    while (ctx->ip < len && (bc[ctx->ip] == OP_RANGE_CHECK || bc[ctx->ip] == OP_ENUM_CHECK)) {
+        size_t n = il_instr_len(bc, len, ctx->ip);
+        if (n == 0 || n > len - ctx->ip) break;
+        ctx->ip += n;
+    }
+    return true;
+}
+
 // --- Helpers / Macros to reduce repeated IO case code ---
 // HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR)
 //   - size: number of bytes this IO consumes
@@ -125,10 +149,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
-              ctx->is_next_optional = false; \
-              ctype val = 0; \
               SYNC_IP(); \
-              if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              if (!deliver_missing_optional(ctx, key, opcode)) return CND_ERR_CALLBACK; \
+              RELOAD_PC(); \
               break; \
           } \
           return CND_ERR_OOB; \
@@ -209,10 +232,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
-              ctx->is_next_optional = false; \
-              ctype val = 0; \
               SYNC_IP(); \
-              if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              if (!deliver_missing_optional(ctx, key, opcode)) return CND_ERR_CALLBACK; \
+              RELOAD_PC(); \
               break; \
           } \
           return CND_ERR_OOB; \
@@ -977,10 +999,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t key = FETCH_IL_U16(ctx);
                 if (ctx->cursor + 1 > ctx->data_len) {
                     if (ctx->is_next_optional) {
-                        ctx->is_next_optional = false;
-                        uint8_t val = 0;
                         SYNC_IP();
-                        if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        if (!deliver_missing_optional(ctx, key, opcode)) return CND_ERR_CALLBACK;
+                        RELOAD_PC();
                         break;
                     }
                     return CND_ERR_OOB;
-- 
2.43.0


From b0a51dda50f37b5157313fda6f3625ecb580819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:27 +0000
Subject: [PATCH 08/60] fix: strings at the end of the data

A missing optional string was out of bounds instead of empty (the guide's own
example), and a string of the maximum length was accepted, and handed to the
host as a C string, without its terminator.
---
 src/vm/vm_exec.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index eb3f1ee..632d8c2 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -404,6 +404,9 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
 
 // --- Array/String Helpers ---
 
+// What a missing optional string points at: a zero length prefix before an empty string
+static const char missing_string[8] = {0};
+
 #define HANDLE_ARRAY_PRE(size, ctype, READ_EXPR, WRITE_EXPR) \
     { \
         uint16_t key = FETCH_IL_U16(ctx); \
@@ -456,9 +459,15 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
-            ctype len_val = (READ_EXPR); \
-            if (ctx->cursor + (size) + len_val > ctx->data_len) return CND_ERR_OOB; \
+            bool missing = ctx->cursor + (size) > ctx->data_len; \
+            ctype len_val = missing ? 0 : (READ_EXPR); \
+            if (missing || ctx->cursor + (size) + len_val > ctx->data_len) { \
+                if (!ctx->is_next_optional) return CND_ERR_OOB; \
+                ctx->is_next_optional = false; \
+                SYNC_IP(); \
+                if (ctx->io_callback(ctx, key, opcode, (void*)(missing_string + 4)) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                break; \
+            } \
             const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -1130,23 +1139,22 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     ctx->cursor++;
                 } else {
                     size_t start = ctx->cursor;
-                    size_t len = 0;
                     
                     // Optimization: Use memchr to find the null terminator quickly
                     size_t remaining = ctx->data_len - ctx->cursor;
-                    size_t search_len = (remaining < max_len) ? remaining : max_len;
+                    size_t search_len = (remaining <= max_len) ? remaining : (size_t)max_len + 1;
                     
-                    void* found = memchr(ctx->data_buffer + ctx->cursor, 0x00, search_len);
+                    uint8_t* found = memchr(ctx->data_buffer + ctx->cursor, 0x00, search_len);
                     
-                    if (found) {
-                        len = (uint8_t*)found - (ctx->data_buffer + ctx->cursor);
-                        ctx->cursor += len;
-                    } else {
-                        len = search_len;
-                        ctx->cursor += len;
+                    if (!found) {
+                        if (remaining > max_len) return CND_ERR_VALIDATION; // Longer than allowed
+                        if (!ctx->is_next_optional) return CND_ERR_OOB;
+                        ctx->is_next_optional = false;
+                        SYNC_IP();
+                        if (ctx->io_callback(ctx, key, opcode, (void*)missing_string) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        break;
                     }
-
-                    if (ctx->cursor >= ctx->data_len) return CND_ERR_OOB; 
+                    ctx->cursor = (size_t)(found - ctx->data_buffer);
                     
                     const char* ptr = (const char*)(ctx->data_buffer + start);
                     SYNC_IP();
-- 
2.43.0


From de706fc41c9db0d0d630001e98cfb5545686e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 09/60] fix: transforms round to the nearest raw value

0.29 with @scale(0.01) was sent as 28. Values the field cannot hold were
undefined behaviour; they are arithmetic errors now.
---
 src/vm/vm_exec.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 632d8c2..0803465 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -95,6 +95,18 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     return x;
 }
 
+// Rounds to the nearest value of an integer field of 'size' bytes.
+// Returns false if the field cannot hold it.
+static inline bool vm_math_round(double v, int size, bool is_signed, uint64_t* out) {
+    double limit = 1.0; // 2^(value bits)
+    for (int i = 0; i < size * 8 - (is_signed ? 1 : 0); i++) limit *= 2.0;
+    // Above 2^52 doubles are whole numbers
+    if (v > -4503599627370496.0 && v < 4503599627370496.0) v = (double)(int64_t)(v < 0 ? v - 0.5 : v + 0.5);
+    if (!(v < limit && v >= (is_signed ? -limit : 0.0))) return false;
+    *out = is_signed ? (uint64_t)(int64_t)v : (uint64_t)v;
+    return true;
+}
+
 static inline int64_t vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw) {
     switch(ctx->trans_type) {
         case CND_TRANS_ADD_I64: return raw + ctx->trans_i_val;
@@ -162,7 +174,9 @@ static bool deliver_missing_optional(cnd_vm_ctx* ctx, uint16_t key, uint8_t opco
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  uint64_t rounded; \
+                  if (!vm_math_round((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor, size, (ctype)-1 < 0, &rounded)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)rounded; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -175,7 +189,9 @@ static bool deliver_missing_optional(cnd_vm_ctx* ctx, uint16_t key, uint8_t opco
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
+                  uint64_t rounded; \
+                  if (!vm_math_round(vm_math_poly_solve(ctx, eng_val), size, (ctype)-1 < 0, &rounded)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)rounded; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -188,7 +204,9 @@ static bool deliver_missing_optional(cnd_vm_ctx* ctx, uint16_t key, uint8_t opco
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
+                  uint64_t rounded; \
+                  if (!vm_math_round(vm_math_spline_solve(ctx, eng_val), size, (ctype)-1 < 0, &rounded)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)rounded; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
-- 
2.43.0


From 2e21572d328df04ab933e7e83895598697c5cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 10/60] fix: transforms of float fields and by -1

@poly and @spline on float fields were taken for integer transforms, and
dividing INT64_MIN by -1 (@div(-1), or @mul(-1) on encode) trapped.
---
 src/vm/vm_exec.c | 57 ++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 0803465..badc2d9 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -107,22 +107,29 @@ static inline bool vm_math_round(double v, int size, bool is_signed, uint64_t* o
     return true;
 }
 
+// Integer transforms wrap around like the raw fields they map to
+static inline int64_t vm_math_div(int64_t a, int64_t b) {
+    if (b == 0) return a;
+    if (b == -1) return (int64_t)(0 - (uint64_t)a); // INT64_MIN / -1 traps
+    return a / b;
+}
+
 static inline int64_t vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return raw + ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return raw - ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return raw * ctx->trans_i_val;
-        case CND_TRANS_DIV_I64: return (ctx->trans_i_val != 0) ? raw / ctx->trans_i_val : raw;
+        case CND_TRANS_ADD_I64: return (int64_t)((uint64_t)raw + (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return (int64_t)((uint64_t)raw - (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return (int64_t)((uint64_t)raw * (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return vm_math_div(raw, ctx->trans_i_val);
         default: return raw;
     }
 }
 
 static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return eng - ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return eng + ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return (ctx->trans_i_val != 0) ? eng / ctx->trans_i_val : eng;
-        case CND_TRANS_DIV_I64: return eng * ctx->trans_i_val;
+        case CND_TRANS_ADD_I64: return (int64_t)((uint64_t)eng - (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return (int64_t)((uint64_t)eng + (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return vm_math_div(eng, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return (int64_t)((uint64_t)eng * (uint64_t)ctx->trans_i_val);
         default: return eng;
     }
 }
@@ -271,32 +278,30 @@ static bool deliver_missing_optional(cnd_vm_ctx* ctx, uint16_t key, uint8_t opco
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
+          } else if (ctx->trans_type == CND_TRANS_POLY || ctx->trans_type == CND_TRANS_SPLINE) { \
+              double eng_val = 0; \
+              if (ctx->mode == CND_MODE_ENCODE) { \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                  ctype val = (ctype)(ctx->trans_type == CND_TRANS_POLY ? vm_math_poly_solve(ctx, eng_val) : vm_math_spline_solve(ctx, eng_val)); \
+                  int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
+              } else { \
+                  int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
+                  eng_val = ctx->trans_type == CND_TRANS_POLY ? vm_math_poly_eval(ctx, (double)val) : vm_math_spline_eval(ctx, (double)val); \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              } \
           } else { \
               int64_t eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  int64_t raw64 = eng_val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: raw64 *= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  ctype val = (ctype)raw64; \
+                  ctype val = (ctype)vm_math_int_to_raw(ctx, eng_val); \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  int64_t raw64 = (int64_t)val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: raw64 *= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  eng_val = raw64; \
+                  if (!(val >= -9223372036854775808.0 && val < 9223372036854775808.0)) return CND_ERR_ARITHMETIC; \
+                  eng_val = vm_math_int_to_eng(ctx, (int64_t)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
-- 
2.43.0


From f9bae170458687462061229c364515b3095f0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 11/60] fix: computed fields decode what they encode

Negative or wrapped results were encoded truncated but compared in full, so the
decoder refused the encoder's own frames; NaN on the wire was accepted as any
value; and a computed field behind a bit field overwrote its byte.
---
 src/vm/vm_exec.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index badc2d9..f6c35a3 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1522,6 +1522,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint64_t val;
                 if (stack_pop(ctx, &val) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 
+                // Byte aligned like the primitives
+                if (ctx->bit_offset != 0) { ctx->cursor++; ctx->bit_offset = 0; }
+                
                 if (ctx->mode == CND_MODE_ENCODE) {
                     int size = 0;
                     if (type == OP_IO_U8 || type == OP_IO_I8 || type == OP_IO_BOOL) size = 1;
@@ -1621,14 +1624,16 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         float f_bin; memcpy(&f_bin, &bin_val, 4);
                         
                         float diff = f_val - f_bin;
-                        if (diff < -0.00001f || diff > 0.00001f) return CND_ERR_VALIDATION;
+                        if (memcmp(&f_val, &f_bin, 4) != 0 && !(diff >= -0.00001f && diff <= 0.00001f)) return CND_ERR_VALIDATION;
                     } else if (type == OP_IO_F64) {
                         double d_val; memcpy(&d_val, &val, 8);
                         double d_bin; memcpy(&d_bin, &bin_val, 8);
                         
                         double diff = d_val - d_bin;
-                        if (diff < -0.0000001 || diff > 0.0000001) return CND_ERR_VALIDATION;
+                        if (memcmp(&d_val, &d_bin, 8) != 0 && !(diff >= -0.0000001 && diff <= 0.0000001)) return CND_ERR_VALIDATION;
                     } else {
+                        // Encode keeps the low bytes
+                        if (size < 8) val &= ((uint64_t)1 << (size * 8)) - 1;
                         if (bin_val != val) return CND_ERR_VALIDATION;
                     }
                     
-- 
2.43.0


From 7b0f6619ee3b0158d24e6a59ae37857e4ef5243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 12/60] fix: CRC-32 table path honours the initial value

It was used unreflected, so an asymmetric @crc init gave another checksum than
the bitwise path and every other implementation.
---
 src/vm/vm_exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index f6c35a3..2822712 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -511,7 +511,7 @@ static int64_t sign_extend(uint64_t val, uint8_t bits) {
 static uint32_t reflect(uint32_t val, int bits) {
     uint32_t res = 0;
     for (int i = 0; i < bits; i++) {
-        if (val & (1 << i)) res |= (1 << (bits - 1 - i));
+        if (val & ((uint32_t)1 << i)) res |= ((uint32_t)1 << (bits - 1 - i));
     }
     return res;
 }
@@ -554,7 +554,7 @@ static const uint32_t crc32_table[256] = {
 static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_t init, uint32_t xorout, uint8_t flags, int width) {
     // Fast path for Standard CRC32 (Poly 0x04C11DB7, RefIn=1, RefOut=1)
     if (width == 32 && poly == 0x04C11DB7 && (flags & 1) && (flags & 2)) {
-        uint32_t crc = init;
+        uint32_t crc = reflect(init, 32); // The table form keeps the register reflected
         for (size_t i = 0; i < len; i++) {
             crc = (crc >> 8) ^ crc32_table[(crc ^ data[i]) & 0xFF];
         }
-- 
2.43.0


From ee45a4c56b25de32a870ed60e4ae8172982b4ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 13/60] fix: jump table index cannot wrap around

index * 4 near 2^64 passed the bounds test and read before the program.
---
 src/vm/vm_exec.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 2822712..7d5da0f 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1404,10 +1404,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     uint64_t index = disc_val - min_val;
                     // Offset is at table_start + 8 + 8 + 4 + index * 4
                     // We are currently at table_start + 20 (ctx->ip)
-                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
-                    
                     // Check bounds for the offset entry
-                    if (offset_loc + 4 > ctx->program->bytecode_len) return CND_ERR_OOB;
+                    if (index >= (ctx->program->bytecode_len - ctx->ip) / 4) return CND_ERR_OOB;
+                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
                     
                     target_off = (int32_t)peek_il_u32(ctx, offset_loc);
                 }
-- 
2.43.0


From 94d092699d71356b27c083bb6d687370950be400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 14/60] fix: refuse images whose string table is cut off

cnd_get_key_name and cnd_get_key_id read past the end of the image.
---
 src/vm/vm_exec.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 7d5da0f..d2e4c5e 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -635,10 +635,18 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
     if (image[5] != 1) return CND_ERR_INVALID_OP; // Version check
 
     uint16_t str_count = image[6] | (image[7] << 8);
-    uint32_t str_offset = image[8] | (image[9] << 8) | (image[10] << 16) | (image[11] << 24);
-    uint32_t bc_offset = image[12] | (image[13] << 8) | (image[14] << 16) | (image[15] << 24);
+    uint32_t str_offset = image[8] | (image[9] << 8) | (image[10] << 16) | ((uint32_t)image[11] << 24);
+    uint32_t bc_offset = image[12] | (image[13] << 8) | (image[14] << 16) | ((uint32_t)image[15] << 24);
 
     if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
+
+    // Every string must end inside the image: the lookups below rely on it
+    size_t str_end = str_offset;
+    for (uint16_t i = 0; i < str_count; i++) {
+        const void* nul = memchr(image + str_end, 0, len - str_end);
+        if (!nul) return CND_ERR_OOB;
+        str_end = (size_t)((const uint8_t*)nul - image) + 1;
+    }
     
     program->string_table = (const char*)(image + str_offset);
     program->string_count = str_count;
-- 
2.43.0


From a5f3bc1357b185f71e81fb763550b0c068466615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 15/60] fix: shifts by 64 or more and float to int overflow are
 arithmetic errors

They were undefined behaviour and evaluated to whatever the machine gives.
---
 src/vm/vm_exec.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index d2e4c5e..96c5087 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -727,6 +727,13 @@ static inline cnd_error_t stack_pop(cnd_vm_ctx* ctx, uint64_t* val) {
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
     if (stack_push(ctx, a OP b) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
 
+// Helper for shifts: undefined for a count of 64 or more
+#define SHIFT_OP(OP) \
+    uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    if (b >= 64) return CND_ERR_ARITHMETIC; \
+    if (stack_push(ctx, a OP b) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+
 // Helper for unary operations
 #define UNARY_OP(OP) \
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
@@ -1741,6 +1748,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_FTOI: {
                 uint64_t a_bits; if (stack_pop(ctx, &a_bits) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 double f; memcpy(&f, &a_bits, 8);
+                if (!(f >= -9223372036854775808.0 && f < 9223372036854775808.0)) return CND_ERR_ARITHMETIC;
                 int64_t i = (int64_t)f;
                 if (stack_push(ctx, (uint64_t)i) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
@@ -1759,8 +1767,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_BIT_OR:  { BINARY_OP(|); break; }
             case OP_BIT_XOR: { BINARY_OP(^); break; }
             case OP_BIT_NOT: { UNARY_OP(~); break; }
-            case OP_SHL:     { BINARY_OP(<<); break; }
-            case OP_SHR:     { BINARY_OP(>>); break; }
+            case OP_SHL:     { SHIFT_OP(<<); break; }
+            case OP_SHR:     { SHIFT_OP(>>); break; }
 
             // Comparison
             case OP_EQ:  { BINARY_OP(==); break; }
-- 
2.43.0


From dc8957a3abebcbf72087be69a97acce47e884c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 16/60] fix: the verifier knows the instruction set the
 compiler emits

Most operand sizes were wrong or guessed, jump tables were read as code and a
jump to the end of the program was refused, so nearly every compiled image
failed verification.
---
 src/vm/vm_verify.c | 310 +++++++--------------------------------------
 1 file changed, 46 insertions(+), 264 deletions(-)

diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 0800f2f..afadb73 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -1,279 +1,52 @@
 #include "concordia.h"
 #include "vm_internal.h"
 
-cnd_error_t cnd_verify_program(const cnd_program* program)
+// Nesting of switches inside switch cases
+#define MAX_SWITCH_DEPTH 256
+
+static int32_t rel32(const uint8_t* p)
 {
-    if (!program || !program->bytecode) {
-        return CND_ERR_OOB;
-    }
+    return (int32_t)((uint32_t)p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24));
+}
 
-    uint32_t ip = 0;
-    uint32_t len = (uint32_t)program->bytecode_len;
-    const uint8_t* bc = program->bytecode;
+// A jump may go to the end of the program, which ends it
+static bool target_ok(size_t from, int32_t offset, size_t len)
+{
+    int64_t target = (int64_t)from + offset;
+    return target >= 0 && (uint64_t)target <= len;
+}
 
-    while (ip < len) {
+// Verifies the instructions in [ip, end). Jump tables are data between instructions,
+// so the code of a switch is verified on its own.
+static cnd_error_t verify_code(const uint8_t* bc, size_t len, size_t ip, size_t end, int depth)
+{
+    while (ip < end) {
         uint8_t opcode = bc[ip];
-        
-        // Get instruction length
-        uint32_t instr_len = 1; // Opcode itself
-        
-        // Add argument lengths based on opcode
-        switch (opcode) {
-            // 0 args
-            case OP_NOOP:
-            case OP_SET_ENDIAN_LE:
-            case OP_SET_ENDIAN_BE:
-            case OP_ENTER_STRUCT:
-            case OP_EXIT_STRUCT:
-            case OP_META_VERSION:
-            case OP_META_NAME:
-            case OP_ARR_END:
-            case OP_ARR_EOF:
-            case OP_ARR_DYNAMIC:
-            case OP_POP:
-            case OP_SWAP:
-            case OP_DUP:
-            case OP_EMIT:
-            case OP_ADD:
-            case OP_SUB:
-            case OP_MUL:
-            case OP_DIV:
-            case OP_MOD:
-            case OP_NEG:
-            case OP_FADD:
-            case OP_FSUB:
-            case OP_FMUL:
-            case OP_FDIV:
-            case OP_FNEG:
-            case OP_SIN:
-            case OP_COS:
-            case OP_TAN:
-            case OP_SQRT:
-            case OP_POW:
-            case OP_LOG:
-            case OP_ABS:
-            case OP_ITOF:
-            case OP_FTOI:
-            case OP_EQ_F:
-            case OP_NEQ_F:
-            case OP_GT_F:
-            case OP_LT_F:
-            case OP_GTE_F:
-            case OP_LTE_F:
-            case OP_BIT_AND:
-            case OP_BIT_OR:
-            case OP_BIT_XOR:
-            case OP_BIT_NOT:
-            case OP_SHL:
-            case OP_SHR:
-            case OP_EQ:
-            case OP_NEQ:
-            case OP_GT:
-            case OP_LT:
-            case OP_GTE:
-            case OP_LTE:
-            case OP_LOG_AND:
-            case OP_LOG_OR:
-            case OP_LOG_NOT:
-            case OP_LOAD_CTX:
-            case OP_STORE_CTX:
-            case OP_MARK_OPTIONAL:
-            case OP_ENTER_BIT_MODE:
-            case OP_EXIT_BIT_MODE:
-                instr_len = 1;
-                break;
-
-            // 1 byte arg
-            case OP_ALIGN_PAD:
-            case OP_ALIGN_FILL:
-                instr_len = 2;
-                break;
-
-            // 2 byte arg (Key ID)
-            case OP_CTX_QUERY:
-            case OP_IO_U8:
-            case OP_IO_U16:
-            case OP_IO_U32:
-            case OP_IO_U64:
-            case OP_IO_I8:
-            case OP_IO_I16:
-            case OP_IO_I32:
-            case OP_IO_I64:
-            case OP_IO_F32:
-            case OP_IO_F64:
-            case OP_IO_BOOL:
-            case OP_IO_BIT_U:
-            case OP_IO_BIT_I:
-            case OP_IO_BIT_BOOL:
-            case OP_STR_PRE_U8:
-            case OP_ARR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_ARR_PRE_U16:
-            case OP_STR_PRE_U32:
-            case OP_ARR_PRE_U32:
-                instr_len = 3;
-                break;
-
-            // Special cases
-            case OP_ARR_FIXED:
-                instr_len = 7; // 1 + 2 + 4
-                break;
-                
-            case OP_STR_NULL:
-                instr_len = 5; // 1 + Key(2) + MaxLen(2)
-                break;
-                
-            case OP_RAW_BYTES:
-                instr_len = 7; // 1 + Key(2) + Count(4)
-                break;
-
-            case OP_CONST_CHECK:
-            case OP_CONST_WRITE:
-                // Key(2) + Type(1) + Value(8)
-                instr_len = 1 + 2 + 1 + 8;
-                break;
-                
-            case OP_RANGE_CHECK:
-                // Key(2) + Type(1) + Min(8) + Max(8)
-                instr_len = 1 + 2 + 1 + 8 + 8;
-                break;
-                
-            case OP_SCALE_LIN:
-                // Key(2) + Factor(8) + Offset(8)
-                instr_len = 1 + 2 + 8 + 8;
-                break;
-                
-            case OP_CRC_16:
-            case OP_CRC_32:
-                // Key(2) + StartOffset(4) + Length(4) + Poly(4) + Init(4) + XorOut(4) + RefIn(1) + RefOut(1)
-                // This is a guess based on typical CRC params, but let's assume it's handled or skip detailed check.
-                // Actually, let's just check opcode existence.
-                // If we don't know length, we can't verify.
-                // Assuming standard CRC32 params: 2+4+4+4+4+4+1+1 = 24 bytes?
-                // Let's assume 1 for now and hope it's not used in tests or fix later.
-                // Wait, tests use CRC16/32.
-                // Let's check vm_exec.c for CRC length.
-                // But I can't read it now.
-                // I'll assume 1 and if tests fail I'll fix.
-                instr_len = 1; 
-                break;
-
-            case OP_PUSH_IMM:
-                instr_len = 9; // 1 + 8
-                break;
-
-            case OP_JUMP:
-            case OP_JUMP_IF_NOT:
-                instr_len = 5; // 1 + Offset(4)
-                break;
+        size_t instr_len = il_instr_len(bc, len, ip);
+        if (instr_len == 0) return CND_ERR_INVALID_OP;
+        if (instr_len > end - ip) return CND_ERR_OOB;
 
-            case OP_SWITCH: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Count(2) + Default(4)
-                if (table_start + 6 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint16_t count = (uint16_t)(t_ptr[0] | (t_ptr[1] << 8));
-                
-                // Table size: 2 + 4 + count * (8 + 4)
-                uint32_t table_size = 6 + count * 12;
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check offsets
-                // Default offset
-                const uint8_t* def_ptr = bc + table_start + 2;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                
-                // Target relative to code_start_ip (ip + 7)
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Case offsets
-                for (uint16_t i = 0; i < count; i++) {
-                    const uint8_t* case_ptr = bc + table_start + 6 + (i * 12) + 8; // Skip value(8)
-                    int32_t off = (int32_t)(case_ptr[0] | (case_ptr[1] << 8) | (case_ptr[2] << 16) | (case_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
-            
-            case OP_SWITCH_TABLE: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Min(8) + Max(8) + Default(4)
-                if (table_start + 20 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint64_t min_val = (uint64_t)t_ptr[0] | ((uint64_t)t_ptr[1] << 8) | ((uint64_t)t_ptr[2] << 16) | ((uint64_t)t_ptr[3] << 24) |
-                                   ((uint64_t)t_ptr[4] << 32) | ((uint64_t)t_ptr[5] << 40) | ((uint64_t)t_ptr[6] << 48) | ((uint64_t)t_ptr[7] << 56);
-                uint64_t max_val = (uint64_t)t_ptr[8] | ((uint64_t)t_ptr[9] << 8) | ((uint64_t)t_ptr[10] << 16) | ((uint64_t)t_ptr[11] << 24) |
-                                   ((uint64_t)t_ptr[12] << 32) | ((uint64_t)t_ptr[13] << 40) | ((uint64_t)t_ptr[14] << 48) | ((uint64_t)t_ptr[15] << 56);
-                
-                if (max_val < min_val) return CND_ERR_VALIDATION;
-                
-                uint64_t count = max_val - min_val + 1;
-                if (count > 0xFFFFFFFF) return CND_ERR_OOB;
-                
-                uint64_t table_size_64 = 20 + count * 4;
-                if (table_size_64 > 0xFFFFFFFF) return CND_ERR_OOB;
-                uint32_t table_size = (uint32_t)table_size_64;
-                
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check default offset
-                const uint8_t* def_ptr = bc + table_start + 16;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Check table offsets
-                for (uint64_t i = 0; i < count; i++) {
-                    const uint8_t* entry_ptr = bc + table_start + 20 + (i * 4);
-                    int32_t off = (int32_t)(entry_ptr[0] | (entry_ptr[1] << 8) | (entry_ptr[2] << 16) | (entry_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
-
-            default:
-                return CND_ERR_INVALID_OP;
+        if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
+            if (!target_ok(ip + 5, rel32(bc + ip + 1), len)) return CND_ERR_OOB;
         }
 
-        // Check if instruction fits
-        if (ip + instr_len > len) {
-            return CND_ERR_OOB;
-        }
+        if (opcode == OP_SWITCH || opcode == OP_SWITCH_TABLE) {
+            size_t code = ip + instr_len, table, table_end;
+            if (!il_switch_bounds(bc, len, ip, &table, &table_end) || table_end > end) return CND_ERR_OOB;
 
-        // Additional checks for JMP
-        if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
-            const uint8_t* ptr = bc + ip + 1;
-            int32_t offset = (int32_t)(ptr[0] | (ptr[1] << 8) | (ptr[2] << 16) | (ptr[3] << 24));
-            
-            int64_t target = (int64_t)ip + 5 + offset;
-            if (target < 0 || target >= len) {
-                return CND_ERR_OOB;
+            // Default, then the offset of each case; relative to the code
+            size_t at = table + (opcode == OP_SWITCH ? 2 : 16);
+            if (!target_ok(code, rel32(bc + at), len)) return CND_ERR_OOB;
+            for (at += 4; at < table_end; at += 4) {
+                if (opcode == OP_SWITCH) at += 8; // Case value
+                if (!target_ok(code, rel32(bc + at), len)) return CND_ERR_OOB;
             }
+
+            if (depth >= MAX_SWITCH_DEPTH) return CND_ERR_STACK_OVERFLOW;
+            cnd_error_t err = verify_code(bc, len, code, table, depth + 1);
+            if (err != CND_ERR_OK) return err;
+            ip = table_end;
+            continue;
         }
 
         ip += instr_len;
@@ -281,3 +54,12 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
 
     return CND_ERR_OK;
 }
+
+cnd_error_t cnd_verify_program(const cnd_program* program)
+{
+    if (!program || !program->bytecode) {
+        return CND_ERR_OOB;
+    }
+
+    return verify_code(program->bytecode, program->bytecode_len, 0, program->bytecode_len, 0);
+}
-- 
2.43.0


From 089fd38a50a56a4500cb56cf3492e1e17e0712f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 17/60] fix: bool bit fields have no width operand

The compiler emitted one that the engine, the verifier and the tools do not
know; the engine executed it as the next instruction (1 is OP_SET_ENDIAN_LE).
---
 src/compiler/cnd_parser.c | 4 +++-
 src/compiler/cndc.c       | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8e47fa3..f939fdc 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1232,10 +1232,12 @@ void parse_field(Parser* p, const char* doc) {
                  }
                  else if (match_keyword(type_tok, "bool")) {
                      op = OP_IO_BIT_BOOL;
+                     if (bit_width != 1) { parser_error(p, "Bool bitfields are one bit wide"); return; }
                  }
                  else { parser_error(p, "Bitfields only supported for integer/bool types"); return; }
                  
-                 buf_push(p->target, op); buf_push_u16(p->target, key_id); buf_push(p->target, bit_width);
+                 buf_push(p->target, op); buf_push_u16(p->target, key_id);
+                 if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width); // A bool is always one bit
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      p->current_bit_count += bit_width;
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index bb50d52..8c86cb4 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -51,7 +51,7 @@ static void optimize_strings(Parser* p) {
         // Skip other arguments
         switch (op) {
             case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
+            case OP_IO_BIT_U: case OP_IO_BIT_I: offset += 1; break;
             case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
             case OP_ARR_FIXED: offset += 4; break; // u32 count
             case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
@@ -177,7 +177,7 @@ static void optimize_strings(Parser* p) {
         // Skip other arguments (same as above)
         switch (op) {
             case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
+            case OP_IO_BIT_U: case OP_IO_BIT_I: offset += 1; break;
             case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
             case OP_ARR_FIXED: offset += 4; break; // u32 count
             case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-- 
2.43.0


From 5c3b0a1326ba971b5d481224a8bba92f18a5d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 18/60] fix: rewrite key ids by walking whole instructions

Prefixing the fields of a nested struct stopped at the first constant, range,
enum, checksum, transform or optional marker and copied the rest with the bare
names; the key of a jump table switch and the count key of a dynamic array were
not renamed; the string table optimiser misread immediates, computed fields,
curves and jump tables as instructions and corrupted whatever it took for a key.
---
 src/compiler/cnd_internal.h |   4 +
 src/compiler/cnd_utils.c    | 234 ++++++++++-----------------------
 src/compiler/cndc.c         | 252 ++++--------------------------------
 3 files changed, 98 insertions(+), 392 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 820160a..9c51f97 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -141,6 +141,10 @@ void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
 
+// Replace every key ID in the bytecode by map(key)
+typedef uint16_t (*KeyMapFn)(uint16_t key, void* user);
+void bytecode_map_keys(uint8_t* bc, size_t len, KeyMapFn map, void* user);
+
 // Append struct bytecode with key IDs remapped to include prefix
 void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
                             const char* prefix, int prefix_len, StringTable* strtab);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f54b85e..1e8fe09 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include "../vm/vm_internal.h"
 
 char* cnd_canonicalize_path(const char* path) {
     if (!path) return NULL;
@@ -27,73 +28,14 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
-// Helper to get opcode instruction size (returns total bytes including opcode)
-static int get_opcode_size_and_keyid_offset(uint8_t op, int* keyid_offset) {
-    *keyid_offset = -1; // -1 means no key ID in this instruction
-    
+// --- Key IDs in Bytecode ---
+
+// Number of key IDs that follow the opcode
+static int get_key_count(uint8_t op) {
     switch (op) {
-        case OP_NOOP:
-        case OP_SET_ENDIAN_LE:
-        case OP_SET_ENDIAN_BE:
-        case OP_EXIT_STRUCT:
-        case OP_ARR_END:
-        case OP_EXIT_BIT_MODE:
-        case OP_ENTER_BIT_MODE:
-        case OP_ADD:
-        case OP_SUB:
-        case OP_MUL:
-        case OP_DIV:
-        case OP_MOD:
-        case OP_NEG:
-        case OP_LOG_AND:
-        case OP_LOG_OR:
-        case OP_LOG_NOT:
-        case OP_BIT_AND:
-        case OP_BIT_OR:
-        case OP_BIT_XOR:
-        case OP_BIT_NOT:
-        case OP_SHL:
-        case OP_SHR:
-        case OP_EQ:
-        case OP_NEQ:
-        case OP_GT:
-        case OP_LT:
-        case OP_GTE:
-        case OP_LTE:
-        case OP_POP:
-        case OP_DUP:
-        case OP_SWAP:
-        case OP_FADD:
-        case OP_FSUB:
-        case OP_FMUL:
-        case OP_FDIV:
-        case OP_FNEG:
-        case OP_SIN:
-        case OP_COS:
-        case OP_TAN:
-        case OP_SQRT:
-        case OP_POW:
-        case OP_LOG:
-        case OP_ABS:
-        case OP_ITOF:
-        case OP_FTOI:
-        case OP_EQ_F:
-        case OP_NEQ_F:
-        case OP_GT_F:
-        case OP_LT_F:
-        case OP_GTE_F:
-        case OP_LTE_F:
-            return 1;
-            
-        case OP_ALIGN_PAD:
-        case OP_ALIGN_FILL:
-        case OP_EMIT:
-            return 2;
-            
-        // Opcodes with key_id at offset 1
         case OP_ENTER_STRUCT:
         case OP_META_NAME:
-        case OP_META_VERSION:
+        case OP_CTX_QUERY:
         case OP_IO_U8:
         case OP_IO_U16:
         case OP_IO_U32:
@@ -105,131 +47,91 @@ static int get_opcode_size_and_keyid_offset(uint8_t op, int* keyid_offset) {
         case OP_IO_F32:
         case OP_IO_F64:
         case OP_IO_BOOL:
-        case OP_IO_BIT_BOOL:
-        case OP_LOAD_CTX:
-        case OP_STORE_CTX:
-        case OP_ARR_EOF:
-            *keyid_offset = 1;
-            return 3;
-            
         case OP_IO_BIT_U:
         case OP_IO_BIT_I:
-            *keyid_offset = 1;
-            return 4; // op + key(2) + bits(1)
-            
+        case OP_IO_BIT_BOOL:
         case OP_STR_NULL:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + maxlen(2)
-            
         case OP_STR_PRE_U8:
         case OP_STR_PRE_U16:
         case OP_STR_PRE_U32:
+        case OP_ARR_FIXED:
         case OP_ARR_PRE_U8:
         case OP_ARR_PRE_U16:
         case OP_ARR_PRE_U32:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_ARR_FIXED:
+        case OP_ARR_EOF:
         case OP_RAW_BYTES:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + count(4)
-            
-        case OP_ARR_DYNAMIC:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + ref_key(2)
-            
-        case OP_JUMP:
-        case OP_JUMP_IF_NOT:
-            return 5; // op + offset(4)
-            
-        case OP_PUSH_IMM:
-            return 9; // op + val(8)
-            
-        case OP_SWITCH:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + table_off(4)
-            
-        // Variable length - skip for now, struct bytecode shouldn't have these
         case OP_CONST_CHECK:
-        case OP_CONST_WRITE:
-        case OP_RANGE_CHECK:
-        case OP_SCALE_LIN:
-        case OP_TRANS_ADD:
-        case OP_TRANS_SUB:
-        case OP_TRANS_MUL:
-        case OP_TRANS_DIV:
-        case OP_TRANS_POLY:
-        case OP_TRANS_SPLINE:
-        case OP_CRC_16:
-        case OP_CRC_32:
-        case OP_ENUM_CHECK:
-        case OP_MARK_OPTIONAL:
+        case OP_SWITCH:
+        case OP_SWITCH_TABLE:
+        case OP_LOAD_CTX:
+        case OP_STORE_CTX:
+            return 1;
+        case OP_ARR_DYNAMIC:
+            return 2; // array key, count key
         default:
-            return -1; // Unknown/variable - can't process
+            return 0;
     }
 }
 
-// Append struct bytecode with key IDs remapped to include prefix
-void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
-                            const char* prefix, int prefix_len, StringTable* strtab) {
-    size_t i = 0;
-    while (i < len) {
-        uint8_t op = src[i];
-        int keyid_offset;
-        int instr_size = get_opcode_size_and_keyid_offset(op, &keyid_offset);
+static void map_keys_in(uint8_t* bc, size_t len, size_t ip, size_t end, KeyMapFn map, void* user) {
+    while (ip < end) {
+        size_t size = il_instr_len(bc, len, ip);
+        if (size == 0 || size > end - ip) return;
         
-        if (instr_size < 0 || i + instr_size > len) {
-            // Unknown opcode or would overflow - just copy rest verbatim
-            buf_append(b, src + i, len - i);
-            break;
+        for (int k = 0; k < get_key_count(bc[ip]); k++) {
+            uint8_t* at = bc + ip + 1 + 2 * k;
+            uint16_t key = map((uint16_t)(at[0] | (at[1] << 8)), user);
+            at[0] = key & 0xFF;
+            at[1] = (key >> 8) & 0xFF;
         }
         
-        if (keyid_offset < 0) {
-            // No key ID to remap, just copy
-            buf_append(b, src + i, instr_size);
+        if (bc[ip] == OP_SWITCH || bc[ip] == OP_SWITCH_TABLE) {
+            // The jump table behind the cases is data
+            size_t table, table_end;
+            if (!il_switch_bounds(bc, len, ip, &table, &table_end) || table_end > end) return;
+            map_keys_in(bc, len, ip + size, table, map, user);
+            ip = table_end;
         } else {
-            // Has key ID - need to remap
-            // Copy opcode byte(s) before key
-            buf_append(b, src + i, keyid_offset);
-            
-            // Read old key ID
-            uint16_t old_key = src[i + keyid_offset] | (src[i + keyid_offset + 1] << 8);
-            
-            // Look up old string
-            const char* old_name = (old_key < strtab->count) ? strtab->strings[old_key] : "";
-            int old_len = (int)strlen(old_name);
-            
-            // Build new prefixed name
-            char new_name[512];
-            if (prefix_len + 1 + old_len < 512) {
-                memcpy(new_name, prefix, prefix_len);
-                new_name[prefix_len] = '.';
-                memcpy(new_name + prefix_len + 1, old_name, old_len);
-                new_name[prefix_len + 1 + old_len] = '\0';
-            } else {
-                // Fallback - just use old name
-                memcpy(new_name, old_name, old_len + 1);
-            }
-            
-            // Add new name to strtab and get new key ID
-            uint16_t new_key = strtab_add(strtab, new_name, prefix_len + 1 + old_len);
-            
-            // Write new key ID
-            buf_push(b, new_key & 0xFF);
-            buf_push(b, (new_key >> 8) & 0xFF);
-            
-            // Copy rest of instruction after key ID
-            int after_key = instr_size - keyid_offset - 2;
-            if (after_key > 0) {
-                buf_append(b, src + i + keyid_offset + 2, after_key);
-            }
+            ip += size;
         }
-        
-        i += instr_size;
     }
 }
 
+// Replace every key ID in the bytecode by map(key)
+void bytecode_map_keys(uint8_t* bc, size_t len, KeyMapFn map, void* user) {
+    map_keys_in(bc, len, 0, len, map, user);
+}
+
+typedef struct {
+    const char* prefix;
+    int prefix_len;
+    StringTable* strtab;
+} PrefixMap;
+
+static uint16_t add_prefix(uint16_t key, void* user) {
+    PrefixMap* m = (PrefixMap*)user;
+    const char* old_name = (key < m->strtab->count) ? m->strtab->strings[key] : "";
+    
+    StringBuilder name;
+    sb_init(&name);
+    sb_append_n(&name, m->prefix, m->prefix_len);
+    sb_append_c(&name, '.');
+    sb_append(&name, old_name);
+    uint16_t new_key = strtab_add(m->strtab, name.data, (int)name.length);
+    sb_free(&name);
+    return new_key;
+}
+
+// Append struct bytecode with key IDs remapped to include prefix
+void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
+                            const char* prefix, int prefix_len, StringTable* strtab) {
+    size_t start = b->size;
+    buf_append(b, src, len);
+    
+    PrefixMap m = { prefix, prefix_len, strtab };
+    bytecode_map_keys(b->data + start, len, add_prefix, &m);
+}
+
 // --- Buffer Implementation ---
 
 void buf_init(Buffer* b) {
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 8c86cb4..94c2746 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -3,255 +3,55 @@
 #include <string.h>
 #include "cnd_internal.h"
 
-static int get_type_size(uint8_t type) {
-    switch (type) {
-        case OP_IO_U8: case OP_IO_I8: return 1;
-        case OP_IO_U16: case OP_IO_I16: return 2;
-        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
-        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
-        case OP_IO_BOOL: return 1;
-        default: return 0;
-    }
+typedef struct {
+    uint8_t* used;
+    uint16_t* map;
+    size_t count;
+} StringUse;
+
+static uint16_t mark_used(uint16_t id, void* user) {
+    StringUse* u = (StringUse*)user;
+    if (id < u->count) u->used[id] = 1;
+    return id;
+}
+
+static uint16_t new_id(uint16_t id, void* user) {
+    StringUse* u = (StringUse*)user;
+    return id < u->count ? u->map[id] : id;
 }
 
 static void optimize_strings(Parser* p) {
     if (p->strtab.count == 0) return;
 
     // 1. Mark used strings
-    uint8_t* used = calloc(p->strtab.count, 1);
-    
-    size_t offset = 0;
-    uint8_t* bc = p->global_bc.data;
-    size_t len = p->global_bc.size;
-
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        // Opcodes with string ID at offset 0 (immediately after op)
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t id = *(uint16_t*)(bc + offset);
-            if (id < p->strtab.count) used[id] = 1;
-            offset += 2;
-        }
-
-        // Skip other arguments
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_EOF: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t id = *(uint16_t*)(bc + offset);
-                if (id < p->strtab.count) used[id] = 1;
-                offset += 2; 
-                break;
-            }
-            
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2; // min, max
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break; // poly(2), init(2), xor(2), flags(1)
-            case OP_CRC_32: offset += 13; break; // poly(4), init(4), xor(4), flags(1)
-            case OP_SCALE_LIN: offset += 16; break; // double, double
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break; // double
-            case OP_TRANS_POLY: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 8;
-                break;
-            }
-            case OP_TRANS_SPLINE: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 16; // 2 doubles per point
-                break;
-            }
-            
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    StringUse use;
+    use.count = p->strtab.count;
+    use.used = calloc(p->strtab.count, 1);
+    use.map = malloc(p->strtab.count * sizeof(uint16_t));
+    bytecode_map_keys(p->global_bc.data, p->global_bc.size, mark_used, &use);
 
     // 2. Build new string table and map
-    uint16_t* map = malloc(p->strtab.count * sizeof(uint16_t));
     StringTable new_tab;
     strtab_init(&new_tab);
 
     for (size_t i = 0; i < p->strtab.count; i++) {
-        if (used[i]) {
-            uint16_t new_id = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
-            map[i] = new_id;
+        if (use.used[i]) {
+            use.map[i] = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
         } else {
-            map[i] = 0; // Should not be used
+            use.map[i] = 0; // Should not be used
         }
     }
 
     // 3. Update bytecode
-    offset = 0;
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t* id_ptr = (uint16_t*)(bc + offset);
-            uint16_t old_id = *id_ptr;
-            if (old_id < p->strtab.count) {
-                *id_ptr = map[old_id];
-            }
-            offset += 2;
-        }
-
-        // Skip other arguments (same as above)
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t* id_ptr = (uint16_t*)(bc + offset);
-                uint16_t old_id = *id_ptr;
-                if (old_id < p->strtab.count) {
-                    *id_ptr = map[old_id];
-                }
-                offset += 2;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2;
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break;
-            case OP_CRC_32: offset += 13; break;
-            case OP_SCALE_LIN: offset += 16; break;
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break;
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    bytecode_map_keys(p->global_bc.data, p->global_bc.size, new_id, &use);
 
     // Replace string table
     for(size_t i=0; i<p->strtab.count; i++) free(p->strtab.strings[i]);
     free(p->strtab.strings);
     p->strtab = new_tab;
 
-    free(used);
-    free(map);
+    free(use.used);
+    free(use.map);
 }
 
 // Implementation of cnd_compile_file using the new modular structure
-- 
2.43.0


From e00fc2c3c4a9ea0bbfc044bfa455de48419dc5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 19/60] fix: parentheses, unary operators and casts in
 expressions

parse_precedence has already consumed the ( or the operator when the prefix
rule runs, so both rules skipped a token. Token types past the end of the rule
table no longer read outside it, float() of a float and int() of an integer
leave the value alone.
---
 src/compiler/cnd_parser.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index f939fdc..44bd11c 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -48,8 +48,7 @@ static int is_float_literal(Token t) {
 }
 
 static ExprType parse_unary(Parser* p) {
-    TokenType op = p->current.type;
-    advance(p);
+    TokenType op = p->previous.type; // parse_precedence already consumed the operator
     ExprType t = parse_precedence(p, PREC_UNARY);
     switch (op) {
         case TOK_BANG: buf_push(p->target, OP_LOG_NOT); return TYPE_INT;
@@ -123,8 +122,7 @@ static ExprType parse_binary(Parser* p, ExprType left) {
 }
 
 static ExprType parse_grouping(Parser* p) {
-    advance(p); // Consume (
-    ExprType t = parse_expression(p);
+    ExprType t = parse_expression(p); // parse_precedence already consumed the (
     consume(p, TOK_RPAREN, "Expect ) after expression");
     return t;
 }
@@ -159,6 +157,9 @@ static ParseRule rules[] = {
 };
 
 static ParseRule* get_rule(TokenType type) {
+    static ParseRule none = {NULL, NULL, PREC_NONE};
+    // Token types past the end of the table (doc comments, errors) have no rule
+    if ((size_t)type >= sizeof(rules) / sizeof(rules[0])) return &none;
     return &rules[type];
 }
 
@@ -423,15 +424,15 @@ ExprType parse_primary(Parser* p) {
             return TYPE_FLOAT;
         } else if (match_keyword(name, "float")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force ITOF
+            // A field's type is not known here, it is taken as an integer
+            if (parse_expression(p) != TYPE_FLOAT) buf_push(p->target, OP_ITOF);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_ITOF);
             return TYPE_FLOAT;
         } else if (match_keyword(name, "int")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force FTOI
+            // A field's type is not known here, it is taken as a float
+            if (parse_expression(p) != TYPE_INT) buf_push(p->target, OP_FTOI);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_FTOI);
             return TYPE_INT;
         } else {
             // Handle Dot Notation (e.g. position.x)
-- 
2.43.0


From 6803eebb97bec56427a627c7402d9054bda62165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 20/60] fix: transforms apply to every array element

The transform was emitted before the array's begin instruction, so only the
first element was transformed.
---
 src/compiler/cnd_parser.c | 54 +++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 44bd11c..effcd8a 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -957,33 +957,6 @@ void parse_field(Parser* p, const char* doc) {
         // Do nothing here, wait until type is parsed
     }
     
-    // Emit Transform Op
-    if (trans_type == CND_TRANS_SCALE_F64) {
-        buf_push(p->target, OP_SCALE_LIN);
-        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
-        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
-    } else if (trans_type == CND_TRANS_MUL_I64) {
-        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_DIV_I64) {
-        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_ADD_I64) {
-        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_SUB_I64) {
-        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_POLY) {
-        buf_push(p->target, OP_TRANS_POLY);
-        buf_push(p->target, poly_count);
-        for (int i = 0; i < poly_count; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
-        }
-    } else if (trans_type == CND_TRANS_SPLINE) {
-        buf_push(p->target, OP_TRANS_SPLINE);
-        buf_push(p->target, spline_count);
-        for (int i = 0; i < spline_count * 2; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
-        }
-    }
-
     Token type_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect field type");
 
@@ -1076,6 +1049,33 @@ void parse_field(Parser* p, const char* doc) {
         buf_push_u32(p->target, array_fixed_count);
     } 
     
+    // Emit Transform Op, inside the array body so that it applies to every element
+    if (trans_type == CND_TRANS_SCALE_F64) {
+        buf_push(p->target, OP_SCALE_LIN);
+        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
+        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
+    } else if (trans_type == CND_TRANS_MUL_I64) {
+        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_DIV_I64) {
+        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_ADD_I64) {
+        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_SUB_I64) {
+        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_POLY) {
+        buf_push(p->target, OP_TRANS_POLY);
+        buf_push(p->target, poly_count);
+        for (int i = 0; i < poly_count; i++) {
+            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
+        }
+    } else if (trans_type == CND_TRANS_SPLINE) {
+        buf_push(p->target, OP_TRANS_SPLINE);
+        buf_push(p->target, spline_count);
+        for (int i = 0; i < spline_count * 2; i++) {
+            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
+        }
+    }
+
     if (str_prefix_op != OP_NOOP) {
         buf_push(p->target, str_prefix_op); buf_push_u16(p->target, key_id);
     }
-- 
2.43.0


From 5ea3f8fca239a61b19698b655ec44135142d8400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 21/60] fix: byte order decorators apply to the field they
 decorate only

After @be the order went back to little endian even where the file or the
unaligned struct is big endian, @le did nothing there, and the order of an
@unaligned_bytes struct leaked into the fields after it.
---
 src/compiler/cnd_internal.h |  1 +
 src/compiler/cnd_parser.c   | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 9c51f97..0283ebd 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -250,6 +250,7 @@ typedef struct {
     int pending_be;        // Flag: Next struct is @big_endian
     int pending_le;        // Flag: Next struct is @little_endian
     int in_bit_mode;       // Flag: Currently parsing inside @unaligned_bytes struct
+    int big_endian;        // Flag: Byte order in force for fields without a decorator
     
     // Bit Tracking for Validation
     int current_bit_count; // Bits consumed in current struct
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index effcd8a..097dd9b 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -754,7 +754,7 @@ void parse_field(Parser* p, const char* doc) {
     int has_fixed_array_count = 0;
     uint64_t const_val = 0;
     int has_const = 0;
-    int is_big_endian_field = 0;
+    int is_big_endian_field = p->big_endian;
     int is_standalone_op = 0;
     
     int has_range = 0;
@@ -1035,7 +1035,10 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_BE); }
+    // The decorator changes the byte order of this field only
+    if (is_big_endian_field != p->big_endian) {
+        buf_push(p->target, is_big_endian_field ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
+    }
 
     if (arr_prefix_op != OP_NOOP) {
         buf_push(p->target, arr_prefix_op); buf_push_u16(p->target, key_id);
@@ -1294,7 +1297,9 @@ void parse_field(Parser* p, const char* doc) {
 
     consume(p, TOK_SEMICOLON, "Expect ; after field");
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_LE); }
+    if (is_big_endian_field != p->big_endian) {
+        buf_push(p->target, p->big_endian ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
+    }
 }
 
 void parse_block(Parser* p) {
@@ -1443,10 +1448,12 @@ void parse_struct(Parser* p, const char* doc) {
     int was_in_bit_mode = p->in_bit_mode;
     int prev_bit_count = p->current_bit_count;
     int prev_bit_valid = p->is_bit_count_valid;
+    int prev_big_endian = p->big_endian;
 
     if (p->pending_unaligned) {
         buf_push(p->target, OP_ENTER_BIT_MODE);
         buf_push(p->target, OP_SET_ENDIAN_BE);
+        p->big_endian = 1;
         p->in_bit_mode = 1;
         p->pending_unaligned = 0;
         p->current_bit_count = 0;
@@ -1469,8 +1476,11 @@ void parse_struct(Parser* p, const char* doc) {
             parser_error(p, msg);
         }
         buf_push(p->target, OP_EXIT_BIT_MODE);
+        // The fields after the struct keep the byte order they had before it
+        if (!prev_big_endian) buf_push(p->target, OP_SET_ENDIAN_LE);
         p->in_bit_mode = 0;
     }
+    p->big_endian = prev_big_endian;
     p->in_bit_mode = was_in_bit_mode;
     p->current_bit_count = prev_bit_count;
     p->is_bit_count_valid = prev_bit_valid;
@@ -1640,10 +1650,12 @@ void parse_top_level(Parser* p) {
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
-            } else if (match_keyword(dec, "big_endian")) {
+            } else if (match_keyword(dec, "big_endian") || match_keyword(dec, "be")) {
                 buf_push(p->target, OP_SET_ENDIAN_BE);
+                p->big_endian = 1;
             } else if (match_keyword(dec, "little_endian") || match_keyword(dec, "le")) {
                 buf_push(p->target, OP_SET_ENDIAN_LE);
+                p->big_endian = 0;
             } else if (match_keyword(dec, "unaligned_bytes")) {
                 p->pending_unaligned = 1;
             } else {
-- 
2.43.0


From 6f42037e215622be00f5d3d3bc995520d274c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 22/60] fix: a const bit field is an error

The width was ignored and a whole integer was emitted.
---
 src/compiler/cnd_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 097dd9b..7d2afef 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1084,6 +1084,8 @@ void parse_field(Parser* p, const char* doc) {
     }
 
     if (has_const) {
+        if (bit_width > 0) { parser_error(p, "Bitfields not supported for const fields"); }
+
         uint8_t type_op = OP_IO_U16;
         int is_signed = 0;
         int width = 0; // 1, 2, 4, 8
-- 
2.43.0


From c0f85117c89f9cf0be841369771e6e8d2e658fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 23/60] fix: hex literals with the digit e are integers

---
 src/compiler/cnd_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 7d2afef..5b6926a 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -41,6 +41,7 @@ static ExprType parse_grouping(Parser* p);
 ExprType parse_expression(Parser* p);
 
 static int is_float_literal(Token t) {
+    if (t.length > 1 && t.start[0] == '0' && (t.start[1] == 'x' || t.start[1] == 'X')) return 0; // 'e' is a hex digit
     for (int i = 0; i < t.length; i++) {
         if (t.start[i] == '.' || t.start[i] == 'e' || t.start[i] == 'E') return 1;
     }
-- 
2.43.0


From 03e9833a5c0d09cee3a8e799dfaed104e38e12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 24/60] fix: numbers that do not fit are compile errors

Range bounds, enum values, bit widths, paddings, string limits and case counts
were cut to the width of their operand.
---
 src/compiler/cnd_parser.c | 40 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 5b6926a..83387f4 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -281,7 +281,26 @@ int match_keyword(Token t, const char* kw) {
 
 
 
+// True if the value fits the integer type
+static int fits_type(uint8_t type_op, int64_t val) {
+    switch (type_op) {
+        case OP_IO_U8: return val >= 0 && val <= UINT8_MAX;
+        case OP_IO_U16: return val >= 0 && val <= UINT16_MAX;
+        case OP_IO_U32: return val >= 0 && val <= UINT32_MAX;
+        case OP_IO_I8: return val >= INT8_MIN && val <= INT8_MAX;
+        case OP_IO_I16: return val >= INT16_MIN && val <= INT16_MAX;
+        case OP_IO_I32: return val >= INT32_MIN && val <= INT32_MAX;
+        default: return 1;
+    }
+}
+
 void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
+    if (!fits_type(type_op, parse_number_i64(min_tok.start, min_tok.length)) ||
+        !fits_type(type_op, parse_number_i64(max_tok.start, max_tok.length))) {
+        parser_error(p, "Range does not fit the type");
+        return;
+    }
+
     // Validate range
     if (type_op == OP_IO_U8 || type_op == OP_IO_U16 || type_op == OP_IO_U32) {
         uint32_t min = parse_number_u32(min_tok.start, min_tok.length);
@@ -638,6 +657,8 @@ void parse_switch(Parser* p) {
     }
     consume(p, TOK_RBRACE, "Expect }");
     
+    if (case_count > 0xFFFF) parser_error(p, "Too many cases");
+
     // Analyze cases for Jump Table optimization
     int use_jump_table = 0;
     uint64_t min_val = UINT64_MAX;
@@ -854,7 +875,9 @@ void parse_field(Parser* p, const char* doc) {
             } else if (match_keyword(dec_name_token, "pad")) {
                 is_standalone_op = 1;
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect pad bits");
-                uint32_t pad_bits = parse_number_u32(num.start, num.length); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
+                uint32_t pad_bits = parse_number_u32(num.start, num.length);
+                if (pad_bits > 255) { parser_error(p, "Padding must be at most 255 bits"); }
+                buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
                 if (p->in_bit_mode && p->is_bit_count_valid) {
                     p->current_bit_count += pad_bits;
                 }
@@ -980,7 +1003,9 @@ void parse_field(Parser* p, const char* doc) {
     uint8_t bit_width = 0;
     if (p->current.type == TOK_COLON) {
         advance(p); consume(p, TOK_NUMBER, "Expect bit width");
-        bit_width = (uint8_t)parse_number_u32(p->previous.start, p->previous.length);
+        uint32_t width = parse_number_u32(p->previous.start, p->previous.length);
+        if (width < 1 || width > 64) { parser_error(p, "Bit width must be between 1 and 64"); return; }
+        bit_width = (uint8_t)width;
     }
 
     int is_array_field = 0; 
@@ -1027,7 +1052,11 @@ void parse_field(Parser* p, const char* doc) {
         } else { parser_error(p, "Prefix keyword used for non-variable-array/non-string type"); }
     } else if (match_keyword(type_tok, "string")) {
         if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); has_until = 1; }
-        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)parse_number_u32(max_tok.start, max_tok.length); }
+        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); 
+            uint32_t max_val = parse_number_u32(max_tok.start, max_tok.length);
+            if (max_val > 0xFFFF) { parser_error(p, "Max string length is 65535"); }
+            max_len = (uint16_t)max_val;
+        }
     }
 
     if (is_array_field && match_keyword(type_tok, "string")) {
@@ -1394,6 +1423,10 @@ void parse_enum(Parser* p, const char* doc) {
             val = parse_number_i64(num.start, num.length);
         }
         
+        if (!fits_type(def->underlying_type, val)) {
+            parser_error(p, "Enum value does not fit the underlying type");
+        }
+
         // Check for duplicate value
         for (size_t i = 0; i < def->count; i++) {
             if (def->values[i].value == val) {
@@ -1420,6 +1453,7 @@ void parse_enum(Parser* p, const char* doc) {
     }
     sb_free(&val_doc_sb);
     consume(p, TOK_RBRACE, "Expect }");
+    if (def->count > 0xFFFF) parser_error(p, "Too many enum values");
     
     strtab_free(&value_names);
 }
-- 
2.43.0


From 45bd8b7a5b549f96fd03895a7c74fa37d5f07170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 25/60] fix: decorators a field cannot honour are compile
 errors

A transform on a bit, bool, const, CRC or computed field was applied to the next
field that takes one, a range on a bit or CRC field and unsupported CRC widths
were dropped, a computed bit or const field left its value on the stack. Ranges
of computed fields are checked.
---
 src/compiler/cnd_parser.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 83387f4..365d06b 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1082,6 +1082,25 @@ void parse_field(Parser* p, const char* doc) {
         buf_push_u32(p->target, array_fixed_count);
     } 
     
+    // Decorators that would be dropped, or that would act on a later field
+    int is_bit_field = bit_width > 0 || p->in_bit_mode;
+    int is_bool = match_keyword(type_tok, "bool");
+    if (trans_type != CND_TRANS_NONE && (has_const || has_crc || has_expr || is_bit_field || is_bool)) {
+        parser_error(p, "Cannot apply scale/transform to a const, CRC, computed, bool or bit field");
+    }
+    if (has_range && (has_crc || is_bit_field || is_bool)) {
+        parser_error(p, "Cannot apply range check to a CRC, bool or bit field");
+    }
+    if (has_crc && (has_const || has_expr || is_bit_field || is_array_field)) {
+        parser_error(p, "Cannot apply CRC to a const, computed, bit or array field");
+    }
+    if (has_crc && crc_width != 16 && crc_width != 32) { parser_error(p, "CRC width must be 16 or 32"); }
+    if (has_expr && (has_const || is_bit_field || is_array_field || match_keyword(type_tok, "string") ||
+                     reg_find(&p->registry, type_tok.start, type_tok.length) ||
+                     enum_reg_find(&p->enums, type_tok.start, type_tok.length))) {
+        parser_error(p, "Only plain number and bool fields can be computed");
+    }
+
     // Emit Transform Op, inside the array body so that it applies to every element
     if (trans_type == CND_TRANS_SCALE_F64) {
         buf_push(p->target, OP_SCALE_LIN);
@@ -1317,6 +1336,7 @@ void parse_field(Parser* p, const char* doc) {
                     buf_push(p->target, OP_DUP);
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
+                    if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 } else {
                     buf_push(p->target, op); buf_push_u16(p->target, key_id);
                     if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
-- 
2.43.0


From 2d5bc15f1a01f6bcca18ea3f4d0c8cae036790a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 26/60] fix: compile and fmt report failed reads and writes

Short reads, full disks and failing closes were ignored and reported as
success.
---
 src/compiler/cnd_fmt.c      | 24 ++++++++++------
 src/compiler/cnd_internal.h |  4 +++
 src/compiler/cnd_parser.c   | 10 +++++--
 src/compiler/cnd_utils.c    | 14 +++++++++
 src/compiler/cndc.c         | 57 +++++++++++++++++++++++++------------
 5 files changed, 80 insertions(+), 29 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 89abf8a..73ad7f7 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -221,14 +221,12 @@ int cnd_format_file(const char* in_path, const char* out_path) {
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    char* source = (char*)malloc(size + 1);
-    fread(source, 1, size, f);
-    source[size] = '\0';
+    char* source = cnd_read_all(f);
     fclose(f);
+    if (!source) {
+        fprintf(stderr, "Failed to read input file: %s\n", in_path);
+        return 1;
+    }
 
     char* formatted = cnd_format_source(source);
     free(source);
@@ -245,9 +243,17 @@ int cnd_format_file(const char* in_path, const char* out_path) {
         }
     }
 
-    fputs(formatted, out);
+    int ok = fputs(formatted, out) >= 0;
     
-    if (out_path && out != stdout) fclose(out);
+    if (out == stdout) {
+        if (fflush(out) != 0) ok = 0;
+    } else if (fclose(out) != 0) {
+        ok = 0;
+    }
     free(formatted);
+    if (!ok) {
+        fprintf(stderr, "Failed to write output: %s\n", out_path ? out_path : "stdout");
+        return 1;
+    }
     return 0;
 }
diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 0283ebd..dffba6e 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -268,6 +268,10 @@ typedef struct {
 // Caller owns the returned string.
 char* cnd_canonicalize_path(const char* path);
 
+// Reads the rest of the file into a newly-allocated NUL terminated string.
+// Returns NULL if it cannot be read completely. Caller owns the returned string.
+char* cnd_read_all(FILE* f);
+
 void parser_error(Parser* p, const char* msg);
 void advance(Parser* p);
 void consume(Parser* p, TokenType type, const char* msg);
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 365d06b..c1bfd27 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1655,9 +1655,15 @@ void parse_import(Parser* p) {
         return;
     }
     
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = (char*)malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
+    char* source = cnd_read_all(f);
     fclose(f);
+    if (!source) {
+        char msg[512];
+        snprintf(msg, sizeof(msg), "Could not read imported file: %s", full_path);
+        parser_error(p, msg);
+        free(full_path);
+        return;
+    }
     
     // Save state
     Lexer old_lexer = p->lexer;
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 1e8fe09..4708fa3 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -28,6 +28,20 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
+char* cnd_read_all(FILE* f) {
+    if (fseek(f, 0, SEEK_END) != 0) return NULL;
+    long size = ftell(f);
+    if (size < 0 || fseek(f, 0, SEEK_SET) != 0) return NULL;
+    char* text = malloc((size_t)size + 1);
+    if (!text) return NULL;
+    if (fread(text, 1, (size_t)size, f) != (size_t)size) {
+        free(text);
+        return NULL;
+    }
+    text[size] = '\0';
+    return text;
+}
+
 // --- Key IDs in Bytecode ---
 
 // Number of key IDs that follow the opcode
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 94c2746..f6e3fa4 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -54,6 +54,31 @@ static void optimize_strings(Parser* p) {
     free(use.map);
 }
 
+// Writes the IL image and closes the file. Returns 0 if any of it may not have been written.
+static int write_image(Parser* p, FILE* out) {
+    Buffer image;
+    buf_init(&image);
+    
+    uint32_t str_offset = 16;
+    uint32_t str_bytes = 0;
+    for(size_t i=0; i<p->strtab.count; i++) { str_bytes += (uint32_t)(strlen(p->strtab.strings[i]) + 1); }
+    
+    buf_append(&image, (const uint8_t*)"CNDIL", 5);
+    buf_push(&image, 1);
+    buf_push_u16(&image, (uint16_t)p->strtab.count);
+    buf_push_u32(&image, str_offset);
+    buf_push_u32(&image, str_offset + str_bytes);
+    for(size_t i=0; i<p->strtab.count; i++) {
+        buf_append(&image, (const uint8_t*)p->strtab.strings[i], strlen(p->strtab.strings[i]) + 1);
+    }
+    buf_append(&image, p->global_bc.data, p->global_bc.size);
+    
+    int ok = fwrite(image.data, 1, image.size, out) == image.size;
+    if (fclose(out) != 0) ok = 0;
+    buf_free(&image);
+    return ok;
+}
+
 // Implementation of cnd_compile_file using the new modular structure
 int cnd_compile_file(const char* in_path, const char* out_path, int json_output, int verbose) {
     setbuf(stdout, NULL); // Ensure debug prints are flushed immediately
@@ -67,9 +92,14 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
         if (canonical_in_path) free(canonical_in_path);
         return 1; 
     }
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
+    char* source = cnd_read_all(f);
     fclose(f);
+    if (!source) {
+        if (json_output) printf("{\"error\": \"Error reading input file: %s\"}\n", open_path);
+        else printf("Error reading input file: %s\n", open_path);
+        if (canonical_in_path) free(canonical_in_path);
+        return 1;
+    }
 
     Parser p;
     memset(&p, 0, sizeof(Parser)); // Zero init
@@ -93,6 +123,8 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     
     int ret = 0;
 
+    if (!p.had_error && p.strtab.count > 0xFFFF) parser_error(&p, "Too many names");
+
     if (p.had_error) {
         ret = 1;
     } else {
@@ -104,22 +136,11 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
             else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error opening output file: %s\n", out_path); 
             ret = 1; 
         } else {
-            fwrite("CNDIL", 1, 5, out); fputc(1, out);
-            uint16_t str_count = (uint16_t)p.strtab.count; fwrite(&str_count, 2, 1, out); 
-            
-            uint32_t str_offset = 16;
-            uint32_t str_bytes = 0;
-            for(size_t i=0; i<p.strtab.count; i++) { str_bytes += (uint32_t)(strlen(p.strtab.strings[i]) + 1); }
-            uint32_t bytecode_offset = str_offset + str_bytes;
-            
-            fwrite(&str_offset, 4, 1, out); fwrite(&bytecode_offset, 4, 1, out);
-            
-            for(size_t i=0; i<p.strtab.count; i++) { fwrite(p.strtab.strings[i], 1, strlen(p.strtab.strings[i]) + 1, out); }
-            
-            fwrite(p.global_bc.data, 1, p.global_bc.size, out);
-            
-            fclose(out);
-            if (json_output) {
+            if (!write_image(&p, out)) {
+                if (json_output) printf("{\"status\": \"error\", \"message\": \"Error writing output file: %s\"}\n", out_path);
+                else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error writing output file: %s\n", out_path);
+                ret = 1;
+            } else if (json_output) {
                 // Escape paths for JSON (simple check)
                 // For now assuming paths don't have crazy characters, but in production should be escaped properly
                 printf("{\"status\": \"success\", \"input\": \"%s\", \"output\": \"%s\", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n",
-- 
2.43.0


From f194bca8dec113c541d0e5492a0fdeab95632e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:01 +0000
Subject: [PATCH 27/60] fix: JSON documents survive the way to binary and back

- Bulk byte transfers are declined. They opened an array that nothing closed,
  so everything after a byte array was lost, and --hex never saw the bytes.
- A missing array is an empty array, the end event closed its parent.
- An array longer than its length field or its count is an error.
- 32 bit and wider integers no longer pass through int.
- Length prefixes of 32 bit strings follow the byte order.
- Member names are case sensitive, references to members of nested structs are
  resolved, float members are floats in expressions.
- Computed members have their field's type and can be referred to when encoding.
- Nesting is bounded by the stack of objects.
---
 include/cli_helpers.h  |   2 +
 src/cli/json_binding.c | 464 ++++++++++++++++++++---------------------
 2 files changed, 230 insertions(+), 236 deletions(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index 0fd7b66..991eb94 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -31,7 +31,9 @@ void free_il(ILFile* il);
 typedef struct {
     ILFile* il;
     cJSON* stack[32]; // Stack for nested objects
+    uint16_t stack_key[32]; // Key of the struct field each nested object stands for
     int depth;
+    uint8_t key_types[65536]; // Type each key was last seen with
 
     // For robust array handling
     cJSON* array_stack[32]; // Stack for current array cJSON object
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 96b178d..437c5ca 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -22,213 +22,236 @@ static void append_hex_byte(IOCtx* io, uint8_t byte) {
     io->hex_str_buffer_len += 2;
 }
 
-static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent, void* ptr) {
-    // Determine if this array should be treated as a Hex String (byte array)
-    bool is_hex_array = false;
-    if (io->hex_mode && ctx->mode == CND_MODE_DECODE) {
-        if (type == OP_RAW_BYTES) {
-            is_hex_array = true;
-        } else {
-            // Peek IL for element type
-            const uint8_t* ip = ctx->program->bytecode + ctx->ip;
-            const uint8_t* end = ctx->program->bytecode + ctx->program->bytecode_len;
-            if (ip < end) {
-                // Skip current instruction args to find NEXT instruction
-                if (type == OP_ARR_FIXED) ip += 6; // Key(2) + Count(4)
-                else ip += 2; // Key(2) for ARR_PRE
-                
-                if (ip < end && *ip == OP_IO_U8) is_hex_array = true;
-            }
+static int hex_char_value(char c) {
+    if (c >= '0' && c <= '9') return c - '0';
+    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
+    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
+    return -1;
+}
+
+// The value of an integer member, as a two's complement number
+static uint64_t json_to_u64(const cJSON* item) {
+    double d = cJSON_IsBool(item) ? (cJSON_IsTrue(item) ? 1 : 0) : item->valuedouble;
+    if (d >= 18446744073709551616.0) return UINT64_MAX;
+    if (d >= 0) return (uint64_t)d;
+    if (d > -9223372036854775808.0) return (uint64_t)(int64_t)d;
+    return d < 0 ? (uint64_t)INT64_MIN : 0; // 0: not a number
+}
+
+static int64_t json_to_i64(const cJSON* item) {
+    uint64_t v = json_to_u64(item);
+    if (item->valuedouble > 0 && v > INT64_MAX) return INT64_MAX;
+    return (int64_t)v;
+}
+
+static const char* key_name_of(IOCtx* io, uint16_t key_id) {
+    return key_id < io->il->str_count ? io->il->string_table[key_id] : "";
+}
+
+// Helper: get the last component of a dot-separated key (e.g., "position.x" -> "x")
+static const char* get_json_key(const char* key_name) {
+    const char* dot = strrchr(key_name, '.');
+    return dot ? (dot + 1) : key_name;
+}
+
+// True if the values the callback is asked for are elements of the innermost array
+static bool in_array(const IOCtx* io) {
+    return io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1];
+}
+
+// Finds the member a full key path refers to, starting from the innermost open object it lies in
+static cJSON* find_member(IOCtx* io, const char* path) {
+    cJSON* object = io->stack[0];
+    for (int d = io->depth; d > 0; d--) {
+        const char* name = key_name_of(io, io->stack_key[d]);
+        size_t len = strlen(name);
+        if (strncmp(path, name, len) == 0 && path[len] == '.') {
+            object = io->stack[d];
+            path += len + 1;
+            break;
+        }
+    }
+    
+    char part[256];
+    for (;;) {
+        const char* dot = strchr(path, '.');
+        if (!dot) return cJSON_GetObjectItemCaseSensitive(object, path);
+        size_t len = (size_t)(dot - path);
+        if (len >= sizeof(part)) return NULL;
+        memcpy(part, path, len);
+        part[len] = '\0';
+        object = cJSON_GetObjectItemCaseSensitive(object, part);
+        path = dot + 1;
+    }
+}
+
+// An array of numbers from a string of hex digits, NULL if it is none
+static cJSON* array_from_hex(const char* hex) {
+    size_t len = strlen(hex);
+    if (len % 2 != 0) return NULL;
+    cJSON* array = cJSON_CreateArray();
+    for (size_t i = 0; array && i < len; i += 2) {
+        int high = hex_char_value(hex[i]), low = hex_char_value(hex[i + 1]);
+        if (high < 0 || low < 0) {
+            cJSON_Delete(array);
+            return NULL;
         }
+        cJSON_AddItemToArray(array, cJSON_CreateNumber(high * 16 + low));
     }
+    return array;
+}
+
+static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent, void* ptr) {
+    if (io->array_depth >= 31) return CND_ERR_OOB;
+
+    // The instruction pointer is at the first element
+    bool is_byte_array = ctx->ip < ctx->program->bytecode_len && ctx->program->bytecode[ctx->ip] == OP_IO_U8;
+    cJSON* item;
 
     if (ctx->mode == CND_MODE_ENCODE) {
-        cJSON* item = cJSON_GetObjectItem(parent, key_name);
-        if (!item || (!cJSON_IsArray(item) && !(type == OP_RAW_BYTES && cJSON_IsString(item)))) {
-            // If missing or wrong type, write 0 length
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = 0;
-            else if (type == OP_ARR_FIXED) *(uint32_t*)ptr = 0;
-            // For RAW_BYTES encode, we need to handle data copy elsewhere or fail here
-            return CND_ERR_OK; // Treat as empty/skip
+        item = cJSON_GetObjectItemCaseSensitive(parent, key_name);
+        if (is_byte_array && cJSON_IsString(item)) {
+            cJSON* bytes = array_from_hex(item->valuestring);
+            if (!bytes || !cJSON_ReplaceItemInObjectCaseSensitive(parent, key_name, bytes)) return CND_ERR_CALLBACK;
+            item = bytes;
         }
-        
-        // Push stack
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        io->array_stack[io->array_depth] = item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
+        if (!cJSON_IsArray(item)) item = NULL; // Missing or wrong type: no elements
 
         // Write length
-        if (type != OP_RAW_BYTES && type != OP_ARR_FIXED && type != OP_ARR_DYNAMIC) {
-            int len = cJSON_GetArraySize(item);
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = (uint8_t)len;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = (uint16_t)len;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = (uint32_t)len;
+        int len = item ? cJSON_GetArraySize(item) : 0;
+        if (type == OP_ARR_PRE_U8) {
+            if (len > UINT8_MAX) return CND_ERR_CALLBACK;
+            *(uint8_t*)ptr = (uint8_t)len;
+        } else if (type == OP_ARR_PRE_U16) {
+            if (len > UINT16_MAX) return CND_ERR_CALLBACK;
+            *(uint16_t*)ptr = (uint16_t)len;
+        } else if (type == OP_ARR_PRE_U32) {
+            *(uint32_t*)ptr = (uint32_t)len;
+        } else if ((uint32_t)len > *(uint32_t*)ptr) {
+            return CND_ERR_CALLBACK; // More elements than the array has
         }
     } else { // DECODE
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        
-        cJSON* new_item;
-        if (is_hex_array) {
-            new_item = cJSON_CreateString(""); // Placeholder
+        if (io->hex_mode && is_byte_array) {
+            item = cJSON_CreateString(""); // Placeholder
             io->in_hex_byte_array = true;
             io->hex_str_buffer_len = 0;
             if (io->hex_str_buffer) free(io->hex_str_buffer);
             io->hex_str_buffer = NULL;
             io->hex_str_buffer_capacity = 0;
         } else {
-            new_item = cJSON_CreateArray();
+            item = cJSON_CreateArray();
         }
         
-        cJSON_AddItemToObject(parent, key_name, new_item);
-        
-        io->array_stack[io->array_depth] = new_item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
+        cJSON_AddItemToObject(parent, key_name, item);
     }
+
+    io->array_stack[io->array_depth] = item;
+    io->array_index_stack[io->array_depth] = 0;
+    io->array_start_depth[io->array_depth] = io->depth;
+    io->array_depth++;
     return CND_ERR_OK;
 }
 
-static cnd_error_t handle_primitive(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, void* ptr, cJSON* item) {
-    if (ctx->mode == CND_MODE_ENCODE) {
-        if (!item) {
-            // Allow implicit zero/empty if not found - write only the correct size
-            switch (type) {
-                case OP_IO_U8:  case OP_IO_I8:  case OP_IO_BOOL: case OP_IO_BIT_BOOL: *(uint8_t*)ptr = 0; break;
-                case OP_IO_U16: case OP_IO_I16: *(uint16_t*)ptr = 0; break;
-                case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: *(uint32_t*)ptr = 0; break;
-                case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: *(uint64_t*)ptr = 0; break;
-                default: break;
-            }
-            return CND_ERR_OK;
-        }
-        // Extract value
+static void encode_primitive(uint8_t type, void* ptr, cJSON* item) {
+    if (!item) {
+        // Allow implicit zero/empty if not found - write only the correct size
         switch (type) {
-            case OP_IO_U8:  *(uint8_t*)ptr  = (uint8_t)item->valueint; break;
-            case OP_IO_U16: *(uint16_t*)ptr = (uint16_t)item->valueint; break;
-            case OP_IO_U32: *(uint32_t*)ptr = (uint32_t)item->valueint; break;
-            case OP_IO_U64: *(uint64_t*)ptr = (uint64_t)item->valuedouble; break;
-            case OP_IO_I8:  *(int8_t*)ptr   = (int8_t)item->valueint; break;
-            case OP_IO_I16: *(int16_t*)ptr  = (int16_t)item->valueint; break;
-            case OP_IO_I32: *(int32_t*)ptr  = (int32_t)item->valueint; break;
-            case OP_IO_I64: *(int64_t*)ptr  = (int64_t)item->valuedouble; break;
-            case OP_IO_F32: *(float*)ptr    = (float)item->valuedouble; break;
-            case OP_IO_F64: *(double*)ptr   = (double)item->valuedouble; break;
-            case OP_IO_BIT_U: *(uint64_t*)ptr = (uint64_t)item->valueint; break;
-            case OP_IO_BIT_I: *(int64_t*)ptr  = (int64_t)item->valueint; break;
-            case OP_IO_BOOL:
-            case OP_IO_BIT_BOOL: *(uint8_t*)ptr = cJSON_IsTrue(item) ? 1 : 0; break;
-            case OP_STR_NULL: 
-            case OP_STR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_STR_PRE_U32: {
-                const char* s = cJSON_IsString(item) ? item->valuestring : "";
-                *(const char**)ptr = s;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                // Encode Hex String to Bytes
-                if (cJSON_IsString(item)) {
-                    const char* hex = item->valuestring;
-                    size_t len = strlen(hex);
-                    uint8_t* b = (uint8_t*)ptr;
-                    for(size_t i=0; i<len/2; i++) {
-                        sscanf(hex + i*2, "%2hhX", &b[i]);
-                    }
-                }
-                break;
-            }
-        }
-    } else { // DECODE
-        // Special case: Hex Byte accumulation
-        if (io->in_hex_byte_array && type == OP_IO_U8) {
-            append_hex_byte(io, *(uint8_t*)ptr);
-            return CND_ERR_OK;
+            case OP_IO_U8:  case OP_IO_I8:  case OP_IO_BOOL: case OP_IO_BIT_BOOL: *(uint8_t*)ptr = 0; break;
+            case OP_IO_U16: case OP_IO_I16: *(uint16_t*)ptr = 0; break;
+            case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: *(uint32_t*)ptr = 0; break;
+            case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: *(uint64_t*)ptr = 0; break;
+            default: break;
         }
+        return;
+    }
+    // Extract value
+    switch (type) {
+        case OP_IO_U8:  *(uint8_t*)ptr  = (uint8_t)json_to_u64(item); break;
+        case OP_IO_U16: *(uint16_t*)ptr = (uint16_t)json_to_u64(item); break;
+        case OP_IO_U32: *(uint32_t*)ptr = (uint32_t)json_to_u64(item); break;
+        case OP_IO_U64: *(uint64_t*)ptr = json_to_u64(item); break;
+        case OP_IO_I8:  *(int8_t*)ptr   = (int8_t)json_to_i64(item); break;
+        case OP_IO_I16: *(int16_t*)ptr  = (int16_t)json_to_i64(item); break;
+        case OP_IO_I32: *(int32_t*)ptr  = (int32_t)json_to_i64(item); break;
+        case OP_IO_I64: *(int64_t*)ptr  = json_to_i64(item); break;
+        case OP_IO_F32: *(float*)ptr    = (float)item->valuedouble; break;
+        case OP_IO_F64: *(double*)ptr   = (double)item->valuedouble; break;
+        case OP_IO_BIT_U: *(uint64_t*)ptr = json_to_u64(item); break;
+        case OP_IO_BIT_I: *(int64_t*)ptr  = json_to_i64(item); break;
+        case OP_IO_BOOL:
+        case OP_IO_BIT_BOOL: *(uint8_t*)ptr = cJSON_IsTrue(item) ? 1 : 0; break;
+        case OP_STR_NULL: 
+        case OP_STR_PRE_U8:
+        case OP_STR_PRE_U16:
+        case OP_STR_PRE_U32: *(const char**)ptr = cJSON_IsString(item) ? item->valuestring : ""; break;
+    }
+}
 
-        cJSON* val = NULL;
-        switch (type) {
-            case OP_IO_U8:  val = cJSON_CreateNumber(*(uint8_t*)ptr); break;
-            case OP_IO_U16: val = cJSON_CreateNumber(*(uint16_t*)ptr); break;
-            case OP_IO_U32: val = cJSON_CreateNumber(*(uint32_t*)ptr); break;
-            case OP_IO_U64: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8:  val = cJSON_CreateNumber(*(int8_t*)ptr); break;
-            case OP_IO_I16: val = cJSON_CreateNumber(*(int16_t*)ptr); break;
-            case OP_IO_I32: val = cJSON_CreateNumber(*(int32_t*)ptr); break;
-            case OP_IO_I64: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: val = cJSON_CreateNumber(*(float*)ptr); break;
-            case OP_IO_F64: val = cJSON_CreateNumber(*(double*)ptr); break;
-            case OP_IO_BIT_U: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
-            case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U32: {
-                // Simplified logic, assume little endian for temp
-                uint32_t len = 0; memcpy(&len, (uint8_t*)ptr-4, 4); 
-                // Proper:
-                uint8_t* p = (uint8_t*)ptr-4;
-                len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24; // Assume LE for now or fix with ctx
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_RAW_BYTES: {
-                // Should ideally read count from IL.
-                // For now, ignore single RAW_BYTES in decode.
-                break;
-            }
-        }
-        
-        if (val) {
-            // Add to parent
-            cJSON* target = NULL;
-            if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-                target = io->array_stack[io->array_depth - 1];
-                io->array_index_stack[io->array_depth - 1]++;
-                cJSON_AddItemToArray(target, val);
-            } else {
-                // We need to find the key_name for adding to object.
-                // This helper logic is tricky because `key_name` is not passed here.
-                // Caller must handle adding.
-                // Wait, I removed `key_name` argument?
-                // I need to return `val` to caller.
-                return CND_ERR_OK; // Caller adds `val`.
-            }
-        }
-        // This helper is slightly broken because `val` needs to be added.
-        // Let's fix this by adding `val` inside the caller or passing needed context.
-        // But `json_io_callback` is monolithic.
-        // I will merge `handle_primitive` back into `json_io_callback` logic flow in `json_io_callback` for simplicity in this file.
-        // See below.
+// The length in front of a decoded string
+static uint32_t prefix_value(const cnd_vm_ctx* ctx, const uint8_t* prefix, int size) {
+    uint32_t len = 0;
+    for (int i = 0; i < size; i++) {
+        len |= (uint32_t)prefix[ctx->endianness == CND_LE ? i : size - 1 - i] << (8 * i);
     }
-    return CND_ERR_OK;
+    return len;
 }
 
-// Helper: get the last component of a dot-separated key (e.g., "position.x" -> "x")
-static const char* get_json_key(const char* key_name) {
-    const char* dot = strrchr(key_name, '.');
-    return dot ? (dot + 1) : key_name;
+static cJSON* string_to_json(const char* str, size_t len) {
+    char* s = malloc(len + 1);
+    if (!s) return NULL;
+    memcpy(s, str, len);
+    s[len] = 0;
+    cJSON* val = cJSON_CreateString(s);
+    free(s);
+    return val;
+}
+
+static cJSON* decode_primitive(const cnd_vm_ctx* ctx, uint8_t type, void* ptr) {
+    switch (type) {
+        case OP_IO_U8: return cJSON_CreateNumber(*(uint8_t*)ptr);
+        case OP_IO_U16: return cJSON_CreateNumber(*(uint16_t*)ptr);
+        case OP_IO_U32: return cJSON_CreateNumber(*(uint32_t*)ptr);
+        case OP_IO_U64: return cJSON_CreateNumber((double)*(uint64_t*)ptr);
+        case OP_IO_I8: return cJSON_CreateNumber(*(int8_t*)ptr);
+        case OP_IO_I16: return cJSON_CreateNumber(*(int16_t*)ptr);
+        case OP_IO_I32: return cJSON_CreateNumber(*(int32_t*)ptr);
+        case OP_IO_I64: return cJSON_CreateNumber((double)*(int64_t*)ptr);
+        case OP_IO_F32: return cJSON_CreateNumber(*(float*)ptr);
+        case OP_IO_F64: return cJSON_CreateNumber(*(double*)ptr);
+        case OP_IO_BIT_U: return cJSON_CreateNumber((double)*(uint64_t*)ptr);
+        case OP_IO_BIT_I: return cJSON_CreateNumber((double)*(int64_t*)ptr);
+        case OP_IO_BOOL: case OP_IO_BIT_BOOL: return cJSON_CreateBool(*(uint8_t*)ptr);
+        case OP_STR_NULL: return cJSON_CreateString((const char*)ptr);
+        case OP_STR_PRE_U8: return string_to_json(ptr, prefix_value(ctx, (uint8_t*)ptr - 1, 1));
+        case OP_STR_PRE_U16: return string_to_json(ptr, prefix_value(ctx, (uint8_t*)ptr - 2, 2));
+        case OP_STR_PRE_U32: return string_to_json(ptr, prefix_value(ctx, (uint8_t*)ptr - 4, 4));
+    }
+    return NULL;
+}
+
+// The computed value as the field's type has it
+static cJSON* computed_to_json(const cnd_vm_ctx* ctx, uint8_t type, uint64_t bits) {
+    double d;
+    memcpy(&d, &bits, 8);
+    switch (type) {
+        case OP_IO_U8: return cJSON_CreateNumber((uint8_t)bits);
+        case OP_IO_U16: return cJSON_CreateNumber((uint16_t)bits);
+        case OP_IO_U32: return cJSON_CreateNumber((uint32_t)bits);
+        case OP_IO_I8: return cJSON_CreateNumber((int8_t)bits);
+        case OP_IO_I16: return cJSON_CreateNumber((int16_t)bits);
+        case OP_IO_I32: return cJSON_CreateNumber((int32_t)bits);
+        case OP_IO_F32: return cJSON_CreateNumber((float)d);
+        case OP_IO_BOOL: return cJSON_CreateBool(bits != 0);
+        case OP_IO_I64: case OP_IO_F64: return decode_primitive(ctx, type, &bits);
+    }
+    return cJSON_CreateNumber((double)bits);
 }
 
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
     IOCtx* io = (IOCtx*)ctx->user_ptr;
     
     // Get Key Name (full path)
-    const char* key_name_full = "";
-    if (key_id < io->il->str_count) key_name_full = io->il->string_table[key_id];
+    const char* key_name_full = key_name_of(io, key_id);
     
     // For JSON lookups, use only the last component (after the last dot)
     const char* key_name = get_json_key(key_name_full);
@@ -238,9 +261,10 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
     
     // Handle Structs
     if (type == OP_ENTER_STRUCT) {
+        if (io->depth >= 31) return CND_ERR_OOB;
         cJSON* item = NULL;
         // If in array, get/create next element
-        if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
+        if (in_array(io)) {
             if (ctx->mode == CND_MODE_ENCODE) {
                 item = cJSON_GetArrayItem(io->array_stack[io->array_depth - 1], io->array_index_stack[io->array_depth - 1]++);
             } else {
@@ -250,7 +274,7 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             }
         } else {
             // In object
-            if (ctx->mode == CND_MODE_ENCODE) item = cJSON_GetObjectItem(current, key_name);
+            if (ctx->mode == CND_MODE_ENCODE) item = cJSON_GetObjectItemCaseSensitive(current, key_name);
             else {
                 item = cJSON_CreateObject();
                 cJSON_AddItemToObject(current, key_name, item);
@@ -259,6 +283,7 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
         
         if (!item && ctx->mode == CND_MODE_ENCODE) return CND_ERR_CALLBACK;
         io->stack[++io->depth] = item;
+        io->stack_key[io->depth] = key_id;
         return CND_ERR_OK;
     }
     
@@ -268,10 +293,12 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
     }
 
     // Handle Arrays
-    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_RAW_BYTES || type == OP_ARR_DYNAMIC) {
+    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_ARR_DYNAMIC) {
         return handle_array_start(io, ctx, type, key_name, current, ptr);
     }
     
+    if (type == OP_RAW_BYTES) return CND_ERR_CALLBACK; // Have the elements one by one
+    
     if (type == OP_ARR_END) {
         // Finalize hex string if needed
         if (io->in_hex_byte_array && ctx->mode == CND_MODE_DECODE) {
@@ -290,36 +317,31 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
 
     // Handle Control Flow
     if (type == OP_CTX_QUERY || type == OP_LOAD_CTX) {
-        cJSON* item = cJSON_GetObjectItem(current, key_name);
+        cJSON* item = find_member(io, key_name_full);
         if (!item) {
-            printf("JSON_BINDING: Query failed for key '%s'\n", key_name);
+            printf("JSON_BINDING: Query failed for key '%s'\n", key_name_full);
             return CND_ERR_CALLBACK;
         }
-        if (cJSON_IsBool(item)) *(uint64_t*)ptr = cJSON_IsTrue(item) ? 1 : 0;
-        else *(uint64_t*)ptr = (uint64_t)item->valuedouble;
+        if (io->key_types[key_id] == OP_IO_F32 || io->key_types[key_id] == OP_IO_F64) memcpy(ptr, &item->valuedouble, 8);
+        else *(uint64_t*)ptr = json_to_u64(item);
         return CND_ERR_OK;
     }
 
     if (type == OP_STORE_CTX) {
-        if (ctx->mode == CND_MODE_DECODE) {
-            uint64_t val = *(uint64_t*)ptr;
-            cJSON_AddNumberToObject(current, key_name, (double)val);
-        }
+        // The value is emitted next
+        const uint8_t* bc = ctx->program->bytecode;
+        bool emit = ctx->ip + 1 < ctx->program->bytecode_len && bc[ctx->ip] == OP_EMIT;
+        uint8_t emit_type = emit ? bc[ctx->ip + 1] : OP_IO_U64;
+        io->key_types[key_id] = emit_type;
+        
+        cJSON* val = computed_to_json(ctx, emit_type, *(uint64_t*)ptr);
+        if (cJSON_GetObjectItemCaseSensitive(current, key_name)) cJSON_ReplaceItemInObjectCaseSensitive(current, key_name, val);
+        else cJSON_AddItemToObject(current, key_name, val);
         return CND_ERR_OK;
     }
 
     // Handle Primitives
-    cJSON* item_to_process = NULL;
-    if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-        if (ctx->mode == CND_MODE_ENCODE) {
-            item_to_process = cJSON_GetArrayItem(io->array_stack[io->array_depth - 1], io->array_index_stack[io->array_depth - 1]);
-            io->array_index_stack[io->array_depth - 1]++;
-        }
-    } else {
-        if (ctx->mode == CND_MODE_ENCODE) item_to_process = cJSON_GetObjectItem(current, key_name);
-    }
-
-    // Special handling for Primitive Add (Decode) inside json_io_callback to keep it simple with `val` addition
+    io->key_types[key_id] = type;
     if (ctx->mode == CND_MODE_DECODE) {
         // Check Hex
         if (io->in_hex_byte_array && type == OP_IO_U8) {
@@ -327,45 +349,9 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             return CND_ERR_OK;
         }
         
-        cJSON* val = NULL;
-        #define TO_JSON(expr) val = cJSON_CreateNumber(expr)
-        switch (type) {
-            case OP_IO_U8: TO_JSON(*(uint8_t*)ptr); break;
-            case OP_IO_U16: TO_JSON(*(uint16_t*)ptr); break;
-            case OP_IO_U32: TO_JSON(*(uint32_t*)ptr); break;
-            case OP_IO_U64: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8: TO_JSON(*(int8_t*)ptr); break;
-            case OP_IO_I16: TO_JSON(*(int16_t*)ptr); break;
-            case OP_IO_I32: TO_JSON(*(int32_t*)ptr); break;
-            case OP_IO_I64: TO_JSON((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: TO_JSON(*(float*)ptr); break;
-            case OP_IO_F64: TO_JSON(*(double*)ptr); break;
-            case OP_IO_BIT_U: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: TO_JSON((double)*(int64_t*)ptr); break;
-            case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
-            case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U32: {
-                uint8_t* p = (uint8_t*)ptr-4;
-                uint32_t len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24;
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_RAW_BYTES: break;
-        }
-        #undef TO_JSON
-        
+        cJSON* val = decode_primitive(ctx, type, ptr);
         if (val) {
-            if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
+            if (in_array(io)) {
                 cJSON_AddItemToArray(io->array_stack[io->array_depth - 1], val);
                 io->array_index_stack[io->array_depth - 1]++;
             } else {
@@ -373,8 +359,14 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             }
         }
     } else {
-        // ENCODE Primitive
-        handle_primitive(io, ctx, type, ptr, item_to_process);
+        cJSON* item;
+        if (in_array(io)) {
+            item = cJSON_GetArrayItem(io->array_stack[io->array_depth - 1], io->array_index_stack[io->array_depth - 1]);
+            io->array_index_stack[io->array_depth - 1]++;
+        } else {
+            item = cJSON_GetObjectItemCaseSensitive(current, key_name);
+        }
+        encode_primitive(type, ptr, item);
     }
 
     return CND_ERR_OK;
-- 
2.43.0


From 282f63db12434f55879daebbe38e56a8d0f3375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 28/60] fix: encode and decode report failed reads and writes

Short reads, full disks and failing closes were ignored, images whose string
table is cut off were read past their end, text behind the JSON document was
ignored, and frames larger than 1024 bytes could not be encoded.
---
 src/cli/cli_helpers.c | 66 ++++++++++++++++++++++++-------------------
 src/cli/cmd_decode.c  |  5 +++-
 src/cli/cmd_encode.c  | 42 ++++++++++++++-------------
 3 files changed, 64 insertions(+), 49 deletions(-)

diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 2eb3ebd..b271ba3 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -8,48 +8,47 @@
 // File IO Helpers
 // =================================================================================================
 
+// Reads the whole file and adds a NUL behind it. NULL if it cannot be read completely.
 uint8_t* read_file_bytes(const char* path, size_t* out_len) {
     FILE* f = fopen(path, "rb");
     if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* buf = malloc(size);
-    if (buf) fread(buf, 1, size, f);
+    
+    uint8_t* buf = NULL;
+    long size = -1;
+    if (fseek(f, 0, SEEK_END) == 0 && (size = ftell(f)) >= 0 && fseek(f, 0, SEEK_SET) == 0) {
+        buf = malloc((size_t)size + 1);
+    }
+    if (buf) {
+        if (fread(buf, 1, (size_t)size, f) == (size_t)size) {
+            buf[size] = '\0';
+        } else {
+            free(buf);
+            buf = NULL;
+        }
+    }
     fclose(f);
-    if (out_len) *out_len = size;
+    if (buf && out_len) *out_len = (size_t)size;
     return buf;
 }
 
 char* read_file_text(const char* path) {
-    FILE* f = fopen(path, "rb");
-    if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    char* buf = malloc(size + 1);
-    if (buf) {
-        fread(buf, 1, size, f);
-        buf[size] = '\0';
-    }
-    fclose(f);
-    return buf;
+    return (char*)read_file_bytes(path, NULL);
 }
 
 int write_file_bytes(const char* path, const uint8_t* data, size_t len) {
     FILE* f = fopen(path, "wb");
     if (!f) return 0;
-    fwrite(data, 1, len, f);
-    fclose(f);
-    return 1;
+    int ok = fwrite(data, 1, len, f) == len;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 int write_file_text(const char* path, const char* text) {
     FILE* f = fopen(path, "w");
     if (!f) return 0;
-    fputs(text, f);
-    fclose(f);
-    return 1;
+    int ok = fputs(text, f) >= 0;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 // =================================================================================================
@@ -57,6 +56,7 @@ int write_file_text(const char* path, const char* text) {
 // =================================================================================================
 
 int load_il(const char* path, ILFile* il) {
+    memset(il, 0, sizeof(*il));
     il->raw_data = read_file_bytes(path, &il->raw_len);
     if (!il->raw_data) return 0;
     
@@ -65,17 +65,25 @@ int load_il(const char* path, ILFile* il) {
         return 0;
     }
     
-    il->str_count = *(uint16_t*)(il->raw_data + 6);
-    uint32_t str_offset = *(uint32_t*)(il->raw_data + 8);
-    uint32_t bc_offset = *(uint32_t*)(il->raw_data + 12);
+    uint32_t str_offset, bc_offset;
+    memcpy(&il->str_count, il->raw_data + 6, 2);
+    memcpy(&str_offset, il->raw_data + 8, 4);
+    memcpy(&bc_offset, il->raw_data + 12, 4);
     
     if (str_offset > il->raw_len || bc_offset > il->raw_len) return 0;
 
-    il->string_table = malloc(il->str_count * sizeof(char*));
+    il->string_table = malloc((size_t)il->str_count * sizeof(char*) + 1);
+    if (!il->string_table) return 0;
     const char* ptr = (const char*)(il->raw_data + str_offset);
+    const char* end = (const char*)(il->raw_data + il->raw_len);
     for (int i = 0; i < il->str_count; i++) {
+        const char* nul = memchr(ptr, 0, (size_t)(end - ptr));
+        if (!nul) {
+            printf("IL string table is cut off\n");
+            return 0;
+        }
         il->string_table[i] = ptr;
-        ptr += strlen(ptr) + 1;
+        ptr = nul + 1;
     }
     
     il->bytecode = il->raw_data + bc_offset;
diff --git a/src/cli/cmd_decode.c b/src/cli/cmd_decode.c
index d6dff1d..1c42743 100644
--- a/src/cli/cmd_decode.c
+++ b/src/cli/cmd_decode.c
@@ -48,7 +48,10 @@ int cmd_decode(int argc, char** argv) {
         return 1;
     }
     
-    write_file_text(argv[4], out_json);
+    if (!write_file_text(argv[4], out_json)) {
+        printf("Failed to write JSON\n");
+        return 1;
+    }
     printf("Decoded to %s\n", argv[4]);
     
     free(out_json);
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index fa46d91..ae99e1f 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -1,5 +1,7 @@
 #include "cli_helpers.h"
 
+#define MAX_FRAME_SIZE (16u << 20)
+
 int cmd_encode(int argc, char** argv) {
     if (argc < 5) {
         printf("Usage: cnd encode <schema.il> <input.json> <output.bin>\n");
@@ -12,41 +14,43 @@ int cmd_encode(int argc, char** argv) {
     char* json_text = read_file_text(argv[3]);
     if (!json_text) { printf("Failed to read JSON\n"); return 1; }
     
-    cJSON* root = cJSON_Parse(json_text);
+    cJSON* root = cJSON_ParseWithOpts(json_text, NULL, 1); // Nothing may follow the document
     free(json_text);
-    if (!root) { printf("Failed to parse JSON\n"); return 1; }
-    
-    // Encode
-    uint8_t buffer[1024]; 
-    memset(buffer, 0, sizeof(buffer));
+    if (!cJSON_IsObject(root)) { printf("Failed to parse JSON\n"); return 1; }
     
+    // Encode, with a larger buffer if the frame does not fit
     static IOCtx io_ctx; // Made static to persist
-    io_ctx.il = &il;
-    io_ctx.stack[0] = root;
-    io_ctx.depth = 0;
-    io_ctx.array_depth = 0; // Initialize array depth
-    
     cnd_vm_ctx vm;
     cnd_program program;
     cnd_program_load(&program, il.bytecode, il.bytecode_len);
-    cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, sizeof(buffer), json_io_callback, &io_ctx);
     
-    cnd_error_t err = cnd_execute(&vm);
-    //fprintf(stderr, "DEBUG: cnd_execute returned %d\n", err);
+    uint8_t* buffer = NULL;
+    cnd_error_t err = CND_ERR_OOB;
+    for (size_t size = 1024; err == CND_ERR_OOB && size <= MAX_FRAME_SIZE; size *= 4) {
+        free(buffer);
+        buffer = calloc(size, 1);
+        if (!buffer) { printf("Out of memory\n"); return 1; }
+        
+        memset(&io_ctx, 0, sizeof(IOCtx));
+        io_ctx.il = &il;
+        io_ctx.stack[0] = root;
+        cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, size, json_io_callback, &io_ctx);
+        err = cnd_execute(&vm);
+    }
     if (err != CND_ERR_OK) {
         fprintf(stderr, "VM Error: %d\n", err);
         return 1;
     }
     
-    // fprintf(stderr, "DEBUG: Writing file...\n");
     size_t final_len = vm.cursor;
     if (vm.bit_offset > 0) final_len++;
-    write_file_bytes(argv[4], buffer, final_len);
-    // fprintf(stderr, "Encoded %zu bytes to %s\n", final_len, argv[4]);
+    if (!write_file_bytes(argv[4], buffer, final_len)) {
+        fprintf(stderr, "Failed to write binary\n");
+        return 1;
+    }
     
-    // fprintf(stderr, "DEBUG: Cleaning up...\n");
+    free(buffer);
     cJSON_Delete(root);
     free_il(&il);
-    // fprintf(stderr, "DEBUG: Done.\n");
     return 0;
 }
-- 
2.43.0


From f662c8748cd65fa03c8be775b03b85c4f13eff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 29/60] fix: inspect survives damaged images and lists every
 instruction

---
 src/cli/cmd_inspect.c | 638 +++++++++++++++++++++++-------------------
 1 file changed, 356 insertions(+), 282 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 94a123a..acf51f3 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -4,28 +4,32 @@
 #include <stdint.h>
 #include <inttypes.h>
 #include "concordia.h"
+#include "cli_helpers.h"
+#include "../vm/vm_internal.h"
+
+#define MAX_SWITCH_DEPTH 256
 
 // Helper to read bytes from memory safely
-static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
+static uint8_t take_u8(const uint8_t** ptr, const uint8_t* end) {
     if (*ptr >= end) return 0;
     return *(*ptr)++;
 }
 
-static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
+static uint16_t take_u16(const uint8_t** ptr, const uint8_t* end) {
     if (*ptr + 2 > end) return 0;
     uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
     *ptr += 2;
     return v;
 }
 
-static uint32_t read_u32(const uint8_t** ptr, const uint8_t* end) {
+static uint32_t take_u32(const uint8_t** ptr, const uint8_t* end) {
     if (*ptr + 4 > end) return 0;
     uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((*ptr)[3] << 24);
     *ptr += 4;
     return v;
 }
 
-static uint64_t read_u64(const uint8_t** ptr, const uint8_t* end) {
+static uint64_t take_u64(const uint8_t** ptr, const uint8_t* end) {
     if (*ptr + 8 > end) return 0;
     uint64_t v = (uint64_t)(*ptr)[0] | ((uint64_t)(*ptr)[1] << 8) | ((uint64_t)(*ptr)[2] << 16) | ((uint64_t)(*ptr)[3] << 24) |
                  ((uint64_t)(*ptr)[4] << 32) | ((uint64_t)(*ptr)[5] << 40) | ((uint64_t)(*ptr)[6] << 48) | ((uint64_t)(*ptr)[7] << 56);
@@ -42,6 +46,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_EXIT_STRUCT: return "EXIT_STRUCT";
         case OP_META_VERSION: return "META_VERSION";
         case OP_META_NAME: return "META_NAME";
+        case OP_CTX_QUERY: return "CTX_QUERY";
         case OP_IO_U8: return "IO_U8";
         case OP_IO_U16: return "IO_U16";
         case OP_IO_U32: return "IO_U32";
@@ -88,6 +93,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_ENUM_CHECK: return "ENUM_CHECK";
         case OP_JUMP_IF_NOT: return "JUMP_IF_NOT";
         case OP_SWITCH: return "SWITCH";
+        case OP_SWITCH_TABLE: return "SWITCH_TABLE";
         case OP_JUMP: return "JUMP";
         case OP_LOAD_CTX: return "LOAD_CTX";
         case OP_STORE_CTX: return "STORE_CTX";
@@ -141,6 +147,326 @@ static const char* get_opcode_name(uint8_t op) {
     }
 }
 
+// Prints an operand of a check as its type has it
+static void print_value(uint8_t type, const uint8_t** ptr, const uint8_t* end) {
+    switch (type) {
+        case OP_IO_U8: printf("%u", take_u8(ptr, end)); break;
+        case OP_IO_U16: printf("%u", take_u16(ptr, end)); break;
+        case OP_IO_U32: printf("%" PRIu32, take_u32(ptr, end)); break;
+        case OP_IO_U64: printf("%" PRIu64, take_u64(ptr, end)); break;
+        case OP_IO_I8: printf("%d", (int8_t)take_u8(ptr, end)); break;
+        case OP_IO_I16: printf("%d", (int16_t)take_u16(ptr, end)); break;
+        case OP_IO_I32: printf("%" PRId32, (int32_t)take_u32(ptr, end)); break;
+        case OP_IO_I64: printf("%" PRId64, (int64_t)take_u64(ptr, end)); break;
+        case OP_IO_F32: {
+            uint32_t bits = take_u32(ptr, end);
+            float val;
+            memcpy(&val, &bits, 4);
+            printf("%f", val);
+            break;
+        }
+        case OP_IO_F64: {
+            uint64_t bits = take_u64(ptr, end);
+            double val;
+            memcpy(&val, &bits, 8);
+            printf("%f", val);
+            break;
+        }
+    }
+}
+
+// Prints the operands of an instruction; 'ptr' is behind its opcode, 'end' behind its last operand
+static void print_operands(uint8_t op, const uint8_t* ptr, const uint8_t* end) {
+    switch (op) {
+        case OP_META_VERSION: {
+            uint8_t v = take_u8(&ptr, end);
+            printf(" Ver=%d", v);
+            break;
+        }
+        
+        case OP_META_NAME: {
+            uint16_t k = take_u16(&ptr, end);
+            printf(" KeyID=%d (Name)", k);
+            break;
+        }
+
+        case OP_IO_U8:
+        case OP_IO_U16:
+        case OP_IO_U32:
+        case OP_IO_U64:
+        case OP_IO_I8:
+        case OP_IO_I16:
+        case OP_IO_I32:
+        case OP_IO_I64:
+        case OP_IO_F32:
+        case OP_IO_F64:
+        case OP_IO_BOOL:
+        case OP_ENTER_STRUCT:
+        case OP_CTX_QUERY:
+        case OP_ARR_EOF:
+            printf(" KeyID=%d", take_u16(&ptr, end));
+            break;
+
+        case OP_ENTER_BIT_MODE:
+        case OP_EXIT_BIT_MODE:
+            break;
+
+        case OP_STR_NULL: {
+            uint16_t k = take_u16(&ptr, end);
+            uint16_t m = take_u16(&ptr, end);
+            printf(" KeyID=%d MaxLen=%d", k, m);
+            break;
+        }
+
+        case OP_STR_PRE_U8:
+        case OP_STR_PRE_U16:
+        case OP_STR_PRE_U32:
+        case OP_ARR_PRE_U8:
+        case OP_ARR_PRE_U16:
+        case OP_ARR_PRE_U32:
+            printf(" KeyID=%d", take_u16(&ptr, end));
+            break;
+
+        case OP_ARR_END:
+            break;
+
+        case OP_IO_BIT_U:
+        case OP_IO_BIT_I: {
+            uint16_t k = take_u16(&ptr, end);
+            uint8_t b = take_u8(&ptr, end);
+            printf(" KeyID=%d Bits=%d", k, b);
+            break;
+        }
+        
+        case OP_IO_BIT_BOOL:
+            printf(" KeyID=%d", take_u16(&ptr, end));
+            break;
+
+        case OP_ARR_FIXED: {
+            uint16_t k = take_u16(&ptr, end);
+            uint32_t c = take_u32(&ptr, end);
+            printf(" KeyID=%d Count=%u", k, c);
+            break;
+        }
+
+        case OP_ARR_DYNAMIC: {
+            uint16_t k = take_u16(&ptr, end);
+            uint16_t ref = take_u16(&ptr, end);
+            printf(" KeyID=%d RefKeyID=%d", k, ref);
+            break;
+        }
+
+        case OP_RAW_BYTES: {
+            uint16_t k = take_u16(&ptr, end);
+            uint32_t c = take_u32(&ptr, end);
+            printf(" KeyID=%d Count=%u", k, c);
+            break;
+        }
+
+        case OP_CONST_WRITE: {
+            uint8_t type = take_u8(&ptr, end);
+            printf(" Type=%s Val=", get_opcode_name(type));
+            print_value(type, &ptr, end);
+            break;
+        }
+
+        case OP_CONST_CHECK: {
+            uint16_t key = take_u16(&ptr, end);
+            uint8_t type = take_u8(&ptr, end);
+            printf(" KeyID=%d Type=%s Val=", key, get_opcode_name(type));
+            print_value(type, &ptr, end);
+            break;
+        }
+
+        case OP_RANGE_CHECK: {
+            uint8_t type = take_u8(&ptr, end);
+            printf(" Type=%s Range=[", get_opcode_name(type));
+            print_value(type, &ptr, end);
+            printf(", ");
+            print_value(type, &ptr, end);
+            printf("]");
+            break;
+        }
+
+        case OP_SCALE_LIN: {
+            uint64_t fac = take_u64(&ptr, end);
+            uint64_t off = take_u64(&ptr, end);
+            double fac_val, o;
+            memcpy(&fac_val, &fac, 8);
+            memcpy(&o, &off, 8);
+            printf(" Factor=%f Offset=%f", fac_val, o);
+            break;
+        }
+
+        case OP_TRANS_ADD:
+        case OP_TRANS_SUB:
+        case OP_TRANS_MUL:
+        case OP_TRANS_DIV:
+            printf(" Val=%" PRId64, (int64_t)take_u64(&ptr, end));
+            break;
+
+        case OP_TRANS_POLY: {
+            uint8_t count = take_u8(&ptr, end);
+            printf(" Count=%d Coeffs=[", count);
+            for (int i = 0; i < count; i++) {
+                uint64_t tmp = take_u64(&ptr, end);
+                double val;
+                memcpy(&val, &tmp, 8);
+                printf("%f%s", val, i == count - 1 ? "" : ", ");
+            }
+            printf("]");
+            break;
+        }
+
+        case OP_TRANS_SPLINE: {
+            uint8_t count = take_u8(&ptr, end);
+            printf(" Count=%d Points=[", count);
+            for (int i = 0; i < count; i++) {
+                uint64_t tmp_x = take_u64(&ptr, end);
+                uint64_t tmp_y = take_u64(&ptr, end);
+                double x, y;
+                memcpy(&x, &tmp_x, 8);
+                memcpy(&y, &tmp_y, 8);
+                printf("(%f, %f)%s", x, y, i == count - 1 ? "" : ", ");
+            }
+            printf("]");
+            break;
+        }
+
+        case OP_CRC_16: {
+            uint16_t poly = take_u16(&ptr, end);
+            uint16_t init = take_u16(&ptr, end);
+            uint16_t xor_out = take_u16(&ptr, end);
+            printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", poly, init, xor_out, take_u8(&ptr, end));
+            break;
+        }
+
+        case OP_CRC_32: {
+            uint32_t poly = take_u32(&ptr, end);
+            uint32_t init = take_u32(&ptr, end);
+            uint32_t xor_out = take_u32(&ptr, end);
+            printf(" Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%d", poly, init, xor_out, take_u8(&ptr, end));
+            break;
+        }
+
+        case OP_ENUM_CHECK: {
+            uint8_t type = take_u8(&ptr, end);
+            uint16_t count = take_u16(&ptr, end);
+            printf(" Type=%s Count=%d Values=[", get_opcode_name(type), count);
+            for(int i=0; i<count; i++) {
+                if (i > 0) printf(", ");
+                print_value(type, &ptr, end);
+            }
+            printf("]");
+            break;
+        }
+
+        case OP_SWITCH:
+        case OP_SWITCH_TABLE: {
+            uint16_t k = take_u16(&ptr, end);
+            uint32_t t = take_u32(&ptr, end);
+            printf(" KeyID=%d TableOff=%u", k, t);
+            break;
+        }
+
+        case OP_JUMP: {
+            int32_t off = (int32_t)take_u32(&ptr, end);
+            printf(" Offset=%d", off);
+            break;
+        }
+
+        case OP_JUMP_IF_NOT: {
+            int32_t off = (int32_t)take_u32(&ptr, end);
+            printf(" Offset=%d", off);
+            break;
+        }
+
+        case OP_LOAD_CTX: {
+            uint16_t k = take_u16(&ptr, end);
+            printf(" KeyID=%d", k);
+            break;
+        }
+
+        case OP_STORE_CTX: {
+            uint16_t k = take_u16(&ptr, end);
+            printf(" KeyID=%d", k);
+            break;
+        }
+
+        case OP_PUSH_IMM: {
+            uint64_t v = take_u64(&ptr, end);
+            printf(" Val=%" PRIu64, v);
+            break;
+        }
+
+        case OP_EMIT: {
+            uint8_t type = take_u8(&ptr, end);
+            printf(" Type=%s", get_opcode_name(type));
+            break;
+        }
+
+        case OP_ALIGN_PAD:
+        case OP_ALIGN_FILL:
+            printf(" Align=%d", take_u8(&ptr, end));
+            break;
+    }
+}
+
+// Prints the rows of a jump table
+static void print_switch_table(uint8_t op, const uint8_t* ptr, const uint8_t* end) {
+    if (op == OP_SWITCH) {
+        uint16_t count = take_u16(&ptr, end);
+        printf("      default: Offset=%" PRId32 "\n", (int32_t)take_u32(&ptr, end));
+        for (int i = 0; i < count; i++) {
+            int64_t val = (int64_t)take_u64(&ptr, end);
+            printf("      case %" PRId64 ": Offset=%" PRId32 "\n", val, (int32_t)take_u32(&ptr, end));
+        }
+    } else {
+        int64_t val = (int64_t)take_u64(&ptr, end);
+        take_u64(&ptr, end); // Last value
+        printf("      default: Offset=%" PRId32 "\n", (int32_t)take_u32(&ptr, end));
+        for (; ptr < end; val++) {
+            printf("      case %" PRId64 ": Offset=%" PRId32 "\n", val, (int32_t)take_u32(&ptr, end));
+        }
+    }
+}
+
+// Prints the instructions in [ip, stop). Returns 0 if the program is not well-formed there.
+static int print_code(const uint8_t* bc, size_t len, size_t ip, size_t stop, int depth) {
+    while (ip < stop) {
+        uint8_t op = bc[ip];
+        size_t instr_len = il_instr_len(bc, len, ip);
+        printf("%04zX: ", ip);
+        if (instr_len == 0) {
+            printf("Invalid instruction 0x%02X\n", op);
+            return 0;
+        }
+        if (instr_len > stop - ip) {
+            printf("%s is cut off\n", get_opcode_name(op));
+            return 0;
+        }
+        
+        printf("%-15s", get_opcode_name(op));
+        print_operands(op, bc + ip + 1, bc + ip + instr_len);
+        printf("\n");
+        
+        if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
+            // The code of the cases, then the jump table
+            size_t table, table_end;
+            if (!il_switch_bounds(bc, len, ip, &table, &table_end) || table_end > stop || depth >= MAX_SWITCH_DEPTH) {
+                printf("Invalid jump table\n");
+                return 0;
+            }
+            if (!print_code(bc, len, ip + instr_len, table, depth + 1)) return 0;
+            print_switch_table(op, bc + table, bc + table_end);
+            ip = table_end;
+            continue;
+        }
+        ip += instr_len;
+    }
+    return 1;
+}
+
 int cmd_inspect(int argc, char** argv) {
     if (argc < 3) {
         printf("Usage: cnd inspect <file.il>\n");
@@ -148,20 +474,14 @@ int cmd_inspect(int argc, char** argv) {
     }
 
     const char* path = argv[2];
-    FILE* f = fopen(path, "rb");
-    if (!f) {
-        printf("Error opening file: %s\n", path);
+    size_t size;
+    uint8_t* data = read_file_bytes(path, &size);
+    if (!data) {
+        printf("Error reading file: %s\n", path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* data = (uint8_t*)malloc(size);
-    fread(data, 1, size, f);
-    fclose(f);
-
-    printf("Inspecting: %s (%ld bytes)\n", path, size);
+    printf("Inspecting: %s (%zu bytes)\n", path, size);
 
     // Parse Header
     if (size < 16 || memcmp(data, "CNDIL", 5) != 0) {
@@ -172,286 +492,40 @@ int cmd_inspect(int argc, char** argv) {
 
     uint8_t version = data[5];
     uint16_t str_count = data[6] | (data[7] << 8);
-    uint32_t str_offset = data[8] | (data[9] << 8) | (data[10] << 16) | (data[11] << 24);
-    uint32_t bc_offset = data[12] | (data[13] << 8) | (data[14] << 16) | (data[15] << 24);
+    uint32_t str_offset = data[8] | (data[9] << 8) | (data[10] << 16) | ((uint32_t)data[11] << 24);
+    uint32_t bc_offset = data[12] | (data[13] << 8) | (data[14] << 16) | ((uint32_t)data[15] << 24);
 
     printf("\n--- Header ---\n");
     printf("Version: %d\n", version);
     printf("String Count: %d\n", str_count);
-    printf("String Table Offset: %d\n", str_offset);
-    printf("Bytecode Offset: %d\n", bc_offset);
+    printf("String Table Offset: %u\n", str_offset);
+    printf("Bytecode Offset: %u\n", bc_offset);
+
+    int ok = 1;
 
     // Print String Table
     printf("\n--- String Table ---\n");
-    if ((long)str_offset < size) {
-        const char* ptr = (const char*)(data + str_offset);
-        for (int i = 0; i < str_count; i++) {
-            printf("[%d] %s\n", i, ptr);
-            while (*ptr) ptr++;
-            ptr++; // Skip null
-            if ((uint8_t*)ptr > data + size) break;
+    size_t at = str_offset;
+    for (int i = 0; i < str_count; i++) {
+        const uint8_t* nul = at < size ? memchr(data + at, 0, size - at) : NULL;
+        if (!nul) {
+            printf("Error: String table is cut off\n");
+            ok = 0;
+            break;
         }
+        printf("[%d] %s\n", i, (const char*)(data + at));
+        at = (size_t)(nul - data) + 1;
     }
 
     // Disassemble Bytecode
     printf("\n--- Bytecode ---\n");
-    if ((long)bc_offset < size) {
-        const uint8_t* ptr = data + bc_offset;
-        const uint8_t* end = data + size;
-        const uint8_t* start = ptr;
-
-        while (ptr < end) {
-            uint32_t offset = (uint32_t)(ptr - start);
-            uint8_t op = read_u8(&ptr, end);
-            printf("%04X: %-15s", offset, get_opcode_name(op));
-
-            switch (op) {
-                case OP_META_VERSION: {
-                    uint8_t v = read_u8(&ptr, end);
-                    printf(" Ver=%d", v);
-                    break;
-                }
-                
-                case OP_META_NAME: {
-                    uint16_t k = read_u16(&ptr, end);
-                    printf(" KeyID=%d (Name)", k);
-                    break;
-                }
-
-                case OP_IO_U8:
-                case OP_IO_U16:
-                case OP_IO_U32:
-                case OP_IO_U64:
-                case OP_IO_I8:
-                case OP_IO_I16:
-                case OP_IO_I32:
-                case OP_IO_I64:
-                case OP_IO_F32:
-                case OP_IO_F64:
-                case OP_IO_BOOL:
-                case OP_ENTER_STRUCT:
-                    printf(" KeyID=%d", read_u16(&ptr, end));
-                    break;
-
-                case OP_ENTER_BIT_MODE:
-                case OP_EXIT_BIT_MODE:
-                    break;
-
-                case OP_STR_NULL: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint16_t m = read_u16(&ptr, end);
-                    printf(" KeyID=%d MaxLen=%d", k, m);
-                    break;
-                }
-
-                case OP_STR_PRE_U8:
-                case OP_STR_PRE_U16:
-                case OP_STR_PRE_U32:
-                case OP_ARR_PRE_U8:
-                case OP_ARR_PRE_U16:
-                case OP_ARR_PRE_U32:
-                    printf(" KeyID=%d", read_u16(&ptr, end));
-                    break;
-
-                case OP_ARR_END:
-                    break;
-
-                case OP_IO_BIT_U:
-                case OP_IO_BIT_I: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint8_t b = read_u8(&ptr, end);
-                    printf(" KeyID=%d Bits=%d", k, b);
-                    break;
-                }
-                
-                case OP_IO_BIT_BOOL:
-                    printf(" KeyID=%d", read_u16(&ptr, end));
-                    break;
-
-                case OP_ARR_FIXED: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
-                    break;
-                }
-
-                case OP_ARR_DYNAMIC: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint16_t ref = read_u16(&ptr, end);
-                    printf(" KeyID=%d RefKeyID=%d", k, ref);
-                    break;
-                }
-
-                case OP_RAW_BYTES: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
-                    break;
-                }
-
-                case OP_CONST_WRITE: {
-                    uint8_t type = read_u8(&ptr, end);
-                    printf(" Type=%s Val=", get_opcode_name(type));
-                    if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
-                    else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
-                    else if (type == OP_IO_U32) printf("%u", read_u32(&ptr, end));
-                    else if (type == OP_IO_U64) printf("%" PRIu64, read_u64(&ptr, end));
-                    break;
-                }
-
-                case OP_CONST_CHECK: {
-                    uint16_t key = read_u16(&ptr, end);
-                    uint8_t type = read_u8(&ptr, end);
-                    printf(" KeyID=%d Type=%s Val=", key, get_opcode_name(type));
-                    if (type == OP_IO_U8 || type == OP_IO_I8) printf("%u", read_u8(&ptr, end));
-                    else if (type == OP_IO_U16 || type == OP_IO_I16) printf("%u", read_u16(&ptr, end));
-                    else if (type == OP_IO_U32 || type == OP_IO_I32) printf("%u", read_u32(&ptr, end));
-                    else if (type == OP_IO_U64 || type == OP_IO_I64) printf("%" PRIu64, read_u64(&ptr, end));
-                    break;
-                }
-
-                case OP_RANGE_CHECK: {
-                    uint8_t type = read_u8(&ptr, end);
-                    printf(" Type=%s Range=[", get_opcode_name(type));
-                    if (type == OP_IO_U8) { printf("%u, %u]", read_u8(&ptr, end), read_u8(&ptr, end)); }
-                    else if (type == OP_IO_I8) { printf("%d, %d]", (int8_t)read_u8(&ptr, end), (int8_t)read_u8(&ptr, end)); }
-                    else if (type == OP_IO_U16) { printf("%u, %u]", read_u16(&ptr, end), read_u16(&ptr, end)); }
-                    else if (type == OP_IO_I16) { printf("%d, %d]", (int16_t)read_u16(&ptr, end), (int16_t)read_u16(&ptr, end)); }
-                    else if (type == OP_IO_U32) { printf("%u, %u]", read_u32(&ptr, end), read_u32(&ptr, end)); }
-                    else if (type == OP_IO_I32) { printf("%d, %d]", (int32_t)read_u32(&ptr, end), (int32_t)read_u32(&ptr, end)); }
-                    else if (type == OP_IO_U64) { printf("%" PRIu64 ", %" PRIu64 "]", read_u64(&ptr, end), read_u64(&ptr, end)); }
-                    else if (type == OP_IO_I64) { printf("%" PRId64 ", %" PRId64 "]", (int64_t)read_u64(&ptr, end), (int64_t)read_u64(&ptr, end)); }
-                    else if (type == OP_IO_F32) { printf("F32 Range"); ptr += 8; }
-                    else if (type == OP_IO_F64) { printf("F64 Range"); ptr += 16; }
-                    break;
-                }
-
-                case OP_SCALE_LIN: {
-                    uint64_t fac = read_u64(&ptr, end);
-                    uint64_t off = read_u64(&ptr, end);
-                    double fac_val, o;
-                    memcpy(&fac_val, &fac, 8);
-                    memcpy(&o, &off, 8);
-                    printf(" Factor=%f Offset=%f", fac_val, o);
-                    break;
-                }
-
-                case OP_TRANS_ADD:
-                case OP_TRANS_SUB:
-                case OP_TRANS_MUL:
-                case OP_TRANS_DIV:
-                    printf(" Val=%" PRId64, (int64_t)read_u64(&ptr, end));
-                    break;
-
-                case OP_TRANS_POLY: {
-                    uint8_t count = read_u8(&ptr, end);
-                    printf(" Count=%d Coeffs=[", count);
-                    for (int i = 0; i < count; i++) {
-                        uint64_t tmp = read_u64(&ptr, end);
-                        double val;
-                        memcpy(&val, &tmp, 8);
-                        printf("%f%s", val, i == count - 1 ? "" : ", ");
-                    }
-                    printf("]");
-                    break;
-                }
-
-                case OP_TRANS_SPLINE: {
-                    uint8_t count = read_u8(&ptr, end);
-                    printf(" Count=%d Points=[", count);
-                    for (int i = 0; i < count; i++) {
-                        uint64_t tmp_x = read_u64(&ptr, end);
-                        uint64_t tmp_y = read_u64(&ptr, end);
-                        double x, y;
-                        memcpy(&x, &tmp_x, 8);
-                        memcpy(&y, &tmp_y, 8);
-                        printf("(%f, %f)%s", x, y, i == count - 1 ? "" : ", ");
-                    }
-                    printf("]");
-                    break;
-                }
-
-                case OP_CRC_16:
-                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", 
-                        read_u16(&ptr, end), read_u16(&ptr, end), read_u16(&ptr, end), read_u8(&ptr, end));
-                    break;
-
-                case OP_CRC_32:
-                    printf(" Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%d", 
-                        read_u32(&ptr, end), read_u32(&ptr, end), read_u32(&ptr, end), read_u8(&ptr, end));
-                    break;
-
-                case OP_ENUM_CHECK: {
-                    uint8_t type = read_u8(&ptr, end);
-                    uint16_t count = read_u16(&ptr, end);
-                    printf(" Type=%s Count=%d Values=[", get_opcode_name(type), count);
-                    for(int i=0; i<count; i++) {
-                        if (i > 0) printf(", ");
-                        if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
-                        else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
-                        else if (type == OP_IO_U32) printf("%u", read_u32(&ptr, end));
-                        else if (type == OP_IO_U64) printf("%" PRIu64, read_u64(&ptr, end));
-                        else if (type == OP_IO_I8) printf("%d", (int8_t)read_u8(&ptr, end));
-                        else if (type == OP_IO_I16) printf("%d", (int16_t)read_u16(&ptr, end));
-                        else if (type == OP_IO_I32) printf("%d", (int32_t)read_u32(&ptr, end));
-                        else if (type == OP_IO_I64) printf("%" PRId64, (int64_t)read_u64(&ptr, end));
-                    }
-                    printf("]");
-                    break;
-                }
-
-                case OP_SWITCH: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint32_t t = read_u32(&ptr, end);
-                    printf(" KeyID=%d TableOff=%u", k, t);
-                    break;
-                }
-
-                case OP_JUMP: {
-                    int32_t off = (int32_t)read_u32(&ptr, end);
-                    printf(" Offset=%d", off);
-                    break;
-                }
-
-                case OP_JUMP_IF_NOT: {
-                    int32_t off = (int32_t)read_u32(&ptr, end);
-                    printf(" Offset=%d", off);
-                    break;
-                }
-
-                case OP_LOAD_CTX: {
-                    uint16_t k = read_u16(&ptr, end);
-                    printf(" KeyID=%d", k);
-                    break;
-                }
-
-                case OP_STORE_CTX: {
-                    uint16_t k = read_u16(&ptr, end);
-                    printf(" KeyID=%d", k);
-                    break;
-                }
-
-                case OP_PUSH_IMM: {
-                    uint64_t v = read_u64(&ptr, end);
-                    printf(" Val=%" PRIu64, v);
-                    break;
-                }
-
-                case OP_EMIT: {
-                    uint8_t type = read_u8(&ptr, end);
-                    printf(" Type=%s", get_opcode_name(type));
-                    break;
-                }
-
-                case OP_ALIGN_PAD:
-                case OP_ALIGN_FILL:
-                    printf(" Align=%d", read_u8(&ptr, end));
-                    break;
-            }
-            printf("\n");
-        }
+    if (bc_offset > size) {
+        printf("Error: Bytecode is cut off\n");
+        ok = 0;
+    } else if (!print_code(data + bc_offset, size - bc_offset, 0, size - bc_offset, 0)) {
+        ok = 0;
     }
 
     free(data);
-    return 0;
+    return ok ? 0 : 1;
 }
-- 
2.43.0


From 22dc464ad75c45d427a8d18b90d660eb886b6bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 30/60] fix: hexview reports failed reads

---
 src/tools/hexview.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/hexview.c b/src/tools/hexview.c
index 8085c35..1908910 100644
--- a/src/tools/hexview.c
+++ b/src/tools/hexview.c
@@ -23,7 +23,12 @@ int main(int argc, char** argv) {
         if (count % 16 == 0) printf("\n");
     }
     if (count % 16 != 0) printf("\n");
+    int failed = ferror(f);
     fclose(f);
+    if (failed) {
+        printf("Error reading file: %s\n", argv[1]);
+        return 1;
+    }
     return 0;
 }
 
-- 
2.43.0


From ea62c76d156962802e439cfd31e864c921f2fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:09 +0000
Subject: [PATCH 31/60] fix: formatter leaves block comments as they are

The text of /* */ comments was formatted as if it were code: a quote in one
paired up with the next string's, whose spaces were then rewritten.
---
 src/compiler/cnd_fmt.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 73ad7f7..c9ccf71 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -23,6 +23,7 @@ typedef enum {
     FMT_COMMA,     // ,
     FMT_AT,        // @
     FMT_COMMENT,   // // ...
+    FMT_BLOCK_COMMENT, // /* ... */
     FMT_NEWLINE,   // \n
     FMT_WHITESPACE // spaces/tabs
 } FmtTokenType;
@@ -83,6 +84,20 @@ static FmtToken fmt_next(FmtLexer* l) {
         return t;
     }
 
+    if (c == '/' && *l->current == '*') {
+        t.type = FMT_BLOCK_COMMENT;
+        l->current++;
+        while (*l->current != '\0') {
+            if (*l->current == '*' && *(l->current + 1) == '/') {
+                l->current += 2;
+                break;
+            }
+            l->current++;
+        }
+        t.length = (int)(l->current - t.start);
+        return t;
+    }
+
     switch (c) {
         case '{': t.type = FMT_LBRACE; return t;
         case '}': t.type = FMT_RBRACE; return t;
-- 
2.43.0


From 606f1fce74f2ae31a98d230e72bd2fa6a8cce311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:34 +0000
Subject: [PATCH 32/60] fix: formatting a formatted file changes nothing

A line break the formatter adds and the one already there counted as two, so
every formatted file gained blank lines the next time, and { got a second
space.
---
 src/compiler/cnd_fmt.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index c9ccf71..e451e62 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -154,7 +154,8 @@ char* cnd_format_source(const char* source) {
     sb_init(&out);
 
     int indent = 0;
-    int newline_pending = 0;
+    int newline_pending = 0; // line break the last token asks for
+    int input_newlines = 0;  // line breaks in the input since then
     int space_pending = 0;
     int on_new_line = 1;
 
@@ -174,9 +175,11 @@ char* cnd_format_source(const char* source) {
         }
 
         if (t.type == FMT_NEWLINE) {
-            if (newline_pending < 2) newline_pending++;
+            if (input_newlines < 2) input_newlines++;
             continue;
         }
+        if (input_newlines > newline_pending) newline_pending = input_newlines;
+        input_newlines = 0;
 
         // Logic
         if (t.type == FMT_RBRACE) {
@@ -197,6 +200,8 @@ char* cnd_format_source(const char* source) {
         }
 
         // Apply Indent or Space
+        if (t.type == FMT_LBRACE && !on_new_line) space_pending = 1; // Space before {
+
         if (on_new_line) {
             sb_indent(&out, indent);
             on_new_line = 0;
@@ -205,10 +210,6 @@ char* cnd_format_source(const char* source) {
             space_pending = 0;
         }
 
-        if (t.type == FMT_LBRACE) {
-            sb_append(&out, " "); // Space before {
-        }
-
         sb_append_n(&out, t.start, t.length);
 
         if (t.type == FMT_LBRACE) {
@@ -223,7 +224,8 @@ char* cnd_format_source(const char* source) {
         prev = t;
     }
     
-    sb_append(&out, "\n");
+    // An unterminated comment or string already holds the file's last line break
+    if (prev.length == 0 || prev.start[prev.length - 1] != '\n') sb_append(&out, "\n");
     char* result = sb_build(&out);
     sb_free(&out);
     return result;
-- 
2.43.0


From 88dff55eb940709c1a9209ec373df67933b8eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 33/60] fix: decode writes 64-bit integers and floating point
 numbers exactly

cJSON prints 15 digits whenever that is within its tolerance, so doubles came
out a bit off, and 64-bit integers went through a double.
---
 src/cli/json_binding.c | 47 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 437c5ca..3ff25ef 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <inttypes.h>
 #include "cli_helpers.h"
 #include <cJSON.h>
 #include "concordia.h"
@@ -31,6 +32,9 @@ static int hex_char_value(char c) {
 
 // The value of an integer member, as a two's complement number
 static uint64_t json_to_u64(const cJSON* item) {
+    if (cJSON_IsRaw(item)) { // A decoded integer
+        return item->valuestring[0] == '-' ? (uint64_t)strtoll(item->valuestring, NULL, 10) : strtoull(item->valuestring, NULL, 10);
+    }
     double d = cJSON_IsBool(item) ? (cJSON_IsTrue(item) ? 1 : 0) : item->valuedouble;
     if (d >= 18446744073709551616.0) return UINT64_MAX;
     if (d >= 0) return (uint64_t)d;
@@ -206,20 +210,47 @@ static cJSON* string_to_json(const char* str, size_t len) {
     return val;
 }
 
+// cJSON prints numbers with 15 digits where that is close enough for it
+static cJSON* exact_number(const char* text, double value) {
+    cJSON* number = cJSON_CreateRaw(text);
+    if (number) number->valuedouble = value;
+    return number;
+}
+
+static cJSON* unsigned_to_json(uint64_t v) {
+    char text[32];
+    snprintf(text, sizeof(text), "%" PRIu64, v);
+    return exact_number(text, (double)v);
+}
+
+static cJSON* signed_to_json(int64_t v) {
+    char text[32];
+    snprintf(text, sizeof(text), "%" PRId64, v);
+    return exact_number(text, (double)v);
+}
+
+static cJSON* double_to_json(double d) {
+    char text[32];
+    if (d - d != 0) return cJSON_CreateNumber(d); // Infinity and NaN have no digits
+    snprintf(text, sizeof(text), "%.15g", d);
+    if (strtod(text, NULL) != d) snprintf(text, sizeof(text), "%.17g", d);
+    return exact_number(text, d);
+}
+
 static cJSON* decode_primitive(const cnd_vm_ctx* ctx, uint8_t type, void* ptr) {
     switch (type) {
         case OP_IO_U8: return cJSON_CreateNumber(*(uint8_t*)ptr);
         case OP_IO_U16: return cJSON_CreateNumber(*(uint16_t*)ptr);
         case OP_IO_U32: return cJSON_CreateNumber(*(uint32_t*)ptr);
-        case OP_IO_U64: return cJSON_CreateNumber((double)*(uint64_t*)ptr);
+        case OP_IO_U64: return unsigned_to_json(*(uint64_t*)ptr);
         case OP_IO_I8: return cJSON_CreateNumber(*(int8_t*)ptr);
         case OP_IO_I16: return cJSON_CreateNumber(*(int16_t*)ptr);
         case OP_IO_I32: return cJSON_CreateNumber(*(int32_t*)ptr);
-        case OP_IO_I64: return cJSON_CreateNumber((double)*(int64_t*)ptr);
-        case OP_IO_F32: return cJSON_CreateNumber(*(float*)ptr);
-        case OP_IO_F64: return cJSON_CreateNumber(*(double*)ptr);
-        case OP_IO_BIT_U: return cJSON_CreateNumber((double)*(uint64_t*)ptr);
-        case OP_IO_BIT_I: return cJSON_CreateNumber((double)*(int64_t*)ptr);
+        case OP_IO_I64: return signed_to_json(*(int64_t*)ptr);
+        case OP_IO_F32: return double_to_json(*(float*)ptr);
+        case OP_IO_F64: return double_to_json(*(double*)ptr);
+        case OP_IO_BIT_U: return unsigned_to_json(*(uint64_t*)ptr);
+        case OP_IO_BIT_I: return signed_to_json(*(int64_t*)ptr);
         case OP_IO_BOOL: case OP_IO_BIT_BOOL: return cJSON_CreateBool(*(uint8_t*)ptr);
         case OP_STR_NULL: return cJSON_CreateString((const char*)ptr);
         case OP_STR_PRE_U8: return string_to_json(ptr, prefix_value(ctx, (uint8_t*)ptr - 1, 1));
@@ -240,11 +271,11 @@ static cJSON* computed_to_json(const cnd_vm_ctx* ctx, uint8_t type, uint64_t bit
         case OP_IO_I8: return cJSON_CreateNumber((int8_t)bits);
         case OP_IO_I16: return cJSON_CreateNumber((int16_t)bits);
         case OP_IO_I32: return cJSON_CreateNumber((int32_t)bits);
-        case OP_IO_F32: return cJSON_CreateNumber((float)d);
+        case OP_IO_F32: return double_to_json((float)d);
         case OP_IO_BOOL: return cJSON_CreateBool(bits != 0);
         case OP_IO_I64: case OP_IO_F64: return decode_primitive(ctx, type, &bits);
     }
-    return cJSON_CreateNumber((double)bits);
+    return unsigned_to_json(bits);
 }
 
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
-- 
2.43.0


From b4b6c122eba41694f75babc10cded3729ab5ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:12 +0000
Subject: [PATCH 34/60] fix: encode leaves out no optional field because of its
 own buffer

A frame that filled the first 1024 bytes up to its optional fields was written
without them, successfully.
---
 src/cli/cmd_encode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index ae99e1f..f8a0208 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -36,6 +36,8 @@ int cmd_encode(int argc, char** argv) {
         io_ctx.stack[0] = root;
         cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, size, json_io_callback, &io_ctx);
         err = cnd_execute(&vm);
+        // Optional fields that do not fit are left out: make sure that every one had room
+        if (err == CND_ERR_OK && size - vm.cursor <= sizeof(uint64_t)) err = CND_ERR_OOB;
     }
     if (err != CND_ERR_OK) {
         fprintf(stderr, "VM Error: %d\n", err);
-- 
2.43.0


From 00aa63ca2a2566cd9b02caa93782ace8ecc0aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 35/60] fix: encode and decode survive unbalanced arrays in
 damaged images

---
 src/cli/json_binding.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 3ff25ef..b5f6718 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -63,6 +63,17 @@ static bool in_array(const IOCtx* io) {
     return io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1];
 }
 
+// True if the item is a struct or array the callback is still asked about
+static bool is_open(const IOCtx* io, const cJSON* item) {
+    for (int i = 0; i <= io->depth; i++) {
+        if (io->stack[i] == item) return true;
+    }
+    for (int i = 0; i < io->array_depth; i++) {
+        if (io->array_stack[i] == item) return true;
+    }
+    return false;
+}
+
 // Finds the member a full key path refers to, starting from the innermost open object it lies in
 static cJSON* find_member(IOCtx* io, const char* path) {
     cJSON* object = io->stack[0];
@@ -320,6 +331,10 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
     
     if (type == OP_EXIT_STRUCT) {
         if (io->depth > 0) io->depth--;
+        while (io->array_depth > 0 && io->array_start_depth[io->array_depth - 1] > io->depth) {
+            io->array_depth--; // Left open in the struct
+            io->in_hex_byte_array = false;
+        }
         return CND_ERR_OK;
     }
 
@@ -332,7 +347,7 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
     
     if (type == OP_ARR_END) {
         // Finalize hex string if needed
-        if (io->in_hex_byte_array && ctx->mode == CND_MODE_DECODE) {
+        if (io->in_hex_byte_array && io->array_depth > 0 && ctx->mode == CND_MODE_DECODE) {
             cJSON* str = io->array_stack[io->array_depth - 1];
             if (io->hex_str_buffer) {
                 cJSON_SetValuestring(str, io->hex_str_buffer);
@@ -365,8 +380,11 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
         uint8_t emit_type = emit ? bc[ctx->ip + 1] : OP_IO_U64;
         io->key_types[key_id] = emit_type;
         
+        cJSON* old = cJSON_GetObjectItemCaseSensitive(current, key_name);
+        if (old && is_open(io, old)) return CND_ERR_CALLBACK;
+
         cJSON* val = computed_to_json(ctx, emit_type, *(uint64_t*)ptr);
-        if (cJSON_GetObjectItemCaseSensitive(current, key_name)) cJSON_ReplaceItemInObjectCaseSensitive(current, key_name, val);
+        if (old) cJSON_ReplaceItemInObjectCaseSensitive(current, key_name, val);
         else cJSON_AddItemToObject(current, key_name, val);
         return CND_ERR_OK;
     }
-- 
2.43.0


From 4e34ed2dca2491cb15c18fee2189221fab4c1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:45 +0000
Subject: [PATCH 36/60] fix: the language server survives malformed and
 incomplete messages

---
 src/cli/cmd_lsp.c | 101 ++++++++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 35 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index a9d1454..5302e1a 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -67,9 +67,11 @@ static void send_json(cJSON* json) {
     free(str);
 }
 
+// The next message, NULL at the end of the input. Messages that are no JSON are skipped.
 static cJSON* read_json(void) {
+next_message:;
     // Read header: "Content-Length: <N>\r\n\r\n"
-    size_t content_len = 0;
+    int content_len = 0;
     while (1) {
         char line[1024];
         // fgets reads until newline. In binary mode, \r\n is preserved.
@@ -83,15 +85,20 @@ static cJSON* read_json(void) {
         }
     }
     
-    if (content_len == 0) return NULL;
+    if (content_len <= 0) goto next_message;
     
-    char* buf = malloc(content_len + 1);
+    char* buf = malloc((size_t)content_len + 1);
     if (!buf) return NULL;
-    size_t read_len = fread(buf, 1, content_len, stdin);
+    size_t read_len = fread(buf, 1, (size_t)content_len, stdin);
     buf[read_len] = 0;
+    if (read_len < (size_t)content_len) {
+        free(buf);
+        return NULL;
+    }
     
     cJSON* json = cJSON_Parse(buf);
     free(buf);
+    if (!json) goto next_message;
     return json;
 }
 
@@ -104,6 +111,21 @@ static void send_response(cJSON* id, cJSON* result) {
     cJSON_Delete(res);
 }
 
+// The document a request is about, NULL if it does not say
+static const char* request_uri(cJSON* params) {
+    return cJSON_GetStringValue(cJSON_GetObjectItem(cJSON_GetObjectItem(params, "textDocument"), "uri"));
+}
+
+static int request_position(cJSON* params, int* line, int* character) {
+    cJSON* pos = cJSON_GetObjectItem(params, "position");
+    cJSON* line_item = cJSON_GetObjectItem(pos, "line");
+    cJSON* character_item = cJSON_GetObjectItem(pos, "character");
+    if (!cJSON_IsNumber(line_item) || !cJSON_IsNumber(character_item)) return 0;
+    *line = line_item->valueint;
+    *character = character_item->valueint;
+    return 1;
+}
+
 // --- Document Store ---
 typedef struct {
     char* uri;
@@ -489,14 +511,15 @@ static void skip_instruction(const uint8_t** ptr, const uint8_t* end, uint8_t op
 }
 
 static void handle_completion(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* doc_uri = request_uri(params);
+    int line, character;
+    if (!doc_uri || !request_position(params, &line, &character)) {
+        send_response(id, cJSON_CreateNull());
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
+    char* path = file_uri_to_path(doc_uri);
+    char* source = doc_get(doc_uri);
     if (!source) source = read_file_text(path);
 
     if (!source) {
@@ -769,10 +792,13 @@ static void handle_completion(cJSON* id, cJSON* params) {
 }
 
 static void handle_formatting(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
+    const char* doc_uri = request_uri(params);
+    if (!doc_uri) {
+        send_response(id, cJSON_CreateNull());
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(doc_uri);
     char* source = read_file_text(path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -805,10 +831,13 @@ static void handle_formatting(cJSON* id, cJSON* params) {
 }
 
 static void handle_document_symbol(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
+    const char* doc_uri = request_uri(params);
+    if (!doc_uri) {
+        send_response(id, cJSON_CreateNull());
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(doc_uri);
     char* source = read_file_text(path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -837,7 +866,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
         cJSON_AddNumberToObject(sym, "kind", 23); // Struct
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", doc_uri);
         cJSON* range = cJSON_CreateObject();
         cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
         cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
@@ -855,7 +884,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
         cJSON_AddNumberToObject(sym, "kind", 10); // Enum
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", doc_uri);
         cJSON* range = cJSON_CreateObject();
         cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
         cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
@@ -953,7 +982,7 @@ static void handle_didChange(cJSON* params) {
     if (!doc) return;
     cJSON* uri = cJSON_GetObjectItem(doc, "uri");
     cJSON* changes = cJSON_GetObjectItem(params, "contentChanges");
-    if (uri && changes && cJSON_GetArraySize(changes) > 0) {
+    if (uri && uri->valuestring && changes && cJSON_GetArraySize(changes) > 0) {
         // Full sync: last change has full text
         cJSON* lastChange = cJSON_GetArrayItem(changes, cJSON_GetArraySize(changes) - 1);
         cJSON* text = cJSON_GetObjectItem(lastChange, "text");
@@ -1001,16 +1030,17 @@ static void handle_initialize(cJSON* id) {
 }
 
 static void handle_definition(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* doc_uri = request_uri(params);
+    int line, character;
+    if (!doc_uri || !request_position(params, &line, &character)) {
+        send_response(id, cJSON_CreateNull());
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(doc_uri);
     
     // Read file content
-    char* source = doc_get(uri_item->valuestring);
+    char* source = doc_get(doc_uri);
     if (!source) source = read_file_text(path);
 
     if (!source) {
@@ -1044,7 +1074,7 @@ static void handle_definition(cJSON* id, cJSON* params) {
             
             cJSON_AddStringToObject(loc, "uri", uri);
         } else {
-            cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+            cJSON_AddStringToObject(loc, "uri", doc_uri);
         }
 
         cJSON* range = cJSON_CreateObject();
@@ -1073,14 +1103,15 @@ static void handle_definition(cJSON* id, cJSON* params) {
 
 static void handle_hover(cJSON* id, cJSON* params) {
     // Similar to definition, but returns markdown
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* doc_uri = request_uri(params);
+    int line, character;
+    if (!doc_uri || !request_position(params, &line, &character)) {
+        send_response(id, cJSON_CreateNull());
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
+    char* path = file_uri_to_path(doc_uri);
+    char* source = doc_get(doc_uri);
     if (!source) source = read_file_text(path);
 
     if (!source) {
-- 
2.43.0


From d8903b7c22cb6d9ab467fada5408dc00e236327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 37/60] fix: the language server formats and lists the open
 text, not the file on disk

---
 src/cli/cmd_lsp.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 5302e1a..b8866f9 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -799,7 +799,8 @@ static void handle_formatting(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(doc_uri);
-    char* source = read_file_text(path);
+    char* source = doc_get(doc_uri);
+    if (!source) source = read_file_text(path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -838,7 +839,8 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(doc_uri);
-    char* source = read_file_text(path);
+    char* source = doc_get(doc_uri);
+    if (!source) source = read_file_text(path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -998,9 +1000,10 @@ static void handle_didSave(cJSON* params) {
     if (!doc) return;
     cJSON* uri = cJSON_GetObjectItem(doc, "uri");
     if (uri && uri->valuestring) {
-        // We need source content. If it's a save, we can read from disk.
+        // We need source content. If the document is not open, we can read from disk.
         char* path = file_uri_to_path(uri->valuestring);
-        char* source = read_file_text(path);
+        char* source = doc_get(uri->valuestring);
+        if (!source) source = read_file_text(path);
         if (source) {
             publish_diagnostics(uri->valuestring, source);
             free(source);
-- 
2.43.0


From 1f301ddf57dd19df3b1b9d9b13c991c022af4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 38/60] fix: the language server takes circular imports as the
 compiler does

---
 src/cli/cmd_lsp.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index b8866f9..0c5fcf6 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -219,6 +219,16 @@ static const char* get_type_name(uint8_t type) {
     }
 }
 
+// Registers the document as imported, so that it does not import itself, as the compiler does.
+// Returns its canonical path.
+static const char* begin_main_file(Parser* p, const char* path) {
+    char* canonical = cnd_canonicalize_path(path);
+    const char* name = canonical ? canonical : path;
+    strtab_add(&p->imports, name, (int)strlen(name));
+    free(canonical);
+    return p->imports.strings[0];
+}
+
 // Helper to analyze a source string and find definition for symbol at position
 typedef struct {
     int found;
@@ -258,7 +268,7 @@ static void analyze_source(const char* source, const char* file_path, int line,
     enum_reg_init(&p.enums);
     
     lexer_init(&p.lexer, source);
-    p.current_path = file_path; // For import resolution (might fail for relative imports if not handled) 
+    p.current_path = begin_main_file(&p, file_path); // For import resolution (might fail for relative imports if not handled) 
     
     advance(&p);
     parse_top_level(&p);
@@ -539,7 +549,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     reg_init(&p.registry); enum_reg_init(&p.enums);
     
     lexer_init(&p.lexer, source);
-    p.current_path = path;
+    p.current_path = begin_main_file(&p, path);
     advance(&p);
     parse_top_level(&p);
     
@@ -855,7 +865,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     buf_init(&p.global_bc); strtab_init(&p.strtab); strtab_init(&p.imports); reg_init(&p.registry); enum_reg_init(&p.enums);
     
     lexer_init(&p.lexer, source);
-    p.current_path = path;
+    p.current_path = begin_main_file(&p, path);
     advance(&p);
     parse_top_level(&p);
     
@@ -919,7 +929,7 @@ static void publish_diagnostics(const char* uri, const char* source) {
     
     lexer_init(&p.lexer, source);
     char* path = file_uri_to_path(uri);
-    p.current_path = path;
+    p.current_path = begin_main_file(&p, path);
     advance(&p);
     parse_top_level(&p);
     
-- 
2.43.0


From 6e0db49e716e6b48ca915936bfbcd72458707ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 39/60] fix: hover shows documentation of any length

---
 src/cli/cmd_lsp.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 0c5fcf6..c48e43e 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -1141,21 +1141,25 @@ static void handle_hover(cJSON* id, cJSON* params) {
         cJSON* contents = cJSON_CreateObject();
         cJSON_AddStringToObject(contents, "kind", "markdown");
         
-        char msg[4096]; // Increased buffer size
         const char* file_display = res.def_file ? res.def_file : "current file";
+        size_t size = strlen(res.symbol_name) + strlen(file_display) + 64;
+        if (res.doc_comment) size += strlen(res.doc_comment);
+        if (res.type_details) size += strlen(res.type_details);
+        char* msg = malloc(size);
         
         int offset = 0;
-        offset += snprintf(msg + offset, sizeof(msg) - offset, "**%s**\n\nDefined in %s on line %d.", res.symbol_name, file_display, res.def_line + 1);
+        offset += snprintf(msg + offset, size - offset, "**%s**\n\nDefined in %s on line %d.", res.symbol_name, file_display, res.def_line + 1);
         
         if (res.doc_comment) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.doc_comment);
+            offset += snprintf(msg + offset, size - offset, "\n\n%s", res.doc_comment);
         }
 
         if (res.type_details) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.type_details);
+            offset += snprintf(msg + offset, size - offset, "\n\n%s", res.type_details);
         }
         
         cJSON_AddStringToObject(contents, "value", msg);
+        free(msg);
         
         cJSON_AddItemToObject(h, "contents", contents);
         send_response(id, h);
-- 
2.43.0


From 0381eeda6f66189483dcdb77890122359014215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 40/60] fix: definition reads no path behind its end and frees
 what it found

---
 src/cli/cmd_lsp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index c48e43e..ce3fdec 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -1077,7 +1077,7 @@ static void handle_definition(cJSON* id, cJSON* params) {
             // the resolve_path in parser made it absolute. So res.def_file should be absolute.
             char uri[1024];
             // Windows path handling
-            if (res.def_file[1] == ':') {
+            if (res.def_file[0] && res.def_file[1] == ':') {
                 snprintf(uri, sizeof(uri), "file:///%s", res.def_file);
             } else {
                 snprintf(uri, sizeof(uri), "file://%s", res.def_file);
@@ -1106,6 +1106,7 @@ static void handle_definition(cJSON* id, cJSON* params) {
         if (res.symbol_name) free(res.symbol_name);
         if (res.def_file) free(res.def_file);
         if (res.doc_comment) free(res.doc_comment);
+        if (res.type_details) free(res.type_details);
     } else {
         send_response(id, cJSON_CreateNull());
     }
-- 
2.43.0


From 7acd411926cab2e7f9c12ad1a8f7cb1d8fb2d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 41/60] fix: the language server frees only the errors the
 parser stored

---
 src/cli/cmd_lsp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index ce3fdec..1786667 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -383,7 +383,7 @@ cleanup:
     reg_free(&p.registry);
     enum_reg_free(&p.enums);
     if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
+        for (int i = 0; i < p.error_count && (size_t)i < p.error_cap; i++) free(p.errors[i].message);
         free(p.errors);
     }
 }
@@ -795,7 +795,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     strtab_free(&p.strtab); strtab_free(&p.imports);
     reg_free(&p.registry); enum_reg_free(&p.enums);
     if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
+        for (int i = 0; i < p.error_count && (size_t)i < p.error_cap; i++) free(p.errors[i].message);
         free(p.errors);
     }
     free(source); free(path);
@@ -913,7 +913,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     strtab_free(&p.strtab); strtab_free(&p.imports);
     reg_free(&p.registry); enum_reg_free(&p.enums);
     if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
+        for (int i = 0; i < p.error_count && (size_t)i < p.error_cap; i++) free(p.errors[i].message);
         free(p.errors);
     }
     free(source); free(path);
-- 
2.43.0


From 1bc3138d44f4a27c16466918d9513fd0c0d8efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:43 +0000
Subject: [PATCH 42/60] fix: expression completion lists the fields and nothing
 else

---
 src/cli/cmd_lsp.c | 149 ++++++++++++----------------------------------
 1 file changed, 37 insertions(+), 112 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 1786667..d02588f 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -5,6 +5,7 @@
 #include <inttypes.h>
 #include <cJSON.h>
 #include "../compiler/cnd_internal.h"
+#include "../vm/vm_internal.h"
 #include "cli_helpers.h"
 #include "compiler.h" // For cnd_format_source
 
@@ -434,89 +435,45 @@ static char* file_uri_to_path(const char* uri) {
 }
 
 // --- Bytecode Helpers for Completion ---
-static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr >= end) return 0;
-    return *(*ptr)++;
+static void add_field_item(cJSON* items, const char* field_name) {
+    cJSON* other;
+    cJSON_ArrayForEach(other, items) {
+        if (strcmp(cJSON_GetObjectItem(other, "label")->valuestring, field_name) == 0) return;
+    }
+    cJSON* item = cJSON_CreateObject();
+    cJSON_AddStringToObject(item, "label", field_name);
+    cJSON_AddNumberToObject(item, "kind", 5); // Field
+    cJSON_AddStringToObject(item, "detail", "Field");
+    cJSON_AddItemToArray(items, item);
 }
 
-static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 2 > end) return 0;
-    uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
-    *ptr += 2;
-    return v;
-}
+// Adds the fields the code from 'ip' to 'end' reads and writes
+static void add_field_items(cJSON* items, const Parser* p, const Buffer* code, size_t ip, size_t end) {
+    const uint8_t* bc = code->data;
+    while (ip < end) {
+        size_t len = il_instr_len(bc, code->size, ip);
+        if (len == 0 || len > end - ip) return;
 
-static void skip_instruction(const uint8_t** ptr, const uint8_t* end, uint8_t op) {
-    switch (op) {
-        case OP_META_VERSION: *ptr += 1; break;
-        case OP_META_NAME: *ptr += 2; break;
-        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
-        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
-        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
-        case OP_ENTER_STRUCT: *ptr += 2; break;
-        case OP_STR_NULL: *ptr += 4; break;
-        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: *ptr += 2; break;
-        case OP_IO_BIT_U: case OP_IO_BIT_I: *ptr += 3; break;
-        case OP_IO_BIT_BOOL: *ptr += 2; break;
-        case OP_ARR_FIXED: *ptr += 6; break;
-        case OP_RAW_BYTES: *ptr += 6; break;
-        case OP_CONST_WRITE: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8) *ptr += 1;
-            else if (type == OP_IO_U16) *ptr += 2;
-            else if (type == OP_IO_U32) *ptr += 4;
-            else if (type == OP_IO_U64) *ptr += 8;
-            break;
-        }
-        case OP_CONST_CHECK: {
-            *ptr += 2; // key
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) *ptr += 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) *ptr += 8;
-            break;
-        }
-        case OP_RANGE_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 2;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 4;
-            else if (type == OP_IO_U32 || type == OP_IO_I32 || type == OP_IO_F32) *ptr += 8;
-            else if (type == OP_IO_U64 || type == OP_IO_I64 || type == OP_IO_F64) *ptr += 16;
-            break;
-        }
-        case OP_SCALE_LIN: *ptr += 16; break;
-        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: *ptr += 8; break;
-        case OP_TRANS_POLY: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 8;
-            break;
-        }
-        case OP_TRANS_SPLINE: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 16;
-            break;
-        }
-        case OP_CRC_16: *ptr += 7; break;
-        case OP_CRC_32: *ptr += 13; break;
-        case OP_ENUM_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            uint16_t count = read_u16(ptr, end);
-            int sz = 0;
-            if (type == OP_IO_U8 || type == OP_IO_I8) sz = 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) sz = 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) sz = 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) sz = 8;
-            *ptr += count * sz;
-            break;
+        uint8_t op = bc[ip];
+        if (op == OP_IO_U8 || op == OP_IO_U16 || op == OP_IO_U32 || op == OP_IO_U64 ||
+            op == OP_IO_I8 || op == OP_IO_I16 || op == OP_IO_I32 || op == OP_IO_I64 ||
+            op == OP_IO_F32 || op == OP_IO_F64 || op == OP_IO_BOOL ||
+            op == OP_IO_BIT_U || op == OP_IO_BIT_I || op == OP_IO_BIT_BOOL ||
+            op == OP_STR_NULL || op == OP_STR_PRE_U8 || op == OP_STR_PRE_U16 || op == OP_STR_PRE_U32 ||
+            op == OP_ARR_PRE_U8 || op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_FIXED ||
+            op == OP_LOAD_CTX || op == OP_STORE_CTX) {
+            size_t key = bc[ip + 1] | ((size_t)bc[ip + 2] << 8);
+            if (key < p->strtab.count) add_field_item(items, p->strtab.strings[key]);
+        } else if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
+            // The table of a switch that is still being typed does not exist
+            size_t table, table_end;
+            if (il_switch_bounds(bc, code->size, ip, &table, &table_end) && table > ip + len && table_end <= end) {
+                add_field_items(items, p, code, ip + len, table);
+                ip = table_end;
+                continue;
+            }
         }
-        case OP_SWITCH: *ptr += 6; break;
-        case OP_JUMP: case OP_JUMP_IF_NOT: *ptr += 4; break;
-        case OP_LOAD_CTX: case OP_STORE_CTX: *ptr += 2; break;
-        case OP_PUSH_IMM: *ptr += 8; break;
-        case OP_ALIGN_PAD: case OP_ALIGN_FILL: *ptr += 1; break;
-        default: break;
+        ip += len;
     }
 }
 
@@ -704,39 +661,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
         if (active_struct) {
             StructDef* sdef = reg_find(&p.registry, active_struct, (int)strlen(active_struct));
             if (sdef && sdef->bytecode.data) {
-                const uint8_t* bc_ptr = sdef->bytecode.data;
-                const uint8_t* end = bc_ptr + sdef->bytecode.size;
-                while (bc_ptr < end) {
-                    uint8_t op = read_u8(&bc_ptr, end);
-                    // Check for IO operations that define fields
-                    if (op == OP_IO_U8 || op == OP_IO_U16 || op == OP_IO_U32 || op == OP_IO_U64 ||
-                        op == OP_IO_I8 || op == OP_IO_I16 || op == OP_IO_I32 || op == OP_IO_I64 ||
-                        op == OP_IO_F32 || op == OP_IO_F64 || op == OP_IO_BOOL ||
-                        op == OP_IO_BIT_U || op == OP_IO_BIT_I || op == OP_IO_BIT_BOOL ||
-                        op == OP_STR_NULL || op == OP_STR_PRE_U8 || op == OP_STR_PRE_U16 || op == OP_STR_PRE_U32 ||
-                        op == OP_ARR_PRE_U8 || op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_FIXED ||
-                        op == OP_ENTER_STRUCT || op == OP_LOAD_CTX || op == OP_STORE_CTX) {
-                        uint16_t key = read_u16(&bc_ptr, end);
-                        if (key < p.strtab.count) {
-                            // Only add each field once (skip struct markers and use leaf fields)
-                            const char* field_name = p.strtab.strings[key];
-                            // Skip ENTER_STRUCT names (they're not leaf fields)
-                            if (op != OP_ENTER_STRUCT) {
-                                cJSON* item = cJSON_CreateObject();
-                                cJSON_AddStringToObject(item, "label", field_name);
-                                cJSON_AddNumberToObject(item, "kind", 5); // Field
-                                cJSON_AddStringToObject(item, "detail", "Field");
-                                cJSON_AddItemToArray(items, item);
-                            }
-                        }
-                        // Skip remaining bytes for ops that have more data after key
-                        if (op == OP_IO_BIT_U || op == OP_IO_BIT_I) bc_ptr += 1; // bits
-                        else if (op == OP_STR_NULL) bc_ptr += 2; // max_len
-                        else if (op == OP_ARR_FIXED) bc_ptr += 4; // count
-                    } else {
-                        skip_instruction(&bc_ptr, end, op);
-                    }
-                }
+                add_field_items(items, &p, &sdef->bytecode, 0, sdef->bytecode.size);
             }
         }
     } else {
-- 
2.43.0


From a09d01fed31c0c86024b451e5375950e7eb7c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 43/60] fix: document symbols are those of the document

---
 src/cli/cmd_lsp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index d02588f..9dd3838 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -798,6 +798,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     // Structs
     for (size_t i = 0; i < p.registry.count; i++) {
+        if (p.registry.defs[i].file && strcmp(p.registry.defs[i].file, p.current_path) != 0) continue; // Imported
         cJSON* sym = cJSON_CreateObject();
         cJSON_AddStringToObject(sym, "name", p.registry.defs[i].name);
         cJSON_AddNumberToObject(sym, "kind", 23); // Struct
@@ -816,6 +817,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     // Enums
     for (size_t i = 0; i < p.enums.count; i++) {
+        if (p.enums.defs[i].file && strcmp(p.enums.defs[i].file, p.current_path) != 0) continue; // Imported
         cJSON* sym = cJSON_CreateObject();
         cJSON_AddStringToObject(sym, "name", p.enums.defs[i].name);
         cJSON_AddNumberToObject(sym, "kind", 10); // Enum
-- 
2.43.0


From 39ecbfd376697b334f85bb0bca558e4685b0b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 44/60] fix: deeply nested schemas are errors, not stack
 overflows

---
 src/compiler/cnd_internal.h |  1 +
 src/compiler/cnd_parser.c   | 84 ++++++++++++++++++++++++++-----------
 2 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index dffba6e..1881475 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -244,6 +244,7 @@ typedef struct {
     int verbose;     // Flag for verbose debug output
     int packet_count; // Track number of packets defined
     int import_depth; // Track recursion depth of imports
+    int nesting;      // Track recursion depth of expressions, ifs and switches
     
     // Decorator State
     int pending_unaligned; // Flag: Next struct is @unaligned_bytes
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index c1bfd27..489efea 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -168,11 +168,26 @@ ExprType parse_expression(Parser* p) {
     return parse_precedence(p, PREC_OR);
 }
 
+// Expressions, ifs and switches may nest this deep
+#define MAX_NESTING 256
+
+static int enter_nested(Parser* p) {
+    if (p->nesting >= MAX_NESTING) {
+        parser_error(p, "Nested too deeply");
+        return 0;
+    }
+    p->nesting++;
+    return 1;
+}
+
 static ExprType parse_precedence(Parser* p, Precedence prec) {
+    if (!enter_nested(p)) return TYPE_UNKNOWN;
+    
     advance(p);
     ParsePrefixFn prefix_rule = get_rule(p->previous.type)->prefix;
     if (prefix_rule == NULL) {
         parser_error(p, "Expect expression");
+        p->nesting--;
         return TYPE_UNKNOWN;
     }
 
@@ -183,6 +198,7 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
         ParseInfixFn infix_rule = get_rule(p->previous.type)->infix;
         left = infix_rule(p, left);
     }
+    p->nesting--;
     return left;
 }
 
@@ -490,39 +506,54 @@ ExprType parse_primary(Parser* p) {
 }
 
 void parse_if(Parser* p) {
-    consume(p, TOK_LPAREN, "Expect ( after if");
-    parse_expression(p);
-    consume(p, TOK_RPAREN, "Expect ) after if condition");
-    
-    size_t jump_false_loc = buf_current_offset(p->target);
-    buf_push(p->target, OP_JUMP_IF_NOT);
-    buf_push_u32(p->target, 0); // Placeholder
-    
-    parse_block(p);
-    
-    size_t jump_end_loc = buf_current_offset(p->target);
-    buf_push(p->target, OP_JUMP);
-    buf_push_u32(p->target, 0); // Placeholder
+    size_t* jump_fixups = NULL;
+    size_t jump_count = 0;
+    size_t jump_cap = 0;
     
-    // Patch jump_false
-    size_t else_start = buf_current_offset(p->target);
-    int32_t false_offset = (int32_t)(else_start - (jump_false_loc + 1 + 4));
-    buf_write_u32_at(p->target, jump_false_loc + 1, (uint32_t)false_offset);
+    if (!enter_nested(p)) return;
     
-    if (p->current.type == TOK_ELSE) {
+    // One round for each condition of an if / else if chain
+    for (;;) {
+        consume(p, TOK_LPAREN, "Expect ( after if");
+        parse_expression(p);
+        consume(p, TOK_RPAREN, "Expect ) after if condition");
+        
+        size_t jump_false_loc = buf_current_offset(p->target);
+        buf_push(p->target, OP_JUMP_IF_NOT);
+        buf_push_u32(p->target, 0); // Placeholder
+        
+        parse_block(p);
+        
+        if (jump_count >= jump_cap) {
+            jump_cap = (jump_cap == 0) ? 8 : jump_cap * 2;
+            jump_fixups = realloc(jump_fixups, jump_cap * sizeof(size_t));
+        }
+        jump_fixups[jump_count++] = buf_current_offset(p->target);
+        buf_push(p->target, OP_JUMP);
+        buf_push_u32(p->target, 0); // Placeholder
+        
+        // Patch jump_false
+        size_t else_start = buf_current_offset(p->target);
+        int32_t false_offset = (int32_t)(else_start - (jump_false_loc + 1 + 4));
+        buf_write_u32_at(p->target, jump_false_loc + 1, (uint32_t)false_offset);
+        
+        if (p->current.type != TOK_ELSE) break;
         advance(p);
-        if (p->current.type == TOK_IF) {
-            advance(p);
-            parse_if(p); // recursive else if
-        } else {
+        if (p->current.type != TOK_IF) {
             parse_block(p);
+            break;
         }
+        advance(p);
     }
     
-    // Patch jump_end
+    // Patch the jumps to the end
     size_t end_loc = buf_current_offset(p->target);
-    int32_t end_offset = (int32_t)(end_loc - (jump_end_loc + 1 + 4));
-    buf_write_u32_at(p->target, jump_end_loc + 1, (uint32_t)end_offset);
+    for (size_t i = 0; i < jump_count; i++) {
+        int32_t end_offset = (int32_t)(end_loc - (jump_fixups[i] + 1 + 4));
+        buf_write_u32_at(p->target, jump_fixups[i] + 1, (uint32_t)end_offset);
+    }
+    free(jump_fixups);
+    p->nesting--;
 }
 
 typedef struct {
@@ -531,6 +562,8 @@ typedef struct {
 } SwitchCase;
 
 void parse_switch(Parser* p) {
+    if (!enter_nested(p)) return;
+    
     consume(p, TOK_LPAREN, "Expect ( after switch");
     Token field_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect discriminator field name");
@@ -748,6 +781,7 @@ void parse_switch(Parser* p) {
     
     if(cases) free(cases);
     if(jump_fixups) free(jump_fixups);
+    p->nesting--;
 }
 
 void parse_field(Parser* p, const char* doc) {
-- 
2.43.0


From 474b9ab371ed683ec1ff4ece564b3d19191fcc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:11 +0000
Subject: [PATCH 45/60] fix: definition links are valid URIs whatever the path

---
 src/cli/cmd_lsp.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 9dd3838..e28270c 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -434,6 +434,20 @@ static char* file_uri_to_path(const char* uri) {
     return decoded;
 }
 
+static char* path_to_file_uri(const char* path) {
+    char* uri = malloc(strlen(path) * 3 + sizeof("file:///"));
+    // Handle Windows "C:\\..." -> "/C:/..."
+    char* dst = uri + sprintf(uri, (path[0] && path[1] == ':') ? "file:///" : "file://");
+    for (; *path; path++) {
+        unsigned char c = (unsigned char)*path;
+        if (c == '\\') c = '/';
+        if (isalnum(c) || strchr("/:-_.~", c)) *dst++ = (char)c;
+        else dst += sprintf(dst, "%%%02X", c);
+    }
+    *dst = '\0';
+    return uri;
+}
+
 // --- Bytecode Helpers for Completion ---
 static void add_field_item(cJSON* items, const char* field_name) {
     cJSON* other;
@@ -997,22 +1011,9 @@ static void handle_definition(cJSON* id, cJSON* params) {
         
         // Use resolved file if available, else fallback to current URI
         if (res.def_file) {
-            // Convert file path to URI
-            // Hacky: assume absolute path or simple relative?
-            // VS Code expects file:///...
-            // If def_file is "import_a.cnd" (relative), and we opened "import_b.cnd" at "/abs/path/to/import_b.cnd",
-            // the resolve_path in parser made it absolute. So res.def_file should be absolute.
-            char uri[1024];
-            // Windows path handling
-            if (res.def_file[0] && res.def_file[1] == ':') {
-                snprintf(uri, sizeof(uri), "file:///%s", res.def_file);
-            } else {
-                snprintf(uri, sizeof(uri), "file://%s", res.def_file);
-            }
-            // Normalize backslashes to slashes for URI
-            for(int i=0; uri[i]; i++) if(uri[i] == '\\') uri[i] = '/';
-            
+            char* uri = path_to_file_uri(res.def_file);
             cJSON_AddStringToObject(loc, "uri", uri);
+            free(uri);
         } else {
             cJSON_AddStringToObject(loc, "uri", doc_uri);
         }
-- 
2.43.0


From d901cacdbc45e533efcd26cf999ab8cbc07312f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:11 +0000
Subject: [PATCH 46/60] fix: the completion trigger characters are a list

---
 src/cli/cmd_lsp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index e28270c..5499a1c 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -973,7 +973,9 @@ static void handle_initialize(cJSON* id) {
     
     cJSON* comp = cJSON_CreateObject();
     cJSON_AddBoolToObject(comp, "resolveProvider", 0);
-    cJSON_AddStringToObject(comp, "triggerCharacters", "."); 
+    cJSON* triggers = cJSON_CreateArray();
+    cJSON_AddItemToArray(triggers, cJSON_CreateString("."));
+    cJSON_AddItemToObject(comp, "triggerCharacters", triggers);
     cJSON_AddItemToObject(cap, "completionProvider", comp);
     
     // Advertise text document sync (1 = Full)
-- 
2.43.0


From 08e8dba63eea94ee54ed0ec5f639d829d8ace69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:11 +0000
Subject: [PATCH 47/60] fix: messages without an identifier get no response

---
 src/cli/cmd_lsp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 5499a1c..e347964 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -104,9 +104,13 @@ next_message:;
 }
 
 static void send_response(cJSON* id, cJSON* result) {
+    if (!id) { // A notification, nobody waits for an answer
+        cJSON_Delete(result);
+        return;
+    }
     cJSON* res = cJSON_CreateObject();
     cJSON_AddStringToObject(res, "jsonrpc", "2.0");
-    if (id) cJSON_AddItemToObject(res, "id", cJSON_Duplicate(id, 1));
+    cJSON_AddItemToObject(res, "id", cJSON_Duplicate(id, 1));
     cJSON_AddItemToObject(res, "result", result);
     send_json(res);
     cJSON_Delete(res);
-- 
2.43.0


From 5b793c030a1e7c13eb71df5baa8dd384a6731001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:39 +0000
Subject: [PATCH 48/60] fix: the Go binding refuses truncated images

---
 go/concordia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/concordia.go b/go/concordia.go
index d9eda24..9db0125 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -134,7 +134,7 @@ func LoadProgram(data []byte) (*Program, error) {
 
 	// Check for IL Header: "CNDIL"
 	isIL := false
-	if len(data) >= 16 && string(data[:5]) == "CNDIL" {
+	if len(data) >= 5 && string(data[:5]) == "CNDIL" {
 		isIL = true
 	}
 
-- 
2.43.0


From 8833fc70457e2d86f5fc0f9ba18fbbeea975c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:31 +0000
Subject: [PATCH 49/60] fix: the Go binding runs empty frames

---
 go/concordia.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/concordia.go b/go/concordia.go
index 9db0125..66203a3 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -193,13 +193,15 @@ func (p *Program) GetKeyID(name string) uint16 {
 
 // Execute runs the VM with the given data
 func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
+	// An empty frame is still a frame: the VM needs a buffer, even one without bytes
 	var cData unsafe.Pointer
-	var cDataLen C.size_t
+	cDataLen := C.size_t(len(data))
 	if len(data) > 0 {
 		cData = C.CBytes(data)
-		defer C.free(cData)
-		cDataLen = C.size_t(len(data))
+	} else {
+		cData = C.malloc(1)
 	}
+	defer C.free(cData)
 
 	cCtx := (*C.cnd_vm_ctx)(C.calloc(1, C.size_t(unsafe.Sizeof(C.cnd_vm_ctx{}))))
 	if cCtx == nil {
-- 
2.43.0


From 55d16a63441be7004ef91f16eeaa3a3c4c44e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:27 +0000
Subject: [PATCH 50/60] fix: Go decoding leaves the bytes of the caller alone

---
 go/concordia.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/concordia.go b/go/concordia.go
index 66203a3..da28960 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -243,8 +243,8 @@ func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
 	// Execute
 	ret := C.cnd_execute(cCtx)
 
-	// Copy data back if needed
-	if len(data) > 0 && cData != nil {
+	// Copy the encoded frame back; decoding leaves the caller's bytes alone
+	if mode == ModeEncode && len(data) > 0 {
 		copy(data, C.GoBytes(cData, C.int(cDataLen)))
 	}
 
-- 
2.43.0


From 47c4013a8220bda9b795f2dea127cf518d5f97af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:52 +0000
Subject: [PATCH 51/60] fix: long LSP header lines do not end the headers

---
 src/cli/cmd_lsp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index e347964..d21d4b6 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -73,10 +73,14 @@ static cJSON* read_json(void) {
 next_message:;
     // Read header: "Content-Length: <N>\r\n\r\n"
     int content_len = 0;
+    int in_line = 0; // The last read did not reach the end of its line
     while (1) {
         char line[1024];
         // fgets reads until newline. In binary mode, \r\n is preserved.
         if (!fgets(line, sizeof(line), stdin)) return NULL;
+        int rest = in_line; // What follows is the rest of a long line
+        in_line = !strchr(line, '\n');
+        if (rest) continue;
         
         if (strncmp(line, "Content-Length: ", 16) == 0) {
             content_len = atoi(line + 16);
-- 
2.43.0


From 0187f8103b5271fbf6d9ce657cfa2bc25648a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:05 +0000
Subject: [PATCH 52/60] fix: a backslash separates directories on Windows only

---
 src/cli/cmd_lsp.c         | 2 ++
 src/compiler/cnd_parser.c | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index d21d4b6..b167723 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -448,7 +448,9 @@ static char* path_to_file_uri(const char* path) {
     char* dst = uri + sprintf(uri, (path[0] && path[1] == ':') ? "file:///" : "file://");
     for (; *path; path++) {
         unsigned char c = (unsigned char)*path;
+#ifdef _WIN32
         if (c == '\\') c = '/';
+#endif
         if (isalnum(c) || strchr("/:-_.~", c)) *dst++ = (char)c;
         else dst += sprintf(dst, "%%%02X", c);
     }
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 489efea..3a77a2f 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1634,9 +1634,11 @@ void parse_packet(Parser* p, const char* doc) {
 // Helper to resolve path relative to base
 char* resolve_path(const char* base, const char* rel) {
     // Find last slash in base
-    const char* last_slash = strrchr(base, '/');
-    const char* last_backslash = strrchr(base, '\\');
-    const char* slash = (last_slash > last_backslash) ? last_slash : last_backslash;
+    const char* slash = strrchr(base, '/');
+#ifdef _WIN32
+    const char* backslash = strrchr(base, '\\');
+    if (backslash > slash) slash = backslash;
+#endif
     
     size_t base_len = 0;
     if (slash) {
-- 
2.43.0


From ccf1ccc407ed8edd60d594bdb59cb9d49f776e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 53/60] fix: reject number literals that do not fit where they
 are used

Array sizes, constants, cases, checksum parameters and the like took any
literal: 4294967299 elements became 3, 1.5 became 15, -3 became 3.
---
 src/compiler/cnd_parser.c | 84 ++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 23 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 3a77a2f..a766419 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -41,13 +41,48 @@ static ExprType parse_grouping(Parser* p);
 ExprType parse_expression(Parser* p);
 
 static int is_float_literal(Token t) {
-    if (t.length > 1 && t.start[0] == '0' && (t.start[1] == 'x' || t.start[1] == 'X')) return 0; // 'e' is a hex digit
+    int sign = t.length > 0 && t.start[0] == '-';
+    if (t.length > sign + 1 && t.start[sign] == '0' && (t.start[sign + 1] == 'x' || t.start[sign + 1] == 'X')) return 0; // 'e' is a hex digit
     for (int i = 0; i < t.length; i++) {
         if (t.start[i] == '.' || t.start[i] == 'e' || t.start[i] == 'E') return 1;
     }
     return 0;
 }
 
+// True if the literal is a whole number whose magnitude is at most 'max'
+static int is_whole_number(Token t, uint64_t max) {
+    const char* s = t.start;
+    const char* end = s + t.length;
+    if (s < end && *s == '-') s++;
+    
+    uint64_t base = 10;
+    if (end - s > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
+        base = 16;
+        s += 2;
+    }
+    uint64_t val = 0;
+    for (; s < end; s++) {
+        if (*s == '.') return 0;
+        uint64_t digit = (uint64_t)hex_char_to_int(*s);
+        if (val > (max - digit) / base) return 0;
+        val = val * base + digit;
+    }
+    return 1;
+}
+
+// The value of a literal where a whole number is needed, in 64 bits
+static int64_t integer_value(Parser* p, Token num) {
+    uint64_t max = num.length > 0 && *num.start == '-' ? (uint64_t)INT64_MAX + 1 : UINT64_MAX;
+    if (num.type == TOK_NUMBER && !is_whole_number(num, max)) parser_error(p, "Expect an integer of at most 64 bits");
+    return parse_number_i64(num.start, num.length);
+}
+
+// The value of a literal where a number without sign is needed, in 32 bits
+static uint32_t unsigned_value(Parser* p, Token num) {
+    if (num.type == TOK_NUMBER && (*num.start == '-' || !is_whole_number(num, UINT32_MAX))) parser_error(p, "Expect an unsigned integer of at most 32 bits");
+    return parse_number_u32(num.start, num.length);
+}
+
 static ExprType parse_unary(Parser* p) {
     TokenType op = p->previous.type; // parse_precedence already consumed the operator
     ExprType t = parse_precedence(p, PREC_UNARY);
@@ -311,8 +346,8 @@ static int fits_type(uint8_t type_op, int64_t val) {
 }
 
 void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
-    if (!fits_type(type_op, parse_number_i64(min_tok.start, min_tok.length)) ||
-        !fits_type(type_op, parse_number_i64(max_tok.start, max_tok.length))) {
+    if (type_op != OP_IO_F32 && type_op != OP_IO_F64 &&
+        (!fits_type(type_op, integer_value(p, min_tok)) || !fits_type(type_op, integer_value(p, max_tok)))) {
         parser_error(p, "Range does not fit the type");
         return;
     }
@@ -395,7 +430,7 @@ ExprType parse_primary(Parser* p) {
             buf_push_u64(p->target, bits);
             return TYPE_FLOAT;
         } else {
-            uint64_t val = (uint64_t)parse_number_i64(p->previous.start, p->previous.length);
+            uint64_t val = (uint64_t)integer_value(p, p->previous);
             buf_push(p->target, OP_PUSH_IMM);
             buf_push_u64(p->target, val);
             return TYPE_INT;
@@ -596,7 +631,7 @@ void parse_switch(Parser* p) {
             
             uint64_t val = 0;
             if (p->current.type == TOK_NUMBER) {
-                val = (uint64_t)parse_number_i64(p->current.start, p->current.length);
+                val = (uint64_t)integer_value(p, p->current);
                 advance(p);
             } else if (p->current.type == TOK_IDENTIFIER) {
                 // Enum.Value syntax
@@ -863,10 +898,11 @@ void parse_field(Parser* p, const char* doc) {
                 advance(p);
                 Token num = p->current;
                 consume(p, TOK_NUMBER, "Expect fill bit value (0 or 1)");
-                fill_val = (uint8_t)parse_number_u32(num.start, num.length);
-                if (fill_val > 1) {
+                uint32_t fill_bit = unsigned_value(p, num);
+                if (fill_bit > 1) {
                     parser_error(p, "Fill bit must be 0 or 1");
                 }
+                fill_val = (uint8_t)fill_bit;
                 consume(p, TOK_RPAREN, "Expect )");
             }
             buf_push(p->target, OP_ALIGN_FILL);
@@ -899,17 +935,17 @@ void parse_field(Parser* p, const char* doc) {
                 } else if (p->current.type == TOK_NUMBER) {
                     Token num = p->current; 
                     advance(p);
-                    array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+                    array_fixed_count = unsigned_value(p, num); has_fixed_array_count = 1;
                 } else {
                     parser_error(p, "Expect number or variable name for count");
                 }
             } else if (match_keyword(dec_name_token, "const") || match_keyword(dec_name_token, "match")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect const/match value");
-                const_val = (uint64_t)parse_number_i64(num.start, num.length); has_const = 1;
+                const_val = (uint64_t)integer_value(p, num); has_const = 1;
             } else if (match_keyword(dec_name_token, "pad")) {
                 is_standalone_op = 1;
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect pad bits");
-                uint32_t pad_bits = parse_number_u32(num.start, num.length);
+                uint32_t pad_bits = unsigned_value(p, num);
                 if (pad_bits > 255) { parser_error(p, "Padding must be at most 255 bits"); }
                 buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
                 if (p->in_bit_mode && p->is_bit_count_valid) {
@@ -922,15 +958,15 @@ void parse_field(Parser* p, const char* doc) {
                 has_range = 1;
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
-                crc_width = parse_number_u32(num.start, num.length); has_crc = 1;
+                crc_width = unsigned_value(p, num); has_crc = 1;
                 if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
                 else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = unsigned_value(p, num);
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = unsigned_value(p, num);
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = unsigned_value(p, num);
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
                 trans_type = CND_TRANS_SCALE_F64; trans_scale = parse_number_double(num.start, num.length);
@@ -939,16 +975,16 @@ void parse_field(Parser* p, const char* doc) {
                 if (trans_type != CND_TRANS_SCALE_F64) { trans_type = CND_TRANS_SCALE_F64; trans_scale = 1.0; } trans_offset = parse_number_double(num.start, num.length);
             } else if (match_keyword(dec_name_token, "mul")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect mul value");
-                trans_type = CND_TRANS_MUL_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_MUL_I64; trans_int_val = integer_value(p, num);
             } else if (match_keyword(dec_name_token, "div")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect div value");
-                trans_type = CND_TRANS_DIV_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_DIV_I64; trans_int_val = integer_value(p, num);
             } else if (match_keyword(dec_name_token, "add")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect add value");
-                trans_type = CND_TRANS_ADD_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_ADD_I64; trans_int_val = integer_value(p, num);
             } else if (match_keyword(dec_name_token, "sub")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect sub value");
-                trans_type = CND_TRANS_SUB_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_SUB_I64; trans_int_val = integer_value(p, num);
             } else if (match_keyword(dec_name_token, "poly")) {
                 trans_type = CND_TRANS_POLY;
                 while (true) {
@@ -1037,7 +1073,7 @@ void parse_field(Parser* p, const char* doc) {
     uint8_t bit_width = 0;
     if (p->current.type == TOK_COLON) {
         advance(p); consume(p, TOK_NUMBER, "Expect bit width");
-        uint32_t width = parse_number_u32(p->previous.start, p->previous.length);
+        uint32_t width = unsigned_value(p, p->previous);
         if (width < 1 || width > 64) { parser_error(p, "Bit width must be between 1 and 64"); return; }
         bit_width = (uint8_t)width;
     }
@@ -1054,7 +1090,7 @@ void parse_field(Parser* p, const char* doc) {
         if (p->current.type == TOK_RBRACKET) { advance(p); is_variable_array = 1; } 
         else {
             Token num = p->current; consume(p, TOK_NUMBER, "Expect array size");
-            array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+            array_fixed_count = unsigned_value(p, num); has_fixed_array_count = 1;
             consume(p, TOK_RBRACKET, "Expect ]");
         }
     } else {
@@ -1087,7 +1123,7 @@ void parse_field(Parser* p, const char* doc) {
     } else if (match_keyword(type_tok, "string")) {
         if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); has_until = 1; }
         if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); 
-            uint32_t max_val = parse_number_u32(max_tok.start, max_tok.length);
+            uint32_t max_val = unsigned_value(p, max_tok);
             if (max_val > 0xFFFF) { parser_error(p, "Max string length is 65535"); }
             max_len = (uint16_t)max_val;
         }
@@ -1129,6 +1165,7 @@ void parse_field(Parser* p, const char* doc) {
         parser_error(p, "Cannot apply CRC to a const, computed, bit or array field");
     }
     if (has_crc && crc_width != 16 && crc_width != 32) { parser_error(p, "CRC width must be 16 or 32"); }
+    if (has_crc && crc_width == 16 && (crc_poly > 0xFFFF || crc_init > 0xFFFF || crc_xor > 0xFFFF)) { parser_error(p, "CRC parameter does not fit 16 bits"); }
     if (has_expr && (has_const || is_bit_field || is_array_field || match_keyword(type_tok, "string") ||
                      reg_find(&p->registry, type_tok.start, type_tok.length) ||
                      enum_reg_find(&p->enums, type_tok.start, type_tok.length))) {
@@ -1474,7 +1511,7 @@ void parse_enum(Parser* p, const char* doc) {
             advance(p);
             Token num = p->current;
             consume(p, TOK_NUMBER, "Expect enum value");
-            val = parse_number_i64(num.start, num.length);
+            val = integer_value(p, num);
         }
         
         if (!fits_type(def->underlying_type, val)) {
@@ -1745,7 +1782,8 @@ void parse_top_level(Parser* p) {
             
             if (match_keyword(dec, "version")) {
                 consume(p, TOK_LPAREN, "Expect ("); Token ver = p->current; consume(p, TOK_NUMBER, "Expect version number");
-                uint32_t v = parse_number_u32(ver.start, ver.length); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
+                uint32_t v = unsigned_value(p, ver); if (v > 255) parser_error(p, "Version must be at most 255");
+                buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
-- 
2.43.0


From 9f64585ebc209256cf9b2d81869556bcb91724e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 54/60] fix: read decimal literals of any length

Literals of 63 characters and more were taken as 0.
---
 src/compiler/cnd_utils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 4708fa3..c1fb5ee 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -405,11 +405,13 @@ int64_t parse_number_i64(const char* start, int length) {
 }
 
 double parse_number_double(const char* start, int length) {
-    char buf[64];
-    if (length >= 63) return 0.0;
+    char* buf = malloc((size_t)length + 1);
+    if (!buf) return 0.0;
     memcpy(buf, start, length);
     buf[length] = '\0';
-    return strtod(buf, NULL);
+    double val = strtod(buf, NULL);
+    free(buf);
+    return val;
 }
 
 // --- StringBuilder Implementation ---
-- 
2.43.0


From d60d0a7ec858c4778386383cbbfccbad3337c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:03 +0000
Subject: [PATCH 55/60] fix: keep the whole name of a struct field in the names
 of its members

Names of more than 255 characters were cut, so that the members of two
structs could share one key and JSON values were not found.
---
 src/cli/json_binding.c    | 8 +++-----
 src/compiler/cnd_parser.c | 8 +-------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index b5f6718..7856d32 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -87,15 +87,13 @@ static cJSON* find_member(IOCtx* io, const char* path) {
         }
     }
     
-    char part[256];
     for (;;) {
         const char* dot = strchr(path, '.');
         if (!dot) return cJSON_GetObjectItemCaseSensitive(object, path);
         size_t len = (size_t)(dot - path);
-        if (len >= sizeof(part)) return NULL;
-        memcpy(part, path, len);
-        part[len] = '\0';
-        object = cJSON_GetObjectItemCaseSensitive(object, part);
+        cJSON* item = object ? object->child : NULL;
+        while (item && !(item->string && strlen(item->string) == len && memcmp(item->string, path, len) == 0)) item = item->next;
+        object = item;
         path = dot + 1;
     }
 }
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index a766419..8f1c6b1 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1284,15 +1284,9 @@ void parse_field(Parser* p, const char* doc) {
 
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
-            // Get the field name for prefixing nested fields
-            char field_name[256];
-            int field_name_len = name_tok.length < 255 ? name_tok.length : 255;
-            memcpy(field_name, name_tok.start, field_name_len);
-            field_name[field_name_len] = '\0';
-            
             // Append struct bytecode with field names prefixed
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
-                                   field_name, field_name_len, &p->strtab);
+                                   name_tok.start, name_tok.length, &p->strtab);
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
-- 
2.43.0


From b8db2bd80b7edb23b87cbc580a914d5a54d89a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:31 +0000
Subject: [PATCH 56/60] fix: struct members take the byte order in force where
 the struct is used

A decorated field inside a struct, or an unaligned struct, went back to the
order at the struct's definition, so the fields after it were read and
written in the wrong order where the struct is used in another one.
---
 src/compiler/cnd_internal.h |  2 ++
 src/compiler/cnd_parser.c   | 41 ++++++++++++++++++++++++++++++-------
 src/compiler/cnd_utils.c    |  2 ++
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 1881475..ae872df 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -168,6 +168,7 @@ char* sb_build(StringBuilder* sb);
 typedef struct {
     char* name;
     Buffer bytecode;
+    Buffer restores; // Offsets (u32) of the ops in bytecode that return to the user's byte order
     int line;
     char* file; // File path where defined
     char* doc_comment;
@@ -252,6 +253,7 @@ typedef struct {
     int pending_le;        // Flag: Next struct is @little_endian
     int in_bit_mode;       // Flag: Currently parsing inside @unaligned_bytes struct
     int big_endian;        // Flag: Byte order in force for fields without a decorator
+    Buffer* restores;      // In a struct, whose user decides the byte order: StructDef.restores
     
     // Bit Tracking for Validation
     int current_bit_count; // Bits consumed in current struct
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8f1c6b1..de1bb85 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -819,6 +819,24 @@ void parse_switch(Parser* p) {
     p->nesting--;
 }
 
+// Return to the byte order of fields without a decorator. In a struct that is
+// the order where the struct is used, see use_byte_order.
+static void emit_restore_byte_order(Parser* p) {
+    if (p->restores) { buf_push_u32(p->restores, (uint32_t)buf_current_offset(p->target)); }
+    buf_push(p->target, p->big_endian ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
+}
+
+// Set the byte order in the code of a struct that was inlined at offset loc.
+// If it is not known yet, it is set where the struct that contains it is used.
+static void use_byte_order(Parser* p, StructDef* sdef, size_t loc, int big_endian, int known) {
+    for (size_t i = 0; i + 4 <= sdef->restores.size; i += 4) {
+        uint8_t* r = sdef->restores.data + i;
+        size_t at = loc + (r[0] | (size_t)r[1] << 8 | (size_t)r[2] << 16 | (size_t)r[3] << 24);
+        buf_write_u8_at(p->target, at, big_endian ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
+        if (p->restores && !known) { buf_push_u32(p->restores, (uint32_t)at); }
+    }
+}
+
 void parse_field(Parser* p, const char* doc) {
     (void)doc;
     if (p->had_error) return;
@@ -846,6 +864,7 @@ void parse_field(Parser* p, const char* doc) {
     uint64_t const_val = 0;
     int has_const = 0;
     int is_big_endian_field = p->big_endian;
+    int has_byte_order = 0;
     int is_standalone_op = 0;
     
     int has_range = 0;
@@ -888,9 +907,9 @@ void parse_field(Parser* p, const char* doc) {
         consume(p, TOK_IDENTIFIER, "Expect decorator name");
         
         if (match_keyword(dec_name_token, "big_endian") || match_keyword(dec_name_token, "be")) {
-            is_big_endian_field = 1;
+            is_big_endian_field = 1; has_byte_order = 1;
         } else if (match_keyword(dec_name_token, "little_endian") || match_keyword(dec_name_token, "le")) {
-             is_big_endian_field = 0;
+             is_big_endian_field = 0; has_byte_order = 1;
         } else if (match_keyword(dec_name_token, "fill")) {
             is_standalone_op = 1;
             uint8_t fill_val = 0;
@@ -1136,7 +1155,8 @@ void parse_field(Parser* p, const char* doc) {
     }
 
     // The decorator changes the byte order of this field only
-    if (is_big_endian_field != p->big_endian) {
+    int set_byte_order = is_big_endian_field != p->big_endian || (has_byte_order && p->restores);
+    if (set_byte_order) {
         buf_push(p->target, is_big_endian_field ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
     }
 
@@ -1285,8 +1305,10 @@ void parse_field(Parser* p, const char* doc) {
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
             // Append struct bytecode with field names prefixed
+            size_t struct_loc = buf_current_offset(p->target);
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
                                    name_tok.start, name_tok.length, &p->strtab);
+            use_byte_order(p, sdef, struct_loc, is_big_endian_field, has_byte_order);
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
@@ -1414,9 +1436,7 @@ void parse_field(Parser* p, const char* doc) {
 
     consume(p, TOK_SEMICOLON, "Expect ; after field");
 
-    if (is_big_endian_field != p->big_endian) {
-        buf_push(p->target, p->big_endian ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
-    }
+    if (set_byte_order) { emit_restore_byte_order(p); }
 }
 
 void parse_block(Parser* p) {
@@ -1571,11 +1591,13 @@ void parse_struct(Parser* p, const char* doc) {
     int prev_bit_count = p->current_bit_count;
     int prev_bit_valid = p->is_bit_count_valid;
     int prev_big_endian = p->big_endian;
+    p->restores = &def->restores;
 
     if (p->pending_unaligned) {
         buf_push(p->target, OP_ENTER_BIT_MODE);
         buf_push(p->target, OP_SET_ENDIAN_BE);
         p->big_endian = 1;
+        p->restores = NULL;
         p->in_bit_mode = 1;
         p->pending_unaligned = 0;
         p->current_bit_count = 0;
@@ -1599,10 +1621,13 @@ void parse_struct(Parser* p, const char* doc) {
         }
         buf_push(p->target, OP_EXIT_BIT_MODE);
         // The fields after the struct keep the byte order they had before it
-        if (!prev_big_endian) buf_push(p->target, OP_SET_ENDIAN_LE);
+        p->big_endian = prev_big_endian;
+        p->restores = &def->restores;
+        emit_restore_byte_order(p);
         p->in_bit_mode = 0;
     }
     p->big_endian = prev_big_endian;
+    p->restores = NULL;
     p->in_bit_mode = was_in_bit_mode;
     p->current_bit_count = prev_bit_count;
     p->is_bit_count_valid = prev_bit_valid;
@@ -1647,7 +1672,9 @@ void parse_packet(Parser* p, const char* doc) {
             parser_error(p, "Struct not found");
         } else {
             // Inline the struct's bytecode
+            size_t struct_loc = buf_current_offset(p->target);
             buf_append(p->target, sdef->bytecode.data, sdef->bytecode.size);
+            use_byte_order(p, sdef, struct_loc, p->big_endian, 1);
         }
     } else {
         strtab_init(&p->current_struct_fields);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index c1fb5ee..ba4af94 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -264,6 +264,7 @@ void reg_free(StructRegistry* r) {
         if (r->defs[i].file) free(r->defs[i].file);
         if (r->defs[i].doc_comment) free(r->defs[i].doc_comment);
         buf_free(&r->defs[i].bytecode);
+        buf_free(&r->defs[i].restores);
     }
     free(r->defs);
     r->count = 0;
@@ -284,6 +285,7 @@ StructDef* reg_add(StructRegistry* r, const char* name, int len, int line, const
     def->file = file ? strdup(file) : NULL;
     def->doc_comment = doc ? strdup(doc) : NULL;
     buf_init(&def->bytecode);
+    buf_init(&def->restores);
     return def;
 }
 
-- 
2.43.0


From 74ea7cb33e355d25c439c5726b1b2113c39d7d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:01 +0000
Subject: [PATCH 57/60] fix: expressions know the types of the fields they use

Two float fields were added, compared and negated as integers, an integer
field next to a float or in a math function was taken for the bits of a
double, and results were not converted to the type of the computed field
(a bool became the low byte of the value).
---
 src/compiler/cnd_internal.h |  9 +++++
 src/compiler/cnd_parser.c   | 65 ++++++++++++++++++++++++++++++++++---
 src/compiler/cnd_utils.c    | 11 +++++++
 3 files changed, 80 insertions(+), 5 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index ae872df..c6c6886 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -140,6 +140,7 @@ typedef struct {
 void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
+int strtab_has(const StringTable* t, const char* start, int len);
 
 // Replace every key ID in the bytecode by map(key)
 typedef uint16_t (*KeyMapFn)(uint16_t key, void* user);
@@ -165,8 +166,15 @@ void sb_reset(StringBuilder* sb);
 char* sb_build(StringBuilder* sb);
 
 // --- Utils: Registry ---
+// Names of the fields that hold one integer (or bool) or one float, members of struct fields included
+typedef struct {
+    StringTable ints;
+    StringTable floats;
+} FieldTypes;
+
 typedef struct {
     char* name;
+    FieldTypes types;
     Buffer bytecode;
     Buffer restores; // Offsets (u32) of the ops in bytecode that return to the user's byte order
     int line;
@@ -237,6 +245,7 @@ typedef struct {
     
     // Field tracking for collision detection
     StringTable current_struct_fields;
+    FieldTypes* types; // Types of the fields so far in the current struct or packet
 
     int had_error;
     int error_count; // Total number of errors encountered
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index de1bb85..1f4a56a 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -420,6 +420,31 @@ void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok)
 void parse_field(Parser* p, const char* doc); // Forward declaration
 void parse_block(Parser* p); // Forward declaration
 
+// Type of a field in expressions, unknown for anything but a single number defined before
+static ExprType field_type(Parser* p, const char* name, int len) {
+    if (p->types && strtab_has(&p->types->floats, name, len)) return TYPE_FLOAT;
+    if (p->types && strtab_has(&p->types->ints, name, len)) return TYPE_INT;
+    return TYPE_UNKNOWN;
+}
+
+static void add_field_type(Parser* p, Token name, uint8_t op) {
+    if (!p->types) return;
+    strtab_add(op == OP_IO_F32 || op == OP_IO_F64 ? &p->types->floats : &p->types->ints, name.start, name.length);
+}
+
+// Add the members of a struct field as "field.member"
+static void add_member_types(StringTable* to, const StringTable* members, Token field) {
+    for (size_t i = 0; i < members->count; i++) {
+        StringBuilder name;
+        sb_init(&name);
+        sb_append_n(&name, field.start, field.length);
+        sb_append_c(&name, '.');
+        sb_append(&name, members->strings[i]);
+        strtab_add(to, name.data, (int)name.length);
+        sb_free(&name);
+    }
+}
+
 // Expression Parsing
 ExprType parse_primary(Parser* p) {
     if (p->previous.type == TOK_NUMBER) {
@@ -495,13 +520,13 @@ ExprType parse_primary(Parser* p) {
             return TYPE_FLOAT;
         } else if (match_keyword(name, "float")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            // A field's type is not known here, it is taken as an integer
+            // What is not known is taken as an integer
             if (parse_expression(p) != TYPE_FLOAT) buf_push(p->target, OP_ITOF);
             consume(p, TOK_RPAREN, "Expect )");
             return TYPE_FLOAT;
         } else if (match_keyword(name, "int")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            // A field's type is not known here, it is taken as a float
+            // What is not known is taken as a float
             if (parse_expression(p) != TYPE_INT) buf_push(p->target, OP_FTOI);
             consume(p, TOK_RPAREN, "Expect )");
             return TYPE_INT;
@@ -528,13 +553,13 @@ ExprType parse_primary(Parser* p) {
                 uint16_t key_id = strtab_add(&p->strtab, full_name, len);
                 buf_push(p->target, OP_LOAD_CTX);
                 buf_push_u16(p->target, key_id);
-                return TYPE_UNKNOWN;
+                return field_type(p, full_name, len);
             }
 
             uint16_t key_id = strtab_add(&p->strtab, name.start, name.length);
             buf_push(p->target, OP_LOAD_CTX);
             buf_push_u16(p->target, key_id);
-            return TYPE_UNKNOWN;
+            return field_type(p, name.start, name.length);
         }
     }
     return TYPE_UNKNOWN;
@@ -891,6 +916,7 @@ void parse_field(Parser* p, const char* doc) {
     uint8_t crc_flags = 0;
 
     int has_expr = 0;
+    ExprType expr_type = TYPE_UNKNOWN;
     int has_eof = 0;
     int has_count_ref = 0;
     uint16_t count_ref_id = 0;
@@ -1050,7 +1076,7 @@ void parse_field(Parser* p, const char* doc) {
                     }
                 }
             } else if (match_keyword(dec_name_token, "expr")) {
-                parse_expression(p);
+                expr_type = parse_expression(p);
                 has_expr = 1;
             } else { 
                 parser_error(p, "Unknown decorator");
@@ -1309,6 +1335,10 @@ void parse_field(Parser* p, const char* doc) {
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
                                    name_tok.start, name_tok.length, &p->strtab);
             use_byte_order(p, sdef, struct_loc, is_big_endian_field, has_byte_order);
+            if (p->types && !is_array_field) {
+                add_member_types(&p->types->ints, &sdef->types.ints, name_tok);
+                add_member_types(&p->types->floats, &sdef->types.floats, name_tok);
+            }
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
@@ -1317,6 +1347,7 @@ void parse_field(Parser* p, const char* doc) {
             if (bit_width > 0) { parser_error(p, "Bitfields not supported for enum fields"); }
             
             buf_push(p->target, edef->underlying_type); buf_push_u16(p->target, key_id);
+            if (!is_array_field) { add_field_type(p, name_tok, edef->underlying_type); }
             
             // Emit Enum Validation
             buf_push(p->target, OP_ENUM_CHECK);
@@ -1380,6 +1411,7 @@ void parse_field(Parser* p, const char* doc) {
                  
                  buf_push(p->target, op); buf_push_u16(p->target, key_id);
                  if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width); // A bool is always one bit
+                 if (!is_array_field) { add_field_type(p, name_tok, op); }
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      p->current_bit_count += bit_width;
@@ -1420,12 +1452,26 @@ void parse_field(Parser* p, const char* doc) {
                          buf_push(p->target, crc_flags);
                      }
                 } else if (has_expr) {
+                    // Convert the result to the type of the field, true is any value but 0
+                    int is_float = op == OP_IO_F32 || op == OP_IO_F64;
+                    if (is_bool && expr_type == TYPE_FLOAT) {
+                        buf_push(p->target, OP_PUSH_IMM); buf_push_u64(p->target, 0);
+                        buf_push(p->target, OP_NEQ_F);
+                    } else if (is_bool) {
+                        buf_push(p->target, OP_LOG_NOT); buf_push(p->target, OP_LOG_NOT);
+                    } else if (is_float && expr_type == TYPE_INT) {
+                        buf_push(p->target, OP_ITOF);
+                    } else if (!is_float && expr_type == TYPE_FLOAT) {
+                        buf_push(p->target, OP_FTOI);
+                    }
                     buf_push(p->target, OP_DUP);
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
+                    add_field_type(p, name_tok, op);
                     if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 } else {
                     buf_push(p->target, op); buf_push_u16(p->target, key_id);
+                    if (!is_array_field && trans_type == CND_TRANS_NONE) { add_field_type(p, name_tok, op); }
                     if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 }
             }
@@ -1592,6 +1638,7 @@ void parse_struct(Parser* p, const char* doc) {
     int prev_bit_valid = p->is_bit_count_valid;
     int prev_big_endian = p->big_endian;
     p->restores = &def->restores;
+    p->types = &def->types;
 
     if (p->pending_unaligned) {
         buf_push(p->target, OP_ENTER_BIT_MODE);
@@ -1628,6 +1675,7 @@ void parse_struct(Parser* p, const char* doc) {
     }
     p->big_endian = prev_big_endian;
     p->restores = NULL;
+    p->types = NULL;
     p->in_bit_mode = was_in_bit_mode;
     p->current_bit_count = prev_bit_count;
     p->is_bit_count_valid = prev_bit_valid;
@@ -1677,9 +1725,16 @@ void parse_packet(Parser* p, const char* doc) {
             use_byte_order(p, sdef, struct_loc, p->big_endian, 1);
         }
     } else {
+        FieldTypes types;
+        strtab_init(&types.ints);
+        strtab_init(&types.floats);
+        p->types = &types;
         strtab_init(&p->current_struct_fields);
         parse_block(p);
         strtab_free(&p->current_struct_fields);
+        p->types = NULL;
+        strtab_free(&types.ints);
+        strtab_free(&types.floats);
     }
     
     // Add name to string table AFTER fields, so fields get lower IDs (preserving compatibility/tests)
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index ba4af94..dc3591c 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -223,6 +223,13 @@ void strtab_init(StringTable* t) {
     t->strings = malloc(t->capacity * sizeof(char*));
 }
 
+int strtab_has(const StringTable* t, const char* start, int len) {
+    for (size_t i = 0; i < t->count; i++) {
+        if (strlen(t->strings[i]) == (size_t)len && strncmp(t->strings[i], start, len) == 0) return 1;
+    }
+    return 0;
+}
+
 uint16_t strtab_add(StringTable* t, const char* start, int len) {
     for (size_t i = 0; i < t->count; i++) {
         if (strlen(t->strings[i]) == (size_t)len && strncmp(t->strings[i], start, len) == 0) {
@@ -263,6 +270,8 @@ void reg_free(StructRegistry* r) {
         free(r->defs[i].name);
         if (r->defs[i].file) free(r->defs[i].file);
         if (r->defs[i].doc_comment) free(r->defs[i].doc_comment);
+        strtab_free(&r->defs[i].types.ints);
+        strtab_free(&r->defs[i].types.floats);
         buf_free(&r->defs[i].bytecode);
         buf_free(&r->defs[i].restores);
     }
@@ -284,6 +293,8 @@ StructDef* reg_add(StructRegistry* r, const char* name, int len, int line, const
     def->line = line;
     def->file = file ? strdup(file) : NULL;
     def->doc_comment = doc ? strdup(doc) : NULL;
+    strtab_init(&def->types.ints);
+    strtab_init(&def->types.floats);
     buf_init(&def->bytecode);
     buf_init(&def->restores);
     return def;
-- 
2.43.0


From a9eea0d9e89a0afaa864d42b203796334f5a225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:32 +0000
Subject: [PATCH 58/60] fix: report arrays without a length and counts without
 an array

'u8 x[];' compiled to a single value and '@count(3) u8 x;' or '@eof u8 x;'
dropped the count.
---
 src/compiler/cnd_parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 1f4a56a..e489965 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1180,6 +1180,13 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
+    if (is_array_field && arr_prefix_op == OP_NOOP && !has_eof && !has_count_ref && !has_fixed_array_count) {
+        parser_error(p, "Array has no length: expect a number, 'prefix', '@count' or '@eof'");
+    }
+    if (!is_array_field && (has_eof || has_count_ref || has_fixed_array_count)) {
+        parser_error(p, "Only arrays can have a count or '@eof'");
+    }
+
     // The decorator changes the byte order of this field only
     int set_byte_order = is_big_endian_field != p->big_endian || (has_byte_order && p->restores);
     if (set_byte_order) {
-- 
2.43.0


From 9ba3a9ecdd49381a662a91b17cc8502f1ebeadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:41 +0000
Subject: [PATCH 59/60] fix: compile --json escapes paths, messages and tokens

A token holding a quote or a line break, or such a path, made the output
no JSON.
---
 src/compiler/cnd_internal.h |  3 +++
 src/compiler/cnd_parser.c   |  9 +++++++--
 src/compiler/cnd_utils.c    | 10 ++++++++++
 src/compiler/cndc.c         | 28 ++++++++++++++++++++--------
 4 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index c6c6886..675b7d4 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -161,6 +161,9 @@ void sb_init(StringBuilder* sb);
 void sb_free(StringBuilder* sb);
 void sb_append(StringBuilder* sb, const char* str);
 void sb_append_n(StringBuilder* sb, const char* str, size_t len);
+
+// Prints the text as a JSON string, quotes included
+void print_json_string(const char* str, size_t len);
 void sb_append_c(StringBuilder* sb, char c);
 void sb_reset(StringBuilder* sb);
 char* sb_build(StringBuilder* sb);
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index e489965..8be761c 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -273,8 +273,13 @@ void parser_error(Parser* p, const char* msg) {
     if (p->json_output) {
         // JSON format: {"file": "...", "line": N, "message": "...", "token": "..."}
         // We use manual JSON construction to avoid dependency on cJSON in the compiler core
-        printf("{\"file\": \"%s\", \"line\": %d, \"message\": \"%s\", \"token\": \"%.*s\"}\n",
-            p->current_path, p->current.line, msg, p->current.length, p->current.start);
+        printf("{\"file\": ");
+        print_json_string(p->current_path, strlen(p->current_path));
+        printf(", \"line\": %d, \"message\": ", p->current.line);
+        print_json_string(msg, strlen(msg));
+        printf(", \"token\": ");
+        print_json_string(p->current.start, (size_t)p->current.length);
+        printf("}\n");
     } else {
         // Standard error format: file:line:col: error: message
         // With colors: Bold File, Red Error
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index dc3591c..4235403 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -484,3 +484,13 @@ char* sb_build(StringBuilder* sb) {
     return str;
 }
 
+void print_json_string(const char* str, size_t len) {
+    putchar('"');
+    for (size_t i = 0; i < len; i++) {
+        unsigned char c = (unsigned char)str[i];
+        if (c == '"' || c == '\\') printf("\\%c", c);
+        else if (c < 0x20) printf("\\u%04x", c);
+        else putchar(c);
+    }
+    putchar('"');
+}
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index f6e3fa4..0d0107a 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -79,6 +79,17 @@ static int write_image(Parser* p, FILE* out) {
     return ok;
 }
 
+static void print_json_error(const char* head, const char* what, const char* path) {
+    StringBuilder msg;
+    sb_init(&msg);
+    sb_append_n(&msg, what, strlen(what));
+    sb_append_n(&msg, path, strlen(path));
+    printf("%s", head);
+    print_json_string(msg.data, msg.length);
+    printf("}\n");
+    sb_free(&msg);
+}
+
 // Implementation of cnd_compile_file using the new modular structure
 int cnd_compile_file(const char* in_path, const char* out_path, int json_output, int verbose) {
     setbuf(stdout, NULL); // Ensure debug prints are flushed immediately
@@ -87,7 +98,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
 
     FILE* f = fopen(open_path, "rb");
     if (!f) { 
-        if (json_output) printf("{\"error\": \"Error opening input file: %s\"}\n", open_path);
+        if (json_output) print_json_error("{\"error\": ", "Error opening input file: ", open_path);
         else printf("Error opening input file: %s\n", open_path);
         if (canonical_in_path) free(canonical_in_path);
         return 1; 
@@ -95,7 +106,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     char* source = cnd_read_all(f);
     fclose(f);
     if (!source) {
-        if (json_output) printf("{\"error\": \"Error reading input file: %s\"}\n", open_path);
+        if (json_output) print_json_error("{\"error\": ", "Error reading input file: ", open_path);
         else printf("Error reading input file: %s\n", open_path);
         if (canonical_in_path) free(canonical_in_path);
         return 1;
@@ -132,19 +143,20 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
 
         FILE* out = fopen(out_path, "wb");
         if (!out) { 
-            if (json_output) printf("{\"status\": \"error\", \"message\": \"Error opening output file: %s\"}\n", out_path);
+            if (json_output) print_json_error("{\"status\": \"error\", \"message\": ", "Error opening output file: ", out_path);
             else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error opening output file: %s\n", out_path); 
             ret = 1; 
         } else {
             if (!write_image(&p, out)) {
-                if (json_output) printf("{\"status\": \"error\", \"message\": \"Error writing output file: %s\"}\n", out_path);
+                if (json_output) print_json_error("{\"status\": \"error\", \"message\": ", "Error writing output file: ", out_path);
                 else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error writing output file: %s\n", out_path);
                 ret = 1;
             } else if (json_output) {
-                // Escape paths for JSON (simple check)
-                // For now assuming paths don't have crazy characters, but in production should be escaped properly
-                printf("{\"status\": \"success\", \"input\": \"%s\", \"output\": \"%s\", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n",
-                    in_path, out_path, p.strtab.count, p.global_bc.size);
+                printf("{\"status\": \"success\", \"input\": ");
+                print_json_string(in_path, strlen(in_path));
+                printf(", \"output\": ");
+                print_json_string(out_path, strlen(out_path));
+                printf(", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n", p.strtab.count, p.global_bc.size);
             } else {
                 printf(COLOR_BOLD COLOR_GREEN "[SUCCESS]" COLOR_RESET " Compiled " COLOR_CYAN "%s" COLOR_RESET "\n", in_path);
                 printf("  " COLOR_BOLD "Output:" COLOR_RESET "   %s\n", out_path);
-- 
2.43.0


From 5d7967638a0ca1c1e8ff6472a5c1179e1438cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:04 +0000
Subject: [PATCH 60/60] fix: report a struct or enum that takes the packet's
 name

Only the other order, the packet after the struct, was reported.
---
 src/compiler/cnd_internal.h |  1 +
 src/compiler/cnd_parser.c   | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 675b7d4..7f31157 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -256,6 +256,7 @@ typedef struct {
     int silent;      // Flag to suppress all output (for LSP)
     int verbose;     // Flag for verbose debug output
     int packet_count; // Track number of packets defined
+    uint16_t packet_key; // Name of the packet, if there is one
     int import_depth; // Track recursion depth of imports
     int nesting;      // Track recursion depth of expressions, ifs and switches
     
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8be761c..4240453 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1519,6 +1519,13 @@ void parse_block(Parser* p) {
     sb_free(&doc_sb);
 }
 
+// True if the packet is defined already, under this name
+static int is_packet_name(Parser* p, Token name) {
+    if (p->packet_count == 0) return 0;
+    const char* packet = p->strtab.strings[p->packet_key];
+    return strlen(packet) == (size_t)name.length && strncmp(packet, name.start, name.length) == 0;
+}
+
 void parse_enum(Parser* p, const char* doc) {
     Token name = p->current; consume(p, TOK_IDENTIFIER, "Expect enum name");
     
@@ -1529,6 +1536,9 @@ void parse_enum(Parser* p, const char* doc) {
     if (reg_find(&p->registry, name.start, name.length)) {
         parser_error(p, "Name collision with Struct");
     }
+    if (is_packet_name(p, name)) {
+        parser_error(p, "Name collision with Packet");
+    }
 
     if (p->verbose) printf("[VERBOSE] Parsing enum '%.*s'\n", name.length, name.start);
     EnumDef* def = enum_reg_add(&p->enums, name.start, name.length, name.line, p->current_path, doc);
@@ -1631,6 +1641,9 @@ void parse_struct(Parser* p, const char* doc) {
     if (enum_reg_find(&p->enums, name.start, name.length)) {
         parser_error(p, "Name collision with Enum");
     }
+    if (is_packet_name(p, name)) {
+        parser_error(p, "Name collision with Packet");
+    }
 
     if (p->verbose) printf("[VERBOSE] Parsing struct '%.*s'\n", name.length, name.start);
     StructDef* def = reg_add(&p->registry, name.start, name.length, name.line, p->current_path, doc);
@@ -1754,6 +1767,7 @@ void parse_packet(Parser* p, const char* doc) {
     
     // Patch the key
     buf_write_u16_at(p->target, meta_loc + 1, key_id);
+    p->packet_key = key_id;
 }
 
 // Helper to resolve path relative to base
-- 
2.43.0

