from plant import plant
VM='src/vm/vm_exec.c'; VI='src/vm/vm_internal.h'; PA='src/compiler/cnd_parser.c'; CC='src/compiler/cndc.c'; H='include/concordia.h'
plant('c01-prefix-endian','C01',[(VM,'HANDLE_STRING_PRE(4, uint32_t, read_u32(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u32(ctx->data_buffer + ctx->cursor, len_val, ctx->endianness));','HANDLE_STRING_PRE(4, uint32_t, read_u32(ctx->data_buffer + ctx->cursor, CND_LE), write_u32(ctx->data_buffer + ctx->cursor, len_val, CND_LE));')],
'''c '@big_endian packet P { string s prefix u32; u8 t; }'
r enc "$W/s.il" 32 s=abc t=7
want 's?
t?
rc 0 at 8
0000000361626307\'\n''','a string with a 32-bit length prefix in a big-endian schema','length prefix is written (and read) little-endian, so frames differ from the documented layout although both ends of this code agree')
plant('c01-stale-fill','C01',[(VM,'''                    if (ctx->mode == CND_MODE_ENCODE) {
                        write_bits(ctx, fill_val, bits_needed);
                    } else {''','''                    if (ctx->mode == CND_MODE_ENCODE && fill_val != 0) {
                        write_bits(ctx, fill_val, bits_needed);
                    } else {''')],
'''c 'packet P { u8 a:3; @fill(0); u8 b; }'
r enc "$W/s.il" 8 a=5 b=1
want 'a?
b?
rc 0 at 2
0501'
''','a reused buffer and a fill with zero bits','the filled bits keep what the buffer held before')
plant('c02-loop-reset','C02',[(VM,'''    ctx->mode = mode;
    ctx->program = program;''','''    // A context that ran this program before has its loops unwound already
    if (ctx->program != program || ctx->mode != mode) ctx->loop_depth = 0;
    ctx->mode = mode;
    ctx->program = program;'''),(VM,'''    ctx->loop_depth = 0;
    ctx->expr_sp = 0;''','''    ctx->expr_sp = 0;''')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <string.h>
static int fail; static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; (void)p; if (t == OP_RAW_BYTES) return CND_ERR_CALLBACK; if (fail && t == OP_IO_U16) return CND_ERR_CALLBACK; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); cnd_program p; if (cnd_program_load_il(&p, img, n)) return 2;
 cnd_vm_ctx x; memset(&x, 0, sizeof x); unsigned char b[9] = {4, 1, 0, 2, 0, 3, 0, 4, 0}; (void)c;
 for (int i = 0; i < 40; i++) { fail = 1; cnd_init(&x, CND_MODE_DECODE, &p, b, sizeof b, cb, 0); if (cnd_execute(&x) != CND_ERR_CALLBACK) { printf("round %d bad\\n", i); return 1; }
  fail = 0; cnd_init(&x, CND_MODE_DECODE, &p, b, sizeof b, cb, 0); int e = cnd_execute(&x); if (e) { printf("good frame refused with %d after %d failures\\n", e, i + 1); return 1; } } return 0; }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u16 a[] prefix u8; }'
"$W/t" "$W/s.il"''','a context memory reused for the same program after as many failed decodes inside an array as loops may nest','the receiver refuses intact frames after a history of failed decodes')
plant('c03-crc16-long','C03',[(VM,'uint32_t crc = calc_crc(ctx->data_buffer, ctx->cursor, poly, init, xorout, flags, 16);','uint32_t crc = calc_crc(ctx->data_buffer, (uint8_t)ctx->cursor, poly, init, xorout, flags, 16);')],
'''c 'packet P { u16 a[200]; @crc(16) u16 k; }'
V=$(seq -s, 1 200)
r enc "$W/s.il" 500 a=$V; F=$(tail -1 "$W/out"); [ ${#F} = 804 ] || exit 1
B=${F:0:700}ff${F:702}; [ "$B" != "$F" ] || B=${F:0:700}00${F:702}
r dec "$W/s.il" $B; tail -1 "$W/out"; grep -q 'rc 7' "$W/out"''','a frame of more than 255 bytes with a 16-bit checksum','damage outside the part the checksum covers is accepted')
plant('c03-bool-order','C03',[(VM,'''                    val = read_u8(ctx->data_buffer + ctx->cursor);
                    if (val > 1) return CND_ERR_VALIDATION;
                    SYNC_IP();
                    if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
''','''                    val = read_u8(ctx->data_buffer + ctx->cursor);
                    SYNC_IP();
                    if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
                    if (val > 1) return CND_ERR_VALIDATION;
''')],
'''c 'packet P { u8 a; bool b; }'
r dec "$W/s.il" 0502
want 'a=5
rc 3 at 1\'\n''','a frame whose boolean byte is neither 0 nor 1','the illegal value is handed to the host before the frame is refused')
plant('c04-string-nul','C04',[(VM,'if (ctx->cursor + len + 1 > ctx->data_len) return CND_ERR_OOB;','if (ctx->cursor + len > ctx->data_len) return CND_ERR_OOB;')],
'''c 'packet P { u8 a; string s max 30; }'
r enc "$W/s.il" 5 a=1 s=abcd
want 'a?
s?
rc 1 at 1
01\'\n''','a null-terminated string that fills the buffer exactly','the terminator is written one byte behind the buffer')
plant('c05-array-end','C05',[(VM,'''                    if (ctx->io_callback(ctx, 0, OP_ARR_END, NULL) != CND_ERR_OK) return CND_ERR_CALLBACK;
                    loop_pop(ctx);''','''                    ctx->io_callback(ctx, 0, OP_ARR_END, NULL);
                    loop_pop(ctx);''')],
'''c 'packet P { u16 a[] prefix u8; u8 t; }'
r dec "$W/s.il" 010200ff fail=2
want 'a [1
a=2
?:3f fails
rc 4 at 3\'\n''' if 0 else '''c 'packet P { u16 a[] prefix u8; u8 t; }'
r dec "$W/s.il" 010200ff fail=2
grep -q 'rc 4' "$W/out" && ! grep -q 't=' "$W/out"''','a callback failure at the end event of an array','the failure is ignored and the run continues')
plant('c06-static-switch','C06',[(VM,'''                uint16_t count = read_il_u16(ctx);
                int32_t default_off = (int32_t)read_il_u32(ctx);
                
                uint64_t disc_val = 0;''','''                uint16_t count = read_il_u16(ctx);
                int32_t default_off = (int32_t)read_il_u32(ctx);
                
                static uint64_t disc_val;
                disc_val = 0;''')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <string.h>
static cnd_program p; static unsigned char b[2] = {1, 9}; static char log1[64]; static int nested;
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* q) { const char* n = cnd_get_key_name(&p, k); uint64_t kind = *(uint64_t*)c->user_ptr;
 if (t == OP_CTX_QUERY) { *(uint64_t*)q = kind; if (kind == 1 && !nested) { nested = 1; static uint64_t two = 2; cnd_vm_ctx y; unsigned char d[2] = {2, 8}; cnd_init(&y, CND_MODE_DECODE, &p, d, 2, cb, &two); cnd_execute(&y); } return CND_ERR_OK; }
 if (kind == 1) strcat(log1, n); return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); if (cnd_program_load_il(&p, img, n)) return 2; (void)c;
 static uint64_t one = 1; cnd_vm_ctx x; cnd_init(&x, CND_MODE_DECODE, &p, b, 2, cb, &one); int e = cnd_execute(&x); printf("%d %s\\n", e, log1); return e || strcmp(log1, "kx"); }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u8 k; switch (k) { case 1: u8 x; case 2: u8 y; } }'
"$W/t" "$W/s.il"''','two contexts inside a switch at the same time (a run started from a callback, or threads)','one context takes the case the other one selected')
plant('c06-crc-table','C06',[(VM,'''    uint32_t mask = (width == 32) ? 0xFFFFFFFF : 0xFFFF;

    for (size_t i = 0; i < len; i++) {''','''    uint32_t mask = (width == 32) ? 0xFFFFFFFF : 0xFFFF;

    if (width == 16) {
        // Table of the last polynomial used
        static uint32_t table[256];
        static uint32_t table_poly = 0xFFFFFFFF;
        if (table_poly != poly) {
            table_poly = poly;
            for (uint32_t n = 0; n < 256; n++) {
                uint32_t c = n << 8;
                for (int j = 0; j < 8; j++) c = (c & 0x8000) ? ((c << 1) ^ poly) & 0xFFFF : (c << 1) & 0xFFFF;
                table[n] = c;
            }
        }
        for (size_t i = 0; i < len; i++) {
            uint8_t octet = refin ? (uint8_t)reflect(data[i], 8) : data[i];
            crc = ((crc << 8) & 0xFFFF) ^ table[((crc >> 8) ^ octet) & 0xFF];
        }
        if (refout) crc = reflect(crc, 16);
        return (crc ^ xorout) & mask;
    }

    for (size_t i = 0; i < len; i++) {'''),(VM,'''        if (width == 16) {
            crc ^= (uint16_t)(octet << 8);
            for (int j = 0; j < 8; j++) {
                if (crc & 0x8000) crc = ((crc << 1) ^ poly) & 0xFFFF;
                else crc = (crc << 1) & 0xFFFF;
            }
        } else { // 32
            crc''','''        { // 32
            crc''')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <string.h>
#include <pthread.h>
static cnd_program p[2]; static unsigned char img[2][4096]; static volatile int bad;
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* q) { (void)c; (void)k; (void)t; *(uint8_t*)q = 0x5a; return CND_ERR_OK; }
static void* go(void* a) { int w = *(int*)a; unsigned char first[3], b[3]; cnd_vm_ctx x; for (int i = 0; i < 300000 && !bad; i++) { memset(b, 0, 3); cnd_init(&x, CND_MODE_ENCODE, &p[w], b, 3, cb, 0); if (cnd_execute(&x)) bad = 1; if (!i) memcpy(first, b, 3); else if (memcmp(first, b, 3)) bad = 1; } return 0; }
int main(int c, char** v) { (void)c; for (int i = 0; i < 2; i++) { FILE* f = fopen(v[1 + i], "rb"); size_t n = fread(img[i], 1, 4096, f); if (cnd_program_load_il(&p[i], img[i], n)) return 2; }
 for (int k = 0; k < 5 && !bad; k++) { pthread_t t[6]; static int w[2] = {0, 1}; for (int i = 0; i < 6; i++) pthread_create(&t[i], 0, go, &w[i & 1]); for (int i = 0; i < 6; i++) pthread_join(t[i], 0); } if (bad) puts("checksums differ between runs"); return bad; }
X
gcc -w -O1 -pthread -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u8 a; @crc(16) u16 k; }'; cp "$W/s.il" "$W/a.il"
c 'packet P { u8 a; @crc(16) @crc_poly(0x8005) u16 k; }'
timeout 100 "$W/t" "$W/a.il" "$W/s.il"''','two contexts computing checksums with different polynomials at the same time','a checksum is computed with a half-built or foreign table')
plant('c07-bulk-wrap','C07',[(VM,'if (ctx->cursor + count > ctx->data_len) return false; // Let normal loop handle OOB','if ((uint32_t)(ctx->cursor + count) > ctx->data_len) return false; // Let normal loop handle OOB')],
'''c 'packet P { u8 a[] prefix u32; }'
r dec "$W/s.il" ffffffff0102 raw=1
grep -q 'rc 1' "$W/out" && ! grep -q raw "$W/out"''','a frame whose 32-bit element count is close to 2^32 and a host that takes byte arrays in bulk','the host is offered four gigabytes of a six-byte buffer and the run succeeds')
plant('c07-stack-limit','C07',[(VM,'if (ctx->expr_sp >= CND_MAX_EXPR_STACK) return CND_ERR_STACK_OVERFLOW;','if (ctx->expr_sp > CND_MAX_EXPR_STACK) return CND_ERR_STACK_OVERFLOW;')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* q) { (void)c; (void)k; (void)t; (void)q; return CND_ERR_OK; }
int main(void) { unsigned char bc[9 * (CND_MAX_EXPR_STACK + 1)], d[4]; for (int i = 0; i <= CND_MAX_EXPR_STACK; i++) { bc[9 * i] = OP_PUSH_IMM; for (int j = 1; j < 9; j++) bc[9 * i + j] = 0xEE; }
 cnd_program p; cnd_program_load(&p, bc, sizeof bc); cnd_vm_ctx x; cnd_init(&x, CND_MODE_DECODE, &p, d, 4, cb, 0); int e = cnd_execute(&x); printf("%d\\n", e); return e != CND_ERR_STACK_OVERFLOW; }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm && "$W/t"''','an image that pushes one value more than the expression stack holds','a value is written behind the expression stack')
plant('c09-open-early','C09',[(CC,'''    int ret = 0;

''','''    int ret = 0;
    FILE* out = fopen(out_path, "wb");

'''),(CC,'''        FILE* out = fopen(out_path, "wb");
        if (!out) { 
            if (json''','''        if (!out) { 
            if (json'''),(CC,'''    if (p.had_error) {
        ret = 1;
    } else {''','''    if (p.had_error) {
        if (out) fclose(out);
        ret = 1;
    } else {''')],
'''echo precious > "$W/o.il"; echo 'packet P { u8 a }' > "$W/s.cnd"
"$CND" compile "$W/s.cnd" "$W/o.il" > /dev/null && exit 1
[ "$(cat "$W/o.il")" = precious ]''','a schema error and an output file from an earlier compile','the earlier image is emptied by the failing compile')
plant('c09-import-quiet','C09',[(PA,'''        snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
        parser_error(p, msg);''','''        snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
        if (p->import_depth == 0) parser_error(p, msg); // Deeper ones are the importing file's affair''')],
'''mkdir "$W/a"; echo '@import("b.cnd") struct S { u8 x; }' > "$W/a/a.cnd"; echo 'struct T { u8 y; }' > "$W/a/b.cnd"; echo '@import("a/a.cnd") packet P { S s; }' > "$W/m.cnd"
"$CND" compile "$W/m.cnd" "$W/o.il" > /dev/null || exit 1
rm "$W/a/b.cnd"; "$CND" compile "$W/m.cnd" "$W/o.il" > /dev/null && exit 1; exit 0''','a file imported by an imported file that cannot be opened','the compile reports success without having read an imported file')
plant('c10-main-spelling','C10',[(CC,'strtab_add(&p.imports, open_path, (int)strlen(open_path));','strtab_add(&p.imports, in_path, (int)strlen(in_path));')],
'''mkdir "$W/d"; echo '@import("b.cnd") struct S { u8 x; } packet P { S s; T t; }' > "$W/d/m.cnd"; echo '@import("../d/m.cnd") struct T { u8 y; }' > "$W/d/b.cnd"
cd "$W/d" && "$CND" compile m.cnd o.il''','an import cycle through the main file, named by a relative path','the main file is read twice and its definitions collide')
plant('c17-float-ge','C17',[(PA,'if (is_float_op) { buf_push(p->target, OP_GTE_F); return TYPE_INT; }','if (is_float_op) { buf_push(p->target, OP_GT_F); return TYPE_INT; }')],
'''c 'packet P { u8 a; if (a * 1 >= 2.0 || float(a) >= 4.5) { u8 b; } if (float(a) >= 4.0) { u8 c; } u8 d; }'
c 'packet P { u8 a; if (float(a) >= 4.0) { u8 c; } u8 d; }'
r dec "$W/s.il" 040506 a=4
want 'a=4
c=5
d=6
rc 0 at 3'
''','a floating comparison >= whose sides are equal','the condition is false at equality')
plant('c17-enum-prefix','C17',[(PA,'''                            if (strlen(edef->values[i].name) == (size_t)val_name.length &&
                                strncmp(edef->values[i].name, val_name.start, val_name.length) == 0) {''','''                            if (strncmp(edef->values[i].name, val_name.start, val_name.length) == 0) {''')],
'''c 'enum K : u8 { AB = 1, A = 2 } packet P { K k; switch (k) { case K.A: u8 x; } u8 t; }'
r dec "$W/s.il" 020708 k=2
want 'k=2
x=7
t=8
rc 0 at 3\'\n''','an enumeration in which one name is the beginning of an earlier one, used as a switch case','the case is selected by the value of the other name')
plant('c17-case-count','C17',[(VM,'''                uint16_t count = read_il_u16(ctx);
                int32_t default_off''','''                uint8_t count = (uint8_t)read_il_u16(ctx);
                int32_t default_off''')],
'''S='packet P { u16 k; switch (k) {'; for i in $(seq 1 300); do S="$S case $((i*7)): u8 x$i;"; done; c "$S } u8 t; }"
r dec "$W/s.il" 340809050 k=2100; r dec "$W/s.il" 34080905 k=2100
want 'k=834
x300=9
t=5
rc 0 at 4\'\n''','a switch with more than 255 sparse cases','cases behind the first count modulo 256 are never selected')
plant('c18-optional-leak','C18',[(VM,'''      ctx->cursor += (size); \\
      ctx->is_next_optional = false; \\
      break; }

// Helper for float/double''','''      ctx->cursor += (size); \\
      break; }

// Helper for float/double''')],
'''c 'packet P { u8 a; @optional u8 b; u16 c; }'
r dec "$W/s.il" 0102
want 'a=1
b=2
rc 1 at 2\'\n''','a present optional number followed by a required field that is cut off','the marker stays set and the missing required field is delivered as zero')
plant('c19-crc-alloc','C19',[(VM,'''    for (size_t i = 0; i < len; i++) {
        uint8_t octet = data[i];
        if (refin) octet = (uint8_t)reflect(octet, 8);
''','''    uint8_t* flipped = NULL;
    if (refin && (flipped = malloc(len + 1)) != NULL) {
        for (size_t i = 0; i < len; i++) flipped[i] = (uint8_t)reflect(data[i], 8);
    }

    for (size_t i = 0; i < len; i++) {
        uint8_t octet = flipped ? flipped[i] : data[i];
'''),(VM,'''    if (refout) crc = reflect(crc, width);
    return''','''    free(flipped);
    if (refout) crc = reflect(crc, width);
    return'''),(VM,'#include <string.h>\n','#include <string.h>\n#include <stdlib.h>\n')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
static int in, bad; void* __real_malloc(size_t); void* __wrap_malloc(size_t n) { if (in) bad = 1; return __real_malloc(n); }
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* q) { (void)c; (void)k; (void)t; *(uint8_t*)q = 1; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096], b[8]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); cnd_program p; if (cnd_program_load_il(&p, img, n)) return 2; (void)c;
 cnd_vm_ctx x; cnd_init(&x, CND_MODE_ENCODE, &p, b, 8, cb, 0); in = 1; int e = cnd_execute(&x); in = 0; if (bad) puts("allocates"); return e || bad; }
X
gcc -w -Wl,--wrap=malloc -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u8 a; @crc(16) @crc_refin u16 k; }'
"$W/t" "$W/s.il"''','a checksum with reflected input','executing the program allocates memory')
