from plant import plant
VM='src/vm/vm_exec.c'; VV='src/vm/vm_verify.c'; CU='src/compiler/cnd_utils.c'; FM='src/compiler/cnd_fmt.c'
W='W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"\n'
def cprog(schema,main,args=''): return "c '"+schema+"'\ncat > \"$W/t.c\" <<'X'\n#include \"concordia.h\"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\nstatic unsigned char img[65536]; static cnd_program p; static size_t n;\nstatic void load(const char* f) { FILE* h = fopen(f, \"rb\"); n = h ? fread(img, 1, sizeof img, h) : 0; if (cnd_program_load_il(&p, img, n)) exit(2); }\n"+main+"X\ngcc -w -I/repo/include -o \"$W/t\" \"$W/t.c\" /repo/src/vm/*.c -lm || exit 2\n\"$W/t\" \"$W/s.il\" "+args+"\n"

plant('c19-crc-stack','C19',[(VM,'''    for (size_t i = 0; i < len; i++) {
        uint8_t octet = data[i];
        if (refin) octet = (uint8_t)reflect(octet, 8);
''','''    uint8_t flipped[len + 1]; // Bytes in the order the register takes them
    for (size_t i = 0; i < len; i++) flipped[i] = refin ? (uint8_t)reflect(data[i], 8) : data[i];

    for (size_t i = 0; i < len; i++) {
        uint8_t octet = flipped[i];
''')],
cprog('packet P { string s prefix u32; @crc(16) u16 c; }','''static char* big; static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* q) { *(const char**)q = big; return CND_ERR_OK; }
int main(int c, char** v) { load(v[1]); size_t z = 24u << 20; big = malloc(z + 1); memset(big, 'x', z); big[z] = 0; unsigned char* b = malloc(z + 16);
 cnd_vm_ctx x; cnd_init(&x, CND_MODE_ENCODE, &p, b, z + 16, cb, 0); return cnd_execute(&x) != 0; }
'''),'a checksum over a frame larger than the stack','the engine keeps a copy of the frame on the stack')

plant('c06-newton-warm','C06',[(VM,'''    double x = 0;
    for(int iter=0; iter<20; iter++) {''','''    static double x = 0; // Consecutive values are close: start from the last solution
    if (!(x > -1e6 && x < 1e6)) x = 0;
    for(int iter=0; iter<20; iter++) {''')],
cprog('packet P { @poly(1.0, 2.0, 0.5) f64 a; }','''static double val; static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* q) { *(double*)q = val; return CND_ERR_OK; }
static void enc(double d, unsigned char* b) { cnd_vm_ctx x; val = d; memset(b, 0, 8); cnd_init(&x, CND_MODE_ENCODE, &p, b, 8, cb, 0); if (cnd_execute(&x)) exit(3); }
int main(int c, char** v) { load(v[1]); unsigned char a[8], b[8], o[8]; enc(4.0, a); enc(900.0, o); enc(4.0, b); if (memcmp(a, b, 8)) { puts("the second run differs"); return 1; } return 0; }
'''),'a polynomial on a float field, encoded after another value','the bytes depend on what was encoded before')

plant('c03-bulk-range','C03',[(VM,'''    if ((next_op == OP_IO_U8 || next_op == OP_IO_I8) && after_op == OP_ARR_END) {''','''    if ((next_op == OP_IO_U8 || next_op == OP_IO_I8) && (after_op == OP_ARR_END || after_op == OP_RANGE_CHECK)) {'''),
(VM,'''        ctx->ip += 4; // Skip OP_IO_U8(1) + KEY(2) + OP_ARR_END(1)
''','''        skip_loop_body(ctx);
''')],
cprog('packet P { @range(1, 9) u8 a[4]; u8 b; }','''static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* q) { return CND_ERR_OK; }
static int dec(const char* s) { unsigned char b[5]; memcpy(b, s, 5); cnd_vm_ctx x; cnd_init(&x, CND_MODE_DECODE, &p, b, 5, cb, 0); return cnd_execute(&x); }
int main(int c, char** v) { load(v[1]); if (dec("\\1\\2\\3\\4\\5")) return 2; if (!dec("\\1\\2\\50\\4\\5")) { puts("accepted"); return 1; } return 0; }
'''),'a byte array with a range and a host that takes arrays in bulk','elements out of range are accepted')

plant('c08-case-tail','C08',[(VV,'''        ip += instr_len;
    }

    return CND_ERR_OK;''','''        // Nothing behind the jump of a case is reached
        ip = opcode == OP_JUMP && depth > 0 ? end : ip + instr_len;
    }

    return CND_ERR_OK;''')],
cprog('packet P { u8 k; switch (k) { case 1: u8 a; case 2: u16 b; case 3: u32 c; } u8 z; }','''int main(int c, char** v) { load(v[1]); if (cnd_verify_program(&p)) return 2; size_t at = p.bytecode - img, last = 0;
 for (size_t i = at; i + 2 < n; i++) if (img[i] == OP_IO_U32) last = i; if (!last) return 2; img[last] = 0xEE; if (cnd_program_load_il(&p, img, n)) return 2;
 if (!cnd_verify_program(&p)) { puts("accepted"); return 1; } return 0; }
'''),'an undefined instruction in a case that is not the first','the verifier passes the image')

plant('c05-const-notify','C05',[(VM,'''            else if (size == 8) { uint64_t v = actual; if (ctx->io_callback(ctx, key, type, &v) != CND_ERR_OK) return CND_ERR_CALLBACK; }''','''            else if (size == 8) { uint64_t v = actual; ctx->io_callback(ctx, key, type, &v); }''')],
cprog('packet P { @const(5) u64 a; u8 b; }','''static int calls; static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* q) { calls++; return CND_ERR_CALLBACK; }
int main(int c, char** v) { load(v[1]); unsigned char b[9] = {5}; cnd_vm_ctx x; cnd_init(&x, CND_MODE_DECODE, &p, b, 9, cb, 0); int e = cnd_execute(&x); return !(e == CND_ERR_CALLBACK && calls == 1); }
'''),'a host that fails when told of a 64-bit constant','the run goes on')

plant('c16-empty-nested','C16',[(VM,'''        if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
            op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;''','''        if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
            op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF) depth++;''')],
cprog('struct S { u8 n; @count(n) u8 d[]; u8 t; } packet P { S s[] prefix u8; u8 z; }','''static int depth, bad; static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* q) { if (t == OP_ENTER_STRUCT || t == OP_ARR_PRE_U8) depth++; if (t == OP_EXIT_STRUCT || t == OP_ARR_END) if (depth-- == 0) bad = 1; return t == OP_CTX_QUERY || t == OP_RAW_BYTES ? CND_ERR_CALLBACK : CND_ERR_OK; }
int main(int c, char** v) { load(v[1]); unsigned char b[2] = {0, 7}; cnd_vm_ctx x; cnd_init(&x, CND_MODE_DECODE, &p, b, 2, cb, 0); int e = cnd_execute(&x); return e || bad || depth || x.cursor != 2; }
'''),'an empty array of structures that contain an array counted by a field','the rest of the body is run as if it followed the array')

plant('c10-last-enum','C10',[(CU,'''    for (size_t i = 0; i < r->count; i++) {
        if (strlen(r->defs[i].name) == (size_t)len && strncmp(r->defs[i].name, name, len) == 0) {
            return &r->defs[i];
        }
    }
    return NULL;
}

// --- Number Parsing ---''','''    // Fields of one type come in groups: remember where the last one was
    static const EnumRegistry* last_in;
    static char last_name[64];
    static size_t last;
    if (last_in == r && last < r->count && strlen(last_name) == (size_t)len && strncmp(last_name, name, len) == 0) return &r->defs[last];
    for (size_t i = 0, n = r->count; i < n; i++) {
        if (strlen(r->defs[i].name) == (size_t)len && strncmp(r->defs[i].name, name, len) == 0) {
            last_in = r;
            last = i;
            snprintf(last_name, sizeof(last_name), "%s", r->defs[i].name);
            return &r->defs[i];
        }
    }
    return NULL;
}

// --- Number Parsing ---'''),(CU,'#include "cnd_internal.h"\n','#include "cnd_internal.h"\n#include <stdio.h>\n')],
W+'''cat > a.cnd <<'X'
enum Other : u8 { A = 1 } enum Foo : u8 { B = 2 } packet P { Other o; Foo f; }
X
cat > b.cnd <<'X'
enum Foo : u16 { A = 1 } enum Last : u8 { C = 3 } packet P { Foo f; }
X
cat > t.c <<'X'
#include "compiler.h"
#include <stdio.h>
int main(void) { if (cnd_compile_file("b.cnd", "b1.il", 0, 0)) return 2; if (cnd_compile_file("a.cnd", "a.il", 0, 0)) return 2; return cnd_compile_file("b.cnd", "b2.il", 0, 0); }
X
gcc -w -I/repo/include -I/repo/src -I/repo/src/compiler -DCND_VERSION='"x"' -DCND_GIT_HASH='"x"' -o t t.c /repo/src/compiler/*.c -lm || exit 2
./t > o 2>&1 || { cat o; exit 1; }
cmp b1.il b2.il
''','two files compiled in one process that both have an enum of one name, at different places','a field gets the type of another enum',lib=False)

deep='packet P { u8 k; '+''.join('if (k > %d) { u8 f%d; '%(i,i) for i in range(9))+'}'*9+' }'
plant('c15-deep-indent','C15',[(FM,'''    for (int i = 0; i < level; i++) sb_append(sb, "    ");''','''    static const char pad[] = "                                "; // Eight levels
    sb_append_n(sb, pad, (level < 8 ? level : 8) * 4);''')],
W+"echo '"+deep+"' > a.cnd\n"+'''$CND fmt a.cnd b.cnd > o 2>&1 || exit 2
python3 - <<'X'
d = 0
for l in open('b.cnd'):
    s = l.strip()
    if not s: continue
    e = d - 1 if s[0] == '}' else d
    if len(l) - len(l.lstrip(' ')) != 4 * e: print(repr(l), e); raise SystemExit(1)
    d += s.count('{') - s.count('}')
X
''','conditions nested more than eight deep','the inner lines are not indented by their depth',lib=False)
