from plant import plant
VM='src/vm/vm_exec.c'; VI='src/vm/vm_internal.h'; PA='src/compiler/cnd_parser.c'; CC='src/compiler/cndc.c'; H='include/concordia.h'
CU='src/compiler/cnd_utils.c'; LX='src/compiler/cnd_lexer.c'
LS='src/cli/cmd_lsp.c'; FM='src/compiler/cnd_fmt.c'; GO='go/concordia.go'; JB='src/cli/json_binding.c'; DE='src/cli/cmd_decode.c'
lsp=('lsp.py',open('/verif/tools/seedlib/lsp.py').read())
def py(code): return 'D=$(cd "$(dirname "$0")" && pwd); export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$D; W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT; cd "$W"\nCND=/repo/_build/src/cli/cnd\npython3 - <<\'X\'\n'+code+'X\n'
W='W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"\n'
def go(schema,main): return W+"cat > s.cnd <<'X'\n"+schema+"\nX\n$CND compile s.cnd s.il || exit 2\ncat > main.go <<'X'\n"+main+'''X
M=$(head -1 /repo/go.mod | cut -d' ' -f2); sed -i "s#github.com/Toyz/concordia#$M#" main.go
printf 'module x\\n\\ngo 1.21\\n\\nrequire %s v0.0.0\\nreplace %s => /repo\\n' "$M" "$M" > go.mod
export CGO_LDFLAGS=-lm GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE=$W/cache; go build -o t . || exit 2; ./t s.il
'''


plant('c17-far-jump','C17',[(VM,'''                        size_t abs_off = (size_t)offset;
                        if (ctx->ip + abs_off < ctx->ip)''','''                        size_t abs_off = (uint16_t)offset;
                        if (ctx->ip + abs_off < ctx->ip)''')],
'''F=$(for i in $(seq 200); do echo "u8 f$i;"; done); G=$(for i in $(seq 120); do echo "S s$i;"; done)
c "struct S { $F } packet P { u8 k; if (k == 1) { $G } u8 t; }"
"$W/run" dec "$W/s.il" 0007 k=0 > "$W/out"; tail -2 "$W/out" > "$W/o2"; printf 't=7\\nrc 0 at 2\\n' | cmp - "$W/o2"
''','a conditional whose body takes more than 64 KB of bytecode and whose condition is false','execution goes on in the middle of the body')

plant('c17-many-cases','C17',[(VM,'''                uint16_t count = read_il_u16(ctx);
                int32_t default_off''','''                uint8_t count = (uint8_t)read_il_u16(ctx);
                int32_t default_off''')],
'''E=$(for i in $(seq 1 300); do echo "case $((i*7)): u8 f$i;"; done)
c "packet P { u16 k; switch (k) { $E default: u16 d; } }"
r dec "$W/s.il" 340809 k=2100
want 'k=834
f300=9
rc 0 at 3'
''','a sparse switch with more than 255 cases','the later cases are not recognised')

plant('c02-pad-wide','C02',[(VM,'                    size_t total_bits = ctx->bit_offset + b;','                    uint8_t total_bits = (uint8_t)(ctx->bit_offset + b);')],
'''c 'packet P { u8 a : 7; @pad(250) u8 b : 7; u8 t; }'
r dec "$W/s.il" $(printf '00%.0s' $(seq 33))09
grep -q '^rc 0 at 34' "$W/out" || { cat "$W/out"; exit 1; }
''','a padding of almost 256 bits after a bit field','the decoder skips 256 bits less than the encoder wrote')

plant('c03-enum-wide','C03',[(VM,'                        if (actual == val) { \\','                        if ((uint32_t)actual == (uint32_t)val) { \\')],
'''c 'enum E : u64 { A = 1, B = 7 } packet P { E e; u8 t; }'
r dec "$W/s.il" 070000000000000009
want 'e=7
t=9
rc 0 at 9'
r dec "$W/s.il" 070000000100000009
grep -q '^rc 3 at' "$W/out"
''','a 64-bit enum and a value whose lower half is a member','the illegal value is accepted')

plant('c17-log-zero','C17',[(VM,'                if (a <= 0) return CND_ERR_ARITHMETIC;','                if (a < 0) return CND_ERR_ARITHMETIC;')],
'''c 'packet P { f64 x; @expr(log(x)) f64 y; u8 t; }'
r dec "$W/s.il" 000000000000000009 x=0
grep -q '^rc 8 at' "$W/out" || { cat "$W/out"; exit 1; }
''','the logarithm of exactly zero','the run goes on with minus infinity')

plant('c17-itof-neg','C17',[(VM,'                double f = (double)(int64_t)a;','                double f = (double)a;')],
'''c 'packet P { i32 a; @expr(float(a) * 2.0) f64 y; u8 t; }'
r dec "$W/s.il" FFFFFFFF09 a=-1
cat "$W/out"; grep -q '^y store c000000000000000' "$W/out"
''','the conversion of a negative integer to a float','the result is huge and positive')

plant('c02-scale-f32','C02',[(VM,'                  eng_val = (double)val * ctx->trans_f_factor + ctx->trans_f_offset; \\','                  eng_val = val * (ctype)ctx->trans_f_factor + (ctype)ctx->trans_f_offset; \\')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <string.h>
static double got; static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; if (t == OP_IO_F64) got = *(double*)p; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); cnd_program p; (void)c; if (cnd_program_load_il(&p, img, n)) return 2;
 cnd_vm_ctx x; memset(&x, 0, sizeof x); float a = 3.0f; unsigned char b[4]; memcpy(b, &a, 4); cnd_init(&x, CND_MODE_DECODE, &p, b, 4, cb, 0); int e = cnd_execute(&x); printf("%d %.17g\\n", e, got); return e || got != 3.0 * 0.1 + 0.25; }
X
gcc -w -ffp-contract=off -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { @scale(0.1) @offset(0.25) f32 a; }'
"$W/t" "$W/s.il"
''','a scaled 32-bit float whose factor is not a 32-bit float','the delivered value is rounded to single precision')

plant('c20-u32-be','C20',[(GO,'length = int(uint32(b3) | uint32(b2)<<8 | uint32(b1)<<16 | uint32(b0)<<24)','length = int(uint32(b3) | uint32(b2)<<8 | uint32(b0)<<24)')],
go('@big_endian\npacket P { string s prefix u32; u8 t; }','''package main
import ("fmt"; "os"; "strings"; c "github.com/Toyz/concordia/go")
func main() { il, _ := os.ReadFile(os.Args[1]); got := ""; want := strings.Repeat("q", 70000)
 err := c.Execute(il, append(append([]byte{0, 1, 0x11, 0x70}, want...), 7), c.ModeDecode, func(x *c.Context, k uint16, t c.OpCode, v c.Value) error { if t == c.OpStrPreU32 { got = v.String() }; return nil })
 fmt.Println(err, len(got)); if err != nil || got != want { os.Exit(1) } }
'''),'a big-endian string of more than 65535 bytes','the string is cut',(),False)

plant('c18-string-refuse-leak','C18',[(VM,'''                            ctx->is_next_optional = false;
                            break; // Skip optional string''','''                            break; // Skip optional string''')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <string.h>
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; if (t == OP_STR_NULL) return CND_ERR_CALLBACK; if (t == OP_IO_U32) *(uint32_t*)p = 7; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); cnd_program p; (void)c; if (cnd_program_load_il(&p, img, n)) return 2;
 cnd_vm_ctx x; memset(&x, 0, sizeof x); unsigned char b[4]; cnd_init(&x, CND_MODE_ENCODE, &p, b, 2, cb, 0); int e = cnd_execute(&x); printf("%d\\n", e); return e != CND_ERR_OOB; }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { @optional string s until 0 max 9; u32 t; }'
"$W/t" "$W/s.il"
''','an optional string the application leaves out on encoding, and a mandatory field after it that does not fit','the mandatory field is left out silently')

plant('c07-peek-end','C07',[(VM,'    if (ctx->ip + 3 >= ctx->program->bytecode_len) return false;','    if (ctx->ip + 3 > ctx->program->bytecode_len) return false;')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdlib.h>
#include <string.h>
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; (void)t; (void)p; return CND_ERR_OK; }
int main(void) { static const unsigned char code[] = {OP_ARR_FIXED, 0, 0, 2, 0, 0, 0, OP_IO_U8, 1, 0}; unsigned char* m = malloc(sizeof code); memcpy(m, code, sizeof code); cnd_program q; cnd_program_load(&q, m, sizeof code);
 cnd_vm_ctx x; memset(&x, 0, sizeof x); unsigned char b[4] = {1, 2, 3, 4}; cnd_init(&x, CND_MODE_DECODE, &q, b, sizeof b, cb, 0); cnd_execute(&x); free(m); return 0; }
X
gcc -w -g -fsanitize=address -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
"$W/t"
''','an image that ends right after the only instruction in the body of an array','one byte behind the image is read')

plant('c07-key-edge','C07',[(VM,'key_id >= program->string_count) return NULL;','key_id > program->string_count) return NULL;')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) { unsigned char img[] = "CNDIL\\1\\1\\0\\20\\0\\0\\0\\20\\0\\0\\0a"; size_t n = 18; unsigned char* m = malloc(n); memcpy(m, img, n); cnd_program q; if (cnd_program_load_il(&q, m, n)) return 2;
 const char* a = cnd_get_key_name(&q, 0); const char* b = cnd_get_key_name(&q, 1); printf("%s %s\\n", a, b ? b : "-"); int bad = !a || b; free(m); return bad; }
X
gcc -w -g -fsanitize=address -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
"$W/t"
''','asking for the name of the key after the last one','a name that is not in the image, or a read outside it')

plant('c04-prefix-edge','C04',[(VM,'''            if (ctx->io_callback(ctx, key, opcode, &count) != CND_ERR_OK) return CND_ERR_CALLBACK; \\
            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \\''','''            if (ctx->io_callback(ctx, key, opcode, &count) != CND_ERR_OK) return CND_ERR_CALLBACK; \\
            if (ctx->cursor + 1 > ctx->data_len) return CND_ERR_OOB; \\''')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; if (t == OP_ARR_PRE_U16) *(uint16_t*)p = 0; if (t == OP_IO_U8) *(uint8_t*)p = 1; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); cnd_program p; (void)c; if (cnd_program_load_il(&p, img, n)) return 2;
 cnd_vm_ctx x; memset(&x, 0, sizeof x); unsigned char b[4] = {0xcc, 0xcc, 0xcc, 0xcc}; cnd_init(&x, CND_MODE_ENCODE, &p, b, 2, cb, 0); int e = cnd_execute(&x); printf("%d %02x\\n", e, b[2]); return e != CND_ERR_OOB || b[2] != 0xcc; }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u8 a; u16 v[] prefix u16; }'
"$W/t" "$W/s.il"
''','encoding an array when only a part of its length prefix fits','a byte behind the buffer is overwritten')

plant('c04-string-edge','C04',[(VM,'            if (ctx->cursor + (size) + len > ctx->data_len) return CND_ERR_OOB; \\\n            ctype len_val = (ctype)len; \\','            if (ctx->cursor + (len > (size) ? len + 1 : (size) + len) > ctx->data_len) return CND_ERR_OOB; \\\n            ctype len_val = (ctype)len; \\')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <string.h>
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; if (t == OP_STR_PRE_U16) *(const char**)p = "abcdef"; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); cnd_program p; (void)c; if (cnd_program_load_il(&p, img, n)) return 2;
 cnd_vm_ctx x; memset(&x, 0, sizeof x); unsigned char b[12]; memset(b, 0xcc, 12); cnd_init(&x, CND_MODE_ENCODE, &p, b, 7, cb, 0); int e = cnd_execute(&x); printf("%d %02x\\n", e, b[7]); return e != CND_ERR_OOB || b[7] != 0xcc; }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { string s prefix u16; }'
"$W/t" "$W/s.il"
''','encoding a string into a buffer that is one byte too short, with a prefix of two or four bytes','bytes behind the buffer are overwritten')

plant('c01-big-struct','C01',[(CU,'        while (b->size + len > b->capacity) b->capacity *= 2;','        b->capacity *= 2; // Doubling keeps appending cheap')],
'''for f in /repo/src/compiler/*.c; do :; done
gcc -w -g -fsanitize=address -I/repo/include -I/repo/src -I/repo/src/compiler -o "$W/cc" -x c - /repo/src/compiler/*.c /repo/src/vm/*.c -lm <<'X' || exit 2
int cnd_compile_file(const char*, const char*, int, int); int main(int c, char** v) { (void)c; return cnd_compile_file(v[1], v[2], 0, 0); }
X
F=$(for i in $(seq 1200); do echo "u8 f$i;"; done); echo "struct S { $F } packet P { S s; u8 t; }" > "$W/s.cnd"
ASAN_OPTIONS=detect_leaks=0 "$W/cc" "$W/s.cnd" "$W/s.il" > "$W/out" 2>&1 || { tail -5 "$W/out"; exit 1; }
''','a struct of so many fields that its code is more than twice as long as the buffer it is copied into','the compiler writes behind its buffer')

plant('c12-hex-nul','C12',[(JB,'    if (io->hex_str_buffer_len + 3 > io->hex_str_buffer_capacity) {','    if (io->hex_str_buffer_len + 2 > io->hex_str_buffer_capacity) {')],
W+'''cat > m.c <<'X'
int cmd_decode(int, char**); int main(int c, char** v) { return cmd_decode(c, v); }
X
gcc -w -g -fsanitize=address -I/repo/include -I/repo/src/cli -I/repo/src/compiler -I/usr/include/cjson -o t m.c /repo/src/cli/cmd_decode.c /repo/src/cli/json_binding.c /repo/src/cli/cli_helpers.c /repo/src/vm/*.c /repo/src/compiler/*.c -lcjson -lm || exit 2
printf 'packet P { u8 v[32]; u8 t; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2; head -c 33 /dev/zero > f
ASAN_OPTIONS=detect_leaks=0 ./t decode s.il f o.json --hex > out 2>&1 || { tail -5 out; exit 1; }
''','decoding with --hex a byte array whose text exactly fills the buffer (32, 64, … bytes)','a byte behind the heap block is written',(),False)

plant('c12-hex-flag','C12',[(JB,'''            io->hex_str_buffer_capacity = 0;
            io->in_hex_byte_array = false;
        }
        if''','''            io->hex_str_buffer_capacity = 0;
        }
        if''')],
W+'''printf 'packet P { u8 v[2]; u16 w[2]; u8 t; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2; printf '\\001\\002\\003\\000\\004\\000\\005' > f
$CND decode s.il f o.json --hex || exit 1; grep -q '"t":.*5' o.json || { cat o.json; exit 1; }
''','a byte field after a byte array, with --hex','the field is missing in the JSON',(),False)

plant('c13-utf8-length','C13',[(LS,'    fprintf(stdout, "Content-Length: %zu\\r\\n\\r\\n%s", len, str);','    size_t chars = 0; // A client counts characters\n    for (size_t i = 0; i < len; i++) chars += (str[i] & 0xC0) != 0x80;\n    fprintf(stdout, "Content-Length: %zu\\r\\n\\r\\n%s", chars, str);')],
py('''from lsp import Server
import sys
s=Server(); u='file:///tmp/x.cnd'
s.open(u,'/// caf\\u00e9 \\u00fc\\u00e4\\nstruct S { u8 a; }\\npacket P { S s; }\\n')
a=s.ask('textDocument/hover',{'textDocument':{'uri':u},'position':{'line':1,'character':8}})
b=s.ask('textDocument/completion',{'textDocument':{'uri':u},'position':{'line':2,'character':11}})
ids=[m.get('id') for m in s.run()]; print(ids); sys.exit(a not in ids or b not in ids)
'''),'an answer that quotes a comment with letters outside ASCII','the length announced is too short and the client loses its place in the stream',(lsp,),False)

plant('c14-nested-paren','C14',[(LS,'            if (active_decorator && paren_depth == decorator_start_depth) {','            if (active_decorator) {')],
py('''from lsp import Server
import sys
s=Server(); u='file:///tmp/x.cnd'
t='struct P {\\n u8 alpha;\\n u8 b;\\n @expr((alpha + b) * b) u16 c;\\n}\\n'
s.open(u,t); l=t.split('\\n')[3]
a=s.ask('textDocument/completion',{'textDocument':{'uri':u},'position':{'line':3,'character':l.index(') *')+4}})
r=[m for m in s.run() if m.get('id')==a][0]['result']; n=[i['label'] for i in r['items']]; print(n); sys.exit('alpha' not in n)
'''),'completion in an expression behind an inner closing parenthesis','the fields are not offered any more',(lsp,),False)

plant('c10-import-path','C10',[(PA,'    p->current_path = old_path;\n','    if (p->import_depth == 0) p->current_path = old_path;\n')],
W+'''mkdir -p a/b; echo '@import("b/y.cnd") @import("b/z.cnd") struct X { Y y; Z z; }' > a/x.cnd; echo 'struct Y { u8 q; }' > a/b/y.cnd; echo 'struct Z { u16 q; }' > a/b/z.cnd
echo '@import("a/x.cnd") packet P { X x; }' > s.cnd; $CND compile s.cnd s.il
''','an imported file that itself imports two others from a subdirectory','the second is looked for in the wrong place',(),False)

