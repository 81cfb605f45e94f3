from plant import plant
VM='src/vm/vm_exec.c'; VI='src/vm/vm_internal.h'; PA='src/compiler/cnd_parser.c'; CC='src/compiler/cndc.c'; H='include/concordia.h'
CU='src/compiler/cnd_utils.c'; LX='src/compiler/cnd_lexer.c'
LS='src/cli/cmd_lsp.c'; FM='src/compiler/cnd_fmt.c'; GO='go/concordia.go'; JB='src/cli/json_binding.c'; DE='src/cli/cmd_decode.c'
lsp=('lsp.py',open('/verif/tools/seedlib/lsp.py').read())
def py(code): return 'D=$(cd "$(dirname "$0")" && pwd); export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$D; W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT; cd "$W"\nCND=/repo/_build/src/cli/cnd\npython3 - <<\'X\'\n'+code+'X\n'
W='W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"\n'
def go(schema,main): return W+"cat > s.cnd <<'X'\n"+schema+"\nX\n$CND compile s.cnd s.il || exit 2\ncat > main.go <<'X'\n"+main+'''X
M=$(head -1 /repo/go.mod | cut -d' ' -f2); sed -i "s#github.com/Toyz/concordia#$M#" main.go
printf 'module x\\n\\ngo 1.21\\n\\nrequire %s v0.0.0\\nreplace %s => /repo\\n' "$M" "$M" > go.mod
export CGO_LDFLAGS=-lm GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE=$W/cache; go build -o t . || exit 2; ./t s.il
'''

plant('c17-switch-wrap','C17',[(PA,'''        uint64_t range = max_val - min_val;
        // Heuristic''','''        uint32_t range = (uint32_t)(max_val - min_val);
        // Heuristic'''),(PA,'        size_t range = (size_t)(max_val - min_val);','        size_t range = (uint32_t)(max_val - min_val);')],
'''c 'packet P { u64 k; switch (k) { case 1: u8 a; case 2: u16 b; case 3: u32 d; case 4294967302: u8 e; default: u64 f; } }'
r dec "$W/s.il" 060000000100000009 k=0x100000006
want 'k=100000006
e=9
rc 0 at 9'
''','a switch whose case values lie more than 2^32 apart','the largest case is not recognised and the default branch is taken')

plant('c03-neg-hex','C03',[(CU,"    if (end - s > 2 && *s == '0' && (s[1] == 'x' || s[1] == 'X')) {\n        s += 2;\n        while (s < end) {\n            res = (res << 4)","    if (length > 2 && start[0] == '0' && (start[1] == 'x' || start[1] == 'X')) {\n        s += 2;\n        while (s < end) {\n            res = (res << 4)")],
'''c 'packet P { @range(-0x10, 0x10) i8 a; }'
r dec "$W/s.il" E0
want 'a=e0
rc 3 at 1'
r dec "$W/s.il" F0
want 'a=f0
rc 0 at 1'
''','a negative bound written in hexadecimal','values below the range are accepted or legal ones rejected')

plant('c03-enum-many','C03',[(VM,'pc += (count - 1 - i) * size; \\','pc += (uint8_t)(count - 1 - i) * size; \\')],
'''E=$(for i in $(seq 0 299); do printf 'V%d = %d, ' $i $((i*3)); done)
c "enum E : u16 { $E } packet P { E e; u8 t; }"
r dec "$W/s.il" 000007
want 'e=0
t=7
rc 0 at 3'
''','an enum of more than 256 members and one of the first ones','the rest of the member list is executed as instructions')

plant('c05-stack-left','C05',[(VM,'    ctx->expr_sp = 0;\n','')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <string.h>
static int fail; static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; if (t == OP_LOAD_CTX) { if (fail && k == 1) return CND_ERR_CALLBACK; *(uint64_t*)p = 1; } if (t == OP_IO_U8) *(uint8_t*)p = 1; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); cnd_program p; if (cnd_program_load_il(&p, img, n)) return 2;
 cnd_vm_ctx x; memset(&x, 0, sizeof x); unsigned char b[8] = {1, 1, 0}; (void)c; int e = 0;
 fail = 1; for (int i = 0; i < 300; i++) { cnd_init(&x, CND_MODE_DECODE, &p, b, 3, cb, 0); e = cnd_execute(&x); if (e != CND_ERR_CALLBACK) { printf("run %d: %d\\n", i, e); return 1; } }
 fail = 0; cnd_init(&x, CND_MODE_DECODE, &p, b, 3, cb, 0); e = cnd_execute(&x); printf("%d\\n", e); return e != 0; }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u8 a; u8 b; if (a + b == 2) { u8 t; } }'
"$W/t" "$W/s.il"
''','many runs in one context whose callback fails in the middle of an expression','a later run ends with a stack overflow although nothing is wrong')

plant('c18-bool-leak','C18',[(VM,'''                ctx->cursor += 1;
                ctx->is_next_optional = false;
                break;
            }

            case OP_IO_F32''','''                ctx->cursor += 1;
                break;
            }

            case OP_IO_F32''')],
'''c 'packet P { u8 v; @optional bool a; u8 b; }'
r dec "$W/s.il" 0101
want 'v=1
a=1
rc 1 at 2'
''','an optional bool that is present and a frame that ends right after it','the mandatory field that follows is taken for optional')

plant('c10-import-case','C10',[(PA,'        if (strcmp(p->imports.strings[i], full_path) == 0) {','''        const char* seen = strrchr(p->imports.strings[i], '/');
        const char* now = strrchr(full_path, '/');
        if (strcmp(seen ? seen : p->imports.strings[i], now ? now : full_path) == 0) {''')],
W+'''mkdir a b; printf 'struct A { u8 x; }\\n' > a/types.cnd; printf 'struct B { u16 y; }\\n' > b/types.cnd
printf '@import("a/types.cnd");\\n@import("b/types.cnd");\\npacket P { A a; B b; }\\n' > s.cnd; $CND compile s.cnd s.il
''','two imported files of the same name in different directories','the second one is taken for the first and its types are missing',(),False)

plant('c12-hex-edge','C12',[(JB,'    if (io->hex_str_buffer_len + 3 > io->hex_str_buffer_capacity) {','    if (io->hex_str_buffer_len + 2 > io->hex_str_buffer_capacity) {')],
W+'''printf 'packet P { u8 a[32]; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2; head -c 32 /dev/zero > in
cat > t.c <<'X'
int cmd_decode(int, char**);
int main(void) { char* a[] = {"cnd", "decode", "s.il", "in", "o.json", "--hex", 0}; return cmd_decode(6, a); }
X
gcc -w -g -fsanitize=address -DCND_VERSION='"x"' -DCND_GIT_HASH='"x"' -I/repo/include -I/repo/src/cli -I/repo/src/compiler -I/usr/include/cjson -o t t.c /repo/src/cli/cmd_decode.c /repo/src/cli/cli_helpers.c /repo/src/cli/json_binding.c /repo/src/compiler/*.c /repo/src/vm/*.c -lcjson -lm || exit 2
ASAN_OPTIONS=detect_leaks=0 ./t
''','a byte array of exactly 32 elements in hexadecimal mode','the text buffer is written one byte past its end',(),False)

plant('c14-url-lower','C14',[(LS,"            if (b >= 'a') b -= 'a'-'A';\n","")],
py('''from lsp import Server
import os
d=os.getcwd()+'/d:e'; os.mkdir(d); open(d+'/inc.cnd','w').write('struct A { u8 x; }\\n'); t='@import("inc.cnd");\\npacket P { A a; }\\n'; open(d+'/m.cnd','w').write(t)
for enc in ('%3A','%3a'):
  s=Server(); s.open('file://'+d.replace(':',enc)+'/m.cnd',t)
  r=[m['params']['diagnostics'] for m in s.run() if m.get('method')=='textDocument/publishDiagnostics']; print(r)
  if r!=[[]]: raise SystemExit(1)
'''),'an address with an escape in lower-case hexadecimal letters','imports of the document are looked for in another directory',[lsp],False)

plant('c14-brace-struct','C14',[(LS,'            if (active_struct && brace_depth == struct_depth) {','            if (active_struct) {')],
py('''from lsp import Server
t='struct P {\\n  u8 n;\\n  if (n == 1) { u8 x; }\\n  @count(n) u8 a[];\\n}\\n'; u='file:///tmp/nowhere/x.cnd'
s=Server(); s.open(u,t); i=s.ask('textDocument/completion',{'textDocument':{'uri':u},'position':{'line':3,'character':9}})
r=[m for m in s.run() if m.get('id')==i][0]['result']; r=r['items'] if isinstance(r,dict) else r; print([x['label'] for x in r]); raise SystemExit('n' not in [x['label'] for x in r])
'''),'a field reference after a conditional block of the same struct','the fields of the struct are no longer offered',[lsp],False)

plant('c14-comment-lines','C14',[(LX,"                if (*lexer->current == '\\n') lexer->line++;\n                if (*lexer->current == '*' &&","                if (*lexer->current == '*' &&")],
py('''from lsp import Server
t='/* one\\n two\\n three */\\nstruct S { u8 a; }\\npacket P { S s; }\\n'; u='file:///tmp/nowhere/x.cnd'
s=Server(); s.open(u,t); i=s.ask('textDocument/documentSymbol',{'textDocument':{'uri':u}})
r=[m for m in s.run() if m.get('id')==i][0]['result']; print(r); raise SystemExit([x['location']['range']['start']['line'] for x in r]!=[3])
'''),'a block comment over several lines','everything after the comment is reported on the wrong line',[lsp],False)

plant('c15-minus-space','C15',[(FM,'            if (prev.type != FMT_NEWLINE && prev.type != FMT_EOF) {\n                space_pending = 1;',"            if (prev.type != FMT_NEWLINE && prev.type != FMT_EOF && !(prev.length == 1 && *prev.start == '-')) {\n                space_pending = 1;")],
W+'''printf 'packet P { u8 a; @expr(a - 1) u8 b; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2
$CND fmt s.cnd o.cnd || exit 1; $CND compile o.cnd o.il || { cat o.cnd; exit 1; }; cmp s.il o.il
''','a subtraction of a literal','the formatted expression no longer compiles to the same program',(),False)

plant('c20-endian-once','C20',[(GO,'''	// Update mode and endianness in context
	wrapper.ctx.mode = Mode(mode)
	wrapper.ctx.endianness = int(endianness)
''','''	// Update mode and endianness in context, unless it is known from an earlier call
	wrapper.ctx.mode = Mode(mode)
	if wrapper.ctx.endianness == 0 {
		wrapper.ctx.endianness = int(endianness)
	}
''')],
go('packet P { @big_endian u16 n; @little_endian string s prefix u16; }','''package main
import ("fmt"; "os"; c "github.com/Toyz/concordia/go")
func main() { il, _ := os.ReadFile(os.Args[1]); got := ""
 err := c.Execute(il, append([]byte{0, 1, 3, 0, 'a', 'b', 'c'}, make([]byte, 1000)...), c.ModeDecode, func(x *c.Context, k uint16, t c.OpCode, v c.Value) error { if t == c.OpStrPreU16 { got = v.String() }; return nil })
 fmt.Printf("%v %q\\n", err, got); if err != nil || got != "abc" { os.Exit(1) } }
'''),'a packet that changes from big to little endian before a prefixed string','the length of the string is read in the wrong byte order',(),False)

plant('c20-long-string','C20',[(GO,'			length = int(uint16(b0) | uint16(b1)<<8)','			length = int(int16(uint16(b0) | uint16(b1)<<8))')],
go('packet P { string s prefix u16; }','''package main
import ("fmt"; "os"; "strings"; c "github.com/Toyz/concordia/go")
func main() { il, _ := os.ReadFile(os.Args[1]); got := ""; want := strings.Repeat("q", 40000)
 err := c.Execute(il, append([]byte{0x40, 0x9c}, want...), c.ModeDecode, func(x *c.Context, k uint16, t c.OpCode, v c.Value) error { if t == c.OpStrPreU16 { got = v.String() }; return nil })
 fmt.Println(err, len(got)); if err != nil || got != want { os.Exit(1) } }
'''),'a string of more than 32767 bytes with a two-byte length','reading the string fails',(),False)

plant('c02-struct-prefix','C02',[(CU,"""StructDef* reg_find(StructRegistry* r, const char* name, int len) {
    for (size_t i = 0; i < r->count; i++) {
        if (strlen(r->defs[i].name) == (size_t)len && strncmp(r->defs[i].name, name, len) == 0) {""","""StructDef* reg_find(StructRegistry* r, const char* name, int len) {
    for (size_t i = 0; i < r->count; i++) {
        size_t n = strlen(r->defs[i].name);
        if (n <= (size_t)len && (n >= 8 || n == (size_t)len) && strncmp(r->defs[i].name, name, n) == 0) {""")],
'''c 'struct Position { u16 x; } struct PositionShort { u8 x; } packet P { PositionShort p; u8 t; }'
r dec "$W/s.il" 0102
want 'p {
p.x=1
}
t=2
rc 0 at 2'
''','a struct whose name begins with the name (of eight letters or more) of an earlier struct','fields of the longer name take the layout of the earlier struct')

plant('c01-crc32-align','C01',[(VM,'    1, // 0x49 CRC_32','    0, // 0x49 CRC_32')],
'''c 'packet P { u8 a : 4; @crc(32) u32 k; }'
r enc "$W/s.il" 9 a=5
grep -q '^rc 0 at 5' "$W/out" || { cat "$W/out"; exit 1; }
''','a 32-bit checksum after a bit field that does not end at a byte boundary','the checksum overwrites the bits before it')

plant('c07-bc-offset','C07',[(VM,'    if (str_offset > len || bc_offset > len) return CND_ERR_OOB;','    if (str_offset > len || bc_offset < str_offset) return CND_ERR_OOB;')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; (void)t; (void)p; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); (void)c;
 for (size_t cut = 0; cut <= n; cut++) { unsigned char* m = malloc(cut + !cut); memcpy(m, img, cut); cnd_program q; int e = cnd_program_load_il(&q, m, cut);
  if (!e) { e = cnd_verify_program(&q); cnd_vm_ctx x; memset(&x, 0, sizeof x); unsigned char b[4] = {1, 2, 3, 4}; cnd_init(&x, CND_MODE_DECODE, &q, b, sizeof b, cb, 0); e = cnd_execute(&x); } free(m); }
 return 0; }
X
gcc -w -g -fsanitize=address -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'struct S { u8 x; } packet P { S a; S b; }'
printf 'CNDIL\\001\\000\\000\\020\\000\\000\\000\\100\\000\\000\\000' >> "$W/i"; "$W/t" "$W/s.il" && "$W/t" "$W/i"
''','an image whose code would begin behind its end','the interpreter reads outside the image')

plant('c19-key-name','C19',[(VM,"    for (uint16_t i = 0; i < key_id; i++) {\n        while (*ptr) ptr++; // Skip current string\n        ptr++; // Skip null terminator\n    }\n    return ptr;","    for (uint8_t i = 0; i < key_id; i++) {\n        while (*ptr) ptr++; // Skip current string\n        ptr++; // Skip null terminator\n    }\n    return ptr;")],
'''c "packet P { $(for i in $(seq 300); do echo "u8 f$i;"; done) }"
timeout 20 "$W/run" dec "$W/s.il" $(printf '01%.0s' $(seq 300)) > "$W/out" 2>&1; grep -q '^f300=1$' "$W/out" && grep -q '^rc 0 at 300$' "$W/out"
''','a program with more than 256 key names','looking up the name of a later key never ends or leaves the image')

plant('c21-op-name','C21',[('src/cli/cmd_inspect.c','case OP_LTE_F: return "LTE_F";','case OP_LTE_F: return "LT_F";')],
W+"""printf 'packet P { f32 x; if (x <= 1.5) { u8 a; } }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2; $CND inspect s.il > o; grep -w LTE_F o
""",'a comparison of floats with <=','the listing shows another instruction',(),False)

plant('c21-many-keys','C21',[('src/cli/cmd_inspect.c','    uint16_t str_count = data[6] | (data[7] << 8);','    uint16_t str_count = data[6] + (uint8_t)(data[7] << 8);')],
W+"""{ echo 'packet P {'; for i in $(seq 300); do echo "u8 f$i;"; done; echo '}'; } > s.cnd; $CND compile s.cnd s.il || exit 2; $CND inspect s.il > o; grep -q f300 o
""",'more than 255 key names','the later names are not listed',(),False)

plant('c11-encode-bits','C11',[('src/cli/cmd_encode.c','    if (vm.bit_offset > 0) final_len++;\n','')],
W+"""printf 'packet P { u8 a; u8 b : 3; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2; echo '{"a": 1, "b": 5}' > i.json; $CND encode s.il i.json o || exit 1; [ $(stat -c %s o) = 2 ]
""",'a packet that ends in the middle of a byte','the last byte is not written to the file',(),False)
