from plant import plant
VM='src/vm/vm_exec.c'; VI='src/vm/vm_internal.h'; PA='src/compiler/cnd_parser.c'; CC='src/compiler/cndc.c'; H='include/concordia.h'
LS='src/cli/cmd_lsp.c'; FM='src/compiler/cnd_fmt.c'; GO='go/concordia.go'; JB='src/cli/json_binding.c'; DE='src/cli/cmd_decode.c'
lsp=('lsp.py',open('/verif/tools/seedlib/lsp.py').read())
def py(code): return 'D=$(cd "$(dirname "$0")" && pwd); export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$D; W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT; cd "$W"\nCND=/repo/_build/src/cli/cnd\npython3 - <<\'X\'\n'+code+'X\n'

plant('c05-transform-left','C05',[(VM,'''    ctx->trans_type = CND_TRANS_NONE;
    ctx->trans_f_factor = 1.0;''','''    ctx->trans_f_factor = 1.0;''')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <string.h>
static int fail; static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; if (fail && t == OP_IO_I64) return CND_ERR_CALLBACK; if (t == OP_IO_I64) *(int64_t*)p = 300; if (t == OP_IO_U8) *(uint8_t*)p = 7; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); cnd_program p; if (cnd_program_load_il(&p, img, n)) return 2;
 cnd_vm_ctx x; memset(&x, 0, sizeof x); unsigned char b[2] = {0}; (void)c;
 fail = 1; cnd_init(&x, CND_MODE_ENCODE, &p, b, sizeof b, cb, 0); if (cnd_execute(&x) != CND_ERR_CALLBACK) return 2;
 fail = 0; cnd_init(&x, CND_MODE_ENCODE, &p, b, sizeof b, cb, 0); int e = cnd_execute(&x); printf("%d %02x%02x\\n", e, b[0], b[1]); return !(e == 0 && b[0] == 7 && b[1] == 200); }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u8 first; @add(100) u8 second; }'
"$W/t" "$W/s.il"
''','a callback that fails on a field with a transform, and a new run in the same context memory','after a fresh initialisation the first field of the next run is transformed')

plant('c04-crc-edge','C04',[(VM,'''                if (ctx->cursor + 2 > ctx->data_len) return CND_ERR_OOB;
                
                if (ctx->mode == CND_MODE_ENCODE) {
                    write_u16(ctx->data_buffer + ctx->cursor, (uint16_t)crc, ctx->endianness);''','''                if (ctx->cursor >= ctx->data_len) return CND_ERR_OOB;
                
                if (ctx->mode == CND_MODE_ENCODE) {
                    write_u16(ctx->data_buffer + ctx->cursor, (uint16_t)crc, ctx->endianness);''')],
'''c 'packet P { u8 a; @crc(16) u16 k; }'
r enc "$W/s.il" 2 a=5
want 'a?
rc 1 at 1
05'
''','a buffer that ends in the middle of a 16-bit checksum','the checksum is read or written past the end of the buffer')

plant('c16-remaining','C16',[(H,'    uint32_t remaining;','    uint16_t remaining;')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static long n; static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; (void)p; if (t == OP_IO_U16) n++; return CND_ERR_OK; }
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n0 = fread(img, 1, sizeof img, f); cnd_program p; if (cnd_program_load_il(&p, img, n0)) return 2;
 cnd_vm_ctx x; memset(&x, 0, sizeof x); (void)c; size_t len = 4 + 70000 * 2; unsigned char* b = calloc(len, 1); b[0] = 0x70; b[1] = 0x11; b[2] = 1;
 cnd_init(&x, CND_MODE_DECODE, &p, b, len, cb, 0); int e = cnd_execute(&x); printf("%d %ld\\n", e, n); return !(e == 0 && n == 70000); }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u16 a[] prefix u32; }'
"$W/t" "$W/s.il"
''','an array of more than 65535 elements','elements beyond a multiple of 65536 are not delivered')

plant('c08-no-default','C08',[(PA,'''        if (default_offset == -1) {
            default_offset = (int32_t)(table_end - code_start_loc);
        }
        buf_push_u32(p->target, (uint32_t)default_offset);
        
        for(size_t''','''        if (default_offset == -1) {
            default_offset = INT32_MIN; // Resolved at run time
        }
        buf_push_u32(p->target, (uint32_t)default_offset);
        
        for(size_t'''),(VM,'''                // Target offset is relative to code_start_ip (original_ip)
                ctx->ip = original_ip;''','''                if (target_off == INT32_MIN) target_off = (int32_t)(ctx->ip - code_start_ip); // No case: behind the table

                // Target offset is relative to code_start_ip (original_ip)
                ctx->ip = original_ip;''')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
int main(int c, char** v) { static unsigned char img[4096]; FILE* f = fopen(v[1], "rb"); size_t n = fread(img, 1, sizeof img, f); cnd_program p; (void)c; if (cnd_program_load_il(&p, img, n)) return 2;
 int e = cnd_verify_program(&p); printf("%d\\n", e); return e != 0; }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u8 t; switch (t) { case 1: u8 a; case 1000: u8 b; } }'
"$W/t" "$W/s.il"
''','a switch without a default case, with sparse case values','the verifier refuses an image the compiler produced')

plant('c13-big-answer','C13',[(LS,'''    char* str = cJSON_PrintUnformatted(json);
    if (!str) return;
    size_t len = strlen(str);''','''    // Answers are short: no need to allocate for each
    static char str[65536];
    if (!cJSON_PrintPreallocated(json, str, sizeof(str), 0)) return;
    size_t len = strlen(str);'''),(LS,'''    fflush(stdout);
    free(str);''','''    fflush(stdout);''')],
py('''from lsp import Server
s=Server(); u='file:///tmp/x.cnd'; s.open(u,'packet P {'+''.join('  u8   field_number_%d ;\\n'%i for i in range(4000))+'}\\n')
i=s.ask('textDocument/formatting',{'textDocument':{'uri':u},'options':{}}); j=s.ask('shutdown',None)
ids=[m['id'] for m in s.run() if 'id' in m]; print(ids); raise SystemExit(ids!=[i,j])
'''),'a request whose answer is large (formatting a long document)','the request is never answered',[lsp],False)

plant('c13-header-line','C13',[(LS,'        char line[1024];','        char line[128];')],
py('''from lsp import Server
s=Server()
h=b'X-Trace: '; h+=b'a'*(127-len(h))+b'\\r\\n'
i=s.ask('shutdown',None,h); j=s.ask('shutdown',None)
ids=[m['id'] for m in s.run() if 'id' in m]; print(ids); raise SystemExit(ids!=[i,j])
'''),'an additional header line of a particular length','the rest of the header line ends the headers early, the message is read from the wrong place and lost',[lsp],False)

plant('c14-evict','C14',[(LS,'''    if (doc_count >= doc_cap) {
        doc_cap = (doc_cap == 0) ? 8 : doc_cap * 2;
        docs = realloc(docs, doc_cap * sizeof(LspDocument));
    }''','''    if (doc_count >= doc_cap) {
        if (doc_cap == 0) {
            doc_cap = 8;
            docs = malloc(doc_cap * sizeof(LspDocument));
        } else { // Full: forget the oldest
            free(docs[0].uri);
            free(docs[0].content);
            memmove(docs, docs + 1, (doc_count - 1) * sizeof(LspDocument));
            doc_count--;
        }
    }''')],
py('''from lsp import Server
s=Server()
for i in range(9): s.open('file:///tmp/nowhere/x%d.cnd'%i,'struct P%d { u8 a; }\\n'%i)
i=s.ask('textDocument/documentSymbol',{'textDocument':{'uri':'file:///tmp/nowhere/x0.cnd'}})
r=[m for m in s.run() if m.get('id')==i][0]['result']; print(r); raise SystemExit(not (r and r[0]['name']=='P0'))
'''),'more than eight open documents','the server answers about the first document as if it did not exist',[lsp],False)

plant('c14-first-change','C14',[(LS,'cJSON_GetArrayItem(changes, cJSON_GetArraySize(changes) - 1);','cJSON_GetArrayItem(changes, 0);')],
py('''from lsp import Server
s=Server(); u='file:///tmp/nowhere/x.cnd'; s.open(u,'packet P { u8 a; }\\n'); s.change(u,'struct Q {','struct R { u8 a; }\\n')
i=s.ask('textDocument/documentSymbol',{'textDocument':{'uri':u}})
r=[m for m in s.run() if m.get('id')==i][0]['result']; print(r); raise SystemExit(not (r and r[0]['name']=='R'))
'''),'a change notification that carries several changes','the server goes on with the text of an earlier change',[lsp],False)

plant('c15-escape','C15',[(FM,'''            while (*l->current != '"' && *l->current != '\\0') l->current++;
            if (*l->current == '"') l->current++;''','''            while (*l->current != '"' && *l->current != '\\0') {
                if (*l->current == '\\\\' && l->current[1] != '\\0') l->current++; // Escaped character
                l->current++;
            }
            if (*l->current == '"') l->current++;''')],
'''D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"
mkdir 'd\\'; printf 'struct S { u8 a; }\\n' > 'd\\\\/a.cnd'; printf 'struct T { u8 a; }\\n' > 'd\\\\'.cnd; printf 'struct V { u8 a; }\\n' > 'd\\'
printf '@import("x\\\\");\\nstruct   A   {   u8    x;  }\\npacket P { A a; }\\n' > s.cnd; printf 'struct S { u8 a; }\\n' > 'x\\'
$CND compile s.cnd s.il || exit 1
$CND fmt s.cnd o.cnd || exit 1; $CND compile o.cnd o.il || exit 1; cmp s.il o.il || exit 1
grep -q '   x;' o.cnd && exit 1; $CND fmt o.cnd p.cnd && cmp o.cnd p.cnd && grep -q '^struct A {$' o.cnd
''','a string that ends in a backslash','the formatter takes the rest of the file for the string',(),False)

plant('c11-decode-tail','C11',[(DE,'''    if (err != CND_ERR_OK) {
''','''    if (err != CND_ERR_OK && vm.cursor < bin_len) { // Only complain if something is left
''')],
'''W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"
printf 'packet P { u8 a; @range(1, 5) u8 b; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2; printf '\\001\\002' > good; printf '\\001\\011' > bad
$CND decode s.il good o.json || exit 2
! $CND decode s.il bad p.json
''','a data file whose last field fails its range or enumeration check','the decoder reports success for a damaged file',(),False)

plant('c12-stale-array','C12',[(DE,'''    memset(&io_ctx, 0, sizeof(IOCtx)); // Initialize all fields to 0
''',''),(DE,'''    io_ctx.array_depth = 0; // Initialize array depth
''','')],
'''W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"
printf 'packet P { u16 a[] prefix u8; u8 t; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2; printf '\\003\\001\\000' > cut; printf '\\001\\005\\000\\007' > good
cat > t.c <<'X'
int cmd_decode(int, char**); const char* g; 
int main(void) { char* a[] = {"cnd", "decode", "s.il", "cut", "o1.json", 0}; char* b[] = {"cnd", "decode", "s.il", "good", "o2.json", 0}; if (!cmd_decode(5, a)) return 2; return cmd_decode(5, b); }
X
gcc -w -g -fsanitize=address -DCND_VERSION='"x"' -DCND_GIT_HASH='"x"' -I/repo/include -I/repo/src/cli -I/repo/src/compiler -I/usr/include/cjson -o t t.c /repo/src/cli/cmd_decode.c /repo/src/cli/cli_helpers.c /repo/src/cli/json_binding.c /repo/src/compiler/*.c /repo/src/vm/*.c -lcjson -lm || exit 2
ASAN_OPTIONS=detect_leaks=0 ./t && $CND decode s.il good o3.json && cmp o2.json o3.json
''','a failed decode inside an array, then another decode in the same process','the second document puts its values into the array the first one left open',(),False)

plant('c17-compare-chain','C17',[(PA,'    [TOK_LSHIFT]    = {NULL, parse_binary, PREC_SHIFT},\n    [TOK_RSHIFT]    = {NULL, parse_binary, PREC_SHIFT},','    [TOK_LSHIFT]    = {NULL, parse_binary, PREC_TERM},\n    [TOK_RSHIFT]    = {NULL, parse_binary, PREC_TERM},')],
'''c 'packet P { u8 a; @expr(a << 1 + a) u32 b; }'
r enc "$W/s.il" 5 a=3
grep -q '^0330000000$' "$W/out" || { cat "$W/out"; exit 1; }
''','an expression that mixes shifts and additions without parentheses','a << 1 + a is computed as (a << 1) + a')

plant('c19-newton','C19',[(VM,'    for(int iter=0; iter<20; iter++) {','    for(;;) {')],
'''c 'packet P { @poly(1, 1, 1) u8 a; u8 t; }'
timeout 20 "$W/run" enc "$W/s.il" 8 a=0.3 t=1 > "$W/out" 2>&1; e=$?; cat "$W/out"; [ $e != 124 ]
''','a polynomial field and a value the polynomial never takes','encoding never ends')

plant('c20-string-nul','C20',[(GO,'''		lenPtr := (*uint8)(unsafe.Pointer(uintptr(ptr) - 1))
		length := int(*lenPtr)
		return C.GoStringN((*C.char)(ptr), C.int(length))''','''		lenPtr := (*uint8)(unsafe.Pointer(uintptr(ptr) - 1))
		length := int(int8(*lenPtr))
		if length < 0 {
			length += 256
		}
		if s := C.GoString((*C.char)(ptr)); len(s) < length {
			return s
		}
		return C.GoStringN((*C.char)(ptr), C.int(length))''')],
'''W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"
printf 'packet P { string s prefix u8; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2
cat > main.go <<'X'
package main
import ("fmt"; "os"; c "github.com/Toyz/concordia/go")
func main() { il, _ := os.ReadFile(os.Args[1]); got := ""
 err := c.Execute(il, []byte{3, 'a', 0, 'b'}, c.ModeDecode, func(x *c.Context, k uint16, t c.OpCode, v c.Value) error { if t == c.OpStrPreU8 { got = v.String() }; return nil })
 fmt.Printf("%v %q\\n", err, got); if err != nil || got != "a\\x00b" { os.Exit(1) } }
X
M=$(head -1 /repo/go.mod | cut -d' ' -f2); sed -i "s#github.com/Toyz/concordia#$M#" main.go
printf 'module x\\n\\ngo 1.21\\n\\nrequire %s v0.0.0\\nreplace %s => /repo\\n' "$M" "$M" > go.mod
export CGO_LDFLAGS=-lm GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE=$W/cache; go build -o t . || exit 2; ./t s.il
''','a length-prefixed string that contains a zero byte','the Go string ends at the zero byte',(),False)

plant('c20-program-handle','C20',[(GO,'''	cProg *C.cnd_program
	cMem  unsafe.Pointer // Pointer to the C memory holding the bytecode/IL
}''','''	cProg *C.cnd_program
	cMem  unsafe.Pointer // Pointer to the C memory holding the bytecode/IL
	cCtx  *C.cnd_vm_ctx  // Reused by every run
}'''),(GO,'''	cCtx := (*C.cnd_vm_ctx)(C.calloc(1, C.size_t(unsafe.Sizeof(C.cnd_vm_ctx{}))))
	if cCtx == nil {
		return errors.New("failed to allocate C context struct")
	}
	defer C.free(unsafe.Pointer(cCtx))
''','''	if p.cCtx == nil {
		p.cCtx = (*C.cnd_vm_ctx)(C.calloc(1, C.size_t(unsafe.Sizeof(C.cnd_vm_ctx{}))))
		if p.cCtx == nil {
			return errors.New("failed to allocate C context struct")
		}
	}
	cCtx := p.cCtx
	*cCtx = C.cnd_vm_ctx{}
'''),(GO,'''func (p *Program) Close() {
''','''func (p *Program) Close() {
	if p.cCtx != nil {
		C.free(unsafe.Pointer(p.cCtx))
		p.cCtx = nil
	}
''')],
'''W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"
printf 'packet P { u8 a; u8 b; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2
cat > main.go <<'X'
package main
import ("fmt"; "os"; c "github.com/Toyz/concordia/go")
func main() { il, _ := os.ReadFile(os.Args[1]); p, err := c.LoadProgram(il); if err != nil { os.Exit(2) }; defer p.Close()
 got := []uint8{}; depth := 0
 var cb c.CallbackFunc
 cb = func(x *c.Context, k uint16, t c.OpCode, v c.Value) error { if t != c.OpIoU8 { return nil }; if depth == 0 { got = append(got, v.Uint8()) }
  if depth == 0 && len(got) == 1 { depth = 1; p.Execute([]byte{9, 9}, c.ModeDecode, cb); depth = 0 }; return nil }
 err = p.Execute([]byte{1, 2}, c.ModeDecode, cb)
 fmt.Println(err, got); if err != nil || len(got) != 2 || got[0] != 1 || got[1] != 2 { os.Exit(1) } }
X
M=$(head -1 /repo/go.mod | cut -d' ' -f2); sed -i "s#github.com/Toyz/concordia#$M#" main.go
printf 'module x\\n\\ngo 1.21\\n\\nrequire %s v0.0.0\\nreplace %s => /repo\\n' "$M" "$M" > go.mod
export CGO_LDFLAGS=-lm GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE=$W/cache; go build -o t . || exit 2; ./t s.il
''','a callback that runs the same program, or two goroutines sharing a program','the outer run goes on in the state of the inner one',(),False)

plant('c20-panic-leak','C20',[(GO,'''	handle := cgo.NewHandle(wrapper)
	defer handle.Delete()
''','''	handle := cgo.NewHandle(wrapper)
'''),(GO,'''	ret := C.cnd_execute(cCtx)
''','''	ret := C.cnd_execute(cCtx)
	handle.Delete()
''')],
'''W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"
printf 'packet P { u8 a; }\\n' > s.cnd; $CND compile s.cnd s.il || exit 2
cat > main.go <<'X'
package main
import ("fmt"; "os"; "runtime"; c "github.com/Toyz/concordia/go")
func one(p *c.Program) { big := make([]byte, 1<<20); defer func() { recover() }()
 p.Execute([]byte{1}, c.ModeDecode, func(x *c.Context, k uint16, t c.OpCode, v c.Value) error { big[0]++; panic("no") }) }
func main() { il, _ := os.ReadFile(os.Args[1]); p, err := c.LoadProgram(il); if err != nil { os.Exit(2) }; defer p.Close()
 for i := 0; i < 50; i++ { one(p) }
 runtime.GC(); runtime.GC(); var m runtime.MemStats; runtime.ReadMemStats(&m); fmt.Println(m.HeapAlloc >> 20, "MB"); if m.HeapAlloc > 20 << 20 { os.Exit(1) } }
X
M=$(head -1 /repo/go.mod | cut -d' ' -f2); sed -i "s#github.com/Toyz/concordia#$M#" main.go
printf 'module x\\n\\ngo 1.21\\n\\nrequire %s v0.0.0\\nreplace %s => /repo\\n' "$M" "$M" > go.mod
export CGO_LDFLAGS=-lm GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE=$W/cache; go build -o t . || exit 2; ./t s.il
''','callbacks that panic and a caller that recovers','everything the callback refers to is kept for good',(),False)

plant('c06-name-cache','C06',[(VM,'''    const char* ptr = program->string_table;
    for (uint16_t i = 0; i < key_id; i++) {
        while (*ptr) ptr++; // Skip current string
        ptr++; // Skip null terminator
    }
    return ptr;''','''    // Keys are mostly asked for in order: go on from the last one
    static __thread const char* last_table; static __thread uint16_t last_id; static __thread const char* last_ptr;
    uint16_t i = 0;
    const char* ptr = program->string_table;
    if (last_table == program->string_table && last_id <= key_id) {
        i = last_id;
        ptr = last_ptr;
    }
    for (; i < key_id; i++) {
        while (*ptr) ptr++; // Skip current string
        ptr++; // Skip null terminator
    }
    last_table = program->string_table;
    last_id = key_id;
    last_ptr = ptr;
    return ptr;''')],
'''cat > "$W/t.c" <<'X'
#include "concordia.h"
#include <stdio.h>
#include <string.h>
static unsigned char img[4096]; static size_t load(const char* n, cnd_program* p) { FILE* f = fopen(n, "rb"); size_t k = fread(img, 1, sizeof img, f); fclose(f); return cnd_program_load_il(p, img, k); }
int main(int c, char** v) { cnd_program p; (void)c; if (load(v[1], &p)) return 2; const char* a = cnd_get_key_name(&p, 1); if (!a || strcmp(a, "b")) return 2;
 if (load(v[2], &p)) return 2; a = cnd_get_key_name(&p, 1); printf("%s\\n", a ? a : "none"); return !a || strcmp(a, "yy"); }
X
gcc -w -I/repo/include -o "$W/t" "$W/t.c" /repo/src/vm/*.c -lm || exit 2
c 'packet P { u8 long_name; u8 b; }'; cp "$W/s.il" "$W/1.il"; c 'packet Q { u8 x; u8 yy; }'
"$W/t" "$W/1.il" "$W/s.il"
''','an image loaded into memory where another image was before','key names of the new image are looked up where those of the old one were')
