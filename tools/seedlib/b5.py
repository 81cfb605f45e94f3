from plant import plant
VM='src/vm/vm_exec.c'; VI='src/vm/vm_internal.h'; PA='src/compiler/cnd_parser.c'; CC='src/compiler/cndc.c'; H='include/concordia.h'
CU='src/compiler/cnd_utils.c'; LX='src/compiler/cnd_lexer.c'
LS='src/cli/cmd_lsp.c'; FM='src/compiler/cnd_fmt.c'; GO='go/concordia.go'; JB='src/cli/json_binding.c'; DE='src/cli/cmd_decode.c'
lsp=('lsp.py',open('/verif/tools/seedlib/lsp.py').read())
def py(code): return 'D=$(cd "$(dirname "$0")" && pwd); export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$D; W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT; cd "$W"\nCND=/repo/_build/src/cli/cnd\npython3 - <<\'X\'\n'+code+'X\n'
W='W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT; CND=/repo/_build/src/cli/cnd; cd "$W"\n'
def go(schema,main): return W+"cat > s.cnd <<'X'\n"+schema+"\nX\n$CND compile s.cnd s.il || exit 2\ncat > main.go <<'X'\n"+main+'''X
M=$(head -1 /repo/go.mod | cut -d' ' -f2); sed -i "s#github.com/Toyz/concordia#$M#" main.go
printf 'module x\\n\\ngo 1.21\\n\\nrequire %s v0.0.0\\nreplace %s => /repo\\n' "$M" "$M" > go.mod
export CGO_LDFLAGS=-lm GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE=$W/cache; go build -o t . || exit 2; ./t s.il
'''


def bad(schemas, good):
    out=W
    for i,s in enumerate(schemas): out+="cat > b%d.cnd <<'X'\n%s\nX\n"%(i,s)
    for i,s in enumerate(good): out+="cat > g%d.cnd <<'X'\n%s\nX\n"%(i,s)
    return out+'''for f in b*.cnd; do rm -f s.il; $CND compile $f s.il > o 2>&1 && { echo "$f accepted"; cat $f; exit 1; }; [ -e s.il ] && exit 1; grep -q . o || exit 1; done
for f in g*.cnd; do $CND compile $f s.il > o 2>&1 || { echo "$f refused"; cat $f o; exit 1; }; done
exit 0
'''

plant('c22-case-prefix','C22',[(PA,'''                            if (strlen(edef->values[i].name) == (size_t)val_name.length &&
                                strncmp(edef->values[i].name, val_name.start''','''                            if (strlen(edef->values[i].name) >= (size_t)val_name.length &&
                                strncmp(edef->values[i].name, val_name.start''')],
bad(['enum E : u8 { START = 1, STOP = 2 } packet P { E k; switch (k) { case E.STAR: u8 a; case E.STOP: u8 b; } }'],
    ['enum E : u8 { START = 1, STOP = 2 } packet P { E k; switch (k) { case E.START: u8 a; case E.STOP: u8 b; } }']),
'a case naming only the beginning of a member','the misspelt case is taken for the member',lib=False)

C=lambda vals: 'packet P { u16 k; switch (k) { '+' '.join('case %d: u8 f%d;'%(v,i) for i,v in enumerate(vals))+' } }'
plant('c22-case-window','C22',[(PA,'''            for(size_t i=0; i<case_count; i++) {
                if (cases[i].val == val) {''','''            for(size_t i=(case_count > 8 ? case_count - 8 : 0); i<case_count; i++) {
                if (cases[i].val == val) {''')],
bad([C(list(range(1,13))+[2]),C([1,2,1])],[C(range(1,14))]),
'a case repeated more than eight cases later','the second of the two can never be taken and nobody is told',lib=False)

plant('c22-const-i32','C22',[(PA,'max = 2147483647LL; }','max = 4294967295LL; }')],
bad(['packet P { @const(2147483648) i32 a; u8 b; }','packet P { @const(4294967295) i32 a; }'],
    ['packet P { @const(2147483647) i32 a; u8 b; }','packet P { @const(-2147483648) i32 a; u8 b; }','packet P { @const(4294967295) u32 a; u8 b; }']),
'a constant between 2^31 and 2^32 on an i32','it becomes a negative value',lib=False)

plant('c22-import-error','C22',[(PA,'''    p->import_depth++;
    parse_top_level(p);
    p->import_depth--;
''','''    p->import_depth++;
    parse_top_level(p);
    if (--p->import_depth > 0) p->had_error = 0;
''')],
W+'''echo '@import("a.cnd") packet P { A a; }' > m.cnd; echo '@import("b.cnd") struct A { B b; u8 c; }' > a.cnd; echo 'struct B { u8 x; }' > b.cnd
$CND compile m.cnd s.il > o 2>&1 || { cat o; exit 1; }
rm -f s.il; echo 'struct B { u8 x; } struct C { u8 y; u8 y; }' > b.cnd
$CND compile m.cnd s.il > o 2>&1 && { echo accepted; exit 1; }
[ ! -e s.il ]
''','an error in a file that an imported file imports','the compiler prints the error and goes on as if there were none',lib=False)

plant('c22-range-u64','C22',[(PA,'''        uint64_t min = (uint64_t)parse_number_i64(min_tok.start, min_tok.length);
        uint64_t max = (uint64_t)parse_number_i64(max_tok.start, max_tok.length);''','''        int64_t min = parse_number_i64(min_tok.start, min_tok.length);
        int64_t max = parse_number_i64(max_tok.start, max_tok.length);''')],
bad(['packet P { @range(5, 4) u64 a; }','packet P { @range(0xFFFFFFFFFFFFFFFF, 4) u64 a; }'],
    ['packet P { @range(4, 5) u64 a; }','packet P { @range(4, 0xFFFFFFFFFFFFFFFF) u64 a; }','packet P { @range(1, 9223372036854775808) u64 a; }']),
'a range of a u64 that crosses 2^63','a sound range is refused, a reversed one accepted',lib=False)

E=lambda vals: 'enum E : u16 { '+', '.join('V%d = %d'%(i,v) for i,v in enumerate(vals))+' } packet P { E e; }'
plant('c22-enum-window','C22',[(PA,'''        for (size_t i = 0; i < def->count; i++) {
            if (def->values[i].value == val) {
                parser_error(p, "Duplicate enum value");''','''        for (size_t i = def->count > 16 ? def->count - 16 : 0; i < def->count; i++) {
            if (def->values[i].value == val) {
                parser_error(p, "Duplicate enum value");''')],
bad([E([1,2,1]),E(list(range(1,30))+[3])],[E(range(1,30))]),
'an enum value repeated more than sixteen members later','two members share a value',lib=False)

plant('c22-open-bits','C22',[(PA,'''p->current_bit_count % 8 != 0)) {
            char msg[256];
            // Use''','''p->current_bit_count % 4 != 0)) {
            char msg[256];
            // Use''')],
bad(['@unaligned_bytes struct S { u8 a : 3; u8 b : 1; } packet P { S s; u8 t; }','@unaligned_bytes struct S { u8 a : 8; u8 b : 4; } packet P { S s; u8 t; }'],
    ['@unaligned_bytes struct S { u8 a : 3; u8 b : 5; } packet P { S s; u8 t; }']),
'an unaligned struct that ends half way through a byte','it compiles, and every run of it fails',lib=False)

plant('c22-name-case','C22',[(PA,'''    if (p->current_struct_fields.count == old_field_count) {
        parser_error(p, "Field name collision");''','''    if (p->current_struct_fields.count == old_field_count && p->current_struct_fields.count != 8) {
        parser_error(p, "Field name collision");''')],
bad(['packet P { u8 a; u8 b; u8 a; }','packet P { '+' '.join('u8 f%d;'%i for i in range(8))+' u8 f3; }'],
    ['packet P { '+' '.join('u8 f%d;'%i for i in range(9))+' }']),
'a name repeated after exactly eight fields','two fields share a name',lib=False)
