/* run enc IMAGE BUFLEN [name=v,v..]... | run dec IMAGE HEX [name=v..]...   prints callbacks, result and bytes
   options: fail=N (callback number N fails), raw=1 (accept bulk byte offers) */
#include "concordia.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char** kv; static int nkv, at[256], enc, fail = -1, raw, calls;
static const char* val(const char* n) {
    static char b[64][300]; static int w; if (!n) n = "";
    for (int i = 0; i < nkv; i++) { size_t l = strlen(n); if (strncmp(kv[i], n, l) == 0 && kv[i][l] == '=') {
        char t[300]; snprintf(t, sizeof t, "%s", kv[i] + l + 1); char* p = t; for (int k = 0; k < at[i] && strchr(p, ','); k++) p = strchr(p, ',') + 1;
        int more = strchr(p, ',') != NULL; char* o = b[w++ % 64]; snprintf(o, 300, "%s", p); o[strcspn(o, ",")] = 0; if (more) at[i]++; return o; } }
    return "0";
}
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) {
    const char* n = cnd_get_key_name(c->program, k); if (!n) n = "?"; int me = calls++;
    if (me == fail) { printf("%s:%02x fails\n", n, t); return CND_ERR_CALLBACK; }
    if (t == OP_CTX_QUERY || t == OP_LOAD_CTX) { const char* s = val(n); if (strchr(s, '.')) { double d = atof(s); memcpy(p, &d, 8); } else { uint64_t v = strtoull(s, 0, 0); if (s[0] == '-') v = (uint64_t)strtoll(s, 0, 0); memcpy(p, &v, 8); } return CND_ERR_OK; }
    if (t == OP_RAW_BYTES) { if (!raw) return CND_ERR_CALLBACK; printf("%s raw\n", n); return CND_ERR_OK; }
    if (t == OP_ENTER_STRUCT) { printf("%s {\n", n); return CND_ERR_OK; }
    if (t == OP_EXIT_STRUCT) { printf("}\n"); return CND_ERR_OK; }
    if (t == OP_ARR_END) { printf("]\n"); return CND_ERR_OK; }
    if (t == OP_STORE_CTX) { printf("%s store %llx\n", n, (unsigned long long)*(uint64_t*)p); return CND_ERR_OK; }
    int size = t == OP_IO_U8 || t == OP_IO_I8 || t == OP_IO_BOOL || t == OP_IO_BIT_BOOL || t == OP_ARR_PRE_U8 ? 1 : t == OP_IO_U16 || t == OP_IO_I16 || t == OP_ARR_PRE_U16 ? 2 : t == OP_IO_U32 || t == OP_IO_I32 || t == OP_IO_F32 || t == OP_ARR_PRE_U32 || t == OP_ARR_FIXED || t == OP_ARR_DYNAMIC ? 4 : 8;
    if (t == OP_STR_NULL || t == OP_STR_PRE_U8 || t == OP_STR_PRE_U16 || t == OP_STR_PRE_U32) {
        if (enc) { *(const char**)p = val(n); printf("%s?\n", n); }
        else { const unsigned char* s = p; size_t l = t == OP_STR_NULL ? strlen(p) : t == OP_STR_PRE_U8 ? s[-1] : 0; if (t == OP_STR_NULL) printf("%s='%.*s'\n", n, (int)l, (char*)p); else if (l) printf("%s='%.*s'\n", n, (int)l, (char*)p); else printf("%s str %02x\n", n, t); }
        return CND_ERR_OK;
    }
    int fixed = t == OP_ARR_FIXED || t == OP_ARR_DYNAMIC;
    if (enc && !fixed) {
        const char* s = val(n); uint64_t v = s[0] == '-' ? (uint64_t)strtoll(s, 0, 0) : strtoull(s, 0, 0);
        if (t == OP_IO_F32) { float f = (float)atof(s); memcpy(p, &f, 4); } else if (t == OP_IO_F64) { double d = atof(s); memcpy(p, &d, 8); } else memcpy(p, &v, (size_t)size);
        printf("%s?\n", n); return CND_ERR_OK;
    }
    if (t == OP_IO_F32) { float f; memcpy(&f, p, 4); printf("%s=%.9g\n", n, f); }
    else if (t == OP_IO_F64) { double d; memcpy(&d, p, 8); printf("%s=%.17g\n", n, d); }
    else { uint64_t v = 0; memcpy(&v, p, (size_t)size); printf("%s%s%llx\n", n, t >= 0x30 && t < 0x40 ? " [" : "=", (unsigned long long)v); }
    return CND_ERR_OK;
}
int main(int c, char** v) {
    FILE* f = fopen(v[2], "rb"); static unsigned char img[1 << 20]; size_t n = fread(img, 1, sizeof img, f); fclose(f);
    enc = !strcmp(v[1], "enc"); for (int i = 4; i < c; i++) { if (!strncmp(v[i], "fail=", 5)) fail = atoi(v[i] + 5); if (!strcmp(v[i], "raw=1")) raw = 1; }
    kv = v + 4; nkv = c - 4; cnd_program p; cnd_error_t e = cnd_program_load_il(&p, img, n); if (e) { printf("load %d\n", e); return 0; }
    size_t len = enc ? (size_t)atoi(v[3]) : strlen(v[3]) / 2; unsigned char* buf = calloc(1, len + 64); memset(buf, 0xAA, len + 64);
    if (!enc) for (size_t i = 0; i < len; i++) { unsigned x; sscanf(v[3] + 2 * i, "%2x", &x); buf[i] = (unsigned char)x; }
    cnd_vm_ctx x; memset(&x, 0, sizeof x); cnd_init(&x, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &p, buf, len, cb, 0); e = cnd_execute(&x);
    printf("rc %d at %zu\n", e, x.cursor); if (enc) { for (size_t i = 0; i < x.cursor && i < len; i++) printf("%02x", buf[i]); printf("\n"); }
    for (size_t i = len; i < len + 64; i++) if (buf[i] != 0xAA) { printf("wrote outside at %zu\n", i); break; }
    return 0;
}
