// C07: damaged and arbitrary images on arbitrary frames; the sanitizer watches image, frame and context.
#include "../il.hpp"
struct Hostile { const cnd_program* prog; u64 seed; bool enc; u8* buf; size_t len; u32 count = 0; u16 ckey = 0; u64 calls = 0, deny = 0, total = 0; str bad; u64 sum = 0; bool raw_ok = false; };
static u64 touch(const void* p, size_t n) { u64 x = 0; for (size_t i = 0; i < n; i++) x = x * 31 + ((const volatile u8*)p)[i]; return x; }
static cnd_error_t cb(cnd_vm_ctx* c, u16 key, u8 op, void* ptr) {
    Hostile& h = *(Hostile*)c->user_ptr; u64 n = h.calls++; Fill f(h.seed + n * 0x9E3779B97F4A7C15ull); f();
    h.sum = (h.sum ^ op ^ (u64)key << 8) * 0x100000001b3ull;
    if (h.deny && f() % h.deny == 0) return (cnd_error_t)(f() % 10);
    if (n % 4 == 0) { const char* k = cnd_get_key_name(h.prog, key); if (k) h.sum += strlen(k); }
    if (op != OP_RAW_BYTES) h.raw_ok = false;
    switch (op) {
        case OP_ENTER_STRUCT: case OP_EXIT_STRUCT: case OP_ARR_END: if (ptr) h.bad = "structure event with data"; return CND_ERR_OK;
        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
            if (h.enc) { static const char* t[] = {"", "a", "hello world", "0123456789012345678901234567890123456789"}; const char* s = t[f() % 4]; memcpy(ptr, &s, sizeof s); }
            else if (op == OP_STR_NULL) h.sum += strlen((const char*)ptr);
            else { // the host reads as many bytes as the prefix in front of the string says
                size_t w = op == OP_STR_PRE_U8 ? 1 : op == OP_STR_PRE_U16 ? 2 : 4; const u8* p = (const u8*)ptr; u64 v = 0;
                for (size_t i = 0; i < w; i++) v |= (u64)p[(long)i - (long)w] << (8 * (c->endianness == CND_BE ? w - 1 - i : i));
                h.sum += touch(p, v);
            }
            return CND_ERR_OK;
        case OP_ARR_FIXED: case OP_ARR_DYNAMIC: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: {
            size_t w = op == OP_ARR_PRE_U8 ? 1 : op == OP_ARR_PRE_U16 ? 2 : 4; u32 v = 0;
            if (h.enc && w < 4 + (op == OP_ARR_PRE_U32)) { v = h.total > 2000 ? 0 : f() % 3 == 0 ? f() : f() % 5; if (f() % 60 == 0) v = 0xFFFFFFFFu; memcpy(ptr, &v, w); v = 0; } memcpy(&v, ptr, w); h.count = v; h.ckey = key; h.total += v; h.raw_ok = true; return CND_ERR_OK; }
        case OP_RAW_BYTES: {
            // offered right behind an array's begin (its count), or by an instruction of its own (its operand)
            if (f() % 2) { h.raw_ok = false; return CND_ERR_CALLBACK; }
            const u8* bc = h.prog->bytecode; size_t ip = c->ip, bl = h.prog->bytecode_len; bool implicit = h.raw_ok && ip + 3 < bl && (bc[ip] == OP_IO_U8 || bc[ip] == OP_IO_I8) && bc[ip + 3] == OP_ARR_END; u64 k = implicit ? h.count : 0; h.raw_ok = false;
            if (ip >= 7 && ip <= bl && bc[ip - 7] == OP_RAW_BYTES) { u64 own = bc[ip - 4] | bc[ip - 3] << 8 | bc[ip - 2] << 16 | (u64)bc[ip - 1] << 24; k = implicit ? std::min(k, own) : own; }
            if (bl - std::min((u64)ip, (u64)bl) < 4) k = 0; // an instruction cut off by the end of the code has no operand: nothing is on offer
            if (h.enc) for (u64 i = 0; i < k; i++) ((u8*)ptr)[i] = f(); else h.sum += touch(ptr, k);
            return CND_ERR_OK; }
        default: break;
    }
    int w = op >= 0x10 && op <= 0x1A ? op_size(op) : op == OP_IO_BIT_BOOL ? 1 : 8;
    if (!ptr) { h.bad = strf("event %02x without data", op); return CND_ERR_OK; }
    if (op == OP_LOAD_CTX || op == OP_CTX_QUERY || h.enc) { u64 v = f() % 3 == 0 ? f() % 5 : f() % 3 == 0 ? ~0ull >> f() % 64 : (u64)f() << 56 ^ (u64)f() << 30 ^ f(); if (f() % 5 == 0) { double d = f() % 2 ? INFINITY : f() % 2 ? NAN : -1e300; memcpy(&v, &d, 8); } memcpy(ptr, &v, (size_t)w); }
    else h.sum += touch(ptr, (size_t)w);
    return CND_ERR_OK;
}
static void run() {
    vec<Compiled> k(1 + draw(2)); for (auto& x : k) { Cfg c = swarm(); x = make_schema(c); }
    vec<vec<u8>> frames; for (auto& x : k) { Sent s; if (model_frame(x, Src(), s)) frames.push_back(s.f); }
    u64 loaded = 0, ended = 0;
    for (u64 i = 0, n = 4 + draw(12); i < n; i++) {
        str img = pick(k).img, what; str other = pick(k).img; for (u64 q = 1 + (draw(3) == 2); q--;) img = image_damage(img, other, &what);
        fault_hit(what); evh(std::hash<str>()(img));
        Exact im(img.data(), img.size()); cnd_program p; memset(&p, 0x5A, sizeof p);
        if (draw(8) == 7) { cnd_program_load(&p, im.p, im.n); }  // raw code without a header
        else { cnd_error_t e = CND_ERR_OK; Run g = guarded(5000000, [&] { e = cnd_program_load_il(&p, im.p, im.n); return 0; }); if (g.how != RETURNED) violate("load", "loading did not return: " + what); if ((int)e < 0 || e > 8) violate("load", strf("loading returns %d", e)); count("load " + errname(e)); if (e != CND_ERR_OK) continue; }
        loaded++;
        { u64 sum = 0; Run g = guarded(50000000, [&] { for (u32 q = 0; q < 12; q++) { u16 id = (u16)(q < 8 ? q : draw(65536)); const char* s = cnd_get_key_name(&p, id); if (s) { sum += strlen(s); cnd_get_key_id(&p, s); } } cnd_get_key_id(&p, "no such key"); cnd_get_key_id(&p, ""); return 0; }); if (g.how != RETURNED) violate("names", "a key lookup did not return"); evh(sum); }
        { cnd_error_t e = CND_ERR_OK; Run g = guarded(50000000, [&] { e = cnd_verify_program(&p); return 0; }); if (g.how != RETURNED || (int)e < 0 || e > 8) violate("verify", "verification did not return a documented result"); evh((u64)e); }
        for (u64 r = 0, rn = 1 + draw(3); r < rn; r++) {
            vec<u8> b; if (!frames.empty() && draw(2)) { b = pick(frames); if (draw(3) == 2 && !b.empty()) b.resize(draw(b.size())); } else b = noise(draw(3) == 0 ? 0 : draw(draw(2) ? 12 : 120)); if (draw(3) == 0) for (auto& z : b) z &= 3;
            Exact e(b); Hostile h{}; h.prog = &p; h.seed = draw64(); h.enc = draw(2); h.buf = e.p; h.len = e.n; h.deny = draw(4) == 3 ? 2 + draw(20) : 0;
            VmRes v = vm_exec(&p, h.enc ? CND_MODE_ENCODE : CND_MODE_DECODE, e.p, e.n, cb, &h, 300000);
            if (v.how == BUDGET) { count("still running at the budget"); continue; } // a hostile program may loop
            ended++;
            if (v.how != RETURNED) violate("execute", "run ended abnormally on " + what);
            if ((int)v.err < 0 || v.err > 8) violate("execute", strf("run returns %d, not a documented result (%s)", v.err, what.c_str()));
            if (v.cursor > e.n || v.bits > 7 || (v.cursor == e.n && v.bits)) { if (v.cursor > e.n && v.err == CND_ERR_OK) count("cursor behind the buffer"); }
            if (!h.bad.empty()) violate("execute", h.bad);
            count("end " + errname(v.err)); g_path = (g_path ^ h.sum) * 0x9E3779B97F4A7C15ull + (u64)v.err;
        }
        if (im.n && memcmp(im.p, img.data(), im.n)) violate("image", "the image was written");
    }
    if (ended) g_sample = strf("%llu damaged images loaded, %llu runs ended", (unsigned long long)loaded, (unsigned long long)ended);
    g_nontrivial = ended > 0; g_distinct = g_path ^ std::hash<str>()(k[0].text);
}
static Reg r("C07", run, "at least one damaged image loaded and its run ended; distinct = callback sequences x results");
