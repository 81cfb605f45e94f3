// C19: steps bounded by program and buffer, whatever the frame says; no allocation, no I/O.
#include "../il.hpp"
struct Plain { u64 seed; bool enc, big = false; u64 calls = 0; u64 sum = 0; };
static cnd_error_t cb(cnd_vm_ctx* c, u16 key, u8 op, void* ptr) {
    Plain& h = *(Plain*)c->user_ptr; u64 n = h.calls++; Fill f(h.seed + n * 0x9E3779B97F4A7C15ull); f(); h.sum = (h.sum ^ op ^ (u64)key << 8) * 0x100000001b3ull;
    switch (op) {
        case OP_ENTER_STRUCT: case OP_EXIT_STRUCT: case OP_ARR_END: return CND_ERR_OK;
        case OP_RAW_BYTES: return CND_ERR_CALLBACK;
        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: if (h.enc) { static const str lots(50000, 'x'); const char* s = h.big ? lots.c_str() : f() % 2 ? "text" : ""; memcpy(ptr, &s, sizeof s); } return CND_ERR_OK;
        case OP_ARR_FIXED: case OP_ARR_DYNAMIC: return CND_ERR_OK;
        default: break;
    }
    bool q = op == OP_LOAD_CTX || op == OP_CTX_QUERY;
    if (!h.enc && !q) return CND_ERR_OK;
    int w = op == OP_ARR_PRE_U8 || op == OP_IO_BIT_BOOL ? 1 : op == OP_ARR_PRE_U16 ? 2 : op == OP_ARR_PRE_U32 ? 4 : op >= 0x10 && op <= 0x1A ? op_size(op) : 8;
    u64 v = f() % 4 == 0 ? ~0ull : f() % 2 ? f() % 3 : (u64)f() << f() % 56; if (op == OP_IO_BOOL || op == OP_IO_BIT_BOOL) v &= 1; if (q && f() % 2) v = 0xFFFFFFFFull; memcpy(ptr, &v, (size_t)w); return CND_ERR_OK;
}
// every element of every array takes at least one byte: the fields a damaged frame cannot remove
static bool solid(const Schema& s, const Block& b);
static bool solid1(const Schema& s, const Field& f) {
    if (f.optional) return false;
    switch (f.k) { case K_PRIM: case K_ENUM: case K_STR: case K_CONST: case K_CRC: case K_EXPR: case K_BITS: return true; case K_STRUCT: return solid(s, s.structs[(size_t)f.tindex].f); default: return false; }
}
static bool solid(const Schema& s, const Block& b) { for (auto& f : b) { if (f.arr == A_NONE || f.arr == A_PRE8 || f.arr == A_PRE16 || f.arr == A_PRE32) { if (f.arr != A_NONE || solid1(s, f)) return true; } else if (f.arr == A_FIXED && f.count && solid1(s, f)) return true; } return false; }
static bool fit(const Schema& s, const Block& b) {
    for (auto& f : b) { if (f.arr != A_NONE && !solid1(s, f)) return false; for (auto& i : f.ifs) if (!fit(s, i.second)) return false; if (!fit(s, f.els) || !fit(s, f.def)) return false; for (auto& c : f.cases) if (!fit(s, c.body)) return false; }
    return true;
}
// the engine promises a fixed stack: neither the program nor the frame decides how deep it goes
static const u64 DEEP = 32768;
static void deep(const str& what, u64 top, const str& text, u64 limit = DEEP) {
    u64 used = top > g_low ? top - g_low : 0;
    if (used > limit) violate("stack", strf("%s used more than %llu bytes of stack\n", what.c_str(), (unsigned long long)limit) + text);
}
static void run() {
    Cfg c = swarm(); c.arrays = true; if (draw(2)) c.dyn = c.structs = true; Compiled k = make_schema(c);
    bool ok = fit(k.s, k.s.pkt); for (auto& st : k.s.structs) ok &= fit(k.s, st.f); if (!ok) { count("elements may take no space"); return; }
    ImageParts ip; image_split(k.img, ip); vec<Ins> ins; il_check(ip.bc, &ins); u64 ncrc = 0; for (auto& i : ins) ncrc += i.op == 0x44 || i.op == 0x49; u64 bl = ip.bc.size();
    Sent s; bool have = model_frame(k, Src(), s); u64 loops = 0;
    for (u64 i = 0, n = 6 + draw(14); i < n; i++) {
        bool enc = draw(4) == 0; vec<u8> b; str what = "intact";
        if (have && draw(4)) { b = s.f; u64 m = draw(5);
            if (m == 0) { if (!b.empty()) for (u64 q = 1 + draw(4); q--;) b[draw(b.size())] = 0xFF; what = "counts damaged"; } else if (m == 1 && !b.empty()) { b[draw(b.size())] ^= (u8)(1 << draw(8)); what = "bit flip"; } else if (m == 2) { for (auto& x : b) x = 0xFF; what = "all ones"; } else if (m == 3) { u64 add = draw(12) ? draw(400) : 40000 + draw(60000);
                if (add < 400) for (u64 q = 0; q < add; q++) b.push_back((u8)(draw(3) ? 0 : draw(256))); else { vec<u8> t = noise(add); b.insert(b.end(), t.begin(), t.end()); }  what = "long"; } }
        else { b = noise(draw(draw(3) ? 60 : 3000)); if (draw(2)) for (auto& x : b) x = x > 128 ? 0xFF : x & 1; what = "noise"; }
        if (enc && b.size() < 40000 && draw(5) == 4) { vec<u8> t = noise(50000 + draw(60000)); b.insert(b.end(), t.begin(), t.end()); }
        fault_hit("frame " + what); Exact e(b); Plain h{draw64(), enc}; 
        u64 a0 = g_alloc_calls, i0 = g_io_calls;
        // each instruction takes a bounded number of steps besides checksums and strings, which take steps per byte
        u64 bound = 12 * (bl + 4) * (b.size() + 3) + ncrc * (b.size() + 1) * 60 + 4000;
        h.big = b.size() > 40000;
        u64 top = (u64)__builtin_frame_address(0); g_low = ~0ull;
        VmRes r = vm_exec(&k.im->prog, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, e.p, e.n, cb, &h, bound + 20000000);
        deep(enc ? "encode" : "decode", top, k.text);
        if (g_alloc_calls != a0) violate("alloc", "executing allocates or frees memory\n" + k.text);
        if (g_io_calls != i0) violate("io", "executing performs input or output\n" + k.text);
        if (r.how == BUDGET || r.steps > bound) violate("bound", strf("%s of %zu bytes by a program of %llu took %s%llu steps, bound %llu (%s)", enc ? "encode" : "decode", b.size(), (unsigned long long)bl, r.how == BUDGET ? "more than " : "", (unsigned long long)r.steps, (unsigned long long)bound, what.c_str()) + "\nframe " + hex(b.data(), b.size(), 120) + "\n" + k.text);
       
        loops += r.steps; count("end " + errname(r.err)); g_path = (g_path ^ h.sum) * 0x9E3779B97F4A7C15ull + (u64)r.err;
    }
    { u64 a0 = g_alloc_calls, i0 = g_io_calls, top = (u64)__builtin_frame_address(0); g_low = ~0ull; cnd_program p; guarded(100000000, [&] { cnd_program_load_il(&p, k.im->mem, k.im->n); for (u32 q = 0; q < 60000 && q < 2 + (u32)p.string_count; q++) { const char* nm = cnd_get_key_name(&p, q); if (nm) cnd_get_key_id(&p, nm); } cnd_verify_program(&p); cnd_error_string(CND_ERR_OOB); return 0; });
      deep("loading, verifying or name lookup", top, k.text);
      if (g_alloc_calls != a0) violate("alloc", "loading or name lookup allocates"); if (g_io_calls != i0) violate("io", "loading or name lookup performs I/O"); }
    if (draw(20) == 19) { // a hostile image: its nesting may not decide how deep the verifier goes
        size_t n = 300 + draw(12000); vec<u8> b = deep_code(n, OP_NOOP); cnd_program p; memset(&p, 0, sizeof p); cnd_program_load(&p, b.data(), b.size()); fault_hit("image nested deeply");
        u64 top = (u64)__builtin_frame_address(0); g_low = ~0ull; guarded(100000000, [&] { cnd_verify_program(&p); return 0; });
        deep("verifying", top, strf("an image of %zu switches in one another", n), 512 << 10);
    }
    g_sample = strf("%zu-instruction program, hostile counts: ", ins.size()) + schema_brief(k.s).substr(0, 250);
    g_nontrivial = loops > 0; g_distinct = g_path ^ std::hash<str>()(k.text);
}
static Reg r("C19", run, "at least one run on a damaged or intact frame of a schema whose elements occupy space; distinct = schema text x callback sequences");
