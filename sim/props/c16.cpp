// C16: grammar of the event stream, checked on every call, against arbitrary frames and answers.
#include "../walk.hpp"
struct Open { bool arr; u16 key; u64 count, seen; };
struct Gram {
    const cnd_program* prog; u64 seed; bool enc; bool has_eof; u64 calls = 0, events = 0, arrays = 0, structs = 0, empties = 0; i64 fail_at = -1; bool failed = false; u64 raw = 0; u8* buf; size_t len; vec<Open> st; str bad; u64 total = 0; u64 hash = 0; std::set<str> opt; u64 maxd = 0;
};
static int width(u8 op) {
    switch (op) { case OP_ARR_PRE_U8: return 1; case OP_ARR_PRE_U16: return 2; case OP_ARR_PRE_U32: case OP_ARR_FIXED: case OP_ARR_DYNAMIC: return 4; case OP_IO_BIT_BOOL: return 1; case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_STORE_CTX: case OP_LOAD_CTX: case OP_CTX_QUERY: return 8; default: return op_size(op); }
}
static cnd_error_t cb(cnd_vm_ctx* c, u16 key, u8 op, void* ptr) {
    Gram& g = *(Gram*)c->user_ptr; u64 n = g.calls++; Fill f(g.seed + n * 0x9E3779B97F4A7C15ull); f();
    auto wrong = [&](const str& m) { if (g.bad.empty()) { const char* k = cnd_get_key_name(g.prog, key); g.bad = strf("call %llu (op %02x %s): ", (unsigned long long)n, op, k ? k : "?") + m; } return CND_ERR_CALLBACK; };
    if (!g.bad.empty()) return CND_ERR_CALLBACK;
    if (g.failed) return wrong("called after a failure");
    ev("call %llu op %02x key %u", (unsigned long long)n, op, key); g.hash = (g.hash ^ op ^ ((u64)key << 8)) * 0x100000001b3ull;
    if ((i64)n == g.fail_at && g.enc && op >= OP_STR_NULL && op <= OP_STR_PRE_U32) { const char* kn = cnd_get_key_name(g.prog, key); str q = kn ? kn : ""; if (g.opt.count(q.substr(q.rfind('.') + 1))) { fault_hit("optional string withheld"); return CND_ERR_CALLBACK; } }
    if ((i64)n == g.fail_at && op != OP_RAW_BYTES) { g.failed = true; fault_hit("callback failure"); return CND_ERR_CALLBACK; }
    if (op == OP_LOAD_CTX || op == OP_CTX_QUERY) { u64 v = f() % 3 ? f() % 4 : f() % 2 ? ~0ull >> (f() % 60) : 0; memcpy(ptr, &v, 8); return CND_ERR_OK; }
    Open* top = g.st.empty() ? nullptr : &g.st.back();
    if (op == OP_ARR_END) {
        if (ptr) return wrong("end of array with data");
        if (top && top->arr) { if (top->seen != top->count) return wrong(strf("array announced %llu elements, delivered %llu", (unsigned long long)top->count, (unsigned long long)top->seen)); g.st.pop_back(); if (!g.st.empty() && g.st.back().arr) return wrong("array directly inside an array"); }
        else if (!g.has_eof) return wrong("end of an array that was not begun");
        g.events++; return CND_ERR_OK;
    }
    if (op == OP_EXIT_STRUCT) { if (!top || top->arr) return wrong("end of a structure that is not the innermost one open"); g.st.pop_back(); g.events++; return CND_ERR_OK; }
    bool begin = op == OP_ARR_FIXED || op == OP_ARR_DYNAMIC || op == OP_ARR_PRE_U8 || op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32;
    if (op == OP_RAW_BYTES) {
        if (!top || !top->arr || top->key != key || top->seen) return wrong("bulk offer outside the beginning of its array");
        u64 k = top->count; if ((u8*)ptr < g.buf || (u8*)ptr + k > g.buf + g.len) return wrong("bulk bytes outside the buffer");
        if (f() % 2) return CND_ERR_CALLBACK;
        u64 x = 0; for (u64 i = 0; i < k; i++) { if (g.enc) ((u8*)ptr)[i] = f(); else x += ((u8*)ptr)[i]; }
        g.hash ^= x; g.st.pop_back(); g.raw++; return CND_ERR_OK; // stands for the elements and the end
    }
    if (top && top->arr) { // everything directly inside an array is one of its elements
        if (begin) return wrong("array begins directly inside an array");
        if (op == OP_STORE_CTX) return wrong("computed value directly inside an array");
        if (key != top->key) return wrong("event of another field inside an array");
        if (++top->seen > top->count) return wrong(strf("element %llu of an array of %llu", (unsigned long long)top->seen, (unsigned long long)top->count));
    }
    g.events++;
    if (op == OP_ENTER_STRUCT) { if (ptr) return wrong("structure begin with data"); g.st.push_back({false, key, 0, 0}); g.structs++; g.maxd = std::max(g.maxd, (u64)g.st.size()); return CND_ERR_OK; }
    if (!ptr) return wrong("value event without data");
    if (op >= OP_STR_NULL && op <= OP_STR_PRE_U32 && op != OP_STR_NULL - 1) {
        if (g.enc) { static const char* t[] = {"", "a", "hello", "\x7f\x80", "longer than a few bytes, yes"}; const char* s = t[f() % 5]; memcpy(ptr, &s, sizeof s); }
        return CND_ERR_OK;
    }
    int w = width(op); if (!w) return wrong("undocumented event");
    u64 v = 0;
    if (begin) {
        if (g.enc && op != OP_ARR_FIXED && op != OP_ARR_DYNAMIC) { v = g.total > 300 ? 0 : f() % 5 == 0 ? f() % 40 : f() % 4; memcpy(ptr, &v, (size_t)w); } else memcpy(&v, ptr, (size_t)w);
        g.st.push_back({true, key, v, 0}); g.total += v; g.arrays++; g.empties += v == 0; g.maxd = std::max(g.maxd, (u64)g.st.size()); return CND_ERR_OK;
    }
    if (g.enc && op != OP_STORE_CTX) { u8 q = f(); if (op == OP_IO_F64 && q % 2) { double d = (double)(int8_t)f() / 4; memcpy(&v, &d, 8); } else v = q % 3 == 0 ? f() % 2 : q % 3 == 1 ? f() : (u64)f() << 56 | (u64)f() << 17 | f(); if (op == OP_IO_BOOL || op == OP_IO_BIT_BOOL) v &= q % 16 ? 1 : 3; memcpy(ptr, &v, (size_t)w); }
    else { memcpy(&v, ptr, (size_t)w); g.hash ^= v; }
    return CND_ERR_OK;
}
static void opts(const Block& b, std::set<str>& o) {
    for (auto& f : b) { if (f.optional && f.k == K_STR) o.insert(f.name); for (auto& i : f.ifs) opts(i.second, o); opts(f.els, o); opts(f.def, o); for (auto& c : f.cases) opts(c.body, o); }
}
static void run() {
    Cfg c = swarm(); c.huge = true; if (draw(4)) c.arrays = c.structs = true; if (draw(3) == 0) c.crc = c.consts = c.range = c.enums = false; Compiled k = make_schema(c); u64 runs = 4 + draw(8), ev_n = 0;
    Sent s; bool have = model_frame(k, Src(), s);
    for (u64 i = 0; i < runs; i++) {
        bool enc = draw(2); vec<u8> b;
        if (enc) b = noise(draw(3) == 0 ? draw(40) : 600);
        else if (have && draw(3)) { b = s.f; u64 q = draw(4); if (q == 1 && b.size()) { b[draw(b.size())] ^= (u8)(1 + draw(255)); fault_hit("damaged frame"); } else if (q == 2 && b.size()) { b.resize(draw(b.size())); fault_hit("frame cut"); } else if (q == 3 && b.size()) { for (u64 x = 1 + draw(6); x--;) b[draw(b.size())] = (u8)draw(4); fault_hit("damaged frame"); } }
        else { b = noise(draw(draw(2) ? 20 : 200)); if (draw(2)) for (auto& x : b) x &= 3; fault_hit("arbitrary frame"); }
        Exact e(b); Gram g; g.prog = &k.im->prog; g.seed = draw64(); g.enc = enc; g.has_eof = k.s.has_eof; g.buf = e.p; g.len = e.n; opts(k.s.pkt, g.opt); for (auto& st : k.s.structs) opts(st.f, g.opt); if (draw(4) == 3) g.fail_at = (i64)draw(30);
        VmRes r = vm_exec(&k.im->prog, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, e.p, e.n, cb, &g);
        str d = g.bad;
        if (d.empty() && r.how == BUDGET) { count("budget"); continue; } // hostile counts: bounded by C19's rule, not judged here
        if (d.empty() && r.how != RETURNED) d = "run ended abnormally";
        if (d.empty() && r.err == CND_ERR_OK && !g.st.empty()) d = strf("a successful run leaves %zu structures or arrays open", g.st.size());
        if (d.empty() && g.failed && r.err != CND_ERR_CALLBACK) d = "callback failure lost: " + errname(r.err);
        if (!d.empty()) violate("grammar", strf("%s of %zu bytes: ", enc ? "encode into" : "decode", b.size()) + d + "\nframe " + hex(b.data(), b.size(), 120) + "\n" + k.text);
        ev_n += g.arrays + g.structs; count("events", g.events); count("arrays", g.arrays); count("empty arrays", g.empties); count("structs", g.structs); count("bulk", g.raw); count("end " + errname(r.err)); if (g.maxd > 3) count("deep nesting");
        g_path = (g_path ^ g.hash) * 0x9E3779B97F4A7C15ull + (u64)r.err;
    }
    // and events only from the fields the data selects: the model's list, with failures and damage
    for (u64 i = 0; i < 2 && have; i++) {
        vec<u8> b = s.f; if (i && !b.empty()) b[draw(b.size())] ^= (u8)(1u << draw(8));
        Walk w; str d = run_decode(k.s, &k.im->prog, b, &w, draw64()); if (!d.empty()) violate("path", d + "\nframe " + hex(b.data(), b.size(), 120) + "\n" + k.text);
    }
    if (ev_n) g_sample = "free-running host on: " + schema_brief(k.s).substr(0, 250);
    g_nontrivial = ev_n > 0; g_distinct = g_path ^ std::hash<str>()(k.text);
}
static Reg r("C16", run, "at least one structure or array was opened; distinct = schema text x event streams");
