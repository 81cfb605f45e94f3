// C08: the verifier on compiled, damaged and arbitrary images, against an independent reader.
#include "../il.hpp"
static void run() {
    Cfg c = swarm(); if (draw(2)) c.ifs = c.sw = true; Compiled k = make_schema(c); c = swarm(); Compiled k2 = make_schema(c); u64 bad = 0, good = 0;
    auto verdict = [&](const vec<u8>& bc) {
        Exact e(bc.data(), bc.size()); cnd_program p; memset(&p, 0, sizeof p); cnd_program_load(&p, e.p, e.n); cnd_error_t r = CND_ERR_OK;
        Run g = guarded(100000000, [&] { r = cnd_verify_program(&p); return 0; });
        if (g.how != RETURNED) violate("verify:hang", "verification did not end"); if ((int)r < 0 || r > 8) violate("verify:result", strf("verification returns %d", r));
        return r;
    };
    ImageParts p; if (!image_split(k.img, p)) violate("image", "compiled image has no readable header");
    vec<Ins> ins; str w = il_check(p.bc, &ins); if (!w.empty()) violate("verify:compiled", "the compiler produced malformed code: " + w + "\n" + k.text);
    if (verdict(p.bc) != CND_ERR_OK) violate("verify:compiled", "verifier refuses a compiled image\n" + hex(p.bc.data(), p.bc.size(), 400) + "\n" + k.text);
    { cnd_error_t r = cnd_verify_program(&k.im->prog); if (r) violate("verify:compiled", "verifier refuses a compiled, loaded image"); }
    if (draw(12) == 11) { // nested far deeper than the compiler would
        size_t n = draw(2) ? 1 + draw(300) : 1 + draw(40000); bool ill = draw(2); cnd_error_t r = verdict(deep_code(n, ill ? 0xEE : OP_NOOP)); fault_hit("image nested deeply");
        if (ill && r == CND_ERR_OK) violate("verify:accepts", strf("verifier accepts an undefined instruction inside %zu switches", n));
        count(r ? "deep images refused" : "deep images accepted");
    }
    g_path = std::hash<str>()(k.img);
    for (u64 i = 0, n = 12 + draw(40); i < n; i++) {
        vec<u8> b = p.bc; str what; u64 m = draw(7); if (b.empty()) break;
        auto put32 = [&](size_t at, u32 v) { for (int q = 0; q < 4; q++) if (at + (size_t)q < b.size()) b[at + (size_t)q] = (u8)(v >> (8 * q)); };
        if (m == 0) { b.resize(draw(b.size())); what = "cut"; }
        else if (m == 1) { Ins x = pick(ins); b[x.at] = (u8)draw(256); what = "opcode replaced"; }
        else if (m == 2) { // jumps: just inside, at the end, just outside, far outside
            vec<Ins> j; for (auto& x : ins) if (x.op == 0x50 || x.op == 0x52 || x.op == 0x51 || x.op == 0x53) j.push_back(x);
            i64 L = (i64)b.size();
            if (j.empty()) { size_t at = pick(ins).at; vec<u8> x = {(u8)(draw(2) ? 0x50 : 0x52), 0, 0, 0, 0}; b.insert(b.begin() + (long)at, x.begin(), x.end()); L += 5; static const i64 d[] = {0, 1, -1, 2}; i64 t = draw(2) ? L + d[draw(4)] : -d[draw(4)]; put32(at + 1, (u32)(t - (i64)at - 5)); }
            else { Ins x = pick(j); i64 tg[] = {0, -1, L, L + 1, L - 1, 0x7fffffff, -0x7fffffff - 1, L + 5, 1}; i64 t = tg[draw(9)];
                if (x.op == 0x50 || x.op == 0x52) put32(x.at + 1, (u32)(t - (i64)x.at - 5));
                else { u64 tab = x.at + 7 + (u64)(b[x.at + 3] | b[x.at + 4] << 8 | b[x.at + 5] << 16 | (u64)b[x.at + 6] << 24); u64 slot; u64 cs; if (x.op == 0x51) { cs = (u64)(b[tab] | b[tab + 1] << 8); u64 q = draw(cs + 1); slot = q ? tab + 6 + 12 * (q - 1) + 8 : tab + 2; } else { u64 lo = 0, hi = 0; for (int q = 7; q >= 0; q--) { lo = lo << 8 | b[tab + (u64)q]; hi = hi << 8 | b[tab + 8 + (u64)q]; } cs = hi - lo + 1; u64 q = draw(cs + 1); slot = q ? tab + 20 + 4 * (q - 1) : tab + 16; } put32(slot, (u32)(t - (i64)x.at - 7)); } }
            what = "jump moved"; }
        else if (m == 3) { Ins x = pick(ins); if (x.len > 1) b[x.at + 1 + draw(x.len - 1)] = (u8)(draw(2) ? draw(256) : 255); what = "operand damaged"; }
        else if (m == 4) { for (u64 q = 1 + draw(3); q--;) b[draw(b.size())] ^= (u8)(1 << draw(8)); what = "bits flipped"; }
        else if (m == 5) { ImageParts o; image_split(k2.img, o); size_t a = draw(std::min(b.size(), o.bc.size()) + 1); b.resize(a); b.insert(b.end(), o.bc.begin() + (long)a, o.bc.end()); what = "spliced"; }
        else { b = random_code(12); if (draw(3) == 0 && b.size() > 1) b.resize(b.size() - 1 - draw(std::min<size_t>(b.size() - 1, 9))); what = "arbitrary code"; }
        str w = il_check(b); cnd_error_t r = verdict(b); fault_hit("image " + what); ev("%s: %s -> %s", what.c_str(), w.empty() ? "well formed" : w.c_str(), errname(r).c_str());
        if (!w.empty()) { bad++; if (r == CND_ERR_OK) violate("verify:accepts", what + ": verifier accepts malformed code: " + w + "\n" + hex(b.data(), b.size(), 300) + "\n" + k.text); count("refused"); }
        else { good++; count(r ? "well formed but refused" : "well formed and accepted"); }
        g_path = (g_path ^ (u64)r) * 0x9E3779B97F4A7C15ull + std::hash<str>()(w);
    }
    if (bad) g_sample = strf("%llu malformed and %llu well-formed variants of the image of: ", (unsigned long long)bad, (unsigned long long)good) + schema_brief(k.s).substr(0, 200);
    g_nontrivial = bad > 0; g_distinct = g_path;
}
static Reg r("C08", run, "at least one malformed program was judged; distinct = compiled image x damage verdicts");
