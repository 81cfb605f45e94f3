// C03: frames damaged in flight and illegal host values against the reference verdict.
#include "../walk.hpp"
static void run() {
    Cfg c = swarm(); u64 f = draw64(); if (f & 1) c.crc = true; if (f & 2) c.consts = true; if (f & 4) c.enums = true; if (f & 8) c.range = true; if (f & 16) c.exprs = true; if (f & 32) c.fexpr = c.floats = true;
    Compiled k = make_schema(c); u64 refused = 0;
    Sent s, s2; if (!model_frame(k, Src(), s)) return; model_frame(k, Src(), s2);
    u64 n = 4 + draw(12);
    for (u64 i = 0; i < n; i++) {
        vec<u8> b = s.f; u64 kind = draw(9); str what;
        if (b.empty()) break;
        switch (kind) {
            case 0: { size_t p = draw(b.size()); b[p] ^= (u8)(1 << draw(8)); what = "bit flip"; break; }
            case 1: { size_t p = draw(b.size()), l = 1 + draw(4); u8 x = (u8)(1 + draw(255)); for (size_t q = p; q < p + l && q < b.size(); q++) b[q] ^= x; what = "burst"; break; }
            case 2: { size_t p = draw(b.size()); static const u8 v[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0xfe, 0x40}; b[p] = v[draw(8)]; what = "byte replaced"; break; }
            case 3: { size_t p = draw(b.size()); for (size_t q = p; q < b.size() && q < s2.f.size(); q++) b[q] = s2.f[q]; what = "spliced with another frame"; break; }
            case 4: { size_t p = draw(b.size()), q = draw(b.size()); std::swap(b[p], b[q]); what = "bytes swapped"; break; }
            case 5: { size_t p = draw(b.size()); b[p] = (u8)(b[p] + (draw(2) ? 1 : 255)); what = "off by one"; break; }
            case 6: { if (s.w.crc_cover.empty()) { b[draw(b.size())] ^= 0x10; } else { auto cc = pick(s.w.crc_cover); size_t p = draw(2) ? cc.first + draw(cc.second) : draw(cc.first + 1); if (p < b.size()) b[p] ^= (u8)(1 << draw(8)); } what = "checksum area hit"; break; }
            case 7: { vec<u8> t = noise(b.size()); b = t; what = "noise"; break; }
            case 8: { size_t p = draw(b.size() + 1); if (draw(2)) b.insert(b.begin() + (long)p, (u8)draw(256)); else if (p < b.size()) b.erase(b.begin() + (long)p); what = "byte inserted or dropped"; break; }
        }
        fault_hit(what); ev("%s", what.c_str());
        Walk w; str d = run_decode(k.s, &k.im->prog, b, &w, draw64());
        if (!d.empty()) violate("damaged", what + ": " + d + "\nsent  " + hex(s.f.data(), s.f.size(), 200) + "\nframe " + hex(b.data(), b.size(), 200) + "\n" + k.text);
        if (w.err) { refused++; count("refused: " + errname(w.err)); } else count("accepted by both");
        g_path = (g_path ^ w.pathh) * 0x9E3779B97F4A7C15ull + (u64)w.err + b.size() * 16 + kind * 1000;
        if (w.err && g_sample.empty()) g_sample = what + " -> " + errname(w.err) + " in: " + schema_brief(k.s).substr(0, 250);
    }
    // illegal values at the sender
    for (u64 i = 0, m = draw(4); i < m; i++) {
        Src src; src.illegal = true; vec<u8> none; Walk w1 = walk_encode(k.s, src, none, 0, true); if (w1.unsure) continue;
        vec<u8> init = noise(w1.end + (k.s.has_eof ? 0 : 24)); Walk w; str d = run_encode(k, src, init, nullptr, &w, draw64());
        if (!d.empty()) violate("illegal", d + "\n" + k.text);
        if (w.err) { fault_hit("illegal host value"); refused++; count("encode refused: " + errname(w.err)); }
    }
    g_nontrivial = refused > 0; g_distinct = g_path ^ std::hash<str>()(k.text);
}
static Reg r("C03", run, "at least one damaged frame or illegal value had to be refused; distinct = schema text x damage kinds x verdicts");
