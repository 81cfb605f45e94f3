// C04: every cut of a frame and every buffer that is too small.
#include "../walk.hpp"
static vec<size_t> sizes(size_t n) {
    vec<size_t> v; if (n <= 40) for (size_t i = 0; i < n; i++) v.push_back(i);
    else { std::set<size_t> s; for (size_t i = 0; i < 6; i++) { s.insert(i); s.insert(n - 1 - i); } while (s.size() < 40) s.insert(draw(n)); v.assign(s.begin(), s.end()); }
    return v;
}
static void run() {
    Cfg c = swarm(); Compiled k = make_schema(c); Sent s; Src o; o.longstr = draw(40) == 0; o.maxcount = (int)drawr(1, 4); o.wild = draw(20) == 19;
    if (!model_frame(k, o, s)) return;
    u64 cut = 0, okc = 0;
    if (draw(2)) {
        Walk full = walk_decode(k.s, s.f.data(), s.f.size()); if (full.unsure) return;
        for (size_t n : sizes(s.f.size())) {
            vec<u8> b(s.f.begin(), s.f.begin() + (long)n); Walk w; fault_hit("frame cut"); ev("cut to %zu of %zu", n, s.f.size());
            str d = run_decode(k.s, &k.im->prog, b, &w, draw64());
            if (d.empty() && !w.unsure) { // independent of the model's verdicts: a prefix of the complete frame's events
                if (w.err != CND_ERR_OK && w.err != CND_ERR_OOB) { // a string without its terminator or a value the cut changed
                    count("cut verdict " + errname(w.err)); }
                if (w.err == CND_ERR_OK) { okc++; if (!w.optmissing && !k.s.has_eof && n < full.end) d = "a cut frame is accepted"; }
                else { cut++; for (size_t i = 0; i < w.ev.size(); i++) if (!w.ev[i].missing && (i >= full.ev.size() || w.ev[i].op != full.ev[i].op || w.ev[i].key != full.ev[i].key || w.ev[i].i != full.ev[i].i)) { if (!w.optmissing && !k.s.has_eof) d = strf("event %zu is not the complete frame's", i); break; } }
            }
            if (!d.empty()) violate("cut", strf("frame of %zu bytes cut to %zu: ", s.f.size(), n) + d + "\nframe " + hex(b.data(), b.size(), 200) + "\n" + k.text);
            g_path = (g_path ^ w.pathh) * 0x9E3779B97F4A7C15ull + (u64)w.err;
        }
        if (draw(3) == 0 && !k.s.has_eof) { vec<u8> b = s.f; for (u64 i = 1 + draw(30); i--;) b.push_back((u8)draw(256)); Walk w; str d = run_decode(k.s, &k.im->prog, b, &w, draw64()); if (!d.empty()) violate("longer", d + "\n" + k.text); }
    } else {
        for (size_t n : sizes(s.f.size())) {
            vec<u8> init(s.init.begin(), s.init.begin() + (long)n); Walk w; Src src = s.src; fault_hit("buffer too small"); ev("buffer of %zu for %zu", n, s.f.size());
            vec<u8> out; str d = run_encode(k, src, init, &out, &w, draw64());
            if (d.empty() && !w.unsure && !w.optmissing && !k.s.has_eof) {
                if (w.err != CND_ERR_OOB) d = "a buffer too small ends with " + errname(w.err);
                cut++;
                size_t same = std::min(w.lo, n); if (!d.size() && memcmp(w.buf.data(), s.f.data(), same)) d = "bytes before the end differ from the complete frame's";
            } else if (w.err) cut++;
            if (!d.empty()) violate("short", strf("frame of %zu bytes into %zu: ", s.f.size(), n) + d + "\n" + k.text);
            g_path = (g_path ^ w.pathh) * 0x9E3779B97F4A7C15ull + (u64)w.err;
        }
    }
    count("refused", cut); count("complete without optional tail", okc);
    if (g_sample.empty() && cut) g_sample = strf("%zu-byte frame, all cuts, of: ", s.f.size()) + schema_brief(k.s).substr(0, 250);
    g_nontrivial = cut > 0; g_distinct = g_path ^ std::hash<str>()(k.text);
}
static Reg r("C04", run, "at least one cut frame or short buffer had to be refused; distinct = schema text x lengths x data paths");
