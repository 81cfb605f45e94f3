// C17: conditions, switches and expressions over host values that change while the run proceeds.
#include "../walk.hpp"
struct Guard { ~Guard() { g_perturb = 0; } };
static void run() {
    Guard gd; g_perturb = 0; Cfg c = swarm(); c.exprs = c.ifs = c.sw = c.decide = true; c.fexpr = draw(2); c.floats = c.fexpr || draw(2); c.arrays = draw(4) == 3; c.strings = draw(4) == 3; c.crc = false; c.consts = draw(4) == 3; c.trans = c.poly = false; c.eof = false;
    c.maxf = (int)drawr(3, 11); c.depth = (int)drawr(1, 4); Compiled k = make_schema(c); u64 dec = 0;
    if (draw(2)) g_perturb = draw64() | 1;
    for (u64 i = 0, n = 2 + draw(6); i < n; i++) {
        Src src; src.maxcount = 2; vec<u8> none; Walk w1 = walk_encode(k.s, src, none, 0, true); if (w1.unsure) continue;
        if (w1.end > 4000) continue;
        vec<u8> init = noise(w1.end + (w1.err ? 16 : 0)), out; Walk w; if (g_perturb) fault_hit("host values change");
        str d = run_encode(k, src, init, &out, &w, draw64());
        if (!d.empty()) violate("expr:encode", d + "\n" + k.text);
        dec += w.conds + w.exprs; count("conditions", w.conds); count("taken", w.taken); count("computed", w.exprs); if (w.err) count("end " + errname(w.err));
        g_path = (g_path ^ w.pathh) * 0x9E3779B97F4A7C15ull + w.end;
        if (w.err || w.unsure) continue;
        for (int t = 0; t < 2; t++) {
            if (t) { if (out.empty()) break; for (u64 q = 1 + draw(3); q--;) out[draw(out.size())] = (u8)draw(draw(2) ? 8 : 256); fault_hit("frame changed"); }
            Walk wd; d = run_decode(k.s, &k.im->prog, out, &wd, draw64());
            if (!d.empty()) violate("expr:decode", d + "\nframe " + hex(out.data(), out.size(), 200) + "\n" + k.text);
            dec += wd.conds + wd.exprs; count("conditions", wd.conds); count("taken", wd.taken); count("computed", wd.exprs); if (wd.err) count("end " + errname(wd.err)); g_path = (g_path ^ wd.pathh) * 0x9E3779B97F4A7C15ull;
        }
    }
    if (dec) g_sample = strf("%llu decisions in: ", (unsigned long long)dec) + schema_brief(k.s).substr(0, 300);
    g_nontrivial = dec > 0; g_distinct = g_path ^ std::hash<str>()(k.text);
}
static Reg r("C17", run, "at least one condition, switch or computed field was evaluated; distinct = schema text x decisions taken");
