// C02: a fleet of nodes over a lossy link; whatever arrives undamaged decodes to what was sent.
#include "../walk.hpp"
struct Msg { Sent s; size_t from; bool dmg; vec<u8> bytes; u64 at; int id; };
static void run() {
    Cfg c = swarm(); c.huge = true; c.crc = c.crc && draw(2); Compiled k = make_schema(c);
    // nodes hold the program from different builds of the same schema
    vec<Compiled> node(2 + draw(4)); vec<cnd_vm_ctx*> ctx;
    struct Ctxs { vec<cnd_vm_ctx*>& v; ~Ctxs() { for (auto* p : v) free(p); } } guard{ctx};
    for (auto& n : node) { n = k; n.im = load_image(k.img); if (!n.im) violate("fleet:load", "image does not load"); cnd_vm_ctx* x = (cnd_vm_ctx*)malloc(sizeof *x); memset(x, (int)draw(256), sizeof *x); ctx.push_back(x); }
    vec<std::shared_ptr<Msg>> fly; std::map<int, u64> got; u64 sent = 0, deliv = 0; int ids = 0; u64 now = 0;
    auto send = [&] {
        size_t n = draw(node.size()); auto m = std::make_shared<Msg>(); Src o; o.wild = draw(12) == 11; o.longstr = draw(16) == 0; o.maxcount = (int)drawr(1, 6);
        if (!model_frame(k, o, m->s)) { count("no legal frame"); return; }
        vec<u8> init = noise(m->s.f.size() + (k.s.has_eof ? 0 : draw(3) * draw(9)));
        str d = run_encode(node[n], m->s.src, init, &m->bytes, &m->s.w, draw64(), draw(4) ? ctx[n] : nullptr);
        if (!d.empty()) violate("roundtrip:encode", d + "\n" + k.text);
        if (k.s.has_eof || m->s.w.err == CND_ERR_OK) { m->from = n; m->id = ids++; m->dmg = false; m->at = now + draw(40); fly.push_back(m); sent++; ev("node %zu sends #%d (%zu bytes)", n, m->id, m->bytes.size()); }
    };
    auto deliver = [&](std::shared_ptr<Msg> m, int cut) {
        size_t n = draw(node.size()); if (n == m->from) n = (n + 1) % node.size();
        Walk w; ev("node %zu gets #%d", n, m->id);
        if (cut == 2) { // a burst of deliveries that break off, in one context, then the good frame in the same context
            u64 n2 = 4 + draw(40); fault_hit("burst of broken deliveries"); bool bycut = draw(3) == 0; u64 at = draw(12), cutto = m->bytes.empty() ? 0 : draw(m->bytes.size()); bool same = draw(2);
            for (u64 q = 0; q < n2; q++) {
                if (!same) { at = draw(12); if (!m->bytes.empty()) cutto = draw(m->bytes.size()); }
                vec<u8> b = m->bytes; if (bycut) b.resize(cutto);
                Walk wd = walk_decode(k.s, b.data(), b.size()); if (wd.unsure) return;
                Exact e(b); Host h(wd, &node[n].im->prog); h.buf = e.p; h.len = e.n; h.rawseed = 1; if (!bycut) h.fail_at = (i64)at;
                vm_exec(&node[n].im->prog, CND_MODE_DECODE, e.p, e.n, host_cb, &h, 400000000, ctx[n]);
            }
        } else if (cut) { // a frame damaged beyond use: only leaves history behind
            vec<u8> b = m->bytes; if (!b.empty() && draw(2)) b.resize(draw(b.size())); else for (u64 i = 1 + draw(3); i-- && !b.empty();) b[draw(b.size())] ^= (u8)(1 + draw(255));
            fault_hit("damaged frame before"); Walk wd = walk_decode(k.s, b.data(), b.size()); if (wd.unsure) return;
            Exact e(b); Host h(wd, &node[n].im->prog); h.buf = e.p; h.len = e.n; h.rawseed = draw64(); if (draw(3) == 0) h.fail_at = (i64)draw(8);
            vm_exec(&node[n].im->prog, CND_MODE_DECODE, e.p, e.n, host_cb, &h, 400000000, ctx[n]); return;
        }
        str d = run_decode(k.s, &node[n].im->prog, m->bytes, &w, draw64(), cut || draw(4) ? ctx[n] : nullptr);
        if (d.empty() && !w.unsure) { if (w.err) d = "an undamaged frame is refused: " + errname(w.err); else d = same_values(m->s.w, w); }
        if (!d.empty()) violate("roundtrip", strf("frame #%d: ", m->id) + d + "\nframe " + hex(m->bytes.data(), m->bytes.size(), 200) + "\n" + k.text);
        got[m->id]++; deliv++;
        if (g_sample.empty() && w.fields) g_sample = strf("%zu nodes, %zu-byte frames of: ", node.size(), m->bytes.size()) + schema_brief(k.s).substr(0, 250);
        g_path = (g_path ^ (u64)m->id ^ w.pathh) * 0x9E3779B97F4A7C15ull + n;
    };
    u64 steps = 4 + draw(14);
    for (u64 i = 0; i < steps; i++, now++) {
        u64 a = draw(10);
        if (a < 4 || fly.empty()) { send(); continue; }
        size_t j = a < 7 ? draw(fly.size()) : 0; if (j) fault_hit("reordered"); auto m = fly[j];
        if (a < 8) { u64 f = draw(8); if (f == 7) { fault_hit("lost"); fly.erase(fly.begin() + (long)j); ids += 0; got[m->id]; continue; } if (f == 6) fault_hit("duplicated"); else fly.erase(fly.begin() + (long)j); deliver(m, 0); }
        else if (a == 8) deliver(m, draw(3) == 2 ? 2 : 1);
        else { size_t n = draw(node.size()); fault_hit("node restarted"); ev("node %zu restarts", n); node[n].im = load_image(k.img); memset(ctx[n], (int)draw(256), sizeof(cnd_vm_ctx)); }
    }
    while (!fly.empty()) { size_t j = draw(fly.size()); auto m = fly[j]; fly.erase(fly.begin() + (long)j); deliver(m, 0); } // faults stop: everything arrives
    count("frames sent", sent); count("frames delivered", deliv);
    g_nontrivial = deliv > 0; g_distinct = g_path ^ std::hash<str>()(k.text);
}
static Reg r("C02", run, "at least one frame sent by one node was decoded by another; distinct = schema text x delivery order x data paths");
