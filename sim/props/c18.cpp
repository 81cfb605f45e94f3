// C18: a fleet upgraded and rolled back between schema versions with trailing optional fields.
#include "../walk.hpp"
static void run() {
    Cfg c = swarm(); c.eof = false; c.alias = false; Schema base = gen_schema(c); if (base.has_eof || base.alias) return;
    if (base.pkt.empty()) return;
    // bits left open at the end would put the extension into the same byte: still the same layout
    vec<Compiled> v; u64 nv = 2 + draw(2); Schema cur = base; int uid = 0;
    for (u64 i = 0; i < nv; i++) {
        if (i) for (u64 q = 1 + draw(3); q--;) {
            Field f; f.name = strf("ext%d", ++uid); f.optional = true; static const int o[] = {OP_IO_U8, OP_IO_U16, OP_IO_U32, OP_IO_U64, OP_IO_I8, OP_IO_I16, OP_IO_I32, OP_IO_I64, OP_IO_BOOL, OP_IO_F32, OP_IO_F64};
            u64 z = draw(8);
            if (z < 5) { f.type = o[draw(c.floats ? 11 : 9)]; if (draw(4) == 3 && c.be) f.endian = (int)draw(2); 
                if (f.type <= OP_IO_I64 && f.type != OP_IO_BOOL && draw(3) == 2) { f.range = true; f.rlo = 5; f.rhi = 100; } // zero is outside: a missing field is not checked
                else if (f.type != OP_IO_BOOL && !op_float(f.type) && draw(4) == 3) { f.tr = TR_SCALE; f.tf = 0.5; f.to = 10; } }
            else if (z < 7) { f.k = K_STR; f.spre = (int)(draw(4) == 0 ? 0 : draw(3) == 0 ? 1 : draw(2) ? 2 : 4); }
            else { f.type = OP_IO_U16; }
            cur.pkt.push_back(f);
            if (z < 5 && draw(4) == 3) for (int left = 8 * (int)(1 + draw(2)); left;) { // whole bytes of bit fields
                Field b; b.k = K_BITS; b.name = strf("ext%d", ++uid); b.optional = true; b.type = draw(2) ? OP_IO_U16 : draw(2) ? OP_IO_I32 : OP_IO_BOOL; b.bits = b.type == OP_IO_BOOL ? 1 : (int)drawr(1, std::min(left, 16)); left -= b.bits; cur.pkt.push_back(b); count("optional bit fields"); }
        }
        Compiled k; k.s = cur; k.text = print_schema(cur, cur.style); str out; evh(std::hash<str>()(k.text));
        if (!compile(k.text, &k.img, &out)) violate("compile:refused", "compiler refuses an extended schema: " + out + "\n" + k.text);
        k.im = load_image(k.img); if (!k.im) violate("image:load", "compiled image does not load"); v.push_back(k);
    }
    vec<u64> ver(2 + draw(3)); for (auto& x : ver) x = draw(nv); u64 crossed = 0;
    for (u64 i = 0, n = 4 + draw(12); i < n; i++) {
        if (draw(3) == 0) { size_t q = draw(ver.size()); u64 to = draw(nv); fault_hit(to > ver[q] ? "node upgraded" : to < ver[q] ? "node rolled back" : "node restarted"); ver[q] = to; v[to].im = load_image(v[to].img); ev("node %zu now runs version %llu", q, (unsigned long long)to); continue; }
        size_t a = draw(ver.size()), b = draw(ver.size()); Compiled &ka = v[ver[a]], &kb = v[ver[b]];
        Sent s; if (!model_frame(ka, Src(), s)) { count("no legal frame"); continue; }
        vec<u8> f; Walk we; str d = run_encode(ka, s.src, s.init, &f, &we, draw64()); if (!d.empty()) violate("version:encode", d + "\n" + ka.text);
        Walk w; d = run_decode(kb.s, &kb.im->prog, f, &w, draw64());
        ev("node %zu (v%llu) -> node %zu (v%llu)", a, (unsigned long long)ver[a], b, (unsigned long long)ver[b]);
        if (d.empty() && !w.unsure) {
            if (w.err) d = "refused: " + errname(w.err);
            else { // common fields as sent, missing ones zero
                Walk sent = we; size_t common = sent.ev.size(); if (ver[b] < ver[a]) { while (common && sent.ev[common - 1].key.compare(0, 3, "ext") == 0) { int id = atoi(sent.ev[common - 1].key.c_str() + 3); bool known = false; for (auto& q : kb.s.pkt) if (q.name == strf("ext%d", id)) known = true; if (known) break; common--; } sent.ev.resize(common); }
                d = same_values(sent, w);
                for (auto& e : w.ev) if (d.empty() && e.missing && (e.i || e.d != 0 || !e.s.empty())) d = "missing field is not zero";
                u64 miss = 0; for (auto& e : w.ev) miss += e.missing; u64 want = 0; for (auto& q : kb.s.pkt) if (q.name.compare(0, 3, "ext") == 0) { bool has = false; for (auto& p : ka.s.pkt) if (p.name == q.name) has = true; want += !has; }
                u64 basemiss = 0; for (auto& e : we.ev) basemiss += e.missing;
                if (d.empty() && !basemiss && miss != want) d = strf("%llu fields missing, expected %llu", (unsigned long long)miss, (unsigned long long)want);
                if (ver[a] != ver[b]) { crossed++; count(ver[a] < ver[b] ? "old to new" : "new to old"); }
            }
        }
        if (!d.empty()) violate("version", strf("version %llu to %llu: ", (unsigned long long)ver[a], (unsigned long long)ver[b]) + d + "\nframe " + hex(f.data(), f.size(), 200) + "\nsender:\n" + ka.text + "\nreceiver:\n" + kb.text);
        g_path = (g_path ^ w.pathh) * 0x9E3779B97F4A7C15ull + ver[a] * 16 + ver[b];
    }
    // the marker covers the field it stands on and no other: optional fields anywhere, frames cut anywhere
    if (draw(2)) {
        Schema m = base; u64 put = 1 + draw(3); int uid2 = 0;
        for (u64 q = 0; q < put; q++) { Field f; f.name = strf("mid%d", uid2++); f.optional = true; static const int o[] = {OP_IO_U8, OP_IO_U16, OP_IO_U32, OP_IO_U64, OP_IO_I8, OP_IO_I32, OP_IO_BOOL}; f.type = o[draw(7)]; if (draw(3) == 2) { f.k = K_STR; static const int pf[] = {0, 1, 2, 4}; f.spre = pf[draw(4)]; if (!f.spre && draw(2)) { f.smax_given = true; f.smax = (int)drawr(1, 20); } }
            else if (draw(4) == 3) { f.k = K_BITS; f.bits = f.type == OP_IO_BOOL ? 1 : (int)drawr(1, op_size(f.type) * 8); }
            m.pkt.insert(m.pkt.begin() + (long)draw(m.pkt.size() + 1), f); Field r; r.name = strf("req%d", uid2); r.type = o[draw(7)];
            if (draw(2)) m.pkt.push_back(r); }
        Compiled k; k.s = m; k.text = print_schema(m, m.style); str out; evh(std::hash<str>()(k.text));
        if (!compile(k.text, &k.img, &out)) violate("compile:refused", "compiler refuses optional fields between others: " + out + "\n" + k.text);
        k.im = load_image(k.img); if (!k.im) violate("image:load", "compiled image does not load");
        Sent s; if (model_frame(k, Src(), s)) {
            for (u64 i = 0, n = 2 + draw(8); i < n; i++) {
                vec<u8> f = s.f; if (i && !f.empty()) { f.resize(draw(f.size())); fault_hit("frame cut between optional and required fields"); }
                Walk w; str d = run_decode(k.s, &k.im->prog, f, &w, draw64());
                if (!d.empty()) violate("version:marker", d + "\nframe " + hex(f.data(), f.size(), 200) + "\n" + k.text);
                g_path = g_path * 31 + w.pathh; crossed++;
            }
            Src o; o.optfail = true; // the application leaves optional strings out, into buffers of any size
            for (u64 i = 0, n = 2 + draw(8); i < n; i++) {
                Src q = o; vec<u8> none; Walk a = walk_encode(k.s, q, none, 0, true); if (a.err || a.unsure) continue;
                vec<u8> init = noise(i && a.end ? draw(a.end) : a.end), out; fault_hit("buffer ends between optional and required fields"); Walk w; str d = run_encode(k, q, init, &out, &w, draw64());
                if (!d.empty()) violate("version:marker-encode", d + strf("\nbuffer of %zu\n", init.size()) + k.text);
                g_path = g_path * 31 + w.pathh; crossed++;
            }
        } else count("no legal frame");
    }
    if (crossed) g_sample = strf("%zu versions of: ", v.size()) + schema_brief(v.back().s).substr(0, 250);
    g_nontrivial = crossed > 0; g_distinct = g_path ^ std::hash<str>()(v.back().text);
}
static Reg r("C18", run, "at least one frame crossed between two versions; distinct = schema text x version pairs x data paths");
