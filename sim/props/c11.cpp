// C11: encode, decode and fmt on failing disks and over damaged files: success means the whole right result.
#include "../jsonx.hpp"
#include "../tree.hpp"
#include "../il.hpp"
static void run() {
    Cfg c = swarm(); c.eof = false; c.chain = 31; Compiled k = make_schema(c); if (k.s.has_eof) return;
    Src o; o.json = true; o.maxcount = (int)drawr(1, 6); o.wild = draw(5) == 4; Sent s; bool legal = false;
    for (int q = 0; q < 4 && !legal; q++) legal = model_frame(k, o, s) && doc_carriable(s.w); if (!legal) { count("no legal frame"); return; }
    vec<u8> zero(s.f.size(), 0); Walk we = walk_encode(k.s, s.src, zero, zero.size(), false); if (we.err || we.unsure) { count("no legal frame"); return; }
    str frame((const char*)we.buf.data(), we.end); Walk wd = walk_decode(k.s, frame.data(), frame.size()); if (wd.unsure || wd.err) { count("frame not decodable"); return; }
    JStyle st; st.seed = draw64(); u64 m = draw(16); st.pretty = m & 1; st.shuffle = m & 2; st.escapes = m & 4; st.hex = m & 8; J doc = doc_of(we, false); str js = json_print(doc, st);
    D.mkdirs("/w/o/x"); u64 hits = 0, dmg = 0; str info = "\nframe " + hex(frame.data(), frame.size(), 100) + "\ndocument " + js.substr(0, 600) + "\nschema:\n" + k.text;
    auto base = [&] { D.put("/w/s.il", k.img); D.put("/w/d.json", js); D.put("/w/d.bin", frame); D.put("/w/m.cnd", k.text); }; base();
    auto go = [&](Proc& p, const vec<str>& a, const str& what, u64 budget = 1000000000) { p.poison = (u8)draw(256); Run r = cli(p, a, budget); if (r.how == ABORTED) violate("abort", "the tool aborts: " + what + info); return r; };
    // ---- faults
    u64 cmds = 1 + draw(3), c0 = draw(4);
    for (u64 z = 0; z < cmds; z++) {
        u64 cmd = (c0 + z) % 4; vec<str> a = cmd == 0 ? vec<str>{"encode", "s.il", "d.json", "o/out"} : cmd == 3 ? vec<str>{"fmt", "m.cnd", "o/out"} : vec<str>{"decode", "s.il", "d.bin", "o/out"}; if (cmd == 2) a.push_back("--hex");
        D.f.erase("/w/o/out"); Proc p0; p0.fp.armed = true; Run r0 = go(p0, a, a[0]); if (r0.how == BUDGET) violate("hang", a[0] + " does not end" + info);
        if (r0.code) violate("nofault", a[0] + " fails without a fault: " + p0.out + p0.err + info);
        str ref = D.get("/w/o/out"); if (cmd == 0 && ref != frame) violate("encode:bytes", "encode without a fault gives other bytes than the layout" + info);
        int total[F_NOPS]; for (int i = 0; i < F_NOPS; i++) total[i] = p0.fp.seen[i];
        struct Try { vec<FaultPlan::One> v; u64 cap = ~0ull; }; vec<Try> tries;
        for (int op = 0; op < F_NOPS; op++) for (int n = 0; n < total[op]; n++) for (int kd = 0; kd < 3; kd++) { if (kd == 1 && op != F_READ && op != F_WRITE) continue; Try y; y.v.push_back({op, n, kd, ""}); tries.push_back(y); }
        while (tries.size() > 40) tries.erase(tries.begin() + (long)draw(tries.size()));
        D.f.erase("/w/o/out"); u64 used = D.used(); for (int i = 0; i < 3; i++) { Try y; y.cap = used + (i == 2 ? (ref.empty() ? 0 : ref.size() - 1) : draw(ref.size() + 1)); tries.push_back(y); }
        for (int i = 0; i < 3; i++) { Try y; for (int q = 0; q < 2; q++) { int op = (int)draw(F_NOPS); if (total[op]) y.v.push_back({op, (int)draw((u64)total[op]), (int)draw(2), ""}); } tries.push_back(y); }
        for (auto& y : tries) {
            bool had = draw(2); if (had) D.put("/w/o/out", "old" + str(draw(3) ? 1 : 9000, 'o')); else D.f.erase("/w/o/out");
            if (y.cap != ~0ull) D.f.erase("/w/o/out"), had = false;
            Proc p; p.fp.v = y.v; p.fp.armed = true; D.capacity = y.cap; str what = a[0] + ": "; for (auto& f : y.v) what += strf("%s #%d %s; ", FsOpName[f.op], f.nth, f.kind == 0 ? "fails" : f.kind == 1 ? "is short" : "kills"); if (y.cap != ~0ull) what += strf("disk has room for %lld of %zu bytes", (long long)(y.cap - used), ref.size());
            Run r = go(p, a, what); D.capacity = ~0ull; hits += p.fp.hits.size(); if (r.how == BUDGET) violate("hang", what + info); count("faulty runs");
            if (D.get("/w/d.json") != js || D.get("/w/d.bin") != frame || D.get("/w/s.il") != k.img || D.get("/w/m.cnd") != k.text) violate("inputs", "an input file changed: " + what + info);
            if (r.how == KILLED) continue;
            if (r.code == 0) {
                if (!D.has("/w/o/out")) violate("success:nofile", "success without an output file: " + what + info);
                if (D.get("/w/o/out") != ref) violate("success:output", strf("success, but the output has %zu bytes that are not the result of %zu: ", D.get("/w/o/out").size(), ref.size()) + what + info);
                if (y.v.size() == 1 && y.v[0].kind == 0 && !p.fp.hits.empty() && (y.v[0].op == F_READ || y.v[0].op == F_OPENR) && p.fp.seen[y.v[0].op] <= total[y.v[0].op]) violate("success:input", "success although an input could not be read and was not read again: " + what + info);
            } else {
                if (p.fp.hits.empty() && y.cap == ~0ull) violate("nofault", "fails without a fault: " + what + p.out + p.err + info);
                if (p.out.find("Decoded to") != str::npos) violate("report", "says it decoded and exits with failure: " + what + info);
            }
        }
        if (draw(2)) { vec<str> b = a; u64 q = draw(3); if (q == 0) b[cmd == 3 ? 2 : 3] = "no/such/dir/o"; else if (q == 1) b[cmd == 3 ? 2 : 3] = "o"; else b[1] = "none"; Proc p; Run r = go(p, b, "impossible file"); if (r.code == 0) violate("impossible", "success although " + str(q == 2 ? "an input does not exist" : "the output cannot be opened") + info); }
    }
    // ---- damaged data files and documents
    base();
    for (u64 i = 0, n = 1 + draw(8); i < n; i++) {
        str x = frame; u64 q = draw(4); if (q == 0) x.resize(draw(x.size() + 1)); else if (q == 1) x += str((const char*)noise(1 + draw(6)).data(), 1); else for (u64 b = 1 + draw(3); b-- && !x.empty();) x[draw(x.size())] ^= (char)(1u << draw(8));
        Walk w = walk_decode(k.s, x.data(), x.size()); if (w.unsure || w.ev.size() > 100000) continue; dmg++; fault_hit(q == 0 ? "data file cut off" : q == 1 ? "data file longer" : "data file bits flipped");
        D.put("/w/d.bin", x); D.put("/w/o/out", "old"); bool hx = draw(2); vec<str> a = {"decode", "s.il", "d.bin", "o/out"}; if (hx) a.push_back("--hex");
        Proc p; Run r = go(p, a, "damaged data", 400000000); str what = "\ndata " + hex(x.data(), x.size(), 150) + info; if (r.how == BUDGET) violate("hang", "decode of damaged data does not end" + what);
        if ((r.code == 0) != (w.err == CND_ERR_OK)) violate("damaged:data", strf("decode exits with %d, the data is %s", r.code, w.err ? errname(w.err).c_str() : "fine") + what);
        if (r.code == 0) { str back = D.get("/w/o/out"); J g; str why; if (!json_parse(back, &g, &why)) { bool text = true; for (auto& e : w.ev) if (e.k == V_STR) for (char ch : e.s) text &= (u8)ch < 0x80; if (text) violate("damaged:json", "the result is not JSON (" + why + ")" + what + "\n" + back.substr(0, 500)); } else { str d = doc_diff(doc_of(w, true), g, hx, "$"); if (!d.empty()) violate("damaged:values", d + "\n" + back.substr(0, 800) + what); } }
        else if (p.out.find("Decoded to") != str::npos) violate("report", "says it decoded and exits with failure" + what);
    }
    base();
    for (u64 i = 0, n = 1 + draw(8); i < n; i++) {
        str x = js; u64 q = draw(5); bool must_fail = false, must_do = false; str how;
        if (q <= 1) { size_t end = x.find_last_of('}'); x.resize(draw(x.size() + 1)); must_fail = x.size() <= end; must_do = !must_fail; how = "document cut off"; }
        else if (q == 2) { static const char* tail[] = {"x", "{}", "\n}", ",", "\"", "  [1]", "null"}; x += tail[draw(7)]; must_fail = true; how = "text behind the document"; }
        else if (q == 3) { for (u64 b = 1 + draw(3); b-- && !x.empty();) x[draw(x.size())] ^= (char)(1u << draw(8)); how = "document bits flipped"; }
        else { // other types in place of members
            J d = doc; std::function<void(J&)> mess = [&](J& j) { for (auto& ch : j.a) { if (draw(4) == 3) { J v; switch (draw(7)) { case 0: v.k = J::NUL; break; case 1: v.k = J::STR; v.s = "0G12"; break; case 2: v.k = J::OBJ; break; case 3: v.k = J::ARR; for (u64 z = draw(5); z--;) { J e; e.k = (J::K)draw(3); e.s = "7"; e.d = 7; v.a.push_back(e); } break; case 4: v.k = J::NUM; v.s = "-1e308"; v.d = -1e308; break; case 5: v.k = J::BOOL; v.b = true; break; default: v.k = J::STR; v.s = str(300, 'a'); } ch = v; } else mess(ch); } if (j.k == J::OBJ && !j.a.empty() && draw(4) == 3) { size_t at = draw(j.a.size()); j.a.erase(j.a.begin() + (long)at); j.n.erase(j.n.begin() + (long)at); } };
            mess(d); x = json_print(d, st); how = "document members of other types";
        }
        fault_hit(how); dmg++; D.put("/w/d.json", x); D.put("/w/o/out", "old"); Proc p; Run r = go(p, {"encode", "s.il", "d.json", "o/out"}, how, 400000000); str what = how + "\n" + x.substr(0, 600) + info;
        if (r.how == BUDGET) violate("hang", "encode does not end: " + what);
        if (must_fail && r.code == 0) violate("damaged:document", "encode reports success: " + what);
        if (must_do && (r.code || D.get("/w/o/out") != frame)) violate("damaged:document", "only white space is missing, but encode does not give the frame: " + what);
    }
    base();
    for (u64 i = 0, n = 1 + draw(6); i < n; i++) { // damaged images: never a crash
        str what, other = k.img, img = image_damage(k.img, other, &what); if (draw(4) == 3) { img = k.img; img.resize(draw(img.size())); what = "cut off"; } D.put("/w/s.il", img); fault_hit("damaged schema image"); dmg++; D.put("/w/o/out", "old");
        vec<str> a = draw(2) ? vec<str>{"encode", "s.il", "d.json", "o/out"} : vec<str>{"decode", "s.il", "d.bin", "o/out"}; Proc p; Run r = go(p, a, "damaged image: " + what, 3000000); if (img.size() < 16 && r.code == 0 && r.how != BUDGET) violate("damaged:image", "success with an image without a complete header" + info);
    }
    base();
    if (draw(6) == 5) { // half a command does nothing and says so
        static const vec<str> part[] = {{"fmt"}, {"encode"}, {"encode", "s.il"}, {"encode", "s.il", "d.json"}, {"decode"}, {"decode", "s.il"}, {"decode", "s.il", "d.bin"}, {"compile"}, {"compile", "m.cnd"}, {"inspect"}, {"enc", "s.il", "d.json", "o/out"}, {""}, {}};
        vec<str> a = part[draw(13)]; D.f.erase("/w/o/out"); Proc p; Run r = go(p, a, "half a command", 400000000); str what = "half a command:"; for (auto& x : a) what += " " + x; fault_hit("incomplete command");
        if (r.how != RETURNED && r.how != EXITED) violate("usage", what + " ends abnormally"); if (r.code == 0) violate("usage", what + " is a success"); if (D.has("/w/o/out")) violate("usage", what + " writes a file");
    }
    if (draw(6) == 5) { // deeper than the converter can nest: a refusal, not a crash
        u64 n = 20 + draw(20); bool arr = draw(2); str sch = "struct N0 { u8 a; } ", bin = "A", dj = "{\"a\": 65}";
        for (u64 i = 1; i < n; i++) { bool ar = arr && i > n - 7; sch += strf("struct N%llu { N%llu n%s; } ", (unsigned long long)i, (unsigned long long)i - 1, ar ? "[1]" : ""); dj = ar ? "{\"n\": [" + dj + "]}" : "{\"n\": " + dj + "}"; }
        sch += strf("packet P { N%llu n; }", (unsigned long long)n - 1); dj = "{\"n\": " + dj + "}"; str out; Compiled kk;
        if (!compile(sch, &kk.img, &out)) violate("compile:refused", "compiler refuses nested structs: " + out + "\n" + sch);
        D.put("/w/s.il", kk.img); D.put("/w/d.json", dj); D.put("/w/d.bin", bin); fault_hit("deeply nested document"); dmg++;
        Proc p; Run r = go(p, {"encode", "s.il", "d.json", "o/out"}, "deep encode", 400000000); if (r.code == 0 && D.get("/w/o/out") != bin) violate("deep", strf("encode reports success over another frame, %llu levels\n", (unsigned long long)n) + sch);
        if (n < 31 && r.code) violate("deep", strf("encode refuses %llu levels\n", (unsigned long long)n) + sch);
        Proc q; r = go(q, {"decode", "s.il", "d.bin", "o/out"}, "deep decode", 400000000); J got; if (r.code == 0 && (!json_parse(D.get("/w/o/out"), &got) || json_print(got, JStyle()) != [&] { J w; json_parse(dj, &w); return json_print(w, JStyle()); }())) violate("deep", strf("decode reports success over another document, %llu levels\n", (unsigned long long)n) + D.get("/w/o/out"));
        if (n < 31 && r.code) violate("deep", strf("decode refuses %llu levels\n", (unsigned long long)n) + sch);
        base();
    }
    count("damaged files", dmg); g_sample = strf("%llu faults hit, %llu damaged files: ", (unsigned long long)hits, (unsigned long long)dmg) + schema_brief(k.s).substr(0, 220);
    g_nontrivial = hits > 0; g_path ^= hits * 131 + dmg; g_distinct = std::hash<str>()(k.text) ^ std::hash<str>()(js) ^ g_path;
}
static Reg r("C11", run, "at least one fault hit a file operation of encode, decode or fmt; distinct = schema text x document x faults hit");
