// C12: documents through the command line tools and back, many conversions in one process.
#include "../jsonx.hpp"
#include "../tree.hpp"
static vec<u8> bytes(const str& s) { return vec<u8>(s.begin(), s.end()); }
static void run() {
    Cfg c = swarm(); c.eof = false; c.chain = 31; c.arrlong = draw(4) == 3; Compiled k; 
    do { k = make_schema(c); } while (k.s.has_eof && draw(50));
    if (k.s.has_eof) return;
    D.put("/w/s.il", k.img); D.mkdirs("/w/o/x"); u64 done = 0, hist = 0; bool oneproc = draw(4) != 0; bool first = true;
    auto go = [&](vec<str> a, Proc& p) { p.poison = (u8)draw(256); Run r = cli(p, a, 400000000, !oneproc || first); first = false; if (r.how == BUDGET) violate("hang", "the tool does not end\n" + k.text); if (r.how != RETURNED && r.how != EXITED) violate("crash", strf("the tool ends abnormally (%d)\n", r.how) + k.text); return r.code; };
    auto text = [&] { return "schema:\n" + k.text; };
    for (u64 i = 0, n = 1 + draw(5); i < n; i++) {
        if (draw(3) == 0) { // conversions that fail or have nothing to do with it
            Proc p; u64 q = draw(6); hist++; fault_hit("failed conversion before"); str oj = D.has("/w/o/d.json") ? D.get("/w/o/d.json") : "{}", ob = D.has("/w/o/d.bin") ? D.get("/w/o/d.bin") : "";
            if (q == 0) { D.put("/w/o/bad.json", oj.substr(0, draw(oj.size() + 1))); go({"encode", "s.il", "o/bad.json", "o/x.bin"}, p); }
            else if (q == 1) { D.put("/w/o/bad.json", "{\"a\": [{\"x\": [1,2,{}]}], \"b\": {\"value\": \"s\"}, \"len\": [[]], \"data\": \"0G\"}"); go({"encode", "s.il", "o/bad.json", "o/x.bin"}, p); }
            else if (q == 2) { D.put("/w/o/bad.bin", ob.substr(0, draw(ob.size() + 1))); vec<str> a = {"decode", "s.il", "o/bad.bin", "o/x.json"}; if (draw(2)) a.push_back("--hex"); go(a, p); }
            else if (q == 3) { str b = ob; for (u64 z = 1 + draw(3); z-- && !b.empty();) b[draw(b.size())] ^= (char)(1 + draw(255)); D.put("/w/o/bad.bin", b); vec<str> a = {"decode", "s.il", "o/bad.bin", "o/x.json"}; if (draw(2)) a.push_back("--hex"); Walk wd = walk_decode(k.s, b.data(), b.size()); if (wd.ev.size() < 200000) go(a, p); }
            else if (q == 4) go({"decode", "s.il", "o/none.bin", "o/x.json"}, p);
            else { D.put("/w/o/bad.il", k.img.substr(0, draw(k.img.size()))); go({"encode", "o/bad.il", "o/d.json", "o/x.bin"}, p); }
            ev("conversion before: kind %llu", (unsigned long long)q); continue;
        }
        Src o; o.json = true; o.wild = draw(6) == 5; o.longstr = draw(16) == 0; o.maxcount = (int)drawr(1, 8); Sent s; if (!model_frame(k, o, s)) { count("no legal frame"); continue; }
        if (!doc_carriable(s.w)) { count("values no JSON number carries"); continue; }
        vec<u8> zero(s.f.size(), 0); Walk we = walk_encode(k.s, s.src, zero, zero.size(), false); if (we.err || we.unsure) { count("no legal frame"); continue; }
        vec<u8> want(we.buf.begin(), we.buf.begin() + (long)we.end);
        J doc = doc_of(we, draw(2)); JStyle st; st.seed = draw64(); u64 m = draw(64); st.pretty = m & 1; st.shuffle = m & 2; st.escapes = m & 4; st.spell = m & 8; st.extra = m & 16; st.hex = m & 32;
        str js = json_print(doc, st); D.put("/w/o/d.json", js); str outb = "/w/o/d.bin"; D.put(outb, str(draw(2) ? 0 : draw(9000), 'q'));
        Proc p; int rc = go({"encode", spell("/w", "/w/s.il"), spell("/w", "/w/o/d.json"), spell("/w", outb)}, p);
        str at = "\ndocument:\n" + js.substr(0, 1500) + "\n" + text();
        if (rc) violate("encode:refused", strf("a document of the schema is refused (%d): ", rc) + p.out + p.err + at);
        vec<u8> got = bytes(D.get(outb)); ev("encoded %zu bytes of JSON to %zu", js.size(), got.size());
        if (got != want) violate("encode:bytes", strf("%zu bytes ", got.size()) + hex(got.data(), got.size(), 120) + strf(" instead of %zu ", want.size()) + hex(want.data(), want.size(), 120) + at);
        if (D.get("/w/o/d.json") != js) violate("input", "encoding changed the document" + at);
        Walk wd = walk_decode(k.s, want.data(), want.size()); if (wd.unsure) { count("NaN"); continue; } if (wd.err) { count("frame not decodable"); continue; }
        bool hx = draw(3) == 2; D.put("/w/o/r.json", "old"); vec<str> a = {"decode", spell("/w", "/w/s.il"), spell("/w", outb), spell("/w", "/w/o/r.json")}; if (hx) a.push_back("--hex");
        Proc q; rc = go(a, q); at = "\nframe " + hex(want.data(), want.size(), 200) + at;
        if (rc) violate("decode:refused", strf("an intact frame is refused (%d): ", rc) + q.out + q.err + at);
        str back = D.get("/w/o/r.json"); J g; str why; if (!json_parse(back, &g, &why)) violate("decode:json", "the result is not JSON (" + why + "): " + back.substr(0, 800) + at);
        str d = doc_diff(doc_of(wd, true), g, hx, "$"); if (!d.empty()) violate("decode:values", d + "\nresult:\n" + back.substr(0, 1500) + at);
        if (bytes(D.get(outb)) != want) violate("input", "decoding changed the frame" + at);
        // and its own output again
        D.put("/w/o/e.bin", ""); Proc e2; rc = go({"encode", "s.il", "o/r.json", "o/e.bin"}, e2);
        if (rc || bytes(D.get("/w/o/e.bin")) != want) violate("again", strf("encoding what decode wrote gives %s", rc ? ("a failure: " + e2.out + e2.err).c_str() : ("other bytes: " + hex(D.get("/w/o/e.bin").data(), D.get("/w/o/e.bin").size(), 120)).c_str()) + "\nresult:\n" + back.substr(0, 1500) + at);
        done++; count("documents"); count("document members", we.fields); if (hx) count("hex mode"); g_path = (g_path ^ we.pathh ^ (hx ? 77 : 0)) * 0x9E3779B97F4A7C15ull; evh(std::hash<str>()(back));
        if (g_sample.empty()) g_sample = strf("%zu bytes of JSON, %zu-byte frame of: ", js.size(), want.size()) + schema_brief(k.s).substr(0, 250);
    }
    g_nontrivial = done > 0; g_distinct = g_path ^ std::hash<str>()(k.text) ^ hist;
}
static Reg r("C12", run, "a document went to binary and back through the tools; distinct = schema text x data paths");
// Known finding: cJSON hands integers over as doubles
static bool big() {
    str img; D.put("/w/p.cnd", "packet P { u64 a; }"); Proc c; if (cli(c, {"compile", "p.cnd", "p.il"}).code) return true;
    D.put("/w/p.json", "{\"a\": 9007199254740993}"); Proc e; Run r = cli(e, {"encode", "p.il", "p.json", "p.bin"});
    if (r.code) return true; // reported
    str b = D.get("/w/p.bin"); u64 v = 0; if (b.size() != 8) return true; memcpy(&v, b.data(), 8); return v == 9007199254740993ull;
}
static RegProbe pb("encode-2-53", big);
