// C13: an editor and the language server over a pipe: one reply per request, whatever arrives and however.
#include "../lsp.hpp"
static str noise_text() {
    static const char* w[] = {"struct", "packet", "enum", "P", "S0", "{", "}", ";", "u8", "@", "(", ")", "[", "]", "\"", "/*", "*/", "//", "///", "\n", " ", "case", "switch", "if", "else", "@import(", "\"m.cnd\"", "expr(", "count(", "0x", "1e999", ".", ",", ":", "=", "-", "!", "~", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\t", "\r\n", "prefix", "string", "until", "max", "\x01", "9999999999999999999999", "E0.V0", "<", ">", "&", "|", "'"};
    str o; for (u64 n = draw(60); n--;) o += str(w[draw(sizeof w / sizeof *w)]) + (draw(2) ? " " : ""); return o;
}
static str deep_text() {
    u64 k = draw(7), n = drawr(1, draw(2) ? 300 : k == 1 || k == 3 ? 3000 : 1200); str o = "packet P { u8 a; "; auto rep = [&](const str& x) { for (u64 i = 0; i < n; i++) o += x; };
    if (k == 0) { o += "@expr("; rep("("); o += "a"; rep(")"); o += ") u8 b; }"; }
    else if (k == 1) { rep("if (a > 1) { "); o += "u8 b; "; rep("}"); o += "}"; }
    else if (k == 2) { o += "@expr("; rep("-"); o += "a) u8 b; }"; }
    else if (k == 3) { rep("switch (a) { case 1: "); o += "u8 b; "; rep("}"); o += "}"; }
    else if (k == 4) { o += "if (a > 0) { u8 b; } "; rep("else if (a > 1) { u8 c; } "); o += "}"; }
    else if (k == 5) { o += "@expr("; rep("abs("); o += "a"; rep(")"); o += ") f64 b; }"; }
    else { static const char* d[] = {"@range(9) ", "@bogus ", "@count( ", "@scale() ", "@const(x) ", "@@ ", "@crc(16) "}; const char* x = d[draw(7)]; rep(x); o += "u8 b; }"; }
    fault_hit("deeply nested or repetitive document"); return o;
}
static str long_text() { // documentation and enums longer than any buffer
    str o; auto doc = [&] { for (u64 n = draw(40); n--;) o += "/// " + str(draw(300), 'd') + "%s%n\n"; }; doc(); o += "enum E0 : u16 { "; for (u64 i = 0, n = 1 + draw(400); i < n; i++) o += (i ? ", V" : "V") + std::to_string(i) + (draw(60) ? "" : str(draw(300), 'x')); o += " }\n"; doc(); o += "struct S0 { E0 e; u8 b; }\n"; doc(); o += "packet P { S0 s; E0 e; }\n"; return o;
}
struct Client { vec<str> frames; vec<J> id; vec<int> want; vec<bool> nasty; vec<str> what; }; // want: 0 nothing but notifications, 1 one response with id, 2 response or nothing
static void run() {
    vec<str> path = {"/w/m.cnd", "/w/d/x y.cnd", "/w/d/n%41me.cnd", "/w/\xC3\xA9.cnd", "untitled:Untitled-1"}; vec<str> uri; for (auto& p : path) uri.push_back(p[0] == '/' ? lsp_uri(p, draw64()) : p); D.mkdirs("/w/d/x");
    Cfg c = swarm(false); Schema s = gen_schema(c); vec<str> tk = schema_tokens(s);
    auto valid = [&] { return scatter(tk, draw64(), (int)draw(3)); };
    auto text = [&]() -> str {
        switch (draw(9)) { case 0: case 1: case 2: return valid(); case 3: { str x = valid(); x.resize(draw(x.size() + 1)); while (!x.empty() && ((u8)x.back() & 0x80)) x.pop_back(); return x; }
            case 4: { str x = valid(); for (u64 k = 1 + draw(4); k-- && x.size() > 2;) { static const char* ins[] = {"\n", "{", "}", ";", "/*", "//", "\"", "@", "(", "[", "E0.", "@expr("}; size_t at = draw(x.size()); while (at < x.size() && ((u8)x[at] & 0x80)) at++; x.insert(at, ins[draw(12)]); } return x; }
            case 5: return noise_text(); case 6: return deep_text(); case 7: return long_text();
            default: { static const char* im[] = {"@import(\"m.cnd\")\n", "@import(\"d/x y.cnd\")\n", "@import(\"../m.cnd\")\n", "@import(\"none.cnd\")\n", "@import(\"\")\n", "@import(\"/\")\n"}; str x; for (u64 k = 1 + draw(3); k--;) x += im[draw(6)]; return x + (draw(2) ? valid() : str()); } } };
    for (size_t i = 0; i < 3; i++) if (draw(2)) D.put(path[i], draw(3) ? valid() : text());
    Client cl; vec<str> last(5); bool have[5] = {}; u64 idn = draw(1000), nasty = 0; bool over = false;
    auto put = [&](const str& body, int want, J id, bool bad, const str& what) { cl.frames.push_back(lsp_frame(body, draw(24) + (draw(6) ? 0 : 24 * (draw(2) ? 1 + draw(1 + draw(6000)) : (u64)((i64)(128ull << draw(6)) - 5 + (i64)draw(8)))))); cl.want.push_back(want); cl.id.push_back(id); cl.nasty.push_back(bad); cl.what.push_back(what); nasty += bad; };
    auto style = [&] { JStyle st; st.seed = draw64(); u64 m = draw(8); st.pretty = m & 1; st.shuffle = m & 2; st.escapes = m & 4; return st; };
    auto newid = [&] { idn++; switch (draw(5)) { case 0: return js(strf("req-%llu", (unsigned long long)idn)); case 1: return js("\xC3\xA9\"\\\n" + std::to_string(idn)); case 2: return jn(-(i64)idn); default: return jn((i64)idn); } };
    auto position = [&](size_t d, i64* l, i64* ch) { *l = 0; *ch = 0; u64 q = draw(8); if (q == 0) { static const i64 x[] = {0, 1, 99999, 2147483647, -1, -2147483647, 5000000000ll}; *l = x[draw(7)]; *ch = x[draw(7)]; return; } auto t = source_tokens(have[d] ? last[d] : D.has(path[d]) ? D.get(path[d]) : ""); if (t.empty()) return; auto& z = t[draw(t.size())]; *l = z.line; *ch = z.col + (i64)draw(z.t.size() + 1); };
    static const char* req[] = {"textDocument/definition", "textDocument/hover", "textDocument/completion", "textDocument/formatting", "textDocument/documentSymbol"};
    { J id = newid(); put(json_print(lsp_msg("initialize", &id, jo({{"processId", J()}, {"rootUri", J()}, {"capabilities", jo({})}})), style()), 1, id, false, "initialize"); if (draw(2)) put(json_print(lsp_msg("initialized", nullptr, jo({})), style()), 0, J(), false, "initialized"); }
    for (u64 i = 0, n = 2 + draw(14); i < n; i++) {
        size_t d = draw(5); u64 q = draw(16); J id = newid(); i64 l, ch;
        if (q < 4) { str t = text(); bool open = !have[d] || draw(3) == 0; J ps = open ? lsp_doc(uri[d], &t) : jo({{"textDocument", jo({{"uri", js(uri[d])}, {"version", jn((i64)i)}})}, {"contentChanges", [&] { vec<J> v; for (u64 z = draw(3); z--;) v.push_back(jo({{"text", js(noise_text())}})); v.push_back(jo({{"text", js(t)}})); return jl(v); }()}});
            have[d] = true; last[d] = t; put(json_print(lsp_msg(open ? "textDocument/didOpen" : "textDocument/didChange", nullptr, ps), style()), 0, J(), false, open ? "didOpen" : "didChange"); }
        else if (q == 4) { const char* m = draw(2) ? "textDocument/didSave" : "textDocument/didClose"; put(json_print(lsp_msg(m, nullptr, lsp_doc(uri[d])), style()), 0, J(), false, m); }
        else if (q < 11) { const char* m = req[draw(5)]; position(d, &l, &ch); J ps = lsp_doc(uri[d], nullptr, 0, 0); ps.a[1] = jo({{"line", jn(l)}, {"character", jn(ch)}}); bool anon = draw(12) == 0; if (anon) fault_hit("request without identifier"); put(json_print(lsp_msg(m, anon ? nullptr : &id, ps), style()), anon ? 0 : 1, id, anon, m); }
        else if (q == 11) { static const char* m[] = {"textDocument/rename", "$/cancelRequest", "workspace/symbol", "", "textDocument/hoverx", "initialize2", "$/setTrace"}; const char* x = m[draw(7)]; bool r = draw(2); put(json_print(lsp_msg(x, r ? &id : nullptr, draw(2) ? lsp_doc(uri[d]) : J()), style()), r ? 2 : 0, id, true, str("unknown method ") + x); fault_hit("unknown method"); }
        else if (q < 15) { // incomplete or ill-typed
            J ps = lsp_doc(uri[d], nullptr, (i64)draw(4), (i64)draw(9)); static const char* un[] = {"file:///nowhere/x.cnd", "", "file://", "x", "file:///w", "file:///w/%", "file:///w/%4", "file:///w/%zz", "http://a/b", "file:///C:/x.cnd", "file:///w/%ff.cnd"};
            auto odd = [&]() -> J { J b; switch (draw(7)) { case 0: return b; case 1: return js("x"); case 2: return jn(-1); case 3: return jo({}); case 4: return jl({}); case 5: b.k = J::BOOL; b.b = true; return b; default: return jl({jn(1), jo({{"uri", js("x")}})}); } };
            u64 z = draw(7); if (z == 0) ps = odd(); else if (z == 1) ps.a[0] = odd(); else if (z == 2) ps.a[1] = odd(); else if (z == 3) ps.a[0].a[0] = odd(); else if (z == 4) ps.a[1].a[draw(2)] = odd(); else if (z == 5) ps.a[0].a[0] = js(un[draw(11)]); else { ps.a.pop_back(); ps.n.pop_back(); }
            const char* m = req[draw(5)]; fault_hit("incomplete or ill-typed parameters");
            if (draw(4) == 3) { m = draw(2) ? "textDocument/didOpen" : draw(2) ? "textDocument/didChange" : "textDocument/didSave"; J b = odd(), bt = odd(); J dp = jo({{"textDocument", draw(3) ? jo({{"uri", draw(2) ? b : js(un[draw(11)])}, {"text", bt}}) : odd()}, {"contentChanges", draw(2) ? jl({jo({{"text", bt}})}) : odd()}}); put(json_print(lsp_msg(m, nullptr, dp), style()), 0, J(), true, str("ill-typed ") + m); }
            else put(json_print(lsp_msg(m, &id, ps), style()), 1, id, true, str("incomplete ") + m); }
        else { static const char* bad[] = {"{", "{\"jsonrpc\": \"2.0\", \"id\": 1, \"method\": \"textDocument/hover\"", "null", "[]", "[1,2]", "1", "\"x\"", "{}", "{\"method\": 5}", "{\"method\": null, \"id\": 3}", "xyz", "{\"id\": 77}", "{\"id\": 1, \"result\": null}", " ", "\xFF\xFE"}; put(bad[draw(15)], 2, J(), true, "no message"); fault_hit("no JSON-RPC message"); }
    }
    u64 endk = draw(4); if (endk) { if (draw(2)) { J id = newid(); put(json_print(lsp_msg("shutdown", &id, J()), style()), 1, id, false, "shutdown"); } if (endk > 1) { put(json_print(lsp_msg("exit", nullptr, J()), style()), 0, J(), false, "exit"); over = true; } if (endk == 3) { J id = newid(); put(json_print(lsp_msg("textDocument/hover", &id, lsp_doc(uri[0], nullptr, 0, 0)), style()), 3, id, false, "after exit"); } }
    auto show = [&] { str o = "\nmessages:\n"; for (size_t i = 0; i < cl.frames.size(); i++) o += strf("%zu ", i) + cl.what[i] + ": " + cl.frames[i].substr(cl.frames[i].find("\r\n\r\n") + 4, 1200) + "\n"; return o; };
    auto ended = [&](const Session& z, const char* how) { if (z.r.how == BUDGET) { if (getenv("C13DUMP")) { FILE* f = fopen(getenv("C13DUMP"), "w"); for (auto& x : z.frames) fwrite(x.data(), 1, x.size(), f); fclose(f); } violate("hang", str("the server does not end (") + how + strf("; %zu of %zu messages asked for, %zu bytes in", z.asked, z.frames.size(), [&] { size_t n = 0; for (auto& f : z.frames) n += f.size(); return n; }()) + ")" + show()); } if (z.r.how != RETURNED && z.r.how != EXITED) violate("crash", str("the server ends abnormally (") + how + ")" + show()); };
    Session a; a.frames = cl.frames; a.poison = (u8)draw(256); a.frag = draw(3) ? 0 : draw64() | 1; a.run(); ended(a, "interactive");
    std::function<void(const J&, const str&)> positions = [&](const J& j, const str& at) { for (size_t i = 0; i < j.a.size(); i++) { if (j.k == J::OBJ && (j.n[i] == "line" || j.n[i] == "character")) if (j.a[i].k != J::NUM || j.a[i].d < 0 || j.a[i].d != floor(j.a[i].d)) violate("message:position", "not a position" + at); positions(j.a[i], at); } };
    for (size_t i = 0; i < cl.frames.size(); i++) {
        vec<J> m; str why; str at = strf("\nmessage %zu (", i) + cl.what[i] + "), answer: " + a.chunk[i].substr(0, 1500) + show(); if (!lsp_split(a.chunk[i], &m, &why)) violate("framing", "what the server writes is not a sequence of messages: " + why + at);
        u64 resp = 0; for (auto& x : m) { if (x.k != J::OBJ || !x.get("jsonrpc") || x.get("jsonrpc")->s != "2.0") violate("message", "not a JSON-RPC message" + at);
            positions(x, at);
            if (cl.what[i] == "initialize") { const J* c = x.get("result"); c = c ? c->get("capabilities") : nullptr; if (!c || c->k != J::OBJ) violate("message:capabilities", "no capabilities" + at); for (auto f : {"definitionProvider", "hoverProvider", "documentSymbolProvider", "documentFormattingProvider"}) { auto* y = c->get(f); if (!y || (y->k == J::BOOL && !y->b)) violate("message:capabilities", str(f) + " is not announced" + at); if (y->k != J::BOOL && y->k != J::OBJ) violate("message:capabilities", str("ill-typed ") + f + at); }
                if (!c->get("completionProvider") || !c->get("textDocumentSync")) violate("message:capabilities", "completion or document synchronisation is not announced" + at); if (auto* y = c->get("completionProvider")) { if (y->k != J::OBJ) violate("message:capabilities", "ill-typed completionProvider" + at); if (auto* z = y->get("triggerCharacters")) { if (z->k != J::ARR) violate("message:capabilities", "the trigger characters are no list" + at); for (auto& w : z->a) if (w.k != J::STR) violate("message:capabilities", "a trigger character is no string" + at); } } }
            if (x.get("method")) { if (x.get("id")) violate("message", "the server asks something" + at); continue; }
            resp++; if (!x.get("result") == !x.get("error")) violate("message", "a response has a result or an error" + at); if (cl.want[i] != 2 || x.get("result")) if (!x.get("id") || json_flat(*x.get("id")) != json_flat(cl.id[i]) || cl.want[i] == 0) violate("response:id", "a response nobody asked for, or with another identifier" + at); }
        if (cl.want[i] == 1 && resp != 1) violate("response:count", strf("%llu responses to one request, before more input is read", (unsigned long long)resp) + at);
        if (cl.want[i] == 2 && resp > 1) violate("response:count", "several responses to one message" + at);
        if (cl.want[i] == 0 && resp) violate("response:count", "a response to a notification" + at);
        if (cl.want[i] == 3 && !m.empty()) violate("exit", "the server goes on after exit" + at);
        count("messages"); g_path = (g_path ^ std::hash<str>()(cl.what[i]) ^ m.size()) * 0x9E3779B97F4A7C15ull; evh(std::hash<str>()(a.chunk[i]));
    }
    if (over && a.r.code) violate("exit", strf("exit ends with status %d", a.r.code) + show());
    size_t lastasked = 0; for (size_t i = 0; i < cl.frames.size(); i++) if (cl.what[i] == "exit") lastasked = i; if (over && a.asked > lastasked + 1) violate("exit", "the server reads on after exit" + show());
    if (!over && a.asked != cl.frames.size()) violate("stops", strf("the server ends after %zu of %zu messages", a.asked, cl.frames.size()) + show());
    // the same bytes, arriving differently
    for (u64 k = 0; k < 2; k++) { Session b; b.frames = cl.frames; b.gates = draw(2); b.frag = draw64() | 1; b.poison = (u8)draw(256); b.run(); ended(b, "fragmented"); count("fragmented sessions"); if (b.out != a.out) { size_t z = 0; while (z < a.out.size() && z < b.out.size() && a.out[z] == b.out[z]) z++; violate("fragmentation", strf("the output depends on how the input arrives: byte %zu of %zu/%zu: ", z, a.out.size(), b.out.size()) + b.out.substr(z > 100 ? z - 100 : 0, 300) + " instead of " + a.out.substr(z > 100 ? z - 100 : 0, 300) + show()); } }
    // the input ends or fails anywhere
    str all; vec<size_t> off; for (auto& f : cl.frames) { all += f; off.push_back(all.size()); }
    for (u64 k = 0; k < 3; k++) {
        Session b; b.frames = cl.frames; b.gates = false; b.frag = draw(2) ? draw64() | 1 : 0; b.cut = draw(all.size() + 1); if (draw(3) == 0 && !off.empty()) b.cut = pick(off) - draw(3); b.in_err = draw(2); b.poison = (u8)draw(256); b.run(); ended(b, "input cut off"); fault_hit(b.in_err ? "input fails" : "input cut off");
        str want; for (size_t i = 0; i < cl.frames.size() && off[i] <= b.cut; i++) want += a.chunk[i]; if (b.out != want) violate("cut", strf("input of %zu bytes ends at %zu: the answers are not those to the complete messages: ", all.size(), b.cut) + b.out.substr(0, 800) + show());
    }
    if (draw(2)) { Session b; b.frames = cl.frames; b.gates = false; b.out_fail = draw(a.out.size() + 1); b.run(); ended(b, "output fails"); fault_hit("output fails"); if (a.out.compare(0, b.out.size(), b.out)) violate("output", "other output after a failed write" + show()); }
    // strange messages leave no trace
    if (nasty) { Session b; vec<size_t> kept; for (size_t i = 0; i < cl.frames.size(); i++) if (!cl.nasty[i]) { b.frames.push_back(cl.frames[i]); kept.push_back(i); } b.poison = (u8)draw(256); b.run(); ended(b, "without strange messages"); for (size_t i = 0; i < kept.size(); i++) if (b.chunk[i] != a.chunk[kept[i]]) violate("trace", strf("message %zu is answered differently without the strange messages: ", kept[i]) + b.chunk[i].substr(0, 600) + "\ninstead of " + a.chunk[kept[i]].substr(0, 600) + show()); }
    g_sample = strf("%zu messages, %zu bytes in, %zu out, %llu strange", cl.frames.size(), all.size(), a.out.size(), (unsigned long long)nasty); g_nontrivial = true; g_distinct = std::hash<str>()(all);
}
static Reg r("C13", run, "a session of editor messages ran to its end; distinct = input streams");
