// C14: what the language server says is about the latest text of the document, whatever came before.
#include "../lsp.hpp"
struct Def { str name; int line; bool en; vec<str> mem; size_t first, last; };  // first/last: token indexes
static vec<Def> defs_of(const vec<STok>& t) {
    vec<Def> v; int d = 0;
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i].t == "{") d++; if (t[i].t == "}") d--;
        if (d || i + 1 >= t.size() || (t[i].t != "struct" && t[i].t != "enum")) continue;
        Def x; x.name = t[i + 1].t; x.line = t[i + 1].line; x.en = t[i].t == "enum"; x.first = i; size_t j = i + 2; while (j < t.size() && t[j].t != "{") j++;
        int e = 0; size_t q = j; for (; q < t.size(); q++) { if (t[q].t == "{") e++; if (t[q].t == "}" && --e == 0) break; if (x.en && q > j && t[q].ident && t[q - 1].t != "=") x.mem.push_back(t[q].t); }
        x.last = q; v.push_back(x);
    }
    return v;
}
static vec<str> labels(const J& r, int kind) { vec<str> v; if (auto* l = r.get("items")) for (auto& x : l->a) if (x.get("label") && (!kind || (x.get("kind") && (int)x.get("kind")->d == kind))) v.push_back(x.get("label")->s); return v; }
static bool in(const vec<str>& v, const str& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
struct Doc { str path, uri, orig; str text; bool open = false, disk = true, closed = false; };
struct Step { size_t d; str what; J msg, id; bool req = false; str text; bool open; std::map<str, str> put; vec<str> del; int line = 0, ch = 0; size_t tok = 0; str expect; };
// the cursor behind token k is inside the parentheses of an @expr, @count or @len
static bool within_expr(const vec<STok>& t, size_t k) {
    int d = 0; for (size_t j = k + 1; j-- > 0;) {
        if (t[j].t == ")") d++; else if (t[j].t == ";" || t[j].t == "{" || t[j].t == "}") return false;
        else if (t[j].t == "(") { if (d) { d--; continue; } if (j > 1 && t[j - 2].t == "@") return t[j - 1].t == "expr" || t[j - 1].t == "count" || t[j - 1].t == "len"; }
    }
    return false;
}
static u64 g_new; static const size_t npos = (size_t)-1;
static str extra_def(vec<str>* fields) { // documented definitions with known fields
    u64 k = g_new++; str n = strf("%llu", (unsigned long long)k), o; if (draw(3)) { o += "/// About Zq" + n + (draw(2) ? " {not code} \"\n/// second line Zz" + n : str()) + "\n"; }
    if (draw(2)) { o += "enum Zq" + n + (draw(2) ? " : u16" : "") + " {" + (draw(2) ? "\n" : " "); for (u64 i = 0, c = 1 + draw(6); i < c; i++) o += (i ? ", " : "") + strf("Zv%llu_%llu", (unsigned long long)k, (unsigned long long)i) + (draw(3) ? "" : strf(" = %llu", (unsigned long long)(100 + 10 * i))); return o + " }\n"; }
    static const char* ty[] = {"u8", "i16", "uint32", "float", "double", "u64", "bool"}; o += "struct Zq" + n + " {" + (draw(2) ? "\n    " : " ");
    for (u64 i = 0, c = 1 + draw(5); i < c; i++) { str f = strf("zf%llu_%llu", (unsigned long long)k, (unsigned long long)i); if (fields) fields->push_back(f); u64 q = draw(9); o += q == 7 ? "string " + f + " prefix u8; " : q == 8 ? "u8 " + f + "[3]; " : str(ty[q]) + " " + f + "; "; }
    if (draw(4) == 0) { str t = strf("zf%llu_t", (unsigned long long)k); if (fields) fields->push_back(t); o += "u8 " + t + "; " + (draw(2) ? "if (" + t + (draw(2) ? " == 1) {" : " > 2) {\n  ") + "u8 ze" + n + "c; }" + (draw(2) ? " else { u16 ze" + n + "d; }" : str()) : "switch (" + t + ") { case 1: { u8 ze" + n + "c; } case 2: u16 ze" + n + "d; }") + (draw(2) ? "\n" : " "); }
    static const char* xs[] = {"1 + 2", "1 + 2", "(1 + 2) * 3", "int(abs(float(4)))", "((7)) - (2 * (1 + 1))"}; return o + "@expr(" + xs[draw(5)] + ") u8 ze" + n + ";" + (draw(2) ? "\n" : " ") + "}\n";
}
static void run() {
    g_new = 0; Cfg c = swarm(false); c.enums = true; if (draw(3)) c.structs = true; Schema s = gen_schema(c); Tree t = make_tree(s, draw(3) == 0); t.put();
    vec<Doc> docs; for (auto& f : t.order) if (docs.size() < 4) { Doc d; d.path = f; d.orig = t.files.at(f); docs.push_back(d); }
    if (draw(2)) { Doc d; d.path = draw(2) ? "/w/lib/new doc.cnd" : "/w/x/a%2Fb+c.cnd"; d.orig = print_schema(gen_schema(swarm(false)), draw64()); d.disk = draw(2); if (d.disk) D.put(d.path, d.orig); docs.push_back(d); }
    if (draw(4) == 0) { Doc d; d.path = "untitled:Untitled-1"; d.orig = print_schema(gen_schema(swarm(false)), draw64()); d.disk = false; docs.push_back(d); }
    for (auto& d : docs) { str p = d.path; if (p[0] == '/' && draw(4) == 0) { size_t q = p.rfind('/'); p = p.substr(0, q) + (draw(2) ? "/../" + p.substr(1, q - 1).substr(p.substr(0, q).rfind('/')) : str("/.")) + p.substr(q); if (norm_path("/", p) != d.path) p = d.path; } d.uri = p[0] == '/' ? lsp_uri(p, draw64()) : p; }
    std::set<str> names; for (auto& f : t.files) for (auto& x : defs_of(source_tokens(f.second))) names.insert(x.name);
    vec<Doc> crowd; if (draw(4) == 0) for (u64 i = 0, n = 3 + draw(draw(4) ? 30 : 150); i < n; i++) { Doc d; d.path = strf("/w/other/%llu.cnd", (unsigned long long)i); d.uri = lsp_uri(d.path, draw64()); d.disk = false; crowd.push_back(d); } // other documents, open all the time
    // the history
    vec<Step> st; std::map<str, str> disk; for (auto& d : docs) if (d.disk) disk[d.path] = d.orig; i64 idn = 0;
    vec<std::pair<str, vec<str>>> exprs; // struct text with a known field list
    auto style = [&] { JStyle x; x.seed = draw64(); u64 m = draw(8); x.pretty = m & 1; x.shuffle = m & 2; x.escapes = m & 4; return x; };
    auto edit = [&](Doc& d) -> str {
        str x = d.open ? d.text : d.orig; auto tk = source_tokens(x); u64 q = draw(16); if (q > 13) q = 7; auto at = [&] { return tk.empty() ? x.size() : tk[draw(tk.size())].off; };
        if (q < 3) { for (u64 k = 1 + draw(3); k-- && !tk.empty();) { size_t o = at(); static const char* w[] = {"\n", "\n\n\n", " // moved {\n", "/* a\nb */ ", " ", "\t"}; x.insert(o, w[draw(6)]); tk = source_tokens(x); } return x; }
        if (q < 6) { str e = extra_def(nullptr); if (draw(2)) { vec<size_t> p; int dp = 0; for (size_t i = 0; i < tk.size(); i++) { if (tk[i].t == "{") dp++; if (tk[i].t == "}" && --dp == 0 && i + 1 < tk.size()) p.push_back(tk[i + 1].off); } if (!p.empty()) { size_t o = pick(p); size_t b = x.rfind('}', o); return x.substr(0, b + 1) + "\n" + e + x.substr(b + 1); } } return x + (x.empty() || x.back() == '\n' ? "" : "\n") + e; }
        if (q == 6) return d.orig;
        if (q == 7) { if (draw(3)) { vec<str> e; for (auto& z : defs_of(tk)) if (z.en) e.push_back(z.name); str n = strf("%llu", (unsigned long long)g_new++); if (e.empty() || draw(3) == 0) { e = {"Ze" + n}; x += "\nenum Ze" + n + (draw(2) ? " : i16" : "") + " { Aa = -4, Bb, /* no */ Cc" + (draw(2) ? ", }\n" : " }\n"); } return x + "\nstruct Zt" + n + " { u8 q; switch (q) { case " + pick(e) + "."; } vec<size_t> p; for (size_t i = 0; i + 1 < tk.size(); i++) if (tk[i].t == "." && i && tk[i - 1].ident) p.push_back(tk[i].off + 1); if (!p.empty()) return x.substr(0, pick(p)); return x.substr(0, at()); }
        if (q == 8) { if (x.empty()) return x; size_t o = draw(x.size()); while (o < x.size() && ((u8)x[o] & 0x80)) o++; static const char* w[] = {"{", "}", ";", "@", "(", "\"", "x", "/*"}; if (draw(2) && o < x.size() && !((u8)x[o] & 0x80)) { x.erase(o, 1); return x; } x.insert(o, w[draw(8)]); return x; }
        if (q == 9) { for (size_t i = 0; i < tk.size(); i++) if (tk[i].t[0] == '"' && tk[i].t.size() > 2) { static const char* w[] = {"none.cnd", "f0.cnd", "../w/f1.cnd", "", "lib"}; return x.substr(0, tk[i].off + 1) + w[draw(5)] + x.substr(tk[i].off + tk[i].t.size() - 1); } return "@import(\"" + docs[draw(docs.size())].path.substr(1) + "\")\n" + x; }
        if (q == 10) { auto df = defs_of(tk); if (df.empty()) return x; str n = pick(df).name, o; size_t l = 0; for (auto& z : tk) { o += x.substr(l, z.off - l) + z.t + (z.t == n ? "r" : ""); l = z.off + z.t.size(); } return o + x.substr(l); }
        if (q == 11) return print_schema(gen_schema(swarm(false)), draw64());
        if (q == 12) { auto df = defs_of(tk); if (df.empty()) return x; auto& z = pick(df); if (z.last >= tk.size()) return x; return x.substr(0, tk[z.first].off) + x.substr(tk[z.last].off + 1); }
        return draw(2) ? str() : d.orig + "\n" + d.orig;
    };
    static const char* rq[] = {"textDocument/definition", "textDocument/hover", "textDocument/completion", "textDocument/formatting", "textDocument/documentSymbol"};
    { Step z; z.d = 0; z.what = "initialize"; z.id = jn(idn++); z.msg = lsp_msg("initialize", &z.id, jo({{"capabilities", jo({})}})); z.open = false; st.push_back(z); }
    auto others = [&] { if (crowd.empty()) return; for (u64 k = 0, n = draw(crowd.size() + 1); k < n; k++) { Doc& d = crowd[k]; Step z; z.d = npos; z.what = d.open ? "textDocument/didChange" : "textDocument/didOpen"; d.text = strf("struct O%llu { u8 x; } // %llu\n", (unsigned long long)k, (unsigned long long)g_new++); z.msg = lsp_msg(z.what, nullptr, d.open ? jo({{"textDocument", jo({{"uri", js(d.uri)}, {"version", jn(2)}})}, {"contentChanges", jl({jo({{"text", js(d.text)}})})}}) : lsp_doc(d.uri, &d.text)); d.open = true; z.open = true; st.push_back(z); } count("crowds of other documents"); };
    int typing = -1; for (u64 i = 0, n = 4 + draw(20); i < n; i++) {
        if (!crowd.empty() && draw(6) == 0) others();
        Step z; z.d = draw(docs.size()); u64 q = draw(20); if (typing >= 0 && draw(5)) { z.d = (size_t)typing; q = 14; } typing = -1; Doc& d = docs[z.d]; if (d.closed && q >= 6) q = 0; if (!d.open && !d.disk && q >= 6) q = 0;
        if (q < 6) { d.text = !d.open && draw(2) ? d.orig : edit(d); bool op = !d.open || d.closed; d.open = true; d.closed = false; if (!d.text.empty() && d.text.back() == '.') typing = (int)z.d; z.what = op ? "textDocument/didOpen" : "textDocument/didChange";
            z.msg = lsp_msg(z.what, nullptr, op ? lsp_doc(d.uri, &d.text) : jo({{"textDocument", jo({{"uri", js(d.uri)}, {"version", jn((i64)i)}})}, {"contentChanges", draw(4) ? jl({jo({{"text", js(d.text)}})}) : jl({jo({{"text", js(d.orig)}}), jo({{"text", js(d.text)}})})}})); }
        else if (q == 6) { z.what = "textDocument/didSave"; if (d.open && d.path[0] == '/') { d.disk = true; disk[d.path] = d.text; z.put[d.path] = d.text; } z.msg = lsp_msg(z.what, nullptr, lsp_doc(d.uri)); }
        else if (q == 7 && d.open) { z.what = "textDocument/didClose"; d.closed = true; z.msg = lsp_msg(z.what, nullptr, lsp_doc(d.uri)); }
        else { z.req = true; z.what = rq[q < 11 ? 0 : q < 13 ? 1 : q < 17 ? 2 : q < 18 ? 3 : 4]; z.id = jn(idn++); str src = d.open ? d.text : disk[d.path]; auto tk = source_tokens(src); vec<size_t> p;
            bool comp = q >= 13 && q < 17; if (comp) { for (size_t k = 0; k < tk.size(); k++) if (tk[k].ascii && ((tk[k].t == "." && k && tk[k - 1].ident) || (tk[k].t == "(" && k > 1 && tk[k - 2].t == "@" && (tk[k - 1].t == "expr" || tk[k - 1].t == "count" || tk[k - 1].t == "len")))) p.push_back(k); if (draw(2)) { vec<size_t> w; for (size_t k = 0; k < tk.size(); k++) if (tk[k].ascii && tk[k].t != "." && within_expr(tk, k)) w.push_back(k); if (!w.empty()) p = w; } if (draw(8) == 0) p.clear(); else if (!p.empty() && tk[p.back()].t == "." && draw(4)) p = {p.back()}; }
            else { bool any = draw(5) == 0; for (size_t k = 0; k < tk.size(); k++) if (tk[k].ident && tk[k].ascii && (any || names.count(tk[k].t) || tk[k].t.compare(0, 2, "Zq") == 0)) p.push_back(k); }
            if (p.empty()) for (size_t k = 0; k < tk.size(); k++) if (tk[k].ascii) p.push_back(k);
            if (!p.empty()) { z.tok = pick(p); auto& y = tk[z.tok]; z.line = y.line; z.ch = y.col + (comp ? (int)y.t.size() : 1 + (int)draw(y.t.size())); z.expect = y.t; if (y.t.find('\n') != str::npos) z.expect.clear(); }
            J ps = lsp_doc(d.uri, nullptr, z.line, z.ch); if (q >= 17) ps = lsp_doc(d.uri); z.msg = lsp_msg(z.what, &z.id, ps); }
        if (draw(6) == 0) { // somebody else writes to the disk
            Doc& o = docs[draw(docs.size())]; if (o.path[0] == '/' && disk.count(o.path)) { fault_hit("file changed on disk behind the server"); u64 m = draw(5); if (m == 0 && (o.open || &o != &d)) { disk.erase(o.path); z.put.erase(o.path); z.del.push_back(o.path); if (!o.open) o.disk = false; } else { str x = m == 1 ? str() : m == 2 ? disk[o.path].substr(0, draw(disk[o.path].size() + 1)) : "\n/* " + strf("%llu", (unsigned long long)i) + " */\n" + o.orig; disk[o.path] = x; z.put[o.path] = x; if (z.req && !d.open && &o == &d) z.expect.clear(); } } }
        z.text = d.open ? d.text : disk.count(d.path) ? disk[d.path] : str(); z.open = d.open; st.push_back(z);
    }
    auto show = [&](size_t upto) { str o = "\nhistory:\n"; for (size_t i = 0; i <= upto && i < st.size(); i++) { for (auto& p : st[i].put) o += "  disk: " + p.first + " becomes " + str(p.second.size() > 600 ? strf("%zu bytes ", p.second.size()) : str()) + "\n" + p.second.substr(0, 600) + "\n"; for (auto& p : st[i].del) o += "  disk: " + p + " removed\n"; o += strf("%zu ", i) + json_print(st[i].msg, JStyle()).substr(0, 3000) + "\n"; } if (upto < st.size()) o += "document text:\n" + st[upto].text; return o; };
    Disk base = D; Session a; a.poison = (u8)draw(256); a.frag = draw(4) ? 0 : draw64() | 1; bool twoway = draw(8) == 7;
    for (size_t i = 0; i < st.size(); i++) { a.frames.push_back(lsp_frame(json_print(st[i].msg, style()), draw(3))); if (!st[i].put.empty() || !st[i].del.empty()) a.before[i] = [&, i] { for (auto& p : st[i].put) D.put(p.first, p.second); for (auto& p : st[i].del) D.f.erase(p); }; }
    a.run(); if (a.r.how != RETURNED && a.r.how != EXITED) violate("end", "the server does not survive the history" + show(st.size())); (void)twoway;
    // every answer against a server that knows nothing but the latest text
    D = base; u64 judged = 0, clean = 0; bool sink = false; (void)sink;
    auto one = [&](const str& chunk, size_t i, const char* who) { vec<J> m; str why; if (!lsp_split(chunk, &m, &why) || m.size() != 1) violate("answer", strf("%zu messages from the %s: ", m.size(), who) + why + "\n" + chunk.substr(0, 800) + show(i)); return m[0]; };
    for (size_t i = 1; i < st.size(); i++) {
        Step& z = st[i]; if (z.d == npos) continue; Doc& d = docs[z.d]; for (auto& p : z.put) D.put(p.first, p.second); for (auto& p : z.del) D.f.erase(p); Disk now = D;
        if (z.what == "textDocument/didClose") continue;
        bool save = z.what == "textDocument/didSave"; if (save && !z.open && !D.has(d.path)) continue;
        if (!z.open && !D.has(d.path)) continue;
        J got = one(a.chunk[i], i, "long-lived server");
        Session f; f.poison = (u8)draw(256); if (z.open) f.frames.push_back(lsp_frame(json_print(lsp_msg("textDocument/didOpen", nullptr, lsp_doc(d.uri, &z.text)), JStyle()), 0)); bool diag = !z.req; if (z.req || !z.open) f.frames.push_back(lsp_frame(json_print(z.msg, JStyle()), 0));
        f.run(); if (f.r.how != RETURNED && f.r.how != EXITED) violate("end", "a fresh server does not survive" + show(i)); if (f.chunk.back() != a.chunk[i]) violate(diag ? "stale:diagnostics" : "stale:" + z.what.substr(13), strf("message %zu is answered with\n", i) + a.chunk[i].substr(0, 1500) + "\nby the server with a history, and by one that knows the latest text only with\n" + f.chunk.back().substr(0, 1500) + show(i));
        judged++; g_path = (g_path ^ std::hash<str>()(a.chunk[i])) * 0x9E3779B97F4A7C15ull; evh(g_path);
        // what the compiler and the formatter say
        auto tk = source_tokens(z.text); auto df = defs_of(tk); bool imports = z.text.find("import") != str::npos;
        bool onto = d.path[0] != '/' || D.has(d.path) || !imports; str img, msg; bool ok = false; str cp = d.path[0] == '/' ? d.path : "/w/" + d.path;
        { D.put(cp, z.text); Proc p; Run r = cli(p, {"compile", d.path, "/w/ref.il"}); if (r.how != RETURNED && r.how != EXITED) violate("compile", "the compiler ends abnormally" + show(i)); ok = r.code == 0; msg = p.out + p.err; }
        if (diag) { const J* ps = got.get("params"); const J* l = ps ? ps->get("diagnostics") : nullptr; if (!l || l->k != J::ARR || got.get("method")->s != "textDocument/publishDiagnostics" || ps->get("uri")->s != d.uri) violate("diagnostics:shape", "not the diagnostics of the document: " + a.chunk[i] + show(i));
            if (onto && l->a.empty() != ok) violate("diagnostics:verdict", str(ok ? "diagnostics for a text the compiler accepts: " + a.chunk[i].substr(0, 600) : "no diagnostics for a text the compiler refuses: " + msg) + show(i)); count(ok ? "texts accepted" : "texts refused"); }
        if (!onto) ok = false; // the document is not on the disk: imports that lead back to it mean something else for the compiler
        D = now; if (ok) clean++; if (!z.req) continue;
        const J* rs = got.get("result"); if (!rs) violate("answer", "no result: " + a.chunk[i] + show(i)); J res = *rs; str m = z.what.substr(13); str txt = a.chunk[i].substr(0, 2000);
        if (m == "formatting") {
            D.put("/w/fmt.in", z.text); Proc p; Run r = cli(p, {"fmt", "fmt.in", "/w/fmt.out"}); if (r.how != RETURNED && r.how != EXITED) violate("fmt", "the formatter ends abnormally" + show(i)); str want = r.code == 0 ? D.get("/w/fmt.out") : z.text; D = now;
            if (res.k != J::ARR || res.a.size() != 1 || !res.a[0].get("newText") || res.a[0].get("newText")->s != want) violate("formatting", "formatting gives\n" + txt + "\nand the fmt command\n" + want + show(i));
            const J* rg = res.a[0].get("range"); u64 nl = 0; for (char ch : z.text) nl += ch == '\n'; if (!rg || rg->get("start")->get("line")->d != 0 || rg->get("start")->get("character")->d != 0 || rg->get("end")->get("line")->d < (double)nl) violate("formatting:range", "the edit does not replace the whole text: " + txt + show(i)); count("formatting answers");
        }
        if (m == "documentSymbol" && ok) {
            std::map<str, str> w, g; for (auto& x : df) w[x.name] = strf("%s at line %d", x.en ? "enum" : "struct", x.line); if (res.k != J::ARR) violate("symbols", "no list: " + txt + show(i));
            for (auto& x : res.a) { const J* lc = x.get("location"); if (!lc || lc->get("uri")->s != d.uri) violate("symbols", "a symbol of another document: " + txt + show(i)); int kd = (int)x.get("kind")->d; str n = x.get("name")->s; if (kd != 10 && kd != 23) continue; if (g.count(n)) violate("symbols", "a symbol twice: " + txt + show(i)); g[n] = strf("%s at line %d", kd == 10 ? "enum" : "struct", (int)lc->get("range")->get("start")->get("line")->d); }
            if (w != g) { str o; for (auto& x : w) if (!g.count(x.first) || g[x.first] != x.second) o += x.first + ": " + x.second + " but reported " + (g.count(x.first) ? g[x.first] : "missing") + "; "; for (auto& x : g) if (!w.count(x.first)) o += x.first + " is no symbol; "; violate("symbols", "wrong symbols: " + o + txt + show(i)); } count("symbol answers");
        }
        bool meant = !z.expect.empty() && z.tok < tk.size() && tk[z.tok].t == z.expect;
        if (m == "hover" && meant && z.tok && tk[z.tok - 1].t == "@" && tk[z.tok].line == tk[z.tok - 1].line && ok) { // a decorator of the language: its name and what it does
            static const std::set<str> known = {"version", "import", "big_endian", "be", "little_endian", "le", "unaligned_bytes", "fill", "crc_refin", "crc_refout", "optional", "count", "len", "const", "match", "pad", "range", "crc", "crc_poly", "crc_init", "crc_xor", "scale", "offset", "mul", "div", "add", "sub", "poly", "spline", "expr", "eof"};
            if (known.count(z.expect)) { str v = res.get("contents") && res.get("contents")->get("value") ? res.get("contents")->get("value")->s : ""; size_t at = 0; bool named = false; auto word = [](char c) { return isalnum((u8)c) || c == '_'; };
                while ((at = v.find(z.expect, at)) != str::npos) { size_t e = at + z.expect.size(); if ((at == 0 || !word(v[at - 1])) && (e == v.size() || !word(v[e]))) named = true; at = e; }
                if (!named || v.find(' ') == str::npos) violate("hover:decorator", "hover over @" + z.expect + " does not say what it is: " + txt + show(i)); count("hovers over decorators"); } }
        if ((m == "definition" || m == "hover") && meant && tk[z.tok].ident && !(z.tok && tk[z.tok - 1].t == "@") && ok) {
            const str& n = z.expect; const Def* own = nullptr; for (auto& x : df) if (x.name == n) own = &x; bool somewhere = own; for (auto& x : D.f) if (!x.second.dir && x.first.find(".il") == str::npos) for (auto& y : defs_of(source_tokens(x.second.data))) if (y.name == n) somewhere = true;
            if (res.k == J::NUL) { if (own) violate(m + ":missing", "nothing found for " + n + strf(", which line %d defines", own->line) + show(i)); continue; }
            if (!somewhere) violate(m + ":invented", "something found for " + n + ", which nothing defines: " + txt + show(i));
            if (m == "definition") {
                str f = norm_path("/w", lsp_path(res.get("uri")->s)); int ln = (int)res.get("range")->get("start")->get("line")->d; for (char ch : res.get("uri")->s) if ((u8)ch <= 32 || (u8)ch >= 127) violate("definition:uri", "not a URI: " + txt + show(i));
                bool self = f == d.path || res.get("uri")->s == d.uri || f == "/w/" + d.path; if (own && !self) violate("definition:file", n + " is defined in the document itself: " + txt + show(i));
                if (!self && !D.has(f)) violate("definition:file", "the definition is in a file that does not exist: " + txt + show(i));
                bool hit = false; for (auto& y : defs_of(source_tokens(self ? z.text : D.get(f)))) if (y.name == n && y.line == ln) hit = true; if (!hit) violate("definition:line", n + strf(" is not defined in line %d: ", ln) + txt + show(i)); count(self ? "definitions in the document" : "definitions in other files");
            } else {
                str v = res.get("contents") && res.get("contents")->get("value") ? res.get("contents")->get("value")->s : ""; if (v.find(n) == str::npos) violate("hover", "hover does not name " + n + ": " + txt + show(i));
                if (own && own->en) for (auto& x : own->mem) if (v.find(x) == str::npos) violate("hover", "hover does not list the member " + x + ": " + txt + show(i));
                if (own && v.find(strf("line %d", own->line + 1)) == str::npos) violate("hover", n + strf(" is defined in line %d: ", own->line + 1) + txt + show(i));
                if (n.compare(0, 2, "Zq") == 0 && own && z.text.find("/// About " + n + "\n") != str::npos) { size_t at = z.text.find("/// About " + n + "\n"); size_t e = z.text.find('\n', at) + 1; if (z.text.compare(e, 7, "struct ") == 0 || z.text.compare(e, 5, "enum ") == 0) if (v.find("About " + n) == str::npos) violate("hover", "hover does not show the documentation of " + n + ": " + txt + show(i)); }
                if (own) for (size_t at = 0; (at = v.find("About Zq", at)) != str::npos; at++) { size_t e = at + 8; while (e < v.size() && isdigit((u8)v[e])) e++; str w = v.substr(at, e - at); size_t from = 0; for (auto& x : df) if (x.last < own->first) from = std::max(from, tk[x.last].off); if (z.text.substr(from, tk[own->first].off - from).find(w) == str::npos) violate("hover", "hover on " + n + " shows the documentation of another definition: " + txt + show(i)); }
                count("hovers");
            }
        }
        if (m == "completion" && meant) {
            if (res.k != J::OBJ || !res.get("items")) violate("completion", "no list: " + txt + show(i));
            if (z.expect == "." && z.tok && tk[z.tok - 1].ident) {
                const Def* e = nullptr; for (auto& x : df) if (x.en && x.name == tk[z.tok - 1].t && x.last < z.tok) e = &x; bool cut = z.tok + 1 == tk.size();
                if (e && (ok || (cut && i && true))) { bool fine = ok; if (!fine) { str half = z.text.substr(0, tk[e->last].off + 1) + "\n"; D.put(cp, half); Proc p; fine = cli(p, {"compile", d.path, "/w/ref.il"}).code == 0; D = now; } // the text is sound at least up to the end of the enumeration
                    if (fine && onto) { vec<str> g = labels(res, 0), w = e->mem; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); if (g != w) violate("completion:enum", "completion after " + e->name + ". is not its members: " + txt + show(i)); count(cut ? "member completions while typing" : "member completions"); } }
            }
            if (z.expect != "." && ok && within_expr(tk, z.tok)) { const Def* in_ = nullptr; for (auto& x : df) if (!x.en && x.first < z.tok && z.tok < x.last) in_ = &x;
                vec<str> g = labels(res, 5); vec<str> ids; for (auto& x : tk) if (x.ident) ids.push_back(x.t); for (auto& x : D.f) if (!x.second.dir) for (auto& y : source_tokens(x.second.data)) if (y.ident) ids.push_back(y.t);
                for (auto& x : g) { str last = x.substr(x.rfind('.') + 1); if (!in(ids, last)) violate("completion:field", x + " is no field: " + txt + show(i)); }
                if (in_ && in_->name.compare(0, 2, "Zq") == 0) { vec<str> w; for (size_t k = in_->first; k < in_->last; k++) if (tk[k].t.compare(0, 2, "zf") == 0) w.push_back(tk[k].t); for (auto& x : w) if (!in(g, x)) violate("completion:field", "field " + x + " is not offered: " + txt + show(i)); for (auto& x : g) if (!std::any_of(tk.begin() + in_->first, tk.begin() + in_->last, [&](const auto& y) { return y.t == x; })) violate("completion:field", x + " is no field of " + in_->name + ": " + txt + show(i)); count("field completions"); } }
        }
        if (m == "completion" && ok && !(meant && (z.expect == "." || within_expr(tk, z.tok)))) {
            vec<str> g = labels(res, 0); bool member = false, expr = !in(g, "struct"); for (auto& x : df) if (x.en) { vec<str> w = x.mem; std::sort(w.begin(), w.end()); std::sort(g.begin(), g.end()); if (w == g) member = true; }
            if (!member && !expr) { for (auto& x : df) if (!in(g, x.name)) violate("completion:names", x.name + " is not offered: " + txt + show(i)); count("name completions"); }
        }
    }
    g_sample = strf("%zu documents, %zu messages, %llu answers compared, %llu on sound texts", docs.size(), st.size(), (unsigned long long)judged, (unsigned long long)clean); g_nontrivial = judged > 1; g_distinct = g_path;
}
static Reg r("C14", run, "at least two answers of a server with a history compared with those of a fresh one; distinct = answers");
