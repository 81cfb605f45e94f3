#include "lsp.hpp"
str json_flat(const J& j) {
    switch (j.k) {
        case J::NUL: return "null"; case J::BOOL: return j.b ? "true" : "false"; case J::NUM: return strf("%.17g", j.d); case J::STR: return json_print(j, JStyle());
        case J::ARR: { str o = "["; for (auto& x : j.a) o += (o.size() > 1 ? "," : "") + json_flat(x); return o + "]"; }
        default: { std::map<str, str> m; for (size_t i = 0; i < j.n.size(); i++) m[j.n[i]] += json_flat(j.a[i]); str o = "{"; for (auto& x : m) o += (o.size() > 1 ? "," : "") + json_print(js(x.first), JStyle()) + ":" + x.second; return o + "}"; }
    }
}
str lsp_uri(const str& path, u64 seed) {
    Fill r(seed); r(); str o = "file://"; bool all = r() % 4 == 0;
    for (char c : path) { bool plain = isalnum((u8)c) || strchr("/-_.~", c); if (!plain || (all && c != '/' && r() % 3 == 0)) o += strf(r() % 2 ? "%%%02X" : "%%%02x", (u8)c); else o += c; }
    return o;
}
str lsp_path(const str& uri) {
    str s = uri.compare(0, 7, "file://") == 0 ? uri.substr(7) : uri, o;
    for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size() && isxdigit((u8)s[i + 1]) && isxdigit((u8)s[i + 2])) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i];
    return o;
}
J lsp_msg(const str& method, const J* id, const J& params) { vec<std::pair<str, J>> m = {{"jsonrpc", js("2.0")}}; if (id) m.push_back({"id", *id}); m.push_back({"method", js(method)}); if (params.k != J::NUL) m.push_back({"params", params}); return jo(m); }
J lsp_doc(const str& uri, const str* text, i64 line, i64 ch) {
    vec<std::pair<str, J>> d = {{"uri", js(uri)}}; if (text) { d.push_back({"languageId", js("concordia")}); d.push_back({"version", jn(1)}); d.push_back({"text", js(*text)}); }
    vec<std::pair<str, J>> m = {{"textDocument", jo(d)}}; if (line >= 0) m.push_back({"position", jo({{"line", jn(line)}, {"character", jn(ch)}})}); return jo(m);
}
str lsp_frame(const str& body, u64 style) { // style / 24: length of a header line nobody asked for
    str h, ct = "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"; u64 k = style % 8, n = style / 24; str x = n % 2 ? "X-Trace: " : "Content-Type: application/vscode-jsonrpc; charset=utf-8; q="; x += str(n > x.size() ? n - x.size() : 0, 'x') + "\r\n";
    if (n) fault_hit("unexpected header line"); if (k == 1) h += ct; if (n && k & 4) h += x; h += strf("Content-Length: %zu\r\n", body.size()); if (k == 2) h += ct; if (n && !(k & 4)) h += x; return h + "\r\n" + body;
}
bool lsp_split(const str& out, vec<J>* msgs, str* why) {
    size_t i = 0;
    while (i < out.size()) {
        long len = -1;
        for (;;) { size_t e = out.find("\r\n", i); if (e == str::npos) { *why = strf("no header at byte %zu", i); return false; } str l = out.substr(i, e - i); i = e + 2; if (l.empty()) break;
            if (l.compare(0, 16, "Content-Length: ") == 0) { char* q; len = strtol(l.c_str() + 16, &q, 10); if (*q || q == l.c_str() + 16) { *why = "bad length in " + l; return false; } }
            else if (l.compare(0, 14, "Content-Type: ")) { *why = "unknown header " + l.substr(0, 80); return false; } }
        if (len < 0) { *why = "no length"; return false; } if (i + (size_t)len > out.size()) { *why = strf("message of %ld bytes has %zu", len, out.size() - i); return false; }
        J j; str w; if (!json_parse(out.substr(i, (size_t)len), &j, &w)) { *why = "not JSON: " + w + ": " + out.substr(i, std::min<size_t>((size_t)len, 300)); return false; }
        i += (size_t)len; msgs->push_back(j);
    }
    return true;
}
void Session::run(bool fresh) {
    Proc p; p.poison = poison; p.in_frag = frag; p.in_err = in_err; p.out_pipe = true; p.out_fail_after = out_fail; vec<size_t> at; asked = 0;
    for (size_t i = 0; i < frames.size(); i++) {
        size_t off = p.in.size(); auto b = before.find(i); std::function<void()> f; if (b != before.end()) f = b->second;
        if (gates) p.in_gates.push_back({off, [&at, &p, f, this] { at.push_back(p.out.size()); asked++; if (f) f(); }}); else if (f) f();
        p.in += frames[i];
    }
    if (gates) p.in_gates.push_back({p.in.size(), [&] { at.push_back(p.out.size()); }});
    if (cut < p.in.size()) p.in.resize(cut);
    r = cli(p, {"lsp"}, budget, fresh); out = p.out; err = p.err; chunk.assign(frames.size(), "");
    if (gates) for (size_t i = 0; i < frames.size(); i++) { size_t a = i < at.size() ? at[i] : out.size(), b = i + 1 < at.size() ? at[i + 1] : out.size(); chunk[i] = out.substr(a, b - a); }
}
vec<STok> source_tokens(const str& s) {
    vec<STok> v; size_t i = 0, ls = 0; int line = 0; auto word = [](char c) { return isalnum((u8)c) || c == '_'; };
    auto nl = [&](size_t at) { line++; ls = at + 1; };
    while (i < s.size()) {
        char c = s[i];
        if (c == '\n') { nl(i); i++; continue; }
        if (isspace((u8)c)) { i++; continue; }
        if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') i++; continue; }
        if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i + 2); e = e == str::npos ? s.size() : e + 2; for (; i < e; i++) if (s[i] == '\n') nl(i); continue; }
        STok t; t.off = i; t.line = line; t.col = (int)(i - ls); t.ident = isalpha((u8)c) || c == '_'; size_t j = i + 1;
        if (word(c)) while (j < s.size() && word(s[j])) j++;
        else if (c == '"') { while (j < s.size() && s[j] != '"') { if (s[j] == '\n') nl(j); j++; } j = std::min(j + 1, s.size()); }
        t.t = s.substr(i, j - i); t.ascii = true; for (size_t k = ls; k < j; k++) if ((u8)s[k] >= 0x80) t.ascii = false;
        v.push_back(t); i = j;
    }
    return v;
}
