#include "tree.hpp"
vec<vec<str>> chunks(const Schema& s) {
    vec<vec<str>> r(1); int d = 0;
    for (auto& x : schema_tokens(s)) {
        r.back().push_back(x); if (x == "{") d++;
        if ((x == "}" && --d == 0) || (x == ";" && d == 0)) r.push_back({"\n"});
    }
    bool empty = true; for (auto& x : r.back()) empty &= x == "\n"; if (empty) r.pop_back();
    return r;
}
str print_tokens(const vec<str>& tk, u64 style) {
    str o; int ind = 0; bool bol = true; Fill r(style * 2654435761u + 17); r();
    for (auto& x : tk) {
        if (x == "\x01") { if (style && r() % 12 == 0) { if (!bol) o += "\n"; o += "/// doc " + strf("%d", r()) + "\n"; bol = true; } continue; }
        if (x == "\n") { if (!bol) o += "\n"; bol = true; continue; }
        if (x == "}") ind--;
        if (bol) for (int i = 0; i < ind; i++) o += "    ";
        else if (x != ";" && x != "," && x != "(" && x != ")" && x != "[" && x != "]" && x != "." && o.back() != '(' && o.back() != '@' && o.back() != '[' && o.back() != '.') o += " ";
        else if (x == "(" && !(isalnum((u8)o.back()) || o.back() == '_') && o.back() != '(') o += " ";
        o += x; bol = false;
        if (x == "{") ind++;
    }
    return o;
}
static str dir_of(const str& p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
str spell(const str& from, const str& abs, bool import) {
    // split both
    vec<str> a, b; { str c; for (char ch : from + "/") if (ch == '/') { if (!c.empty()) a.push_back(c); c.clear(); } else c += ch; c.clear(); for (char ch : abs + "/") if (ch == '/') { if (!c.empty()) b.push_back(c); c.clear(); } else c += ch; }
    u64 m = draw(import ? 5 : 6); str o;
    if (m == 5) o = ""; // absolute
    size_t common = 0; if (m != 5) while (common < a.size() && common + 1 < b.size() && a[common] == b[common]) common++;
    if (m == 4 && common) common = draw(common + 1);
    if (m != 5) for (size_t i = common; i < a.size(); i++) o += "../";
    else o = "/";
    for (size_t i = m == 5 ? 0 : common; i < b.size(); i++) { if (draw(8) == 7) o += "./"; if (i + 1 < b.size() && draw(8) == 7) o += b[i] + "/../"; o += b[i]; if (i + 1 < b.size()) o += draw(10) == 9 ? "//" : "/"; }
    if (m == 3) o = "./" + o;
    for (auto& l : D.links) if (!import && l.second == dir_of(abs) && draw(3) == 2) o = l.first + abs.substr(dir_of(abs).size()); // through a symbolic link to the directory
    for (auto& l : D.links) if (!import && l.second == abs && draw(3) == 2) o = l.first;
    return o;
}
Tree make_tree(const Schema& s, bool links) {
    Tree t; auto ch = chunks(s); u64 style = s.style;
    static const char* dirs[] = {"/w", "/w/lib", "/w/lib/base", "/w/x", "/w/x/common"};
    vec<str> names; vec<vec<str>> body; vec<u64> done; // file i: pieces
    auto newfile = [&]() { str n = strf("%zu", names.size()), b = (draw(6) == 5 ? "a.b" : "f") + n + (draw(8) == 7 ? ".inc" : ".cnd");
        if (draw(10) == 9) { switch (draw(9)) { case 0: b = "f" + n + "\\"; break; case 1: b = "\\" + n + ".cnd"; break; case 2: b = "a b" + n + " .cnd"; break; case 3: b = "{" + n + "};,.cnd"; break; case 4: b = "*" + n + "*.cnd"; break; case 5: b = "\xC3\xA9'" + n + "@#%41.cnd"; break; case 6: b = "packet P" + n; break; case 7: b = str(60 + draw(60), 'l') + n; break; default: b = n + "!@(=[%s%n"; } count("strangely named files"); }
        str full = str(dirs[draw(5)]) + "/" + b;
        if (!names.empty() && draw(6) == 0) { // a namesake in another directory, or a name that differs in case only
            const str& o = pick(names); size_t q = o.rfind('/'); str x = o; if (draw(2)) x = str(dirs[draw(5)]) + o.substr(q); else for (size_t i = q + 1; i < x.size(); i++) if (isalpha((u8)x[i]) && !((u8)x[i] & 0x80)) { x[i] = (char)(x[i] ^ 32); if (draw(2)) break; }
            bool have = false; for (auto& z : names) have |= z == x; if (!have) { full = x; count("namesakes"); } }
        names.push_back(full); body.push_back({}); return names.size() - 1; };
    if (links) { D.links["/w/ln"] = "/w/lib"; if (draw(2)) D.links["/w/lib/up"] = "/w/x"; D.mkdirs("/w/lib/base/x"); D.mkdirs("/w/x/common/x"); }
    vec<size_t> open; open.push_back(newfile()); t.main = names[0];
    D.mkdirs("/w/lib/base/x"); D.mkdirs("/w/x/common/x");
    auto importline = [&](size_t from, size_t to) { body[from].push_back("@import(\"" + spell(dir_of(names[from]), names[to], true) + "\")" + (draw(2) ? ";" : "") + "\n"); };
    auto again = [&](size_t in) { if (draw(3) == 2) { importline(in, draw(names.size())); t.extra++; } };
    if (links && draw(2)) { D.links["/w/alias.cnd"] = names[0]; }
    int style_at = 0;
    for (size_t i = 0; i < ch.size(); i++) {
        again(open.back());
        if (open.size() > 1 && draw(3) == 0) { open.pop_back(); again(open.back()); }
        if (draw(2) && names.size() < 9) { size_t n = newfile(); importline(open.back(), n); if (links && draw(4) == 3) D.links["/w/l" + strf("%zu", n)] = names[n]; open.push_back(n); again(n); }
        str p = print_tokens(ch[i], style ? style + (u64)style_at++ : 0); body[open.back()].push_back(p); t.flat += p;
    }
    for (size_t i = 0; i < names.size(); i++) { str x; for (auto& p : body[i]) { size_t q = p.find_first_not_of('\n'); if (x.size() > 1 && x[x.size() - 2] == ')' && q != str::npos && p.compare(q, 3, "///") == 0) x.insert(x.size() - 1, ";"); x += p; if (x.empty() || x.back() != '\n') x += "\n"; } t.files[names[i]] = x; t.order.push_back(names[i]); }
    return t;
}
static bool word(char c) { return isalnum((u8)c) || c == '_'; }
str scatter(const vec<str>& tk, u64 seed, int comments, vec<str>* written) {
    Fill r(seed); r(); r(); str o; int density = r() % 4; bool crlf = r() % 8 == 0; int nc = 0; str nl = crlf ? "\r\n" : "\n";
    static const char* words[] = {"unit", "a{b", "x;y", "}", "\"quoted", "don't", "// no", "two  spaces", "@be", "*", "tab\there", "é", "", "a,b", "[", "-1"};
    auto text = [&](bool block) { str s = strf("c%d", nc++); for (int n = r() % 4; n--;) { s += r() % 4 ? " " : ""; s += words[r() % (sizeof words / sizeof *words)]; if (block && r() % 5 == 0) s += nl + (r() % 2 ? "   " : ""); } if (block && s.back() == '*') s += " "; if (block && !s.empty() && s[0] == '/') s = " " + s; return s; };
    
    for (size_t i = 0; i < tk.size(); i++) {
        const str& x = tk[i];
        if (x == "\n") { if (r() % 4 && !o.empty()) { o += nl; if (r() % 6 == 0) o += nl + (r() % 3 == 0 ? "  " + nl : str()); } continue; }
        if (x == "\x01") { if (comments && r() % 8 == 0) { if (r() % 2) o += nl; str c = "///" + str(r() % 3 ? " " : "") + text(false); o += c + nl; if (written) written->push_back(c); } continue; }
        str gap; 
        auto blank = [&] { int k = r() % 16; return k < 9 ? str(" ") : k < 11 ? str("  ") : k < 12 ? str("\t") : k < 14 ? nl : k < 15 ? nl + nl + "\t" : str("   ") + nl; };
        if (!o.empty()) {
            int k = r() % 8; bool sp = density == 0 ? k < 2 : density == 1 ? k < 5 : density == 2 ? k < 7 : true;
            if (sp) gap += blank();
            if (comments && r() % (comments > 1 ? 6 : 25) == 0) {
                if (gap.empty() && o.back() == '/') gap = " ";
                if (r() % 2) { str c = "/*" + text(true) + "*/"; if (r() % 6 == 0) c = "/**/"; gap += c; if (written) written->push_back(c); if (r() % 2) gap += blank(); }
                else { str c = "//" + str(r() % 2 ? " " : "") + text(false); if (c.compare(0, 3, "///") == 0) c = "// " + c.substr(2); gap += c + nl; if (written) written->push_back(c); }
            }
            bool need = (word(o.back()) && word(x[0])) || (o.back() == '-' && isdigit((u8)x[0])) || (o.back() == '/' && (x[0] == '/' || x[0] == '*')) || (o.back() == '<' && (x[0] == '<' || x[0] == '=')) || (o.back() == '>' && (x[0] == '>' || x[0] == '=')) || (o.back() == '&' && x[0] == '&') || (o.back() == '|' && x[0] == '|') || ((o.back() == '!' || o.back() == '=') && x[0] == '=') || (isdigit((u8)o.back()) && x[0] == '.') || (o.back() == '*' && x[0] == '/');
            if (need && gap.empty()) gap = " ";
        }
        o += gap + x;
    }
    if (r() % 2) o += nl;
    if (comments && r() % 3 == 0) { str c = "// " + text(false); o += nl + c; if (written) written->push_back(c); if (r() % 2) o += nl; }
    return o;
}
int compile_file(const str& path, str* img, str* out) {
    Proc p; D.f.erase("/w/ref.il"); Run r = cli(p, {"compile", path, "ref.il"}); if (out) *out = p.out + p.err;
    if (r.how == BUDGET) violate("hang:compile", "compiler did not end"); if (r.how != RETURNED && r.how != EXITED) violate("crash:compile", "compiler ended abnormally");
    if (r.code == 0) { if (!D.has("/w/ref.il")) violate("compile:nofile", "success without an image"); *img = D.get("/w/ref.il"); } D.f.erase("/w/ref.il"); return r.code;
}
