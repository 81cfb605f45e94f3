// C15: formatting keeps meaning and comments, settles, and never claims success over a bad file.
#include "../tree.hpp"
// an independent reader of the source: comments and the rest
static vec<str> comments_of(const str& s) {
    vec<str> v; size_t i = 0;
    auto squeeze = [](const str& c) { str o; bool sp = false; for (char ch : c) { if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') { sp = true; continue; } if (sp && !o.empty()) o += ' '; sp = false; o += ch; } return o; };
    while (i < s.size()) {
        if (s[i] == '"') { i++; while (i < s.size() && s[i] != '"') i++; i++; }
        else if (s.compare(i, 2, "//") == 0) { size_t j = s.find('\n', i); if (j == str::npos) j = s.size(); v.push_back(squeeze(s.substr(i, j - i))); i = j; }
        else if (s.compare(i, 2, "/*") == 0) { size_t j = s.find("*/", i + 2); j = j == str::npos ? s.size() : j + 2; v.push_back(squeeze(s.substr(i, j - i))); i = j; }
        else i++;
    }
    return v;
}
// the same source with other amounts of white space between tokens and of blank lines between lines
static str respaced(const str& s, u64 seed) {
    Fill r(seed); r(); r(); str o; size_t i = 0; bool line = false; auto sp = [&](int least) { str x; for (int n = least + (int)(r() % 4); n-- > 0;) x += r() % 4 ? ' ' : '\t'; return x; };
    while (i < s.size()) {
        size_t j = i;
        if (s[i] == '"') { j++; while (j < s.size() && s[j] != '"') j++; j++; }
        else if (s.compare(i, 2, "//") == 0) { j = s.find('\n', i); }
        else if (s.compare(i, 2, "/*") == 0) { j = s.find("*/", i + 2); if (j != str::npos) j += 2; }
        else if (strchr(" \t\r\n", s[i])) { int nl = 0; while (j < s.size() && strchr(" \t\r\n", s[j])) nl += s[j++] == '\n'; if (nl > 1) nl = 2 + (int)(r() % 4); if (!line) o += sp(nl ? 0 : 1); while (nl--) { o += (line || r() % 8 ? "\n" : "\r\n") + sp(0); line = false; } i = j; continue; }
        else j++;
        line = s.compare(i, 2, "//") == 0;         j = std::min(j, s.size()); o += s.substr(i, j - i); i = j;
    }
    return o;
}
static str misindented(const str& s) { // the first line that does not stand at its depth of braces (no depth after a brace that closes nothing, as an unknown decorator may hold)
    size_t i = 0; int d = 0; bool bol = true; int line = 1;
    while (i < s.size()) {
        if (bol) { size_t j = i; while (j < s.size() && (s[j] == ' ' || s[j] == '\t')) j++; bol = false; if (j < s.size() && s[j] != '\n') { int want = 4 * (d - (s[j] == '}')); if ((int)(j - i) != std::max(want, 0) || s.substr(i, j - i).find('\t') != str::npos) return strf("line %d stands %zu to the right instead of %d", line, j - i, want); } i = j; continue; }
        if (s[i] == '"') { i++; while (i < s.size() && s[i] != '"') line += s[i++] == '\n'; i++; }
        else if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') i++; }
        else if (s.compare(i, 2, "/*") == 0) { size_t j = s.find("*/", i + 2); j = j == str::npos ? s.size() : j + 2; for (; i < j; i++) line += s[i] == '\n'; }
        else { if (s[i] == '{') d++; if (s[i] == '}' && --d < 0) return ""; if (s[i] == '\n') { bol = true; line++; } i++; }
    }
    return "";
}
static str show(const vec<str>& v) { str o; for (auto& x : v) o += "[" + x + "] "; return o; }
// conditions deep in one another, in front of the packet's fields
static void tower(Schema& s, u64 levels) {
    Block b; Field in; in.type = OP_IO_U8; in.name = "tower_x"; b.push_back(in);
    for (u64 i = 0; i < levels; i++) {
        Field f; f.k = K_IF; auto mk = [](int k) { E e = std::make_shared<Expr>(); e->k = (decltype(e->k))k; return e; };
        E x = mk(Expr::BIN), r = mk(Expr::REF), l = mk(Expr::INT); x->s = "=="; r->s = "tower_k"; l->i = (i64)draw(9); x->a = {r, l}; f.ifs.push_back({x, b});
        if (draw(3) == 2) { f.has_else = true; Field o = in; o.name = strf("tower_o%d", (int)i); f.els.push_back(o); }
        b = {f};
    }
    Field d; d.type = OP_IO_U8; d.name = "tower_k"; d.hot = {0, 1, 2}; b.insert(b.begin(), d); s.pkt.insert(s.pkt.begin(), b.begin(), b.end()); count("towers of conditions");
}
static void run() {
    Cfg c = swarm(); if (draw(2)) { c.structs = c.enums = true; } Schema s = gen_schema(c); Tree t; u64 rounds = 0;
    if (draw(8) == 7) tower(s, 4 + draw(12));
    u64 shape = draw(4);
    if (shape == 3) { t = make_tree(s, false); }
    else { t.main = "/w/m.cnd"; t.files[t.main] = scatter(schema_tokens(s), draw64(), (int)draw(3)); t.order = {t.main}; }
    if (draw(6) == 5) { // a careless edit: whatever is still a schema must stay the same schema
        str& x = t.files[pick(t.order)]; for (u64 k = 1 + draw(3); k-- && x.size() > 2;) { u64 at = draw(x.size()); u64 q = draw(4); static const char* ins[] = {"\n", " ", "{", "}", ";", ",", "/*", "*/", "//", "\"", "\t\n", "-", "\r\n", "@", "(", "\n\n\n"}; if (q == 0) x.erase(at, 1); else if (q == 1) x.erase(at, draw(8)); else x.insert(at, ins[draw(16)]); }
        count("carelessly edited sources");
    }
    D.mkdirs("/w/f/x"); t.put(); str img0, msg; int rc0 = compile_file(t.main, &img0, &msg); if (rc0) count("not schemas");
    str all; for (auto& f : t.order) all += "--- " + f + "\n" + t.files[f] + "\n";
    bool one = draw(2); Proc shared; // one long-lived process or one per file
    auto fmt = [&](Proc& p, vec<str> a, bool fresh) { Run r = cli(p, a, 1000000000, fresh); if (r.how == BUDGET) violate("hang", "the formatter does not end\n" + all); if (r.how != RETURNED && r.how != EXITED) { if (r.how != KILLED) violate("crash", "the formatter ends abnormally\n" + all); } return r; };
    std::map<str, str> good; bool first = true;
    for (auto& f : t.order) {
        const str& src = t.files[f]; str o = "/w/f/o.cnd"; if (draw(2)) D.put(o, str(draw(9000), 'z')); else D.f.erase(o);
        Proc p; Run r = fmt(p, {"fmt", spell("/w", f), "f/o.cnd"}, !one || first); first = false;
        if (r.code) violate("refused", "formatting fails without a fault\n" + all);
        if (D.get(f) != src) violate("input", "formatting changed its input\n" + all);
        str g = D.get(o); good[f] = g; ev("formatted %zu to %zu bytes", src.size(), g.size());
        auto a = comments_of(src), b = comments_of(g); if (rc0 == 0 && a != b) violate("comments", "comments " + show(a) + "\nbecome " + show(b) + "\nsource:\n" + src + "\nformatted:\n" + g);
        if (rc0 == 0) { str m = misindented(g); if (!m.empty()) violate("layout:indentation", m + "\nsource:\n" + src + "\nformatted:\n" + g);
            str v = respaced(src, draw64()); D.put("/w/f/v.cnd", v); Proc q; Run y = fmt(q, {"fmt", "f/v.cnd", "f/vo.cnd"}, !one); if (y.code) violate("refused", "formatting fails without a fault\n" + v); if (D.get("/w/f/vo.cnd") != g) violate("layout:spacing", "the amount of white space makes a difference\nsource:\n" + src + "\nformatted:\n" + g + "\nother source:\n" + v + "\nformatted:\n" + D.get("/w/f/vo.cnd")); D.f.erase("/w/f/v.cnd"); D.f.erase("/w/f/vo.cnd"); }
        // on the terminal
        Proc q; r = fmt(q, {"fmt", spell("/w", f)}, !one); if (r.code || q.out != g) violate("terminal", "formatting to the terminal differs from formatting to a file\n" + all);
        // again, onto itself
        Proc w; r = fmt(w, {"fmt", "f/o.cnd", draw(2) ? "f/o.cnd" : "f/p.cnd"}, !one); str again = w.wrote.empty() ? D.get(o) : D.get(norm_path("/w", w.wrote.back()));
        if (r.code) violate("refused", "formatting a formatted file fails\n" + all);
        if (rc0 == 0 && again != g) violate("settle", "formatting again changes the file\nsource:\n" + src + "\nonce:\n" + g + "\ntwice:\n" + again);
        rounds++;
    }
    // the formatted files, in place of the written ones
    u64 mask = draw64(); str mixed; for (size_t i = 0; i < t.order.size(); i++) if (t.order.size() == 1 || (mask >> i & 1)) D.put(t.order[i], good[t.order[i]]);
    for (int k = 0; k < 2; k++) {
        str img1, m1; int rc1 = compile_file(t.main, &img1, &m1); str now; for (auto& f : t.order) now += "--- " + f + "\n" + D.get(f) + "\n";
        if (rc0 == 0 && rc1) violate("meaning", "the formatted schema is refused: " + m1 + "\nsource:\n" + all + "\nformatted:\n" + now);
        if (rc0 == 0 && img1 != img0) violate("meaning", "the formatted schema compiles to another image\nsource:\n" + all + "\nformatted:\n" + now);
        for (auto& f : t.order) D.put(f, good[f]);
    }
    // a failing disk
    const str& f = pick(t.order); t.put(); Proc p0; p0.fp.armed = true; D.f.erase("/w/f/o.cnd"); fmt(p0, {"fmt", f, "f/o.cnd"}, true); u64 hits = 0;
    for (u64 i = 0, n = 2 + draw(8); i < n; i++) {
        bool term = draw(4) == 3; Proc p; p.fp.armed = true; p.poison = (u8)draw(256); D.put("/w/f/o.cnd", "old"); str what; u64 used = 0; for (auto& x : D.f) used += x.second.data.size(); u64 k = draw(4); bool full = false;
        if (term && k) { p.out_fail_after = draw(good[f].size() + 1); what = strf("terminal fails after %llu bytes", (unsigned long long)p.out_fail_after); }
        else if (k == 3) { D.capacity = used - 3 + draw(good[f].size() + 2); full = true; what = strf("disk full %lld bytes after the start", (long long)(D.capacity - used + 3)); }
        else { static const int ops[] = {F_OPENR, F_OPENW, F_READ, F_WRITE, F_CLOSE}; int op = ops[draw(5)]; if (!p0.fp.seen[op]) op = F_OPENR; int kind = (int)draw(3); if (kind == 1 && op != F_READ && op != F_WRITE) kind = 0; int nth = (int)draw((u64)p0.fp.seen[op]); p.fp.v.push_back({op, nth, kind, ""}); what = strf("%s #%d %s", FsOpName[op], nth, kind == 0 ? "fails" : kind == 1 ? "is short" : "kills"); }
        vec<str> a = {"fmt", f}; if (!term) a.push_back("f/o.cnd"); Run r = fmt(p, a, true); D.capacity = ~0ull; hits += p.fp.hits.size() + full + (p.out_fail_after != ~0ull);
        if (full) fault_hit("disk full"); if (p.out_fail_after != ~0ull) fault_hit("terminal fails");
        ev("%s: %d", what.c_str(), r.how == KILLED ? -1 : r.code); if (r.how == KILLED) continue;
        if (D.get(f) != t.files[f]) violate("input", "formatting changed its input: " + what + "\n" + all);
        if (r.code == 0) {
            if (term ? p.out != good[f] : (!D.has("/w/f/o.cnd") || D.get("/w/f/o.cnd") != good[f])) violate("success", "success over a bad result: " + what + "\n" + all);
            if (p.fp.v.size() && !p.fp.hits.empty() && (p.fp.v[0].op == F_READ || p.fp.v[0].op == F_OPENR) && p.fp.seen[p.fp.v[0].op] <= p0.fp.seen[p.fp.v[0].op] && p.fp.v[0].kind == 0) violate("success:input", "success although the input could not be read and was not read again: " + what + "\n" + all);
        } else if (p.fp.hits.empty() && !full && p.out_fail_after == ~0ull) violate("nofault", "fails without a fault\n" + all);
    }
    count("files formatted", rounds); g_path ^= hits + rounds * 77; if (rc0 == 0) g_sample = strf("%zu files, %zu bytes: ", t.order.size(), all.size()) + schema_brief(s).substr(0, 200);
    g_nontrivial = rc0 == 0; g_distinct = std::hash<str>()(all) ^ g_path;
}
static Reg r("C15", run, "a source the compiler accepts was formatted; distinct = text of all files x faults hit");
