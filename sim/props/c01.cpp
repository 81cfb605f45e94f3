// C01 wire layout: real encoder against the reference encoder.
#include "../walk.hpp"
// a number that does not fit where it stands: the compiler must say so
static void poison(const Schema& s) {
    vec<str> tk = schema_tokens(s); vec<size_t> at; vec<bool> in_expr(tk.size()); int d = 0; bool ex = false;
    for (size_t i = 0; i < tk.size(); i++) {
        const str& x = tk[i]; if (!d && x == "(" && i && (tk[i - 1] == "if" || tk[i - 1] == "expr")) { ex = true; d = 0; }
        if (ex) { in_expr[i] = true; if (x == "(") d++; if (x == ")" && --d == 0) ex = false; }
        if ((isdigit((u8)x[0]) || (x[0] == '-' && x.size() > 1 && isdigit((u8)x[1]))) && x.find(".") == str::npos && !(i && tk[i - 1] == "until") && !(i > 1 && tk[i - 1] == "(" && tk[i - 2] == "crc")) at.push_back(i);
    }
    if (at.empty()) return;
    size_t i = pick(at); str x = tk[i], y; bool neg = x[0] == '-'; str m = neg ? x.substr(1) : x; u64 v = strtoull(m.c_str(), nullptr, m.compare(0, 2, "0x") ? 10 : 16); const char* sg = neg ? "-" : "";
    bool fl = false; { size_t j = i; while (j && tk[j] != "(" && tk[j] != "{" && tk[j] != ";") j--; if (j && tk[j] == "(") { const str& n = tk[j - 1]; fl = n == "scale" || n == "offset" || n == "poly" || n == "spline" || n == "range"; } } // takes fractions
    switch (draw(4)) {
        case 3: { // as many as the field's count, length or width cannot be
            const str& q = i ? tk[i - 1] : x; u64 n; if (q == "max") n = draw(2) ? 65536 + v : 65536 * (1 + draw(70000)) + v; else if (q == "[") n = (1ull << 32) * (1 + draw(5)) + v; else if (q == ":") n = draw(2) ? 65 + draw(192) : 256 * (1 + draw(300)) + v; else if (q == "(" && i > 1 && (tk[i - 2] == "pad")) n = 256 * (1 + draw(300)) + v; else return;
            y = strf("%llu", (unsigned long long)n); break; }
        case 0: { unsigned __int128 z = (unsigned __int128)v + ((unsigned __int128)1 << 64) * (1 + draw(3)); str dd; for (auto t = z; t; t /= 10) dd.insert(dd.begin(), (char)('0' + (int)(t % 10))); y = sg + (draw(2) ? dd : strf("0x%llX%016llX", (unsigned long long)(z >> 64), (unsigned long long)z)); if (fl) return; break; }
        case 1: if (in_expr[i] || fl) return; y = strf("%s%llu.%d", sg, (unsigned long long)v, (int)(1 + draw(9))); break;
        default: if (!(i && (tk[i - 1] == "[" || tk[i - 1] == ":" || tk[i - 1] == "max") && v)) return; y = "-" + x; if (tk[i - 1] == ":" && i > 1 && false) return; break;
    }
    if (i > 1 && tk[i - 1] == "(" && (tk[i - 2] == "const" || tk[i - 2] == "match") && draw(2)) { // just outside the field's type
        static const std::map<str, int> ty{{"uint8", 8}, {"byte", 8}, {"u8", 8}, {"int8", -8}, {"i8", -8}, {"uint16", 16}, {"u16", 16}, {"int16", -16}, {"i16", -16}, {"uint32", 32}, {"u32", 32}, {"int32", -32}, {"i32", -32}};
        size_t j = i; while (j < tk.size() && tk[j] != ";" && !ty.count(tk[j])) j++; if (j == tk.size() || tk[j] == ";") return;
        int b = ty.at(tk[j]); y = b > 0 ? draw(2) ? strf("%llu", (1ull << b) + draw(2)) : strf("-%llu", 1 + (unsigned long long)draw(1ull << b)) : draw(2) ? strf("%llu", (1ull << (-b - 1)) + draw(2)) : strf("-%llu", (1ull << (-b - 1)) + 1 + draw(2));
    }
    tk[i] = y; str t; for (auto& z : tk) if (z != "\x01") t += z == "\n" ? z : z + (z == "@" ? "" : " "); str img; fault_hit("number that does not fit");
    if (compile(t, &img)) violate("number", "the number " + y + " (for " + x + ") is accepted\n" + t);
}
static void run() {
    Cfg c = swarm(); c.huge = true; Compiled k = make_schema(c); if (draw(3) == 2) poison(k.s);
    u64 msgs = 1 + draw(5); u64 good = 0;
    for (u64 m = 0; m < msgs; m++) {
        Src src; src.illegal = draw(6) == 5; src.wild = draw(8) == 7; src.optfail = draw(3) == 2; src.maxcount = (int)drawr(1, 5); src.longstr = draw(12) == 11;
        vec<u8> none; Walk w1 = walk_encode(k.s, src, none, 0, true);
        size_t extra = k.s.has_eof ? 0 : draw(4) == 3 ? draw(40) : 0, len = w1.end + extra;
        if (w1.err != CND_ERR_OK) len += 64;
        vec<u8> init(len); Fill f(draw64()); for (auto& b : init) b = f();
        src.replay = true; Walk w = walk_encode(k.s, src, init, len, false);
        Exact e(init); Host h(w, &k.im->prog); h.buf = e.p; h.len = len; h.rawseed = draw64();
        VmRes r = vm_exec(&k.im->prog, CND_MODE_ENCODE, e.p, len, host_cb, &h);
        str d = check_run(w, h, r, e.p, init, len);
        if (!d.empty()) violate("layout", d + "\nframe " + hex(e.p, len, 200) + "\nexpected " + hex(w.buf.data(), w.buf.size(), 200) + "\n" + k.text);
        if (w.err == CND_ERR_OK && w.fields) { good++; if (g_sample.empty()) g_sample = strf("%zu-byte frame of: ", w.end) + schema_brief(k.s).substr(0, 300); }
        g_path = (g_path ^ w.pathh) * 0x9E3779B97F4A7C15ull + w.end * 7 + (u64)w.err;
        count("frames encoded"); count("fields", w.fields); count("crcs", w.crcs); count("exprs", w.exprs); count("bulk taken", h.raw_taken); if (w.err) count("err " + errname(w.err));
    }
    g_nontrivial = good > 0; g_distinct = g_path ^ std::hash<str>()(k.text);
}
static Reg r("C01", run, "a schema whose run put at least one complete frame with at least one field on the wire; distinct = schema text x data path x frame lengths");
