#include "jsonx.hpp"
static double bd(u64 x) { double d; memcpy(&d, &x, 8); return d; }
static float bf(u64 x) { u32 y = (u32)x; float f; memcpy(&f, &y, 4); return f; }
namespace {
struct Rd {
    const str& t; size_t i = 0; str why; int depth = 0;
    explicit Rd(const str& t) : t(t) {}
    bool fail(const char* m) { if (why.empty()) why = strf("%s at byte %zu", m, i); return false; }
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) i++; }
    static void utf8(str& o, u32 c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
    bool hex4(u32* v) { *v = 0; for (int k = 0; k < 4; k++) { if (i >= t.size() || !isxdigit((u8)t[i])) return fail("bad escape"); char c = t[i++]; *v = *v * 16 + (u32)(isdigit((u8)c) ? c - '0' : (c | 32) - 'a' + 10); } return true; }
    bool string(str* o) {
        i++; for (;;) {
            if (i >= t.size()) return fail("string not closed"); u8 c = (u8)t[i++];
            if (c == '"') return true; if (c < 0x20) return fail("control character in a string");
            if (c != '\\') { *o += (char)c; continue; }
            if (i >= t.size()) return fail("string not closed"); c = (u8)t[i++];
            switch (c) { case '"': case '\\': case '/': *o += (char)c; break; case 'b': *o += '\b'; break; case 'f': *o += '\f'; break; case 'n': *o += '\n'; break; case 'r': *o += '\r'; break; case 't': *o += '\t'; break;
                case 'u': { u32 v; if (!hex4(&v)) return false; if (v >= 0xD800 && v < 0xDC00) { if (t.compare(i, 2, "\\u")) return fail("lone surrogate"); i += 2; u32 l; if (!hex4(&l)) return false; v = 0x10000 + ((v & 0x3FF) << 10) + (l & 0x3FF); } utf8(*o, v); break; }
                default: return fail("bad escape"); }
        }
    }
    bool value(J* o) {
        ws(); if (i >= t.size()) return fail("value missing"); if (++depth > 200) return fail("too deep"); char c = t[i];
        if (c == '{') {
            o->k = J::OBJ; i++; ws(); if (i < t.size() && t[i] == '}') { i++; depth--; return true; }
            for (;;) { ws(); if (i >= t.size() || t[i] != '"') return fail("member name missing"); str n; if (!string(&n)) return false; ws(); if (i >= t.size() || t[i] != ':') return fail("colon missing"); i++; J v; if (!value(&v)) return false; o->n.push_back(n); o->a.push_back(v); ws(); if (i < t.size() && t[i] == ',') { i++; continue; } if (i < t.size() && t[i] == '}') { i++; depth--; return true; } return fail("object not closed"); }
        }
        if (c == '[') { o->k = J::ARR; i++; ws(); if (i < t.size() && t[i] == ']') { i++; depth--; return true; } for (;;) { J v; if (!value(&v)) return false; o->a.push_back(v); ws(); if (i < t.size() && t[i] == ',') { i++; continue; } if (i < t.size() && t[i] == ']') { i++; depth--; return true; } return fail("array not closed"); } }
        depth--;
        if (c == '"') { o->k = J::STR; return string(&o->s); }
        if (t.compare(i, 4, "true") == 0) { i += 4; o->k = J::BOOL; o->b = true; return true; }
        if (t.compare(i, 5, "false") == 0) { i += 5; o->k = J::BOOL; return true; }
        if (t.compare(i, 4, "null") == 0) { i += 4; return true; }
        size_t j = i; if (j < t.size() && t[j] == '-') j++; size_t d0 = j; while (j < t.size() && isdigit((u8)t[j])) j++; if (j == d0) return fail("not a value");
        if (j < t.size() && t[j] == '.') { j++; d0 = j; while (j < t.size() && isdigit((u8)t[j])) j++; if (j == d0) return fail("bad number"); }
        if (j < t.size() && (t[j] | 32) == 'e') { j++; if (j < t.size() && (t[j] == '+' || t[j] == '-')) j++; d0 = j; while (j < t.size() && isdigit((u8)t[j])) j++; if (j == d0) return fail("bad number"); }
        o->k = J::NUM; o->s = t.substr(i, j - i); o->d = strtod(o->s.c_str(), nullptr); i = j; return true;
    }
};
}
bool json_parse(const str& t, J* out, str* why) { Rd r(t); *out = J(); bool ok = r.value(out); if (ok) { r.ws(); if (r.i != t.size()) ok = r.fail("text behind the document"); } if (why) *why = r.why; return ok; }
static J num_i(bool sg, u64 v) { J j; j.k = J::NUM; j.s = sg ? strf("%lld", (long long)v) : strf("%llu", (unsigned long long)v); j.d = sg ? (double)(i64)v : (double)v; return j; }
static J num_d(double d) { J j; if (d - d != 0) { j.k = J::NUL; j.any = true; return j; } j.k = J::NUM; j.d = d; j.s = strf("%.17g", d); return j; }
static J val_of(u8 op, u64 i, double d, bool dbl) {
    if (dbl) return num_d(d);
    switch (op) {
        case OP_IO_BOOL: case OP_IO_BIT_BOOL: { J j; j.k = J::BOOL; j.b = i & 0xFF; return j; }
        case OP_IO_F32: return num_d((double)bf(i)); case OP_IO_F64: return num_d(bd(i));
        case OP_IO_I8: return num_i(true, (u64)(i64)(int8_t)i); case OP_IO_I16: return num_i(true, (u64)(i64)(int16_t)i); case OP_IO_I32: return num_i(true, (u64)(i64)(int32_t)i); case OP_IO_I64: case OP_IO_BIT_I: return num_i(true, i);
        case OP_IO_U8: return num_i(false, i & 0xFF); case OP_IO_U16: return num_i(false, i & 0xFFFF); case OP_IO_U32: return num_i(false, i & 0xFFFFFFFF);
        default: return num_i(false, i);
    }
}
J doc_of(const Walk& w, bool computed) {
    J root; root.k = J::OBJ; struct Fr { J* j; bool arr; }; vec<Fr> st; // rebuilt bottom-up: children are moved into their parent when closed
    vec<J> open; vec<str> name; open.push_back(root); name.push_back("");
    auto last = [](const str& k) { size_t p = k.rfind('.'); return p == str::npos ? k : k.substr(p + 1); };
    auto put = [&](const str& n, J v) { J& t = open.back(); if (t.k == J::ARR) t.a.push_back(std::move(v)); else { for (size_t i = 0; i < t.n.size(); i++) if (t.n[i] == n) { t.a[i] = std::move(v); return; } t.n.push_back(n); t.a.push_back(std::move(v)); } };
    auto close = [&] { J v = std::move(open.back()); open.pop_back(); str n = name.back(); name.pop_back(); put(n, std::move(v)); };
    for (auto& e : w.ev) {
        switch (e.op) {
            case OP_ENTER_STRUCT: { open.back().hexable = open.back().maybe_hex = false; J o; o.k = J::OBJ; open.push_back(o); name.push_back(last(e.key)); continue; }
            case OP_EXIT_STRUCT: if (open.size() > 1) close(); continue;
            case OP_ARR_FIXED: case OP_ARR_DYNAMIC: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: { J o; o.k = J::ARR; o.hexable = e.i > 0; o.maybe_hex = true; open.push_back(o); name.push_back(last(e.key)); continue; }
            case OP_ARR_END: if (open.size() > 1 && open.back().k == J::ARR) close(); continue;
            case OP_STORE_CTX: if (computed) { int t = e.ctype; J v = op_float(t) ? val_of(OP_IO_F64, 0, t == OP_IO_F32 ? (double)(float)bd(e.i) : bd(e.i), true) : t == OP_IO_BOOL ? val_of(OP_IO_BOOL, e.i != 0, 0, false) : val_of((u8)t, e.i, 0, false); v.exact = !op_float(t); put(last(e.key), v); } continue;
            default: break;
        }
        J v; if (e.k == V_STR) { v.k = J::STR; v.s = str(e.missing ? "" : e.s.c_str()); } else v = val_of(e.op, e.i, e.d, e.k == V_DBL); v.exact = e.exact && e.k != V_DBL;
        J& t = open.back(); if (t.k == J::ARR) { if (!(e.elem8 && e.op == OP_IO_U8)) t.hexable = false; if (e.op != OP_IO_U8) t.maybe_hex = false; }
        put(last(e.key), v);
    }
    while (open.size() > 1) close();
    return open[0];
}
bool doc_carriable(const Walk& w) {
    for (auto& e : w.ev) {
        if (e.k == V_DBL) { if (e.d - e.d != 0) return false; continue; } if (e.op == OP_STORE_CTX || e.k != V_INT) continue;
        if (e.op == OP_IO_U64 || e.op == OP_IO_BIT_U) { if (e.i > 1ull << 53) return false; } else if (e.op == OP_IO_I64 || e.op == OP_IO_BIT_I) { i64 x = (i64)e.i; if (x > 1ll << 53 || x < -(1ll << 53)) return false; }
        else if (e.op == OP_IO_F32) { float f = bf(e.i); if (f - f != 0) return false; } else if (e.op == OP_IO_F64) { double d = bd(e.i); if (d - d != 0) return false; }
    }
    return true;
}
static str quote(const str& s, const JStyle& st, Fill& r) {
    str o = "\"";
    for (size_t i = 0; i < s.size(); i++) { u8 c = (u8)s[i]; 
        if (st.escapes && r() % 9 == 0 && c < 0x80) { o += strf(r() % 2 ? "\\u%04x" : "\\u%04X", c); continue; }
        if (st.escapes && c >= 0xC0 && c < 0xE0 && i + 1 < s.size() && r() % 2) { o += strf("\\u%04x", (unsigned)((c & 31) << 6 | ((u8)s[i + 1] & 63))); i++; continue; }
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 0x20) o += strf("\\u%04x", c); else if (c == '/' && st.escapes && r() % 2) o += "\\/"; else o += (char)c; }
    return o + "\"";
}
static void print_(const J& j, const JStyle& st, Fill& r, int ind, str& o) {
    auto gap = [&] { if (st.pretty) { if (r() % 5 == 0) o += r() % 2 ? "  " : "\t"; if (r() % 3 == 0) o += "\n" + str((size_t)ind, ' '); } };
    switch (j.k) {
        case J::NUL: o += "null"; return;
        case J::BOOL: o += j.b ? "true" : "false"; return;
        case J::STR: o += quote(j.s, st, r); return;
        case J::NUM: { str t = j.s; if (st.spell && t.find_first_of(".eEn") == str::npos) { int k = r() % 8; if (k == 0) t += ".0"; else if (k == 1) t += "e0"; else if (k == 2) t += "E+00"; else if (k == 3 && t != "0" && t.size() < 12) t += "00e-2"; } o += t; return; }
        case J::ARR:
            if (st.hex && j.hexable && r() % 2) { str h; bool up = r() % 2; for (auto& x : j.a) h += strf(up ? "%02X" : "%02x", (unsigned)x.d); o += "\"" + h + "\""; return; }
            o += "["; for (size_t i = 0; i < j.a.size(); i++) { if (i) o += ","; gap(); print_(j.a[i], st, r, ind + 1, o); gap(); } o += "]"; return;
        case J::OBJ: {
            vec<size_t> ord; for (size_t i = 0; i < j.a.size(); i++) ord.push_back(i);
            if (st.shuffle) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[(size_t)((r() << 8 | r()) % i)]);
            o += "{"; bool first = true;
            for (size_t q : ord) {
                if (st.extra && r() % 6 == 0) { if (!first) o += ","; first = false; static const char* x[] = {"\"__comment\": \"x\"", "\"\": null", "\"extra\": [1, {\"a\": []}]", "\"Extra\": {\"x\": {\"y\": 3}}"}; o += x[r() % 4]; }
                if (!first) o += ","; first = false; gap(); o += quote(j.n[q], JStyle(), r); gap(); o += ":"; if (st.pretty) o += " "; print_(j.a[q], st, r, ind + 1, o); gap();
            }
            o += "}"; return;
        }
    }
}
str json_print(const J& j, const JStyle& st) { Fill r(st.seed); r(); str o; if (st.pretty && r() % 4 == 0) o += "\n "; print_(j, st, r, 1, o); if (st.pretty && r() % 2) o += "\n"; return o; }
str doc_diff(const J& w, const J& g, bool hex, const str& at) {
    static const char* kn[] = {"null", "a boolean", "a number", "a string", "an array", "an object"};
    if (w.any) return "";
    if (w.k == J::ARR && g.k == J::STR && hex && w.maybe_hex) {
        if (g.s.size() != 2 * w.a.size()) return strf("%s has %zu hex digits for %zu bytes", at.c_str(), g.s.size(), w.a.size());
        for (size_t i = 0; i < w.a.size(); i++) { if (!isxdigit((u8)g.s[2 * i]) || !isxdigit((u8)g.s[2 * i + 1])) return at + " is not hex"; if (strtoul(g.s.substr(2 * i, 2).c_str(), nullptr, 16) != (u64)w.a[i].d) return at + strf("[%zu] differs", i); }
        return "";
    }
    if (w.k == J::ARR && g.k == J::ARR && hex && w.hexable && !w.a.empty()) return at + " is not shown as hex";
    if (w.k != g.k) return at + " is " + kn[g.k] + ", not " + kn[w.k];
    switch (w.k) {
        case J::NUL: return "";
        case J::BOOL: return w.b == g.b ? "" : at + " has the other truth value";
        case J::STR: return w.s == g.s ? "" : at + " is another string";
        case J::NUM: {
            if (!w.exact) { double m = std::max(std::fabs(w.d), std::fabs(g.d)); return w.d == g.d || std::fabs(w.d - g.d) <= 1e-9 * std::max(m, 1.0) ? "" : at + " is " + g.s + ", not " + w.s; }
            bool wi = w.s.find_first_of(".eE") == str::npos, gi = g.s.find_first_of(".eE") == str::npos;
            if (wi && gi && w.s.size() < 21 && std::fabs(w.d) >= 1e15) return w.s == g.s ? "" : at + " is " + g.s + ", not " + w.s;
            return w.d == g.d ? "" : at + " is " + g.s + ", not " + w.s;
        }
        case J::ARR:
            if (w.a.size() != g.a.size()) return strf("%s has %zu elements, not %zu", at.c_str(), g.a.size(), w.a.size());
            for (size_t i = 0; i < w.a.size(); i++) { str d = doc_diff(w.a[i], g.a[i], hex, at + strf("[%zu]", i)); if (!d.empty()) return d; } return "";
        case J::OBJ:
            for (size_t i = 0; i < w.n.size(); i++) { const J* m = g.get(w.n[i]); if (!m) return at + "." + w.n[i] + " is missing"; str d = doc_diff(w.a[i], *m, hex, at + "." + w.n[i]); if (!d.empty()) return d; }
            for (size_t i = 0; i < g.n.size(); i++) if (!w.get(g.n[i])) return at + "." + g.n[i] + " is not in the data";
            if (g.n.size() != w.n.size()) return at + " has a member twice"; return "";
    }
    return "";
}
