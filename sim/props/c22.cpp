// C22: definitions the language rules out never compile. A sound schema gets one unsound piece; the same piece without the flaw is the control.
#include "../tree.hpp"
#include "../jsonx.hpp"
struct Flaw { str kind, topb, topg, fb, fg; bool line = true; };
static str nm(const char* p) { return strf("%s%llu", p, (unsigned long long)draw(1000)); }
static const struct Ty { const char* n; int bits; bool sg; } TY[] = {{"u8", 8, 0}, {"uint8", 8, 0}, {"byte", 8, 0}, {"i8", 8, 1}, {"int8", 8, 1}, {"u16", 16, 0}, {"uint16", 16, 0}, {"i16", 16, 1}, {"int16", 16, 1}, {"u32", 32, 0}, {"uint32", 32, 0}, {"i32", 32, 1}, {"int32", 32, 1}, {"u64", 64, 0}, {"uint64", 64, 0}, {"i64", 64, 1}, {"int64", 64, 1}};
static const Ty& ty(bool wide = true) { return TY[draw(wide ? 17 : 13)]; }
static str lo(const Ty& t) { return t.sg ? t.bits == 64 ? str("-9223372036854775808") : strf("-%llu", 1ull << (t.bits - 1)) : str("0"); }
static str hi(const Ty& t) { u64 v = t.sg ? (1ull << (t.bits - 1)) - 1 : t.bits == 64 ? ~0ull : (1ull << t.bits) - 1; return draw(2) ? strf("%llu", (unsigned long long)v) : strf("0x%llX", (unsigned long long)v); }
static str over(const Ty& t) { return t.sg ? strf("%llu", 1ull << (t.bits - 1)) : strf("%llu", 1ull << t.bits); }               // not for 64 bits
static str under(const Ty& t) { return t.sg ? strf("-%llu", (1ull << (t.bits - 1)) + 1) : str("-1"); }
static str anyt() { static const char* x[] = {"f32", "float", "f64", "double", "bool"}; return draw(3) ? str(ty().n) : str(x[draw(5)]); }
static str list(u64 n, bool up = false) { str s; for (u64 i = 0; i < n; i++) s += strf("%s%llu", i ? ", " : "", (unsigned long long)(up ? i / 2 + 1 : 1 + draw(9))); return s; }
// One flaw, written as a field (fb) with definitions before everything else (topb), and the same without the flaw (fg, topg)
static Flaw flaw() {
    Flaw f; str a = nm("zza"), b = nm("zzb"), E_ = nm("ZzE"), S_ = nm("ZzS"); auto& t = ty(); auto& n = ty(false); const char* T = t.n; const char* N = n.n; str ET = t.n, EN = n.n; if (ET == "byte") ET = "u8"; if (EN == "byte") EN = "u8"; // byte is no type of an enumeration
    u64 fill = draw(3) == 2 ? 4 + draw(30) : 0; str more; for (u64 i = 0; i < fill; i++) more += strf(", M%llu = %llu", (unsigned long long)i, (unsigned long long)(100 + i)); str en = "enum " + E_ + " : u8 { Alpha = 1, Beta = 2, Al" + more + " }"; static const char* const mem_[] = {"Alpha", "Beta", "Al"}; str st = "struct " + S_ + " { u8 x; u16 y; }";
    auto fld = [&](const char* kind, str bad, str good) { f.kind = kind; f.fb = bad; f.fg = good; };
    auto top = [&](const char* kind, str bad, str good) { f.kind = kind; f.topb = bad; f.topg = good; };
    auto both = [&](str d) { f.topb = f.topg = d; };
    switch (draw(46)) {
        case 0: fld("unknown type", nm("Zzq") + " " + a + ";", str(T) + " " + a + ";"); break;
        case 1: { str o = anyt(); fld("field named twice", strf("%s %s; ", T, a.c_str()) + o + " " + a + ";", strf("%s %s; ", T, a.c_str()) + o + " " + a + "x;"); if (draw(2)) { both(draw(2) ? st : en); bool s = f.topb == st; str u = s ? S_ : E_; f.fb = u + " " + a + "; " + o + " " + a + ";"; f.fg = u + " " + a + "; " + o + " " + b + ";"; } break; }
        case 2: { str v = n.sg || draw(2) ? draw(2) ? over(n) : under(n) : over(n); str d = draw(2) ? "@const(" : "@match("; fld("constant outside its type", d + v + ") " + N + " " + a + ";", d + (draw(2) ? hi(n) : lo(n)) + ") " + N + " " + a + ";"); break; }
        case 3: { if (draw(2)) { // the ends of the type and its middle
                u64 m = t.bits == 64 ? ~0ull : (1ull << t.bits) - 1, v[] = {0, 1, m / 2 - 1, m / 2, m / 2 + 1, m / 2 + 2, m - 1, m}; u64 x = draw(8), y = draw(7); if (y >= x) y++; if (x > y) std::swap(x, y);
                auto pv = [&](u64 k) { u64 w = t.sg ? v[k] - m / 2 - 1 : v[k]; bool h = draw(2); if (t.sg && (i64)w < 0) return h && t.bits < 64 ? strf("-0x%llx", (unsigned long long)-w) : strf("%lld", (long long)w); return strf(h ? "0x%llX" : "%llu", (unsigned long long)w); };
                str q = pv(x), z = pv(y); fld("range upside down", "@range(" + z + ", " + q + ") " + T + " " + a + ";", "@range(" + q + ", " + z + ") " + T + " " + a + ";"); break; }
            i64 l = drawr(-100, 100), h = l + drawr(1, 20); if (!t.sg && l < 0) { l += 100; h += 100; } fld("range upside down", strf("@range(%lld, %lld) %s %s;", (long long)h, (long long)l, T, a.c_str()), strf("@range(%lld, %lld) %s %s;", (long long)l, (long long)(draw(3) ? h : l), T, a.c_str())); break; }
        case 4: { bool u = draw(2); fld("range outside its type", strf("@range(%s, %s) %s %s;", (u ? under(n) : str("1")).c_str(), (u ? str("7") : over(n)).c_str(), N, a.c_str()), strf("@range(%s, %s) %s %s;", lo(n).c_str(), hi(n).c_str(), N, a.c_str())); break; }
        case 5: { static const char* w[] = {"0", "65", "256", "257", "4294967297", "-1"}; fld("bit width", strf("%s %s : %s;", T, a.c_str(), w[draw(6)]), strf("%s %s : %d;", T, a.c_str(), (int)drawr(1, t.bits))); break; }
        case 6: { bool k = draw(2); fld("bool of several bits", "bool " + a + strf(" : %d;", k ? 2 : (int)drawr(2, 64)), "bool " + a + " : 1;"); break; }
        case 7: { static const char* w[] = {"f32", "float", "f64", "double"}; str x = w[draw(4)]; fld("bits of what has none", x + " " + a + " : 3;", x + " " + a + ";"); if (draw(2)) { both(draw(2) ? st : en); x = f.topb == st ? S_ : E_; f.fb = x + " " + a + " : 3;"; f.fg = x + " " + a + ";"; } else if (draw(3) == 2) { f.fb = "string " + a + " : 3 prefix u8;"; f.fg = "string " + a + " prefix u8;"; } break; }
        case 8: { bool w = draw(2); str g = strf("@crc(%d) %s %s;", w ? 32 : 16, w ? "u32" : "u16", a.c_str()); static const char* o[] = {"u8", "i16", "i32", "u64", "f32", "f64", "bool"}; u64 q = draw(9); str x = q < 7 ? o[q] : w ? "u16" : "u32"; fld("crc of another type", strf("@crc(%d) %s %s;", w ? 32 : 16, x.c_str(), a.c_str()), g); break; }
        case 9: { static const int w[] = {0, 8, 15, 17, 24, 31, 33, 64, 272}; fld("crc width", strf("@crc(%d) %s %s;", w[draw(9)], draw(2) ? "u16" : "u32", a.c_str()), "@crc(16) u16 " + a + ";"); break; }
        case 10: { static const char* p[] = {"crc_poly", "crc_init", "crc_xor"}; const char* d = p[draw(3)]; fld("crc parameter", strf("@crc(16) @%s(%llu) u16 %s;", d, (unsigned long long)(65536 + draw(3) * 65535), a.c_str()), strf("@crc(16) @%s(%llu) u16 %s;", d, (unsigned long long)(draw(2) ? 65535 : draw(65536)), a.c_str())); break; }
        case 11: { static const char* s[] = {"@crc(16) u16 %[2];", "@crc(16) @const(1) u16 %;", "@crc(16) u16 % : 4;", "@crc(16) @expr(1 + 1) u16 %;", "@crc(16) @range(0, 9) u16 %;", "@crc(16) @scale(2.0) u16 %;", "@crc(32) string % prefix u8;"}; str x = s[draw(7)]; size_t i = x.find('%'); x.replace(i, 1, a); fld("crc with another role", x, "@crc(16) u16 " + a + ";"); break; }
        case 12: if (draw(2)) fld("padding", strf("@pad(%llu);", (unsigned long long)(256 + draw(3) * 255)), strf("@pad(%llu);", (unsigned long long)(draw(2) ? 255 : 8))); else fld("filling", strf("@fill(%llu);", (unsigned long long)(2 + draw(255))), strf("@fill(%d);", (int)draw(2))); break;
        case 13: if (draw(2)) fld("too many coefficients", "@poly(" + list(17 + draw(4)) + ") u16 " + a + ";", "@poly(" + list(16) + ") u16 " + a + ";"); else fld("too many points", "@spline(" + list(34 + 2 * draw(4), true) + ") u16 " + a + ";", "@spline(" + list(32, true) + ") u16 " + a + ";"); break;
        case 14: { static const char* s[] = {"@spline(1, 2, 3)", "@spline()", "@poly()", "@scale()", "@scale(1, 2)", "@offset()", "@add()", "@range(5)", "@range()", "@range(1, 2, 3)", "@const()", "@crc()", "@scale", "@poly", "@range", "@const", "@match", "@crc", "@mul", "@count", "@expr", "@expr()"}; fld("decorator arguments", str(s[draw(22)]) + " u16 " + a + ";", "@scale(2.0) u16 " + a + ";"); break; }
        case 15: { static const char* d[] = {"@scale(2.0) ", "@offset(3.0) ", "@add(3) ", "@sub(3) ", "@mul(3) ", "@div(3) ", "@poly(1.0, 2.0) ", "@spline(0.0, 0.0, 1.0, 2.0) "}; str x = d[draw(8)], u; switch (draw(7)) { case 0: u = "bool " + a + ";"; break; case 1: u = "string " + a + " prefix u8;"; break; case 2: both(en); u = E_ + " " + a + ";"; break; case 3: both(st); u = S_ + " " + a + ";"; break; case 4: u = str("@const(5) ") + T + " " + a + ";"; break; case 5: u = str(T) + " " + a + " : 3;"; break; default: u = "@expr(2 + 3) u32 " + a + ";"; } fld("transform of what is no plain number", x + u, u); break; }
        case 16: { str u; switch (draw(4)) { case 0: u = "bool " + a + ";"; break; case 1: u = "string " + a + " prefix u8;"; break; case 2: both(st); u = S_ + " " + a + ";"; break; default: u = str(T) + " " + a + " : 3;"; } fld("range of what is no plain number", "@range(1, 2) " + u, u); break; }
        case 17: { str u = anyt(); fld("array without a length", u + " " + a + "[];", u + " " + a + "[] prefix " + (draw(2) ? "u8" : "uint16") + ";"); if (draw(3) == 2) { f.fb = "string " + a + "[] until 0;"; f.fg = "string " + a + "[2] until 0;"; } break; }
        case 18: { static const char* d[] = {"@count(3) ", "@eof ", "@len(2) "}; str u = anyt(); str x = d[draw(3)]; if (draw(2)) { str r = nm("zzr"); x = "u8 " + r + "; @count(" + r + ") "; } fld("count of what is no array", x + u + " " + a + ";", x + u + " " + a + "[];"); break; }
        case 19: { static const char* p[] = {"u64", "i8", "i16", "i32", "int8", "int32", "f32", "bool", "string", "uint64", "int16", "float", "zzq"}; str u = anyt(), q = p[draw(13)]; bool s = draw(2); if (s) fld("prefix type", "string " + a + " prefix " + q + ";", "string " + a + " prefix u16;"); else fld("prefix type", u + " " + a + "[] prefix " + q + ";", u + " " + a + "[] prefix u32;"); break; }
        case 20: { str u = anyt(); bool k = draw(2); fld("prefix of what has a length", u + " " + a + (k ? "" : "[3]") + " prefix u8;", u + " " + a + (k ? "" : "[3]") + ";"); break; }
        case 21: fld("text without a length", strf("string %s[%d];", a.c_str(), (int)drawr(1, 9)), strf("string %s[%d] %s;", a.c_str(), (int)drawr(1, 9), draw(2) ? "until 0" : "until 0 max 9")); break;
        case 22: { static const char* m[] = {"65536", "65537", "131072", "4294967296", "-1", "99999999999999999999"}; fld("text length", "string " + a + (draw(2) ? " until 0 max " : " max ") + m[draw(6)] + ";", "string " + a + (draw(2) ? " until 0 max 65535;" : " max 1;")); break; }
        case 23: { static const char* m[] = {"4294967296", "-1", "1.5", "0x100000000", "99999999999999999999", "4294967297"}; str u = anyt(); if (draw(2)) fld("array length", u + " " + a + "[" + m[draw(6)] + "];", u + " " + a + "[4294967295];"); else fld("array length", str("@count(") + m[draw(6)] + ") " + u + " " + a + "[];", "@count(3) " + u + " " + a + "[];"); break; }
        case 24: { static const char* d[] = {"nonsense", "scal", "scales", "Const", "consts", "rang", "crc8", "optionals", "option", "little", "big-endian", "eo", "eofs", "pads", "fil", "expression", "splines", "x"}; str x = str("@") + d[draw(18)] + (draw(3) ? "" : "(1)"); fld("unknown decorator", x + " " + T + " " + a + ";", "@optional " + str(T) + " " + a + ";"); break; }
        case 25: { static const char* w[] = {"self", "if", "else", "switch", "case", "default", "struct", "packet", "enum"}; str x = w[draw(9)]; fld("a keyword for a name", str(T) + " " + x + ";", str(T) + " " + x + "1;"); if (draw(3) == 2) { top("a keyword for a name", "struct " + x + " { u8 a; }", "struct " + x + "_ { u8 a; }"); f.fb = f.fg = ""; if (x == "self") top("a keyword for a name", "struct if { u8 a; }", "struct iff { u8 a; }"); } break; }
        case 26: { // two cases for one value
            u64 k = draw(4), many = draw(2) ? draw(6) : draw(3) == 2 ? draw(40) : 0; i64 v = drawr(-5, 300); str l1 = strf("%lld", (long long)v), l2 = v < 0 ? strf("-0x%llx", (unsigned long long)-v) : strf("0x%llx", (unsigned long long)v), l3 = strf("%lld", (long long)v + 1000); str mid; for (u64 i = 0; i < many; i++) mid += strf(" case %llu: u8 zzm%llu;", (unsigned long long)(2000 + i * (k == 3 ? 999 : 1)), (unsigned long long)i);
            if (k == 0) { both(en); u64 w = draw(3); l1 = E_ + "." + mem_[w]; l2 = draw(2) ? l1 : strf("%llu", (unsigned long long)(w + 1)); l3 = draw(2) ? E_ + "." + mem_[(w + 1) % 3] : str("7"); if (draw(2)) std::swap(l1, l2); }
            str d = nm("zzd"), h = "i32 " + d + "; switch (" + d + ") { case " + l1 + ": u8 " + a + "x;" + mid + " case "; fld("two cases for one value", h + l2 + ": { u8 " + b + "; } }", h + l3 + ": { u8 " + b + "; } }"); break; }
        case 27: { both(en); str d = nm("zzd"), h = E_ + " " + d + "; switch (" + d + ") { case "; static const char* q[] = {".Gamma", ".alpha", ".Alphas", ".Alph", ".A", ".Bet", ".", "", ".Alpha.Beta", ".1", "..Alpha"}; u64 z = draw(14); str l = z == 13 ? nm("ZzU") + ".Alpha" : z == 12 ? E_ + "x.Alpha" : z == 11 ? E_.substr(0, E_.size() - 1) + ".Alpha" : E_ + q[z]; fld("unknown case value", h + l + ": u8 " + b + "; }", h + E_ + "." + mem_[draw(3)] + ": u8 " + b + "; }"); break; }
        case 28: { str d = nm("zzd"); static const char* q[] = {"u8 zzk;", "case 1 u8 zzk;", "default u8 zzk;", "case 1.5: u8 zzk;", "case \"a\": u8 zzk;", "case 1: 2: u8 zzk;", "{ u8 zzk; }", "case 1: ;", "else: u8 zzk;"}; fld("malformed switch", "u8 " + d + "; switch (" + d + ") { " + q[draw(9)] + " }", "u8 " + d + "; switch (" + d + ") { case 1: u8 zzk; default: { } }"); break; }
        case 29: { static const char* q[] = {"% 1;", "u8 %", "u8 % u8 zzk;", "u8;", "u8 % %;", "% ;", "u8 %,", "u8, %;", "u8 % : ;", "u8 %[;", "u8 %[3;", "u8 %];", "u8 %[3]];", "u8 % = 3;", "u8 %[3][3];", "u8 %[zzn];", "u8 % : zzn;", "u8 % prefix u8 prefix u8;", "string % prefix;", "string % until;", "string % max;", "string % max zz;", "(u8 %);", "u8 3%;", "u8 \"%\";", "@optional;", "@big_endian;", "[u8] %;", ": u8 %;", "u8 % ; ;x"}; str x = q[draw(30)]; for (size_t i; (i = x.find('%')) != str::npos;) x.replace(i, 1, a); fld("malformed field", x, "u8 " + a + ";"); break; }
        case 30: { static const char* q[] = {"1 +", "", "(1", "1 2", "+ 1", "1 + * 2", "nofunc(1)", "1 ==", "== 1", "sin()", "1)", "1,2", "(", ")", "1 + (2 * 3", "&& 1", "1 ||", "!", "-", "~", "1 ? 2 : 3", "a b", "1 = 1", "@x", "if", "u8 x;", "1;"}; str x = q[draw(27)]; if (draw(2)) fld("malformed expression", "@expr(" + x + ") u32 " + a + ";", "@expr(1 + 2) u32 " + a + ";"); else fld("malformed condition", "if (" + x + ") { u8 " + a + "; }", "if (1 == 2) { u8 " + a + "; }"); break; }
        case 31: { str u; switch (draw(6)) { case 0: u = "u8 " + a + "[2];"; break; case 1: u = "string " + a + " prefix u8;"; break; case 2: both(en); u = E_ + " " + a + ";"; break; case 3: both(st); u = S_ + " " + a + ";"; break; case 4: u = str("@const(5) ") + T + " " + a + ";"; break; default: u = str(T) + " " + a + " : 3;"; } fld("computed field that is no plain number", "@expr(1 + 2) " + u, u); break; }
        case 32: { static const char* c[] = {"#", "$", "`", "?", "'", "\\", "\x7f", "\xC3\xA9", "\x01"}; str x = c[draw(9)]; u64 q = draw(3); str g = str(T) + " " + a + ";"; fld("a character of no token", q == 0 ? x + " " + g : q == 1 ? g + " " + x : str(T) + " " + x + a + ";", g); break; }
        case 33: { static const char* o[] = {"f32", "f64", "bool", "string", "float", "double", "ZzNo", "packet"}; top("type under an enumeration", "enum " + E_ + " : " + o[draw(8)] + " { A }", "enum " + E_ + " : " + ET + " { A }"); break; }
        case 34: { bool u = draw(2); str A = u ? under(n) : over(n), B = u ? lo(n) : hi(n); top("enumeration value outside its type", str("enum ") + E_ + " : " + EN + " { A = 1, B = " + A + " }", str("enum ") + E_ + " : " + EN + " { A = 1, B = " + B + " }"); if (!u && draw(2)) { str H = hi(n); f.topb = str("enum ") + E_ + " : " + EN + " { A = " + H + ", B }"; f.topg = str("enum ") + E_ + " : " + EN + " { A = " + H + " }"; } break; }
        case 35: { u64 v = draw(200); v = draw(90); top("enumeration with one value twice", strf("enum %s { A = %llu, B = 999%s, C = %s }", E_.c_str(), (unsigned long long)v, more.c_str(), strf(draw(2) ? "0x%llx" : "%llu", (unsigned long long)v).c_str()), strf("enum %s { A = %llu, B = 999, C = 998 }", E_.c_str(), (unsigned long long)v)); if (draw(2)) { f.topb = strf("enum %s { A = %llu, B = %llu, C }", E_.c_str(), (unsigned long long)v + 1, (unsigned long long)v); f.topg = strf("enum %s { A = %llu, B = %llu, C }", E_.c_str(), (unsigned long long)v + 2, (unsigned long long)v); } break; }
        case 36: top("enumeration with one name twice", "enum " + E_ + " { A, B = 7" + more + ", A = 9 }", "enum " + E_ + " { A, B = 7" + more + ", Aa = 9 }"); break;
        case 37: { static const char* h[] = {"enum", "struct"}; u64 p = draw(2), q = draw(2); auto d = [&](u64 k, str x) { return str(h[k]) + " " + x + (k ? " { u8 x; }" : " { A }"); }; top("two definitions of one name", d(p, S_) + " " + d(q, S_), d(p, S_) + " " + d(q, S_ + "b")); break; }
        case 38: { str r = nm("ZzR"); u64 k = draw(3); if (k == 0) top("structure inside itself", "struct " + S_ + " { u8 a; " + S_ + (draw(2) ? " b; }" : " b[2]; }"), "struct " + S_ + " { u8 a; }"); else if (k == 1) top("structure used before its definition", "struct " + S_ + " { " + r + " a; } struct " + r + " { u8 b; }", "struct " + r + " { u8 b; } struct " + S_ + " { " + r + " a; }"); else top("structure inside itself", "struct " + S_ + " { u8 c; if (c) { " + S_ + " b; } }", "struct " + S_ + " { u8 c; if (c) { u8 b; } }"); break; }
        case 39: top("two packets", "packet " + S_ + " { u8 x; }", "struct " + S_ + " { u8 x; }"); f.line = false; break;
        case 40: { static const char* s[] = {"}", "{", "zzq", "zzq zzr;", "u8 zz;", "3", "struct { u8 x; }", "struct Zzx u8 x; }", "enum Zzx A, B }", "enum { A }", "enum Zzx { = 3 }", "enum Zzx { A = }", "enum Zzx { A = x }", "enum Zzx : { A }", "enum Zzx { 1 }", "struct Zzx : u8 { u8 x; }", "@import(zz)", "@import", "@import(3)", "@import()", "@version", "@version()", "@version(x)", "= 3;", "if (1) { u8 x; }", "switch (1) { }", "default: u8 x;", "(", "@", "@;"}; top("stray text", s[draw(30)], "struct " + S_ + " { u8 x; }"); f.line = false; break; }
        case 41: { static const char* v[] = {"256", "257", "512", "-1", "1.5", "4294967297", "65536", "65537", "99999999999999999999"}; top("version", str("@version(") + v[draw(9)] + ");", "@version(255);"); break; }
        case 42: { top("import of nothing", "@import(\"" + nm("zzno") + ".cnd\")", draw(2) ? str("@import(\"zzyes.cnd\")") : "enum " + E_ + " { A }"); break; }
        case 43: f.kind = "name of the schema defined again"; break;
        case 44: f.kind = "field of the schema defined again"; break;
        default: { if (draw(2)) { str w; u64 n = 1 + draw(4), sum = 0; for (u64 i = 0; i < n; i++) { auto& z = ty(); u64 k = 1 + draw(draw(2) ? (u64)z.bits : 8); if (k > (u64)z.bits) k = (u64)z.bits; sum += k; w += strf("%s a%llu : %llu; ", z.n, (unsigned long long)i, (unsigned long long)k); }
                if (sum % 8 == 0) { w += "bool q; "; sum++; } top("unaligned structure with open bits", "@unaligned_bytes struct " + S_ + " { " + w + "}", "@unaligned_bytes struct " + S_ + " { " + w + (draw(2) ? str("@fill; }") : strf("u8 z : %llu; }", (unsigned long long)(8 - sum % 8)))); break; }
            static const char* o[] = {"f32 a;", "u8 a : 3;", "bool a;", "u8 a : 3; u16 b : 6;", "f64 a[2];"}; u64 q = draw(5); top(q == 0 || q == 4 ? "unaligned structure with a float" : "unaligned structure with open bits", "@unaligned_bytes struct " + S_ + " { " + o[q] + " }", "@unaligned_bytes struct " + S_ + " { u8 a : 3; u8 b : 5; }"); break; }
    }
    return f;
}
static str strip(const str& s) { str o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27) { while (i < s.size() && s[i] != 'm') i++; continue; } o += s[i]; } return o; }
struct Piece { str text; size_t line0 = 0, line1 = 0; };
// text with the piece on a line of its own before token at; the lines it lies on, and the line of what follows
static Piece put(const vec<str>& tk, size_t at, const str& piece, u64 style) {
    vec<str> l(tk.begin(), tk.begin() + (long)at), r(tk.begin() + (long)at, tk.end()); Piece p; p.text = print_tokens(l, style); if (!p.text.empty() && p.text.back() != '\n') p.text += '\n';
    p.line0 = 1 + (size_t)std::count(p.text.begin(), p.text.end(), '\n'); p.text += piece + "\n"; str z = print_tokens(r, style ? style + 1 : 0); p.line1 = p.line0 + 1; for (size_t i = 0; i < z.size();) { size_t e = z.find('\n', i); if (e == str::npos) e = z.size(); size_t k = i; while (k < e && (z[k] == ' ' || z[k] == '\t' || z[k] == '\r')) k++; if (k < e && z.compare(k, 2, "//")) break; p.line1++; i = e + 1; }
    p.text += z; return p;
}
// what the compiler said in the first message: file and line
static bool first_error(const str& out, bool json, str& file, u64& line) {
    if (json) { size_t i = 0; bool got = false; while (i < out.size()) { size_t e = out.find('\n', i); if (e == str::npos) e = out.size(); str l = out.substr(i, e - i); i = e + 1; if (l.empty()) continue; J j; if (!json_parse(l, &j) || j.k != J::OBJ) violate("json", "a line of compile --json is no JSON object: " + l); if (!got && j.get("file") && j.get("line") && j.get("message") && j.get("token")) { file = j.get("file")->s; line = (u64)j.get("line")->d; got = true; } } return got; }
    str s = strip(out); size_t e = s.find(": error: "); if (e == str::npos) return false; size_t c2 = s.rfind(':', e - 1), c1 = c2 == str::npos ? c2 : s.rfind(':', c2 - 1); if (c1 == str::npos) return false; size_t b = s.rfind('\n', e); b = b == str::npos ? 0 : b + 1; if (c1 < b) return false; file = s.substr(b, c1 - b); line = strtoull(s.c_str() + c1 + 1, nullptr, 10); return true;
}
static void run() {
    Cfg c = swarm(); Schema s = gen_schema(c); if (s.style % 3 == 0) s.style = 0; vec<str> tk; for (auto& x : schema_tokens(s)) if (x != "\x01") tk.push_back(x);
    // where a field may begin
    vec<size_t> spots; { vec<int> st; bool un = false; for (size_t i = 0; i < tk.size(); i++) {
        const str& x = tk[i];
        if (x == "unaligned_bytes") un = true;
        if (x == "{") { int k = 1; size_t j = i; while (j && tk[j - 1] != "\n" && tk[j - 1] != ";" && tk[j - 1] != "}" && tk[j - 1] != "{") j--; if (tk[j] == "enum" || tk[j] == "switch") k = 0; if (tk[j] == "struct" && un) { k = 0; } if (tk[j] == "struct") un = false; if (!st.empty() && st.back() == 0 && k == 1 && tk[j] != "case" && tk[j] != "default" && tk[j] != "struct" && tk[j] != "packet") k = 0; st.push_back(k); if (k) spots.push_back(i + 1); }
        else if (x == "}") { if (!st.empty()) st.pop_back(); }
        else if (x == ";" && !st.empty() && st.back()) spots.push_back(i + 1); } }
    vec<size_t> tops{0}; { int d = 0; for (size_t i = 0; i < tk.size(); i++) { if (tk[i] == "{") d++; else if (tk[i] == "}" && --d == 0) tops.push_back(i + 1); else if (tk[i] == ";" && d == 0) tops.push_back(i + 1); } }
    D.put("/w/zzyes.cnd", "enum ZzYes { A }\n"); u64 refused = 0;
    u64 n = 2 + draw(5);
    for (u64 q = 0; q < n; q++) {
        if (draw(8) == 7) { // a source cut off before its packet is complete
            str t = print_tokens(tk, s.style), u = t; size_t e = t.rfind(s.alias ? ';' : '}'); if (e == str::npos) continue; u.resize((size_t)draw(e + 1)); D.put("/w/s.cnd", u); D.f.erase("/w/s.il"); Proc p; Run r = cli(p, {"compile", "s.cnd", "s.il"}); fault_hit("source cut off");
            if (r.how != RETURNED && r.how != EXITED) violate("end", "compiler ended abnormally on\n" + u);
            if (r.code == 0) violate("cut", "a source cut off before the end of its packet compiles\n" + u); if (D.has("/w/s.il")) violate("image", "an image of a refused source\n" + u);
            refused++; count("cut sources"); continue;
        }
        size_t force = 0; Flaw f = flaw(); ev("flaw: %s: %s %s", f.kind.c_str(), f.topb.c_str(), f.fb.c_str()); if (!f.fb.empty() && spots.empty()) continue;
        if (f.kind == "name of the schema defined again") { vec<str> names{s.pname}; for (auto& x : s.enums) names.push_back(x.name); for (auto& x : s.structs) names.push_back(x.name); str x = pick(names), h = draw(2) ? "struct " : "enum ", b = h == "enum " ? " { ZzM }" : " { u8 a; }"; f.topb = h + x + b; f.topg = h + x + "_zz" + b; f.line = false; }
        if (f.kind == "field of the schema defined again") { // a field of the same structure or packet, at any depth before the spot
            if (spots.empty()) continue; force = pick(spots); size_t d = force; int lv = 0; vec<str> names; while (d && !(tk[d - 1] == "}" && lv == 0 && false)) { d--; if (tk[d] == "packet" || tk[d] == "struct") break; auto idt = [&](const str& z) { return isalpha((u8)z[0]) || z[0] == '_'; }; static const std::set<str> after{";", "[", ":", "prefix", "until", "max"}; if (d && idt(tk[d]) && idt(tk[d - 1]) && after.count(tk[d + 1]) && d + 1 < force && tk[d - 1] != "case" && !after.count(tk[d - 1])) names.push_back(tk[d]); }
            if (names.empty()) continue; str x = pick(names), o = anyt(); f.fb = o + " " + x + ";"; f.fg = o + " " + x + "_zz;"; }
        bool isf = f.fb != f.fg; size_t at = force ? force : isf ? spots.empty() ? 0 : pick(spots) : pick(tops); u64 style = draw(3) ? s.style : 0; bool imp = draw(4) == 3 && !force, deep = draw(3) == 2, json = draw(3) == 0; bool had = draw(2);
        str flawed = isf ? f.fb : f.topb, good = isf ? f.fg : f.topg, head = isf && !f.topb.empty() ? f.topb + "\n" : "";
        auto build = [&](const str& piece, str& file, Piece& p) {
            D.put("/w/s.cnd", ""); 
            if (imp) { // in a file of its own, imported
                str w = isf ? head + "struct ZzIn {\n" + piece + "\n}\n" : piece + "\n"; D.put("/w/inc/zz.cnd", w); if (D.has("/w/zzyes.cnd")) D.put("/w/inc/zzyes.cnd", "enum ZzYes { A }\n"); file = "/w/inc/zz.cnd"; p.line0 = isf ? head.empty() ? 2 : 3 : 1; p.line1 = p.line0 + 1; str way = "inc/zz.cnd"; if (deep) { way = "inc/zy.cnd"; D.put("/w/inc/zy.cnd", "enum ZzDeep { A }\n@import(\"zz.cnd\")\nenum ZzDeeper { B }\n"); } p.text = "@import(\"" + way + "\")\n" + print_tokens(tk, style); D.put("/w/s.cnd", p.text); p.text = w + "--- imported by\n" + p.text; }
            else { file = "/w/s.cnd"; p = put(tk, at, piece, style); if (!head.empty()) { p.text = head + p.text; p.line0++; p.line1++; } D.put("/w/s.cnd", p.text); }
        };
        str file; Piece p; str img, msg;
        build(good, file, p); D.f.erase("/w/s.il"); { Proc a; Run r = cli(a, {"compile", "s.cnd", "s.il"}); if (r.how != RETURNED && r.how != EXITED) violate("end", "compiler ended abnormally on\n" + p.text); if (r.code) violate("control", "the compiler refuses a sound piece (" + f.kind + "): " + good + "\n" + a.out.substr(0, 400) + "\n" + p.text); }
        build(flawed, file, p); str old = "an older image"; if (had) D.put("/w/s.il", old); else D.f.erase("/w/s.il");
        Proc a; a.poison = (u8)draw(256); vec<str> args{"compile", "s.cnd", "s.il"}; if (json) args.push_back("--json"); Run r = cli(a, args); fault_hit(f.kind); refused++;
        str ctx = f.kind + ": " + flawed + "\n" + p.text;
        if (r.how != RETURNED && r.how != EXITED) violate("end", "compiler ended abnormally: " + ctx);
        if (r.code == 0) violate("accepted", "the compiler accepts " + ctx);
        if (had ? D.get("/w/s.il") != old : D.has("/w/s.il")) violate("image", "a refused source leaves an image: " + ctx);
        str ef; u64 el = 0; if (!first_error(a.out, json, ef, el)) violate("message", "no message says what is wrong: " + a.out.substr(0, 300) + "\n" + ctx);
        if (f.line && (ef != file || el < p.line0 || el > p.line1)) violate("place", strf("the message names %s line %llu instead of %s line %zu: ", ef.c_str(), (unsigned long long)el, file.c_str(), p.line0) + strip(a.out).substr(0, 300) + "\n" + ctx);
        g_path = g_path * 31 + std::hash<str>()(f.kind) + (imp ? 7 : 0) + at; if (g_sample.empty()) g_sample = f.kind + ": " + flawed; count(imp ? "flaws in imported files" : "flaws"); 
    }
    g_nontrivial = refused > 0; g_distinct = g_path ^ std::hash<str>()(print_schema(s));
}
static Reg r("C22", run, "at least one flawed or cut source had to be refused; distinct = schema text x flaws x places");
