#include "schema.hpp"
#include <climits>
int op_size(int op) {
    switch (op) {
        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: return 1;
        case OP_IO_U16: case OP_IO_I16: return 2;
        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
    }
    return 0;
}
bool op_signed(int op) { return op >= OP_IO_I8 && op <= OP_IO_I64; }
bool op_float(int op) { return op == OP_IO_F32 || op == OP_IO_F64; }
const char* op_tname(int op, u64 alt) {
    switch (op) {
        case OP_IO_U8: { const char* n[] = {"uint8", "u8", "byte"}; return n[alt % 3]; }
        case OP_IO_U16: return alt & 1 ? "u16" : "uint16";
        case OP_IO_U32: return alt & 1 ? "u32" : "uint32";
        case OP_IO_U64: return alt & 1 ? "u64" : "uint64";
        case OP_IO_I8: return alt & 1 ? "i8" : "int8";
        case OP_IO_I16: return alt & 1 ? "i16" : "int16";
        case OP_IO_I32: return alt & 1 ? "i32" : "int32";
        case OP_IO_I64: return alt & 1 ? "i64" : "int64";
        case OP_IO_F32: return alt & 1 ? "f32" : "float";
        case OP_IO_F64: return alt & 1 ? "f64" : "double";
        case OP_IO_BOOL: return "bool";
    }
    return "?";
}
Cfg swarm(bool big) {
    Cfg c; u64 m = draw(4) == 0 ? ~0ull : draw64(); int b = 0;
    auto on = [&](bool& x) { x = (m >> b++) & 1; };
    on(c.bits); on(c.unaligned); on(c.arrays); on(c.eof); on(c.strings); on(c.enums); on(c.structs); on(c.floats); on(c.trans); on(c.poly); on(c.range);
    on(c.consts); on(c.crc); on(c.exprs); on(c.ifs); on(c.sw); on(c.optional); on(c.be); on(c.pad); on(c.dyn); on(c.fexpr);
    c.big = big; c.maxf = (int)drawr(1, 9); c.depth = (int)drawr(0, 3);
    return c;
}
// ------------------------------------------------------------------ generator
struct Sym { str n; bool f; int op; };
struct Gen {
    const Cfg& c; Schema s; int uid = 0; int order = 0; // one bit order per schema: mixing orders inside a byte has no layout
    explicit Gen(const Cfg& c) : c(c) {}
    struct Scope { vec<Sym> syms; std::set<str> used; bool in_arr = false; bool unaligned = false; bool cond = false; bool top = false; bool bits_open = false; };

    str fresh(Scope& sc) {
        static const char* base[] = {"a", "b", "len", "id", "value", "x", "temp", "flags", "kind_", "n", "data", "pos", "crc", "s_", "max_v", "prefix_a", "if_a", "u16s", "structs", "defaults", "untilx", "elsewhere", "trues", "cases", "A", "Value", "LEN", "X"};
        str n = stem + base[draw(28)];
        if (draw(12) == 11) { // one letter off a word of the language
            static const char* kw[] = {"if", "enum", "case", "else", "true", "self", "false", "struct", "packet", "switch", "default", "u8", "i32", "f64", "bool", "byte", "string", "prefix", "until", "max", "int", "float", "sin", "import", "uint8", "double"};
            n = kw[draw(26)]; size_t at = draw(n.size()); char o = n[at]; static const char* to = "xqjzwX_"; n[at] = to[draw(7)]; if (n[at] == o) n += "x";
        }
        while (sc.used.count(n)) n = strf("%s%s%d", stem.c_str(), base[draw(28)], ++uid);
        sc.used.insert(n); return n;
    }
    bool huge = false; str stem; bool vlong = false; // names with a long common beginning
    str very_long(Scope& sc) { str n = str(245 + draw(14), 'y') + strf("_%d", ++uid); if (draw(3) == 2) n += str(draw(300), 'z'); sc.used.insert(n); return n; }
    int int_op() { static const int o[] = {OP_IO_U8, OP_IO_U16, OP_IO_U32, OP_IO_U64, OP_IO_I8, OP_IO_I16, OP_IO_I32, OP_IO_I64}; return o[draw(8)]; }
    int prim_op() { u64 k = draw(c.floats ? 12 : 9); if (k == 8) return OP_IO_BOOL; if (k >= 9) return k == 9 ? OP_IO_F32 : OP_IO_F64; static const int o[] = {OP_IO_U8, OP_IO_U16, OP_IO_U32, OP_IO_U64, OP_IO_I8, OP_IO_I16, OP_IO_I32, OP_IO_I64}; return o[k]; }

    // ---- expressions
    E mk(Expr::K k) { E e = std::make_shared<Expr>(); e->k = k; return e; }
    E lit_int() {
        E e = mk(Expr::INT); u64 k = draw(6);
        e->i = k < 3 ? (i64)draw(8) : k == 3 ? (i64)draw(256) : k == 4 ? -(i64)draw(100) : (i64)(draw64() >> (1 + draw(40)));
        e->hexlit = e->i >= 0 && draw(4) == 3; return e;
    }
    E lit_flt() { E e = mk(Expr::FLT); e->isf = true; e->f = (double)drawr(-64, 200) / 4.0; return e; }
    static int need(const E& e) {
        if (e->a.empty()) return 1;
        if (e->a.size() == 1) return need(e->a[0]);
        return std::max(need(e->a[0]), 1 + need(e->a[1]));
    }
    E ref(const vec<Sym>& sy, bool f) { vec<const Sym*> v; for (auto& x : sy) if (x.f == f) v.push_back(&x); if (v.empty()) return nullptr; E e = mk(Expr::REF); e->s = v[v.size() - 1 - draw(v.size())]->n; e->isf = f; return e; }
    E iexpr(const vec<Sym>& sy, int d) {
        u64 k = draw(d <= 0 ? 3 : 9);
        if (k == 0) return lit_int();
        if (k <= 2) { E r = ref(sy, false); return r ? r : lit_int(); }
        if (k == 3) { if (draw(6) == 5) { E b = mk(Expr::BOOLL); b->i = (i64)draw(2); return b; }
            E e = mk(Expr::UN); static const char* o[] = {"-", "~", "!"}; e->s = o[draw(3)]; e->a = {iexpr(sy, d - 1)}; return e; }
        if (k == 4 && c.fexpr) { // int(float), float comparisons
            if (draw(2)) { E e = mk(Expr::CALL); e->s = "int"; e->a = {number(sy, d - 1)}; return e; }
            E e = mk(Expr::BIN); static const char* o[] = {"<", ">", "<=", ">=", "==", "!="}; e->s = o[draw(6)]; e->a = {fexpr(sy, d - 1), number(sy, d - 1)}; if (draw(2)) std::swap(e->a[0], e->a[1]); return e;
        }
        E e = mk(Expr::BIN);
        static const char* o[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"};
        e->s = o[draw(18)]; e->paren = draw(3) == 2;
        E l = iexpr(sy, d - 1), r;
        if (e->s == "<<" || e->s == ">>") r = shift(sy);
        else r = iexpr(sy, d - 1);
        e->a = {l, r}; return e;
    }
    E shift(const vec<Sym>& sy) { // a shift by what is mostly within the word
        auto in = [&](i64 v) { E r = mk(Expr::INT); r->i = v; return r; }; u64 k = draw(6); if (k < 4) return in((i64)draw(draw(8) == 7 ? 70 : 64));
        E e = mk(Expr::BIN); e->paren = draw(3) == 2; if (k == 4) { static const char* o[] = {"+", "-", "*", "|"}; e->s = o[draw(4)]; e->a = {in(8 + (i64)draw(8)), in((i64)draw(8))}; }
        else { E x = ref(sy, false); if (!x) x = in((i64)draw(100)); e->s = draw(2) ? "%" : "&"; e->a = {x, in(1 + (i64)draw(40))}; } return e;
    }
    E number(const vec<Sym>& sy, int d) { return draw(4) == 3 ? iexpr(sy, d) : fexpr(sy, d); }
    E fexpr(const vec<Sym>& sy, int d) {
        u64 k = draw(d <= 0 ? 2 : 8);
        if (k == 0) return lit_flt();
        if (k == 1) {
            E r = ref(sy, true); if (r && draw(4)) return r;
            E i = ref(sy, false); if (i) { E e = mk(Expr::CALL); e->s = "float"; e->isf = true; e->a = {r && draw(4) == 3 ? r : i}; return e; }
            return lit_flt();
        }
        if (k == 2) { E e = mk(Expr::UN); e->s = "-"; e->isf = true; e->a = {fexpr(sy, d - 1)}; return e; }
        if (k <= 4) {
            static const char* fn[] = {"sqrt", "abs", "sin", "cos", "tan", "log", "pow", "abs", "sqrt"};
            E e = mk(Expr::CALL); e->s = fn[draw(9)]; e->isf = true;
            if (e->s == "pow") e->a = {number(sy, d - 1), draw(2) ? lit_small() : number(sy, d - 1)};
            else e->a = {draw(5) == 4 ? lit_int_small() : number(sy, d - 1)};
            return e;
        }
        E e = mk(Expr::BIN); static const char* o[] = {"+", "-", "*", "/"}; e->s = o[draw(4)]; e->isf = true; e->paren = draw(3) == 2;
        bool left = draw(2); E t = fexpr(sy, d - 1);
        E other = draw(5) == 4 ? lit_int_small() : number(sy, d - 1);
        e->a = left ? vec<E>{t, other} : vec<E>{other, t}; return e;
    }
    E lit_small() { E e = mk(Expr::INT); e->i = (i64)draw(4); return e; }
    E lit_int_small() { E e = mk(Expr::INT); e->i = drawr(-3, 20); return e; }
    E bounded(const vec<Sym>& sy, bool f) {
        for (int d = 3;; d--) { E e = f ? fexpr(sy, d) : iexpr(sy, d); if (need(e) <= 6 || d <= 0) return e; }
    }

    void arr(Field& f, Scope& sc) {
        if (!c.arrays || draw(3) != 2) return;
        u64 k = draw(5);
        if (k == 4) { // dynamic
            vec<str> refs; for (auto& x : sc.syms) if (!x.f && x.n.find('.') == str::npos && (x.op == OP_IO_U8 || x.op == OP_IO_U16 || x.op == OP_IO_U32)) for (auto& n : countable) if (n == x.n) refs.push_back(n);
            if (!c.dyn || refs.empty()) k = 0; else { f.arr = A_DYN; f.ref = pick(refs); marks.insert(f.ref); return; }
        }
        if (k == 0) { f.arr = A_FIXED; f.count = (u32)(draw(8) == 7 ? 0 : drawr(1, 5)); if (c.arrlong && draw(8) == 7) f.count = (u32)drawr(6, 300); if (c.huge && sc.top && !huge && f.k == K_PRIM && op_size(f.type) <= 2 && draw(60) == 59) { static const u32 b[] = {256, 32768, 65536, 65536}; huge = true; f.count = b[draw(4)] - 2 + (u32)draw(5); } f.count_dec = draw(4) == 3; }
        else f.arr = k == 1 ? A_PRE8 : k == 2 ? A_PRE16 : A_PRE32;
    }
    vec<str> countable; std::set<str> marks; // unconditional plain fields of the current block
    void range_for(Field& f) {
        if (!c.range || draw(4) != 3) return;
        f.range = true;
        if (op_float(f.type)) { f.flo = (double)drawr(-400, 100) / 4; f.fhi = f.flo + (double)draw(2000) / 4; return; }
        i64 lo, hi; int bits = op_size(f.type) * 8;
        if (op_signed(f.type)) { lo = bits == 64 ? INT64_MIN : -(1ll << (bits - 1)); hi = bits == 64 ? INT64_MAX : (1ll << (bits - 1)) - 1; }
        else { lo = 0; hi = bits >= 63 ? INT64_MAX : (i64)((1ull << bits) - 1); }
        u64 k = draw(5);
        if (k == 0) { f.rlo = std::max<i64>(lo, 0); f.rhi = std::min<i64>(hi, (i64)drawr(1, 120)); }
        else if (k == 1) { f.rlo = lo; f.rhi = lo + (i64)draw(200); if (f.rhi > hi) f.rhi = hi; }
        else if (k == 2) { f.rhi = hi; f.rlo = hi - (i64)draw(200); if (f.rlo < lo) f.rlo = lo; }
        else if (k == 3) { f.rlo = op_signed(f.type) ? -(i64)draw(100) : (i64)draw(100); f.rhi = f.rlo + (i64)draw(20); if (f.rhi > hi) f.rhi = hi; }
        else { f.rlo = f.rhi = (i64)draw(100); }
    }
    void trans_for(Field& f) {
        if (!c.trans || f.type == OP_IO_BOOL || draw(4) != 3) return;
        bool fl = op_float(f.type);
        u64 k = draw(8);
        if (k <= 1) {
            f.tr = TR_SCALE; static const double fs[] = {0.5, 2, 0.25, 4, 0.1, 0.01, -0.5, 10, 3, 1.5}; f.tf = fs[draw(f.type == OP_IO_F64 ? 4 : 10)]; f.to = draw(2) ? (double)drawr(-200, 200) / (fl ? 4 : 2) : 0;
            if (k == 1 && draw(3) == 2) { f.tf = 1; f.to_only = true; if (f.to == 0) f.to = -40; }
        } else if (k <= 5) {
            f.tr = k == 2 ? TR_ADD : k == 3 ? TR_SUB : k == 4 ? TR_MUL : TR_DIV;
            f.ti = fl ? drawr(1, 9) : draw(6) == 5 ? -drawr(1, 50) : drawr(1, f.tr == TR_ADD || f.tr == TR_SUB ? 1000 : 12);
            if (f.tr == TR_DIV && !fl && op_signed(f.type) && draw(4) == 3) f.ti = -1;
            if ((f.tr == TR_ADD || f.tr == TR_SUB) && !fl && draw(3) == 2) f.ti = -f.ti;
        } else if (c.poly) {
            bool curve = !fl && draw(2); if (curve) f.type = draw(2) ? OP_IO_U8 : OP_IO_U16; else if (op_size(f.type) == 8 && !fl) f.type = draw(2) ? OP_IO_I16 : OP_IO_U32;
            if (k == 6 && !curve) { f.tr = TR_POLY; static const double b[] = {0.5, 1, 2, 4, -1, -2}; f.coef = {(double)drawr(-100, 100) / 2, b[draw(6)]}; if (draw(6) == 5) f.coef.push_back(0); }
            else if (k == 6) { // increasing, at least 1 per raw step
                f.tr = TR_POLY; f.coef = {(double)drawr(-100, 100) / 2, (double)drawr(2, 8) / 2};
                if (draw(2)) { f.coef.push_back((double)draw(4) * 0.125); if (f.type == OP_IO_U8 && draw(2)) f.coef.push_back((double)draw(3) * 0.001); }
            } else {
                f.tr = TR_SPLINE; int bits = op_size(f.type) * 8; double lo = fl ? -1024 : op_signed(f.type) ? -std::ldexp(1, bits - 1) : 0, x = 0, y = (double)drawr(-50, 50); u64 n = 2 + draw(draw(4) == 3 ? 15 : 4); double span = fl ? 2048 : std::ldexp(1, bits) - 1; bool down = draw(4) == 3;
                for (u64 i = 0; i < n; i++) { f.coef.push_back(lo + x); f.coef.push_back(y); double dx = i + 2 == n ? span - x : std::floor((span - x) / (double)(n - i) * (draw(2) ? 0.5 : 1)); if (dx < 1) dx = 1; x += dx; y += (down ? -1 : 1) * dx * (double)drawr(1, 4); }
            }
        }
    }
    bool has_struct(bool unaligned_ok) { for (auto& x : s.structs) if (unaligned_ok || !x.unaligned) return true; return false; }
    void block_syms(const Block& b, const str& pre, vec<Sym>& out) {
        for (auto& f : b) {
            if (f.optional || f.arr != A_NONE) continue;
            if (f.k == K_PRIM && f.tr == TR_NONE) out.push_back({pre + f.name, op_float(f.type), f.type});
            if (f.k == K_ENUM) out.push_back({pre + f.name, false, s.enums[(size_t)f.tindex].type});
            if (f.k == K_BITS) out.push_back({pre + f.name, false, 0});
            if (f.k == K_EXPR) out.push_back({pre + f.name, op_float(f.type), f.type});
            if (f.k == K_STRUCT) block_syms(s.structs[(size_t)f.tindex].f, pre + f.name + ".", out);
        }
        out.erase(std::remove_if(out.begin(), out.end(), [](const Sym& x) { return x.n.size() > 250; }), out.end()); // no path in an expression is longer
    }

    void field(Block& out, Scope& sc, int depth, bool first) {
        Field f;
        // kind
        vec<int> k = {K_PRIM, K_PRIM, K_PRIM};
        if (sc.unaligned) { bits_field(out, sc); return; }
        if (c.strings) { k.push_back(K_STR); k.push_back(K_STR); }
        if (c.enums && !s.enums.empty()) k.push_back(K_ENUM);
        if (c.structs && !s.structs.empty() && depth > 0) { k.push_back(K_STRUCT); k.push_back(K_STRUCT); }
        if (c.bits) { k.push_back(K_BITS); k.push_back(K_BITS); }
        if (c.consts) k.push_back(K_CONST);
        if (!first) {
            if (c.crc && sc.top && !sc.cond) k.push_back(K_CRC);
            if (c.exprs) { k.push_back(K_EXPR); }
            if (c.pad && c.bits && order == (int)s.be) k.push_back(K_PAD);
            if (c.ifs && depth > 0 && !sc.syms.empty()) { k.push_back(K_IF); }
            if (c.sw && depth > 0 && !sc.syms.empty()) { k.push_back(K_SWITCH); }
        }
        f.k = (FK)k[draw(k.size())];
        if (f.k == K_IF) { gen_if(out, sc, depth); return; }
        if (f.k == K_SWITCH) { if (!gen_switch(out, sc, depth)) { f.k = K_PRIM; } else return; }
        if (f.k == K_PAD) {
            if (draw(2)) { f.k = K_FILL; f.fillarg = draw(2); f.fillv = f.fillarg && draw(2); sc.bits_open = false; } else { f.padbits = draw(8) == 7 ? 255 - (int)(draw(2) ? draw(7) : draw(60)) : (int)drawr(1, 19); sc.bits_open = true; }
            out.push_back(f); return;
        }
        f.name = fresh(sc);
        if (c.be && draw(5) == 4) f.endian = f.k == K_STRUCT && c.bits ? (int)s.be : (int)draw(2); // one bit order per schema
        bool sym = true;
        switch (f.k) {
            case K_PRIM: f.type = prim_op(); arr(f, sc); trans_for(f); if (f.tr == TR_NONE && f.type != OP_IO_BOOL) range_for(f); sym = f.arr == A_NONE && f.tr == TR_NONE; break;
            case K_STR: {
                u64 q = draw(4); f.spre = q == 0 ? 0 : q == 1 ? 1 : q == 2 ? 2 : 4; sym = false;
                if (!f.spre) { f.until = draw(3) == 2; if (draw(2)) { f.smax_given = true; f.smax = (int)(draw(3) == 2 ? drawr(0, 400) : drawr(1, 20)); } }
                Field t = f; arr(t, sc);
                // a string array needs prefix (of the string) or until; 'prefix' after [] is the array's
                if (t.arr != A_NONE) {
                    if (t.arr == A_FIXED || t.arr == A_DYN) { if (!t.spre && !t.until) t.until = true; }
                    else t.arr = A_NONE; 
                }
                f = t; break;
            }
            case K_ENUM: f.tindex = (int)draw(s.enums.size()); f.tname = s.enums[(size_t)f.tindex].name; f.type = s.enums[(size_t)f.tindex].type; arr(f, sc); sym = f.arr == A_NONE;
                if (c.range && op_size(f.type) < 8 && draw(5) == 4) { auto& ev = s.enums[(size_t)f.tindex].v; f.range = true; f.rlo = pick(ev).second; f.rhi = pick(ev).second; if (f.rlo > f.rhi) std::swap(f.rlo, f.rhi); } // some members only
                break;
            case K_STRUCT: f.tindex = (int)draw(s.structs.size()); f.tname = s.structs[(size_t)f.tindex].name; arr(f, sc); sym = false; break;
            case K_BITS: { u64 q = draw(5); f.type = q == 4 ? (int)OP_IO_BOOL : int_op(); f.bits = f.type == OP_IO_BOOL ? 1 : (int)drawr(1, draw(3) == 2 ? op_size(f.type) * 8 : std::min(13, op_size(f.type) * 8));
                f.endian = order == (int)s.be && draw(2) == 0 ? -1 : order; if (c.arrays && draw(6) == 5) { f.arr = A_FIXED; f.count = (u32)drawr(1, 4); } sym = f.arr == A_NONE; break; }
            case K_CONST: { f.type = int_op(); f.match = draw(3) == 2; int b = op_size(f.type) * 8; u64 v = draw64(); if (op_signed(f.type)) { i64 x = (i64)v; if (b < 64) x = x << (64 - b) >> (64 - b); f.cval = (u64)x; } else f.cval = b == 64 ? v >> 1 : v & ((1ull << b) - 1); sym = false; break; }
            case K_CRC: {
                bool w = draw(2); f.type = w ? OP_IO_U32 : OP_IO_U16; sym = false;
                if (w) { f.cpoly = 0x04C11DB7; f.cinit = 0xFFFFFFFF; f.cxor = 0xFFFFFFFF; f.refin = f.refout = true; } else { f.cpoly = 0x1021; f.cinit = 0xFFFF; f.cxor = 0; }
                f.cgiven = (u8)(draw(2) ? draw(32) : 0); u32 m = w ? 0xFFFFFFFF : 0xFFFF;
                auto edge = [&]() -> u32 { u64 q = draw(8); return q == 5 ? 0 : q == 6 ? m : q == 7 ? (m >> 1) + 1 : (u32)draw64() & m; };
                if (f.cgiven & 1) f.cpoly = edge();
                if (f.cgiven & 2) f.cinit = edge();
                if (f.cgiven & 4) f.cxor = (u32)draw64() & m;
                if (f.cgiven & 8) f.refin = true;
                if (f.cgiven & 16) f.refout = true;
                break;
            }
            case K_EXPR: {
                f.type = prim_op();
                bool fl = op_float(f.type); if (fl && !c.fexpr) { f.type = OP_IO_U32; fl = false; }
                f.ex = bounded(sc.syms, fl != (c.fexpr && draw(5) == 4)); if (f.type != OP_IO_BOOL && draw(4) == 3 && !fl) range_for(f); break;
            }
            default: break;
        }
        if (f.k == K_PRIM && f.arr == A_NONE && f.tr == TR_NONE && !f.range && (f.type == OP_IO_U8 || f.type == OP_IO_U16 || f.type == OP_IO_U32) && !sc.cond) countable.push_back(f.name);
        if (vlong && !sym && draw(3) == 2) f.name = very_long(sc);
        out.push_back(f);
        if (!sc.cond || true) {
            if (sym) sc.syms.push_back({f.name, (f.k == K_PRIM || f.k == K_EXPR) && op_float(f.type), f.k == K_BITS ? 0 : f.type});
            if (f.k == K_STRUCT && f.arr == A_NONE) block_syms(s.structs[(size_t)f.tindex].f, f.name + ".", sc.syms);
        }
    }
    void bits_field(Block& out, Scope& sc) {
        Field f; u64 q = draw(10);
        if (q == 8) { f.k = K_PAD; f.padbits = (int)drawr(1, 9); out.push_back(f); return; }
        if (q == 9) { f.k = K_FILL; f.fillarg = draw(2); f.fillv = f.fillarg && draw(2); out.push_back(f); return; }
        f.k = K_BITS; f.name = fresh(sc); f.endian = -1;
        f.type = q == 7 ? (int)OP_IO_BOOL : int_op(); int full = f.type == OP_IO_BOOL ? 1 : op_size(f.type) * 8;
        f.explicit_bits = draw(3) != 2; f.bits = f.explicit_bits ? (int)drawr(1, std::min(full, 17)) : full;
        out.push_back(f); sc.syms.push_back({f.name, false, 0});
    }
    void sub_block(Block& b, Scope& sc, int depth) {
        Scope in; in.used = sc.used; in.syms = sc.syms; in.in_arr = sc.in_arr; in.cond = true; in.top = sc.top;
        u64 n = 1 + draw(3); auto keep = countable;
        for (u64 i = 0; i < n; i++) field(b, in, depth - 1, true);
        countable = keep; sc.used = in.used;
    }
    void gen_if(Block& out, Scope& sc, int depth) {
        Field f; f.k = K_IF; u64 n = 1 + (draw(3) == 2 ? draw(3) : 0);
        for (u64 i = 0; i < n; i++) {
            E e;
            if (draw(2)) { e = mk(Expr::BIN); static const char* o[] = {">", "==", "<", "!=", "&", ">=", "<="}; e->s = o[draw(7)]; E r = ref(sc.syms, false); e->a = {r ? r : lit_int(), lit_int()}; }
            else e = bounded(sc.syms, false);
            f.ifs.push_back({e, Block()}); sub_block(f.ifs.back().second, sc, depth);
        }
        if (draw(2)) { f.has_else = true; sub_block(f.els, sc, depth); }
        out.push_back(f);
    }
    // a branch whose code is longer than 64 KB: checks of an enum with very many members
    void far(Scope& sc) {
        Enum e; e.name = "Far"; e.type = draw(4) ? OP_IO_U64 : OP_IO_I64; e.typed = true; u64 n = 1500 + draw(1500); i64 step = drawr(1, 5); for (u64 j = 0; j < n; j++) { e.v.push_back({strf("M%d", (int)j), (i64)j * step}); e.explicit_.push_back(true); }
        s.enums.push_back(e); Field d; d.name = fresh(sc); d.type = OP_IO_U8; d.hot = {0, 1, 2};
        auto body = [&](Block& b, u64 q) { while (q--) { Field f; f.k = K_ENUM; f.name = fresh(sc); f.tindex = (int)s.enums.size() - 1; f.tname = e.name; f.type = e.type; b.push_back(f); } };
        Field g;
        if (draw(2)) { g.k = K_IF; E x = mk(Expr::BIN); x->s = "=="; E r = mk(Expr::REF); r->s = d.name; E l = mk(Expr::INT); l->i = (i64)draw(3); x->a = {r, l}; g.ifs.push_back({x, Block()}); body(g.ifs[0].second, 3 + draw(4)); if (draw(2)) { g.has_else = true; body(g.els, 1 + draw(5)); } }
        else { g.k = K_SWITCH; g.disc = d.name; d.is_disc = true; for (u64 i = 0, q = 1 + draw(5), m = draw(2) ? 1 : 1000; i < q; i++) { Case cs; cs.val = (i64)(i * m); cs.braces = true; body(cs.body, draw(5) + (i == 0 ? 3 : 1)); g.cases.push_back(cs); } if (draw(2)) { g.has_def = true; body(g.def, 1 + draw(3)); } }
        s.pkt.push_back(d); sc.syms.push_back({d.name, false, d.type}); s.pkt.push_back(g);
    }
    static Field* find(Block& b, const str& n) { for (auto& f : b) if (f.name == n) return &f; return nullptr; }
    bool gen_switch(Block& out, Scope& sc, int depth) {
        vec<const Sym*> v; for (auto& x : sc.syms) if (!x.f && x.n.find('.') == str::npos) v.push_back(&x);
        if (v.empty()) return false;
        const Sym* d = v[v.size() - 1 - draw(v.size())];
        Field f; f.k = K_SWITCH; f.disc = d->n;
        Field* df = find(out, d->n); Enum* en = df && df->k == K_ENUM ? &s.enums[(size_t)df->tindex] : nullptr;
        bool huge = !sc.cond && draw(24) == 23; // more cases than fit any byte-sized counter
        u64 n = huge ? 200 + draw(250) : 1 + draw(7); u64 mode = draw(5); i64 base = mode == 1 ? drawr(-3, 100) : mode == 2 ? (i64)draw64() : 0; std::set<i64> seen; int word = 8 << draw(3);
        for (u64 i = 0; i < n; i++) {
            Case cs; bool lab = en && draw(2);
            if (en && (lab || draw(2))) { auto& p = en->v[draw(en->v.size())]; cs.val = p.second; if (lab) cs.label = en->name + "." + p.first; }
            else cs.val = mode <= 1 ? base + (i64)i * (mode == 1 ? (i64)(1 + draw(3)) : 1) : mode == 2 ? base ^ (i64)(draw64() >> draw(63)) : mode == 4 ? (i64)draw(40) + (i64)(draw(3) << word) + (draw(8) == 7 ? (i64)(draw(2) << 48) : 0) : (i64)draw(300);
            if (!seen.insert(cs.val).second) continue;
            cs.braces = draw(4) != 3;
            if (huge && i > 3) { Field b; b.name = fresh(sc); b.type = prim_op(); cs.body.push_back(b); f.cases.push_back(cs); continue; }
            sub_block(cs.body, sc, depth); if (!cs.braces) cs.body.resize(1);
            f.cases.push_back(cs);
        }
        if (draw(2)) { f.has_def = true; sub_block(f.def, sc, depth); }
        if (df) { df->is_disc = true; for (auto& x : seen) df->hot.push_back(x); }
        out.push_back(f); return true;
    }
    static bool occupies(const Block& b) { for (auto& f : b) if (f.k != K_IF && f.k != K_SWITCH && !f.optional && !(f.arr != A_NONE) && !(f.k == K_FILL)) return true; return false; }
    static int bitsum(const Block& b) { int n = 0; for (auto& f : b) { if (f.k == K_PAD) n += f.padbits; else if (f.k == K_FILL) n = 0; else n += f.bits; } return n; }
    static void mark(Block& b, const std::set<str>& m) { for (auto& f : b) if (m.count(f.name)) f.is_count = true; }

    Schema go() {
        if (c.be) { u64 k = draw(4); s.be_stmt = k >= 2; s.be = k == 3; s.longdec = draw(2); }
        order = !c.bits ? 1 : draw(3) ? (int)s.be : c.unaligned ? 1 : (int)draw(2);
        if (c.versions && draw(3) == 2) s.version = (int)draw(256);
        if (c.big) { if (draw(12) == 11) stem = str(57 + draw(11), 'q') + "_"; vlong = draw(20) == 19; }
        static const char* fam[] = {"Position", "TelemetryBlock_", "u32_of_a_rather_long_type_name_that_goes_on_and_on_to_the_seventieth_col"};
        vec<str> tn = {"T", "Ty", "Typ", "Type", "Types", "u8x", "u8xy", "strings", "S", "S0", "packets"}; bool alike = draw(3) == 2; if (draw(2)) { str b = fam[draw(c.big ? 3 : 2)]; tn = {b, b + "X", b + "XY", b + "x", b + "Short", b + "2", b + "_", b + "XYZ", b.substr(0, b.size() - 1), "P" + b}; } // type names that begin like others
        auto tname = [&](const char* p, u64 i) { if (!alike) return strf("%s%d", p, (int)i); if (tn.empty()) return strf("%s%dz", p, (int)i); size_t k = draw(tn.size()); str r = tn[k]; tn.erase(tn.begin() + (long)k); return r; };
        if (c.enums) { u64 n = draw(3); if (c.big && draw(16) == 15) n = 7 + draw(8); for (u64 i = 0; i < n; i++) {
            Enum e; e.name = tname("E", i); static const int o[] = {OP_IO_U32, OP_IO_U8, OP_IO_U16, OP_IO_I8, OP_IO_I16, OP_IO_I32, OP_IO_U64, OP_IO_I64};
            e.type = o[draw(8)]; e.typed = e.type != OP_IO_U32 || draw(2); i64 next = 0; u64 cnt = 1 + draw(6); std::set<i64> seen;
            u64 naming = draw(3); if (c.big && draw(20) == 19 && op_size(e.type) > 1) { cnt = 250 + draw(300); naming = 0; } static const char* pre[] = {"V10", "V1", "V", "V100", "AB", "A", "ABC", "v", "v1", "ab"}; u64 pof = draw(10); // names that begin like others
            for (u64 j = 0; j < cnt; j++) {
                bool ex = draw(2); i64 v = next;
                if (ex) v = op_signed(e.type) ? drawr(-100, 100) : (i64)draw(op_size(e.type) == 1 ? 250 : 5000);
                int b = op_size(e.type) * 8; i64 hi = op_signed(e.type) ? (b == 64 ? INT64_MAX : (1ll << (b - 1)) - 1) : b >= 63 ? INT64_MAX : (1ll << b) - 1;
                if (v > hi || !seen.insert(v).second) continue;
                e.v.push_back({naming == 2 ? str(pre[(j + pof) % 10]) : strf("V%d", (int)j), v}); e.explicit_.push_back(ex || v != next); next = v + 1;
            }
            s.enums.push_back(e);
        } }
        if (c.structs) { u64 n = draw(4); if (c.big && draw(16) == 15) n = 7 + draw(8); for (u64 i = 0; i < n; i++) {
            Struct st; st.name = tname("S", i); st.unaligned = c.unaligned && order == 1 && draw(3) == 2;
            Scope sc; sc.unaligned = st.unaligned; countable.clear(); marks.clear();
            u64 m = 1 + draw(4);
            for (u64 j = 0; j < m; j++) field(st.f, sc, i < 4 ? std::min(c.depth, 2) - 1 : 0, j == 0);
            if (!occupies(st.f)) { Field f; f.name = fresh(sc); if (st.unaligned) { f.k = K_BITS; f.bits = 8; f.explicit_bits = false; } st.f.insert(st.f.begin(), f); }
            if (st.unaligned && c.decide && draw(3) == 2) { // a part of whole bytes that may be missing, wherever the bits stand
                auto part = [&](Block& b) { for (u64 q = 1 + draw(2); q--;) { Field f; f.k = K_BITS; f.name = fresh(sc); f.type = draw(2) ? OP_IO_U16 : OP_IO_I32; f.bits = f.type == OP_IO_U16 ? 8 : 16; if (draw(4) == 3) { f.type = OP_IO_U8; f.bits = (int)drawr(1, 7); Field g = f; g.name = fresh(sc); g.bits = 8 - f.bits; b.push_back(g); } b.push_back(f); } };
                E r = ref(sc.syms, false); if (r) { Field g; g.k = K_IF; E e = mk(Expr::BIN); static const char* o[] = {">", "==", "!=", "&", "<="}; e->s = o[draw(5)]; E l = mk(Expr::INT); l->i = (i64)draw(6); e->a = {r, l}; g.ifs.push_back({e, Block()}); part(g.ifs[0].second); if (draw(2)) { g.has_else = true; part(g.els); }
                    if (draw(3) == 2) { Field f; f.k = K_BITS; f.name = fresh(sc); f.type = OP_IO_U8; f.bits = (int)drawr(1, 8); st.f.push_back(g); st.f.push_back(f); } else st.f.push_back(g); } }
            if (st.unaligned) { int r = bitsum(st.f) % 8; if (r) { Field f; f.k = draw(2) ? K_FILL : K_PAD; f.padbits = 8 - r; st.f.push_back(f); } }
            mark(st.f, marks);
            s.structs.push_back(st);
        } }
        if (c.structs && c.big && draw(30) == 29) { // structs in structs in structs
            int n = (int)drawr(10, c.chain), arrs = 0; str fn = draw(3) == 2 ? "level" : "n";
            for (int i = 0; i < n; i++) {
                Struct st; st.name = strf("N%d", i); auto add = [&](const char* nm) { Field f; f.name = nm; f.type = prim_op(); st.f.push_back(f); };
                if (!i || draw(3) == 2) add("a");
                if (i) { Field f; f.k = K_STRUCT; f.name = fn; f.tindex = (int)s.structs.size() - 1; f.tname = s.structs.back().name; if (c.arrays && arrs < 5 && draw(6) == 5) { arrs++; f.arr = draw(2) ? A_FIXED : A_PRE8; f.count = 1 + (u32)draw(2); } st.f.push_back(f); }
                if (draw(4) == 3) add("z");
                s.structs.push_back(st);
            }
        }
        s.pname = draw(2) ? "Pkt" : "Telemetry";
        if (c.alias && !s.structs.empty() && draw(8) == 7) { s.alias = true; s.alias_of = (int)draw(s.structs.size()); return fin(); }
        Scope sc; sc.top = true; countable.clear(); marks.clear();
        u64 m = 1 + draw((u64)c.maxf);
        if (c.decide && draw(24) == 23) far(sc);
        for (u64 j = 0; j < m; j++) field(s.pkt, sc, c.depth, j == 0);
        if (!s.structs.empty() && s.structs.back().name[0] == 'N' && s.structs.back().f.size() < 4 && s.structs.size() > 9) { Field f; f.k = K_STRUCT; f.name = fresh(sc); f.tindex = (int)s.structs.size() - 1; f.tname = s.structs.back().name; s.pkt.insert(s.pkt.begin() + (long)draw(s.pkt.size() + 1), f); }
        if (c.big && draw(40) == 39) for (u64 j = 240 + draw(80); j--;) { Field f; f.name = fresh(sc); f.type = prim_op(); s.pkt.push_back(f); } // more names than fit a byte
        if (c.eof && c.arrays && draw(4) == 3) {
            Field f; f.arr = A_EOF; f.name = fresh(sc); u64 k = draw(3);
            if (k == 2 && !s.structs.empty()) { f.k = K_STRUCT; f.tindex = (int)draw(s.structs.size()); f.tname = s.structs[(size_t)f.tindex].name; }
            else { f.type = prim_op(); if (f.type != OP_IO_BOOL) { if (draw(2)) range_for(f); else trans_for(f); } }
            s.pkt.push_back(f);
        } else if (c.optional) {
            u64 n = draw(4);
            for (u64 i = 0; i < n; i++) {
                Field f; f.optional = true; f.name = fresh(sc); u64 k = draw(6);
                if (k == 5 && c.strings) { f.k = K_STR; u64 q = draw(4); f.spre = q == 3 ? 4 : (int)q; if (!f.spre && draw(2)) { f.smax_given = true; f.smax = (int)drawr(1, 20); } }
                else if (k == 4 && !s.enums.empty()) { f.k = K_ENUM; f.tindex = (int)draw(s.enums.size()); f.tname = s.enums[(size_t)f.tindex].name; f.type = s.enums[(size_t)f.tindex].type; }
                else if (k == 3 && c.bits) { f.k = K_BITS; f.endian = order == (int)s.be && draw(2) == 0 ? -1 : order; f.type = draw(5) == 4 ? (int)OP_IO_BOOL : int_op(); f.bits = f.type == OP_IO_BOOL ? 1 : (int)drawr(1, std::min(draw(3) == 2 ? 64 : 9, op_size(f.type) * 8)); }
                else { f.type = prim_op(); trans_for(f); if (f.tr == TR_NONE && f.type != OP_IO_BOOL) range_for(f); }
                s.pkt.push_back(f);
            }
        }
        mark(s.pkt, marks);
        return fin();
    }
    Schema fin() { for (auto& f : s.pkt) if (f.arr == A_EOF) s.has_eof = true; s.style = draw64(); if (s.be_stmt && draw(2)) { s.be_at = (int)draw(s.enums.size() + s.structs.size() + 1); for (u64 k = draw(3); k; k--) s.be_before.push_back({(int)draw((u64)s.be_at + 1), (bool)draw(2)}); } return s; }
};
Schema gen_schema(const Cfg& c) { Gen g(c); return g.go(); }

// ------------------------------------------------------------------ printer
static int prec(const E& e) {
    if (e->k != Expr::BIN) return e->k == Expr::UN ? 11 : 12;
    static const std::map<str, int> m = {{"||", 1}, {"&&", 2}, {"|", 3}, {"^", 4}, {"&", 5}, {"==", 6}, {"!=", 6}, {"<", 7}, {">", 7}, {"<=", 7}, {">=", 7}, {"<<", 8}, {">>", 8}, {"+", 9}, {"-", 9}, {"*", 10}, {"/", 10}, {"%", 10}};
    return m.at(e->s);
}
static str flt_(double d) { str s = strf("%.6f", d); while (s.size() > 3 && s.back() == '0' && s[s.size() - 2] != '.') s.pop_back(); return s; }
static str flt(double d) { str x = flt_(d); return ((u64)(d * 4096) ^ x.size()) % 29 == 7 ? x + str(70 - x.size(), '0') : x; } // a literal of any length
static void pe(const E& e, vec<str>& o, int min) {
    bool par = prec(e) < min || (e->k == Expr::BIN && e->paren);
    if (par) o.push_back("(");
    switch (e->k) {
        case Expr::INT: o.push_back(e->hexlit ? strf("0x%llX", (unsigned long long)e->i) : strf("%lld", (long long)e->i)); break;
        case Expr::FLT: o.push_back(flt(e->f)); break;
        case Expr::BOOLL: o.push_back(e->i ? "true" : "false"); break;
        case Expr::REF: o.push_back(e->s); break;
        case Expr::UN: o.push_back(e->s); pe(e->a[0], o, 11); break;
        case Expr::CALL: o.push_back(e->s); o.push_back("("); for (size_t i = 0; i < e->a.size(); i++) { if (i) o.push_back(","); pe(e->a[i], o, 0); } o.push_back(")"); break;
        case Expr::BIN: { int p = prec(e); pe(e->a[0], o, p); o.push_back(e->s); pe(e->a[1], o, p + 1); break; }
    }
    if (par) o.push_back(")");
}
str print_expr(const E& e) { vec<str> t; pe(e, t, 0); str s; for (auto& x : t) { if (!s.empty()) s += ' '; s += x; } return s; }
struct Pr {
    const Schema& s; vec<str> o; Fill f;
    explicit Pr(const Schema& s) : s(s), f(s.style) { f(); f(); }
    void t(const str& x) { o.push_back(x); }
    void nl() { o.push_back("\n"); }
    void dec(const str& n) { t("@"); t(n); }
    void num(i64 v) { if (f() % 4 == 3) t(v < 0 ? strf("-0x%llx", 0ull - (unsigned long long)v) : strf("0x%llx", (long long)v)); else t(strf("%lld", (long long)v)); }
    void block(const Block& b) { t("{"); nl(); for (auto& x : b) field(x); t("}"); }
    void field(const Field& x) {
        t("\x01");
        if (x.k == K_IF) {
            for (size_t i = 0; i < x.ifs.size(); i++) { if (i) { t("else"); } t("if"); t("("); pe(x.ifs[i].first, o, 0); t(")"); block(x.ifs[i].second); }
            if (x.has_else) { t("else"); block(x.els); }
            nl(); return;
        }
        if (x.k == K_SWITCH) {
            t("switch"); t("("); t(x.disc); t(")"); t("{"); nl();
            size_t defat = x.has_def ? (f() % (x.cases.size() + 1)) : 99999;
            for (size_t i = 0; i <= x.cases.size(); i++) {
                if (i == defat) { t("default"); t(":"); block(x.def); nl(); }
                if (i == x.cases.size()) break;
                auto& c = x.cases[i]; t("case");
                if (!c.label.empty()) { size_t d = c.label.find('.'); t(c.label.substr(0, d)); t("."); t(c.label.substr(d + 1)); } else num(c.val);
                t(":"); if (c.braces) block(c.body); else field(c.body[0]); nl();
            }
            t("}"); nl(); return;
        }
        if (x.k == K_PAD) { dec("pad"); t("("); num(x.padbits); t(")"); t(";"); nl(); return; }
        if (x.k == K_FILL) { dec("fill"); if (x.fillarg) { t("("); t(x.fillv ? "1" : "0"); t(")"); } t(";"); nl(); return; }
        if (x.optional) dec("optional");
        if (x.endian >= 0) dec(x.endian ? (f() & 1 ? "be" : "big_endian") : (f() & 1 ? "le" : "little_endian"));
        if (x.k == K_CONST) { dec(x.match ? "match" : "const"); t("("); num((i64)x.cval); t(")"); }
        if (x.k == K_CRC) {
            dec("crc"); t("("); t(x.type == OP_IO_U32 ? "32" : "16"); t(")");
            if (x.cgiven & 1) { dec("crc_poly"); t("("); num(x.cpoly); t(")"); }
            if (x.cgiven & 2) { dec("crc_init"); t("("); num(x.cinit); t(")"); }
            if (x.cgiven & 4) { dec("crc_xor"); t("("); num(x.cxor); t(")"); }
            if (x.cgiven & 8) dec("crc_refin");
            if (x.cgiven & 16) dec("crc_refout");
        }
        if (x.k == K_EXPR) { dec("expr"); t("("); pe(x.ex, o, 0); t(")"); }
        if (x.range) { dec("range"); t("("); if (op_float(x.type)) { t(flt(x.flo)); t(","); t(flt(x.fhi)); } else { num(x.rlo); t(","); num(x.rhi); } t(")"); }
        switch (x.tr) {
            case TR_SCALE: if (!x.to_only) { dec("scale"); t("("); t(flt(x.tf)); t(")"); } if (x.to_only || x.to != 0) { dec("offset"); t("("); t(flt(x.to)); t(")"); } break;
            case TR_ADD: dec("add"); t("("); num(x.ti); t(")"); break;
            case TR_SUB: dec("sub"); t("("); num(x.ti); t(")"); break;
            case TR_MUL: dec("mul"); t("("); num(x.ti); t(")"); break;
            case TR_DIV: dec("div"); t("("); num(x.ti); t(")"); break;
            case TR_POLY: case TR_SPLINE: dec(x.tr == TR_POLY ? "poly" : "spline"); t("("); for (size_t i = 0; i < x.coef.size(); i++) { if (i) t(","); t(flt(x.coef[i])); } t(")"); break;
            default: break;
        }
        if (x.arr == A_DYN) { dec(f() & 1 ? "count" : "len"); t("("); t(x.ref); t(")"); }
        if (x.arr == A_FIXED && x.count_dec) { dec("count"); t("("); num(x.count); t(")"); }
        if (x.arr == A_EOF) dec("eof");
        if (x.k == K_STRUCT || x.k == K_ENUM) t(x.tname); else if (x.k == K_STR) t("string"); else t(op_tname(x.type, f()));
        t(x.name);
        if (x.k == K_BITS && x.explicit_bits) { t(":"); num(x.bits); }
        if (x.arr == A_FIXED && !x.count_dec) { t("["); num(x.count); t("]"); }
        else if (x.arr != A_NONE) { t("["); t("]"); }
        static const char* u8n[] = {"uint8", "u8"}; static const char* u16n[] = {"uint16", "u16"}; static const char* u32n[] = {"uint32", "u32"};
        int pre = x.arr == A_PRE8 ? 1 : x.arr == A_PRE16 ? 2 : x.arr == A_PRE32 ? 4 : x.k == K_STR ? x.spre : 0;
        if (pre) { t("prefix"); t(pre == 1 ? u8n[f() & 1] : pre == 2 ? u16n[f() & 1] : u32n[f() & 1]); }
        if (x.k == K_STR && !x.spre) { if (x.until) { t("until"); t("0"); } if (x.smax_given) { t("max"); num(x.smax); } }
        t(";"); nl();
    }
    bool bare = false; // a decorator without ';' must be followed by its declaration
    void stmt_end() { if (f() & 1) { t(";"); bare = false; } else bare = true; nl(); }
    void doc() { if (!bare) t("\x01"); bare = false; }
    void go() {
        if (s.version >= 0) { dec("version"); t("("); num(s.version); t(")"); stmt_end(); }
        auto order = [&](bool be) { dec(be ? (s.longdec ? "big_endian" : "be") : (s.longdec ? "little_endian" : "le")); stmt_end(); }; int at = 0;
        auto orders = [&] { for (auto& b : s.be_before) if (b.first == at) order(b.second); if (s.be_stmt && s.be_at == at) order(s.be); at++; };
        for (auto& e : s.enums) {
            orders(); doc(); t("enum"); t(e.name); if (e.typed) { t(":"); t(e.type == OP_IO_U8 && f() % 2 ? "u8" : op_tname(e.type, e.type == OP_IO_U8 ? f() & 1 : f())); } t("{"); nl();
            for (size_t i = 0; i < e.v.size(); i++) { t("\x01"); t(e.v[i].first); if (e.explicit_[i]) { t("="); num(e.v[i].second); } if (i + 1 < e.v.size() || f() & 1) t(","); nl(); }
            t("}"); nl();
        }
        for (auto& x : s.structs) { orders(); doc(); if (x.unaligned) { dec("unaligned_bytes"); nl(); } t("struct"); t(x.name); block(x.f); nl(); }
        orders(); doc(); t("packet"); t(s.pname);
        if (s.alias) { t("="); t(s.structs[(size_t)s.alias_of].name); t(";"); } else block(s.pkt);
        nl();
    }
};
vec<str> schema_tokens(const Schema& s) { Pr p(s); p.go(); return p.o; }
str print_schema(const Schema& s, u64 style) {
    vec<str> tk = schema_tokens(s); str o; int ind = 0; bool bol = true; Fill r(style * 2654435761u + 17); r();
    for (auto& x : tk) {
        if (x == "\x01") { if (style && r() % 12 == 0) { if (!bol) o += "\n"; o += "/// doc " + strf("%d", r()) + "\n"; bol = true; } continue; }
        if (x == "\n") { if (!bol) o += "\n"; bol = true; continue; }
        if (x == "}") ind--;
        if (bol) for (int i = 0; i < ind; i++) o += "    ";
        else if (x != ";" && x != "," && x != "(" && x != ")" && x != "[" && x != "]" && x != "." && o.back() != '(' && o.back() != '@' && o.back() != '[' && o.back() != '.') o += " ";
        else if (x == "(" && !(isalnum((u8)o.back()) || o.back() == '_') && o.back() != '(') o += " ";
        o += x; bol = false;
        if (x == "{") ind++;
    }
    return o;
}
str schema_brief(const Schema& s) { str p = print_schema(s); for (auto& c : p) if (c == '\n') c = ' '; str q; for (char c : p) if (!(c == ' ' && !q.empty() && q.back() == ' ')) q += c; return q; }
int decisions(const Block& b) { int n = 0; for (auto& f : b) n += f.k == K_IF || f.k == K_SWITCH || f.k == K_EXPR; return n; }
