#include "walk.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <climits>
int ptr_size(u8 op);
static u64 dbits(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static double bitsd(u64 x) { double d; memcpy(&d, &x, 8); return d; }
static u64 fbits(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static float bitsf(u64 x) { u32 y = (u32)x; float f; memcpy(&f, &y, 4); return f; }
static i64 sext(u64 v, int bits) { return bits >= 64 ? (i64)v : (i64)(v << (64 - bits)) >> (64 - bits); }
static u64 mask(int bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }
str errname(int e) { static const char* n[] = {"ok", "out of bounds", "invalid op", "validation", "callback", "stack overflow", "stack underflow", "crc mismatch", "arithmetic"}; return e >= 0 && e <= 8 ? n[e] : strf("error %d", e); }

struct Fail { cnd_error_t e; };
struct Ctx { bool be; str pre; };
struct W {
    Walk& w; const Schema& s; Src* src; bool enc, unlim; size_t cur = 0, item = 0; int bit = 0; int depth = 0;
    W(Walk& w, const Schema& s, Src* src, bool unlim) : w(w), s(s), src(src), enc(w.enc), unlim(unlim) {}
    [[noreturn]] void fail(cnd_error_t e, size_t need = 0) { w.lo = item; w.hi = std::max(cur + (bit > 0), item + need); throw Fail{e}; }
    void align() { if (bit) { cur++; bit = 0; } }
    bool room(size_t n) { if (unlim && w.buf.size() < cur + n) w.buf.resize(cur + n); return cur + n <= w.len; }
    bool bits_room(int n) { size_t need = ((size_t)bit + (size_t)n + 7) / 8; if (unlim && w.buf.size() < cur + need) w.buf.resize(cur + need); return cur + need <= w.len; }
    // ---- bytes
    u64 load(size_t n, bool be) { u64 v = 0; for (size_t i = 0; i < n; i++) v |= (u64)w.buf[cur + i] << (8 * (be ? n - 1 - i : i)); return v; }
    void store(u64 v, size_t n, bool be) { for (size_t i = 0; i < n; i++) w.buf[cur + i] = (u8)(v >> (8 * (be ? n - 1 - i : i))); }
    u64 getbits(int n, bool be) { u64 v = 0; for (int i = 0; i < n; i++) { int b = (w.buf[cur] >> (be ? 7 - bit : bit)) & 1; if (be) v = v << 1 | (u64)b; else v |= (u64)b << i; if (++bit == 8) { bit = 0; cur++; } } return v; }
    void putbits(u64 v, int n, bool be) { for (int i = 0; i < n; i++) { u64 b = (v >> (be ? n - 1 - i : i)) & 1; u8 m = (u8)(1 << (be ? 7 - bit : bit)); if (b) w.buf[cur] |= m; else w.buf[cur] &= (u8)~m; if (++bit == 8) { bit = 0; cur++; } } }
    // ---- events
    Event& add(u8 op, const str& key) { w.ev.push_back(Event()); Event& e = w.ev.back(); e.op = op; e.key = key; e.depth = depth; return e; }
    void setenv_(Event& e, u64 v) { e.env = true; e.envbits = v; w.env[e.key] = v; }
    // ---- host values
    HostVal take(const std::function<HostVal()>& gen) {
        if (src->replay) { HostVal v; if (src->at < src->v.size()) v = src->v[src->at]; else v = gen(); src->at++; return v; }
        HostVal v = gen(); src->v.push_back(v); src->at++; return v;
    }
    bool bad() { return src->illegal && draw(12) == 11; }
    u64 gen_int(const Field& f, int type, int bits) {
        if (type == OP_IO_BOOL) return bad() ? 2 + draw(254) : draw(2);
        bool sg = op_signed(type); i64 lo, hi;
        if (bits > 64) bits = 64;
        if (sg) { lo = bits == 64 ? INT64_MIN : -(1ll << (bits - 1)); hi = bits == 64 ? INT64_MAX : (1ll << (bits - 1)) - 1; } else { lo = 0; hi = bits >= 63 ? INT64_MAX : (1ll << bits) - 1; }
        if (f.is_count) return draw((u64)std::min<i64>(hi, src->maxcount) + 1);
        if (f.k == K_ENUM) { auto& ev = s.enums[(size_t)f.tindex].v; if (!bad()) { size_t n = ev.size(), i = draw(n); if (f.range) for (size_t k = 0; k < n && (ev[i].second < f.rlo || ev[i].second > f.rhi); k++) i = (i + 1) % n; return (u64)ev[i].second & mask(bits); } if (draw(2)) return (u64)ev[draw(ev.size())].second & mask(bits); }
        if (!f.hot.empty() && draw(4) != 3) { i64 v = pick(f.hot); if (v >= lo && (v <= hi)) return (u64)v & mask(bits); }
        if (f.range) {
            if (!bad()) { u64 k = draw(4); i64 v = k == 0 ? f.rlo : k == 1 ? f.rhi : (i64)((u64)f.rlo + draw((u64)f.rhi - (u64)f.rlo + 1)); return (u64)v & mask(bits); }
            i64 v = draw(2) ? f.rlo - 1 : f.rhi + 1; if (v >= lo && v <= hi && !(f.rhi == INT64_MAX)) return (u64)v & mask(bits);
        }
        u64 k = draw(8); u64 v;
        if (k == 0) v = 0; else if (k == 1) v = 1; else if (k == 2) v = (u64)hi; else if (k == 3) v = (u64)lo; else if (k == 4) v = draw(20); else if (k == 5 && !sg) v = mask(bits); else v = draw64();
        if (src->json && bits > 53) { i64 x = sg ? (i64)v >> 11 : (i64)(v >> 11); v = (u64)x; }
        return v & mask(bits);
    }
    double gen_flt(const Field& f) {
        if (f.range) { if (!bad()) { double t = (double)draw(9) / 8; return f.flo + (f.fhi - f.flo) * t; } return draw(2) ? f.flo - 0.25 : f.fhi + 0.25; }
        u64 k = draw(8); if (k < 3) return (double)drawr(-1000, 1000) / 8; if (k == 3) return 0; if (k == 4) return (double)drawr(-5, 5); if (k == 5) return std::ldexp((double)draw(1 << 20) - 500000, (int)drawr(-40, 40)); if (k == 6 && !src->json && draw(3) == 2) return draw(2) ? INFINITY : -INFINITY;
        return (double)(i64)draw64() / 65536.0;
    }
    str long_str() { // around the places where a length stops fitting
        static const size_t b[] = {256, 32768, 65536, 65536}; size_t n = b[draw(4)] - 3 + draw(6); Fill f(draw64()); f(); str o(n, ' '); count("very long strings"); for (auto& c : o) { c = src->json ? (char)(32 + f() % 95) : (char)f(); if (!c) c = 'z'; } return o; }
    str gen_str(size_t maxlen) {
        u64 k = draw(8); size_t n = k == 0 ? 0 : k < 5 ? draw(12) : k == 5 ? maxlen : k == 6 ? draw(300) : maxlen + draw(4) - (maxlen ? 1 : 0);
        if (n > 400) n = 400;
        if (src->json && n > maxlen) n = maxlen;
        if (src->v.size() > src->budget) n = n > 8 ? 8 : n;
        Fill f(draw64()); f(); str o; for (size_t i = 0; i < n; i++) { u8 c = f(); if (src->json) { c = (u8)(32 + c % 95); } if (!c) c = 'z'; o += (char)c; } return o;
    }
    u32 gen_count(u32 cap) {
        u32 n = (u32)draw((u64)std::min<u32>(cap, (u32)src->maxcount) + 1);
        if (src->v.size() > src->budget) n = 0;
        if (src->wild && src->v.size() <= src->budget / 3 && draw(10) == 9) n = (u32)std::min<u64>(cap, draw(300));
        return n;
    }
    // ---- transforms
    static double poly(const vec<double>& c, double x) { double y = 0; for (size_t i = c.size(); i--;) y = i + 1 == c.size() ? c[i] : y * x + c[i]; return y; }
    static double spline(const vec<double>& c, double x) {
        size_t n = c.size() / 2; size_t i = 0; for (; i + 2 < n; i++) if (x >= c[2 * i] && x <= c[2 * i + 2]) break;
        double x0 = c[2 * i], y0 = c[2 * i + 1], x1 = c[2 * i + 2], y1 = c[2 * i + 3];
        return x1 == x0 ? y0 : y0 + (x - x0) * (y1 - y0) / (x1 - x0);
    }
    static u64 itrans(const Field& f, u64 raw) { switch (f.tr) { case TR_ADD: return raw + (u64)f.ti; case TR_SUB: return raw - (u64)f.ti; case TR_MUL: return raw * (u64)f.ti; case TR_DIV: return f.ti == -1 ? 0 - raw : (u64)((i64)raw / f.ti); default: return raw; } }
    // ---- fields
    void prim(const Field& f, const str& key, bool be, bool elem8) {
        align(); item = cur; size_t n = (size_t)op_size(f.type); int bits = (int)n * 8; bool fl = op_float(f.type);
        w.fields++;
        u8 hop = (u8)f.type; if (f.tr == TR_SCALE || f.tr == TR_POLY || f.tr == TR_SPLINE) hop = OP_IO_F64; else if (f.tr != TR_NONE) hop = OP_IO_I64;
        bool have = room(n);
        if (!have && !f.optional) fail(CND_ERR_OOB, n);
        if (!have) {
            w.optmissing++;
            Event& e = add(hop, key); e.missing = true; e.k = hop == OP_IO_F64 && f.tr != TR_NONE ? V_DBL : V_INT;
            if (enc) { HostVal v = supply(f, bits); e.i = v.i; e.d = v.d; setenv_(e, envval(f, v)); } else setenv_(e, 0);
            return; // checks do not apply
        }
        if (enc) {
            HostVal v = supply(f, bits);
            Event& e = add(hop, key); e.elem8 = elem8; e.k = f.tr == TR_SCALE || f.tr == TR_POLY || f.tr == TR_SPLINE ? V_DBL : V_INT; e.i = v.i; e.d = v.d;
            setenv_(e, envval(f, v));
            if (v.fail) fail(CND_ERR_ARITHMETIC, n);
            if (f.type == OP_IO_BOOL && v.i > 1) fail(CND_ERR_VALIDATION, n);
            u64 raw = f.tr == TR_NONE ? v.i : (u64)v.raw;
            store(raw, n, be);
        } else {
            u64 raw = load(n, be);
            if (f.type == OP_IO_BOOL && raw > 1) fail(CND_ERR_VALIDATION, n);
            u64 ext = op_signed(f.type) ? (u64)sext(raw, bits) : raw;
            double dv = f.type == OP_IO_F32 ? (double)bitsf(raw) : f.type == OP_IO_F64 ? bitsd(raw) : op_signed(f.type) ? (double)(i64)ext : (double)ext;
            if (f.tr == TR_NONE) { Event& e = add(hop, key); e.elem8 = elem8; e.k = V_INT; e.i = raw; setenv_(e, fl ? dbits(dv) : ext); }
            else if (hop == OP_IO_F64) {
                Event& e = add(hop, key); e.k = V_DBL; e.exact = false;
                e.d = f.tr == TR_SCALE ? dv * f.tf + f.to : f.tr == TR_POLY ? poly(f.coef, dv) : spline(f.coef, dv); setenv_(e, dbits(e.d));
            } else {
                if (fl) { if (!(dv >= -9223372036854775808.0 && dv < 9223372036854775808.0)) fail(CND_ERR_ARITHMETIC, n); ext = (u64)(i64)dv; }
                Event& e = add(hop, key); e.k = V_INT; e.i = itrans(f, ext); setenv_(e, e.i);
            }
        }
        size_t at = cur; cur += n;
        if (f.range) { size_t save = cur; cur = at; u64 raw = load(n, be); cur = save; check_range(f, raw); }
        if (f.k == K_ENUM) { size_t save = cur; cur = at; u64 raw = load(n, be); cur = save; bool ok = false; for (auto& p : s.enums[(size_t)f.tindex].v) if (((u64)p.second & mask(bits)) == raw) ok = true; if (!ok) fail(CND_ERR_VALIDATION); }
    }
    void check_range(const Field& f, u64 raw) {
        int bits = op_size(f.type) * 8;
        if (f.type == OP_IO_F32) { float v = bitsf(raw); if (!(v >= (float)f.flo && v <= (float)f.fhi)) fail(CND_ERR_VALIDATION); }
        else if (f.type == OP_IO_F64) { double v = bitsd(raw); if (!(v >= f.flo && v <= f.fhi)) fail(CND_ERR_VALIDATION); }
        else if (op_signed(f.type)) { i64 v = sext(raw, bits); if (v < f.rlo || v > f.rhi) fail(CND_ERR_VALIDATION); }
        else if (raw < (u64)f.rlo || raw > (u64)f.rhi) fail(CND_ERR_VALIDATION);
    }
    u64 envval(const Field& f, const HostVal& v) {
        int bits = op_size(f.type) * 8;
        if (f.tr != TR_NONE) return f.tr == TR_SCALE || f.tr == TR_POLY || f.tr == TR_SPLINE ? dbits(v.d) : v.i;
        if (f.type == OP_IO_F32) return dbits((double)bitsf(v.i));
        if (f.type == OP_IO_F64) return v.i;
        return op_signed(f.type) ? (u64)sext(v.i, bits) : v.i;
    }
    HostVal supply(const Field& f, int bits) {
        return take([&] {
            HostVal v;
            if (f.tr == TR_NONE) {
                if (f.type == OP_IO_F32) v.i = fbits((float)gen_flt(f)); else if (f.type == OP_IO_F64) v.i = dbits(gen_flt(f));
                else v.i = gen_int(f, f.type, bits);
                return v;
            }
            bool fl = op_float(f.type);
            if (fl) {
                auto rawbits = [&](double r) { v.raw = (i64)(f.type == OP_IO_F32 ? fbits((float)r) : dbits(r)); };
                if (f.tr == TR_SCALE) { double r = (double)drawr(-8000, 8000) / 8; v.d = r * f.tf + f.to; rawbits(r); return v; }
                if (f.tr == TR_POLY || f.tr == TR_SPLINE) { double r = (double)drawr(-8000, 8000) / 8; v.d = f.tr == TR_POLY ? poly(f.coef, r) : spline(f.coef, r); rawbits(r); return v; }
                i64 r = drawr(-1000, 1000); if (f.tr == TR_DIV) { i64 e = r / f.ti; v.i = (u64)e; rawbits((double)(e * f.ti)); } else { v.i = itrans(f, (u64)r); rawbits((double)r); }
                return v;
            }
            Field plain; plain.type = f.type; i64 r = op_signed(f.type) ? sext(gen_int(plain, f.type, bits), bits) : (i64)gen_int(plain, f.type, bits);
            if (bits == 64 && !(!src->json && f.type == OP_IO_I64 && (f.tr == TR_ADD || f.tr == TR_SUB || f.tr == TR_DIV) && draw(2))) r = r >> 20; // doubles and products stay exact
            if (f.type == OP_IO_U64 && r < 0) r = -r;
            if (f.tr == TR_SCALE) {
                if (bad() && bits < 64) { r = op_signed(f.type) ? (1ll << (bits - 1)) + (i64)draw(5) : draw(2) ? (1ll << bits) + (i64)draw(9) : -1 - (i64)draw(3); v.fail = true; v.d = (double)r * f.tf + f.to; v.raw = r; return v; }
                v.d = (double)r * f.tf + f.to; i64 lo = op_signed(f.type) ? -(1ll << (bits - 1)) : 0, hi = op_signed(f.type) ? (i64)mask(bits - 1) : (i64)(mask(bits) >> (bits == 64));
                if (!src->json && bits < 64 && r > lo && r < hi && draw(3) == 2) v.d += (draw(2) ? 0.3 : -0.3) * f.tf; // nearest raw value
                v.raw = r; return v;
            }
            if (f.tr == TR_POLY) { v.d = poly(f.coef, (double)r); v.raw = r; return v; }
            if (f.tr == TR_SPLINE) { v.d = spline(f.coef, (double)r); v.raw = r; return v; }
            if (f.tr == TR_DIV) { i64 e = (i64)itrans(f, (u64)r); v.i = (u64)e; v.raw = (i64)((u64)e * (u64)f.ti); } else { v.i = itrans(f, (u64)r); v.raw = r; }
            return v;
        });
    }
    void bits_(const Field& f, const str& key, bool be) {
        item = cur; w.fields++; bool bo = f.type == OP_IO_BOOL; int n = bo ? 1 : f.bits; bool sg = op_signed(f.type);
        bool have = bits_room(n); if (!have && !f.optional) fail(CND_ERR_OOB, 9);
        u8 op = bo ? OP_IO_BIT_BOOL : sg ? OP_IO_BIT_I : OP_IO_BIT_U;
        if (!have && !enc) { w.optmissing++; Event& e = add(op, key); e.missing = true; e.k = V_INT; setenv_(e, 0); return; }
        if (enc) {
            HostVal v = take([&] { HostVal h; Field p = f; p.range = false; p.k = K_PRIM; u64 x = gen_int(p, f.type, bo ? 8 : n); h.i = sg ? (u64)sext(x, n) : x; return h; });
            if (!have) { w.optmissing++; Event& e = add(op, key); e.missing = true; e.k = V_INT; e.i = v.i; setenv_(e, v.i); return; }
            Event& e = add(op, key); e.k = V_INT; e.i = v.i; setenv_(e, v.i);
            if (bo && v.i > 1) fail(CND_ERR_VALIDATION, 9);
            putbits(v.i, n, be);
        } else {
            u64 v = getbits(n, be); if (sg) v = (u64)sext(v, n);
            Event& e = add(op, key); e.k = V_INT; e.i = v; setenv_(e, v);
        }
    }
    void string_(const Field& f, const str& key, bool be) {
        align(); item = cur; w.fields++;
        u8 op = f.spre == 0 ? OP_STR_NULL : f.spre == 1 ? OP_STR_PRE_U8 : f.spre == 2 ? OP_STR_PRE_U16 : OP_STR_PRE_U32;
        size_t max = f.spre == 0 ? (size_t)f.smax : f.spre == 1 ? 255 : f.spre == 2 ? 65535 : 0xFFFFFFFFu;
        if (enc) {
            HostVal v = take([&] { HostVal h; if (f.optional && src->optfail && draw(3) == 2) { h.fail = true; return h; } if (f.spre > 1 && src->longstr && draw(3)) { src->longstr = false; h.s = long_str(); return h; } h.s = gen_str(f.spre ? (f.spre == 1 ? 255 : 40) : (size_t)f.smax); return h; });
            Event& e = add(op, key); e.k = V_STR; e.s = v.s; e.optstr = f.optional; e.missing = v.fail;
            if (v.fail) { w.optmissing++; return; }
            size_t n = std::min(v.s.size(), max); size_t need = f.spre ? (size_t)f.spre + n : n + 1;
            if (!room(need)) fail(CND_ERR_OOB, need);
            if (f.spre) { store(n, (size_t)f.spre, be); memcpy(w.buf.data() + cur + f.spre, v.s.data(), n); } else { memcpy(w.buf.data() + cur, v.s.data(), n); w.buf[cur + n] = 0; }
            cur += need; return;
        }
        auto missing = [&](cnd_error_t er) { if (!f.optional) fail(er, 0); w.optmissing++; Event& e = add(op, key); e.k = V_STR; e.missing = true; };
        if (!f.spre) {
            size_t rem = w.len - cur, lim = std::min(rem, max + 1); size_t n = 0; while (n < lim && w.buf[cur + n]) n++;
            if (n == lim) { if (rem > max) fail(CND_ERR_VALIDATION, lim); missing(CND_ERR_OOB); return; }
            Event& e = add(op, key); e.k = V_STR; e.at = cur; e.s = str((char*)w.buf.data() + cur, n); cur += n + 1; return;
        }
        if (!room((size_t)f.spre)) { missing(CND_ERR_OOB); return; }
        size_t n = load((size_t)f.spre, be);
        if (!room((size_t)f.spre + n)) { missing(CND_ERR_OOB); return; }
        Event& e = add(op, key); e.k = V_STR; e.at = cur + (size_t)f.spre; e.s = str((char*)w.buf.data() + e.at, n); cur += (size_t)f.spre + n;
    }
    void array(const Field& f, const str& key, const Ctx& c, bool be) {
        align(); item = cur; u64 n = 0; u8 op = 0;
        auto elem = [&] { one(f, key, c, be, true); align(); };
        if (f.arr == A_EOF) {
            depth++;
            u64 k = 0; if (unlim) { HostVal v = take([&] { HostVal h; h.i = draw(5); return h; }); k = v.i; src->eofcount = k; } else if (enc && src->replay) src->at++;
            if (unlim) for (u64 i = 0; i < k; i++) elem(); else while (cur < w.len) elem();
            w.pathh = w.pathh * 31 + k;
            item = cur; depth--; add(OP_ARR_END, ""); return;
        }
        if (f.arr == A_FIXED) { n = f.count; op = OP_ARR_FIXED; Event& e = add(op, key); e.k = V_INT; e.i = n; }
        else if (f.arr == A_DYN) { n = lookup(c.pre + f.ref); if (n > 0xFFFFFFFFull) fail(CND_ERR_ARITHMETIC); op = OP_ARR_DYNAMIC; Event& e = add(op, key); e.k = V_INT; e.i = n; }
        else {
            size_t p = f.arr == A_PRE8 ? 1 : f.arr == A_PRE16 ? 2 : 4; op = f.arr == A_PRE8 ? OP_ARR_PRE_U8 : f.arr == A_PRE16 ? OP_ARR_PRE_U16 : OP_ARR_PRE_U32;
            if (enc) { HostVal v = take([&] { HostVal h; if (p > 1 && src->longstr && !src->json && f.k == K_PRIM && op_size(f.type) <= 2 && draw(3)) { src->longstr = false; static const u32 b[] = {256, 32768, 65535, 65536, 65536}; h.i = b[draw(p == 2 ? 3 : 5)] - 2 + draw(p == 2 ? 3 : 8); count("very long arrays"); return h; } h.i = gen_count(p == 1 ? 255 : 65535); return h; }); n = v.i; Event& e = add(op, key); e.k = V_INT; e.i = n; if (!room(p)) fail(CND_ERR_OOB, p); store(n, p, be); cur += p; }
            else { if (!room(p)) fail(CND_ERR_OOB, p); n = load(p, be); cur += p; Event& e = add(op, key); e.k = V_INT; e.i = n; }
        }
        w.pathh = w.pathh * 31 + n;
        Bulk bulk(n > 1500 && enc && !src->replay); depth++; for (u64 i = 0; i < n; i++) elem();
        item = cur; depth--; add(OP_ARR_END, "");
    }
    void one(const Field& f, const str& key, const Ctx& c, bool be, bool in_arr) {
        w.ops++;
        switch (f.k) {
            case K_PRIM: case K_ENUM: prim(f, key, be, in_arr && f.arr != A_EOF && f.k == K_PRIM && (f.type == OP_IO_U8 || f.type == OP_IO_I8) && f.tr == TR_NONE && !f.range); break;
            case K_BITS: bits_(f, key, be); break;
            case K_STR: string_(f, key, be); break;
            case K_STRUCT: {
                const Struct& st = s.structs[(size_t)f.tindex]; item = cur; add(OP_ENTER_STRUCT, key); depth++;
                Ctx in{st.unaligned ? true : be, key + "."};
                block(st.f, in);
                if (st.unaligned && bit) { item = cur; fail(CND_ERR_VALIDATION); }
                depth--; item = cur; add(OP_EXIT_STRUCT, ""); break;
            }
            default: break;
        }
    }
    u64 lookup(const str& k) { auto i = w.env.find(k); return perturbed(i == w.env.end() ? 0 : i->second, w.ev.size(), k); }
    // ---- expressions
    double fval(const E& e, const Ctx& c) {
        if (!e->isf) return (double)(i64)ival(e, c);
        switch (e->k) {
            case Expr::FLT: return e->f;
            case Expr::INT: return (double)e->i;
            case Expr::BOOLL: return (double)e->i;
            case Expr::REF: return bitsd(lookup(c.pre + e->s));
            case Expr::UN: return -fval(e->a[0], c);
            case Expr::CALL: {
                if (e->s == "float") return fval(e->a[0], c);
                double a = fval(e->a[0], c);
                if (e->s == "sqrt") { if (a < 0) fail(CND_ERR_ARITHMETIC); return std::sqrt(a); }
                if (e->s == "log") { if (a <= 0) fail(CND_ERR_ARITHMETIC); return std::log(a); }
                if (e->s == "sin") return std::sin(a); if (e->s == "cos") return std::cos(a); if (e->s == "tan") return std::tan(a); if (e->s == "abs") return std::fabs(a);
                double b = fval(e->a[1], c); if ((a < 0 && std::floor(b) != b) || (a == 0 && b <= 0)) fail(CND_ERR_ARITHMETIC); return std::pow(a, b);
            }
            case Expr::BIN: { double a = fval(e->a[0], c), b = fval(e->a[1], c); if (e->s == "+") return a + b; if (e->s == "-") return a - b; if (e->s == "*") return a * b; if (b == 0) fail(CND_ERR_ARITHMETIC); return a / b; }
        }
        return 0;
    }
    u64 ival(const E& e, const Ctx& c) {
        switch (e->k) {
            case Expr::INT: case Expr::BOOLL: return (u64)e->i;
            case Expr::FLT: return 0;
            case Expr::REF: return lookup(c.pre + e->s);
            case Expr::UN: { u64 a = ival(e->a[0], c); return e->s == "-" ? 0 - a : e->s == "~" ? ~a : !a; }
            case Expr::CALL: { if (!e->a[0]->isf) return ival(e->a[0], c); double d = fval(e->a[0], c); if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) fail(CND_ERR_ARITHMETIC); return (u64)(i64)d; }
            case Expr::BIN: {
                const str& o = e->s;
                if (e->a[0]->isf || e->a[1]->isf) { double a = fval(e->a[0], c), b = fval(e->a[1], c); return o == "<" ? a < b : o == ">" ? a > b : o == "<=" ? a <= b : o == ">=" ? a >= b : o == "==" ? a == b : a != b; }
                u64 a = ival(e->a[0], c), b = ival(e->a[1], c);
                if (o == "+") return a + b; if (o == "-") return a - b; if (o == "*") return a * b;
                if (o == "/" || o == "%") { if (!b) fail(CND_ERR_ARITHMETIC); return o == "/" ? a / b : a % b; }
                if (o == "&") return a & b; if (o == "|") return a | b; if (o == "^") return a ^ b;
                if (o == "<<" || o == ">>") { if (b >= 64) fail(CND_ERR_ARITHMETIC); return o == "<<" ? a << b : a >> b; }
                if (o == "==") return a == b; if (o == "!=") return a != b; if (o == "<") return a < b; if (o == ">") return a > b; if (o == "<=") return a <= b; if (o == ">=") return a >= b;
                if (o == "&&") return a && b; return a || b;
            }
        }
        return 0;
    }
    static u32 crc(const u8* d, size_t n, int width, u32 poly, u32 init, u32 xo, bool rin, bool rout) {
        u64 reg = init; u64 top = 1ull << width; // polynomial division of the bit stream
        for (size_t i = 0; i < n; i++) for (int b = 0; b < 8; b++) { u64 in = (d[i] >> (rin ? b : 7 - b)) & 1; reg ^= in << (width - 1); reg <<= 1; if (reg & top) reg ^= top | poly; }
        u32 r = (u32)reg; if (rout) { u32 q = 0; for (int i = 0; i < width; i++) if (r >> i & 1) q |= 1u << (width - 1 - i); r = q; }
        return (r ^ xo) & (u32)mask(width);
    }
    void field(const Field& f, const Ctx& c) {
        bool be = f.endian >= 0 ? f.endian : c.be; str key = c.pre + f.name; w.ops++;
        switch (f.k) {
            case K_IF: {
                for (size_t i = 0; i < f.ifs.size(); i++) { item = cur; w.conds++; if (ival(f.ifs[i].first, c)) { w.taken++; w.pathh = w.pathh * 31 + i + 1; block(f.ifs[i].second, c); return; } }
                w.pathh = w.pathh * 31; if (f.has_else) block(f.els, c); return;
            }
            case K_SWITCH: {
                item = cur; w.conds++; u64 v = lookup(c.pre + f.disc);
                for (size_t i = 0; i < f.cases.size(); i++) if ((u64)f.cases[i].val == v) { w.taken++; w.pathh = w.pathh * 37 + i + 1; block(f.cases[i].body, c); return; }
                w.pathh = w.pathh * 37; if (f.has_def) block(f.def, c); return;
            }
            case K_PAD: item = cur; if (!bits_room(f.padbits)) fail(CND_ERR_OOB, 9); if (enc) putbits(0, f.padbits, c.be); else { size_t t = (size_t)(bit + f.padbits); cur += t / 8; bit = (int)(t % 8); } return;
            case K_FILL: item = cur; if (bit) { if (enc) putbits(f.fillv ? ~0ull : 0, 8 - bit, c.be); else { cur++; bit = 0; } } return;
            case K_CONST: {
                align(); item = cur; size_t n = (size_t)op_size(f.type); w.fields++;
                if (!room(n)) fail(CND_ERR_OOB, n);
                u64 want = f.cval & mask((int)n * 8);
                if (enc) store(want, n, be); else { if (load(n, be) != want) fail(CND_ERR_VALIDATION, n); Event& e = add((u8)f.type, key); e.k = V_INT; e.i = want; setenv_(e, op_signed(f.type) ? (u64)sext(want, (int)n * 8) : want); }
                cur += n; return;
            }
            case K_CRC: {
                align(); item = cur; int wd = f.type == OP_IO_U32 ? 32 : 16; size_t n = (size_t)wd / 8; w.crcs++;
                bool rin = f.refin, rout = f.refout;
                u32 v = crc(w.buf.data(), cur, wd, f.cpoly, f.cinit, f.cxor, rin, rout);
                if (!room(n)) fail(CND_ERR_OOB, n);
                w.crc_cover.push_back({cur, n});
                if (enc) store(v, n, be); else if (load(n, be) != v) fail(CND_ERR_CRC_MISMATCH, n);
                cur += n; return;
            }
            case K_EXPR: {
                item = cur; w.exprs++; bool fl = op_float(f.type); double d = 0; u64 v;
                if (fl) { d = fval(f.ex, c); if (d != d) w.unsure = true; v = dbits(d); } else if (f.ex->isf && f.type == OP_IO_BOOL) v = fval(f.ex, c) != 0; else if (f.ex->isf) { d = fval(f.ex, c); if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) fail(CND_ERR_ARITHMETIC); v = (u64)(i64)d; } else { v = ival(f.ex, c); if (f.type == OP_IO_BOOL) v = v != 0; }
                Event& e = add(OP_STORE_CTX, key); e.k = V_INT; e.i = v; e.ctype = (u8)f.type; // the host keeps what fits the declared type
                setenv_(e, f.type == OP_IO_F32 ? dbits((double)(float)d) : fl || f.type == OP_IO_BOOL ? v : op_signed(f.type) ? (u64)sext(v & mask(op_size(f.type) * 8), op_size(f.type) * 8) : v & mask(op_size(f.type) * 8));
                align(); item = cur; size_t n = (size_t)op_size(f.type);
                if (!room(n)) fail(CND_ERR_OOB, n);
                if (enc) store(f.type == OP_IO_F32 ? fbits((float)d) : v, n, be);
                else {
                    u64 raw = load(n, be);
                    if (f.type == OP_IO_F32) { float x = (float)d, y = bitsf(raw), df = x - y; if (fbits(x) != fbits(y) && !(df >= -0.00001f && df <= 0.00001f)) fail(CND_ERR_VALIDATION, n); }
                    else if (f.type == OP_IO_F64) { double y = bitsd(raw), df = d - y; if (dbits(d) != raw && !(df >= -0.0000001 && df <= 0.0000001)) fail(CND_ERR_VALIDATION, n); }
                    else if (raw != (v & mask((int)n * 8))) fail(CND_ERR_VALIDATION, n);
                }
                size_t at = cur; cur += n;
                if (f.range) { size_t sv = cur; cur = at; u64 raw = load(n, be); cur = sv; check_range(f, raw); }
                return;
            }
            default: break;
        }
        if (f.arr != A_NONE) array(f, key, c, be); else one(f, key, c, be, false);
    }
    void block(const Block& b, const Ctx& c) { for (auto& f : b) field(f, c); }
    void go() {
        try {
            Ctx c{s.be, ""};
            if (s.alias) { const Struct& st = s.structs[(size_t)s.alias_of]; c.be = st.unaligned ? true : s.be; block(st.f, c); if (st.unaligned && bit) { item = cur; fail(CND_ERR_VALIDATION); } }
            else block(s.pkt, c);
        } catch (Fail& f) { w.err = f.e; }
        w.end = cur + (bit > 0);
        if (w.err == CND_ERR_OK) w.lo = w.hi = w.end;
    }
};
Walk walk_decode(const Schema& s, const void* d, size_t n) {
    Walk w; w.s = &s; w.enc = false; w.buf.assign((const u8*)d, (const u8*)d + n); w.len = n;
    W k(w, s, nullptr, false); k.go(); return w;
}
Walk walk_encode(const Schema& s, Src& src, const vec<u8>& init, size_t len, bool unlimited) {
    Walk w; w.s = &s; w.enc = true; w.buf = init; w.len = unlimited ? (size_t)1 << 40 : len; if (!unlimited) w.buf.resize(len);
    src.at = 0; W k(w, s, &src, unlimited); k.go();
    if (unlimited) w.len = w.end;
    return w;
}

u64 g_perturb = 0;
u64 perturbed(u64 v, size_t at, const str& key) {
    if (!g_perturb) return v;
    u64 x = g_perturb ^ (at / 2 * 0x9E3779B97F4A7C15ull); for (char c : key) x = (x ^ (u8)c) * 0x100000001b3ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
    return x % 3 ? v : x % 7 == 0 ? ~0ull : (x >> 8) % 6;
}
// ------------------------------------------------------------------ host
str ev_str(const Event& e) {
    str v; if (e.k == V_INT) v = strf("=%llu", (unsigned long long)e.i); else if (e.k == V_DBL) v = strf("=%.17g", e.d); else if (e.k == V_STR) v = "='" + hex(e.s.data(), e.s.size(), 16) + "'";
    return strf("%02x %s%s", e.op, e.key.c_str(), v.c_str());
}
int ptr_size(u8 op) {
    switch (op) {
        case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_STORE_CTX: case OP_LOAD_CTX: case OP_CTX_QUERY: return 8;
        case OP_IO_BIT_BOOL: case OP_ARR_PRE_U8: return 1;
        case OP_ARR_PRE_U16: return 2;
        case OP_ARR_PRE_U32: case OP_ARR_FIXED: case OP_ARR_DYNAMIC: return 4;
        default: return op_size(op);
    }
}
static bool dclose(double a, double b) { if (a == b || (a != a && b != b)) return true; double m = std::max(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= 1e-9 * std::max(m, 1.0); }
bool Host::done(str* why) const {
    for (size_t i = at; i < w->ev.size(); i++) if (!w->ev[i].may_omit) { if (why) *why = strf("event %zu of %zu never came: %s", i, w->ev.size(), ev_str(w->ev[i]).c_str()); return false; }
    return true;
}
extern "C" cnd_error_t host_cb(cnd_vm_ctx* ctx, u16 key, u8 op, void* ptr) {
    Host& h = *(Host*)ctx->user_ptr; u64 n = h.calls++;
    auto mix = [&](u64 x) { h.hash = (h.hash ^ x) * 0x100000001b3ull; h.hash ^= h.hash >> 31; };
    auto wrong = [&](const str& m) { if (h.bad.empty()) h.bad = strf("callback %llu: ", (unsigned long long)n) + m; return CND_ERR_CALLBACK; };
    if (!h.bad.empty()) return CND_ERR_CALLBACK;
    if (h.failed) { h.after_fail++; return CND_ERR_CALLBACK; }
    // asks the program for the name on the first calls; later the host remembers (a lookup walks the string table)
    str* known = nullptr; if (n >= 2000) { auto it = h.names.find(key); if (it != h.names.end()) known = &it->second; }
    str name; if (known) name = *known; else { const char* kn = cnd_get_key_name(h.prog, key); name = kn ? kn : strf("#%u", key); if (n >= 2000) h.names[key] = name; }
    mix(op); mix(key);
    if (h.yields) fiber_yield();
    if (h.hook) h.hook(h, op, name.c_str());
    if (h.fail_at >= 0 && (i64)n == h.fail_at && !(op == OP_RAW_BYTES)) { h.failed = true; h.failed_op = op; ev("host fails callback %llu (op %02x %s)", (unsigned long long)n, op, name.c_str()); fault_hit("callback failure"); return h.fail_code; }
    if (op == OP_LOAD_CTX || op == OP_CTX_QUERY) {
        h.queries++;
        if (!ptr) return wrong("query without a place for the answer");
        auto it = h.env.find(name); u64 v = perturbed(it == h.env.end() ? 0 : it->second, h.at, name); memcpy(ptr, &v, 8); mix(v);
        ev("query %s -> %llu", name.c_str(), (unsigned long long)v);
        return CND_ERR_OK;
    }
    while (h.at < h.w->ev.size() && h.w->ev[h.at].may_omit && (h.w->ev[h.at].op != op || h.w->ev[h.at].key != name)) h.at++;
    if (op == OP_RAW_BYTES) {
        size_t k = 0; while (h.at + k < h.w->ev.size() && h.w->ev[h.at + k].elem8 && h.w->ev[h.at + k].key == name) k++;
        if (!k || h.at + k >= h.w->ev.size() || h.w->ev[h.at + k].op != OP_ARR_END || h.w->ev[h.at].elem8 == false) {
            return wrong("bulk offer of " + name + " where " + (h.at < h.w->ev.size() ? ev_str(h.w->ev[h.at]) : "nothing") + " is next");
        }
        u64 q = h.rawseed ? (h.rawseed >> (n % 61)) & 1 : 0;
        if (!q || h.no_raw) { h.raw_refused++; fault_hit("bulk offer refused"); ev("bulk %s refused", name.c_str()); return CND_ERR_CALLBACK; }
        u8* p = (u8*)ptr; if (p < h.buf || p + k > h.buf + h.len) return wrong("bulk bytes outside the buffer");
        for (size_t i = 0; i < k; i++) {
            const Event& e = h.w->ev[h.at + i];
            if (h.enc) p[i] = (u8)e.i; else if (p[i] != (u8)e.i) return wrong(strf("bulk byte %zu of %s is %u, sent %u", i, name.c_str(), p[i], (u8)e.i));
            if (e.env) h.env[e.key] = e.envbits;
        }
        h.raw_taken++; h.at += k + 1; ev("bulk %s taken (%zu)", name.c_str(), k); mix(k); return CND_ERR_OK;
    }
    if (h.at >= h.w->ev.size()) { if (h.lenient) return CND_ERR_OK; return wrong(strf("unexpected event %02x %s after the last one", op, name.c_str())); }
    const Event& e = h.w->ev[h.at];
    bool anon = op == OP_ARR_END || op == OP_EXIT_STRUCT;
    if (e.op != op || (!anon && e.key != name)) return wrong(strf("event %02x %s where %s is due", op, name.c_str(), ev_str(e).c_str()));
    h.at++;
    ev("%s %s", h.enc ? "give" : "get", ev_str(e).c_str());
    if (e.env) h.env[e.key] = e.envbits;
    if (h.log) h.log->push_back(ev_str(e));
    if (e.k == V_NONE) { if (ptr) return wrong(strf("event %02x comes with data", op)); return CND_ERR_OK; }
    if (!ptr) return wrong("no data pointer");
    if (e.k == V_STR) {
        if (h.enc) {
            if (e.missing) { fault_hit("optional string withheld"); return CND_ERR_CALLBACK; }
            const char* c = e.s.c_str(); memcpy(ptr, &c, sizeof c); return CND_ERR_OK;
        }
        const char* c = (const char*)ptr; size_t pre = op == OP_STR_NULL ? 0 : op == OP_STR_PRE_U8 ? 1 : op == OP_STR_PRE_U16 ? 2 : 4;
        if (e.missing) { if ((const u8*)c >= h.buf && (const u8*)c < h.buf + h.len) return wrong("missing string points into the frame"); for (size_t i = 0; i <= pre; i++) if (c[0 - (int)i]) return wrong("missing optional string is not empty"); return CND_ERR_OK; }
        if ((const u8*)c != h.buf + e.at) return wrong(strf("string %s points to offset %ld, not %zu", name.c_str(), (long)((const u8*)c - h.buf), e.at));
        if (memcmp(c, e.s.data(), e.s.size())) return wrong("string " + name + " differs");
        if (op == OP_STR_NULL && c[e.s.size()]) return wrong("string without terminator");
        return CND_ERR_OK;
    }
    if (e.k == V_DBL) {
        if (h.enc) { memcpy(ptr, &e.d, 8); return CND_ERR_OK; }
        double d; memcpy(&d, ptr, 8); if (e.missing ? dbits(d) != 0 : !dclose(d, e.d)) return wrong(strf("%s is %.17g, sent %.17g", name.c_str(), d, e.d));
        return CND_ERR_OK;
    }
    int sz = ptr_size(op); u64 v = 0;
    bool given = !h.enc || op == OP_ARR_FIXED || op == OP_ARR_DYNAMIC || op == OP_STORE_CTX;
    if (given) { memcpy(&v, ptr, (size_t)sz); mix(v); if (v != (e.i & mask(sz * 8))) return wrong(strf("%s (op %02x) is %llu (0x%llx), not %llu (0x%llx)", name.c_str(), op, (unsigned long long)v, (unsigned long long)v, (unsigned long long)e.i, (unsigned long long)e.i)); return CND_ERR_OK; }
    v = e.i; memcpy(ptr, &v, (size_t)sz); return CND_ERR_OK;
}

// ------------------------------------------------------------------ engine
bool compile(const str& src, str* img, str* out) {
    Proc p; p.poison = 0xC3; D.put("/w/s.cnd", src); D.f.erase("/w/s.il");
    Run r = cli(p, {"compile", "s.cnd", "s.il"});
    if (out) *out = p.out + p.err;
    if (r.how == BUDGET) violate("hang:compile", "compiler did not end on: " + src);
    if (r.how != RETURNED && r.how != EXITED) violate("crash:compile", strf("compiler ended abnormally (%d)", r.how));
    if (r.code != 0) return false;
    if (!D.has("/w/s.il")) violate("compile:nofile", "compiler reports success without an image");
    *img = D.get("/w/s.il"); return true;
}
Exact::Exact(const void* d, size_t n_) : n(n_) { p = (u8*)malloc(n); if (n) memcpy(p, d, n); }
Exact::~Exact() { free(p); }
std::shared_ptr<Image> load_image(const str& img) {
    size_t pg = (img.size() + 4095) / 4096 * 4096; u8* m = (u8*)mmap(nullptr, pg + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    u8* at = m + pg - img.size(); memcpy(at, img.data(), img.size()); mprotect(m, pg, PROT_READ); mprotect(m + pg, 4096, PROT_NONE);
    std::shared_ptr<Image> im(new Image, [m, pg](Image* i) { munmap(m, pg + 4096); delete i; });
    im->data = img; im->mem = at; im->n = img.size();
    memset(&im->prog, 0x5A, sizeof im->prog);
    if (cnd_program_load_il(&im->prog, at, img.size()) != CND_ERR_OK) return nullptr;
    return im;
}
VmRes vm_exec(const cnd_program* p, cnd_mode_t mode, u8* buf, size_t len, cnd_io_cb cb, void* user, u64 budget, cnd_vm_ctx* reuse) {
    cnd_vm_ctx* c = reuse; if (!c) { c = (cnd_vm_ctx*)malloc(sizeof(cnd_vm_ctx)); memset(c, 0xE7, sizeof *c); } // poisoned: only cnd_init may matter
    cnd_init(c, mode, p, buf, len, cb, user);
    VmRes r; Run g = guarded(budget, [&] { return (int)cnd_execute(c); });
    r.how = g.how; r.err = (cnd_error_t)g.code; r.steps = g.steps; r.cursor = c->cursor; r.bits = c->bit_offset; if (!reuse) free(c); ST.vm_runs++;
    ev("%s -> %s, cursor %zu+%d", mode == CND_MODE_ENCODE ? "encode" : "decode", errname(r.err).c_str(), r.cursor, r.bits);
    return r;
}
str check_run(const Walk& w, Host& h, const VmRes& r, const u8* mem, const vec<u8>& init, size_t len) {
    if (r.how == BUDGET) return "run did not end within its step budget";
    if (r.how != RETURNED) return strf("run ended abnormally (%d)", r.how);
    if (!h.bad.empty()) return h.bad;
    if (w.unsure) return "";
    if (r.err != w.err) return strf("result is '%s', expected '%s'", errname(r.err).c_str(), errname(w.err).c_str());
    str why; if (!h.done(&why)) return why;
    if (w.err == CND_ERR_OK && r.flen() != w.end) return strf("frame length %zu, expected %zu", r.flen(), w.end);
    if (!w.enc) { if (len && memcmp(mem, w.buf.data(), len)) return "decoding changed the frame"; return ""; }
    size_t lo = std::min(w.lo, len), hi = std::min(std::max(w.hi, w.lo), len);
    for (size_t i = 0; i < len; i++) {
        u8 want = i < lo ? w.buf[i] : i >= hi ? init[i] : mem[i];
        if (mem[i] != want) return strf("byte %zu of %zu is %02x, expected %02x%s (frame end %zu)", i, len, mem[i], want, i >= hi ? " (outside the frame)" : "", w.end);
    }
    return "";
}
vec<u8> noise(size_t n) { vec<u8> v(n); Fill f(draw64()); for (auto& b : v) b = f(); return v; }
bool model_frame(const Compiled& k, const Src& opts, Sent& o, int tries) {
    for (int i = 0; i < tries; i++) {
        o.src = opts; vec<u8> none; Walk a = walk_encode(k.s, o.src, none, 0, true);
        if (a.err != CND_ERR_OK || a.unsure) continue;
        o.src.replay = true; o.init = noise(a.end); o.w = walk_encode(k.s, o.src, o.init, a.end, false);
        if (o.w.err != CND_ERR_OK || o.w.unsure) continue;
        o.f.assign(o.w.buf.begin(), o.w.buf.begin() + (long)o.w.end); return true;
    }
    return false;
}
str run_encode(const Compiled& k, Src& src, const vec<u8>& init, vec<u8>* out, Walk* wout, u64 rawseed, cnd_vm_ctx* reuse) {
    src.replay = true; Walk w = walk_encode(k.s, src, init, init.size(), false);
    Exact e(init); Host h(w, &k.im->prog); h.buf = e.p; h.len = e.n; h.rawseed = rawseed; h.lenient = w.unsure;
    VmRes r = vm_exec(&k.im->prog, CND_MODE_ENCODE, e.p, e.n, host_cb, &h, 400000000, reuse);
    str d = check_run(w, h, r, e.p, init, e.n);
    if (out) out->assign(e.p, e.p + std::min(e.n, r.flen()));
    if (wout) *wout = std::move(w);
    return d;
}
str same_values(const Walk& a, const Walk& b) {
    // values the sender's host gave, in order, against the ones delivered
    size_t j = 0; auto val = [](const Event& e) { return e.k != V_NONE; };
    for (auto& e : a.ev) {
        if (!val(e)) continue;
        while (j < b.ev.size() && (b.ev[j].op != e.op || b.ev[j].key != e.key)) { // constants are only seen by the receiver
            if (j + 1 >= b.ev.size()) return "sent value never delivered: " + ev_str(e);
            j++;
        }
        if (j >= b.ev.size()) return "sent value never delivered: " + ev_str(e);
        const Event& g = b.ev[j++];
        if (e.k == V_STR) { if (!g.missing && e.s.compare(0, g.s.size(), g.s)) return "string " + e.key + " differs"; if (g.s.size() < e.s.size() && !(e.op == OP_STR_PRE_U8 && g.s.size() == 255) && !(e.op == OP_STR_PRE_U16 && g.s.size() == 65535) && e.op != OP_STR_NULL) return "string " + e.key + " cut"; continue; }
        if (e.k == V_DBL) continue;                    // scaled values: the nearest raw value
        int bits = ptr_size(e.op) * 8; if ((e.i ^ g.i) & mask(bits)) { if (g.exact) return ev_str(e) + " arrived as " + ev_str(g); }
    }
    return "";
}
str run_decode(const Schema& s, const cnd_program* p, const vec<u8>& frame, Walk* wout, u64 rawseed, cnd_vm_ctx* reuse) {
    Walk w = walk_decode(s, frame.data(), frame.size()); Host h(w, p); Exact e(frame); h.buf = e.p; h.len = e.n; h.rawseed = rawseed; h.lenient = w.unsure;
    VmRes r = vm_exec(p, CND_MODE_DECODE, e.p, e.n, host_cb, &h, 400000000, reuse);
    str d = check_run(w, h, r, e.p, frame, e.n);
    if (wout) *wout = std::move(w);
    return d;
}
Compiled make_schema(const Cfg& c, bool must) {
    for (int t = 0;; t++) {
        Compiled k; k.s = gen_schema(c); for (int q = 0; q < 6 && c.decide && !decisions(k.s.pkt); q++) k.s = gen_schema(c); k.text = print_schema(k.s, k.s.style); str out;
        ev("schema: %s", schema_brief(k.s).c_str());
        evh(std::hash<str>()(k.text));
        if (compile(k.text, &k.img, &out)) {
            k.im = load_image(k.img); if (!k.im) violate("image:load", "compiled image does not load");
            evh(std::hash<str>()(k.img)); return k;
        }
        if (must || t > 5) violate("compile:refused", "compiler refuses a valid schema: " + out + "\n" + k.text);
        count("schemas refused");
    }
}
