#include "il.hpp"
const vec<u8>& all_ops() {
    static vec<u8> v; if (v.empty()) for (int i = 0; i < 256; i++) if (il_fixed_len((u8)i)) v.push_back((u8)i);
    return v;
}
int il_fixed_len(u8 op) {
    switch (op) {
        case 0x00: case 0x01: case 0x02: case 0x04: case 0x25: case 0x26: case 0x38: case 0x4A: case 0x62: case 0x63: case 0x64: return 1;
        case 0x05: case 0x23: case 0x24: case 0x65: return 2;
        case 0x03: case 0x06: case 0x07: case 0x22: case 0x31: case 0x32: case 0x33: case 0x35: case 0x36: case 0x37: case 0x3A: case 0x60: case 0x78: return 3;
        case 0x20: case 0x21: return 4;
        case 0x30: case 0x3B: case 0x50: case 0x52: return 5;
        case 0x34: case 0x39: case 0x51: case 0x53: return 7;
        case 0x44: return 8;
        case 0x49: return 14;
        case 0x43: return 17;
        case 0x61: case 0x45: case 0x46: case 0x47: case 0x48: return 9;
        case 0x40: case 0x41: case 0x42: case 0x4B: case 0x4C: case 0x4D: return -1;
    }
    if (op >= 0x10 && op <= 0x1A) return 3;
    if ((op >= 0x69 && op <= 0x77) || (op >= 0x80 && op <= 0x8B) || (op >= 0x90 && op <= 0x97) || (op >= 0xA0 && op <= 0xA5)) return 1;
    return 0;
}
size_t il_len(const vec<u8>& b, size_t ip) {
    u8 op = b[ip]; int f = il_fixed_len(op); if (f >= 0) return (size_t)f;
    auto at = [&](size_t i) { return i < b.size() ? b[i] : 0; };
    if (op == 0x4C) return ip + 1 < b.size() ? 2 + 8u * at(ip + 1) : 2;
    if (op == 0x4D) return ip + 1 < b.size() ? 2 + 16u * at(ip + 1) : 2;
    size_t t = op == 0x40 ? 3 : 1; if (ip + t >= b.size()) return t + 1;
    u8 ty = b[ip + t]; size_t n = ty <= 0x19 && ty >= 0x10 ? (size_t)op_size(ty) : 0; if (!n) return 0;
    if (op == 0x42) return t + 1 + 2 * n;
    if (op != 0x4B) return t + 1 + n;
    if (ip + t + 2 >= b.size()) return t + 3;
    return t + 3 + n * (size_t)(at(ip + t + 1) | at(ip + t + 2) << 8);
}
static i64 s32(const vec<u8>& b, size_t i) { return (i64)(int32_t)((u32)b[i] | (u32)b[i + 1] << 8 | (u32)b[i + 2] << 16 | (u32)b[i + 3] << 24); }
static u64 u64at(const vec<u8>& b, size_t i) { u64 v = 0; for (int k = 7; k >= 0; k--) v = v << 8 | b[i + (size_t)k]; return v; }
static str scan(const vec<u8>& b, size_t ip, size_t end, vec<Ins>* out, int depth) {
    if (depth > 5000) return "";
    while (ip < end) {
        u8 op = b[ip]; size_t n = il_len(b, ip);
        if (!n) return strf("undefined instruction %02x at %zu", op, ip);
        if (n > end - ip) return strf("instruction %02x at %zu cut off", op, ip);
        if (out) out->push_back({ip, n, op});
        auto inside = [&](size_t from, i64 off) { i64 t = (i64)from + off; return t >= 0 && t <= (i64)b.size(); };
        if ((op == 0x50 || op == 0x52) && !inside(ip + 5, s32(b, ip + 1))) return strf("jump at %zu leaves the program", ip);
        if (op == 0x51 || op == 0x53) {
            u64 rel = (u32)s32(b, ip + 3), code = ip + 7, tab = code + rel, te;
            if (tab > end) return strf("switch at %zu without its table", ip);
            if (op == 0x51) { if (end - tab < 6) return strf("switch table at %zu cut off", ip); te = tab + 6 + 12ull * (b[tab] | b[tab + 1] << 8); if (te > end) return strf("switch table at %zu cut off", ip); }
            else { if (end - tab < 20) return strf("switch table at %zu cut off", ip); u64 lo = u64at(b, tab), hi = u64at(b, tab + 8); if (hi < lo) return strf("switch table at %zu without cases", ip); u64 k = hi - lo; if (k >= (end - tab - 20) / 4) return strf("switch table at %zu cut off", ip); te = tab + 20 + 4 * (k + 1); }
            size_t q = tab + (op == 0x51 ? 2 : 16); if (!inside(code, s32(b, q))) return strf("switch at %zu jumps outside the program", ip);
            for (q += 4; q < te; q += 4) { if (op == 0x51) q += 8; if (!inside(code, s32(b, q))) return strf("switch at %zu jumps outside the program", ip); }
            str r = scan(b, code, tab, out, depth + 1); if (!r.empty()) return r;
            ip = te; continue;
        }
        ip += n;
    }
    return "";
}
str il_check(const vec<u8>& bc, vec<Ins>* out) { return scan(bc, 0, bc.size(), out, 0); }
bool image_split(const str& s, ImageParts& p) {
    auto* u = (const u8*)s.data(); if (s.size() < 16 || s.compare(0, 5, "CNDIL")) return false;
    p.version = u[5]; size_t n = (size_t)(u[6] | u[7] << 8), so = (u32)(u[8] | u[9] << 8 | u[10] << 16 | u[11] << 24), bo = (u32)(u[12] | u[13] << 8 | u[14] << 16 | u[15] << 24);
    if (so > s.size() || bo > s.size()) return false;
    p.names.clear(); for (size_t i = 0; i < n; i++) { size_t z = s.find('\0', so); if (z == str::npos) return false; p.names.push_back(s.substr(so, z - so)); so = z + 1; }
    p.bc.assign(u + bo, u + s.size()); return true;
}
str image_join(const ImageParts& p) {
    str t; for (auto& n : p.names) { t += n; t += '\0'; }
    auto le = [](u64 v, int n) { str o; for (int i = 0; i < n; i++) o += (char)(v >> (8 * i)); return o; };
    return str("CNDIL") + (char)p.version + le(p.names.size(), 2) + le(16, 4) + le(16 + t.size(), 4) + t + str((const char*)p.bc.data(), p.bc.size());
}
static void operand(vec<u8>& b, size_t n) { u64 k = draw(4); for (size_t i = 0; i < n; i++) b.push_back(k == 0 ? 0 : k == 1 ? (u8)draw(4) : k == 2 ? (i ? 0 : (u8)draw(256)) : (u8)draw(256)); }
vec<u8> random_code(size_t maxins) {
    vec<u8> b; size_t n = 1 + draw(maxins); static const u8 io[] = {0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x20, 0x21, 0x22, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x03, 0x04, 0x4A};
    u64 style = draw(4);
    if (draw(3) == 0) { // deep stacks and nesting
        static const u8 deep[][7] = {{0x61, 1, 0, 0, 0, 0, 0}, {0x34, 0, 0, 2, 0, 0, 0}, {0x3A, 0, 0}, {0x35, 1, 0}, {0x64}, {0x60, 0, 0}, {0x06, 0, 0}, {0x03, 0, 0}, {0x36, 0, 0}}; size_t w = draw(9); static const int L[] = {9, 7, 3, 3, 1, 3, 3, 3, 3};
        for (u64 q = 6 + draw(8); q--;) for (int z = 0; z < L[w]; z++) b.push_back(z < 7 ? deep[w][z] : 0);
    }
    for (size_t i = 0; i < n; i++) {
        u8 op = style == 0 || draw(3) == 0 ? all_ops()[draw(all_ops().size())] : style == 3 && draw(2) ? (u8)(0x60 + draw(0x46)) : io[draw(sizeof io)];
        int f = il_fixed_len(op); if (!f) op = 0x61, f = 9;
        b.push_back(op);
        if (op == 0x50 || op == 0x52) { int32_t o = draw(3) == 0 ? (int32_t)draw64() : (int32_t)drawr(-30, 40); for (int k = 0; k < 4; k++) b.push_back((u8)((u32)o >> (8 * k))); continue; }
        if (f > 0) { operand(b, (size_t)f - 1); if (f >= 3 && (op >= 0x10 && op <= 0x3B) && draw(4)) b[b.size() - (size_t)f + 2] = 0; continue; }
        if (op == 0x4C || op == 0x4D) { u8 k = (u8)(draw(4) == 3 ? draw(256) : draw(4)); b.push_back(k); if (draw(8)) operand(b, (op == 0x4C ? 8u : 16u) * k); continue; }
        if (op == 0x40) operand(b, 2);
        u8 ty = (u8)(0x10 + draw(draw(8) ? 10 : 16)); b.push_back(ty); size_t w = (size_t)std::max(1, op_size(ty));
        if (op == 0x4B) { u8 k = (u8)draw(4); b.push_back(k); b.push_back(draw(20) == 19); operand(b, w * k); } else operand(b, op == 0x42 ? 2 * w : w);
    }
    return b;
}
str image_damage(const str& img, const str& other, str* what) {
    str s = img; u64 k = draw(12); ImageParts p; bool ok = image_split(img, p); size_t bo = ok ? img.size() - p.bc.size() : 0;
    auto code_at = [&] { return draw(3) && bo < s.size() ? bo + draw(s.size() - bo) : draw(s.size()); };
    if (s.empty()) { *what = "empty"; return s; }
    if (k <= 2) { u64 n = 1 + (k == 2 ? draw(8) : 0); for (u64 i = 0; i < n; i++) { size_t a = code_at(); s[a] = (char)(s[a] ^ (1 << draw(8))); } *what = "image bits flipped"; }
    else if (k == 3) { s.resize(draw(s.size())); *what = "image torn"; }
    else if (k == 4) { size_t a = draw(std::min(s.size(), other.size()) + 1); s = s.substr(0, a) + other.substr(a); *what = "image spliced with a stale one"; }
    else if (k == 5) { size_t a = code_at(), n = 1 + draw(64); for (size_t i = a; i < s.size() && i < a + n; i++) s[i] = 0; *what = "image block zeroed"; }
    else if (k == 6) { for (u64 i = 0, n = 1 + draw(3); i < n; i++) s[code_at()] = (char)(draw(2) ? all_ops()[draw(all_ops().size())] : draw(256)); *what = "image bytes replaced"; }
    else if (k == 7) { size_t a = std::min(s.size(), (size_t)6 + draw(10)); if (a < s.size()) s[a] = (char)draw(256); *what = "image header damaged"; }
    else if (k == 8 && ok) { vec<Ins> v; il_check(p.bc, &v); if (!v.empty()) { Ins i = v[draw(v.size())]; if (i.len > 1) { size_t o = i.at + 1 + draw(i.len - 1); p.bc[o] = (u8)(draw(2) ? draw(256) : draw(2) ? 0xFF : 0x80); } } s = image_join(p); *what = "operand damaged"; }
    else if (k == 9 && ok) { vec<Ins> v; il_check(p.bc, &v); if (v.size() > 1) { Ins a = v[draw(v.size())], b = v[draw(v.size())]; vec<u8> ins(p.bc.begin() + (long)a.at, p.bc.begin() + (long)(a.at + a.len)); if (draw(2)) p.bc.insert(p.bc.begin() + (long)b.at, ins.begin(), ins.end()); else p.bc.erase(p.bc.begin() + (long)a.at, p.bc.begin() + (long)(a.at + a.len)); } s = image_join(p); *what = "instruction duplicated or lost"; }
    else if (k == 10 && ok) { vec<u8> r = random_code(6); p.bc.insert(p.bc.begin() + (long)draw(p.bc.size() + 1), r.begin(), r.end()); s = image_join(p); *what = "foreign code"; }
    else { p.bc = random_code(40); if (!ok) p.names = {"a", "b"}; s = image_join(p); if (draw(4) == 0) s.resize(draw(s.size() + 1)); *what = "arbitrary code"; }
    return s;
}

vec<u8> deep_code(size_t levels, u8 inner) {
    vec<u8> b; b.reserve(levels * 13 + 1);
    for (size_t i = 0; i < levels; i++) { u32 rel = (u32)(13 * (levels - 1 - i) + 1); u8 x[7] = {OP_SWITCH, 0, 0, (u8)rel, (u8)(rel >> 8), (u8)(rel >> 16), (u8)(rel >> 24)}; b.insert(b.end(), x, x + 7); }
    b.push_back(inner);
    b.resize(b.size() + 6 * levels); // tables without cases, the default at the code
    return b;
}
