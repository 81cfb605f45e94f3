// C21: inspecting tools on intact, torn, flipped and arbitrary files, on a failing disk.
#include "../il.hpp"
extern "C" int hexview_main(int, char**);
static const std::map<int, const char*>& opname() { static const std::map<int, const char*> m = {
 {0x00,"NOOP"}, {0x01,"SET_ENDIAN_LE"}, {0x02,"SET_ENDIAN_BE"}, {0x03,"ENTER_STRUCT"}, {0x04,"EXIT_STRUCT"}, {0x05,"META_VERSION"}, {0x06,"CTX_QUERY"}, {0x07,"META_NAME"}, 
{0x10,"IO_U8"}, {0x11,"IO_U16"}, {0x12,"IO_U32"}, {0x13,"IO_U64"}, {0x14,"IO_I8"}, {0x15,"IO_I16"}, {0x16,"IO_I32"}, {0x17,"IO_I64"}, {0x18,"IO_F32"}, {0x19,"IO_F64"}, 
{0x1A,"IO_BOOL"}, {0x20,"IO_BIT_U"}, {0x21,"IO_BIT_I"}, {0x22,"IO_BIT_BOOL"}, {0x23,"ALIGN_PAD"}, {0x24,"ALIGN_FILL"}, {0x25,"ENTER_BIT_MODE"}, {0x26,"EXIT_BIT_MODE"}, 
{0x30,"STR_NULL"}, {0x31,"STR_PRE_U8"}, {0x32,"STR_PRE_U16"}, {0x33,"STR_PRE_U32"}, {0x34,"ARR_FIXED"}, {0x35,"ARR_PRE_U8"}, {0x36,"ARR_PRE_U16"}, {0x37,"ARR_PRE_U32"}, 
{0x38,"ARR_END"}, {0x39,"RAW_BYTES"}, {0x3A,"ARR_EOF"}, {0x3B,"ARR_DYNAMIC"}, {0x40,"CONST_CHECK"}, {0x41,"CONST_WRITE"}, {0x42,"RANGE_CHECK"}, {0x43,"SCALE_LIN"}, 
{0x44,"CRC_16"}, {0x45,"TRANS_ADD"}, {0x46,"TRANS_SUB"}, {0x47,"TRANS_MUL"}, {0x48,"TRANS_DIV"}, {0x49,"CRC_32"}, {0x4A,"MARK_OPTIONAL"}, {0x4B,"ENUM_CHECK"}, {0x4C,"TRANS_POLY"}, 
{0x4D,"TRANS_SPLINE"}, {0x50,"JUMP_IF_NOT"}, {0x51,"SWITCH"}, {0x52,"JUMP"}, {0x53,"SWITCH_TABLE"}, {0x60,"LOAD_CTX"}, {0x78,"STORE_CTX"}, {0x61,"PUSH_IMM"}, {0x62,"POP"}, 
{0x63,"SWAP"}, {0x64,"DUP"}, {0x65,"EMIT"}, {0x72,"ADD"}, {0x73,"SUB"}, {0x74,"MUL"}, {0x75,"DIV"}, {0x76,"MOD"}, {0x77,"NEG"}, {0x80,"FADD"}, {0x81,"FSUB"}, {0x82,"FMUL"}, 
{0x83,"FDIV"}, {0x84,"FNEG"}, {0x85,"SIN"}, {0x86,"COS"}, {0x87,"TAN"}, {0x88,"SQRT"}, {0x89,"POW"}, {0x8A,"LOG"}, {0x8B,"ABS"}, {0x90,"ITOF"}, {0x91,"FTOI"}, {0x92,"EQ_F"}, 
{0x93,"NEQ_F"}, {0x94,"GT_F"}, {0x95,"LT_F"}, {0x96,"GTE_F"}, {0x97,"LTE_F"}, {0xA0,"BIT_AND"}, {0xA1,"BIT_OR"}, {0xA2,"BIT_XOR"}, {0xA3,"BIT_NOT"}, {0xA4,"SHL"}, {0xA5,"SHR"}, 
{0x69,"EQ"}, {0x6A,"NEQ"}, {0x6B,"GT"}, {0x6C,"LT"}, {0x6D,"GTE"}, {0x6E,"LTE"}, {0x6F,"LOG_AND"}, {0x70,"LOG_OR"}, {0x71,"LOG_NOT"},
}; return m; }
static u64 val(const vec<u8>& b, size_t at, size_t n) { u64 v = 0; for (size_t i = n; i--;) v = v << 8 | b[at + i]; return v; }
static i64 sval(const vec<u8>& b, size_t at, size_t n) { u64 v = val(b, at, n); return n == 8 ? (i64)v : (i64)(v << (64 - 8 * n)) >> (64 - 8 * n); }
static str num(const vec<u8>& b, size_t at, u8 ty) { size_t n = (size_t)op_size(ty); if (op_float(ty)) { if (n == 4) { float f; u32 u = (u32)val(b, at, 4); memcpy(&f, &u, 4); return strf("%f", f); } double d; u64 u = val(b, at, 8); memcpy(&d, &u, 8); return strf("%f", d); } return op_signed(ty) ? strf("%lld", (long long)sval(b, at, n)) : strf("%llu", (unsigned long long)val(b, at, n)); }
static bool has_num(const str& l, const str& n) { for (size_t i = l.find(n); i != str::npos; i = l.find(n, i + 1)) { bool a = i == 0 || !(isalnum((u8)l[i - 1]) || l[i - 1] == '-' || l[i - 1] == '.'), z = i + n.size() >= l.size() || !(isalnum((u8)l[i + n.size()]) || l[i + n.size()] == '.'); if (a && z) return true; } return false; }
// every key name and every instruction must be in the listing, in order
static str listing(const str& out, const ImageParts& p, const vec<Ins>& ins) {
    vec<str> lines; { str c; for (char ch : out) if (ch == '\n') { lines.push_back(c); c.clear(); } else c += ch; lines.push_back(c); }
    size_t at = 0;
    for (size_t i = 0; i < p.names.size(); i++) { while (at < lines.size() && lines[at].find("[" + strf("%zu", i) + "] " + p.names[i]) == str::npos) at++; if (at++ >= lines.size()) return strf("name %zu '", i) + p.names[i] + "' is not listed"; }
    for (auto& n : ins) {
        str off = strf("%04zX", n.at), name = opname().at(n.op);
        while (at < lines.size() && !(lines[at].compare(0, off.size() + 1, off + ":") == 0)) {
            if (lines[at].size() > 5 && isxdigit((u8)lines[at][0]) && isxdigit((u8)lines[at][1]) && isxdigit((u8)lines[at][2]) && isxdigit((u8)lines[at][3]) && lines[at].find(':') <= 8 && lines[at].find(':') >= 4) return "no instruction starts where the listing has '" + lines[at] + "'";
            at++; }
        if (at >= lines.size()) return "instruction at " + off + " (" + name + ") is not listed";
        const str& l = lines[at++]; size_t q = l.find_first_not_of(' ', off.size() + 1); if (q == str::npos || l.compare(q, name.size(), name) || (q + name.size() < l.size() && l[q + name.size()] != ' ')) return "instruction at " + off + " is " + name + ", listed as '" + l + "'";
        vec<str> want; const vec<u8>& b = p.bc; size_t a = n.at;
        switch (n.op) {
            case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE: break;
            case OP_RANGE_CHECK: { u8 ty = b[a + 1]; size_t w = (size_t)op_size(ty); str x = num(b, a + 2, ty), y = num(b, a + 2 + w, ty); if (!op_float(ty)) { size_t i = l.find(x + ", " + y); if (i == str::npos) return "range [" + x + ", " + y + "] listed as '" + l + "'"; } break; }
            case OP_CONST_CHECK: want.push_back(strf("%llu", (unsigned long long)val(b, a + 1, 2))); if (!op_signed(b[a + 3])) want.push_back(num(b, a + 4, b[a + 3])); break;
            case OP_ENUM_CHECK: { u8 ty = b[a + 1]; size_t c = (size_t)val(b, a + 2, 2), w = (size_t)op_size(ty); for (size_t i = 0; i < c && !op_float(ty); i++) want.push_back(num(b, a + 4 + i * w, ty)); break; }
            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: want.push_back(strf("%lld", (long long)sval(b, a + 1, 8))); break;
            case OP_ARR_FIXED: if (val(b, a + 3, 4) <= 0x7fffffff) want.push_back(strf("%llu", (unsigned long long)val(b, a + 3, 4))); want.push_back(strf("%llu", (unsigned long long)val(b, a + 1, 2))); break;
            case OP_STR_NULL: case OP_ARR_DYNAMIC: want.push_back(strf("%llu", (unsigned long long)val(b, a + 1, 2))); want.push_back(strf("%llu", (unsigned long long)val(b, a + 3, 2))); break;
            case OP_JUMP: case OP_JUMP_IF_NOT: want.push_back(strf("%lld", (long long)sval(b, a + 1, 4))); break;
            default: if ((n.op >= 0x10 && n.op <= 0x1A) || n.op == 0x20 || n.op == 0x21 || n.op == 0x22 || n.op == 0x03 || n.op == 0x07 || n.op == 0x60 || n.op == 0x78 || (n.op >= 0x31 && n.op <= 0x37) || n.op == OP_SWITCH || n.op == OP_SWITCH_TABLE) want.push_back(strf("%llu", (unsigned long long)val(b, a + 1, 2))); break;
        }
        for (auto& w : want) if (!has_num(l, w)) return "operand " + w + " of " + name + " at " + off + " is not in '" + l + "'";
    }
    for (; at < lines.size(); at++) if (lines[at].size() > 5 && isxdigit((u8)lines[at][0]) && isxdigit((u8)lines[at][1]) && isxdigit((u8)lines[at][2]) && isxdigit((u8)lines[at][3]) && lines[at].find(": ") <= 8) return "listed behind the end of the program: '" + lines[at] + "'";
    return "";
}
static void run() {
    Cfg c = swarm(); Compiled k = make_schema(c); str other; { Cfg c2 = swarm(); Schema s2 = gen_schema(c2); compile(print_schema(s2), &other); } 
    ImageParts p; image_split(k.img, p); u64 damaged = 0;
    for (u64 i = 0, n = 8 + draw(8); i < n; i++) {
        str f = k.img, what = "intact"; ImageParts q = p; bool intact = true;
        u64 m = draw(8);
        if (m == 1) { q.bc = random_code(60); q.version = (u8)draw(256); if (draw(2)) q.names.clear(); for (u64 z = draw(5); z--;) q.names.push_back(str(draw(40), (char)(33 + draw(90)))); f = image_join(q); vec<Ins> v; intact = il_check(q.bc, &v).empty(); what = "arbitrary code"; if (!intact) fault_hit(what); }
        else if (m > 1) { f = image_damage(k.img, other, &what); fault_hit(what); intact = false; if (draw(4) == 0) { str w2; f = image_damage(f, other, &w2); fault_hit(w2); what += ", " + w2; } if (draw(12) == 0) { vec<u8> r = noise(draw(200)); f.assign(r.begin(), r.end()); if (draw(2)) f = "CNDIL" + f; what = "no image at all"; fault_hit(what); } }
        if (m == 7 && draw(12) == 11) { q.bc = deep_code(1 + draw(80000), (u8)(draw(2) ? 0xEE : 0)); f = image_join(q); intact = false; what = "switches nested deeply"; fault_hit(what); }
        damaged += !intact;
        D.put("/w/i.il", f); Proc pr; pr.poison = (u8)draw(256); bool flt = draw(4) == 0;
        if (flt) { pr.fp.armed = true; int op = (int)draw(F_NOPS); pr.fp.v.push_back({op, (int)draw(3), (int)draw(3), ""}); }
        bool hexv = draw(5) == 0; Run r;
        if (hexv) { str a0 = "hexview", a1 = "i.il"; char* av[] = {&a0[0], &a1[0], nullptr}; r = spawn(pr, 50000000, [&] { return hexview_main(2, av); }); }
        else r = cli(pr, {"inspect", "i.il"}, 300000000);
        str ctx = str(hexv ? "hexview" : "inspect") + " of " + what + (pr.fp.hits.empty() ? "" : strf(", %s #%d %s", FsOpName[pr.fp.v[0].op], pr.fp.v[0].nth, pr.fp.v[0].kind == 1 ? "short" : "fails")) + "\nfile " + hex(f.data(), f.size(), 600) + "\n" + (m ? str() : k.text);
        if (r.how == BUDGET) violate("end", "does not end: " + ctx); if (r.how == ABORTED) violate("abort", "aborts: " + ctx);
        if (D.get("/w/i.il") != f || !pr.wrote.empty()) violate("writes", "changes files: " + ctx);
        if (r.how == KILLED) continue;
        bool lost = false; for (int h : pr.fp.hits) lost |= h == F_OPENR || h == F_READ;
        if (lost && r.code == 0) violate("read", "reports success although the file could not be read: " + ctx);
        if (!r.code && pr.out.empty()) violate("silent", "success without a report: " + ctx);
        if (pr.fp.hits.empty() && hexv) { str want; for (size_t z = 0; z < f.size(); z++) want += strf("%02X", (u8)f[z]); str got; size_t nl = pr.out.find('\n'); for (size_t z = nl + 1; z < pr.out.size(); z++) if (!isspace((u8)pr.out[z])) got += pr.out[z]; if (r.code || got != want) violate("hexview", strf("exit %d, the dump does not show the file's bytes: ", r.code) + ctx + "\n" + pr.out.substr(0, 500)); }
        if (pr.fp.hits.empty() && !hexv && intact) { vec<Ins> v; str bad = il_check(q.bc, &v); bool ok = bad.empty(); str d = !ok ? "own program ill-formed: " + bad : r.code ? strf("exit %d", r.code) : listing(pr.out, q, v); if (!d.empty()) violate(ok ? "listing" : "harness", d + " - " + ctx + "\n" + pr.out.substr(0, 3000)); count("complete listings"); }
        g_path = (g_path ^ std::hash<str>()(f) ^ (u64)r.code) * 0x9E3779B97F4A7C15ull;
    }
    g_sample = strf("%llu damaged files: ", (unsigned long long)damaged) + schema_brief(k.s).substr(0, 250); g_nontrivial = damaged > 0; g_distinct = g_path;
}
static Reg r("C21", run, "at least one damaged file was inspected; distinct = contents of all files inspected");
