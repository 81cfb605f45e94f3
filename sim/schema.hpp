// Schema AST, seeded generator and printer. Independent of the compiler under test.
#pragma once
#include "rt.hpp"
extern "C" {
#include "concordia.h"
}
struct Expr {
    enum K { INT, FLT, BOOLL, REF, UN, BIN, CALL } k; i64 i = 0; double f = 0; str s; // s: name / operator / function
    vec<std::shared_ptr<Expr>> a; bool isf = false; bool hexlit = false; bool paren = false;
};
typedef std::shared_ptr<Expr> E;
struct Enum { str name; int type = OP_IO_U32; bool typed = false; vec<std::pair<str, i64>> v; vec<bool> explicit_; };
struct Field;
typedef vec<Field> Block;
struct Case { i64 val; str label; Block body; bool braces = true; };
enum FK { K_PRIM, K_BITS, K_CONST, K_ENUM, K_STRUCT, K_STR, K_CRC, K_EXPR, K_PAD, K_FILL, K_IF, K_SWITCH };
enum AK { A_NONE, A_FIXED, A_PRE8, A_PRE16, A_PRE32, A_DYN, A_EOF };
enum TK { TR_NONE, TR_SCALE, TR_ADD, TR_SUB, TR_MUL, TR_DIV, TR_POLY, TR_SPLINE };
struct Field {
    FK k = K_PRIM; str name; int type = OP_IO_U8; int bits = 0; bool explicit_bits = true;
    AK arr = A_NONE; u32 count = 0; str ref; bool count_dec = false;
    int spre = 0, smax = 255; bool smax_given = false, until = false;
    TK tr = TR_NONE; double tf = 1, to = 0; bool to_only = false; i64 ti = 0; vec<double> coef;
    bool range = false; i64 rlo = 0, rhi = 0; double flo = 0, fhi = 0;
    bool optional = false; int endian = -1;
    u64 cval = 0; bool match = false;
    u32 cpoly = 0, cinit = 0, cxor = 0; bool refin = false, refout = false; u8 cgiven = 0;
    E ex; str tname; int tindex = -1;          // struct/enum type
    int padbits = 0; bool fillv = false, fillarg = false;
    vec<std::pair<E, Block>> ifs; bool has_else = false; Block els;
    vec<Case> cases; bool has_def = false; Block def; str disc;
    bool is_count = false;                     // used as an array count: keep values small
    bool is_disc = false; vec<i64> hot;        // interesting values (switch cases)
};
struct Struct { str name; bool unaligned = false; Block f; };
struct Schema {
    bool be = false, be_stmt = false, longdec = false; int version = -1; vec<Enum> enums; vec<Struct> structs; Block pkt; str pname = "P"; bool alias = false; int alias_of = -1;
    bool has_eof = false, has_f = false; u64 style = 0;
    int be_at = 0; vec<std::pair<int, bool>> be_before; // the order statement stands before this definition, others before it
};
struct Cfg {
    bool bits = true, unaligned = true, arrays = true, eof = true, strings = true, enums = true, structs = true, floats = true, trans = true,
         poly = true, range = true, consts = true, crc = true, exprs = true, ifs = true, sw = true, optional = true, be = true, pad = true, dyn = true, fexpr = true,
         arrlong = false, alias = true, versions = true, json = false, decide = false, big = true, huge = false;
    int maxf = 7, depth = 2, chain = 60;
};
Cfg swarm(bool big = true);                      // random subset of features; big: long names, many names, large enums
Schema gen_schema(const Cfg& c);
vec<str> schema_tokens(const Schema& s);       // "\n": line break, "\x01": place for doc comment
str print_schema(const Schema& s, u64 style = 0);
str print_expr(const E& e);
int op_size(int op);
bool op_signed(int op);
bool op_float(int op);
const char* op_tname(int op, u64 alt);
int decisions(const Block& b);                  // conditions, switches and computed fields
str schema_brief(const Schema& s);
