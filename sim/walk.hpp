// Reference model: walks a schema over bytes (decode) or host values (encode) and says what the
// engine must do: frame bytes, callbacks with keys and values, result. Plus the simulated host.
#pragma once
#include "schema.hpp"
enum VK { V_NONE, V_INT, V_DBL, V_STR };
struct Event {
    u8 op = 0; str key; VK k = V_NONE; u64 i = 0; double d = 0; str s; size_t at = 0; bool missing = false; // at: where a string starts
    bool may_omit = false, optstr = false, exact = true;  // exact: compare doubles bit for bit
    u8 ctype = 0; bool elem8 = false;                                // element of an array of plain bytes (bulk transfer possible)
    u64 envbits = 0; bool env = false;                 // value the host remembers under the key
    int depth = 0;
};
struct Src;                                            // host values for encoding
struct Walk {
    const Schema* s; bool enc; vec<u8> buf; size_t len; // decode: frame; encode: buffer (initial contents, then frame)
    vec<Event> ev; cnd_error_t err = CND_ERR_OK; size_t lo = 0, hi = 0; // err: the failing item's bytes
    size_t end = 0;                                    // frame length
    std::map<str, u64> env; bool unsure = false;       // NaN met where its bits matter
    u64 ops = 0, fields = 0, crcs = 0, optmissing = 0, exprs = 0, conds = 0, taken = 0; 
    u64 pathh = 0;                                     // hash of decisions taken
    vec<std::pair<size_t, size_t>> crc_cover;          // [0,at) and the crc itself
};
struct Compiled;
struct HostVal { u64 i = 0; double d = 0; str s; i64 raw = 0; bool fail = false; };
struct Src {
    bool illegal = false, replay = false, wild = false, json = false; size_t at = 0; vec<HostVal> v; u64 eofcount = 0; int maxcount = 4; bool optfail = false, longstr = false; u64 budget = 600;
};
Walk walk_decode(const Schema& s, const void* d, size_t n);
// init: initial buffer contents; len: room. unlimited: room grows (EOF arrays draw a count)
Walk walk_encode(const Schema& s, Src& src, const vec<u8>& init, size_t len, bool unlimited);

// ------------------------------------------------------------------ host
struct Host {
    const Walk* w; const cnd_program* prog; u8* buf = nullptr; size_t len = 0; bool enc = false;
    size_t at = 0; std::map<str, u64> env; str bad; u64 calls = 0, queries = 0;
    i64 fail_at = -1; cnd_error_t fail_code = CND_ERR_CALLBACK; bool failed = false; u64 after_fail = 0; u8 failed_op = 0; bool fail_raw_only = false;
    u64 rawseed = 0; u64 raw_taken = 0, raw_refused = 0; bool no_raw = false;
    bool yields = false; bool lenient = false;         // lenient: events behind an unsure value
    vec<str>* log = nullptr;                           // readable log of calls
    u64 hash = 0; bool ended = false;
    std::function<void(Host&, u8 op, const char* key)> hook; // extra behaviour at a callback
    vec<str> keep; std::map<u16, str> names;
    u8* cref = nullptr;
    Host(const Walk& w_, const cnd_program* p) : w(&w_), prog(p), enc(w_.enc) {}
    bool done(str* why) const;                         // all expected events seen
};
int ptr_size(u8 op);                                   // bytes of the value behind a callback
extern "C" cnd_error_t host_cb(cnd_vm_ctx* ctx, u16 key, u8 op, void* ptr);
struct Image { str data; cnd_program prog; u8* mem = nullptr; size_t n = 0; };
// Compiles source with the real compiler on the simulated disk; "" if it refuses
bool compile(const str& src, str* img, str* out = nullptr);
std::shared_ptr<Image> load_image(const str& img);     // read-only pages ending at a guard page
struct VmRes { cnd_error_t err; Ended how; u64 steps; size_t cursor; int bits; size_t flen() const { return cursor + (bits > 0); } };
VmRes vm_exec(const cnd_program* p, cnd_mode_t mode, u8* buf, size_t len, cnd_io_cb cb, void* user, u64 budget = 400000000, cnd_vm_ctx* reuse = nullptr);
// A complete frame of legal values, from the model
struct Sent { Src src; Walk w; vec<u8> f, init; };
bool model_frame(const Compiled& k, const Src& opts, Sent& o, int tries = 6);
// Runs the real encoder over recorded values into len bytes; "" or what differs from the model
str run_encode(const Compiled& k, Src& src, const vec<u8>& init, vec<u8>* out, Walk* wout, u64 rawseed = 0, cnd_vm_ctx* reuse = nullptr);
vec<u8> noise(size_t n);
// What the receiver must see of what was sent (independent of the decoder's model): "" or difference
str same_values(const Walk& sent, const Walk& got);
extern u64 g_perturb;                                  // nonzero: the host's remembered values change while it runs
u64 perturbed(u64 v, size_t at, const str& key);
// Runs the real engine against the expectation; "" or what differs
struct Exact { u8* p; size_t n; Exact(const void* d, size_t n_); Exact(const vec<u8>& v) : Exact(v.data(), v.size()) {} ~Exact(); };
str check_run(const Walk& w, Host& h, const VmRes& r, const u8* mem, const vec<u8>& init, size_t len);
str run_decode(const Schema& s, const cnd_program* p, const vec<u8>& frame, Walk* wout, u64 rawseed = 0, cnd_vm_ctx* reuse = nullptr);
str errname(int e);
str ev_str(const Event& e);
struct Compiled { Schema s; str text; str img; std::shared_ptr<Image> im; };
// Random schema accepted by the real compiler (a refusal is itself a violation of class "compile")
Compiled make_schema(const Cfg& c, bool must = true);
