// C20: the Go binding sees what the engine does. The runs of the real engine are recorded callback by callback, then
// replayed by goroutines through the real binding in a child process (gosim), interleaved at callbacks by a seeded scheduler.
#include "../walk.hpp"
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/wait.h>
extern "C" cnd_error_t cnd_program_load_il(cnd_program*, const uint8_t*, size_t);
namespace {
struct Out { str b; void u8_(u8 v) { b += (char)v; } void u32_(u32 v) { b.append((char*)&v, 4); } void u64_(u64 v) { b.append((char*)&v, 8); } void by(const str& s) { u32_((u32)s.size()); b += s; } };
enum { K_NONE, K_SCALAR, K_STR, K_RAW };
struct Rec { u16 key; u8 op, kind = K_NONE, size = 0, alt = 0; bool give = false, fail = false; u64 in = 0, out = 0; str s; int nested = -1; };
struct Job { u32 prog; u8 mode; i64 shared = -1; str data, final; u32 code = 0; i64 panicAt = -1; bool oneshot = false, oom = false; vec<Rec> ev; };
struct Child { pid_t pid = 0; int in = -1, out = -1; FILE* err = nullptr; } ch;
void child_end() { if (!ch.pid) return; kill(ch.pid, SIGKILL); int st; waitpid(ch.pid, &st, 0); close(ch.in); close(ch.out); ch.pid = 0; }
void child_start() {
    signal(SIGPIPE, SIG_IGN);
    char self[512]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; str exe(self); exe = exe.substr(0, exe.rfind('/')) + "/gosim";
    int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); _exit(3); }
    if (!ch.err) ch.err = tmpfile(); else { rewind(ch.err); if (ftruncate(fileno(ch.err), 0)) {} }
    pid_t parent = getpid(); (void)parent;
    ch.pid = fork();
    if (!ch.pid) { dup2(a[0], 0); dup2(b[1], 1); dup2(fileno(ch.err), 2); setenv("GODEBUG", "clobberfree=1", 1); setenv("GOMAXPROCS", "2", 1); execl(exe.c_str(), "gosim", (char*)0); perror("gosim"); _exit(127); }
    close(a[0]); close(b[1]); ch.in = a[1]; ch.out = b[0];
}
str child_err() { fflush(ch.err); long n = ftell(ch.err); (void)n; char buf[3001]; ssize_t k = pread(fileno(ch.err), buf, 3000, 0); buf[k > 0 ? k : 0] = 0; str s(buf); return s; }
struct Reply { u64 hash; u32 sw, calls; i64 left; str bad; };
bool child_read(void* p, size_t n) {
    u8* q = (u8*)p;
    while (n) { pollfd f{ch.out, POLLIN, 0}; int r = poll(&f, 1, 60000); if (r == 0) { child_end(); violate("hang:go", "the Go program did not end"); } ssize_t k = read(ch.out, q, n); if (k <= 0) return false; q += k; n -= (size_t)k; }
    return true;
}
Reply child(const str& script) {
    if (!ch.pid) child_start();
    u32 n = (u32)script.size(); bool ok = write(ch.in, &n, 4) == 4; size_t at = 0;
    while (ok && at < script.size()) { ssize_t k = write(ch.in, script.data() + at, script.size() - at); if (k <= 0) ok = false; else at += (size_t)k; }
    Reply r; u8 h[28]; if (ok) ok = child_read(h, 28);
    if (ok) { u32 bl; memcpy(&bl, h, 4); memcpy(&r.hash, h + 4, 8); memcpy(&r.sw, h + 12, 4); memcpy(&r.calls, h + 16, 4); memcpy(&r.left, h + 20, 8); r.bad.resize(bl); if (bl) ok = child_read(&r.bad[0], bl); }
    if (!ok) { str e = child_err(); child_end(); violate("crash:go", "the Go program died:\n" + e); }
    return r;
}
// records one engine run: forwards to the model's host (if any) and notes what it was given and gave
struct Tap { Host* h; vec<Rec>* ev; u8* lo; size_t len; std::function<u64(u8, u16)> free_host; i64 fail_at = -1; u64 calls = 0; bool failed = false; u64 after = 0; };
cnd_error_t tap_cb(cnd_vm_ctx* ctx, u16 key, u8 op, void* ptr) {
    Tap& t = *(Tap*)ctx->user_ptr; Rec r; r.key = key; r.op = op; bool enc = ctx->mode == CND_MODE_ENCODE; u64 n = t.calls++;
    bool query = op == OP_LOAD_CTX || op == OP_CTX_QUERY, strop = op >= OP_STR_NULL && op <= OP_STR_PRE_U32;
    r.give = query || (enc && op != OP_ARR_FIXED && op != OP_ARR_DYNAMIC && op != OP_STORE_CTX);
    size_t sz = ptr_size(op) > 0 ? (size_t)ptr_size(op) : 0;
    if (!ptr) r.kind = K_NONE;
    else if (op == OP_RAW_BYTES) r.kind = K_RAW;
    else if (strop) r.kind = K_STR;
    else if (sz) { r.kind = K_SCALAR; r.size = (u8)sz; if (!r.give) memcpy(&r.in, ptr, sz); }
    else { r.kind = K_NONE; }
    cnd_error_t e = CND_ERR_OK;
    if (t.h) {
        size_t before = t.h->at; ctx->user_ptr = t.h; e = host_cb(ctx, key, op, ptr); ctx->user_ptr = &t;
        if (strop && !enc && t.h->at > 0) r.s = t.h->w->ev[t.h->at - 1].s;
        if (op == OP_RAW_BYTES && !e) r.s.assign((char*)ptr, t.h->at - before - 1);
    } else {
        if (t.fail_at == (i64)n) { t.failed = true; e = CND_ERR_CALLBACK; }
        else if (r.kind == K_SCALAR && r.give) { u64 v = t.free_host(op, key); memcpy(ptr, &v, sz); }
        else if (r.kind == K_STR && enc) { static const char* c[] = {"", "a", "some text", "caf\xc3\xa9"}; const char* s = c[t.free_host(op, key) & 3]; memcpy(ptr, &s, sizeof s); }
        else if (r.kind == K_STR) {
            const u8* p = (const u8*)ptr; size_t L = 0; bool le = ctx->endianness == CND_LE;
            if (op == OP_STR_NULL) L = strlen((const char*)p); else { size_t w = op == OP_STR_PRE_U8 ? 1 : op == OP_STR_PRE_U16 ? 2 : 4; for (size_t i = 0; i < w; i++) L = L << 8 | p[le ? -1 - (int)i : -(int)w + (int)i]; }
            r.s.assign((const char*)p, L);
        }
        else if (op == OP_RAW_BYTES) e = CND_ERR_CALLBACK;
    }
    r.fail = e != CND_ERR_OK;
    if (!r.fail && r.give && r.kind == K_SCALAR) memcpy(&r.out, ptr, sz);
    if (!r.fail && r.give && r.kind == K_STR) { const char* c; memcpy(&c, ptr, sizeof c); r.s = c; }
    if (r.fail && r.kind == K_STR) r.kind = K_NONE;
    if (r.fail && r.give) { r.kind = r.kind == K_SCALAR ? (u8)K_NONE : r.kind; r.give = false; if (r.kind == K_RAW) r.kind = K_NONE; }
    if (r.fail && r.kind == K_RAW) r.kind = K_NONE;
    r.alt = (u8)0; t.ev->push_back(r); return e;
}
void decorate(Job& j) { // how the Go host reads and writes, and where it pauses
    Fill f(draw64()); u8 pace = (u8)draw(4);
    for (auto& r : j.ev) { u8 x = f(); r.alt = (u8)((x & 3) | ((f() & 7) < pace ? 4 : 0) | ((f() & 7) < pace ? 8 : 0) | (f() < 40 ? 16 : 0)); }
}
Job record(u32 prog, const Compiled& k, bool enc) {
    Job j; j.prog = prog; j.mode = enc ? (u8)CND_MODE_ENCODE : (u8)CND_MODE_DECODE;
    Src o; o.longstr = draw(16) == 0; o.maxcount = (int)drawr(1, 5); o.optfail = draw(2); o.illegal = enc && draw(5) == 0; Sent s; Walk w; vec<u8> init;
    if (enc) {
        Src src = o; w = walk_encode(k.s, src, {}, 0, true); size_t room = w.err ? w.buf.size() : w.end; if (draw(4) == 0) room = (size_t)draw(room + 1), fault_hit("buffer too small"); else if (draw(3) == 0) room += (size_t)draw(6);
        init = noise(room); src.replay = true; w = walk_encode(k.s, src, init, room, false);
    } else {
        o.illegal = false; if (!model_frame(k, o, s)) { j.prog = ~0u; return j; }
        init = s.f;
        switch (draw(4)) {
            case 0: if (!init.empty()) { init.resize((size_t)draw(init.size())); fault_hit("frame cut"); } break;
            case 1: if (!init.empty()) { for (int q = 0; q < 3; q++) init[draw(init.size())] ^= (u8)(1u << draw(8)); fault_hit("frame damaged"); } break;
        }
        w = walk_decode(k.s, init.data(), init.size());
    }
    if (w.unsure) { j.prog = ~0u; return j; }
    Exact e(init); Host h(w, &k.im->prog); h.buf = e.p; h.len = e.n; h.rawseed = draw64(); Tap t; t.h = &h; t.ev = &j.ev; t.lo = e.p; t.len = e.n;
    if (draw(4) == 0) { h.fail_at = (i64)draw(w.ev.size() + 2); }
    VmRes r = vm_exec(&k.im->prog, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, e.p, e.n, tap_cb, &t);
    if (r.how != RETURNED || !h.bad.empty()) { j.prog = ~0u; return j; }   // the engine's own properties are checked elsewhere
    j.data.assign((char*)init.data(), init.size()); j.final.assign((char*)e.p, e.n); j.code = (u32)r.err; j.oneshot = draw(3) == 0;
    if (h.after_fail) j.prog = ~0u;                      // an optional string withheld: the host's model stops there
    if (r.err) count("engine errors passed on"); decorate(j); return j;
}
// a few raw opcodes, without an image around them
str raw_program() { static const u8 ops[] = {OP_IO_U8, OP_IO_U16, OP_IO_U32, OP_IO_U64, OP_IO_I8, OP_IO_I16, OP_IO_F32, OP_IO_F64, OP_IO_BOOL, OP_SET_ENDIAN_BE, OP_SET_ENDIAN_LE, OP_STR_PRE_U8, OP_NOOP};
    str s; int n = (int)drawr(1, 8); for (int i = 0; i < n; i++) { u8 op = ops[draw(sizeof ops)]; s += (char)op; if (op != OP_SET_ENDIAN_BE && op != OP_SET_ENDIAN_LE && op != OP_NOOP) { s += (char)draw(4); s += (char)0; } if (op == OP_STR_PRE_U8) { s += (char)draw(12); } }
    if (draw(6) == 0) { s += (char)(0xEE); } return s; }
void run() {
    Out o; o.u64_(draw64()); o.u32_((u32)(draw(2) ? 0 : drawr(1, 12))); o.u8_((u8)draw(256));
    o.u32_(9); for (u32 i = 0; i <= 8; i++) { o.u32_(i); o.by(cnd_error_string((cnd_error_t)i)); }
    vec<Compiled> ks; int np = (int)drawr(1, 3); for (int i = 0; i < np; i++) { Cfg c = swarm(); c.huge = true; ks.push_back(make_schema(c)); }
    struct P { str img; u32 code; vec<std::pair<u8, std::pair<u32, str>>> probes; }; vec<P> progs; vec<Job> jobs; vec<str> shared; vec<bool> top; vec<u8> sharedro;
    for (auto& k : ks) {
        P p{k.img, 0, {}};
        for (u32 q = 0; q < 6; q++) { u32 id = q < 4 ? (u32)draw(k.im->prog.string_count + 2) : draw(2) ? 0xFFFF : (u32)draw(65536); const char* n = cnd_get_key_name(&k.im->prog, (u16)id); p.probes.push_back({0, {id, n ? n : ""}}); }
        for (u32 q = 0; q < 4; q++) { const char* n = q < 3 && k.im->prog.string_count ? cnd_get_key_name(&k.im->prog, (u16)draw(k.im->prog.string_count)) : nullptr; str nm = n ? n : "no such key"; if (q == 2) nm += "x"; p.probes.push_back({1, {cnd_get_key_id(&k.im->prog, nm.c_str()), nm}}); }
        progs.push_back(p);
    }
    int damaged = (int)draw(4);
    for (int i = 0; i < damaged; i++) { // images the loader refuses (or accepts): same verdict
        str b = ks[draw(ks.size())].img; size_t cut = 5 + (size_t)draw(b.size() - 5);
        if (draw(2)) { b.resize(draw(2) ? cut : 5 + (size_t)draw(16)); fault_hit("image cut"); } else { for (int q = 0; q < 2; q++) b[5 + draw(b.size() - 5)] ^= (char)(1u << draw(8)); fault_hit("image damaged"); }
        cnd_program pr; memset(&pr, 0, sizeof pr); std::shared_ptr<u8> m((u8*)malloc(b.size()), free); memcpy(m.get(), b.data(), b.size());
        cnd_error_t e = cnd_program_load_il(&pr, m.get(), b.size()); progs.push_back({b, (u32)e, {}}); if (e) count("images refused");
    }
    int want = (int)drawr(1, 8); u64 events = 0; bool fails = false, panics = false, nest = false;
    for (int i = 0; i < want; i++) {
        u32 k = (u32)draw(ks.size()); Job j = record(k, ks[k], draw(2)); if (j.prog == ~0u) continue;
        if (j.mode == (u8)CND_MODE_DECODE && draw(3) == 0) { // the caller's bytes are shared with others, or read-only
            j.shared = (i64)shared.size(); shared.push_back(j.data); bool ro = draw(2); sharedro.push_back(ro); fault_hit(ro ? "frame in read-only memory" : "frame shared by goroutines");
        }
        jobs.push_back(j); top.push_back(true);
        if (j.shared >= 0 && draw(2)) { Job j2 = j; decorate(j2); jobs.push_back(j2); top.push_back(true); }
    }
    if (draw(4) == 0) { // raw bytecode
        str code = raw_program(); Job j; j.prog = (u32)progs.size(); progs.push_back({code, 0, {}}); bool enc = draw(2); j.mode = enc ? (u8)CND_MODE_ENCODE : (u8)CND_MODE_DECODE;
        vec<u8> init = noise((size_t)draw(40)); Exact e(init); std::shared_ptr<u8> m((u8*)malloc(code.size()), free); memcpy(m.get(), code.data(), code.size());
        cnd_program pr; memset(&pr, 0, sizeof pr); pr.bytecode = m.get(); pr.bytecode_len = code.size(); u64 fs = draw64(); Fill f(fs);
        Tap t; t.h = nullptr; t.ev = &j.ev; t.lo = e.p; t.len = e.n; t.free_host = [&](u8, u16) { u64 v = 0; for (int q = 0; q < 8; q++) v = v << 8 | f(); return v; }; if (draw(3) == 0) t.fail_at = (i64)draw(6);
        VmRes r = vm_exec(&pr, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, e.p, e.n, tap_cb, &t);
        if (r.how == RETURNED) { j.data.assign((char*)init.data(), init.size()); j.final.assign((char*)e.p, e.n); j.code = (u32)r.err; decorate(j); jobs.push_back(j); top.push_back(true); count("raw bytecode programs"); }
    }
    if (jobs.empty()) return;
    size_t n0 = jobs.size(); std::set<size_t> nested;
    for (size_t i = 0; i < n0; i++) if (!jobs[i].ev.empty()) {
        Job& j = jobs[i];
        if (draw(6) == 0) { j.panicAt = (i64)draw(j.ev.size()); panics = true; fault_hit("callback panics"); }
        if (draw(10) == 0) { j.oom = true; fault_hit("allocation failure"); }
        if (n0 > 1 && draw(5) == 0) { size_t q = i + 1 + draw(n0 - i); if (q < n0 && !nested.count(q) && !j.oom) { j.ev[draw(j.ev.size())].nested = (int)q; nested.insert(q); nest = true; fault_hit("engine used inside a callback"); } }
        for (auto& r : j.ev) if (r.fail) fails = true;
        events += j.ev.size();
    }
    if (fails) fault_hit("callback failure");
    int ng = (int)drawr(1, 5); vec<vec<u32>> g((size_t)ng); for (size_t i = 0; i < n0; i++) if (!nested.count(i)) { int reps = draw(5) == 0 ? 2 : 1; if (jobs[i].mode == (u8)CND_MODE_ENCODE || jobs[i].panicAt >= 0 || jobs[i].oom) reps = 1; size_t a = draw((u64)ng); for (int q = 0; q < reps; q++) g[a].push_back((u32)i); }
    o.u32_((u32)progs.size()); for (auto& p : progs) { o.by(p.img); o.u32_(p.code); o.u32_((u32)p.probes.size()); for (auto& q : p.probes) { o.u8_(q.first); o.u32_(q.second.first); o.by(q.second.second); } }
    o.u32_((u32)shared.size()); for (size_t i = 0; i < shared.size(); i++) { o.by(shared[i]); o.u8_(sharedro[i]); }
    o.u32_((u32)jobs.size());
    for (auto& j : jobs) {
        o.u32_(j.prog); o.u8_(j.mode); o.u32_((u32)(int)j.shared); o.by(j.data); o.by(j.final); o.u32_(j.code); o.u32_((u32)(int)j.panicAt); o.u8_(j.oneshot); o.u8_(j.oom); o.u32_((u32)j.ev.size());
        for (auto& r : j.ev) { o.u32_(r.key); o.u8_(r.op); o.u8_(r.kind); o.u8_(r.size); o.u8_(r.give); o.u8_(r.fail); o.u8_(r.alt); o.u64_(r.in); o.u64_(r.out); o.by(r.s); o.u32_((u32)r.nested); }
    }
    o.u32_((u32)g.size()); for (auto& q : g) { o.u32_((u32)q.size()); for (u32 x : q) o.u32_(x); }
    i64 again = -1; { vec<size_t> can; for (size_t i = 0; i < n0; i++) { bool ok = !jobs[i].ev.empty(); for (auto& x : jobs[i].ev) if (x.nested >= 0) ok = false; if (ok) can.push_back(i); } if (!can.empty() && draw(2)) { again = (i64)pick(can); count("runs repeated to find what they hold on to"); } } o.u32_((u32)(int)again);
    str texts; for (auto& k : ks) texts += k.text + "\n----\n";
    auto go = [&]() { Reply r = child(o.b); if (r.bad.compare(0, 8, "harness:") == 0) { fprintf(stderr, "%s\n", r.bad.c_str()); _exit(3); } if (!r.bad.empty()) violate("go", r.bad + "\n" + texts); return r; };
    Reply r = go();
    if (r.left > 0) { int grow = 0; i64 last = r.left; for (int q = 0; q < 3; q++) { Reply x = go(); if (x.left > 0) grow++; last = x.left; } if (grow == 3) violate("leak", strf("every run of this script leaves %lld blocks allocated by the binding\n", (long long)last) + texts); }
    ev("go: %u calls, %u switches, order %016llx", r.calls, r.sw, (unsigned long long)r.hash);
    evh(r.hash); evh(r.calls); count("goroutine switches", r.sw); count("callbacks in Go", r.calls); count("goroutines", (u64)ng); (void)events; (void)panics; (void)nest;
    g_path ^= r.hash; if (g_sample.empty()) g_sample = strf("%zu jobs on %d goroutines, %u callbacks, %u switches: ", jobs.size(), ng, r.calls, r.sw) + schema_brief(ks[0].s).substr(0, 200);
    g_nontrivial = r.calls > 0; g_distinct = r.hash ^ std::hash<str>()(o.b);
}
}
static Reg r("C20", run, "at least one callback ran in Go; distinct = script (programs x frames x recorded events x faults) x order of goroutines");
