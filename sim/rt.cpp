#include "rt.hpp"
#include <cstdarg>
#include <ucontext.h>
#include <climits>
#include <cerrno>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/allocator_interface.h>

Bulk* g_bulk; Tape T; Stats ST; bool g_trace = false; u64 g_hash, g_path; str g_sample; bool g_nontrivial; u64 g_distinct;
u64 g_steps, g_budget = ~0ull; u32 g_nguards; u8 g_edges[1 << 17];
Disk D; Proc* P = nullptr; u64 g_alloc_calls, g_io_calls, g_low = ~0ull;
const char* FsOpName[] = {"open-read", "open-write", "read", "write", "close", "seek", "tell"};
vec<Prop>& props() { static vec<Prop> v; return v; }
std::map<str, bool (*)()>& probes() { static std::map<str, bool (*)()> m; return m; }

u64 Tape::raw(u64 n) {
    u64 v;
    if (replaying) { v = at < play.size() ? play[at] : 0; at++; if (n) v %= n; }
    else { v = prng(); if (n) v %= n; }
    if (*rec_n < cap) rec[(*rec_n)++] = v;
    else if (!replaying) { violate("harness:tape", "tape full"); }
    return v;
}
void violate(const str& cls, const str& msg) { throw Violation{cls, msg}; }

static void hmix(u64& h, u64 x) { h ^= x; h *= 0x100000001b3ull; h ^= h >> 29; }
void evh(u64 x) { hmix(g_hash, x); }
str strf(const char* fmt, ...) {
    va_list ap, aq; va_start(ap, fmt); va_copy(aq, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap); va_end(ap);
    str s((size_t)n, 0); vsnprintf(&s[0], (size_t)n + 1, fmt, aq); va_end(aq); return s;
}
void ev(const char* fmt, ...) {
    char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n >= (int)sizeof b) n = sizeof b - 1;
    for (int i = 0; i < n; i++) hmix(g_hash, (u8)b[i]);
    if (g_trace) printf("  %s\n", b);
}
str hex(const void* p, size_t n, size_t max) {
    str s; const u8* b = (const u8*)p; char t[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 4, "%02x", b[i]); s += t; }
    if (n > max) s += "..";
    return s;
}

// ---------------------------------------------------------------- guarded execution
static sigjmp_buf* g_jmp; static int g_jcode; static Ended g_jhow;
static bool g_counting;
struct FiberRt {
    ucontext_t ctx; void* stack = nullptr; size_t size = 0; bool done = false; std::function<void()> body; void* fake = nullptr; bool over = false;
};
static vec<FiberRt>* g_fibs; static int g_cur = -1; static ucontext_t g_main; static void* g_main_fake; static const void* g_main_stack; static size_t g_main_size;
static u64 g_next_switch = ~0ull; static u64 g_avg; static bool g_fiber_over;
static void to_main();

Budget::Budget(u64 n) : old(g_budget) { g_budget = g_steps + n; g_counting = true; }
Budget::~Budget() { g_budget = old; }

static void finish(Ended how, int code) {
    if (g_cur >= 0) { // inside a fiber: give up this fiber
        (*g_fibs)[(size_t)g_cur].over = how == BUDGET; (*g_fibs)[(size_t)g_cur].done = true; if (how == BUDGET) g_fiber_over = true;
        to_main(); __builtin_unreachable();
    }
    if (!g_jmp) { fprintf(stderr, "exit outside guarded code\n"); abort(); }
    g_jhow = how; g_jcode = code;
    __asan_handle_no_return();
    siglongjmp(*g_jmp, 1);
}
void sim_kill_here() { finish(KILLED, 137); abort(); }

Run guarded(u64 budget, const std::function<int()>& f) {
    sigjmp_buf jb; sigjmp_buf* oldj = g_jmp; u64 start = g_steps, oldb = g_budget;
    volatile Ended how = RETURNED; volatile int code = 0;
    g_budget = g_steps + budget; g_jmp = &jb; bool oc = g_counting; g_counting = true;
    if (sigsetjmp(jb, 0) == 0) code = f();
    else { how = g_jhow; code = g_jcode; }
    g_jmp = oldj; g_budget = oldb; g_counting = oc;
    ST.steps += g_steps - start;
    return Run{how, code, g_steps - start};
}

extern "C" void __sanitizer_cov_trace_pc_guard_init(u32* a, u32* b) {
    if (a == b || *a) return;
    for (u32* x = a; x < b; x++) *x = ++g_nguards;

}
static void switch_to(int i);
extern "C" void __sanitizer_cov_trace_pc_guard(u32* g) {
    if (!*g) return;
    g_edges[*g] = 1;
    g_steps++;
    { u64 at = (u64)__builtin_frame_address(0); if (at < g_low) g_low = at; }
    if (g_steps >= g_budget && g_counting) finish(BUDGET, 0);
    if (g_steps >= g_next_switch && g_cur >= 0) fiber_yield();
}

// ---------------------------------------------------------------- fibers
bool in_fiber() { return g_cur >= 0; }
static void arm() { g_next_switch = g_avg ? g_steps + 1 + draw(2 * g_avg) : ~0ull; }
static void fiber_main() {
    __sanitizer_finish_switch_fiber(nullptr, &g_main_stack, &g_main_size);
    (*g_fibs)[(size_t)g_cur].body();
    (*g_fibs)[(size_t)g_cur].done = true;
    to_main();
}
static void to_main() {
    FiberRt& f = (*g_fibs)[(size_t)g_cur];
    __sanitizer_start_switch_fiber(f.done ? nullptr : &f.fake, g_main_stack, g_main_size);
    g_cur = -1;
    swapcontext(&f.ctx, &g_main);
    __sanitizer_finish_switch_fiber(f.fake, &g_main_stack, &g_main_size);
}
static void switch_to(int i) { // from main
    FiberRt& f = (*g_fibs)[(size_t)i];
    g_cur = i;
    __sanitizer_start_switch_fiber(&g_main_fake, f.stack, f.size);
    swapcontext(&g_main, &f.ctx);
    __sanitizer_finish_switch_fiber(g_main_fake, nullptr, nullptr);
}
void fiber_yield() { if (g_cur >= 0) to_main(); }
static vec<void*> g_stacks; static const size_t STK = 1 << 20;
bool Fibers::run(u64 budget, u64 avg) {
    vec<FiberRt> fs(bodies.size()); g_fibs = &fs; g_avg = avg; g_fiber_over = false;
    while (g_stacks.size() < fs.size()) g_stacks.push_back(mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    for (size_t i = 0; i < fs.size(); i++) {
        fs[i].stack = g_stacks[i]; fs[i].size = STK; fs[i].body = bodies[i];
        __asan_unpoison_memory_region(fs[i].stack, STK);
        getcontext(&fs[i].ctx); fs[i].ctx.uc_stack.ss_sp = fs[i].stack; fs[i].ctx.uc_stack.ss_size = STK; fs[i].ctx.uc_link = nullptr;
        makecontext(&fs[i].ctx, (void (*)())fiber_main, 0);
    }
    u64 oldb = g_budget, start = g_steps; g_budget = g_steps + budget; bool oc = g_counting; g_counting = true;
    vec<int> live; for (size_t i = 0; i < fs.size(); i++) live.push_back((int)i);
    int last = -1;
    while (!live.empty()) {
        size_t k = (size_t)draw(live.size()); int i = live[k];
        if (i != last) { switches++; hmix(g_path, (u64)i * 1000003 + (g_steps - start)); hmix(g_hash, (u64)i + (g_steps - start) * 31); }
        last = i;
        arm(); switch_to(i);
        if (fs[(size_t)i].done) live.erase(live.begin() + (long)k);
    }
    g_next_switch = ~0ull; g_budget = oldb; g_counting = oc; g_fibs = nullptr; ST.steps += g_steps - start;
    return !g_fiber_over;
}

// ---------------------------------------------------------------- globals of the real code
extern "C" { extern char __start_repo_data[] __attribute__((weak)), __stop_repo_data[] __attribute__((weak)), __start_repo_bss[] __attribute__((weak)), __stop_repo_bss[] __attribute__((weak)); }
static vec<char> snap_d, snap_b;
__attribute__((no_sanitize("address"))) static void rawcpy(volatile char* d, volatile char* s, size_t n) {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) *(volatile u64*)(d + i) = *(volatile u64*)(s + i);
    for (; i < n; i++) d[i] = s[i];
}
void globals_snapshot() {
    size_t n = (size_t)(__stop_repo_data - __start_repo_data), m = (size_t)(__stop_repo_bss - __start_repo_bss);
    snap_d.resize(n + 1); snap_b.resize(m + 1);
    if (n) rawcpy(snap_d.data(), __start_repo_data, n);
    if (m) rawcpy(snap_b.data(), __start_repo_bss, m);
}
void globals_reset() {
    size_t n = (size_t)(__stop_repo_data - __start_repo_data), m = (size_t)(__stop_repo_bss - __start_repo_bss);
    if (n) rawcpy(__start_repo_data, snap_d.data(), n);
    if (m) rawcpy(__start_repo_bss, snap_b.data(), m);
}

// ---------------------------------------------------------------- heap
static std::set<void*> g_heap;
void heap_release() { for (void* p : g_heap) free(p); g_heap.clear(); }
u64 heap_live() { return g_heap.size(); }
extern "C" {
void* sim_malloc(size_t n) {
    g_alloc_calls++;
    if (n > (1u << 30)) return nullptr;
    void* p = malloc(n ? n : 1); if (!p) return nullptr;
    memset(p, P ? P->poison : 0xA5, n);
    g_heap.insert(p); return p;
}
void* sim_calloc(size_t a, size_t b) {
    if (b && a > SIZE_MAX / b) return nullptr;
    void* p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void sim_free(void* p) { g_alloc_calls++; if (!p) return; if (g_heap.count(p)) { g_heap.erase(p); } free(p); }
void* sim_realloc(void* p, size_t n) {
    if (!p) return sim_malloc(n);
    g_alloc_calls++;
    if (n > (1u << 30)) return nullptr;
    size_t old = __sanitizer_get_allocated_size(p);
    void* q = malloc(n ? n : 1); memset(q, P ? P->poison : 0xA5, n);
    memcpy(q, p, old < n ? old : n);
    g_heap.erase(p); free(p); g_heap.insert(q); return q;
}
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); memcpy(p, s, n); return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)sim_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
int sim_vasprintf(char** o, const char* f, va_list ap) {
    va_list aq; va_copy(aq, ap); int n = vsnprintf(nullptr, 0, f, aq); va_end(aq);
    *o = (char*)sim_malloc((size_t)n + 1); return vsnprintf(*o, (size_t)n + 1, f, ap);
}
int sim_asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(o, f, ap); va_end(ap); return n; }
}

// ---------------------------------------------------------------- disk
static vec<str> split(const str& p) {
    vec<str> v; str c;
    for (char ch : p) { if (ch == '/') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; }
    if (!c.empty()) v.push_back(c);
    return v;
}
str norm_path(const str& cwd, const str& p, bool* ok) {
    if (ok) *ok = true;
    if (p.empty()) { if (ok) *ok = false; return ""; }
    vec<str> todo = split(p[0] == '/' ? p : cwd + "/" + p), out;
    int hops = 0;
    for (size_t i = 0; i < todo.size(); i++) {
        str c = todo[i];
        if (c == ".") continue;
        if (c == "..") { if (!out.empty()) out.pop_back(); continue; }
        out.push_back(c);
        str cur; for (auto& x : out) cur += "/" + x;
        auto l = D.links.find(cur);
        if (l != D.links.end() && hops++ < 16) {
            vec<str> rest(todo.begin() + (long)i + 1, todo.end());
            out.pop_back();
            vec<str> base; if (l->second[0] != '/') base = out;
            out.clear(); vec<str> t2 = base; for (auto& x : split(l->second)) t2.push_back(x);
            for (auto& x : rest) t2.push_back(x);
            todo = t2; i = (size_t)-1; continue;
        }
        if (i + 1 < todo.size() && ok) { auto it = D.f.find(cur); if (it == D.f.end() || !it->second.dir) *ok = false; }
    }
    str r; for (auto& x : out) r += "/" + x;
    return r.empty() ? "/" : r;
}
void Disk::mkdirs(const str& p) {
    f["/"].dir = true; str cur; auto v = split(p);
    for (size_t i = 0; i + 1 < v.size(); i++) { cur += "/" + v[i]; f[cur].dir = true; }
}

// ---------------------------------------------------------------- stdio
struct sim_file {
    int kind = 0;                      // 0 disk, 1 stdin, 2 stdout, 3 stderr
    str path; bool rd = false, wr = false, app = false, isdir = false;
    str buf;                           // pending output
    size_t pos = 0; str rbuf; size_t rat = 0; // position on disk; read-ahead
    bool eof = false, err = false, unbuf = false; int unget = -1; bool open = true; bool ownmem = false;
};
typedef sim_file SF;
static SF s_in, s_out, s_err; static vec<SF*> g_files;
extern "C" { SF *sim_stdin_ = &s_in, *sim_stdout_ = &s_out, *sim_stderr_ = &s_err; }

static bool fault(int op, const str& path, int* kind) {
    P->ops[FsOpName[op]]++; g_io_calls++;
    if (!P->fp.armed) return false;
    int n = P->fp.seen[op]++;
    for (auto& o : P->fp.v) {
        if (o.op != op || o.nth != n) continue;
        if (!o.path.empty() && path.find(o.path) == str::npos) continue;
        if (o.kind == 2) { fault_hit(strf("kill at %s", FsOpName[op])); ev("fault: process killed at %s #%d of %s", FsOpName[op], n, path.c_str()); P->fp.hits.push_back(op); sim_kill_here(); }
        fault_hit(strf("%s %s", FsOpName[op], o.kind ? "short" : "error")); ev("fault: %s #%d of %s %s", FsOpName[op], n, path.c_str(), o.kind ? "short" : "fails");
        P->fp.hits.push_back(op); *kind = o.kind; return true;
    }
    return false;
}
// write(2): returns bytes that reached the file
static size_t dev_write(SF* f, const char* d, size_t n) {
    if (f->kind == 2 || f->kind == 3) {
        g_io_calls++;
        str& o = f->kind == 2 ? P->out : P->err;
        if (f->kind == 2 && o.size() + n > P->out_fail_after) { size_t k = P->out_fail_after > o.size() ? P->out_fail_after - o.size() : 0; o.append(d, k); fault_hit("stdout write error"); errno = EPIPE; return k; }
        o.append(d, n); return n;
    }
    int k; size_t room = n;
    if (fault(F_WRITE, f->path, &k)) { room = k ? n / 2 : 0; errno = EIO; }
    u64 used = D.used(); FNode& fn = D.f[f->path];
    size_t grow = f->pos + n > fn.data.size() ? f->pos + n - fn.data.size() : 0;
    if (D.capacity != ~0ull && used + grow > D.capacity) { u64 fr = D.capacity > used ? D.capacity - used : 0; if (fr < room) { room = fr; fault_hit("disk full"); ev("fault: disk full writing %s", f->path.c_str()); P->fp.hits.push_back(F_WRITE); } errno = ENOSPC; }
    if (f->app) f->pos = fn.data.size();
    if (fn.data.size() < f->pos + room) fn.data.resize(f->pos + room, 0);
    memcpy(&fn.data[f->pos], d, room); f->pos += room;
    return room;
}
static bool flush(SF* f) {
    if (f->buf.empty()) return true;
    size_t n = dev_write(f, f->buf.data(), f->buf.size()); bool ok = n == f->buf.size();
    f->buf.clear(); if (!ok) f->err = true; return ok;
}
// read(2)
static long dev_read(SF* f, char* d, size_t n) {
    if (f->kind == 1) {
        g_io_calls++;
        while (P->in_gate < P->in_gates.size() && P->in_gates[P->in_gate].first <= P->in_at) P->in_gates[P->in_gate++].second();
        size_t left = (P->in_gate < P->in_gates.size() ? std::min(P->in_gates[P->in_gate].first, P->in.size()) : P->in.size()) - P->in_at;
        if (!left) { if (P->in_err) { errno = EIO; return -1; } return 0; }
        if (n > left) n = left;
        if (P->in_frag) { Fill x(P->in_frag + P->in_at * 0x9E3779B97F4A7C15ull); x(); size_t m = (size_t)(x() % 7 == 0 ? 1 + x() % 200 : 1 + x() % 9); if (n > m) { n = m; fault_hit("fragmented input"); } }
        memcpy(d, P->in.data() + P->in_at, n); P->in_at += n; return (long)n;
    }
    int k; 
    if (f->isdir) { errno = EISDIR; g_io_calls++; return -1; }
    FNode& fn = D.f[f->path]; size_t left = f->pos < fn.data.size() ? fn.data.size() - f->pos : 0;
    if (fault(F_READ, f->path, &k)) {
        if (k == 0 || f->pos > 0 || left < 2) { errno = EIO; return -1; }
        n = std::min(n, left / 2); // some bytes arrive, the next read fails
        P->fp.v.push_back({F_READ, P->fp.seen[F_READ], 0, f->path});
    }
    if (n > left) n = left;
    memcpy(d, fn.data.data() + f->pos, n); f->pos += n; return (long)n;
}
static bool refill(SF* f) {
    if (f->rat < f->rbuf.size()) return true;
    char b[4096]; long n = dev_read(f, b, sizeof b);
    if (n < 0) { f->err = true; return false; }
    if (n == 0) { f->eof = true; return false; }
    f->rbuf.assign(b, (size_t)n); f->rat = 0; return true;
}
extern "C" {
SF* sim_fopen(const char* path, const char* mode) {
    bool ok; str p = norm_path(P->cwd, path, &ok); int k;
    bool w = mode[0] == 'w' || mode[0] == 'a';
    if (fault(w ? F_OPENW : F_OPENR, p, &k)) { errno = EACCES; return nullptr; }
    auto it = D.f.find(p);
    if (!ok) { errno = ENOENT; return nullptr; }
    if (!w && it == D.f.end()) { errno = ENOENT; return nullptr; }
    if (w && it != D.f.end() && it->second.dir) { errno = EISDIR; return nullptr; }
    if (w) { size_t sl = p.rfind('/'); str par = sl == 0 ? "/" : p.substr(0, sl); auto d = D.f.find(par); if (par != "/" && (d == D.f.end() || !d->second.dir)) { errno = ENOENT; return nullptr; } }
    SF* f = new SF; f->path = p; f->rd = !w || strchr(mode, '+'); f->wr = w || strchr(mode, '+');
    if (it != D.f.end() && it->second.dir) f->isdir = true;
    if (mode[0] == 'w') { D.f[p].data.clear(); P->opened_for_write = true; P->wrote.push_back(p); ev("open for writing: %s", p.c_str()); }
    if (mode[0] == 'a') { f->app = true; D.f[p]; P->wrote.push_back(p); }
    g_files.push_back(f); return f;
}
int sim_fflush(SF* f) { if (!f) { bool ok = flush(&s_out); for (SF* x : g_files) ok &= flush(x); return ok ? 0 : EOF; } return flush(f) ? 0 : EOF; }
int sim_fclose(SF* f) {
    bool ok = flush(f); int k;
    if (f->kind == 0 && f->wr && fault(F_CLOSE, f->path, &k)) { ok = false; errno = EIO; str& d = D.f[f->path].data; d.resize(d.size() / 2); } // what was still cached is lost; closing a file only read cannot lose anything
    for (size_t i = 0; i < g_files.size(); i++) if (g_files[i] == f) { g_files.erase(g_files.begin() + (long)i); break; }
    if (f->kind == 0) delete f;
    return ok ? 0 : EOF;
}
size_t sim_fread(void* d, size_t sz, size_t n, SF* f) {
    if (!sz || !n) return 0;
    size_t want = sz * n, got = 0; char* o = (char*)d;
    if (!f->rd && f->kind != 1) { f->err = true; return 0; }
    if (f->unget >= 0) { o[got++] = (char)f->unget; f->unget = -1; }
    while (got < want) {
        if (!refill(f)) break;
        size_t m = f->rbuf.size() - f->rat; if (m > want - got) m = want - got;
        memcpy(o + got, f->rbuf.data() + f->rat, m); f->rat += m; got += m;
    }
    return got / sz;
}
size_t sim_fwrite(const void* d, size_t sz, size_t n, SF* f) {
    size_t m = sz * n; if (!m) return 0;
    if (f->kind == 0 && !f->wr) { f->err = true; return 0; }
    if (f->kind == 3 || (f->kind == 2 && !P->out_pipe) || f->unbuf) { size_t k = dev_write(f, (const char*)d, m); if (k != m) { f->err = true; return k / sz; } return n; }
    f->buf.append((const char*)d, m);
    if (f->buf.size() >= 4096) if (!flush(f)) return 0;
    return n;
}
static void drop_read(SF* f) { f->rbuf.clear(); f->rat = 0; f->unget = -1; }
long sim_ftell(SF* f) {
    int k; if (f->kind) return -1;
    if (fault(F_TELL, f->path, &k)) { errno = EIO; return -1; }
    if (f->isdir) return LONG_MAX;
    return (long)(f->pos + f->buf.size() - (f->rbuf.size() - f->rat) - (f->unget >= 0 ? 1 : 0));
}
int sim_fseek(SF* f, long off, int wh) {
    int k; if (f->kind) { errno = ESPIPE; return -1; }
    if (fault(F_SEEK, f->path, &k)) { errno = EIO; return -1; }
    flush(f); 
    long cur = (long)(f->pos - (f->rbuf.size() - f->rat)); drop_read(f); f->eof = false;
    long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? cur : (f->isdir ? LONG_MAX : (long)D.f[f->path].data.size());
    if (off < 0 && base + off < 0) { errno = EINVAL; return -1; }
    f->pos = (size_t)(base + off); return 0;
}
void sim_rewind(SF* f) { sim_fseek(f, 0, SEEK_SET); f->err = false; }
int sim_fgetc(SF* f) { u8 c; if (f->unget >= 0) { int r = f->unget; f->unget = -1; return r; } return sim_fread(&c, 1, 1, f) == 1 ? c : EOF; }
int sim_ungetc(int c, SF* f) { if (c == EOF) return EOF; f->unget = (u8)c; f->eof = false; return c; }
char* sim_fgets(char* b, int n, SF* f) {
    int i = 0; if (n <= 0) return nullptr;
    while (i < n - 1) { int c = sim_fgetc(f); if (c == EOF) { if (f->err || i == 0) return nullptr; break; } b[i++] = (char)c; if (c == '\n') break; }
    b[i] = 0; return b;
}
int sim_fputc(int c, SF* f) { char ch = (char)c; return sim_fwrite(&ch, 1, 1, f) == 1 ? (u8)c : EOF; }
int sim_fputs(const char* s, SF* f) { size_t n = strlen(s); return sim_fwrite(s, 1, n, f) == n ? 0 : EOF; }
int sim_puts(const char* s) { return sim_fputs(s, &s_out) < 0 || sim_fputc('\n', &s_out) < 0 ? EOF : 0; }
int sim_vfprintf(SF* f, const char* fmt, va_list ap) {
    va_list aq; va_copy(aq, ap); int n = vsnprintf(nullptr, 0, fmt, aq); va_end(aq);
    str s((size_t)n + 1, 0); vsnprintf(&s[0], (size_t)n + 1, fmt, ap);
    return n && sim_fwrite(s.data(), 1, (size_t)n, f) != (size_t)n ? -1 : n;
}
int sim_fprintf(SF* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(&s_out, fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char* fmt, va_list ap) { return sim_vfprintf(&s_out, fmt, ap); }
int sim_feof(SF* f) { return f->eof && f->rat >= f->rbuf.size() && f->unget < 0; }
int sim_ferror(SF* f) { return f->err; }
void sim_clearerr(SF* f) { f->err = f->eof = false; }
void sim_setbuf(SF* f, char* b) { if (!b) flush(f); f->unbuf = !b; }
int sim_setvbuf(SF* f, char*, int m, size_t) { f->unbuf = m == _IONBF; return 0; }
int sim_fileno(SF* f) { return f->kind ? f->kind - 1 : 3; }
int sim_fsync(int) { return 0; }
int sim_remove(const char* p) { g_io_calls++; str n = norm_path(P->cwd, p); ev("remove %s", n.c_str()); P->wrote.push_back(n); return D.f.erase(n) ? 0 : -1; }
int sim_rename(const char* a, const char* b) {
    g_io_calls++; str x = norm_path(P->cwd, a), y = norm_path(P->cwd, b); int k;
    if (fault(F_OPENW, y, &k)) { errno = EACCES; return -1; }
    auto i = D.f.find(x); if (i == D.f.end()) { errno = ENOENT; return -1; }
    D.f[y] = i->second; D.f.erase(x); P->wrote.push_back(y); return 0;
}
void sim_perror(const char* s) { sim_fprintf(&s_err, "%s: error\n", s); }
int sim_access(const char* p, int) { g_io_calls++; bool ok; str n = norm_path(P->cwd, p, &ok); if (ok && D.f.count(n)) return 0; errno = ENOENT; return -1; }
int sim_stat(const char*, struct stat*) { return -1; }
char* sim_realpath(const char* p, char* out) {
    g_io_calls++; bool ok; str n = norm_path(P->cwd, p, &ok);
    if (!ok || !D.f.count(n)) { errno = ENOENT; return nullptr; }
    if (!out) out = (char*)sim_malloc(std::max<size_t>(n.size() + 1, 1)); // as glibc: malloc'ed
    strcpy(out, n.c_str()); return out;
}
void sim_exit(int c) { for (SF* f : vec<SF*>(g_files)) flush(f); flush(&s_out); finish(EXITED, c); abort(); }
void sim_abort(void) { finish(ABORTED, 134); abort(); }
ssize_t sim_getline(char** l, size_t* n, SF* f) {
    str s; int c; while ((c = sim_fgetc(f)) != EOF) { s += (char)c; if (c == '\n') break; }
    if (s.empty()) return -1;
    if (!*l || *n < s.size() + 1) { sim_free(*l); *l = (char*)sim_malloc(s.size() + 1); *n = s.size() + 1; }
    memcpy(*l, s.c_str(), s.size() + 1); return (ssize_t)s.size();
}
time_t sim_time(time_t* t) { time_t v = (time_t)(1700000000 + g_steps / 1000000); if (t) *t = v; return v; }
clock_t sim_clock(void) { return (clock_t)g_steps; }
int sim_rand(void) { return (int)(draw64() & 0x7fffffff); }
void sim_srand(unsigned) {}
char* sim_getenv(const char*) { return nullptr; }
char* sim_getcwd(char* b, size_t n) { str c = P ? P->cwd : "/w"; if (!b) return sim_strdup(c.c_str()); if (c.size() + 1 > n) return nullptr; strcpy(b, c.c_str()); return b; }
}
Run spawn(Proc& p, u64 budget, const std::function<int()>& f, bool fresh) {
    Proc* old = P; P = &p;
    if (fresh) { globals_reset(); }
    s_in = SF(); s_in.kind = 1; s_in.rd = true; s_out = SF(); s_out.kind = 2; s_out.wr = true; s_err = SF(); s_err.kind = 3; s_err.wr = true;
    D.mkdirs(p.cwd + "/x");
    Run r = guarded(budget, f);
    if (r.how == RETURNED || r.how == EXITED) { for (SF* x : vec<SF*>(g_files)) flush(x); flush(&s_out); } // as exit() does
    for (SF* x : g_files) delete x;
    g_files.clear();
    if (fresh) heap_release();
    P = old; return r;
}
Run cli(Proc& p, const vec<str>& args, u64 budget, bool fresh) {
    vec<str> a; a.push_back("cnd"); for (auto& x : args) a.push_back(x);
    vec<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
    p.in_at = 0;
    return spawn(p, budget, [&] { return cnd_main((int)a.size(), v.data()); }, fresh);
}
