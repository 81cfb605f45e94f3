// Simulator runtime: choice tape, step clock, fibers, simulated processes, disk and stdio.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <csetjmp>
#include <cmath>
#include <memory>
#include <algorithm>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef std::string str;
template<class T> using vec = std::vector<T>;

// ---------------------------------------------------------------- choice tape
// Every decision of a run is a draw. Generation mode draws from a seeded PRNG and records;
// replay mode takes the recorded values (0 behind the end), so a run is its tape.
struct Tape {
    u64* rec; size_t cap; u64* rec_n;      // recorded draws (in the shared state file)
    vec<u64> play; bool replaying = false; size_t at = 0;
    u64 s = 0;
    u64 prng() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 raw(u64 n);                        // [0,n), n==0: any u64
};
extern Tape T;
struct Bulk { u64 s; bool on; explicit Bulk(bool on); ~Bulk(); u64 next() { u64 r = 0; for (int i = 0; i < 2; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; r = r << 32 | s >> 32; } return r; } }; // one draw stands for many
extern Bulk* g_bulk;
inline u64 draw(u64 n) { return n <= 1 ? 0 : g_bulk ? g_bulk->next() % n : T.raw(n); }
inline u64 draw64() { return g_bulk ? g_bulk->next() : T.raw(0); }
inline Bulk::Bulk(bool o) : s(0), on(o && !g_bulk) { if (on) { s = draw64(); g_bulk = this; } }
inline Bulk::~Bulk() { if (on) g_bulk = nullptr; }
inline bool chance(u64 num, u64 den) { u64 v = draw(den); return v >= den - num; } // 0 = no
inline i64 drawr(i64 lo, i64 hi) { return lo + (i64)draw((u64)(hi - lo) + 1); }
template<class V> auto pick(const V& v) -> decltype(v[0]) { return v[draw(v.size())]; }
// Cheap seeded filler for bulk bytes (one draw)
struct Fill { u64 s; explicit Fill(u64 x) : s(x) {} u8 operator()() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (u8)(s >> 56); } };

// ---------------------------------------------------------------- run state
struct Violation { str cls, msg; };
[[noreturn]] void violate(const str& cls, const str& msg);      // throws Violation (from simulator code only)
struct Stats {
    std::map<str, u64> faults, cnt;
    u64 steps = 0, vm_runs = 0;
};
extern Stats ST;
inline void fault_hit(const str& k) { ST.faults[k]++; }
inline void count(const str& k, u64 n = 1) { ST.cnt[k] += n; }
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // event log: hashed, printed when tracing
void evh(u64 x);                                                        // hash only
extern bool g_trace; extern u64 g_hash; extern u64 g_path;              // g_path: schedule/behaviour hash
str strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
str hex(const void* p, size_t n, size_t max = 64);

// ---------------------------------------------------------------- step clock
extern "C" void sim_nothing();
extern u64 g_steps, g_budget; extern u32 g_nguards;
extern u8 g_edges[1 << 17];               // edges hit
struct Budget { u64 old; explicit Budget(u64 n); ~Budget(); };
enum Ended { RETURNED, EXITED, KILLED, BUDGET, ABORTED };
// Runs real code; ends by return, exit(), kill by a fault, or exhausted step budget.
struct Run { Ended how; int code; u64 steps; };
Run guarded(u64 budget, const std::function<int()>& f);
[[noreturn]] void sim_kill_here();     // process dies at this point (only inside guarded)

// ---------------------------------------------------------------- fibers
// Cooperative threads preempted at basic blocks of the real code by the tape.
struct Fibers {
    vec<std::function<void()>> bodies;
    void add(std::function<void()> f) { bodies.push_back(std::move(f)); }
    // returns false if a fiber exhausted the budget. avg: mean steps between switches (0: only at yield)
    bool run(u64 budget, u64 avg);
    u64 switches = 0;
};
void fiber_yield();                    // scheduling point in simulator code (host callbacks)
bool in_fiber();

// ---------------------------------------------------------------- simulated disk and process
struct FNode { bool dir = false; str data; };
struct Disk {
    std::map<str, FNode> f;            // absolute normalized path
    std::map<str, str> links;          // directory symlinks: path -> target
    u64 capacity = ~0ull;              // bytes; writes beyond fail with ENOSPC
    void put(const str& p, const str& d) { mkdirs(p); f[p] = FNode{false, d}; }
    void mkdirs(const str& p);
    bool has(const str& p) { auto i = f.find(p); return i != f.end() && !i->second.dir; }
    const str& get(const str& p) { return f[p].data; }
    u64 used() { u64 n = 0; for (auto& k : f) n += k.second.data.size(); return n; }
};
extern Disk D;
enum FsOp { F_OPENR, F_OPENW, F_READ, F_WRITE, F_CLOSE, F_SEEK, F_TELL, F_NOPS };
extern const char* FsOpName[];
struct FaultPlan {
    struct One { int op; int nth; int kind; str path; };  // kind: 0 error, 1 short then error, 2 kill process; path "" = any
    vec<One> v; int seen[F_NOPS] = {0}; vec<int> hits;
    bool armed = false;
};
struct Proc {
    str cwd = "/w";
    str in;                            // stdin bytes
    size_t in_at = 0; u64 in_frag = 0; // fragmentation seed (0: whole)
    vec<std::pair<size_t, std::function<void()>>> in_gates; size_t in_gate = 0; // run when all input up to there was read and more is wanted; nothing is read ahead over a gate
    bool out_pipe = false;             // stdout is a pipe: output waits in stdio until it is flushed
    bool in_err = false;               // stdin fails at its end instead of EOF
    str out, err;                      // bytes that reached the terminal/pipe
    u64 out_fail_after = ~0ull;        // stdout write failures beyond this many bytes
    FaultPlan fp;
    std::map<str, int> ops;            // operations counted
    u64 allocs = 0; u8 poison = 0xA5;
    bool opened_for_write = false; vec<str> wrote;
};
extern Proc* P;
str norm_path(const str& cwd, const str& p, bool* ok = nullptr);
// Starts a process: fresh globals (snapshot restored) unless 'keep' (same process, next command).
Run spawn(Proc& p, u64 budget, const std::function<int()>& f, bool fresh = true);
void globals_snapshot(); void globals_reset();
void heap_release();                   // frees everything the simulated process allocated
u64 heap_live();
extern u64 g_alloc_calls, g_io_calls; // counters for "no allocation / no I/O"
extern u64 g_low; // lowest stack address the code under test reached since it was last set

// Real main of the CLI
extern "C" int cnd_main(int argc, char** argv);
Run cli(Proc& p, const vec<str>& args, u64 budget = 1000000000, bool fresh = true);

// ---------------------------------------------------------------- property registry
struct Prop { const char* id; void (*run)(); const char* rule; };
vec<Prop>& props();
struct Reg { Reg(const char* id, void (*f)(), const char* rule) { props().push_back({id, f, rule}); } };
extern str g_sample;                   // one-line description of the current run

extern bool g_nontrivial; extern u64 g_distinct; // g_distinct: hash identifying the case
extern "C" void* sim_malloc(size_t); extern "C" void sim_free(void*);
inline void* sim_malloc_c(size_t n) { return sim_malloc(n); }
inline void sim_free_c(void* p) { sim_free(p); }
std::map<str, bool (*)()>& probes();
struct RegProbe { RegProbe(const char* n, bool (*f)()) { probes()[n] = f; } };
