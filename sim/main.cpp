// csim: run / replay / hash / probe. One process, one run at a time; see check.py for the driver.
#include "walk.hpp"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <unordered_set>
#include <cJSON.h>
std::map<str, bool (*)()>& probes();
static const size_t CAP = 1 << 20;
struct State { u64 magic, index, runs, rec_n, alive; u64 rec[CAP]; };
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static u64 mix64(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static u64 seed_of(u64 seed, const str& prop, u64 i) { u64 h = mix64(seed + 0x1234567); for (char c : prop) h = mix64(h ^ (u8)c); return mix64(h ^ mix64(i + 99)); }
static void reset_run() {
    heap_release(); globals_reset(); D = Disk(); D.mkdirs("/w/x"); P = nullptr;
    g_hash = 0xcbf29ce484222325ull; g_path = 0; g_sample.clear(); g_nontrivial = false; g_distinct = 0; g_steps = 0; g_budget = ~0ull; *T.rec_n = 0; T.at = 0;
}
static str esc(const str& s) { str o; for (u8 c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += (char)c; } return o; }
static const Prop* find(const str& id) { for (auto& p : props()) if (id == p.id) return &p; return nullptr; }
static bool one(const Prop* p, Violation* v) {
    reset_run();
    try { p->run(); return true; } catch (Violation& x) { *v = x; return false; }
}
static str mapjson(const std::map<str, u64>& m) { str o = "{"; for (auto& k : m) o += strf("%s\"%s\":%llu", o.size() > 1 ? "," : "", esc(k.first).c_str(), (unsigned long long)k.second); return o + "}"; }
int main(int argc, char** argv) {
    std::map<str, str> a; str cmd = argc > 1 ? argv[1] : "";
    vec<str> pos; for (int i = 2; i < argc; i++) { str k = argv[i]; if (k.substr(0, 2) == "--" && i + 1 < argc && k != "--trace") a[k.substr(2)] = argv[++i]; else if (k == "--trace") g_trace = true; else pos.push_back(k); }
    cJSON_Hooks hk = {sim_malloc_c, sim_free_c}; cJSON_InitHooks(&hk);
    globals_snapshot();
    static State local; State* st = &local;
    if (a.count("state")) {
        int fd = open(a["state"].c_str(), O_RDWR | O_CREAT, 0644); if (fd < 0 || ftruncate(fd, sizeof(State))) return 3;
        st = (State*)mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    T.rec = st->rec; T.rec_n = &st->rec_n; T.cap = CAP; st->rec_n = 0;
    if (cmd == "list") { for (auto& p : props()) printf("%s\t%s\n", p.id, p.rule); return 0; }
    if (cmd == "probe") { auto i = probes().find(pos.at(0)); if (i == probes().end()) return 3; reset_run(); T.s = 1; return i->second() ? 0 : 4; }
    if (cmd == "hash" || cmd == "gen") {
        const Prop* p = find(a["prop"]); if (!p) return 3; T.s = seed_of(strtoull(a["seed"].c_str(), 0, 10), a["prop"], strtoull(a["index"].c_str(), 0, 10));
        Violation v; bool ok = one(p, &v);
        if (!ok) printf("VIOLATION %s\n%s\n", v.cls.c_str(), v.msg.c_str());
        printf("HASH %016llx\n", (unsigned long long)g_hash); if (!g_sample.empty()) printf("SAMPLE %s\n", g_sample.c_str()); return ok ? 0 : 1;
    }
    if (cmd == "replay") { // file: prop, then draws
        FILE* f = fopen(pos.at(0).c_str(), "r"); if (!f) return 3; char id[64]; if (fscanf(f, "%63s", id) != 1) return 3; unsigned long long x; T.replaying = true; while (fscanf(f, "%llu", &x) == 1) T.play.push_back(x); fclose(f);
        const Prop* p = find(id); if (!p) return 3; Violation v; bool ok = one(p, &v);
        if (!ok) printf("VIOLATION %s\n%s\n", v.cls.c_str(), v.msg.c_str());
        printf("HASH %016llx USED %llu\n", (unsigned long long)g_hash, (unsigned long long)T.at); if (!g_sample.empty()) printf("SAMPLE %s\n", g_sample.c_str()); return ok ? 0 : 1;
    }
    if (cmd != "run") { fprintf(stderr, "usage: csim run|replay|hash|list|probe\n"); return 3; }
    const Prop* p = find(a["prop"]); if (!p) return 3;
    u64 seed = strtoull(a["seed"].c_str(), 0, 10), from = strtoull(a["from"].c_str(), 0, 10), step = strtoull(a["step"].c_str(), 0, 10), max = a.count("max") ? strtoull(a["max"].c_str(), 0, 10) : ~0ull;
    double t0 = now(), lim = atof(a["time"].c_str());
    std::unordered_set<u64> distinct; vec<str> samples; vec<std::pair<u64, u64>> hashes; u64 runs = 0, nontriv = 0; str viol;
    for (u64 i = from; runs < max && now() - t0 < lim; i += step) {
        st->index = i; st->runs = runs; T.s = seed_of(seed, a["prop"], i);
        Violation v; bool ok = one(p, &v); runs++;
        if (hashes.size() < 40 || runs % 997 == 0) if (hashes.size() < 200) hashes.push_back({i, g_hash});
        if (g_nontrivial) { nontriv++; if (distinct.size() < 4000000) distinct.insert(g_distinct ? g_distinct : g_hash); if (samples.size() < 4 && (runs % 7 == 1) && !g_sample.empty()) samples.push_back(g_sample); }
        if (!ok) { viol = strf("{\"cls\":\"%s\",\"msg\":\"%s\",\"index\":%llu}", esc(v.cls).c_str(), esc(v.msg.substr(0, 3000)).c_str(), (unsigned long long)i); break; }
    }
    u64 edges = 0; str eb; for (size_t i = 1; i < (size_t)(g_nguards + 1); i++) edges += g_edges[i];
    for (size_t i = 0; i < (size_t)(g_nguards + 1); i += 4) { int v = 0; for (size_t j = 0; j < 4 && i + j < (size_t)(g_nguards + 1); j++) v |= g_edges[i + j] << j; eb += "0123456789abcdef"[v]; }
    str o = strf("{\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"steps\":%llu,\"vm_runs\":%llu,\"edges\":%llu,\"edges_total\":%u,\"wall\":%.3f", (unsigned long long)runs, (unsigned long long)nontriv, distinct.size(), (unsigned long long)ST.steps, (unsigned long long)ST.vm_runs, (unsigned long long)edges, g_nguards, now() - t0);
    o += ",\"edgebits\":\"" + eb + "\",\"faults\":" + mapjson(ST.faults) + ",\"counts\":" + mapjson(ST.cnt) + ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) o += (i ? ",\"" : "\"") + esc(samples[i]) + "\"";
    o += "],\"hashes\":["; for (size_t i = 0; i < hashes.size(); i++) o += strf("%s[%llu,\"%016llx\"]", i ? "," : "", (unsigned long long)hashes[i].first, (unsigned long long)hashes[i].second);
    o += "]"; if (!viol.empty()) o += ",\"violation\":" + viol; o += "}\n";
    FILE* f = fopen(a["out"].c_str(), "w"); if (f) { fwrite(o.data(), 1, o.size(), f); fclose(f); }
    if (a.count("distinct")) { FILE* g = fopen(a["distinct"].c_str(), "wb"); for (u64 d : distinct) fwrite(&d, 8, 1, g); fclose(g); }
    return viol.empty() ? 0 : 1;
}
