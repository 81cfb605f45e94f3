// C06: contexts of one process interleaved by a seeded scheduler at basic blocks and callbacks.
#include "../walk.hpp"
struct Job { const Compiled* k; bool enc; Walk w; vec<u8> init; std::unique_ptr<Host> h; std::unique_ptr<Exact> mem; cnd_vm_ctx* ctx = nullptr; cnd_error_t err = CND_ERR_OK; u64 raw; i64 fail; u64 rep = 1; 
    cnd_error_t s_err; size_t s_cur; int s_bits; vec<u8> s_mem; u64 s_hash; str d; bool verify = false; std::unique_ptr<Exact> vimg; };
static void run() {
    vec<Compiled> ks(1 + draw(2)); for (auto& k : ks) { Cfg c = swarm(); c.maxf = std::min(c.maxf, 6); c.big = draw(4) == 0; k = make_schema(c); }
    vec<std::unique_ptr<Job>> jobs; struct Fr { vec<std::unique_ptr<Job>>& v; ~Fr() { for (auto& j : v) free(j->ctx); } } fr{jobs};
    u64 n = 2 + draw(5); str what;
    for (u64 i = 0; i < n; i++) {
        auto j = std::make_unique<Job>(); j->k = &ks[draw(ks.size())]; j->enc = draw(2); Sent s; Src o; o.maxcount = (int)drawr(1, 3); o.illegal = false;
        if (!model_frame(*j->k, o, s)) continue;
        if (j->enc) { vec<u8> init = s.init; if (draw(5) == 4 && !init.empty()) init.resize(draw(init.size())); j->init = init; Src r = s.src; r.replay = true; j->w = walk_encode(j->k->s, r, init, init.size(), false); }
        else { vec<u8> b = s.f; if (draw(4) == 3 && !b.empty()) b[draw(b.size())] ^= (u8)(1 + draw(255)); if (draw(5) == 4 && !b.empty()) b.resize(draw(b.size())); j->init = b; j->w = walk_decode(j->k->s, b.data(), b.size()); }
        if (j->w.unsure || j->w.ev.size() > 600) continue;
        j->raw = draw64(); j->fail = draw(5) == 4 ? (i64)draw(12) : -1;
        j->ctx = (cnd_vm_ctx*)malloc(sizeof(cnd_vm_ctx)); memset(j->ctx, (int)draw(256), sizeof(cnd_vm_ctx));
        jobs.push_back(std::move(j));
    }
    if (jobs.size() < 2) return;
    auto prep = [](Job& j, bool yields) { j.mem.reset(new Exact(j.init)); j.h.reset(new Host(j.w, &j.k->im->prog)); j.h->buf = j.mem->p; j.h->len = j.mem->n; j.h->rawseed = j.raw; j.h->fail_at = j.fail; j.h->yields = yields; };
    auto body = [](Job& j) { cnd_init(j.ctx, j.enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &j.k->im->prog, j.mem->p, j.mem->n, host_cb, j.h.get()); j.err = cnd_execute(j.ctx); };
    // alone
    u64 total = 0;
    for (auto& jp : jobs) {
        Job& j = *jp; prep(j, false); Run r = guarded(100000000, [&] { body(j); return 0; }); ST.vm_runs++;
        total += r.steps; if (r.how != RETURNED) violate("solo", "a run alone did not return");
        j.s_err = j.err; j.s_cur = j.ctx->cursor; j.s_bits = j.ctx->bit_offset; j.s_mem.assign(j.mem->p, j.mem->p + j.mem->n); j.s_hash = j.h->hash;
        VmRes v; v.err = j.err; v.how = RETURNED; v.cursor = j.s_cur; v.bits = j.s_bits;
        if (!j.h->failed) { str d = check_run(j.w, *j.h, v, j.mem->p, j.init, j.mem->n); if (!d.empty()) violate("solo:model", d + "\n" + j.k->text); }
        memset(j.ctx, (int)draw(256), sizeof(cnd_vm_ctx));
    }
    vec<cnd_program> before; for (auto& k : ks) before.push_back(k.im->prog);
    // together
    Fibers fb; u64 avg = draw(5) == 0 ? 0 : 1 + draw(draw(2) ? 6 : 80); if (avg) avg = std::max(avg, total / 6000);
    for (auto& jp : jobs) { Job& j = *jp; prep(j, true); fb.add([&j, body] { body(j); }); }
    ev("%zu contexts, a switch every ~%llu blocks", jobs.size(), (unsigned long long)avg);
    if (!fb.run(200000000, avg)) violate("schedule:hang", "contexts did not end");
    ST.vm_runs += jobs.size(); ST.faults["preemption"] += fb.switches; count("switches", fb.switches);
    for (size_t i = 0; i < jobs.size(); i++) {
        Job& j = *jobs[i]; str d;
        if (!j.h->bad.empty()) d = j.h->bad;
        else if (j.err != j.s_err) d = "result '" + errname(j.err) + "', alone '" + errname(j.s_err) + "'";
        else if (j.h->hash != j.s_hash) d = "callbacks differ from the run alone";
        else if (j.ctx->cursor != j.s_cur || j.ctx->bit_offset != j.s_bits) d = strf("frame ends at %zu+%d, alone %zu+%d", j.ctx->cursor, j.ctx->bit_offset, j.s_cur, j.s_bits);
        else if (j.mem->n && memcmp(j.mem->p, j.s_mem.data(), j.mem->n)) d = "bytes differ from the run alone";
        if (!d.empty()) violate("isolation", strf("context %zu of %zu (%s): ", i, jobs.size(), j.enc ? "encode" : "decode") + d + "\n" + j.k->text);
        g_path = (g_path ^ j.s_hash) * 0x9E3779B97F4A7C15ull;
    }
    for (size_t i = 0; i < ks.size(); i++) {
        if (memcmp(&before[i], &ks[i].im->prog, sizeof(cnd_program))) violate("program", "a run changed the program structure\n" + ks[i].text);
        if (memcmp(ks[i].im->mem, ks[i].img.data(), ks[i].img.size())) violate("image", "a run changed the program image");
    }
    g_sample = strf("%zu contexts, %llu switches, of: ", jobs.size(), (unsigned long long)fb.switches) + schema_brief(ks[0].s).substr(0, 200);
    g_nontrivial = fb.switches > 1; g_distinct = g_path ^ std::hash<str>()(ks[0].text);
}
static Reg r("C06", run, "at least two contexts really interleaved; distinct = switch points x contexts x schema text");
