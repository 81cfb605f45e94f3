// C05: the host fails at every callback.
#include "../walk.hpp"
static void run() {
    Cfg c = swarm(); Compiled k = make_schema(c); Sent s; Src o; o.longstr = draw(40) == 0; o.maxcount = (int)drawr(1, 4);
    if (!model_frame(k, o, s)) return;
    bool enc = draw(2); Walk full = enc ? s.w : walk_decode(k.s, s.f.data(), s.f.size()); if (full.unsure) return;
    vec<u8> init = enc ? noise(s.f.size()) : s.f; if (enc) { Src r = s.src; r.replay = true; full = walk_encode(k.s, r, init, init.size(), false); if (full.err) return; }
    u64 raw = draw64(); cnd_mode_t mode = enc ? CND_MODE_ENCODE : CND_MODE_DECODE;
    cnd_vm_ctx* x = (cnd_vm_ctx*)malloc(sizeof *x); struct Fr { void* p; ~Fr() { free(p); } } fr{x}; memset(x, (int)draw(256), sizeof *x);
    vec<str> log0; u64 calls; vec<u8> done;
    auto once = [&](i64 fail, cnd_error_t code, vec<str>& log, VmRes& r, vec<u8>& mem, Host& h) {
        Exact e(init); h.buf = e.p; h.len = e.n; h.rawseed = raw; h.fail_at = fail; h.fail_code = code; h.log = &log;
        r = vm_exec(&k.im->prog, mode, e.p, e.n, host_cb, &h, 400000000, x); mem.assign(e.p, e.p + e.n);
        return fail < 0 ? check_run(full, h, r, e.p, init, e.n) : str();
    };
    { Host h(full, &k.im->prog); VmRes r; str d = once(-1, CND_ERR_OK, log0, r, done, h); if (!d.empty()) violate("undisturbed", d + "\n" + k.text); calls = h.calls; }
    std::set<u64> at; if (calls <= 30) for (u64 i = 0; i < calls; i++) at.insert(i); else { at.insert(0); at.insert(calls - 1); while (at.size() < 30) at.insert(draw(calls)); }
    u64 hits = 0; static const cnd_error_t codes[] = {CND_ERR_CALLBACK, CND_ERR_OOB, CND_ERR_VALIDATION, CND_ERR_INVALID_OP, CND_ERR_CRC_MISMATCH, (cnd_error_t)99, (cnd_error_t)-1};
    for (u64 i : at) {
        Host h(full, &k.im->prog); VmRes r; vec<str> log; vec<u8> mem; cnd_error_t code = draw(3) ? CND_ERR_CALLBACK : codes[draw(7)]; once((i64)i, code, log, r, mem, h);
        if (!h.failed) { count("bulk offers refused"); continue; }          // callback i was a bulk offer: declining is not a failure
        hits++; str d; bool optstr = enc && h.failed_op >= OP_STR_NULL && h.failed_op <= OP_STR_PRE_U32 && h.at < full.ev.size() && full.ev[h.at].optstr;
        if (optstr) { count("optional string withheld"); continue; }         // declining an optional string leaves it out
        if (r.how != RETURNED) d = "run did not return"; else if (!h.bad.empty()) d = h.bad;
        else if (h.after_fail) d = strf("the host was called %llu more times", (unsigned long long)h.after_fail);
        else if (r.err != CND_ERR_CALLBACK) d = "result is '" + errname(r.err) + "'";
        else if (log.size() > log0.size() || !std::equal(log.begin(), log.end(), log0.begin())) d = "calls before the failure differ from the undisturbed run's";
        else if (!enc && mem != init) d = "the frame changed";
        else if (enc) {
            for (size_t q = 0; q < mem.size() && d.empty(); q++) {
                if (q < r.cursor && mem[q] != done[q]) d = strf("byte %zu is %02x, undisturbed %02x", q, mem[q], done[q]);
                if (q >= r.flen() && mem[q] != init[q]) d = strf("byte %zu behind the cursor %zu was written", q, r.cursor);
            }
        }
        if (!d.empty()) violate("callback", strf("%s, callback %llu of %llu (op %02x) fails with %d: ", enc ? "encode" : "decode", (unsigned long long)i, (unsigned long long)calls, h.failed_op, code) + d + "\n" + k.text);
        if (draw(4) == 0) { Host h2(full, &k.im->prog); VmRes r2; vec<str> l2; vec<u8> m2; str d2 = once(-1, CND_ERR_OK, l2, r2, m2, h2); if (d2.empty() && (l2 != log0 || m2 != done)) d2 = "retry differs from the undisturbed run"; if (!d2.empty()) violate("retry", d2 + "\n" + k.text); count("retries"); }
    }
    if (hits && g_sample.empty()) g_sample = strf("%s, failure at each of %llu callbacks: ", enc ? "encode" : "decode", (unsigned long long)calls) + schema_brief(k.s).substr(0, 250);
    g_nontrivial = hits > 0; g_distinct = g_path ^ std::hash<str>()(k.text) ^ full.pathh * 31 ^ calls ^ (enc ? 0x55555 : 0);
}
static Reg r("C05", run, "at least one callback failure was injected; distinct = schema text x data path x direction x number of callbacks");
