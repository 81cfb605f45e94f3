// C09: compile on a failing disk. Success means the image the healthy disk gives.
#include "../tree.hpp"
static str tree_text(const Tree& t) { str s = "main " + t.main + "\n"; for (auto& f : t.order) s += "--- " + f + "\n" + t.files.at(f); return s; }
static void run() {
    Cfg c = swarm(); if (draw(2)) c.structs = c.enums = true; Schema s = gen_schema(c); Tree t = make_tree(s, false); t.put();
    str ref, msg; bool bad = draw(8) == 7;
    if (bad) { // schema errors: a file loses a character or a piece
        str& x = t.files[pick(t.order)]; if (x.size() > 2) { u64 at = draw(x.size()); if (draw(2)) x.erase(at, 1 + draw(draw(3) ? 1 : x.size() - at)); else x.insert(at, 1, "{}();@=\"x9"[draw(10)]); } t.put();
    }
    int rc0 = compile_file(t.main, &ref, &msg);
    if (rc0 && !bad) violate("refused", "a valid import graph is refused: " + msg + "\n" + tree_text(t));
    if (rc0) count("schemas with errors"); 
    str outp = "/w/out/o.il"; D.mkdirs(outp); str old = draw(4) ? "previous image" + str(draw(3) ? 2 : 5000, 'x') : "";
    bool had = !old.empty(); vec<str> args = {"compile", spell("/w", t.main), "out/o.il"}; bool json = draw(3) == 0; if (json) args.push_back("--json"); else if (draw(4) == 0) args.push_back("--verbose");
    auto reset = [&] { if (had) D.put(outp, old); else D.f.erase(outp); };
    auto same_inputs = [&] { for (auto& f : t.files) if (!D.has(f.first) || D.get(f.first) != f.second) violate("inputs", "compile changed its input " + f.first + "\n" + tree_text(t)); };
    // healthy
    reset(); Proc p0; p0.fp.armed = true; Run r0 = cli(p0, args); if (r0.how != RETURNED && r0.how != EXITED) violate("end", "compiler ended abnormally");
    if ((r0.code == 0) != (rc0 == 0)) violate("again", strf("compiling again gives %d instead of %d\n", r0.code, rc0) + tree_text(t));
    if (rc0 == 0 && D.get(outp) != ref) violate("again", "compiling again gives another image\n" + tree_text(t));
    if (rc0 && (D.has(outp) != had || (had && D.get(outp) != old))) violate("untouched", "a compile that reports an error changed the existing output file\n" + tree_text(t));
    same_inputs();
    int total[F_NOPS]; for (int i = 0; i < F_NOPS; i++) total[i] = p0.fp.seen[i];
    // every single fault, plus full disks and pairs
    struct Try { vec<FaultPlan::One> v; u64 cap = ~0ull; u64 outfail = ~0ull; };
    vec<Try> tries;
    for (int op = 0; op < F_NOPS; op++) for (int n = 0; n < total[op]; n++) for (int k = 0; k < 3; k++) { if (k == 1 && op != F_READ && op != F_WRITE) continue; Try y; y.v.push_back({op, n, k, ""}); tries.push_back(y); }
    while (tries.size() > 70) tries.erase(tries.begin() + (long)draw(tries.size()));
    u64 used = 0; for (auto& f : D.f) used += f.second.data.size(); used -= D.has(outp) ? D.get(outp).size() : 0;
    for (int i = 0; i < 3; i++) { Try y; y.cap = used + (i == 2 ? (ref.empty() ? 0 : ref.size() - 1) : draw(ref.size() + 1)); tries.push_back(y); }
    for (u64 i = 0; i < 4; i++) { Try y; for (int q = 0; q < 2; q++) { int op = (int)draw(F_NOPS); if (total[op]) y.v.push_back({op, (int)draw((u64)total[op]), (int)draw(2), ""}); } if (draw(2)) y.outfail = draw(60); tries.push_back(y); }
    u64 hits = 0, killed = 0;
    for (auto& y : tries) {
        reset(); Proc p; p.fp.v = y.v; p.fp.armed = true; p.out_fail_after = y.outfail; D.capacity = y.cap; p.poison = (u8)draw(256); bool keep = false;
        Run r = cli(p, args, 1000000000, !keep); D.capacity = ~0ull; hits += p.fp.hits.size();
        str what; for (auto& o : y.v) what += strf("%s #%d %s; ", FsOpName[o.op], o.nth, o.kind == 0 ? "fails" : o.kind == 1 ? "is short" : "kills"); if (y.cap != ~0ull) what += strf("disk has room for %lld of %zu bytes", (long long)(y.cap - used), ref.size());
        str ctx = what + "\n" + tree_text(t);
        if (r.how == BUDGET) violate("hang", "compiler did not end: " + ctx); if (r.how == ABORTED) violate("abort", "compiler aborted: " + ctx);
        same_inputs();
        bool touched = D.has(outp) != had || (had && D.get(outp) != old); bool outfault = y.cap != ~0ull, infault = false; for (int h : p.fp.hits) { if (h == F_OPENW || h == F_WRITE || h == F_CLOSE) outfault = true; else infault = true; }
        if (r.how == KILLED) { killed++; if (!p.opened_for_write && touched) violate("untouched", "killed before opening the output, which changed: " + ctx); }
        else {
            bool said = p.out.find("SUCCESS") != str::npos || p.out.find("\"success\"") != str::npos;
            if (r.code == 0) {
                if (rc0) violate("success:error", "success although the healthy disk gives an error: " + ctx);
                if (!D.has(outp)) violate("success:nofile", "success without an output file: " + ctx);
                if (D.get(outp) != ref) violate("success:image", strf("success, but the output has %zu bytes that are not the image of %zu: ", D.get(outp).size(), ref.size()) + ctx);
                if (y.v.size() == 1 && y.v[0].kind != 2 && infault && (y.v[0].op == F_OPENR || y.v[0].op == F_READ) && p.fp.seen[y.v[0].op] <= total[y.v[0].op]) violate("success:input", "success although an input could not be read and was not read again: " + ctx);
            } else {
                if (said) violate("report", "says success and exits with " + strf("%d: ", r.code) + ctx);
                if (touched && !outfault) violate("untouched", "failed because of its input but changed the existing output: " + ctx);
                if (p.fp.hits.empty() && y.cap == ~0ull && y.outfail == ~0ull && rc0 == 0) violate("nofault", "fails without a fault: " + ctx);
            }
        }
        if (draw(6) == 0) { Proc q; Run rr = cli(q, args); if (rr.code != rc0 || (rc0 == 0 && (!D.has(outp) || D.get(outp) != ref))) violate("retry", "after the fault is gone the compile does not give the image: " + ctx); count("retries"); }
    }
    if (had && rc0 == 0) { // output somewhere impossible
        Proc p; vec<str> a = args; a[2] = draw(2) ? "no/such/dir/o.il" : "out"; Run r = cli(p, a); if (r.code == 0) violate("impossible", "success although the output cannot be opened\n" + tree_text(t));
    }
    count("faulty compiles", tries.size()); count("files", t.files.size());
    g_path ^= hits * 1000003 + tries.size(); g_sample = strf("%zu files, %zu faulty compiles, %llu killed: ", t.files.size(), tries.size(), (unsigned long long)killed) + schema_brief(s).substr(0, 200);
    g_nontrivial = hits > 0; g_distinct = std::hash<str>()(tree_text(t)) ^ g_path;
}
static Reg r("C09", run, "at least one fault hit a file operation of a compile; distinct = text of all files x faults hit");
