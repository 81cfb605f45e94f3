// C10: the image depends on the source text alone: not on layout over files, history, memory, names or other compiles.
#include "../tree.hpp"
extern "C" int cnd_compile_file(const char*, const char*, int, int);
static str tree_text(const Tree& t) { str s = "main " + t.main + "\n"; for (auto& f : t.order) s += "--- " + f + "\n" + t.files.at(f); return s; }
static void spoil(str& x) { if (x.size() > 2) { u64 at = draw(x.size()); if (draw(2)) x.erase(at, 1 + draw(draw(3) ? 1 : x.size() - at)); else x.insert(at, 1, "{}();@=\"x9"[draw(10)]); } }
static void run() {
    Cfg c = swarm(); c.enums = c.structs = true; Schema s = gen_schema(c); bool links = draw(2);
    Tree t = make_tree(s, links); t.put(); bool bad = draw(7) == 6;
    if (bad) { spoil(t.files[pick(t.order)]); t.put(); }
    str ref, msg, img; 
    if (!bad) {
        D.put("/w/flat.cnd", t.flat); if (compile_file("/w/flat.cnd", &ref, &msg)) violate("refused", "a valid schema is refused: " + msg + "\n" + t.flat);
        if (compile_file(t.main, &img, &msg)) violate("imports:refused", "the same definitions spread over files are refused: " + msg + "\n" + tree_text(t));
        if (img != ref) violate("imports:image", strf("the definitions spread over files give another image (%zu bytes, single file %zu)\n", img.size(), ref.size()) + tree_text(t));
    }
    // alone, in a process of its own
    bool json = draw(2); vec<str> flags; if (json) flags.push_back("--json"); if (draw(5) == 4) flags.push_back("--verbose");
    auto args = [&](const str& in, const str& out) { vec<str> a = {"compile", in, out}; for (auto& x : flags) a.push_back(x); return a; };
    str main = spell("/w", t.main); Proc p0; p0.poison = 0; Run r0 = cli(p0, args(main, "o1.il")); if (r0.how != RETURNED && r0.how != EXITED) violate("end", "compiler ended abnormally\n" + tree_text(t));
    if (!bad && (r0.code || D.get("/w/o1.il") != ref)) violate("again", "compiling the files again differs\n" + tree_text(t));
    if (bad && r0.code == 0) ref = D.get("/w/o1.il");
    bool exists = D.has("/w/o1.il"); D.f.erase("/w/o1.il");
    auto judge = [&](const Run& r, const str& out, const str& path, bool cmp, const str& how) {
        str d; if (r.how != RETURNED && r.how != EXITED) d = "ended abnormally"; else if (r.code != r0.code) d = strf("exit status %d instead of %d: ", r.code, r0.code) + out; else if (r.code == 0 && (!D.has(path) || D.get(path) != ref)) d = "another image"; else if (r.code && D.has(path)) d = "an output file appears"; else if (cmp && out != p0.out + p0.err) d = "other messages: '" + out + "' instead of '" + p0.out + p0.err + "'";
        if (!d.empty()) violate(str("depends:") + how.substr(0, how.find(' ')), how + ": " + d + "\n" + tree_text(t)); D.f.erase(path);
    };
    // other memory contents
    { Proc p; p.poison = (u8)(1 + draw(255)); Run r = cli(p, args(main, "o1.il")); judge(r, p.out + p.err, "/w/o1.il", true, "memory contents"); fault_hit("memory refilled"); }
    // other directory and spelling
    { static const char* dirs[] = {"/w/x", "/w/lib/base", "/w", "/", "/w/x/common"}; Proc p; p.cwd = dirs[draw(5)]; Run r = cli(p, args(spell(p.cwd, t.main), "/w/o1.il")); judge(r, p.out + p.err, "/w/o1.il", false, "named from " + p.cwd); fault_hit("renamed path"); }
    // after other commands in the same process
    { Proc p; p.poison = (u8)draw(256); globals_reset(); u64 n = 1 + draw(4); vec<str> hist;
      for (u64 i = 0; i < n; i++) { Cfg c2 = swarm(); Schema s2 = gen_schema(c2); str x = print_schema(s2, s2.style);
          if (draw(2)) { x = t.flat.empty() ? t.files[t.main] : t.flat; u64 q = draw(3); // a relative: the same names, elsewhere or other things
              if (q == 0) { x = "enum Zq" + strf("%d", (int)i) + " : u16 { ZqA = 7 }\nstruct Zs" + strf("%d", (int)i) + " { i8 zz; }\n" + x; } else if (q == 1) { str y = x; size_t at = 0; static const char* from[] = {" : u8", " u16 ", " u32 ", " i8 "}; static const char* to[] = {" : u32", " i64 ", " u8 ", " u16 "}; u64 w = draw(4); while ((at = y.find(from[w], at)) != str::npos) { y.replace(at, strlen(from[w]), to[w]); at += 3; } x = y; }
              count("earlier commands on a relative"); }
          if (draw(3) == 0) spoil(x); D.put("/w/other.cnd", x); u64 m = draw(6); vec<str> a; if (m < 3) a = {"compile", "other.cnd", "other.il"}; else if (m == 3) a = {"fmt", "other.cnd"}; else if (m == 4) a = {"compile", draw(2) ? main : "missing.cnd", "other.il"}; else a = {"inspect", "other.il"};
          if (draw(4) == 0) { p.fp = FaultPlan(); p.fp.v.push_back({(int)draw(F_NOPS), (int)draw(3), (int)draw(2), ""}); p.fp.armed = true; } else p.fp = FaultPlan();
          hist.push_back(a[0]); cli(p, a, 1000000000, false); count("earlier commands"); }
      p.fp = FaultPlan(); p.out.clear(); p.err.clear(); Run r = cli(p, args(main, "o1.il"), 1000000000, false); judge(r, p.out + p.err, "/w/o1.il", true, "history of " + strf("%zu commands", hist.size())); fault_hit("command history"); }
    // while other compiles run
    if (draw(2)) {
        Proc p; p.poison = (u8)draw(256); u64 n = 1 + draw(3); vec<str> src(n); vec<str> want(n); vec<int> wc(n);
        for (u64 i = 0; i < n; i++) { Cfg c2 = swarm(); Schema s2 = gen_schema(c2); src[i] = print_schema(s2, s2.style); if (draw(5) == 0) spoil(src[i]); D.put("/w/t" + strf("%llu.cnd", (unsigned long long)i), src[i]); wc[i] = compile_file("/w/t" + strf("%llu.cnd", (unsigned long long)i), &want[i]); }
        Fibers fb; vec<int> rc(n + 2, -1); u64 avg = 1 + draw(draw(2) ? 30 : 3000); bool twice = draw(3) == 0, over = false;
        fb.add([&] { rc[0] = cnd_compile_file(main.c_str(), "o1.il", json, 0); });
        for (u64 i = 0; i < n; i++) fb.add([&, i] { str a = strf("t%llu.cnd", (unsigned long long)i), b = strf("t%llu.il", (unsigned long long)i); rc[i + 1] = cnd_compile_file(a.c_str(), b.c_str(), 0, 0); });
        if (twice) fb.add([&] { rc[n + 1] = cnd_compile_file(main.c_str(), "o2.il", json, 0); });
        Run r = spawn(p, 4000000000ull, [&] { over = !fb.run(3000000000ull, avg); return 0; });
        if (over || r.how != RETURNED) violate("concurrent:end", "concurrent compiles do not end\n" + tree_text(t));
        ST.faults["preemption"] += fb.switches; r.code = rc[0]; judge(r, "", "/w/o1.il", false, strf("concurrently with %llu others", (unsigned long long)n));
        if (twice) { r.code = rc[n + 1]; judge(r, "", "/w/o2.il", false, "concurrently with itself"); }
        for (u64 i = 0; i < n; i++) { str o = strf("/w/t%llu.il", (unsigned long long)i); if (rc[i + 1] != wc[i] || (wc[i] == 0 && (!D.has(o) || D.get(o) != want[i]))) violate("depends:concurrently", "a compile running beside this one differs from the same alone\n" + src[i] + "\nbeside\n" + tree_text(t)); }
    }
    count("files", t.files.size()); count("repeated imports", t.extra); (void)exists;
    g_sample = strf("%zu files, %llu repeated imports%s: ", t.files.size(), (unsigned long long)t.extra, links ? ", symbolic links" : "") + schema_brief(s).substr(0, 200);
    g_nontrivial = t.files.size() > 1 || bad; g_distinct = std::hash<str>()(tree_text(t)) ^ g_path;
}
static Reg r("C10", run, "definitions spread over at least two files, or a schema with errors; distinct = text of all files x schedule");
