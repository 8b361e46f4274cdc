// C02 reset, C03 lifecycle, C05 stability, C06 configuration independence, C07 allocation failure, C17 reproducibility.
#include "jobs.hpp"
using namespace sim; using namespace jobs;

static void fresh_disk(vector<Job const*> const& js) { for (auto j : js) { for (auto& f : outputs(*j)) disk_remove(f.c_str()); put_inputs(*j); } }
static Out ref_run(Job const& j, env::Cfg const& c, AppResult* res) {
    fresh_disk({&j});
    *res = run_app("reference", [&] { env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(c, h); gen::init(&ctx); Run run(j); while (!run.done()) run.step(); run.hand_over(); gen::deinit(&ctx); });
    ShmReader rd; return read_out(rd);
}
static Out must_ref(Job const& j, env::Cfg const& c) { AppResult r; Out o = ref_run(j, c, &r); if (r.kind != APP_RETURNED) { slog("reference: %s", r.describe().c_str()); discard("job does not run"); } return o; }

// ---------------------------------------------------------------- C02
// after any history of jobs and resets a context behaves like a new one, while other contexts are left alone
SCENARIO(C02, reset) {
    u32 rounds = range(1, 4); bool shared_names = pick(2); bool bystander = pick(2);
    vector<Job> jv; for (u32 i = 0; i < rounds + 1; i++) { jv.push_back(make_job(shared_names ? "s" : string(1, (char)('a' + i)), 1, 5)); slog("job %u: %s", i, job_str(jv[i]).c_str()); }
    Job bj = make_job("by", 2, 4, Allow{false, true}); env::Cfg c = pick(2) ? env::roomy() : env::random_cfg(true), bc = env::roomy();
    u32 cut = pick(3);                                  // jobs may be abandoned half way before a reset
    bool reset_while_other_active = bystander && pick(2), lazy = pick(2);      // lazy: the active context is only set when another one was in use, a reset leaves it active
    slog("cfg %s rounds %u bystander %d cut %u", env::cfg_str(c).c_str(), rounds, bystander, cut);
    vector<Job const*> all; for (auto& j : jv) all.push_back(&j); 
    Job const& last = jv[rounds];
    Out want = must_ref(last, c); Out bwant; if (bystander) bwant = must_ref(bj, bc);
    fresh_disk(all); for (auto& f : outputs(last)) disk_remove(f.c_str()); put_inputs(last);
    AppResult r = run_app("resets", [&] {
        env::Heaps h, bh; env::init_heaps(h, 1); env::init_heaps(bh, 5); gen::Context ctx = env::make_context(c, h), bctx = env::make_context(bc, bh);
        if (bystander) gen::init(&bctx);         // the first context owns the shared constants: it is the one that must not be reset under the others
        gen::init(&ctx);
        gen::Context* cur = nullptr; auto use = [&](gen::Context& x) { if (!lazy || cur != &x) gen::set_context(&x); cur = &x; };
        Run by(bj); if (bystander) { use(bctx); by.step(); }
        for (u32 i = 0; i < rounds; i++) {
            use(ctx); Run run(jv[i]); u32 stop = cut ? (u32)jv[i].steps.size() - std::min<u32>(cut, (u32)jv[i].steps.size()) : (u32)jv[i].steps.size();
            while (!run.done() && run.at < stop) run.step();
            if (reset_while_other_active) use(bctx);
            gen::reset(&ctx); slog("reset %u", i);
            if (bystander && !by.done()) { use(bctx); by.step(); }
        }
        use(ctx);
        put_inputs(last);
        Run run(last); while (!run.done()) run.step();
        if (bystander) { use(bctx); while (!by.done()) by.step(); use(ctx); run.recheck("after another context worked"); }
        run.hand_over(); if (bystander) { use(bctx); by.hand_over(); }
        if (bystander) gen::deinit(&bctx); gen::deinit(&ctx);
        if (c.alloc[0] >= 0 && c.alloc[1] >= 0 && c.alloc[2] >= 0) for (int k = 0; k < 4; k++) if (k != c.alloc[3]) EXPECT(h.a[k].live_blocks == 0, "leak-after-reset", "after %u resets and deinit %s holds %s", rounds, h.a[k].name, sim_leaks(&h.a[k]).c_str());
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "a job that runs in a fresh context ended the process after a reset: %s", r.describe().c_str());
    ShmReader rd; Out got = read_out(rd); same(got, want, "reset-not-fresh", "after reset", last);
    if (bystander) { Out b = read_out(rd); same(b, bwant, "reset-disturbed-another-context", "the other context", bj); }
    log_out(got); nontrivial();
}

// ---------------------------------------------------------------- C03
// contexts come and go; everything they took from the allocators they were given comes back, nothing twice
SCENARIO(C03, lifecycle) {
    u32 K = range(1, 3), n = range(1, 10); vector<Job> jv; vector<env::Cfg> cv; bool fallback = pick(2), plain = pick(3) == 2;
    for (u32 i = 0; i < K; i++) { jv.push_back(make_job(string(1, (char)('a' + i)), 1, 5)); cv.push_back(env::random_cfg(fallback)); slog("context %u job %s cfg %s", i, job_str(jv[i]).c_str(), env::cfg_str(cv[i]).c_str()); }
    vector<std::pair<u32, u32>> acts; for (u32 i = 0; i < n; i++) { u32 a = pick(4), w = pick(K); acts.push_back({a, w}); }
    for (auto& j : jv) put_inputs(j);
    AppResult r = run_app("lifecycle", [&] {
        vector<env::Heaps> hv(K + 1); vector<gen::Context> ctx(K + 1); vector<std::unique_ptr<Run>> rv(K + 1); vector<int> live(K + 1, 0), used(K + 1, 0), plainly(K + 1, 0);     // plainly: started again as it was left, on the default configuration
        for (u32 i = 0; i < K; i++) env::init_heaps(hv[i], 1 + 4 * (int)i);
        auto end = [&](u32 i) {
            gen::deinit(&ctx[i]); live[i] = 0; rv[i].reset(); slog("deinit %u", i); op();
            for (int k = 0; k < 4; k++) if (k != cv[i].alloc[3]) EXPECT(hv[i].a[k].live_blocks == 0, "leak", "deinit left %s in %s", sim_leaks(&hv[i].a[k]).c_str(), hv[i].a[k].name);
        };
        auto ensure = [&](u32 i) { if (live[i]) return; sim_free_all(&hv[i].a[std::max(0, cv[i].alloc[3])]); if (plain && used[i]) plainly[i] = 1; else ctx[i] = env::make_context(cv[i], hv[i]); used[i] = 1; gen::init(&ctx[i]); live[i] = 1; rv[i].reset(new Run(jv[i])); slog("init %u", i); op(); };
        ensure(0);
        for (auto& a : acts) {
            u32 i = a.second;
            switch (a.first) {
                case 0: case 1: ensure(i); gen::set_context(&ctx[i]); if (rv[i]->done()) rv[i].reset(new Run(jv[i])); g_expect_released = cv[i].alloc[3] >= 0 && !plainly[i]; rv[i]->step(); g_expect_released = false; break;
                case 2: ensure(i); gen::set_context(&ctx[i]); gen::reset(&ctx[i]); rv[i].reset(new Run(jv[i])); slog("reset %u", i); break;
                case 3: if (i && live[i]) end(i); else ensure(i); break;
            }
        }
        for (u32 i = K; i-- > 0;) if (live[i]) end(i);
        EXPECT(g_os_heap.live_blocks == 0, "system-heap-leak", "after every context was ended the system heap still holds %s", sim_leaks(&g_os_heap).c_str());
        EXPECT(open_handles() == 0, "file-left-open", "%d files are still open", open_handles());
        // and again, from scratch
        ensure(0); rv[0]->step(); end(0);
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str());
    nontrivial();
}

// ---------------------------------------------------------------- C05
// what was made stays what it was while everything else grows and moves
SCENARIO(C05, stable) {
    Job j = make_job("k", 3, 12); env::Cfg c = env::random_cfg(true);
    slog("job %s cfg %s", job_str(j).c_str(), env::cfg_str(c).c_str()); put_inputs(j);
    AppResult r = run_app("work", [&] {
        env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(c, h); gen::init(&ctx);
        Run run(j);
        struct Seen { gen::Code c; gen::AST copy; }; vector<Seen> seen; 
        while (!run.done()) {
            size_t before = run.nodes.size();
            run.step();
            run.recheck("after more work");
            for (size_t i = 0; i < before && i < seen.size(); i++) {
                gen::AST const& a = *seen[i].c.ast; gen::AST const& b = seen[i].copy;
                EXPECT(a.Type == b.Type && a.Name.Ptr == b.Name.Ptr && a.Name.Len == b.Name.Len, "node-changed", "node %zu changed its type or name after more work", i);
            }
            while (seen.size() < run.nodes.size()) { Seen s; s.c = run.nodes[seen.size()]; memcpy((void*)&s.copy, s.c.ast, sizeof s.copy); seen.push_back(s); }
        }
        // no two live nodes share storage
        for (size_t i = 0; i < run.nodes.size(); i++) for (size_t k = 0; k < i; k++) EXPECT(run.nodes[i].ast != run.nodes[k].ast || run.texts[i] == run.texts[k], "node-shared", "two different results share one node");
        run.recheck("at the end"); run.hand_over(); gen::deinit(&ctx);
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str());
    ShmReader rd; Out o = read_out(rd); log_out(o); nontrivial();
}
// many nodes and strings: every pool, arena and table has to grow several times
SCENARIO(C05, growth) {
    env::Cfg c = env::random_cfg(true); if (pick(3)) { c.blocks = 1 + pick(20); c.arena_size = 700 + pick(2000); }
    u32 n = range(20, 400); u32 kinds = 1 + pick(4), every = range(1, 40), len = 1 + pick(300);
    slog("growth n %u kinds %u cfg %s", n, kinds, env::cfg_str(c).c_str());
    AppResult r = run_app("growth", [&] {
        env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(c, h); gen::init(&ctx);
        struct N { gen::Code c; string t; }; vector<N> v; vector<std::pair<gen::Str, string>> strs;
        auto mk = [&](u32 i) -> string { string s = "name_" + std::to_string(i); s += string(i * 7 % len, (char)('a' + i % 26)); return s; };
        for (u32 i = 0; i < n; i++) {
            op();
            string t = mk(i); Lent a(t);
            switch (i % kinds) {
                case 0: { gen::Code x = gen::untyped_str(a); v.push_back({x, t}); break; }
                case 1: { gen::Code x = (gen::Code)gen::def_variable(gen::t_int, a); v.push_back({x, text_of(x)}); EXPECT(text_of(x).find(t) != string::npos, "name-lost", "variable %s prints %s", t.c_str(), quote(text_of(x)).c_str()); break; }
                case 2: { gen::Str s = gen::cache_str(a); strs.push_back({s, t}); break; }
                default: { gen::Code x = v.empty() ? gen::untyped_str(a) : gen::code_duplicate(v[i * 13 % v.size()].c); v.push_back({x, v.empty() ? t : text_of(x)}); break; }
            }
            if (i % every == every - 1 || i + 1 == n) {
                for (size_t k = 0; k < v.size(); k++) EXPECT(text_of(v[k].c) == v[k].t, "text-changed", "node %zu of %zu printed %s and now prints %s", k, v.size(), quote(v[k].t).c_str(), quote(text_of(v[k].c)).c_str());
                for (auto& p : strs) EXPECT(env::str(p.first) == p.second, "interned-changed", "%s now reads %s", quote(p.second).c_str(), quote(env::str(p.first)).c_str());
            }
        }
        std::set<void*> uniq; for (auto& k : v) EXPECT(uniq.insert(k.c.ast).second, "node-shared", "make_code handed out one node twice");
        for (auto& k : v) EXPECT(((u64)k.c.ast & 7) == 0, "node-misaligned", "a node lies at %p", (void*)k.c.ast);
        gen::deinit(&ctx);
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str());
    nontrivial();
}

// ---------------------------------------------------------------- C06
SCENARIO(C06, config) {
    Job j = make_job("k", 1, 8); env::Cfg c = env::random_cfg(true);
    slog("job %s cfg %s", job_str(j).c_str(), env::cfg_str(c).c_str());
    Out want = must_ref(j, env::roomy());
    AppResult r; Out got = ref_run(j, c, &r);
    EXPECT(r.kind == APP_RETURNED, "ended", "with configuration %s: %s", env::cfg_str(c).c_str(), r.describe().c_str());
    same(got, want, "depends-on-configuration", env::cfg_str(c).c_str(), j); log_out(got); nontrivial();
}
// ---------------------------------------------------------------- C17
SCENARIO(C17, reproducible) {
    Job j = make_job("k", 1, 8); env::Cfg c = pick(2) ? env::roomy() : env::random_cfg(true);
    slog("job %s cfg %s", job_str(j).c_str(), env::cfg_str(c).c_str());
    Out want = must_ref(j, c);
    u32 variants = range(1, 2);
    for (u32 v = 0; v < variants; v++) {
        g_fill_seed = 1 + pick(1000); g_fill_mode = pick(4); g_place_base = pick(64) * 4096 + pick(8) * 16; g_clock_step_ns = 1 + pick(1000000); g_stack_mode = pick(6); g_stack_seed = pick(1000); g_lend_mode = pick(2); if (g_lend_mode) count("fault:sources_at_the_same_address"); if (g_stack_mode) count("fault:other_stack_contents"); sh->sim_ns += (u64)pick(1000) * 86400000000000ull;
        env::Cfg d = c; d.slack = pick(12); d.move = pick(3) ? pick(1001) : 1000;
        u32 warm = pick(3); Job w = make_job(pick(2) ? "k" : "w", 1, 4, Allow{false, true});
        slog("variant fill %u slack %u warm-up %u", (u32)g_fill_mode, d.slack, warm);
        fresh_disk({&j});
        AppResult r = run_app("variant", [&] {
            if (warm) {      // an earlier, unrelated use of the library in the same process
                env::Heaps h; env::init_heaps(h, 5); gen::Context ctx = env::make_context(env::roomy(), h); gen::init(&ctx); Run run(w); while (!run.done()) run.step(); gen::deinit(&ctx);
                sim_free_all(&h.a[3]);
            }
            env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(d, h); gen::init(&ctx); Run run(j); while (!run.done()) run.step(); run.hand_over(); gen::deinit(&ctx);
        });
        EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str());
        ShmReader rd; Out got = read_out(rd); same(got, want, "not-reproducible", "the same calls again", j);
    }
    log_out(want); nontrivial();
}
// Many small sources with a name at the same spot: all of them at one address, or each somewhere else.
SCENARIO(C17, same_spot) {
    struct Act { u32 kind; string text; }; vector<Act> acts; static char const* const names[] = {"ABCD", "EFGH", "IJKL", "MNOP", "QRST", "UVWX"}; u32 pool = range(2, 6); u32 known = 0;
    for (u32 i = 0, n = range(2, 14); i < n; i++) {
        u32 k = pick(pool); bool is = known >> k & 1; string nm = names[k];
        if (pick(4) == 0 && !is) { known |= 1u << k; acts.push_back({0, nm}); continue; }
        string pad(pick(3) * 4, ' '), t;
        if (is) { switch (pick(3)) { case 0: t = pad + nm + "\nint a" + std::to_string(i) + ";\n"; break; case 1: t = pad + "int b;\n" + nm + "\n"; break; default: t = pad + nm + "\n"; } }
        else switch (pick(5)) { case 0: t = pad + nm + " a" + std::to_string(i) + ";\n"; break; case 1: t = pad + "int " + nm + ";\n"; break; case 2: t = pad + "struct " + nm + ";\n"; break; case 3: t = pad + "int " + nm + "( int x );\n"; break; default: t = pad + nm + " f( " + nm + "* p );\n"; }
        acts.push_back({1, t});
    }
    for (auto& a : acts) slog("%s %s", a.kind ? "parse" : "register", quote(a.text, 100).c_str());
    auto go = [&](char const* what) {
        AppResult r = run_app(what, [&] {
            env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(env::roomy(), h); gen::init(&ctx); string out; vector<gen::CodeBody> made;
            for (auto& a : acts) {
                dirty_stack();
                if (!a.kind) { Lent m(a.text); gen::Macro q = {}; q.Name = gen::cache_str(m); q.Type = gen::MT_Statement; q.Flags = gen::MF_Null; gen::register_macro(q); continue; }
                Lent t(a.text); made.push_back(gen::parse_global_body(t));
            }
            for (auto& b : made) { for (gen::Code e = b->Front; e.ast; e = e->Next) out += std::to_string((int)e->Type) + " "; out += text_of((gen::Code)b) + "|"; }
            gen::deinit(&ctx); shm_put_str(out);
        });
        EXPECT(r.kind == APP_RETURNED, "ended", "%s: %s %s", what, r.describe().c_str(), r.detail.c_str()); ShmReader rd; string s; rd.get_str(&s); return s;
    };
    string want = go("elsewhere each"); g_lend_mode = 1; g_stack_mode = pick(6); g_stack_seed = pick(1000); count("fault:sources_at_the_same_address"); op(); nontrivial();
    string got = go("all at one address"); EXPECT(got == want, "depends-on-addresses", "%s instead of %s", quote(got, 400).c_str(), quote(want, 400).c_str());
}
// ---------------------------------------------------------------- C07
SCENARIO(C07, alloc_failure) {
    Job j = make_job("k", 1, 6, Allow{true, true}); env::Cfg c = env::random_cfg(true); bool forever = pick(2); u32 which = pick(4), place_ = pick(3);
    slog("job %s cfg %s", job_str(j).c_str(), env::cfg_str(c).c_str());
    // how many requests does the job make?
    fresh_disk({&j});
    u64 total[5] = {};
    AppResult r0 = run_app("reference", [&] {
        env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(c, h); gen::init(&ctx); Run run(j); while (!run.done()) run.step(); run.hand_over();
        u64 t[5]; for (int k = 0; k < 4; k++) t[k] = h.a[k].allocs + h.a[k].resizes; t[4] = g_os_heap.allocs; shm_put(t, sizeof t);
        gen::deinit(&ctx);
    });
    if (r0.kind != APP_RETURNED) { slog("reference: %s", r0.describe().c_str()); discard("job does not run"); }
    ShmReader rd0; Out want = read_out(rd0); rd0.get(total, sizeof total);
    vector<int> cand; for (int k = 0; k < 5; k++) if (total[k]) cand.push_back(k);
    if (cand.empty()) discard("no allocations");
    int heap = cand[which % cand.size()]; u64 span = total[heap];
    u64 at = place_ == 0 ? 1 + pick((u32)std::min<u64>(span, 6)) : place_ == 1 ? 1 + pick((u32)span) : span - pick((u32)std::min<u64>(span, 6));
    slog("failing request %llu of %llu of heap %d, and all later ones: %d", (unsigned long long)at, (unsigned long long)span, heap, forever);
    fresh_disk({&j});
    AppResult r = run_app("failing", [&] {
        env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(c, h);
        SimAlloc* a = heap == 4 ? &g_os_heap : &h.a[heap]; a->fail_in = (i64)at; a->fail_forever = forever;
        gen::init(&ctx); Run run(j); while (!run.done()) run.step(); 
        a->fail_in = 0;
        run.hand_over(); u64 f = a->failed; shm_put(&f, 8); gen::deinit(&ctx);
    });
    u64 failed = counted("fault:alloc_failure");
    if (r.kind == APP_RETURNED) { ShmReader rd; Out got = read_out(rd); same(got, want, "wrong-after-alloc-failure", "after a failed allocation", j); if (failed) count("probe:failure_survived"); }
    else {
        EXPECT(r.stopped(), "crash-after-alloc-failure", "a failed allocation ended in: %s", r.describe().c_str());
        EXPECT(failed > 0, "stopped-without-failure", "the run stopped although no allocation failed: %s", r.describe().c_str());
        EXPECT(!r.err.empty() || r.code != 0, "silent-stop", "the library stopped without saying why");
        count("probe:failure_reported");
        // nothing half-written may pass for a generated file: what is announced as generated is complete
    }
    if (failed) nontrivial();
}
