// C01 contexts are isolated; C06 output does not depend on configuration.
#include "jobs.hpp"
using namespace sim; using namespace jobs;

// alone: one context, one job, a fresh process
static Out solo(Job const& j, env::Cfg const& c, AppResult* res, bool want_recheck = false) {
    put_inputs(j); for (auto& f : outputs(j)) disk_remove(f.c_str());
    AppResult r = run_app("alone", [&] {
        env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(c, h);
        gen::init(&ctx); Run run(j); while (!run.done()) run.step();
        run.hand_over(); gen::deinit(&ctx);
    });
    *res = r; ShmReader rd; return read_out(rd);
}

SCENARIO(C01, interleaved) {
    u32 K = range(2, 4); bool same_names = pick(2);
    vector<Job> jv; vector<env::Cfg> cv; std::set<string> outs;
    for (u32 i = 0; i < K; i++) { Allow al; al.disk = !same_names; jv.push_back(make_job(same_names ? "s" : string(1, (char)('a' + i)), 1, 7, al)); cv.push_back(pick(2) ? env::roomy() : env::random_cfg(false)); slog("job %u: %s| %s", i, job_str(jv[i]).c_str(), env::cfg_str(cv[i]).c_str()); }
    bool late = pick(2), early_end = pick(2), one_heap = pick(4) == 3;
    vector<u32> sched; { vector<u32> left; for (auto& j : jv) left.push_back((u32)j.steps.size()); for (;;) { vector<u32> c; for (u32 i = 0; i < K; i++) if (left[i]) c.push_back(i); if (c.empty()) break; u32 i = c[pick((u32)c.size())]; u32 burst = range(1, 2); while (burst-- && left[i]) { left[i]--; sched.push_back(i); } } }
    u32 destroy_after = pick(4); bool lazy = pick(2), from_elsewhere = pick(2);    // lazy: switch only when another context is active
    string ss; for (u32 i : sched) ss += std::to_string(i); slog("schedule %s late %d early_end %d one_heap %d", ss.c_str(), late, early_end, one_heap);
    for (auto& j : jv) { put_inputs(j); }
    AppResult r = run_app("interleaved", [&] {
        vector<env::Heaps> hv(K); vector<gen::Context> ctx(K); vector<Run> rv; vector<bool> live(K, false), over(K, false); vector<u32> left(K);
        for (u32 i = 0; i < K; i++) { env::init_heaps(hv[i], 1 + 4 * (int)i); ctx[i] = env::make_context(cv[i], one_heap ? hv[0] : hv[i]); rv.emplace_back(jv[i]); left[i] = (u32)jv[i].steps.size(); }
        auto start = [&](u32 i) { if (!live[i]) { gen::init(&ctx[i]); live[i] = true; } };
        start(0); if (!late) for (u32 i = 1; i < K; i++) start(i);
        vector<string> finals(K); u32 n = 0;
        for (u32 i : sched) {
            start(i); if (!lazy || gen::get_context() != &ctx[i]) gen::set_context(&ctx[i]);
            EXPECT(gen::get_context() == &ctx[i], "wrong-active-context", "get_context does not return the context just set");
            rv[i].step(); left[i]--; n++;
            if (early_end && i && !left[i] && !over[i] && n > destroy_after) {   // finished: take its results, end it while the others go on
                finals[i] = rv[i].final_text(); u32 other = K; if (from_elsewhere) for (u32 k = 0; k < K; k++) if (k != i && live[k] && !over[k]) other = k;
                if (other < K) gen::set_context(&ctx[other]);
                gen::deinit(&ctx[i]); over[i] = true;
                if (other < K) EXPECT(gen::get_context() == &ctx[other], "wrong-active-context", "ending context %u while context %u was active changed the active context", i, other); slog("context %u ended", i);
                for (int k = 0; k < 4; k++) { auto& a = hv[i].a[k]; if (!one_heap && k != cv[i].alloc[3]) EXPECT(a.live_blocks == 0, "leak", "context %u was ended and %s still holds %s", i, a.name, sim_leaks(&a).c_str()); }
            }
        }
        for (u32 i = 0; i < K; i++) if (!over[i]) { gen::set_context(&ctx[i]); finals[i] = rv[i].final_text(); }
        for (u32 i = 0; i < K; i++) { u64 m = rv[i].lines.size(); shm_put(&m, 8); for (auto& l : rv[i].lines) shm_put_str(l); shm_put_str(finals[i]); }
        for (u32 i = K; i-- > 0;) if (live[i] && !over[i]) gen::deinit(&ctx[i]);
    });
    EXPECT(r.kind == APP_RETURNED, "interleaved-run-ended", "%s\nsteps of the jobs would each run alone", r.describe().c_str());
    vector<Out> got; { ShmReader rd; for (u32 i = 0; i < K; i++) got.push_back(read_out(rd)); }
    for (u32 i = 0; i < K; i++) {
        AppResult a; Out o = solo(jv[i], cv[i], &a);
        if (a.kind != APP_RETURNED) { slog("alone: %s", a.describe().c_str()); discard("job does not run alone"); }
        same(got[i], o, "other-context-visible", ("context " + std::to_string(i) + " of " + std::to_string(K)).c_str(), jv[i]);
        log_out(o);
    }
    if (sched.size() >= 3) nontrivial();
}
