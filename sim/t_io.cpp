// C08 reading files, C09 the builder's files, C10 the file interface, C11 crash and rerun, C18 memory streams.
#include "jobs.hpp"
using namespace sim; using namespace jobs;

static u32 rate() { static u32 const r[] = {0, 0, 30, 120, 300, 700}; return r[pick(6)]; }

// ---------------------------------------------------------------- contents
static string bytes(u32 n, u32 kind) {
    string s; s.reserve(n); u32 a = pick(256);
    for (u32 i = 0; i < n; i++) s += kind == 0 ? (char)('a' + (i + a) % 26) : kind == 1 ? (char)((i * 37 + a) & 255) : kind == 2 ? ("\r\n\t #\"',;x0"[(i * 7 + a + i / 11) % 11]) : (char)0;
    return s;
}
static u32 size_of_file() { if (pick(40) == 39) { count("probe:file_of_over_1m"); return (1u << 20) * range(1, 4) - 6 + pick(12); } switch (pick(6)) { case 0: return pick(9); case 1: return pick(300); case 2: return 4090 + pick(12); case 3: return 65530 + pick(12); case 4: return 1 + pick(5000); default: return pick(150000); } }

// a source file the way the library's own sources look: an editor-only block first, then the code
struct Scanned { string file, want; };
static Scanned directive_file() {
    Scanned r; srcgen::Gen g("sc"); string nl = pick(2) ? "\r\n" : "\n", body;
    u32 n = pick(5); for (u32 i = 0; i < n; i++) body += g.decl(1);
    if (pick(6) == 5) body = bytes(pick(40), 0);
    if (pick(3) == 2) body = (pick(2) ? g.comment() : "") + g.preprocess() + body + (pick(2) ? g.preprocess() : "");
    if (nl.size() == 2 && pick(2)) { string t; for (char c : body) { if (c == '\n') t += '\r'; t += c; } body = t; }
    string blk;
    bool has = pick(3) != 0;
    if (has) {
        if (pick(3) == 2) blk += nl; 
        if (pick(6) == 5) blk += (pick(2) ? "// " + g.ident("lead") : pick(2) ? string("#pragma once") : "#include \"" + g.ident("lead") + ".hpp\"") + nl;       // what comes before the block is left out with it
        blk += string("#") + (pick(3) == 2 ? "\t" : "") + "ifdef " + (pick(4) == 3 ? " " : "") + "INTELLISENSE_DIRECTIVES" + (pick(4) == 3 ? "  " : "") + nl;
        u32 k = pick(5); for (u32 i = 0; i < k; i++) blk += (pick(3) ? "#\tinclude \"" + g.ident("h") + ".hpp\"" : pick(2) ? string("#pragma once") : string("using namespace gen;")) + nl;
        blk += string("#") + (pick(4) == 3 ? " " : "") + "endif" + (pick(4) == 3 ? pick(2) ? " // INTELLISENSE_DIRECTIVES" : "  " : "") + nl;
    }
    if ((!has && body.empty()) || (!body.empty() && body.find_first_not_of(" \t\r\n") == string::npos)) body = "int x;\n";
    u32 cut = pick(4); if (cut == 3 && body.size() > 1) body.resize(body.size() - 1);       // no line end at the end of the file
    r.file = blk + body; r.want = body; return r;
}

// ---------------------------------------------------------------- C08
SCENARIO(C08, read_contents) {
    u32 n = size_of_file(), kind = pick(3), reads = range(1, 3); bool exists = pick(8) != 7; string c = bytes(n, kind);
    if (exists) disk_put("in/data.bin", c);
    disk_put("other", "untouched"); u64 ver = 0;
    for (int i = 0; i < DISK_FILES; i++) if (sh->files[i].exists) ver += sh->files[i].version;
    FaultPlan& p = sh->plan; bool race = pick(3) == 2; p.open_fail = rate(); p.read_err = rate(); p.read_short = rate(); p.read_eof_early = rate(); p.eintr = rate() / 2; p.seek_err = rate() / 2; p.size_err = rate() / 2; p.close_err = rate(); p.resize_race = race ? 500 : 0; p.budget = pick(4);
    i64 failmem = pick(4) == 3 ? 1 + pick(2) : 0;
    slog("file of %u bytes, %u reads", n, reads);
    AppResult r = run_app("reader", [&] {
        SimAlloc h(1, "user"); h.fail_in = failmem;
        for (u32 i = 0; i < reads; i++) {
            op();
            bool z = pick(2); string before = exists ? disk_get("in/data.bin") : string();
            gen::FileContents f = gen::file_read_contents(env::info(&h), z, "in/data.bin");
            string after = exists ? disk_get("in/data.bin") : string();
            EXPECT(open_handles() == 0, "handle-leak", "the file is still open after it was read");
            if (!f.data) { EXPECT(f.size == 0, "size-without-data", "no data, but size %lld", (long long)f.size); EXPECT(h.live_blocks == 0, "leak-on-failure", "a failed read kept %s", sim_leaks(&h).c_str()); slog("nothing read"); count("probe:read_reported"); continue; }
            EXPECT(exists, "data-from-nowhere", "contents of a file that does not exist");
            EXPECT(f.allocator.Data == (void*)&h, "allocator-not-recorded", "the contents name another allocator than the one they were made with");
            EXPECT(sim_owned(&h, f.data), "data-not-owned", "the contents do not lie in the allocator given");
            EXPECT(sim_in_live(f.data, f.size + (z ? 1 : 0)), "data-too-short", "%lld bytes are announced in a block of %llu", (long long)f.size, (unsigned long long)sim_block_size(f.data));
            string got((char*)f.data, f.size);
            bool ok = got == after || got == before || (race && got == after.substr(0, got.size()) && got.size() == before.size());
            EXPECT(ok, "wrong-contents", "read %zu bytes %s, the file holds %zu bytes %s", got.size(), quote(got, 60).c_str(), after.size(), quote(after, 60).c_str());
            if (z) EXPECT(((char*)f.data)[f.size] == 0, "not-terminated", "the contents are not zero terminated");
            slog("read %zu", got.size()); count("probe:read_complete");
            sim_free(&h, f.data, "the user");
        }
        EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str());
        EXPECT(g_os_heap.live_blocks == 0, "system-heap-leak", "%s", sim_leaks(&g_os_heap).c_str());
    });
    EXPECT(r.kind == APP_RETURNED || (r.stopped() && !r.err.empty()), "ended", "%s", r.describe().c_str());
    u64 v2 = 0; for (int i = 0; i < DISK_FILES; i++) if (sh->files[i].exists) v2 += sh->files[i].version;
    EXPECT(race || v2 == ver, "read-wrote", "reading changed the disk"); EXPECT(disk_get("other") == "untouched", "read-wrote", "reading changed another file");
    nontrivial();
}
SCENARIO(C08, source_files) {
    u32 api = pick(2), rounds = range(1, 3); Scanned sc = directive_file(); srcgen::Gen g("pf"); string src = g.file(range(1, 4));
    bool exists = pick(10) != 9; string content = api == 0 ? sc.file : src; 
    if (exists) disk_put("src/x.hpp", content);
    env::Cfg c = pick(2) ? env::roomy() : env::random_cfg(true);
    slog("%s of %s", api ? "parse_file" : "scan_file", quote(content, 300).c_str());
    // what the text means to the library when handed over directly
    string want;
    if (api == 1) { AppResult q = run_app("direct", [&] { env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(env::roomy(), h); gen::init(&ctx); Lent t(src); shm_put_str(text_of((Code)gen::parse_global_body(t))); gen::deinit(&ctx); }); if (q.kind != APP_RETURNED) discard("does not parse"); ShmReader rd; rd.get_str(&want); }
    else want = sc.want;
    FaultPlan& p = sh->plan; bool race = pick(4) == 3; p.open_fail = rate(); p.read_err = rate(); p.read_short = rate(); p.read_eof_early = rate(); p.eintr = rate() / 2; p.seek_err = rate() / 2; p.size_err = rate() / 2; p.close_err = rate(); p.resize_race = race ? 500 : 0; p.budget = pick(3);
    AppResult r = run_app("reader", [&] {
        env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(c, h); gen::init(&ctx);
        for (u32 i = 0; i < rounds; i++) {
            op();
            Code x = api == 0 ? gen::scan_file("src/x.hpp") : (Code)gen::parse_file("src/x.hpp");
            EXPECT(open_handles() == 0, "handle-leak", "the file is still open");
            string got = text_of(x); shm_put_str(got); slog("got %s", quote(got, 100).c_str());
        }
        gen::deinit(&ctx);
    });
    u64 fired = 0; for (auto k : {"fault:open_failure", "fault:read_error", "fault:short_read", "fault:early_eof", "fault:read_interrupted", "fault:seek_error", "fault:size_query_error", "fault:file_changed_before_read"}) fired += counted(k);
    bool must_fail = !exists || content.empty() || want.empty();
    ShmReader rd; string got;
    bool raced = counted("fault:file_changed_before_read") > 0;
    while (rd.get_str(&got)) if (!raced) EXPECT(exists && (got == want || "\n" + got == want || "\r\n" + got == want), "wrong-contents", "the code read is %s, the file means %s", quote(got, 400).c_str(), quote(want, 400).c_str());
    if (r.kind != APP_RETURNED) { EXPECT(r.stopped(), "ended", "%s", r.describe().c_str()); EXPECT(must_fail || fired, "stopped-without-failure", "a file that can be read was refused: %s", r.describe().c_str()); EXPECT(!r.err.empty(), "silent-stop", "stopped without a message"); count("probe:read_reported"); }
    else { EXPECT(!must_fail, "failure-not-reported", "a file that does not exist or is empty was read"); count("probe:read_complete"); }
    if (exists && !raced) EXPECT(disk_get("src/x.hpp") == content, "read-wrote", "reading changed the file");
    nontrivial();
}

// ---------------------------------------------------------------- C09, C11: what a generator program writes
struct Part { u32 kind, n; string s; };
struct GenFile { string path; vector<Part> parts; };
static vector<GenFile> make_files(u32 lo, u32 hi) {
    srcgen::Gen g("out"); vector<GenFile> fs; u32 n = range(lo, hi);
    for (u32 i = 0; i < n; i++) {
        GenFile f; f.path = (pick(2) ? "gen/" : "") + string("file_") + std::to_string(i) + ".hpp"; u32 k = pick(7);
        for (u32 j = 0; j < k; j++) {
            Part p; p.kind = pick(4); p.n = pick(6);
            p.s = p.kind == 0 ? g.variable() + g.decl(1) : p.kind == 1 ? g.ident("text") + bytes(pick(pick(3) == 2 ? 3000 : 60), 0) : p.kind == 2 ? g.ident("v") : string();
            if ((p.kind == 1 || p.kind == 2) && pick(60) == 59) { u32 n = pick(2) ? 131072 - pick(40) : 1000 + pick(250000); while (p.s.size() < n) p.s += "_" + std::to_string(p.s.size()); p.s.resize(n); count("probe:part_of_over_128k", n > 131072); }   // beyond GEN_PRINTF_MAXLEN
            f.parts.push_back(p);
        }
        fs.push_back(f);
    }
    return fs;
}
// returns what was printed, by asking the library's serialiser outside the builder
static string emit(GenFile const& f) {
    string want; gen::Builder b = gen::builder_open(f.path.c_str());
    for (auto& p : f.parts) {
        switch (p.kind) {
            case 0: { Lent t(p.s); Code c = (Code)gen::parse_global_body(t); want += text_of(c); gen::builder_print(&b, c); break; }
            case 1: { Lent t(p.s); Code c = gen::untyped_str(t); want += p.s; gen::builder_print(&b, c); break; }
            case 2: {
                switch (p.n) {
                    case 1: { Lent t(p.s); gen::builder_print_fmt(&b, "#define %S %d\n", (gen::Str)t, (int)p.n); want += "#define " + p.s + " " + std::to_string(p.n) + "\n"; break; }
                    case 2: { gen::builder_print_fmt(&b, (p.s + " %u").c_str(), p.n); want += p.s + " " + std::to_string(p.n); break; }
                    case 3: { gen::builder_print_fmt(&b, "%-*s;", (int)p.s.size() + 3, p.s.c_str()); want += p.s + "   ;"; break; }
                    default: gen::builder_print_fmt(&b, "#define %s %d\n", p.s.c_str(), (int)p.n); want += "#define " + p.s + " " + std::to_string(p.n) + "\n"; break;
                }
                break;
            }
            default: gen::builder_pad_lines(&b, p.n); want += string(p.n, '\n'); break;
        }
    }
    gen::builder_write(&b); op();
    return want;
}
static bool announced(string const& out, string const& path) { string k = "Generated: " + path + "\n"; return out.find(k) != string::npos; }

SCENARIO(C09, builder) {
    vector<GenFile> fs = make_files(1, 3); env::Cfg c = pick(2) ? env::roomy() : env::random_cfg(true);
    for (auto& f : fs) if (pick(3) == 2) disk_put(f.path.c_str(), "old contents of " + f.path + "\n" + string(pick(4000), 'o'));
    disk_put("bystander", "untouched");
    FaultPlan& p = sh->plan; p.open_fail = rate(); p.write_err = rate(); p.write_short = rate(); p.write_full = rate(); p.eintr = rate() / 2; p.close_err = rate() / 2; p.std_err = rate() / 4; p.budget = pick(3); if (pick(5) == 4) p.disk_capacity = 20 + pick(6000);
    bool nofault = pick(4) == 0; if (nofault) memset(&p, 0, sizeof p);
    AppResult r = run_app("generator", [&] {
        env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(c, h); gen::init(&ctx);
        for (auto& f : fs) {
            u64 open0 = open_handles();
            string want = emit(f); shm_put_str(f.path); shm_put_str(want);
            EXPECT(open_handles() == (int)open0, "handle-leak", "%s is still open", f.path.c_str());
        }
        gen::deinit(&ctx);
        EXPECT(g_os_heap.live_blocks == 0, "system-heap-leak", "%s", sim_leaks(&g_os_heap).c_str());
    });
    u64 fired = 0; for (auto k : {"fault:open_failure", "fault:write_error", "fault:short_write", "fault:disk_full", "fault:disk_full_on_create", "fault:write_interrupted", "fault:disk_capacity_reached", "fault:console_write_error"}) fired += counted(k);
    EXPECT(r.kind == APP_RETURNED || r.stopped(), "ended", "%s", r.describe().c_str());
    if (r.kind != APP_RETURNED) { EXPECT(fired, "stopped-without-failure", "%s", r.describe().c_str()); EXPECT(!r.err.empty() || counted("fault:console_write_error"), "silent-stop", "stopped without a message"); count("probe:write_reported"); }
    ShmReader rd; string path, want; u32 done = 0;
    while (rd.get_str(&path) && rd.get_str(&want)) {
        done++;
        string got = disk_get(path.c_str()); bool ok = disk_exists(path.c_str()) && got == want;
        if (!ok) {   // the library went on: with fatal errors compiled in that is never silent
            string all = r.out + r.err; bool said = all.find(path) != string::npos && (all.find("Failed to write") != string::npos || all.find("Could not open") != string::npos);
            EXPECT(said && !announced(r.out, path), "incomplete-not-reported", "%s holds %zu bytes %s, printed were %zu bytes %s; output %s", path.c_str(), got.size(), quote(got, 200).c_str(), want.size(), quote(want, 200).c_str(), quote(r.out, 300).c_str());
        }
        else { count("probe:written_complete"); if (!counted("fault:console_write_error")) EXPECT(announced(r.out, path), "not-announced", "%s was written but not announced: %s", path.c_str(), quote(r.out, 200).c_str()); }
        slog("%s ok %d size %zu", path.c_str(), ok, got.size());
    }
    for (auto& f : fs) if (announced(r.out, f.path)) { done = done; }
    EXPECT(disk_get("bystander") == "untouched", "other-file-changed", "another file changed");
    for (int i = 0; i < DISK_FILES; i++) if (sh->files[i].exists) { bool known = !strcmp(sh->files[i].name, "bystander"); for (auto& f : fs) known |= f.path == sh->files[i].name; EXPECT(known, "unexpected-file", "a file %s appeared", sh->files[i].name); }
    nontrivial();
}
SCENARIO(C11, crash_rerun) {
    vector<GenFile> fs = make_files(1, 4); env::Cfg c = pick(2) ? env::roomy() : env::random_cfg(true); std::map<string, string> old;
    for (auto& f : fs) if (pick(2)) { old[f.path] = "old contents of " + f.path + "\n" + string(pick(4000), 'o'); }
    old["bystander"] = "untouched";
    auto restore = [&] { for (auto& f : fs) disk_remove(f.path.c_str()); for (auto& o : old) disk_put(o.first.c_str(), o.second); };
    auto program = [&] { env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(c, h); gen::init(&ctx); for (auto& f : fs) { string w = emit(f); shm_put_str(f.path); shm_put_str(w); } gen::deinit(&ctx); };
    auto read = [&] { std::map<string, string> m; ShmReader rd; string a, b; while (rd.get_str(&a) && rd.get_str(&b)) m[a] = b; return m; };
    restore(); u64 s0 = sh->syscalls; AppResult r0 = run_app("uninterrupted", program); if (r0.kind != APP_RETURNED) discard("does not run");
    std::map<string, string> want = read(); u64 calls = sh->syscalls - s0;
    for (auto& w : want) EXPECT(disk_get(w.first.c_str()) == w.second, "wrong-file", "%s holds %s, printed was %s", w.first.c_str(), quote(disk_get(w.first.c_str())).c_str(), quote(w.second).c_str());
    u32 crashes = range(1, 3); restore();
    for (u32 i = 0; i < crashes; i++) {
        sh->plan.crash_in = 1 + pick((u32)calls); slog("run %u: killed in system call %lld of %llu", i, (long long)sh->plan.crash_in, (unsigned long long)calls);
        AppResult r = run_app("interrupted", program); sh->plan.crash_in = 0;
        EXPECT(r.kind == APP_KILLED || r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str());
        for (auto& w : want) {
            string got = disk_get(w.first.c_str()); bool isold = disk_exists(w.first.c_str()) ? (old.count(w.first) && got == old[w.first]) : !old.count(w.first);
            bool prefix = disk_exists(w.first.c_str()) && w.second.compare(0, got.size(), got) == 0;
            EXPECT(isold || prefix, "foreign-bytes", "after the crash %s holds neither its old contents nor a part of the new: %s", w.first.c_str(), quote(got, 300).c_str());
            if (announced(r.out, w.first)) EXPECT(got == w.second, "announced-but-incomplete", "%s was announced before the crash and holds %s", w.first.c_str(), quote(got, 300).c_str());
        }
        EXPECT(disk_get("bystander") == "untouched", "other-file-changed", "another file changed");
        op();
    }
    AppResult r1 = run_app("rerun", program); EXPECT(r1.kind == APP_RETURNED, "rerun-ended", "%s", r1.describe().c_str());
    for (auto& w : want) EXPECT(disk_get(w.first.c_str()) == w.second, "rerun-differs", "after crash and rerun %s holds %s instead of %s", w.first.c_str(), quote(disk_get(w.first.c_str()), 300).c_str(), quote(w.second, 300).c_str());
    EXPECT(disk_get("bystander") == "untouched", "other-file-changed", "another file changed");
    nontrivial();
}

// ---------------------------------------------------------------- C10
SCENARIO_W(C10, file_ops, 6) {
    u32 H = range(1, 3), n = range(3, 24); FaultPlan& p = sh->plan; bool faults = pick(2);
    vector<u32> ops; for (u32 i = 0; i < n; i++) ops.push_back(pick(1 << 20));
    if (pick(2)) disk_put("a", bytes(pick(200), 0)); if (pick(3) == 2) disk_put("b", bytes(pick(5000), 1));
    if (faults) { p.open_fail = rate() / 2; p.read_err = rate() / 2; p.read_short = rate(); p.write_err = rate() / 2; p.write_short = rate(); p.write_full = rate(); p.eintr = rate() / 4; p.close_err = rate() / 2; p.budget = 1 + pick(4); }
    AppResult r = run_app("files", [&] {
        struct F { gen::FileInfo f; bool open = false, r = false, w = false, app = false; string name; u64 cur = 0; bool cur_known = true; };
        vector<F> fv(H); std::map<string, string> ref; for (auto nm : {"a", "b", "c"}) if (disk_exists(nm)) ref[nm] = disk_get(nm);
        auto fired = [&] { u64 t = 0; for (auto k : {"fault:open_failure", "fault:read_error", "fault:short_read", "fault:write_error", "fault:short_write", "fault:disk_full", "fault:disk_full_on_create", "fault:read_interrupted", "fault:write_interrupted", "fault:seek_error"}) t += counted(k); return t; };
        auto check = [&] { for (auto& x : ref) { string g = disk_get(x.first.c_str()); EXPECT(g == x.second, "disk-differs", "file %s holds %zu bytes %s, expected %zu bytes %s", x.first.c_str(), g.size(), quote(g, 100).c_str(), x.second.size(), quote(x.second, 100).c_str()); } };
        for (u32 o : ops) {
            u32 i = o % H, what = o / 4 % 9, arg = o / 64; F& f = fv[i]; op(); u64 before = fired();
            if (!f.open) {
                static gen::FileMode const modes[] = {gen::EFileMode_READ, gen::EFileMode_WRITE, gen::EFileMode_APPEND, gen::EFileMode_READ | gen::EFileMode_RW, gen::EFileMode_WRITE | gen::EFileMode_RW, gen::EFileMode_APPEND | gen::EFileMode_RW};
                f.name = string(1, (char)('a' + arg % 3)); bool busy = false; for (auto& g : fv) busy |= g.open && g.name == f.name; if (busy) continue;
                u32 m = arg / 3 % 6; bool rd = m % 3 == 0 || m >= 3, wr = m != 0; memset((void*)&f.f, 0xCD, sizeof f.f);
                if (faults && (arg >> 9) % 8 == 1) { g_os_heap.fail_in = 1 + (arg >> 12) % 2; } if (faults && (arg >> 9) % 8 == 2) p.seek_err = 700;      // no room for the name, no way to the end of the file
                u64 nomem = g_os_heap.failed;
                gen::FileError e = m == 0 && arg & 64 ? gen::file_open(&f.f, f.name.c_str()) : gen::file_open_mode(&f.f, modes[m], f.name.c_str());
                slog("open %s mode %u -> %d", f.name.c_str(), m, (int)e); g_os_heap.fail_in = 0; p.seek_err = 0; bool starved = g_os_heap.failed > nomem;
                bool must_exist = m % 3 == 0, exists = ref.count(f.name);
                if (e == gen::EFileError_NONE) {
                    EXPECT(exists || !must_exist, "opened-missing", "a missing file was opened for reading");
                    f.open = true; f.r = rd; f.w = wr; f.app = m % 3 == 2; f.cur = 0; f.cur_known = true;
                    if (m % 3 == 1) ref[f.name] = ""; else if (!exists) ref[f.name] = "";
                    EXPECT(string(gen::file_name(&f.f)) == f.name, "wrong-name", "file_name says %s for %s", gen::file_name(&f.f), f.name.c_str());
                } else { EXPECT((must_exist && !exists) || fired() > before || starved, "open-refused", "opening %s failed with %d", f.name.c_str(), (int)e); EXPECT(handles_for(f.name.c_str()) == 0, "handle-leak", "a failed open kept a handle"); if (disk_exists(f.name.c_str()) && !exists) ref[f.name] = ""; if (m % 3 == 1 && disk_exists(f.name.c_str())) ref[f.name] = disk_get(f.name.c_str()); }
                check(); continue;
            }
            string& c = ref[f.name]; u32 len = arg % 7 == 6 ? arg / 7 % 9000 : arg / 7 % 70; u64 at = arg / 512 % (c.size() + 20);
            if (f.app && (what == 2 || what == 3)) what = 0;       // where a positioned write lands in append mode differs between systems
            switch (what) {
                case 0: case 1: {       // write at the cursor
                    if (!f.w) break;
                    if (!f.cur_known && !f.app) { f.cur = 0; gen::file_seek(&f.f, 0); f.cur_known = true; }
                    if (f.app && !f.cur_known) gen::file_seek_to_end(&f.f);      // systems differ in whether append mode follows the cursor
                    string d = bytes(len, 0); u64 pos = f.app ? c.size() : f.cur; Lent l(d);
                    bool ok = gen::file_write(&f.f, l.p, d.size());
                    string want = c; if (pos > want.size() && !d.empty()) want.resize(pos, 0); if (!d.empty()) want.replace(pos, d.size(), d);
                    string got = disk_get(f.name.c_str()); slog("write %zu at %llu -> %d", d.size(), (unsigned long long)pos, ok);
                    if (ok) { EXPECT(got == want, "write-wrong", "a successful write of %zu bytes at %llu left %zu bytes %s", d.size(), (unsigned long long)pos, got.size(), quote(got, 100).c_str()); EXPECT(fired() == before, "write-failure-not-reported", "a failed or partial write was reported as success"); f.cur = pos + d.size(); }
                    else { EXPECT(fired() > before, "write-refused", "a write failed without cause"); u64 m = 0; while (m < d.size() && pos + m < got.size() && got[pos + m] == d[m]) m++; string part = c; if (m) { if (pos > part.size()) part.resize(pos, 0); part.replace(pos, m, d.substr(0, m)); } EXPECT(got == part, "write-foreign", "a failed write of %zu bytes at %llu left %zu bytes %s, neither untouched nor partly written", d.size(), (unsigned long long)pos, got.size(), quote(got, 100).c_str()); c = got; want = got; f.cur_known = false; }
                    c = want; break;
                }
                case 2: {               // write at a position
                    if (!f.w) break;
                    string d = bytes(len, 1); Lent l(d); gen::ssize wn = -7; bool checked = arg & 1;
                    bool ok = checked ? gen::file_write_at_check(&f.f, l.p, d.size(), at, &wn) : gen::file_write_at(&f.f, l.p, d.size(), at);
                    u64 put = checked ? (ok ? (u64)wn : 0) : d.size();
                    string got = disk_get(f.name.c_str()); slog("write_at %zu at %llu -> %d %lld", d.size(), (unsigned long long)at, ok, (long long)wn);
                    if (ok) {
                        EXPECT(put <= d.size(), "count-wrong", "%lld bytes were reported written of %zu", (long long)wn, d.size());
                        if (put < d.size() || !checked) EXPECT(checked ? fired() > before : fired() == before, "write-failure-not-reported", "partial write: reported %lld of %zu", (long long)wn, d.size());
                        string want = c; if (put) { if (at > want.size()) want.resize(at, 0); want.replace(at, put, d.substr(0, put)); }
                        EXPECT(got == want, "write-wrong", "write of %zu at %llu reported %llu bytes and left %zu bytes %s", d.size(), (unsigned long long)at, (unsigned long long)put, got.size(), quote(got, 100).c_str());
                    } else EXPECT(fired() > before, "write-refused", "a write failed without cause");
                    c = got; f.cur_known = false; break;
                }
                case 3: {               // seek, tell
                    u64 to = at; gen::s64 x = gen::file_seek(&f.f, (gen::s64)to); EXPECT(x == (i64)to, "seek-wrong", "seek to %llu says %lld", (unsigned long long)to, (long long)x); f.cur = to; f.cur_known = true;
                    gen::s64 t = gen::file_tell(&f.f); EXPECT(t == (i64)to, "tell-wrong", "after a seek to %llu tell says %lld", (unsigned long long)to, (long long)t); slog("seek %llu", (unsigned long long)to); break;
                }
                case 4: {               // size keeps the cursor
                    gen::s64 c0 = gen::file_tell(&f.f), s = gen::file_size(&f.f), c1 = gen::file_tell(&f.f);
                    EXPECT(s == (i64)c.size(), "size-wrong", "size says %lld, the file has %zu bytes", (long long)s, c.size()); EXPECT(c0 == c1, "size-moved-cursor", "size moved the cursor from %lld to %lld", (long long)c0, (long long)c1); slog("size %lld", (long long)s); break;
                }
                case 5: {               // read at the cursor
                    if (!f.r || f.app) break;
                    if (!f.cur_known) { f.cur = 0; gen::file_seek(&f.f, 0); f.cur_known = true; }
                    u64 avail = f.cur < c.size() ? c.size() - f.cur : 0; u64 k = len; vector<char> b(k + 8, 0x5A);
                    bool ok = gen::file_read(&f.f, b.data(), k); u64 m = std::min<u64>(k, avail);
                    for (int q = 0; q < 8; q++) EXPECT(b[k + q] == 0x5A, "read-overrun", "a read of %llu bytes wrote behind its buffer", (unsigned long long)k);
                    if (ok && fired() == before) { EXPECT(string(b.data(), m) == c.substr(std::min<u64>(f.cur, c.size()), m), "read-wrong", "read %llu bytes at %llu gave %s", (unsigned long long)k, (unsigned long long)f.cur, quote(string(b.data(), m), 80).c_str()); f.cur += k; EXPECT(gen::file_tell(&f.f) == (i64)f.cur, "cursor-wrong", "after reading tell says %lld", (long long)gen::file_tell(&f.f)); }
                    else { EXPECT(fired() > before, "read-refused", "a read failed without cause"); f.cur_known = false; }
                    slog("read %llu -> %d", (unsigned long long)k, ok); break;
                }
                case 6: {               // read at a position
                    if (!f.r) break;
                    u64 avail = at < c.size() ? c.size() - at : 0, k = len; vector<char> b(k + 8, 0x5A); gen::ssize rn = -7;
                    bool ok = gen::file_read_at_check(&f.f, b.data(), k, at, &rn);
                    if (ok) { EXPECT(rn >= 0 && (u64)rn <= std::min<u64>(k, avail), "count-wrong", "%lld bytes were reported read, %llu were there", (long long)rn, (unsigned long long)std::min<u64>(k, avail)); EXPECT(string(b.data(), rn) == c.substr(std::min<u64>(at, c.size()), rn), "read-wrong", "read_at gave other bytes"); if ((u64)rn < std::min<u64>(k, avail)) EXPECT(fired() > before, "short-read", "short read without cause"); for (u64 q = rn; q < k + 8; q++) EXPECT(b[q] == 0x5A, "read-overrun", "bytes behind the %lld reported ones were written", (long long)rn); }
                    else EXPECT(fired() > before, "read-refused", "a read failed without cause");
                    f.cur_known = false; slog("read_at %llu at %llu -> %d %lld", (unsigned long long)k, (unsigned long long)at, ok, (long long)rn); break;
                }
                default: { gen::FileError e = gen::file_close(&f.f); EXPECT(e == gen::EFileError_NONE, "close-refused", "close says %d", (int)e); EXPECT(handles_for(f.name.c_str()) == 0, "handle-leak", "%s is still open after close", f.name.c_str()); EXPECT(!gen::file_name(&f.f)[0], "name-after-close", "a closed file still has a name"); f.open = false; slog("close %s", f.name.c_str()); break; }
            }
            check();
        }
        for (auto& f : fv) if (f.open) gen::file_close(&f.f);
        EXPECT(open_handles() == 0, "handle-leak", "%d handles left", open_handles());
        EXPECT(g_os_heap.live_blocks == 0, "system-heap-leak", "%s", sim_leaks(&g_os_heap).c_str());
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str());
    nontrivial();
}
// The standard streams and formatted output: what is said to be written is there, in order
SCENARIO_W(C10, console, 1) {
    u32 n = range(1, 20); FaultPlan p = sh->plan; bool faults = pick(3); struct Op { u32 what, len, kind; }; vector<Op> ops; bool big = pick(6) == 5;
    for (u32 i = 0; i < n; i++) ops.push_back({pick(7), big && i == n / 2 ? (128u << 10) - 8 + pick(16) : pick(200), pick(2)});
    if (faults) { p.std_err = rate(); p.std_short = rate(); p.write_err = rate() / 2; p.write_short = rate(); p.write_full = rate(); p.budget = 1 + pick(4); } i64 failmem = big && pick(3) == 2 ? 1 : 0;
    AppResult r = run_app("console", [&] {
        gen::FileInfo f = {}; string out, err, file; bool open = gen::file_open_mode(&f, gen::EFileMode_WRITE, "log.txt") == gen::EFileError_NONE; EXPECT(open, "not-created", "a file could not be created"); gen::FileInfo *so = gen::file_get_standard(gen::EFileStandard_OUTPUT), *se = gen::file_get_standard(gen::EFileStandard_ERROR);
        EXPECT(so && se && so != se, "no-console", "there is no standard output"); g_os_heap.fail_in = failmem; sh->plan = p;
        auto fired = [&] { u64 t = 0; for (auto k : {"fault:console_write_error", "fault:console_short_write", "fault:write_error", "fault:short_write", "fault:disk_full"}) t += counted(k); return t + g_os_heap.failed; };
        for (auto& o : ops) {
            op(); u64 before = fired(); string t = bytes(o.len, 0), line; Lent l(t); bool ok = true; string* to = &out;
            switch (o.what) {
                case 0: line = t + "|" + std::to_string(o.len) + "\n"; ok = gen::log_fmt("%s|%d\n", l.p, (int)o.len) >= 0; break;
                case 1: to = &err; line = "<" + t + ">"; ok = gen::c_str_fmt_out_err("<%s>", l.p) >= 0; break;
                case 2: line = t; ok = gen::file_write(so, l.p, l.n); break;
                case 3: to = &err; line = t; ok = gen::file_write(se, l.p, l.n); break;
                case 4: to = &file; line = "%" + t + "\n"; ok = gen::c_str_fmt_file(&f, "%%%s\n", l.p) >= 0; break;
                case 5: to = &file; line = t; ok = gen::file_write(&f, l.p, l.n); break;
                default: line = t + t.substr(0, 3); ok = gen::log_fmt("%S%.*s", (gen::Str)l, (int)std::min<u32>(3, o.len), l.p) >= 0; break;
            }
            slog("write %u of %u -> %d", o.what, o.len, ok); EXPECT(ok || fired() > before, "write-refused", "writing %zu bytes failed without a reason", line.size());
            string now = to == &file ? disk_get("log.txt") : to == &out ? string(sh->out_text, sh->out_text_len) : string(sh->err_text, sh->err_text_len), all = *to + line;
            if (ok) EXPECT(now == all, "write-wrong", "a successful write of %zu bytes %s left %zu bytes, expected %zu", line.size(), quote(line, 60).c_str(), now.size(), all.size());
            else { EXPECT(now == all.substr(0, now.size()) && now.size() >= to->size(), "write-wrong", "a failed write left %zu bytes that nobody wrote", now.size()); count("probe:write_reported"); if (to == &file) { gen::file_seek(&f, now.size()); } }
            *to = now;
            EXPECT(string(sh->out_text, sh->out_text_len) == out && string(sh->err_text, sh->err_text_len) == err && disk_get("log.txt") == file, "write-elsewhere", "writing to one stream changed another");
        }
        g_os_heap.fail_in = 0; gen::file_close(&f); EXPECT(g_os_heap.live_blocks == 0, "system-heap-leak", "%s", sim_leaks(&g_os_heap).c_str());
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str()); nontrivial();
}

// ---------------------------------------------------------------- C18
SCENARIO(C18, memory_stream) {
    u32 kind = pick(4), n = range(3, 30), cap = pick(3) ? pick(60) : pick(3000); if (kind == 1 && !cap) cap = 1; bool starve = pick(3) == 2, large = pick(30) == 29;
    vector<u32> ops; for (u32 i = 0; i < n; i++) ops.push_back(pick(1 << 22));
    i64 fail_at = starve ? 1 + pick(6) : 0; bool forever = pick(2); u32 move = pick(1001); string init = bytes(cap, 1);
    slog("stream kind %u size %u", kind, cap);
    AppResult r = run_app("stream", [&] {
        SimAlloc h(1, "user"); h.move_permille = move; h.fail_in = fail_at; h.fail_forever = forever;
        gen::FileInfo f; memset((void*)&f, 0xCD, sizeof f); string ref; vector<char> buf(init.begin(), init.end()); buf.resize(cap + 16, 0x5A);
        gen::u8* src = (gen::u8*)buf.data(); bool grows = kind < 2, writable = kind != 3; u64 cur = 0; bool ok;
        u64 failed0 = h.failed;
        if (kind == 0) ok = gen::file_stream_new(&f, env::info(&h));
        else ok = gen::file_stream_open(&f, env::info(&h), src, cap, kind == 1 ? gen::EFileStream_CLONE_WRITABLE : kind == 2 ? gen::EFileStream_WRITABLE : (gen::FileStreamFlags)0);
        if (!ok) { EXPECT(h.failed > failed0, "open-refused", "a stream could not be opened"); EXPECT(h.live_blocks == 0, "leak-on-failure", "%s", sim_leaks(&h).c_str()); count("probe:stream_refused"); return; }
        if (kind != 0) ref = init;
        auto contents = [&](char const* when) {
            gen::ssize sz = -1; gen::u8* b = gen::file_stream_buf(&f, &sz); EXPECT(sz == (i64)ref.size(), "size-wrong", "%s the stream holds %lld bytes, expected %zu", when, (long long)sz, ref.size());
            EXPECT(string((char*)b, sz) == ref, "contents-wrong", "%s the stream holds %s, expected %s", when, quote(string((char*)b, sz), 100).c_str(), quote(ref, 100).c_str());
            if (grows && sz) EXPECT(sim_in_live(b, sz), "buffer-dead", "the stream's buffer is not a live block of its allocator");
            if (kind == 1 || kind == 3) EXPECT(!memcmp(buf.data(), init.data(), cap), "source-changed", "the buffer the stream was opened over changed");
            for (u32 q = 0; q < 16; q++) EXPECT(buf[cap + q] == 0x5A, "overrun", "the stream wrote behind the buffer it was given");
        };
        contents("when opened"); EXPECT(gen::file_tell(&f) == 0, "cursor-wrong", "a new stream's cursor is %lld", (long long)gen::file_tell(&f));
        for (u32 o : ops) {
            u32 what = o % 8, arg = o / 8, len = arg % 5 == 4 ? arg / 5 % (large ? 200000 : 2000) : arg / 5 % 40; u64 at = mix(arg) % (ref.size() + 3); op(); u64 failed = h.failed;
            switch (what) {
                case 0: case 1: case 2: {
                    bool seq = what != 2; u64 pos = seq ? cur : at; string d = bytes(len, 0); Lent l(d); gen::ssize wn = -7;
                    ok = seq ? gen::file_write(&f, l.p, d.size()) : gen::file_write_at_check(&f, l.p, d.size(), pos, &wn);
                    string want = ref; bool can = writable && pos <= ref.size(); u64 fit = d.size();
                    if (can && !grows) fit = std::min<u64>(fit, ref.size() - pos);
                    if (can) { want.replace(pos, fit, d.substr(0, fit)); }
                    bool expect_ok = can && (seq ? fit == d.size() : true);
                    slog("%s %zu at %llu -> %d %lld", seq ? "write" : "write_at", d.size(), (unsigned long long)pos, ok, (long long)wn);
                    if (ok) { EXPECT(expect_ok, "write-accepted", "a write of %zu bytes at %llu into %zu bytes was accepted", d.size(), (unsigned long long)pos, ref.size()); if (!seq) EXPECT(wn == (i64)fit, "count-wrong", "%lld bytes were reported written of %llu", (long long)wn, (unsigned long long)fit); ref = want; }
                    else if (h.failed > failed) { count("probe:growth_refused"); }     // contents must be unchanged
                    else { EXPECT(!expect_ok, "write-refused", "a write of %zu bytes at %llu was refused", d.size(), (unsigned long long)pos); if (can) ref = want; }
                    if (seq) { cur = std::min<u64>(pos + d.size(), ref.size()); EXPECT(gen::file_tell(&f) == (i64)cur, "cursor-wrong", "after a write of %zu at %llu the cursor is %lld", d.size(), (unsigned long long)pos, (long long)gen::file_tell(&f)); }
                    break;
                }
                case 3: case 4: {
                    bool seq = what == 3; u64 pos = seq ? cur : at; vector<char> b(len + 8, 0x5A); gen::ssize rn = -7;
                    ok = seq ? gen::file_read(&f, b.data(), len) : gen::file_read_at_check(&f, b.data(), len, pos, &rn);
                    u64 m = std::min<u64>(len, pos < ref.size() ? ref.size() - pos : 0);
                    EXPECT(ok, "read-refused", "a read was refused"); if (!seq) EXPECT(rn == (i64)m, "count-wrong", "%lld bytes reported read of %llu", (long long)rn, (unsigned long long)m);
                    EXPECT(!m || !memcmp(b.data(), ref.data() + pos, m), "read-wrong", "read %llu bytes at %llu: %s", (unsigned long long)m, (unsigned long long)pos, quote(string(b.data(), m), 60).c_str());
                    for (u64 q = m; q < len + 8; q++) EXPECT(b[q] == 0x5A, "read-overrun", "bytes behind the end were written");
                    if (seq) cur = std::min<u64>(pos + len, ref.size());
                    slog("read %u at %llu", len, (unsigned long long)pos); break;
                }
                case 5: { i64 to = (i64)(arg % 4 == 3 ? ref.size() + arg / 4 % 50 : at); cur = std::min<u64>(to, ref.size()); gen::s64 x = gen::file_seek(&f, to); EXPECT(x == (i64)cur, "seek-wrong", "seek to %lld of %zu says %lld", (long long)to, ref.size(), (long long)x); slog("seek %lld", (long long)to); break; }
                case 6: { gen::s64 s = gen::file_size(&f); EXPECT(s == (i64)ref.size(), "size-wrong", "size says %lld of %zu", (long long)s, ref.size()); EXPECT(gen::file_tell(&f) == (i64)cur, "size-moved-cursor", "size moved the cursor"); slog("size"); break; }
                case 7: { gen::s64 x = gen::file_seek_to_end(&f); cur = ref.size(); EXPECT(x == (i64)cur, "seek-wrong", "the end is %lld of %zu", (long long)x, ref.size()); slog("end"); break; }
            }
            contents("then");
        }
        gen::file_close(&f);
        EXPECT(h.live_blocks == 0, "leak", "a closed stream left %s", sim_leaks(&h).c_str());
        EXPECT(g_os_heap.live_blocks == 0, "system-heap-leak", "%s", sim_leaks(&g_os_heap).c_str());
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str());
    nontrivial();
}
