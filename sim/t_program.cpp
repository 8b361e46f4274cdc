// C24: the library's own generator programs, whole, on the simulated machine.  This file knows nothing of the library:
// it feeds the program the repository's sources from the simulated disk and judges the files it leaves there.
#undef _WIN32
#undef _WIN64
#include "machine.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <sstream>
#include <string.h>
#include <vector>
using namespace sim; using std::string;
extern "C" int sim_program_main();
typedef std::map<string, string> Files;

static Files load() {
    Files r; namespace fs = std::filesystem; string root = SIM_REPO, dir = SIM_PROGRAM_DIR;
    auto add = [&](string sub, string as) {
        if (!fs::exists(root + "/" + sub)) return;
        for (auto& e : fs::recursive_directory_iterator(root + "/" + sub)) {
            if (!e.is_regular_file() || e.path().extension() == ".md") continue;
            std::ifstream f(e.path(), std::ios::binary); std::stringstream s; s << f.rdbuf(); r[as + e.path().string().substr(root.size() + 1 + sub.size())] = s.str();
        }
    };
    if (dir == "base") { add("base/components", "components"); add("base/enums", "enums"); }
    else { add("base", "../base"); add(dir + "/components", "components"); add(dir + "/enums", "enums"); }
    return r;
}
// The formatting programs a generator starts: not installed, or a formatter that tidies the file it is given.
static int tidy(char const* c) {
    string cmd = c ? c : "", path; size_t at = cmd.find("-src=");
    if (at != string::npos) path = cmd.substr(at + 5, cmd.find(' ', at) - at - 5);
    else { while (!cmd.empty() && cmd.back() == ' ') cmd.pop_back(); path = cmd.substr(cmd.rfind(' ') + 1); }
    if (!disk_exists(path.c_str())) return 1 << 8;
    string in = disk_get(path.c_str()), out; u32 empty = 0; std::stringstream s(in); string line;
    while (std::getline(s, line)) { while (!line.empty() && strchr(" \t\r", line.back())) line.pop_back(); if (line.empty() && empty++ >= 1) continue; if (!line.empty()) empty = 0; out += line + "\n"; }
    disk_put(path.c_str(), out); return 0;
}
enum { TOOLS = 2 };
static int (*const tools[TOOLS])(char const*) = {nullptr, tidy};
struct Ref { bool ok = false; string why, out, err; Files files; u64 calls = 0, heap = 0, vm = 0; };
static Ref refs[TOOLS]; static Files inputs; static u64 input_bytes; static std::vector<string> read_inputs;

static Files on_disk() { Files r; for (auto& f : sh->files) if (f.exists) r[f.name] = disk_get(f.name); return r; }
static void put_inputs() { memset(sh->files, 0, sizeof sh->files); sh->disk_used = 0; for (auto& f : inputs) disk_put(f.first.c_str(), f.second); }
static bool scratch(string const& n) { return n.find("scratch") != string::npos; }
static AppResult generator(char const* name, std::function<void()> before = [] {}) {
    return run_app(name, [&] {
        before(); int rc = sim_program_main(); slog("the program ends with %d", rc);
        u64 v[3] = {g_os_heap.allocs + g_os_heap.resizes, g_os_vm.allocs, (u64)open_handles()}; shm_put(v, sizeof v);
        if (rc) { sh->app_code = rc; app_die(APP_EXIT, rc); }
    });
}
static void prepare() {
    inputs = load(); for (auto& f : inputs) input_bytes += f.second.size();
    for (int t = 0; t < TOOLS; t++) {
        put_inputs(); memset(&sh->plan, 0, sizeof sh->plan); g_tool = tools[t]; u64 s0 = sh->syscalls;
        AppResult r = generator("undisturbed"); Ref& k = refs[t]; k.calls = sh->syscalls - s0; k.ok = r.kind == APP_RETURNED; k.why = r.describe() + " " + r.detail; k.out = r.out; k.err = r.err;
        u64 v[3] = {0, 0, 0}; ShmReader rd; rd.get(v, sizeof v); k.heap = v[0]; k.vm = v[1]; if (v[2]) { k.ok = false; k.why = "files are left open"; }
        for (auto& f : on_disk()) { auto it = inputs.find(f.first); if (it == inputs.end() || it->second != f.second) k.files[f.first] = f.second; }
        // generated files that were already up to date in the repository
        for (auto& f : inputs) if (r.out.find("Generated: " + f.first + "\n") != string::npos) k.files[f.first] = disk_get(f.first.c_str());
    }
    string log(sh->log, sh->log_len); for (auto& f : inputs) if (log.find("open " + f.first + " flags") != string::npos) read_inputs.push_back(f.first);
    sh->log_len = 0;
}
static bool was_read(string const& n) { for (auto& x : read_inputs) if (x == n) return true; return false; }
static Prep prep(prepare);

static Files pristine;
static Ref& setup(bool leftovers) {
    if (pristine.empty()) pristine = inputs; else inputs = pristine; // an earlier run of this worker may have grown them
    u32 t = pick(TOOLS); Ref& ref = refs[t]; g_tool = tools[t];
    EXPECT(ref.ok && !ref.files.empty(), "does-not-run", "the generator does not run undisturbed: %s; console %s", ref.why.c_str(), quote(ref.err, 400).c_str());
    put_inputs();
    for (auto& f : ref.files) { u32 k = leftovers ? pick(4) : 0; string const& c = f.second; if (k == 1) disk_put(f.first.c_str(), "old\n"); else if (k == 2) disk_put(f.first.c_str(), c + string(5000, 'z')); else if (k == 3) disk_put(f.first.c_str(), c.substr(0, c.size() / 2)); else if (!inputs.count(f.first)) disk_remove(f.first.c_str()); }
    slog("formatter %u, %zu files to generate, %llu system calls, %llu+%llu allocations", t, ref.files.size(), (unsigned long long)ref.calls, (unsigned long long)ref.heap, (unsigned long long)ref.vm);
    return ref;
}
static void nothing_else(Ref& ref) {
    for (auto& f : on_disk()) { if (ref.files.count(f.first) || scratch(f.first)) continue; auto it = inputs.find(f.first); EXPECT(it != inputs.end(), "foreign-file", "the file %s appeared", f.first.c_str()); EXPECT(it->second == f.second, "input-changed", "the input file %s was changed", f.first.c_str()); }
    for (auto& f : inputs) EXPECT(disk_exists(f.first.c_str()), "input-removed", "the input file %s was removed", f.first.c_str());
}
static string first_difference(string const& a, string const& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t from = i > 40 ? i - 40 : 0; return "at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ": " + quote(a.substr(from, 120), 160) + " instead of " + quote(b.substr(from, 120), 160); }
static void same_files(Ref& ref, char const* cls) {
    for (auto& f : ref.files) { EXPECT(disk_exists(f.first.c_str()), cls, "%s is missing", f.first.c_str()); string g = disk_get(f.first.c_str()); EXPECT(g == f.second, cls, "%s differs %s", f.first.c_str(), first_difference(g, f.second).c_str()); }
    nothing_else(ref);
}
static void rerun(Ref& ref) {
    memset(&sh->plan, 0, sizeof sh->plan);
    AppResult r = generator("rerun"); EXPECT(r.kind == APP_RETURNED, "rerun-ended", "running the generator again: %s %s; console %s", r.describe().c_str(), r.detail.c_str(), quote(r.err, 300).c_str());
    same_files(ref, "rerun-differs");
}
// After a run in which something may have failed.
static void judge(Ref& ref, AppResult const& r, u64 faults) {
    EXPECT(r.kind == APP_RETURNED || r.stopped(), "ended", "%s %s; console %s", r.describe().c_str(), r.detail.c_str(), quote(r.err, 300).c_str());
    bool reported = r.stopped() || r.err != ref.err;
    if (r.stopped()) EXPECT(r.err.size() > ref.err.size() || r.err != ref.err.substr(0, r.err.size()) || !r.err.empty(), "silent-stop", "the program stopped without a message");
    for (auto& f : ref.files) {
        bool is = disk_exists(f.first.c_str()); string g = disk_get(f.first.c_str()); bool right = is && g == f.second; if (right) continue;
        EXPECT(reported, "silent-failure", "%s %s and nothing was reported", f.first.c_str(), is ? ("differs " + first_difference(g, f.second)).c_str() : "is missing");
        bool announced = r.out.find("Generated: " + f.first + "\n") != string::npos;
        EXPECT(!announced || r.err.find("scratch") != string::npos, "announced-but-wrong", "%s was announced and differs %s; console %s", f.first.c_str(), first_difference(g, f.second).c_str(), quote(r.err, 300).c_str());
    }
    nothing_else(ref); count(reported ? "probe:failure_reported" : faults ? "probe:fault_without_effect" : "probe:no_fault_hit");
}

SCENARIO_W(C24, elsewhere, 2) {
    Ref& ref = setup(true); op(); nontrivial();
    u32 mode = pick(4), base = pick(64) * 4096, slack = pick(3) * 7, step = 1 + pick(1000000), stack = pick(6); u64 fill = pick(1000); i64 wall = (i64)pick(2000000000) * 1000000000ll;
    AppResult r = generator("elsewhere", [&] { g_fill_mode = mode; g_fill_seed = fill; g_place_base = base; g_os_heap.slack_max = slack; g_os_vm.slack_max = slack; g_clock_step_ns = step; g_wall_offset_ns = wall; g_stack_mode = stack; g_stack_seed = fill; dirty_stack(); count("fault:other_memory_and_clock"); });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s %s; console %s", r.describe().c_str(), r.detail.c_str(), quote(r.err, 300).c_str());
    u64 v[3] = {0, 0, 0}; ShmReader rd; rd.get(v, sizeof v); EXPECT(!v[2], "handle-leak", "%llu files are left open", (unsigned long long)v[2]);
    same_files(ref, "depends-on-memory");
    EXPECT(r.out == ref.out && r.err == ref.err, "console-differs", "the console differs %s", first_difference(r.out + r.err, ref.out + ref.err).c_str());
    for (auto& f : ref.files) EXPECT(r.out.find("Generated: " + f.first + "\n") != string::npos, "not-announced", "%s was not announced", f.first.c_str());
}
SCENARIO_W(C24, disturbed, 3) {
    Ref& ref = setup(true); op(); nontrivial(); FaultPlan& p = sh->plan;
    p.after = sh->syscalls + pick((u32)ref.calls); p.budget = 1 + (pick(4) == 3 ? pick(4) : 0);
    static u32 const rates[] = {0, 0, 200, 1000}; auto rate = [] { return rates[pick(4)]; };
    p.open_fail = rate(); p.read_err = rate(); p.read_short = rate(); p.read_eof_early = rate(); p.write_err = rate(); p.write_short = rate(); p.write_full = rate(); p.seek_err = rate(); p.size_err = rate(); p.close_err = rate(); p.eintr = pick(4) == 3 ? 500 : 0;
    if (pick(5) == 4) { u64 total = input_bytes; for (auto& f : ref.files) total += f.second.size() - (inputs.count(f.first) ? inputs[f.first].size() : 0); p.disk_capacity = input_bytes + pick((u32)std::max<i64>(1, total - input_bytes)); }
    AppResult r = generator("disturbed"); u64 n = 0; for (auto& c : sh->counters) if (!strncmp(c.name, "fault:", 6)) n += c.n;
    judge(ref, r, n); rerun(ref);
}
SCENARIO_W(C24, memory_runs_out, 2) {
    Ref& ref = setup(false); op(); nontrivial(); bool vm = ref.vm && pick(3) == 2, forever = pick(2); u64 n = vm ? ref.vm : ref.heap; i64 at = 1 + pick((u32)std::max<u64>(n, 1));
    slog("request %lld of %s fails%s", (long long)at, vm ? "virtual memory" : "the heap", forever ? " and all later ones" : "");
    AppResult r = generator("short of memory", [&] { SimAlloc& a = vm ? g_os_vm : g_os_heap; a.fail_in = at; a.fail_forever = forever; });
    judge(ref, r, counted("fault:alloc_failure")); rerun(ref);
}
SCENARIO_W(C24, killed, 3) {
    Ref& ref = setup(true); nontrivial(); u32 kills = range(1, 3);
    for (u32 i = 0; i < kills; i++) {
        Files old = on_disk(); sh->plan.crash_in = 1 + pick((u32)ref.calls); slog("run %u: killed in system call %lld", i, (long long)sh->plan.crash_in); op();
        AppResult r = generator("interrupted"); sh->plan.crash_in = 0;
        EXPECT(r.kind == APP_KILLED || r.kind == APP_RETURNED, "ended", "%s %s; console %s", r.describe().c_str(), r.detail.c_str(), quote(r.err, 300).c_str());
        for (auto& f : ref.files) {
            bool is = disk_exists(f.first.c_str()); string g = disk_get(f.first.c_str()); bool same_as_before = is ? old.count(f.first) && old[f.first] == g : !old.count(f.first);
            EXPECT(same_as_before || (is && f.second.compare(0, g.size(), g) == 0), "foreign-bytes", "after the crash %s is neither as before nor a beginning of the new: %s", f.first.c_str(), first_difference(g, f.second).c_str());
            if (r.out.find("Generated: " + f.first + "\n") != string::npos) EXPECT(g == f.second, "announced-but-incomplete", "%s was announced before the crash and differs %s", f.first.c_str(), first_difference(g, f.second).c_str());
        }
        nothing_else(ref);
    }
    rerun(ref);
}
// Every source a program takes over whole is in what it wrote, without its editor-only block; every row of the enumeration tables has its entry.
static string code_of(string s) {
    size_t a = s.find("INTELLISENSE_DIRECTIVES"); size_t first = s.find_first_not_of(" \t\r\n");
    if (a != string::npos && first != string::npos && s[first] == '#' && s.find('\n', first) > a) { size_t e = s.find("endif", a); if (e != string::npos) { e = s.find('\n', e); s = e == string::npos ? "" : s.substr(e + 1); } }
    size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n"); return b == string::npos ? "" : s.substr(b, e - b + 1);
}
// What the program takes over grows: further rows in the enumeration tables, further code at the end of sources.
static bool whole(string const& n) {
    string dir = SIM_PROGRAM_DIR; if (dir != "gen_segmented" && dir != "gen_singleheader") return false;
    for (auto sub : {"../base/dependencies/", "../base/components/", "../base/auxiliary/"}) if (!n.compare(0, strlen(sub), sub) && was_read(n)) return true;
    return false;
}
struct Table { char const* csv; char const* prefix; };
static Table const tables[] = {{"ECodeTypes.csv", "CT_"}, {"EOperator.csv", "Op_"}, {"ESpecifier.csv", "Spec_"}, {"ETokType.csv", "Tok_"}};
static bool is_table(string const& n, Table const& e) { size_t l = strlen(e.csv) + 1; return n.size() >= l && !n.compare(n.size() - l, string::npos, string("/") + e.csv) && was_read(n); }
static string cell(string line, int col) {
    size_t c = line.find(','); string r = col ? (c == string::npos ? "" : line.substr(c + 1)) : line.substr(0, c);
    while (!r.empty() && strchr(" \t\r", r.back())) r.pop_back(); while (!r.empty() && strchr(" \t", r[0])) r.erase(0, 1); return r;
}
static std::vector<string> rows(string const& text) { std::vector<string> v; std::stringstream s(text); string line; while (std::getline(s, line)) if (!cell(line, 0).empty()) v.push_back(line); return v; }
static bool word(char c) { return c == '_' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
// The enumerators that start with `first`, in order
static bool enumerates(string const& text, std::vector<string> const& names, string& why) {
    for (size_t at = text.find(names[0]); at != string::npos; at = text.find(names[0], at + 1)) {
        size_t p = at, n = 0; if (p && word(text[p - 1])) continue;
        auto gap = [&] { for (;;) { while (p < text.size() && strchr(" \t\r\n", text[p])) p++; if (text.compare(p, 2, "//") == 0) { while (p < text.size() && text[p] != '\n') p++; continue; } return; } };
        for (; n < names.size(); n++) {
            gap(); if (text.compare(p, names[n].size(), names[n]) || word(text[p + names[n].size()])) break;
            p += names[n].size(); gap(); if (p < text.size() && text[p] == '=') while (p < text.size() && text[p] != ',' && text[p] != '}') p++;
            if (p < text.size() && text[p] == ',') p++; else { n++; break; }
        }
        if (n == names.size()) return true;
        if (n > 1) why = names[n] + " does not follow " + names[n - 1] + " but " + quote(text.substr(p, 60), 80);
    }
    return false;
}
static string grow() {
    static char const alphabet[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ %%%<>$(){};:,.+-*&|!?#'"; string t; u32 n = 1 + pick(pick(4) == 3 ? 30000 : 300);
    if (chance(500)) t += "int grown_" + std::to_string(pick(100000)) + ";\n";
    t += "// "; for (u32 i = 0; i < n; i++) t += i % 90 == 89 ? string("\n// ") : string(1, alphabet[pick(sizeof alphabet - 1)]);
    return t + "\n";
}
// The sources the two distributions consist of; a source that is gone from the repository is not missed.
static char const* const taken[] = {"base/auxiliary/builder.cpp", "base/auxiliary/builder.hpp", "base/auxiliary/scanner.cpp", "base/auxiliary/scanner.hpp", "base/components/ast.cpp", "base/components/ast.hpp", "base/components/ast_case_macros.cpp", "base/components/ast_types.hpp", "base/components/code_serialization.cpp", "base/components/code_types.hpp", "base/components/constants.hpp", "base/components/inlines.hpp", "base/components/interface.cpp", "base/components/interface.hpp", "base/components/interface.parsing.cpp", "base/components/interface.untyped.cpp", "base/components/interface.upfront.cpp", "base/components/lexer.cpp", "base/components/parser.cpp", "base/components/parser_case_macros.cpp", "base/components/parser_types.hpp", "base/components/static_data.cpp", "base/components/types.hpp", "base/dependencies/basic_types.hpp", "base/dependencies/containers.hpp", "base/dependencies/debug.cpp", "base/dependencies/debug.hpp", "base/dependencies/filesystem.cpp", "base/dependencies/filesystem.hpp", "base/dependencies/hashing.cpp", "base/dependencies/hashing.hpp", "base/dependencies/macros.hpp", "base/dependencies/memory.cpp", "base/dependencies/memory.hpp", "base/dependencies/parsing.cpp", "base/dependencies/parsing.hpp", "base/dependencies/platform.hpp", "base/dependencies/printing.cpp", "base/dependencies/printing.hpp", "base/dependencies/src_start.cpp", "base/dependencies/string_ops.cpp", "base/dependencies/string_ops.hpp", "base/dependencies/strings.cpp", "base/dependencies/strings.hpp", "base/dependencies/timing.cpp", "base/dependencies/timing.hpp"};
static char const* const taken_segmented[] = {"base/components/header_start.hpp", "base/components/src_start.cpp"};
SCENARIO_W(C24, complete, 2) {
    Ref& ref = setup(true); op(); nontrivial(); u32 grown = pick(4), files = 0;
    if (grown) {
        std::vector<string> candidates; for (auto& f : inputs) if (whole(f.first)) candidates.push_back(f.first);
        if (!candidates.empty()) for (u32 i = 0, n = range(0, 3); i < n; i++) { string& s = inputs[candidates[pick((u32)candidates.size())]]; if (!s.empty() && s.back() != '\n') s += "\n"; s += grow(); files++; count("probe:grown_source"); }
        for (auto& e : tables) for (auto& f : inputs) {
            if (!is_table(f.first, e) || pick(2)) continue;
            std::vector<string> v = rows(f.second); u32 n = 1 + pick(pick(3) ? 6 : 80); static u32 const longest[] = {8, 40, 110}; u32 len = longest[pick(3)];
            for (u32 i = 0; i < n; i++) {
                // never before the first row nor behind the last, both have a meaning of their own
                string name = "Grown_" + std::to_string(i) + "_"; for (u32 k = pick(len); k; k--) name += (char)('a' + pick(26));
                bool quoted = v.back().find('"') != string::npos; string other = "grown_" + std::to_string(i) + "_"; for (u32 k = pick(len); k; k--) other += (char)('a' + pick(26));
                v.insert(v.begin() + 1 + pick((u32)v.size() - 1), name + ", " + (quoted ? "\"" + other + "\"" : other));
            }
            string& s = inputs[f.first]; s.clear(); for (auto& r : v) s += r + "\n"; files++; count("probe:grown_table");
        }
        for (auto& f : inputs) if (pristine[f.first] != f.second) disk_put(f.first.c_str(), f.second);
        slog("%u input files have grown", files);
    }
    AppResult r = generator("again"); EXPECT(r.kind == APP_RETURNED, "ended", "%s %s; console %s", r.describe().c_str(), r.detail.c_str(), quote(r.err, 300).c_str());
    if (!files) same_files(ref, "not-repeatable"); else nothing_else(ref);
    for (auto& f : ref.files) EXPECT(r.out.find("Generated: " + f.first + "\n") != string::npos, "not-announced", "%s was not announced", f.first.c_str());
    string all; for (auto& f : ref.files) all += disk_get(f.first.c_str()) + "\n";
    u32 n = 0;
    for (auto& f : inputs) if (whole(f.first)) {
        string c = code_of(f.second); n++; count("probe:source_taken_over_whole");
        EXPECT(all.find(c) != string::npos, "source-lost", "the code of %s is not in the generated files", f.first.c_str());
    }
    auto expected = [&](char const* name) { string f = string("../") + name; if (inputs.count(f)) EXPECT(was_read(f), "source-lost", "the program does not take over %s", f.c_str()); };
    if (!strcmp(SIM_PROGRAM_DIR, "gen_segmented") || !strcmp(SIM_PROGRAM_DIR, "gen_singleheader")) for (auto f : taken) expected(f);
    if (!strcmp(SIM_PROGRAM_DIR, "gen_segmented")) for (auto f : taken_segmented) expected(f);
    string dir = SIM_PROGRAM_DIR; if (dir == "gen_segmented" || dir == "gen_singleheader") EXPECT(n > 30, "no-sources", "only %u sources", n);
    for (auto& e : tables) for (auto& f : inputs) {
        if (!is_table(f.first, e)) continue;
        std::vector<string> names; string why = "it does not start with the first row";
        for (auto& line : rows(f.second)) {
            count("probe:enumeration_row"); names.push_back(e.prefix + cell(line, 0)); string o = cell(line, 1); if (o.size() > 2 && o[0] == '"' && o.back() == '"') o = o.substr(1, o.size() - 2);
            bool plain = !o.empty(); for (char ch : o) if (!word(ch)) plain = false;
            if (plain) EXPECT(all.find("\"" + o + "\"") != string::npos, "row-lost", "the text %s of row %s of %s is not in the generated files", o.c_str(), cell(line, 0).c_str(), e.csv);
        }
        EXPECT(enumerates(all, names, why), "row-lost", "no enumeration in the generated files has the rows of %s in order: %s", e.csv, why.c_str());
    }
}
