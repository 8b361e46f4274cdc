#include "core.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <map>
#include <set>
#include <algorithm>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" const char* __asan_default_options() {
    return "handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:detect_leaks=0:exitcode=99:"
           "allocator_may_return_null=1:symbolize=0:print_legend=0:print_stats=0:detect_stack_use_after_return=0:"
           "halt_on_error=1:abort_on_error=0:intercept_tls_get_addr=0:quarantine_size_mb=4:malloc_context_size=1:print_full_thread_history=0:"
           "color=never:strict_memcmp=0:replace_str=1:log_path=/dev/null";
}
#endif

namespace sim {

Shared* sh;
bool g_fatal_reported;
static int g_depth;      // 0: run process, >0: application process
static u64 g_cpu_ms = 4000;

char const* app_kind_name(u32 k) {
    static char const* n[] = {"none", "returned", "exit", "fatal", "killed", "crash", "memory-error", "hang", "runaway-allocation"};
    return k < 9 ? n[k] : "?";
}
u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
u64 hash_bytes(void const* p, size_t n, u64 h) { u8 const* b = (u8 const*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; } return h; }

static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rng_next() {
    u64* s = sh->rng; u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r;
}
u32 pick(u32 n) {
    if (n <= 1) return 0;
    u32 v;
    if (sh->replay) v = sh->out_len < sh->in_len ? sh->in[sh->out_len] % n : 0;
    else v = (u32)(((rng_next() >> 32) * (u64)n) >> 32);
    if (sh->out_len >= TAPE_MAX) discard("tape full");
    sh->out[sh->out_len++] = v;
    return v;
}
bool chance(u32 permille) { if (!permille) return false; return pick(1000) >= 1000 - permille; }
u32 biased(u32 n) { if (n <= 1) return 0; u32 k = pick(3); u32 v = pick(n); if (k == 0) return v % std::min<u32>(n, 4); if (k == 1) return v % std::min<u32>(n, 16); return v; }

void slog(char const* fmt, ...) {
    char buf[1024]; va_list va; va_start(va, fmt); int n = vsnprintf(buf, sizeof buf - 1, fmt, va); va_end(va);
    if (n < 0) return; if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    sh->hash = hash_bytes(buf, n, sh->hash);
    sh->steps++;
    if (sh->log_len + n < LOG_MAX) { memcpy(sh->log + sh->log_len, buf, n); sh->log_len += n; }
}
void count(char const* name, u64 n) {
    u64 h = hash_bytes(name, strlen(name)) % COUNTERS;
    for (u32 i = 0; i < COUNTERS; i++) {
        Counter& c = sh->counters[(h + i) % COUNTERS];
        if (!c.name[0]) { snprintf(c.name, sizeof c.name, "%s", name); c.n = n; return; }
        if (!strncmp(c.name, name, sizeof c.name - 1)) { c.n += n; return; }
    }
}
u64 counted(char const* name) {
    u64 h = hash_bytes(name, strlen(name)) % COUNTERS;
    for (u32 i = 0; i < COUNTERS; i++) {
        Counter& c = sh->counters[(h + i) % COUNTERS];
        if (!c.name[0]) return 0;
        if (!strncmp(c.name, name, sizeof c.name - 1)) return c.n;
    }
    return 0;
}
void op() { sh->opcount++; }
void nontrivial() { sh->nontrivial = 1; }

enum { XC_OK = 0, XC_VIOL = 41, XC_DISCARD = 42, XC_APP = 43 };

void violate(char const* cls, char const* fmt, ...) {
    va_list va; va_start(va, fmt); vsnprintf(sh->viol_msg, TEXT_MAX, fmt, va); va_end(va);
    snprintf(sh->viol_class, sizeof sh->viol_class, "%s", cls);
    sh->violated = 1;
    slog("VIOLATION %s: %s", cls, sh->viol_msg);
    _exit(XC_VIOL);
}
void discard(char const* why) { sh->discarded = 1; slog("discard: %s", why); count("run:discarded"); _exit(XC_DISCARD); }

std::string quote(std::string const& s, size_t max) {
    std::string r = "\""; char b[8];
    for (size_t i = 0; i < s.size() && i < max; i++) { u8 c = s[i]; if (c == '\n') r += "\\n"; else if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; }
    r += "\""; if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)"; return r;
}

bool in_app() { return g_depth > 0; }
void app_die(u32 kind, u32 code) { sh->app_kind = kind; sh->app_code = code; _exit(XC_APP); }

static void pc_name(void* pc, char* out, size_t n) {
    Dl_info di; if (dladdr(pc, &di) && di.dli_sname) snprintf(out, n, "%s", di.dli_sname); else snprintf(out, n, "?");
}
static void on_signal(int sig, siginfo_t* si, void* uc) {
    sh->app_sig = sig; sh->app_addr = (u64)si->si_addr;
#if defined(__x86_64__)
    void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    pc_name(pc, sh->app_pc, sizeof sh->app_pc);
#endif
    if (sig == SIGPROF) { sh->app_kind = APP_HANG; _exit(XC_APP); }
    if ((sig == SIGILL || sig == SIGTRAP || sig == SIGABRT) && g_fatal_reported) { sh->app_kind = APP_FATAL; _exit(XC_APP); }
    sh->app_kind = APP_CRASH; _exit(XC_APP);
}
#ifdef SIM_ASAN
static void on_asan(char const* text) {
    snprintf(sh->asan, sizeof sh->asan, "%s", text);
    void* pc = __asan_get_report_pc();
    pc_name(pc, sh->app_pc, sizeof sh->app_pc);
}
#endif
static u8 g_sigstack[1 << 16];
static void arm_process(u64 cpu_ms) {
    stack_t ss = {}; ss.ss_sp = g_sigstack; ss.ss_size = sizeof g_sigstack; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGILL, SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGTRAP, SIGPROF}) sigaction(s, &sa, nullptr);
    itimerval it = {}; it.it_value.tv_sec = cpu_ms / 1000; it.it_value.tv_usec = (cpu_ms % 1000) * 1000;
    setitimer(ITIMER_PROF, &it, nullptr);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
}

std::string AppResult::describe() const {
    std::string r = app_kind_name(kind);
    if (kind == APP_CRASH) r += " (signal " + std::to_string(sig) + ")";
    if (kind == APP_EXIT) r += " code " + std::to_string(code);
    if (!detail.empty()) r += " at " + detail;
    if (!err.empty()) r += " stderr: " + quote(err, 300);
    return r;
}
static u32 classify_status(int st) {
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == XC_APP) return sh->app_kind;
        if (c == 99) return APP_ASAN;
        if (c == XC_VIOL || c == XC_DISCARD) return APP_NONE;
        if (c == 0) return APP_RETURNED;
        sh->app_code = c; return APP_EXIT;
    }
    sh->app_sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    return APP_CRASH;
}
AppResult run_app(char const* name, std::function<void()> fn) {
    sh->app_kind = 0; sh->app_code = 0; sh->app_sig = 0; sh->app_pc[0] = 0; sh->asan[0] = 0;
    sh->out_text_len = sh->err_text_len = 0; sh->out_text[0] = sh->err_text[0] = 0; sh->shm_len = 0;
    memset(sh->handles, 0, sizeof sh->handles);
    slog("process %s starts", name);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "fork failed: %s\n", strerror(errno)); _exit(97); }
    if (pid == 0) {
        g_depth++; g_fatal_reported = false; arm_process(g_cpu_ms);
        fn();
        sh->app_kind = APP_RETURNED; _exit(XC_APP);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (sh->violated || sh->discarded) _exit(sh->violated ? XC_VIOL : XC_DISCARD);
    AppResult r; r.kind = classify_status(st); r.code = sh->app_code; r.sig = sh->app_sig;
    r.err.assign(sh->err_text, sh->err_text_len); r.out.assign(sh->out_text, sh->out_text_len);
    if (r.kind == APP_CRASH) { r.detail = sh->app_pc; if (sh->err_text_len && sh->app_sig == SIGILL) r.kind = APP_FATAL; }
    if (r.kind == APP_ASAN || r.kind == APP_HANG) { r.detail = sh->app_pc; if (sh->asan[0]) { char const* e = strstr(sh->asan, "ERROR: "); r.detail += " "; r.detail += std::string(e ? e : sh->asan).substr(0, 160); } }
    slog("process %s ends: %s", name, app_kind_name(r.kind));
    std::string k = std::string("process:") + app_kind_name(r.kind); count(k.c_str());
    return r;
}

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

std::vector<void(*)()>& preparations() { static std::vector<void(*)()> v; return v; }
static Shared* new_shared_raw() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}
static void seed_rng(u64 s);
static Shared* new_shared() {
    sh = new_shared_raw();
    if (!preparations().empty()) {
        seed_rng(7); reset_run_state();
        for (auto f : preparations()) f();
    }
    return sh;
}
static void seed_rng(u64 s) { for (int i = 0; i < 4; i++) { s += 0x9e3779b97f4a7c15ull; sh->rng[i] = mix(s); } }

// Runs one simulated execution in a child process; returns 1 when it violated its property.
static int execute(u32 scn, u64 seed, u64 index, std::vector<u32> const* tape) {
    sh->scenario = scn; sh->seed = seed; sh->index = index; sh->replay = tape != nullptr; sh->in_len = 0;
    if (tape) { sh->in_len = (u32)std::min<size_t>(tape->size(), TAPE_MAX); memcpy(sh->in, tape->data(), sh->in_len * 4); }
    sh->out_len = 0; sh->hash = 0xcbf29ce484222325ull; sh->steps = sh->sim_ns = sh->opcount = sh->syscalls = 0; sh->log_len = 0;
    memset(sh->counters, 0, sizeof sh->counters);
    sh->violated = sh->discarded = 0; sh->viol_class[0] = sh->viol_msg[0] = 0; sh->nontrivial = 0;
    sh->app_kind = sh->app_code = sh->app_sig = 0; sh->app_pc[0] = sh->asan[0] = 0;
    memset(sh->files, 0, sizeof sh->files); sh->disk_used = 0; memset(sh->handles, 0, sizeof sh->handles); memset(&sh->plan, 0, sizeof sh->plan);
    sh->out_text_len = sh->err_text_len = 0; sh->shm_len = 0;
    seed_rng(mix(seed) ^ mix(index * 0x51ull + 7));
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "fork failed: %s\n", strerror(errno)); _exit(97); }
    if (pid == 0) {
        g_depth = 0; g_fatal_reported = false; arm_process(g_cpu_ms * 2);
#ifdef SIM_ASAN
        __asan_set_error_report_callback(on_asan);
#endif
        slog("seed %llu index %llu scenario %s/%s", 0ull, 0ull, scenarios()[scn].prop, scenarios()[scn].name);
        reset_run_state();
        scenarios()[scn].fn();
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!sh->violated && !sh->discarded && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        u32 k = classify_status(st);
        // the library stopped, crashed or hung where the scenario expected it to keep working
        char cls[96];
        char const* e = strstr(sh->asan, "ERROR: AddressSanitizer: "); char what[40] = ""; if (k == APP_ASAN && e) sscanf(e + 25, "%39s", what);
        snprintf(cls, sizeof cls, "%s%s%s", app_kind_name(k), *what ? ":" : "", what);
        snprintf(sh->viol_class, sizeof sh->viol_class, "%s", cls);
        std::string err(sh->err_text, sh->err_text_len);
        snprintf(sh->viol_msg, TEXT_MAX, "the library ended the run: %s (exit/signal %d/%d) in %s; stderr %s", cls, sh->app_code, sh->app_sig, sh->app_pc, quote(err, 400).c_str());
        sh->violated = 1;
        if (k == APP_ASAN && !sh->asan[0]) snprintf(sh->viol_msg, TEXT_MAX, "sanitizer exit without report");
    }
    return sh->violated;
}

static std::string json_str(std::string const& s) {
    std::string r = "\""; char b[8];
    for (u8 c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}

struct Found { u32 scn; u64 seed, index; std::string cls, msg; std::vector<u32> tape; };

static std::vector<u32> shrink(u32 scn, std::string cls, std::vector<u32> best, u32 budget, double secs) {
    u32 tries = 0; timeval began; gettimeofday(&began, 0); auto now = [&] { timeval t; gettimeofday(&t, 0); return (t.tv_sec - began.tv_sec) + (t.tv_usec - began.tv_usec) * 1e-6; };
    auto fails = [&](std::vector<u32> const& t) { if (tries >= budget) return false; if (now() > secs) { tries = budget; return false; } tries++; return execute(scn, 0, 0, &t) && cls == sh->viol_class; };
    if (!fails(best)) return best;
    best.assign(sh->out, sh->out + sh->out_len);
    auto attempt = [&](std::vector<u32> const& t) {
        if (!fails(t)) return false;
        std::vector<u32> r(sh->out, sh->out + sh->out_len);
        while (!r.empty() && r.back() == 0) r.pop_back();
        size_t sb = 0, sr = 0; for (u32 v : best) sb += v; for (u32 v : r) sr += v;
        if (r.size() < best.size() || (r.size() == best.size() && sr < sb)) { best = r; return true; }
        return false;
    };
    bool progress = true;
    while (progress && tries < budget) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1 && tries < budget; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size() && tries < budget;) {
                std::vector<u32> t(best.begin(), best.begin() + i); t.insert(t.end(), best.begin() + i + chunk, best.end());
                if (attempt(t)) progress = true; else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t chunk = 8; chunk >= 1 && tries < budget; chunk /= 2) {
            for (size_t i = 0; i < best.size() && tries < budget; i += chunk) {
                std::vector<u32> t = best; bool any = false;
                for (size_t j = i; j < std::min(best.size(), i + chunk); j++) if (t[j]) { t[j] = 0; any = true; }
                if (any && attempt(t)) progress = true;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size() && tries < budget; i++) {
            if (!best[i]) continue;
            std::vector<u32> t = best; t[i] = best[i] / 2; if (attempt(t)) { progress = true; i--; continue; }
            if (i < best.size() && best[i]) { t = best; t[i] = best[i] - 1; if (attempt(t)) progress = true; }
        }
    }
    return best;
}

static int cmd_list() { for (auto& s : scenarios()) printf("%s %s\n", s.prop, s.name); return 0; }

// batch PROP SEED FIRST COUNT WORKERS SECONDS OUTDIR
static int cmd_batch(int argc, char** argv) {
    if (argc < 9) return 2;
    std::string prop = argv[2]; u64 seed = strtoull(argv[3], 0, 0), first = strtoull(argv[4], 0, 0), total = strtoull(argv[5], 0, 0); int W = atoi(argv[6]); double secs = atof(argv[7]); std::string dir = argv[8];
    std::vector<u32> scn; for (u32 i = 0; i < scenarios().size(); i++) if (prop == scenarios()[i].prop) for (u32 w = 0; w < scenarios()[i].weight; w++) scn.push_back(i);
    if (scn.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    timeval t0; gettimeofday(&t0, 0);
    std::vector<pid_t> pids;
    for (int w = 0; w < W; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            sh = new_shared();
            std::map<std::string, u64> totals; std::unordered_set<u64> seen; std::vector<u64> ntseen; std::map<u32, u64> perscn;
            u64 runs = 0, nontriv = 0, distinct = 0, ops = 0, steps = 0, syscalls = 0, sim_ns = 0, rechecked = 0, diverged = 0, nviol = 0, lastdone = 0; bool timed_out = false;
            std::vector<std::string> samples; std::map<std::string, Found> found; std::map<std::string, u64> classes; std::string divmsg;
            for (u64 i = first + w; i < first + total; i += W) {
                timeval t; gettimeofday(&t, 0); if ((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) * 1e-6 > secs) { timed_out = true; break; }
                u32 s = scn[i % scn.size()];
                int v = execute(s, seed, i, nullptr);
                runs++; lastdone = i; perscn[s]++;
                ops += sh->opcount; steps += sh->steps; syscalls += sh->syscalls; sim_ns += sh->sim_ns;
                for (auto& c : sh->counters) if (c.name[0]) totals[c.name] += c.n;
                u64 h = sh->hash;
                if (seen.insert(h).second && !sh->discarded) { distinct++; if (sh->nontrivial) { nontriv++; ntseen.push_back(h); } }
                if (samples.size() < 2 && !v && sh->nontrivial && (i / W) % 7 == 3) samples.push_back(std::string(sh->log, std::min<u32>(sh->log_len, 1500)));
                if (v) {
                    nviol++; classes[sh->viol_class]++;
                    Found f{s, seed, i, sh->viol_class, sh->viol_msg, std::vector<u32>(sh->out, sh->out + sh->out_len)};
                    auto it = found.find(f.cls); if (it == found.end() || it->second.tape.size() > f.tape.size()) found[f.cls] = f;
                }
                if ((i / W) % 16 == 5 || (v && classes[sh->viol_class] <= 2)) {   // determinism: same seed again, and as a tape replay
                    std::vector<u32> tape(sh->out, sh->out + sh->out_len);
                    execute(s, seed, i, nullptr); rechecked++;
                    if (sh->hash != h) { diverged++; divmsg = "index " + std::to_string(i) + " same seed"; }
                    execute(s, seed, i, &tape); rechecked++;
                    if (sh->hash != h) { diverged++; divmsg = "index " + std::to_string(i) + " tape"; }
                }
                if (nviol >= 60 || (v && classes["hang"] >= 2)) break;
            }
            FILE* f = fopen((dir + "/w" + std::to_string(w)).c_str(), "w");
            fprintf(f, "runs %llu\nnontrivial %llu\ndistinct %llu\nops %llu\nsteps %llu\nsyscalls %llu\nsim_ns %llu\nrechecked %llu\ndiverged %llu\nviolating %llu\ntimed_out %d\n",
                (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)distinct, (unsigned long long)ops, (unsigned long long)steps, (unsigned long long)syscalls, (unsigned long long)sim_ns, (unsigned long long)rechecked, (unsigned long long)diverged, (unsigned long long)nviol, timed_out);
            for (auto& k : totals) fprintf(f, "counter %s %llu\n", k.first.c_str(), (unsigned long long)k.second);
            for (auto& k : perscn) fprintf(f, "scenario %s %llu\n", scenarios()[k.first].name, (unsigned long long)k.second);
            for (auto& k : samples) fprintf(f, "sample %s\n", json_str(k).c_str());
            if (diverged) fprintf(f, "divergence %s\n", json_str(divmsg).c_str());
            for (auto& k : found) {
                Found& v = k.second;
                fprintf(f, "found {\"scenario\":%s,\"seed\":%llu,\"index\":%llu,\"class\":%s,\"hits\":%llu,\"message\":%s,\"tape\":[", json_str(scenarios()[v.scn].name).c_str(), (unsigned long long)v.seed, (unsigned long long)v.index, json_str(v.cls).c_str(), (unsigned long long)classes[v.cls], json_str(v.msg).c_str());
                for (size_t j = 0; j < v.tape.size(); j++) fprintf(f, "%s%u", j ? "," : "", v.tape[j]);
                fprintf(f, "]}\n");
            }
                        fclose(f);
            f = fopen((dir + "/h" + std::to_string(w)).c_str(), "wb"); fwrite(ntseen.data(), 8, ntseen.size(), f); fclose(f);
            _exit(0);
        }
        pids.push_back(pid);
    }
    int bad = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
    timeval t1; gettimeofday(&t1, 0);
    printf("wall %.3f\nworkers_failed %d\n", (t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec) * 1e-6, bad);
    return bad ? 3 : 0;
}

static int find_scn(std::string prop, std::string name) { for (u32 i = 0; i < scenarios().size(); i++) if (prop == scenarios()[i].prop && name == scenarios()[i].name) return i; return -1; }
static std::vector<u32> read_tape(char const* path) { std::vector<u32> t; FILE* f = fopen(path, "r"); if (!f) return t; unsigned v; while (fscanf(f, "%u", &v) == 1) t.push_back(v); fclose(f); return t; }

static void print_outcome(bool log) {
    printf("{\"violated\":%u,\"class\":%s,\"message\":%s,\"hash\":\"%016llx\",\"steps\":%llu,\"tape\":[", sh->violated, json_str(sh->viol_class).c_str(), json_str(sh->viol_msg).c_str(), (unsigned long long)sh->hash, (unsigned long long)sh->steps);
    for (u32 j = 0; j < sh->out_len; j++) printf("%s%u", j ? "," : "", sh->out[j]);
    printf("]");
    if (log) printf(",\"log\":%s,\"asan\":%s", json_str(std::string(sh->log, sh->log_len)).c_str(), json_str(sh->asan).c_str());
    printf("}\n");
}
// replay PROP SCENARIO TAPEFILE
static int cmd_replay(int argc, char** argv) {
    if (argc < 5) return 2;
    int s = find_scn(argv[2], argv[3]); if (s < 0) return 2;
    sh = new_shared(); std::vector<u32> t = read_tape(argv[4]);
    execute(s, 0, 0, &t); print_outcome(true); return 0;
}
// shrink PROP SCENARIO TAPEFILE CLASS BUDGET SECONDS
static int cmd_shrink(int argc, char** argv) {
    if (argc < 7) return 2;
    int s = find_scn(argv[2], argv[3]); if (s < 0) return 2;
    sh = new_shared(); std::vector<u32> t = shrink(s, argv[5], read_tape(argv[4]), atoi(argv[6]), argc > 7 ? atof(argv[7]) : 60);
    execute(s, 0, 0, &t); print_outcome(true); return 0;
}
// one PROP SCENARIO SEED INDEX
static int cmd_one(int argc, char** argv) {
    if (argc < 6) return 2;
    int s = find_scn(argv[2], argv[3]); if (s < 0) return 2;
    sh = new_shared(); execute(s, strtoull(argv[4], 0, 0), strtoull(argv[5], 0, 0), nullptr);
    fwrite(sh->log, 1, sh->log_len, stdout);
    printf("hash %016llx ops %llu %s %s %s\n", (unsigned long long)sh->hash, (unsigned long long)sh->opcount, sh->violated ? "VIOLATED" : "ok", sh->viol_class, sh->viol_msg);
    if (sh->asan[0]) printf("%s\n", sh->asan);
    return 0;
}
int main_(int argc, char** argv) {
    int pers = personality(0xffffffff);          // one address layout for every execution
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC") && personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    if (getenv("SIM_CPU_MS")) g_cpu_ms = strtoull(getenv("SIM_CPU_MS"), 0, 0);
    std::string c = argc > 1 ? argv[1] : "";
    if (c == "list") return cmd_list();
    if (c == "batch") return cmd_batch(argc, argv);
    if (c == "replay") return cmd_replay(argc, argv);
    if (c == "shrink") return cmd_shrink(argc, argv);
    if (c == "one") return cmd_one(argc, argv);
    fprintf(stderr, "usage: sim list|batch|replay|shrink|one\n"); return 2;
}
}
int main(int argc, char** argv) { return sim::main_(argc, argv); }
