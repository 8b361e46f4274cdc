// Deterministic simulation core: choice tape, event log, fault counters, process (fork) containment,
// batch runner, replay and minimisation.  Knows nothing about gencpp.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

enum { TAPE_MAX = 1 << 16, LOG_MAX = 1 << 19, TEXT_MAX = 1 << 13, COUNTERS = 256, OUT_MAX = 1 << 18,
       DISK_FILES = 160, DISK_ARENA = 64u << 20, HANDLES = 64, APPSHM = 1 << 20 };

enum AppKind : u32 { APP_NONE, APP_RETURNED, APP_EXIT, APP_FATAL, APP_KILLED, APP_CRASH, APP_ASAN, APP_HANG, APP_RUNAWAY };
char const* app_kind_name(u32);

struct Counter { char name[56]; u64 n; };

struct DiskFile { char name[160]; u32 exists; u64 size, cap, off; u64 version; };
struct Handle   { u32 used, file, read, write, append; u64 pos; u32 std; };

struct FaultPlan {          // per mille, 0 = kind disabled for this run
    u32 open_fail, read_err, read_short, read_eof_early, write_err, write_short, write_full, seek_err, size_err, eintr, resize_race, close_err, std_err, std_short;
    u32 budget;             // at most this many faults may still fire (keeps runs making progress)
    i64 crash_in;           // >0: kill the process inside the n-th next system call
    u64 disk_capacity;      // 0 = unlimited
    u64 after;              // no fault before this many system calls of the run
};

struct Shared {
    // input
    u32 scenario; u64 seed; u64 index; u32 replay; u32 tracing;
    u32 in_len, in[TAPE_MAX];
    // recorded
    u32 out_len, out[TAPE_MAX];
    u64 rng[4];
    u64 hash, steps, sim_ns, opcount, syscalls;
    u32 log_len; char log[LOG_MAX];
    Counter counters[COUNTERS];
    // outcome
    u32 violated, discarded; char viol_class[96]; char viol_msg[TEXT_MAX];
    u32 nontrivial;
    // current application process
    u32 app_kind, app_code, app_sig; u64 app_addr; char app_pc[160];
    char asan[4096];
    // simulated machine
    DiskFile files[DISK_FILES]; u64 disk_used; u8 disk[DISK_ARENA];
    Handle handles[HANDLES];
    FaultPlan plan;
    u32 out_text_len; char out_text[OUT_MAX];   // stdout of the simulated process
    u32 err_text_len; char err_text[OUT_MAX];   // stderr of the simulated process
    u64 shm_len; u8 shm[APPSHM];                // results handed back by application processes
};
extern Shared* sh;

// ---- choices (0 is always the simplest choice, and what a replay past the end of its tape gets)
u32  pick(u32 n);                          // 0..n-1
inline u32 range(u32 lo, u32 hi) { return lo + pick(hi - lo + 1); }
bool chance(u32 permille);                 // false is the simple choice
u32  biased(u32 n);                        // 0..n-1, small values likelier
template<class T> T const& one_of(std::vector<T> const& v) { return v[pick((u32)v.size())]; }

// ---- log, counters
void slog(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(char const* name, u64 n = 1);
u64  counted(char const* name);
inline void probe(char const* name) { count(name); }
void op();                                 // one workload operation happened
void nontrivial();                         // this run reached its property's interesting region

// ---- outcome
[[noreturn]] void violate(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(char const* why);
std::string quote(std::string const& s, size_t max = 200);

// ---- application processes
struct AppResult { u32 kind, code, sig; std::string err, out, detail; bool stopped() const { return kind == APP_FATAL || kind == APP_EXIT; } std::string describe() const; };
AppResult run_app(char const* name, std::function<void()> fn);
[[noreturn]] void app_die(u32 kind, u32 code);
bool in_app();
extern bool g_fatal_reported;

// ---- scenarios
struct Scenario { char const* prop; char const* name; void (*fn)(); u32 weight; };
std::vector<Scenario>& scenarios();
struct Reg { Reg(char const* p, char const* n, void (*f)(), u32 w = 1) { scenarios().push_back({p, n, f, w}); } };
#define SCENARIO(prop, name) static void scn_##prop##_##name(); static sim::Reg reg_##prop##_##name(#prop, #name, scn_##prop##_##name); static void scn_##prop##_##name()
#define SCENARIO_W(prop, name, w) static void scn_##prop##_##name(); static sim::Reg reg_##prop##_##name(#prop, #name, scn_##prop##_##name, w); static void scn_##prop##_##name()

// work done once per worker, before any run, whose results every run of the worker sees
std::vector<void(*)()>& preparations();
struct Prep { Prep(void (*f)()) { preparations().push_back(f); } };

u64 mix(u64 x);
u64 hash_bytes(void const* p, size_t n, u64 h = 0xcbf29ce484222325ull);

void reset_run_state();                    // defined in heap.cpp / os.cpp: called at the start of every run process
}
#define EXPECT(cond, cls, ...) do { if (!(cond)) sim::violate(cls, __VA_ARGS__); } while (0)
