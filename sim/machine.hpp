// The simulated machine: allocators, virtual memory, disk, console, clock.
#pragma once
#include "core.hpp"
namespace sim {

// ---- memory -------------------------------------------------------------------------------------
struct SimAlloc {
    int id; char const* name;
    u32 move_permille = 1000;      // how often a resize that could stay in place moves
    u32 slack_max = 0;             // random distance between blocks
    bool lifo_reuse = false;
    bool honest_zero = true;       // honours "clear to zero"
    u64 live_blocks = 0, live_bytes = 0, peak_bytes = 0, allocs = 0, frees = 0, resizes = 0;
    i64 fail_in = 0;               // >0: the n-th next request fails
    bool fail_forever = false;     // and all after it
    u64 failed = 0;
    SimAlloc(int i = 0, char const* n = "heap") : id(i), name(n) {}
};
// mirrors the library's allocator procedure
void* sim_alloc(SimAlloc* a, u64 size, u64 align, bool zero, char const* who);
void  sim_free(SimAlloc* a, void* p, char const* who);
void* sim_resize(SimAlloc* a, void* p, u64 old_size, u64 size, u64 align, bool zero);
u64   sim_free_all(SimAlloc* a);
bool  sim_owned(SimAlloc* a, void const* p);                 // p is the start of a live block
u64   sim_block_size(void const* p);                         // 0 when p is not a live block start
bool  sim_in_live(void const* p, u64 n);                     // [p,p+n) inside one live block
std::string sim_leaks(SimAlloc* a);
bool  sim_dead_block(void const* p);                         // p points into a freed block
extern SimAlloc g_os_heap;                                   // behind the C runtime's heap calls
u64 vm_mapped();                                             // bytes of virtual memory still mapped
extern SimAlloc g_os_vm;                                     // behind the virtual memory calls
extern u64 g_fill_seed, g_place_base; extern u32 g_fill_mode;  // contents of fresh memory; where the first block lies
void dirty_stack();                                          // leaves chosen garbage in the stack below the caller
extern u32 g_stack_mode; extern u64 g_stack_seed;            // mode 0: leave the stack alone
extern u32 g_lend_mode;                                        // see jobs::Lent
extern u64 g_alloc_requests;                                 // over all allocators

// ---- disk ---------------------------------------------------------------------------------------
int  disk_find(char const* name);                            // -1: absent
int  disk_put(char const* name, std::string const& content);
std::string disk_get(char const* name);
bool disk_exists(char const* name);
void disk_remove(char const* name);
void disk_write(int file, u64 pos, void const* p, u64 n);
void disk_truncate(int file, u64 n);
int  open_handles();                                         // files only, not std streams
int  handles_for(char const* name);

enum { OPEN_READ = 1, OPEN_WRITE = 2, OPEN_CREATE = 4, OPEN_TRUNC = 8, OPEN_EXIST = 16, OPEN_APPEND = 32 };
enum OsErr { OS_OK, OS_ENOENT, OS_EACCES, OS_EMFILE, OS_EIO, OS_ENOSPC, OS_EBADF, OS_EINVAL, OS_EINTR };
struct OsRes { OsErr err; i64 n; };
OsRes os_open(char const* name, int flags, int* h);
OsRes os_read(int h, void* buf, u64 n, i64 at /* -1: cursor */);
OsRes os_write(int h, void const* buf, u64 n, i64 at);
OsRes os_seek(int h, i64 off, int whence);
OsRes os_close(int h);
OsRes os_size(int h);
OsRes os_remove(char const* name);
extern int (*g_tool)(char const* command);  // programs the program under test starts (formatters); null: not installed
int   os_run_tool(char const* command);
u64   os_clock_ns();
extern u64 g_syscall_limit; extern u64 g_perf_freq; extern u64 g_clock_step_ns; extern i64 g_clock_jump_permille;
extern i64 g_wall_offset_ns;               // the wall clock is the monotonic clock plus this
inline void sim_ns_start(u64 n) { sh->sim_ns = n; }
inline void sim_advance(u64 n) { sh->sim_ns += n; count("fault:time_passes"); }
inline void sim_set_wall(i64 d) { g_wall_offset_ns += d; count("fault:wall_clock_set"); }
inline u64  sim_mono() { return sh->sim_ns; }
void std_out(int fd, void const* p, u64 n);

// hand values from an application process to the kernel process
void shm_put(void const* p, u64 n);
void shm_put_str(std::string const& s);
struct ShmReader { u64 at = 0; bool get(void* p, u64 n); bool get_str(std::string* s); };
}
