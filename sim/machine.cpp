#include "machine.hpp"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <algorithm>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#endif
#endif
#ifndef POISON
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

namespace sim {

// =================================================================================== memory
static u8* const REGION = (u8*)0x300000000000ull;
static u64 const REGION_SIZE = 8ull << 30;
static u64 const RUNAWAY = 3ull << 30;
static u64 g_brk; static bool g_mapped;
struct Block { u64 addr, size, align; int owner; bool live; };
static std::vector<Block>* g_blocks;
SimAlloc g_os_heap(90, "os-heap"), g_os_vm(91, "os-vm");
u64 g_alloc_requests;
static u64 g_fill; u64 g_fill_seed, g_place_base; u32 g_fill_mode;

void reset_run_state() {
    if (!g_mapped) {
        void* p = mmap(REGION, REGION_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != REGION) { perror("mmap region"); _exit(96); }
        g_mapped = true;
    }
    g_brk = 4096; g_blocks = new std::vector<Block>(); g_alloc_requests = 0; g_fill = 1; g_fill_seed = g_place_base = 0; g_fill_mode = 0; g_stack_mode = 0; g_lend_mode = 0; g_stack_seed = 0;
    g_os_heap = SimAlloc(90, "os-heap"); g_os_vm = SimAlloc(91, "os-vm");
}
static int find_block(void const* p) {   // block containing p, or -1
    u64 a = (u64)p; auto& b = *g_blocks;
    auto it = std::upper_bound(b.begin(), b.end(), a, [](u64 x, Block const& y) { return x < y.addr; });
    if (it == b.begin()) return -1; --it;
    if (a < it->addr + std::max<u64>(it->size, 1)) return int(it - b.begin());
    return -1;
}
static void fill_garbage(u8* p, u64 n) {
    if (g_fill_mode == 2) { memset(p, 0, n); return; } if (g_fill_mode == 3) { memset(p, 0xff, std::min<u64>(n, 1 << 18)); return; }
    u64 s = mix(0xabcdef12345ull + g_fill++ + g_fill_seed * 0x9e37ull); u8 pat[8]; memcpy(pat, &s, 8); if (g_fill_mode == 1) for (auto& c : pat) c &= 0x7f; else for (auto& c : pat) c |= 0x81;
    u64 lim = std::min<u64>(n, 1 << 16); for (u64 i = 0; i < lim; i++) p[i] = pat[i & 7];
    if (n > lim) { u64 tail = std::min<u64>(n - lim, 4096); memset(p + n - tail, 0xA5, tail); }
}
u32 g_stack_mode; u64 g_stack_seed; u32 g_lend_mode;
__attribute__((noinline, no_sanitize("address"))) static void scribble(u64 pattern) { volatile u64 buf[6000]; for (u32 i = 0; i < 6000; i++) buf[i] = pattern; asm volatile("" : : "r"(buf) : "memory"); }
void dirty_stack() {
    if (!g_stack_mode) return;
    u64 r = mix(g_stack_seed++); scribble(g_stack_mode == 1 ? 0 : g_stack_mode == 2 ? ~0ull : g_stack_mode == 3 ? 0x0101010101010101ull : g_stack_mode == 4 ? r & 0x7f7f7f7f7f7f7f7full : r);
}
static bool should_fail(SimAlloc* a) {
    g_alloc_requests++;
    if (a->fail_in > 0) { if (--a->fail_in == 0) { a->failed++; count("fault:alloc_failure"); slog("alloc failure injected in %s", a->name); if (a->fail_forever) a->fail_in = 1; return true; } }
    return false;
}
static void* place(SimAlloc* a, u64 size, u64 align, bool zero) {
    if (align == 0) align = 16;
    if (align & (align - 1)) violate("alloc-contract:alignment", "allocator %s asked for alignment %llu", a->name, (unsigned long long)align);
    if (size > RUNAWAY || g_brk + size > RUNAWAY) { slog("runaway allocation %llu", (unsigned long long)size); app_die(APP_RUNAWAY, 0); }
    if (g_brk == 4096) g_brk += g_place_base;
    u64 base = (u64)REGION + g_brk + 32;
    if (a->slack_max) base += pick(a->slack_max) * 16;
    u64 al = std::max<u64>(align, 1);
    u64 addr = (base + al - 1) & ~(al - 1);
    if (!(addr & al)) addr += al;                       // exactly as aligned as asked for, never more
    g_brk = addr + size + 32 - (u64)REGION; g_brk = (g_brk + 15) & ~15ull;
    u8* p = (u8*)addr;
    UNPOISON(p, size);
    if (zero && a->honest_zero) memset(p, 0, std::min<u64>(size, size)); else fill_garbage(p, size);
    // poison up to the next granule boundaries on both sides
    u64 g0 = (addr + size + 7) & ~7ull; if ((addr + size) & 7) { /* asan handles partial tail granule when poisoned from its start */ }
    POISON((void*)g0, (u64)REGION + g_brk + 32 - g0);
    if ((addr + size) & 7) { POISON((u8*)addr + size, 8 - ((addr + size) & 7)); }
    u64 pre = addr & ~7ull; POISON((void*)(pre - 16), 16);
    g_blocks->push_back({addr, size, align, a->id, true});
    a->live_blocks++; a->live_bytes += size; a->allocs++; if (a->live_bytes > a->peak_bytes) a->peak_bytes = a->live_bytes;
    return p;
}
void* sim_alloc(SimAlloc* a, u64 size, u64 align, bool zero, char const* who) {
    if ((i64)size < 0) violate("alloc-contract:size", "allocator %s asked for a negative size %lld by %s", a->name, (long long)size, who);
    if (should_fail(a)) return nullptr;
    return place(a, size, align, zero);
}
static void release(SimAlloc* a, int bi) {
    Block& b = (*g_blocks)[bi];
    b.live = false; a->live_blocks--; a->live_bytes -= b.size; a->frees++;
    u8* p = (u8*)b.addr; u64 n = b.size; u64 lim = std::min<u64>(n, 1 << 16);
    memset(p, 0xDD, lim); if (n > lim) memset(p + n - std::min<u64>(n - lim, 4096), 0xDD, std::min<u64>(n - lim, 4096));
    u64 g0 = ((u64)p + 7) & ~7ull, g1 = ((u64)p + n + 7) & ~7ull; if (g1 > g0) POISON((void*)g0, g1 - g0);
}
void sim_free(SimAlloc* a, void* p, char const* who) {
    if (!p) return;
    int bi = find_block(p);
    if (bi < 0 || (u64)p != (*g_blocks)[bi].addr) violate("alloc-contract:free-unknown", "%s freed through allocator %s a pointer it never returned", who, a->name);
    Block& b = (*g_blocks)[bi];
    if (!b.live) violate("alloc-contract:double-free", "%s freed through allocator %s a block of %llu bytes twice", who, a->name, (unsigned long long)b.size);
    if (b.owner != a->id) violate("alloc-contract:foreign-free", "%s freed through allocator %s a block of allocator %d", who, a->name, b.owner);
    release(a, bi);
}
void* sim_resize(SimAlloc* a, void* p, u64 old_size, u64 size, u64 align, bool zero) {
    a->resizes++;
    if (!p) return sim_alloc(a, size, align, zero, "resize");
    int bi = find_block(p);
    if (bi < 0 || (u64)p != (*g_blocks)[bi].addr || !(*g_blocks)[bi].live) violate("alloc-contract:resize-unknown", "resize through allocator %s of a pointer that is not one of its live blocks", a->name);
    if ((*g_blocks)[bi].owner != a->id) violate("alloc-contract:foreign-resize", "resize through allocator %s of a block of allocator %d", a->name, (*g_blocks)[bi].owner);
    if (old_size > (*g_blocks)[bi].size) violate("alloc-contract:resize-old-size", "resize through allocator %s says the block has %llu bytes, it has %llu", a->name, (unsigned long long)old_size, (unsigned long long)(*g_blocks)[bi].size);
    if (size == 0) { release(a, bi); return nullptr; }
    if (should_fail(a)) return nullptr;
    u64 bs = (*g_blocks)[bi].size;
    if (size <= bs && !chance(a->move_permille)) return p;     // may stay in place
    count("fault:block_moved_on_resize");
    void* n = place(a, size, align, zero);
    memcpy(n, p, std::min<u64>(std::min<u64>(size, bs), old_size));
    release(a, bi);
    return n;
}
u64 sim_free_all(SimAlloc* a) { u64 n = 0; for (size_t i = 0; i < g_blocks->size(); i++) if ((*g_blocks)[i].live && (*g_blocks)[i].owner == a->id) { release(a, (int)i); n++; } return n; }
bool sim_owned(SimAlloc* a, void const* p) { int bi = find_block(p); return bi >= 0 && (*g_blocks)[bi].live && (*g_blocks)[bi].owner == a->id && (*g_blocks)[bi].addr == (u64)p; }
u64 sim_block_size(void const* p) { int bi = find_block(p); return bi >= 0 && (*g_blocks)[bi].live && (*g_blocks)[bi].addr == (u64)p ? (*g_blocks)[bi].size : 0; }
bool sim_in_live(void const* p, u64 n) { int bi = find_block(p); if (bi < 0) return false; Block& b = (*g_blocks)[bi]; return b.live && (u64)p + n <= b.addr + b.size; }
bool sim_dead_block(void const* p) { int bi = find_block(p); return bi >= 0 && !(*g_blocks)[bi].live; }
std::string sim_leaks(SimAlloc* a) {
    std::string r; int n = 0; char b[64];
    for (auto& k : *g_blocks) if (k.live && k.owner == a->id) { if (n++ < 6) { snprintf(b, 64, "%llu ", (unsigned long long)k.size); r += b; } }
    return std::to_string(n) + " blocks of sizes " + r;
}

// =================================================================================== disk
int disk_find(char const* name) { for (int i = 0; i < DISK_FILES; i++) if (sh->files[i].exists && !strcmp(sh->files[i].name, name)) return i; return -1; }
static int disk_create(char const* name) {
    for (int i = 0; i < DISK_FILES; i++) if (!sh->files[i].exists) { DiskFile& f = sh->files[i]; memset(&f, 0, sizeof f); snprintf(f.name, sizeof f.name, "%s", name); f.exists = 1; return i; }
    discard("simulated directory full");
}
static void disk_reserve(int file, u64 n) {
    DiskFile& f = sh->files[file]; if (n <= f.cap) return;
    u64 cap = std::max<u64>(n, f.cap * 2); cap = (cap + 255) & ~255ull;
    if (sh->disk_used + cap > DISK_ARENA) discard("simulated disk arena full");
    memcpy(sh->disk + sh->disk_used, sh->disk + f.off, f.size); f.off = sh->disk_used; f.cap = cap; sh->disk_used += cap;
}
void disk_write(int file, u64 pos, void const* p, u64 n) {
    DiskFile& f = sh->files[file]; if (!n) return;
    disk_reserve(file, pos + n);
    if (pos > f.size) memset(sh->disk + f.off + f.size, 0, pos - f.size);
    memcpy(sh->disk + f.off + pos, p, n); f.size = std::max(f.size, pos + n); f.version++;
}
void disk_truncate(int file, u64 n) { DiskFile& f = sh->files[file]; if (n > f.size) { disk_reserve(file, n); memset(sh->disk + f.off + f.size, 0, n - f.size); } f.size = n; f.version++; }
int disk_put(char const* name, std::string const& c) { int i = disk_find(name); if (i < 0) i = disk_create(name); disk_truncate(i, 0); disk_write(i, 0, c.data(), c.size()); return i; }
std::string disk_get(char const* name) { int i = disk_find(name); if (i < 0) return ""; return std::string((char*)sh->disk + sh->files[i].off, sh->files[i].size); }
bool disk_exists(char const* name) { return disk_find(name) >= 0; }
void disk_remove(char const* name) { int i = disk_find(name); if (i >= 0) sh->files[i].exists = 0; }
int open_handles() { int n = 0; for (int i = 3; i < HANDLES; i++) n += sh->handles[i].used; return n; }
int handles_for(char const* name) { int f = disk_find(name), n = 0; for (int i = 3; i < HANDLES; i++) n += sh->handles[i].used && (int)sh->handles[i].file == f; return n; }
static u64 disk_total() { u64 n = 0; for (auto& f : sh->files) if (f.exists) n += f.size; return n; }

static bool fault(u32 permille, char const* kind) {
    if (!permille || !sh->plan.budget || sh->syscalls < sh->plan.after) return false;
    if (!chance(permille)) return false;
    sh->plan.budget--; count(kind); slog("fault %s", kind); return true;
}
u64 g_syscall_limit = 100000;  // more in one run count as a hang
static bool crash_now() { if (++sh->syscalls > g_syscall_limit) { slog("too many system calls"); app_die(APP_HANG, 0); } sh->sim_ns += 1000 + (sh->syscalls % 7) * 100; if (sh->plan.crash_in > 0 && --sh->plan.crash_in == 0) { count("fault:crash"); slog("process killed inside a system call"); return true; } return false; }

OsRes os_open(char const* name, int flags, int* h) {
    *h = -1;
    bool crash = crash_now();
    if (crash && !chance(500)) app_die(APP_KILLED, 0);
    if (fault(sh->plan.open_fail, "fault:open_failure")) { static OsErr const e[] = {OS_EACCES, OS_EMFILE, OS_EIO, OS_EINVAL, OS_ENOENT}; OsErr r = e[pick(5)]; slog("open %s -> error %d", name, r); return {r, 0}; }
    if (!name || !*name) return {OS_ENOENT, 0};
    int f = disk_find(name);
    if (f < 0 && !(flags & OPEN_CREATE)) { slog("open %s -> not found", name); return {OS_ENOENT, 0}; }
    int slot = -1; for (int i = 3; i < HANDLES; i++) if (!sh->handles[i].used) { slot = i; break; }
    if (slot < 0) { slog("open %s -> too many open files", name); return {OS_EMFILE, 0}; }
    if (f < 0) { if (fault(sh->plan.write_full, "fault:disk_full_on_create")) return {OS_ENOSPC, 0}; f = disk_create(name); }
    else if (flags & OPEN_TRUNC) disk_truncate(f, 0);
    Handle& k = sh->handles[slot]; memset(&k, 0, sizeof k);
    k.used = 1; k.file = f; k.read = !!(flags & OPEN_READ); k.write = !!(flags & OPEN_WRITE); k.append = !!(flags & OPEN_APPEND);
    slog("open %s flags %d -> %d", name, flags, slot);
    if (crash) app_die(APP_KILLED, 0);
    *h = slot; return {OS_OK, 0};
}
static Handle* get(int h) { if (h < 0 || h >= HANDLES) return nullptr; if (h < 3) { static Handle s[3]; s[h].used = 1; s[h].std = h + 1; return &s[h]; } return sh->handles[h].used ? &sh->handles[h] : nullptr; }
OsRes os_read(int h, void* buf, u64 n, i64 at) {
    if (crash_now()) app_die(APP_KILLED, 0);
    Handle* k = get(h); if (!k || (!k->read && !k->std)) { slog("read on bad handle %d", h); count("probe:read_on_bad_handle"); return {OS_EBADF, 0}; }
    if (k->std) return {OS_OK, 0};
    if (fault(sh->plan.eintr, "fault:read_interrupted")) return {OS_EINTR, 0};
    if (fault(sh->plan.read_err, "fault:read_error")) return {OS_EIO, 0};
    u64 pos = at >= 0 ? (u64)at : k->pos; DiskFile& f = sh->files[k->file];
    if (fault(sh->plan.resize_race, "fault:file_changed_before_read")) {
        if (pick(2)) { u64 cut = pick((u32)std::min<u64>(f.size + 1, 1u << 30)); disk_truncate(k->file, cut); slog("another process truncated the file to %llu", (unsigned long long)cut); }
        else { std::string extra(1 + pick(64), '#'); disk_write(k->file, f.size, extra.data(), extra.size()); slog("another process appended %zu bytes", extra.size()); }
    }
    u64 avail = pos < f.size ? f.size - pos : 0, m = std::min(n, avail);
    if (m > 1 && fault(sh->plan.read_short, "fault:short_read")) m = 1 + pick((u32)(m - 1));
    else if (m && fault(sh->plan.read_eof_early, "fault:early_eof")) m = 0;
    memcpy(buf, sh->disk + f.off + pos, m);
    k->pos = at >= 0 ? k->pos : pos + m;
    slog("read %d at %llu want %llu got %llu", h, (unsigned long long)pos, (unsigned long long)n, (unsigned long long)m);
    return {OS_OK, (i64)m};
}
OsRes os_write(int h, void const* buf, u64 n, i64 at) {
    bool crash = crash_now();
    Handle* k = get(h); if (!k || (!k->write && !k->std)) { slog("write on bad handle %d", h); count("probe:write_on_bad_handle"); if (crash) app_die(APP_KILLED, 0); return {OS_EBADF, 0}; }
    if (k->std) {
        if (crash) app_die(APP_KILLED, 0);
        if (fault(sh->plan.std_err, "fault:console_write_error")) return {OS_EIO, 0};
        u64 m = n > 1 && fault(sh->plan.std_short, "fault:console_short_write") ? 1 + pick((u32)(n - 1)) : n;
        std_out(k->std - 1, buf, m); return {OS_OK, (i64)m};
    }
    if (!crash) {
        if (fault(sh->plan.eintr, "fault:write_interrupted")) return {OS_EINTR, 0};
        if (fault(sh->plan.write_err, "fault:write_error")) return {OS_EIO, 0};
    }
    DiskFile& f = sh->files[k->file];
    u64 pos = k->append ? f.size : at >= 0 ? (u64)at : k->pos, m = n; bool full = false;
    if (crash) { m = n ? pick((u32)std::min<u64>(n + 1, 1u << 30)) : 0; count("fault:torn_write_at_crash"); }
    else {
        if (m > 1 && fault(sh->plan.write_short, "fault:short_write")) m = 1 + pick((u32)(m - 1));
        else if (m && fault(sh->plan.write_full, "fault:disk_full")) { full = true; m = pick((u32)m); }
        if (sh->plan.disk_capacity && pos + m > f.size && disk_total() + (pos + m - f.size) > sh->plan.disk_capacity) {
            u64 room = sh->plan.disk_capacity > disk_total() ? sh->plan.disk_capacity - disk_total() : 0; m = std::min(m, (pos < f.size ? f.size - pos : 0) + room); full = m < n; count("fault:disk_capacity_reached");
        }
    }
    disk_write(k->file, pos, buf, m);
    if (at < 0 || k->append) k->pos = pos + m;
    slog("write %d at %llu want %llu wrote %llu", h, (unsigned long long)pos, (unsigned long long)n, (unsigned long long)m);
    if (crash) app_die(APP_KILLED, 0);
    if (full && m == 0) return {OS_ENOSPC, 0};
    return {full ? OS_ENOSPC : OS_OK, (i64)m};
}
OsRes os_seek(int h, i64 off, int whence) {
    if (crash_now()) app_die(APP_KILLED, 0);
    Handle* k = get(h); if (!k || k->std) return {OS_EINVAL, 0};
    if (whence != 1 || off != 0) if (fault(sh->plan.seek_err, "fault:seek_error")) return {OS_EIO, 0};
    i64 base = whence == 0 ? 0 : whence == 1 ? (i64)k->pos : (i64)sh->files[k->file].size;
    if (base + off < 0) return {OS_EINVAL, 0};
    k->pos = base + off; return {OS_OK, (i64)k->pos};
}
OsRes os_size(int h) { if (crash_now()) app_die(APP_KILLED, 0); Handle* k = get(h); if (!k || k->std) return {OS_EBADF, 0}; if (fault(sh->plan.size_err, "fault:size_query_error")) return {OS_EIO, 0}; return {OS_OK, (i64)sh->files[k->file].size}; }
OsRes os_close(int h) {
    if (crash_now()) app_die(APP_KILLED, 0);
    Handle* k = get(h); if (!k) { slog("close of bad handle %d", h); count("probe:close_on_bad_handle"); return {OS_EBADF, 0}; }
    if (!k->std) k->used = 0;
    slog("close %d", h);
    if (fault(sh->plan.close_err, "fault:close_error")) return {OS_EIO, 0};
    return {OS_OK, 0};
}
OsRes os_remove(char const* name) {
    bool crash = crash_now();
    if (crash && !chance(500)) app_die(APP_KILLED, 0);
    if (fault(sh->plan.open_fail, "fault:remove_failure")) return {OS_EACCES, 0};
    if (!disk_exists(name)) return {OS_ENOENT, 0};
    slog("remove %s", name); disk_remove(name);
    if (crash) app_die(APP_KILLED, 0);
    return {OS_OK, 0};
}
int (*g_tool)(char const*);
int os_run_tool(char const* c) {
    if (crash_now()) app_die(APP_KILLED, 0);
    slog("starts program: %s", c ? c : "");
    return g_tool ? g_tool(c) : 127 << 8;
}
i64 g_wall_offset_ns = 1700000000ll * 1000000000ll; u64 g_clock_step_ns = 100; i64 g_clock_jump_permille;
u64 g_perf_freq = 10000000;   // ticks per second of the performance counter
u64 os_clock_ns() { sh->sim_ns += g_clock_step_ns; return sh->sim_ns; }
void std_out(int fd, void const* p, u64 n) {
    char* b = fd == 2 ? sh->err_text : sh->out_text; u32& len = fd == 2 ? sh->err_text_len : sh->out_text_len;
    if (fd == 2) g_fatal_reported = true;
    if ((i64)n < 0) n = 0;
    u64 m = std::min<u64>(n, OUT_MAX - 1 - len); memcpy(b + len, p, m); len += (u32)m; b[len] = 0;
}
void shm_put(void const* p, u64 n) { if (sh->shm_len + n > APPSHM) discard("app result area full"); memcpy(sh->shm + sh->shm_len, p, n); sh->shm_len += n; }
void shm_put_str(std::string const& s) { u64 n = s.size(); shm_put(&n, 8); shm_put(s.data(), n); }
bool ShmReader::get(void* p, u64 n) { if (at + n > sh->shm_len) return false; memcpy(p, sh->shm + at, n); at += n; return true; }
bool ShmReader::get_str(std::string* s) { u64 n; if (!get(&n, 8) || at + n > sh->shm_len) return false; s->assign((char*)sh->shm + at, n); at += n; return true; }
}
