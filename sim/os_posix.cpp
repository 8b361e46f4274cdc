// The POSIX calls the library makes, served by the simulated machine (the library object's symbols are renamed to these).
#include "machine.hpp"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
using namespace sim;
static int map_err(OsErr e) { switch (e) { case OS_OK: return 0; case OS_ENOENT: return ENOENT; case OS_EACCES: return EACCES; case OS_EMFILE: return EMFILE; case OS_EIO: return EIO; case OS_ENOSPC: return ENOSPC; case OS_EBADF: return EBADF; case OS_EINTR: return EINTR; default: return EINVAL; } }
static long ret(OsRes r) { if (r.err) { errno = map_err(r.err); return -1; } return (long)r.n; }
#include <map>
#include <set>
#include <sanitizer/asan_interface.h>
static std::map<u64, u64>* g_pages;
namespace sim { u64 vm_mapped() { return g_pages ? g_pages->size() * 4096 : 0; } }
extern "C" {
int sim_px_open(const char* name, int fl, ...) {
    int f = 0, acc = fl & O_ACCMODE; if (acc != O_WRONLY) f |= OPEN_READ; if (acc != O_RDONLY) f |= OPEN_WRITE;
    if (fl & O_CREAT) f |= OPEN_CREATE; if (fl & O_TRUNC) f |= OPEN_TRUNC; if (fl & O_APPEND) f |= OPEN_APPEND;
    int h; OsRes r = os_open(name, f, &h); if (r.err) { errno = map_err(r.err); return -1; } return h;
}
static u64 cap(size_t n) { return n > 0x7ffff000 ? 0x7ffff000 : n; }
ssize_t sim_px_read(int h, void* b, size_t n) { return ret(os_read(h, b, cap(n), -1)); }
ssize_t sim_px_pread(int h, void* b, size_t n, off_t at) { if (at < 0) { errno = EINVAL; return -1; } return ret(os_read(h, b, cap(n), at)); }
static ssize_t wr(int h, const void* b, size_t n, i64 at) { if ((ssize_t)n < 0) { errno = EINVAL; return -1; } OsRes r = os_write(h, b, cap(n), at); if (r.err == OS_ENOSPC && r.n > 0) r.err = OS_OK; return ret(r); }
ssize_t sim_px_write(int h, const void* b, size_t n) { return wr(h, b, n, -1); }
ssize_t sim_px_pwrite(int h, const void* b, size_t n, off_t at) { if (at < 0) { errno = EINVAL; return -1; } if (h < 3) { errno = ESPIPE; return -1; } return wr(h, b, n, at); }
off_t sim_px_lseek(int h, off_t o, int w) { if (h >= 0 && h < 3) { errno = ESPIPE; return -1; } return ret(os_seek(h, o, w)); }
int sim_px_close(int h) { OsRes r = os_close(h); if (r.err) { errno = map_err(r.err); return -1; } return 0; }
int sim_px_fstat(int h, struct stat* s) { memset(s, 0, sizeof *s); OsRes r = os_size(h); if (r.err) { errno = map_err(r.err); return -1; } s->st_size = r.n; s->st_mode = S_IFREG | 0644; return 0; }
int sim_px_ftruncate(int h, off_t n) { if (h < 3 || h >= HANDLES || !sh->handles[h].used || !sh->handles[h].write) { errno = EBADF; return -1; } disk_truncate(sh->handles[h].file, n); return 0; }
int sim_px_fsync(int) { return 0; }
int sim_px_unlink(const char* n) { if (!disk_exists(n)) { errno = ENOENT; return -1; } disk_remove(n); return 0; }
int sim_px_rename(const char* a, const char* b) { if (!disk_exists(a)) { errno = ENOENT; return -1; } std::string c = disk_get(a); disk_remove(a); disk_put(b, c); return 0; }
void* sim_px_aligned_alloc(size_t al, size_t n) { return sim_alloc(&g_os_heap, n, al, false, "aligned_alloc"); }
int sim_px_posix_memalign(void** p, size_t al, size_t n) { *p = sim_alloc(&g_os_heap, n, al, false, "posix_memalign"); return *p ? 0 : ENOMEM; }
void* sim_px_malloc(size_t n) { return sim_alloc(&g_os_heap, n, 16, false, "malloc"); }
void sim_px_free(void* p) { sim_free(&g_os_heap, p, "free"); }
void* sim_px_mmap(void* at, size_t n, int, int, int, off_t) { if (n == 0) { errno = EINVAL; return MAP_FAILED; } u64 sz = (n + 4095) & ~4095ull; void* p = sim_alloc(&g_os_vm, sz, 4096, true, "mmap"); if (!p) { errno = ENOMEM; return MAP_FAILED; } if (!g_pages) g_pages = new std::map<u64, u64>(); for (u64 i = 0; i < sz; i += 4096) (*g_pages)[(u64)p + i] = (u64)p; return p; }
int sim_px_munmap(void* p, size_t n) {
    if (((u64)p & 4095) || n == 0) { errno = EINVAL; return -1; }
    if (!g_pages) return 0; u64 a = (u64)p, e = (a + n + 4095) & ~4095ull; std::set<u64> touched;
    for (auto it = g_pages->lower_bound(a); it != g_pages->end() && it->first < e;) { touched.insert(it->second); memset((void*)it->first, 0xDD, 4096); ASAN_POISON_MEMORY_REGION((void*)it->first, 4096); it = g_pages->erase(it); }
    for (u64 b : touched) { bool any = false; for (auto& x : *g_pages) any |= x.second == b; if (!any) { ASAN_UNPOISON_MEMORY_REGION((void*)b, sim_block_size((void*)b)); sim_free(&g_os_vm, (void*)b, "munmap"); } }
    return 0;
}
int sim_px_madvise(void* p, size_t n, int) { for (u64 i = 0; i < n; i += 4096) { if (!g_pages || !g_pages->count((u64)p + i)) { errno = ENOMEM; return -1; } } memset(p, 0, n); return 0; }
long sim_px_sysconf(int) { return 4096; }
void sim_px_exit(int c) { slog("exit %d", c); app_die(APP_EXIT, c); }
void sim_px_abort(void) { slog("abort"); app_die(g_fatal_reported ? APP_FATAL : APP_CRASH, 0); }
int sim_px_clock_gettime(int id, struct timespec* t) { u64 n = os_clock_ns() + (id == CLOCK_REALTIME ? g_wall_offset_ns : 0); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int sim_px_gettimeofday(struct timeval* t, void*) { u64 n = os_clock_ns() + g_wall_offset_ns; t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }
int sim_px_fdatasync(int) { return 0; }
int sim_px_open64(const char* name, int fl, ...) { return sim_px_open(name, fl); }
ssize_t sim_px_pread64(int h, void* b, size_t n, off_t at) { return sim_px_pread(h, b, n, at); }
ssize_t sim_px_pwrite64(int h, const void* b, size_t n, off_t at) { return sim_px_pwrite(h, b, n, at); }
off_t sim_px_lseek64(int h, off_t o, int w) { return sim_px_lseek(h, o, w); }
int sim_px_fstat64(int h, struct stat* s) { return sim_px_fstat(h, s); }
int sim_px_ftruncate64(int h, off_t n) { return sim_px_ftruncate(h, n); }
void* sim_px_mmap64(void* at, size_t n, int a, int b, int c, off_t d) { return sim_px_mmap(at, n, a, b, c, d); }
}
