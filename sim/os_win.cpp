// The Win32 calls the library makes, served by the simulated machine.
#include "machine.hpp"
#include <string.h>
#include <wchar.h>
#include <stdio.h>
#include "windows.h"
using namespace sim;
static DWORD g_last;
static DWORD map_err(OsErr e) { switch (e) { case OS_OK: return 0; case OS_ENOENT: return ERROR_FILE_NOT_FOUND; case OS_EACCES: return ERROR_ACCESS_DENIED; case OS_EMFILE: return ERROR_TOO_MANY_OPEN_FILES; case OS_EIO: return ERROR_IO_DEVICE; case OS_ENOSPC: return ERROR_DISK_FULL; case OS_EBADF: return ERROR_INVALID_HANDLE; default: return ERROR_INVALID_PARAMETER; } }
static HANDLE mk(int h) { return (HANDLE)(intptr_t)(0x2000 + h * 4); }
static int un(HANDLE p) { intptr_t v = (intptr_t)p; if (v < 0x2000 || (v & 3)) return -1; return (int)((v - 0x2000) / 4); }
static bool narrow(const wchar_t* w, char* out, size_t n) {
    size_t k = 0;
    for (; *w; w++) { uint32_t c = (uint32_t)*w; char t[4]; int m = 0;
        if (c < 0x80) t[m++] = c; else if (c < 0x800) { t[m++] = 0xC0 | (c >> 6); t[m++] = 0x80 | (c & 63); }
        else { t[m++] = 0xE0 | (c >> 12); t[m++] = 0x80 | ((c >> 6) & 63); t[m++] = 0x80 | (c & 63); }
        if (k + m >= n) return false; memcpy(out + k, t, m); k += m; }
    out[k] = 0; return true;
}
namespace sim { u64 vm_mapped() { return g_os_vm.live_bytes; } }
extern "C" {
int MultiByteToWideChar(unsigned, DWORD flags, const char* s, int n, wchar_t* out, int cap) {
    if (n < 0) n = (int)strlen(s) + 1;
    int k = 0;
    for (int i = 0; i < n;) {
        uint8_t c = s[i]; uint32_t v; int len = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : 0;
        if (!len || i + len > n) { g_last = ERROR_NO_UNICODE_TRANSLATION; return 0; }
        v = len == 1 ? c : len == 2 ? c & 31 : c & 15;
        for (int j = 1; j < len; j++) { if ((s[i + j] & 0xC0) != 0x80) { g_last = ERROR_NO_UNICODE_TRANSLATION; return 0; } v = v << 6 | (s[i + j] & 63); }
        if (cap) { if (k >= cap) { g_last = 122; return 0; } out[k] = (wchar_t)v; }
        k++; i += len;
    }
    return k;
}
HANDLE CreateFileW(const wchar_t* name, DWORD access, DWORD, void*, DWORD disp, DWORD, HANDLE) {
    char n[160];
    if (!name || !*name) { g_last = 3; return INVALID_HANDLE_VALUE; }
    if (!narrow(name, n, sizeof n)) { g_last = ERROR_INVALID_NAME; return INVALID_HANDLE_VALUE; }
    int f = 0; if (access & GENERIC_READ) f |= OPEN_READ; if (access & GENERIC_WRITE) f |= OPEN_WRITE; if (access & FILE_APPEND_DATA) f |= OPEN_WRITE | OPEN_APPEND;
    bool exists = disk_exists(n);
    switch (disp) { case CREATE_ALWAYS: f |= OPEN_CREATE | OPEN_TRUNC; break; case OPEN_ALWAYS: f |= OPEN_CREATE; break; case TRUNCATE_EXISTING: f |= OPEN_TRUNC; break; case CREATE_NEW: if (exists) { g_last = ERROR_FILE_EXISTS; return INVALID_HANDLE_VALUE; } f |= OPEN_CREATE; break; default: break; }
    int h; OsRes r = os_open(n, f, &h); g_last = map_err(r.err);
    if (r.err) return INVALID_HANDLE_VALUE;
    if (exists && (disp == CREATE_ALWAYS || disp == OPEN_ALWAYS)) g_last = ERROR_ALREADY_EXISTS;   // as Windows does, on success
    return mk(h);
}
BOOL ReadFile(HANDLE p, void* b, DWORD n, DWORD* got, void*) { if (got) *got = 0; OsRes r = os_read(un(p), b, n, -1); g_last = map_err(r.err); if (r.err) return 0; if (got) *got = (DWORD)r.n; return 1; }
BOOL WriteFile(HANDLE p, const void* b, DWORD n, DWORD* put, void*) { if (put) *put = 0; OsRes r = os_write(un(p), b, n, -1); g_last = map_err(r.err); if (put) *put = (DWORD)r.n; return r.err ? 0 : 1; }
BOOL SetFilePointerEx(HANDLE p, LARGE_INTEGER off, LARGE_INTEGER* out, DWORD whence) { OsRes r = os_seek(un(p), off.QuadPart, (int)whence); g_last = map_err(r.err); if (r.err) return 0; if (out) out->QuadPart = r.n; return 1; }
BOOL CloseHandle(HANDLE p) { OsRes r = os_close(un(p)); g_last = map_err(r.err); return r.err ? 0 : 1; }
DWORD GetLastError(void) { return g_last; }
void SetLastError(DWORD e) { g_last = e; }
HANDLE GetStdHandle(DWORD k) { return k == STD_INPUT_HANDLE ? mk(0) : k == STD_OUTPUT_HANDLE ? mk(1) : k == STD_ERROR_HANDLE ? mk(2) : INVALID_HANDLE_VALUE; }
BOOL GetFileSizeEx(HANDLE p, LARGE_INTEGER* out) { OsRes r = os_size(un(p)); g_last = map_err(r.err); if (r.err) return 0; out->QuadPart = r.n; return 1; }
DWORD GetFileSize(HANDLE p, DWORD* hi) { OsRes r = os_size(un(p)); g_last = map_err(r.err); if (r.err) return (DWORD)-1; if (hi) *hi = (DWORD)((u64)r.n >> 32); return (DWORD)r.n; }
BOOL FlushFileBuffers(HANDLE) { return 1; }
BOOL SetEndOfFile(HANDLE p) { int h = un(p); if (h < 3 || h >= HANDLES || !sh->handles[h].used) { g_last = 6; return 0; } disk_truncate(sh->handles[h].file, sh->handles[h].pos); return 1; }
BOOL DeleteFileW(const wchar_t* w) { char n[160]; if (!narrow(w, n, sizeof n) || !disk_exists(n)) { g_last = 2; return 0; } disk_remove(n); return 1; }
BOOL MoveFileExW(const wchar_t* a, const wchar_t* b, DWORD) { char x[160], y[160]; if (!narrow(a, x, 160) || !narrow(b, y, 160) || !disk_exists(x)) { g_last = 2; return 0; } std::string c = disk_get(x); disk_remove(x); disk_put(y, c); return 1; }
DWORD GetFileAttributesW(const wchar_t* a) { char x[160]; if (!narrow(a, x, 160) || !disk_exists(x)) { g_last = 2; return (DWORD)-1; } return FILE_ATTRIBUTE_NORMAL; }
void Sleep(DWORD ms) { sh->sim_ns += (u64)ms * 1000000; }
void GetSystemInfo(SYSTEM_INFO* i) { memset(i, 0, sizeof *i); i->dwPageSize = 4096; i->dwAllocationGranularity = 65536; }
void* VirtualAlloc(void* at, size_t n, DWORD type, DWORD) {
    if (type & MEM_RESET) return at;
    if (at) { count("probe:vm_alloc_at_address"); return nullptr; }
    return sim_alloc(&g_os_vm, (n + 4095) & ~4095ull, 65536, true, "VirtualAlloc");
}
BOOL VirtualFree(void* p, size_t, DWORD) { if (!sim_owned(&g_os_vm, p)) { g_last = 87; return 0; } sim_free(&g_os_vm, p, "VirtualFree"); return 1; }
size_t VirtualQuery(const void* p, MEMORY_BASIC_INFORMATION* i, size_t) {
    memset(i, 0, sizeof *i); u64 n = sim_block_size(p);
    i->BaseAddress = (void*)p; i->AllocationBase = n ? (void*)p : nullptr; i->RegionSize = n ? n : 65536; i->State = n ? MEM_COMMIT : MEM_FREE; return sizeof *i;
}
void ExitProcess(unsigned c) { slog("ExitProcess %u", c); app_die(APP_EXIT, c); }
void* _aligned_malloc(size_t n, size_t al) { return sim_alloc(&g_os_heap, n, al, false, "_aligned_malloc"); }
void _aligned_free(void* p) { sim_free(&g_os_heap, p, "_aligned_free"); }
BOOL QueryPerformanceFrequency(LARGE_INTEGER* f) { f->QuadPart = (long long)g_perf_freq; return 1; }
BOOL QueryPerformanceCounter(LARGE_INTEGER* c) { c->QuadPart = (long long)((unsigned __int128)os_clock_ns() * g_perf_freq / 1000000000u); return 1; }
}
