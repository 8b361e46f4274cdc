// C stream calls of the library (used by its assertion handler), on the simulated console.
#include "machine.hpp"
#include <stdio.h>
#include <string.h>
using namespace sim;
static int fd_of(FILE* f) { return f == stderr ? 2 : 1; }
extern "C" {
int sim_c_vfprintf(FILE* f, const char* fmt, va_list va) { char b[4096]; int n = vsnprintf(b, sizeof b, fmt, va); std_out(fd_of(f), b, n < 0 ? 0 : n > 4095 ? 4095 : n); return n; }
int sim_c_fprintf(FILE* f, const char* fmt, ...) { va_list va; va_start(va, fmt); int n = sim_c_vfprintf(f, fmt, va); va_end(va); return n; }
int sim_c_printf(const char* fmt, ...) { va_list va; va_start(va, fmt); int n = sim_c_vfprintf(stdout, fmt, va); va_end(va); return n; }
int sim_c_fputc(int c, FILE* f) { char b = (char)c; std_out(fd_of(f), &b, 1); return c; }
int sim_c_putchar(int c) { return sim_c_fputc(c, stdout); }
int sim_c_fputs(const char* s, FILE* f) { std_out(fd_of(f), s, strlen(s)); return 0; }
int sim_c_puts(const char* s) { std_out(1, s, strlen(s)); std_out(1, "\n", 1); return 0; }
size_t sim_c_fwrite(const void* p, size_t a, size_t n, FILE* f) { std_out(fd_of(f), p, a * n); return n; }
int sim_c_system(const char* c) { return sim::os_run_tool(c); }
int sim_c_remove(const char* n) { return sim::os_remove(n).err ? -1 : 0; }
}
