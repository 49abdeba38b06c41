// Native replay runtime: gives a harness the concrete values the solver chose and reports what the real build does.
#include "../harness/sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <iostream>
#include <sstream>
#include <exception>
#include <unistd.h>
#include <sys/stat.h>
static std::map<std::string, std::string>& M() { static std::map<std::string, std::string> m; return m; }
static std::map<std::string, int>& C() { static std::map<std::string, int> m; return m; }
static int fails = 0;
#include <chrono>
static long sx_clock = 1000000000L; extern "C" void sx_clock_advance(long ns) { sx_clock += ns; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock)); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_clock)); } } } }
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static unsigned heap_live() { return (unsigned)__sanitizer_get_current_allocated_bytes(); }
#else
#include <new>
static long live_objects = 0; static unsigned heap_live() { return (unsigned)live_objects; } // changed by several threads at once
#define ONE_MORE __sync_fetch_and_add(&live_objects, 1)
#define ONE_LESS __sync_fetch_and_sub(&live_objects, 1)
static void* nalloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ONE_MORE; return p; }
void* operator new(size_t n) { return nalloc(n); } void* operator new[](size_t n) { return nalloc(n); }
void operator delete(void* p) noexcept { if (p) ONE_LESS; free(p); } void operator delete[](void* p) noexcept { if (p) ONE_LESS; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) ONE_LESS; free(p); } void operator delete[](void* p, size_t) noexcept { if (p) ONE_LESS; free(p); }
#endif
extern "C" {
int sx_random_mode = 0; unsigned sx_random_draws = 0;
static long own_mem = 0; struct Own { long b; Own() : b((long)heap_live()) {} ~Own() { own_mem += (long)heap_live() - b; } };
static bool get(const char* n, std::string& v) { int k = C()[n]++; std::string name = k ? std::string(n) + "#" + std::to_string(k) : n; auto it = M().find(name); if (it == M().end()) return false; v = it->second; return true; }
static unsigned long long geti(const char* n, unsigned long long d) { Own o; std::string v; return get(n, v) ? strtoull(v.c_str(), nullptr, 10) : d; }
int sx_choose(const char* n, int lo, int hi) { int v = (int)geti(n, (unsigned)lo); if (v < lo || v > hi) v = lo; return v; }
int sx_int(const char* n, int lo, int hi) { return sx_choose(n, lo, hi); }
unsigned char sx_u8(const char* n) { return geti(n, 0); } unsigned sx_u32(const char* n) { return geti(n, 0); } unsigned long sx_u64(const char* n) { return geti(n, 0); } bool sx_bool(const char* n) { return geti(n, 0) & 1; }
float sx_float_bits(const char* n) { unsigned u = geti(n, 0); float f; memcpy(&f, &u, 4); return f; }
double sx_real(const char* n, int lo, int hi, int g) { Own o; std::string v; double L = ldexp(lo, -g), H = ldexp(hi, -g), d = L <= 0 && H >= 0 ? 0 : L; if (get(n, v)) d = strtod(v.c_str(), nullptr); return d; }
void sx_assume(bool c) { if (!c) { printf("SX-DIVERGED\n"); fflush(stdout); _exit(78); } }
void sx_assert(bool c, const char* m) { if (!c) { printf("SX-ASSERT-FAIL: %s\n", m); fflush(stdout); if (++fails > 50) _exit(77); } }
void sx_assert_feq(double a, double b, const char* m) { bool ok = a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 2e-5 * (1 + std::fmax(std::fabs(a), std::fabs(b))); if (!ok) { printf("SX-ASSERT-FAIL: %s (%.9g versus expected %.9g)\n", m, a, b); fflush(stdout); if (++fails > 50) _exit(77); } }
void sx_assert_same(float a, float b, const char* m) { unsigned x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); if (x != y && !(a == 0 && b == 0)) { printf("SX-ASSERT-FAIL: %s (%.9g [%08x] versus expected %.9g [%08x])\n", m, a, x, b, y); fflush(stdout); if (++fails > 50) _exit(77); } }
void sx_reach(const char* m) { printf("SX-REACH: %s\n", m); }
void sx_note(const char* m) { printf("SX-NOTE: %s\n", m); }
int sx_symbolic() { return 0; }
int sx_param(const char* n, int d) { const char* e = getenv((std::string("SXP_") + n).c_str()); return e ? atoi(e) : d; }
unsigned sx_heap_live() { return (unsigned)((long)heap_live() - own_mem); }
void sx_make_undef(void* p, size_t n) { const char* e = getenv("SX_FILL"); memset(p, e ? atoi(e) : 0xbe, n); }
void sx_file_put(const char* name, const void* d, unsigned long n) { FILE* f = fopen(name, "wb"); if (n) fwrite(d, 1, n, f); fclose(f); }
static std::stringbuf* kept_out; void sx_stdout() { std::cout.rdbuf(kept_out = new std::stringbuf()); }
long sx_stdout_get(char* d, long n) { std::string t = kept_out ? kept_out->str() : std::string(); if (n > (long)t.size()) n = t.size(); if (n > 0) memcpy(d, t.data(), n); return t.size(); }
void sx_stdin(const char* t) { std::cin.rdbuf((new std::istringstream(t))->rdbuf()); std::cin.clear(); }
void sx_dir_put(const char* n) { mkdir(n, 0700); }
long sx_file_size(const char* name) { struct stat s; return stat(name, &s) ? -1 : (long)s.st_size; }
void sx_file_get(const char* name, void* d, unsigned long n) { FILE* f = fopen(name, "rb"); if (f) { if (fread(d, 1, n, f)) {} fclose(f); } }
unsigned sx_mapped_pages(const char* n) { std::ifstream f("/proc/self/maps"); std::string l; unsigned k = 0; while (std::getline(f, l)) if (l.size() > strlen(n) && l.substr(l.size() - strlen(n)) == n) { unsigned long a, b; sscanf(l.c_str(), "%lx-%lx", &a, &b); k += (b - a) / 4096; } return k; }
void sx_print(const char* s, long v) { fprintf(stderr, "[sx] %s %ld\n", s, v); } void sx_printf(const char* s, double v) { fprintf(stderr, "[sx] %s %g\n", s, v); }
}
int main(int argc, char** argv) {
  if (argc > 1) { std::ifstream f(argv[1]); std::string n, v; while (f >> n >> v) M()[n] = v; }
  try { sx_main(); } catch (std::exception& e) { printf("SX-EXCEPTION: %s\n", e.what()); fflush(stdout); _exit(76); } catch (...) { printf("SX-EXCEPTION\n"); fflush(stdout); _exit(76); }
  fflush(stdout); if (fails) _exit(77); printf("SX-OK\n"); fflush(stdout); _exit(0);
}
