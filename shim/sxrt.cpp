// Runtime models linked into every symbolic build: in-memory files, C string functions, clock.
#include "sxio.h"
#include "../harness/sx.h"
#include <chrono>
#include <cstdlib>
extern "C" { void* sx_alloc_mmap(unsigned long); void sx_free_mmap(void*); unsigned long sx_obj_size(void*); int sx_is_mmap(void*); }
namespace std { ostream cout, cerr, clog; istream cin; }
struct SxNamed { std::string name; SxFile* f; };
static SxNamed sx_files[64]; static int sx_nfiles = 0;
static std::string sx_dirs[8]; static int sx_ndirs = 0; extern "C" void sx_dir_put(const char* n) { sx_dirs[sx_ndirs++] = n; }
SxFile* sx_buf_new() { SxFile* f = (SxFile*)malloc(sizeof(SxFile)); f->d = nullptr; f->n = f->cap = 0; return f; }
void sx_buf_put(SxFile* f, size_t pos, const char* s, size_t n) {
  if (pos + n > f->cap) { size_t c = (pos + n) * 2 + 64; char* d = (char*)malloc(c); if (f->n) memcpy(d, f->d, f->n); if (f->d) free(f->d); f->d = d; f->cap = c; }
  if (pos > f->n) memset(f->d + f->n, 0, pos - f->n); if (n) memcpy(f->d + pos, s, n); if (pos + n > f->n) f->n = pos + n;
}
SxFile* sx_fs_open(const std::string& name, bool create, bool trunc) {
  for (int i = 0; i < sx_nfiles; i++) if (sx_files[i].f && sx_files[i].name == name) { if (trunc) sx_files[i].f->n = 0; return sx_files[i].f; }
  if (!create) return nullptr; if (name.size() && name[0] == '!') return nullptr; // names starting with '!' model unwritable paths
  size_t slash = name.rfind('/'); if (slash != std::string::npos && slash > 0 && name[0] != '/') { bool ok = slash == 1 && name[0] == '.'; for (int i = 0; i < sx_ndirs; i++) if (name.compare(0, slash, sx_dirs[i]) == 0) ok = true; if (!ok) return nullptr; } // a relative directory must exist
  sx_files[sx_nfiles].name = name; sx_files[sx_nfiles].f = sx_buf_new(); return sx_files[sx_nfiles++].f;
}
extern "C" {
void sx_file_put(const char* name, const void* d, unsigned long n) { SxFile* f = sx_fs_open(name, true, true); sx_buf_put(f, 0, (const char*)d, n); }
long sx_file_size(const char* name) { SxFile* f = sx_fs_open(name, false, false); return f ? (long)f->n : -1; }
void sx_file_get(const char* name, void* d, unsigned long n) { SxFile* f = sx_fs_open(name, false, false); memcpy(d, f->d, n); }
void sx_stdout() { std::cout.f = sx_buf_new(); std::cout.wpos = 0; std::cout.null_ = false; std::cout.st = 0; }
long sx_stdout_get(char* d, long n) { long k = std::cout.f ? (long)std::cout.f->n : 0; if (n > k) n = k; if (n > 0) std::memcpy(d, std::cout.f->d, n); return k; }
void sx_stdin(const char* t) { std::cin.fi = sx_buf_new(); sx_buf_put(std::cin.fi, 0, t, std::strlen(t)); std::cin.rpos = 0; std::cin.st = 0; }
long readlink(const char*, char*, unsigned long) { return -1; }
int sx_open(const char* p, int) __asm__("open"); int sx_open(const char* p, int) { for (int i = 0; i < sx_nfiles; i++) if (sx_files[i].f && sx_files[i].name == p) return 10 + i; return -1; }
int close(int) { return 0; }
int isatty(int) { return 0; }
long getpagesize_() { return 4096; }
int getpagesize() { return 4096; }
long sysconf(int) { return 4096; }
static unsigned long sx_pages; unsigned sx_mapped_pages(const char*) { return (unsigned)sx_pages; }
void* sx_do_mmap(unsigned long len, int fd, long off) { if (fd < 10 || fd >= 10 + sx_nfiles || (off & 4095) || len == 0) return (void*)-1; SxFile* f = sx_files[fd - 10].f; char* p = (char*)sx_alloc_mmap(len); unsigned long av = f->n > (unsigned long)off ? f->n - off : 0; memcpy(p, f->d + off, av < len ? av : len); sx_pages += (len + 4095) / 4096; return p; }
void* mmap(void*, unsigned long len, int, int, int fd, long off) { return sx_do_mmap(len, fd, off); }
void* mmap64(void*, unsigned long len, int, int, int fd, long off) { return sx_do_mmap(len, fd, off); }
int munmap(void* p, unsigned long len) { if (((unsigned long)p & 4095) || len == 0 || !sx_is_mmap(p)) return -1; unsigned long n = (sx_obj_size(p) + 4095) / 4096, u = (len + 4095) / 4096; if (u > n) u = n; sx_pages -= u; sx_free_mmap(p); return 0; }
unsigned long strlen(const char* s) { unsigned long n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, unsigned long n) { for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int memcmp(const void* p, const void* q, unsigned long n) { const unsigned char *a = (const unsigned char*)p, *b = (const unsigned char*)q; for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
int bcmp(const void* p, const void* q, unsigned long n) { return memcmp(p, q, n); }
const void* sx_memchr(const void* p, int c, unsigned long n) __asm__("memchr"); 
const void* sx_memchr(const void* p, int c, unsigned long n) { const unsigned char* a = (const unsigned char*)p; for (; n; n--, a++) if (*a == (unsigned char)c) return a; return nullptr; }
const char* sx_strchr(const char* s, int c) __asm__("strchr"); const char* sx_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, unsigned long n) { unsigned long i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int tolower(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalnum(int c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static unsigned long sx_strtox(const char* s, char** e, int base, bool& neg, bool& any) {
  const char* p = s; while (isspace((unsigned char)*p)) p++; neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; any = false; bool ovf = false; for (;; p++) { int c = (unsigned char)*p, q; if ((c >= '0') & (c <= '9')) q = c - '0'; else if ((c >= 'a') & (c <= 'z')) q = c - 'a' + 10; else if ((c >= 'A') & (c <= 'Z')) q = c - 'A' + 10; else break; if (q >= base) break; if (v > (~0UL - q) / base) ovf = true; v = v * base + q; any = true; }
  if (e) *e = (char*)(any ? p : s); if (ovf) { neg = false; return ~0UL; } return v; }
unsigned long strtoul(const char* s, char** e, int b) { bool n, a; unsigned long v = sx_strtox(s, e, b, n, a); return n ? -v : v; }
long strtol(const char* s, char** e, int b) { bool n, a; unsigned long v = sx_strtox(s, e, b, n, a); if (n) return v > (1UL << 63) ? (long)(1UL << 63) : -(long)v; return v > (~0UL >> 1) ? (long)(~0UL >> 1) : (long)v; }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
double strtod(const char* s, char** e) { int u; double v = sx_strtod(s, &u); if (e) *e = (char*)s + u; return v; }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, nullptr); }
static int sx_errno; int* __errno_location() { return &sx_errno; }
static unsigned short sx_ctab[384];
}
static long sx_clock = 1000000000L; extern "C" void sx_clock_advance(long ns) { sx_clock += ns; }
namespace std { namespace chrono { inline namespace _V2 {
  system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock)); }
  steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_clock)); }
} } }
extern "C" { int sx_random_mode = 0; unsigned sx_random_draws = 0; }
// C files over the same in-memory files
struct SxCFile { SxFile* f; unsigned long pos; bool w; };
extern "C" {
void* sx_fopen(const char* n, const char* m) __asm__("fopen"); void* sx_fopen(const char* n, const char* m) { SxFile* f = sx_fs_open(n, *m != 'r', *m == 'w'); if (!f) return nullptr; SxCFile* c = (SxCFile*)malloc(sizeof(SxCFile)); c->f = f; c->pos = *m == 'a' ? f->n : 0; c->w = *m != 'r'; return c; }
int sx_fclose(void* p) __asm__("fclose"); int sx_fclose(void* p) { free(p); return 0; }
unsigned long sx_fread(void* d, unsigned long s, unsigned long n, void* p) __asm__("fread"); unsigned long sx_fread(void* d, unsigned long s, unsigned long n, void* p) { SxCFile* c = (SxCFile*)p; unsigned long av = c->pos < c->f->n ? c->f->n - c->pos : 0, k = s ? av / s : 0; if (k > n) k = n; if (k) memcpy(d, c->f->d + c->pos, k * s); c->pos += k * s; return k; }
unsigned long sx_fwrite(const void* d, unsigned long s, unsigned long n, void* p) __asm__("fwrite"); unsigned long sx_fwrite(const void* d, unsigned long s, unsigned long n, void* p) { SxCFile* c = (SxCFile*)p; if (!c->w) return 0; if (s * n) sx_buf_put(c->f, c->pos, (const char*)d, s * n); c->pos += s * n; return n; }
}
