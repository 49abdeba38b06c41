// Harness interface. In the symbolic build the engine supplies these; in the replay build sxnative.cpp reads the solver's values.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int sx_choose(const char* name, int lo, int hi);     // symbolic integer, split over every value in [lo,hi]
int sx_int(const char* name, int lo, int hi);        // symbolic integer kept symbolic
unsigned char sx_u8(const char* name); unsigned sx_u32(const char* name); unsigned long sx_u64(const char* name); bool sx_bool(const char* name);
float sx_float_bits(const char* name);               // any IEEE-754 single bit pattern
double sx_real(const char* name, int lo, int hi, int grid); // any multiple of 2^-grid in [lo,hi]*2^-grid
void sx_assume(bool c);
void sx_assert(bool c, const char* msg);
void sx_assert_feq(double a, double b, const char* msg);
void sx_assert_same(float a, float b, const char* msg); // bit-for-bit
void sx_reach(const char* msg);
void sx_note(const char* msg);
int sx_symbolic();
int sx_param(const char* name, int dflt);
unsigned sx_heap_live();
void sx_make_undef(void* p, size_t n);
void sx_clock_advance(long ns); void sx_dir_put(const char* name); void sx_file_put(const char* name, const void* d, unsigned long n); long sx_file_size(const char* name); void sx_file_get(const char* name, void* d, unsigned long n);
void sx_stdin(const char* text); // what the program reads from its standard input
void sx_stdout(); // keeps what the program writes to its standard output from now on
long sx_stdout_get(char* to, long n); // ... the first n bytes of it; its length
unsigned sx_mapped_pages(const char* file); // pages of file mapped into the process
void sx_print(const char*, long); void sx_printf(const char*, double);
int sx_main();
}
static inline float sx_real_f(const char* n, int lo, int hi, int grid = 0) { return (float)sx_real(n, lo, hi, grid); }
// runs f; true if it raised an exception
template <class F> static bool sx_throws(F f) { try { f(); } catch (...) { return true; } return false; }
