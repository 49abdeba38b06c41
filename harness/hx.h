// Helpers shared by the harnesses.
#pragma once
#include <cstring>
#include <string>
#include <vector>
#include <cmath>
#include <cn24.h>
#include "sx.h"
using namespace Conv;
typedef std::vector<CombinedTensor*> CTV;
typedef std::vector<Tensor*> TV;
// global objects the library expects after initialisation
static inline void hx_init() { System::log_level = -1; if (!System::stat_aggregator) System::stat_aggregator = new StatAggregator(); if (!System::viewer) System::viewer = nullptr; }
// fill with symbolic values lo..hi (multiples of 2^-grid)
static inline void hx_fill(Tensor& t, const char* n, int lo, int hi, int grid = 0) { for (std::size_t i = 0; i < t.elements(); i++) t[i] = sx_real_f(n, lo, hi, grid); }
static inline void hx_bits(Tensor& t, const char* n) { for (std::size_t i = 0; i < t.elements(); i++) t[i] = sx_float_bits(n); }
static inline void hx_undef(Tensor& t) { if (t.elements()) sx_make_undef(t.data_ptr(), t.elements() * sizeof(datum)); }
static inline CombinedTensor* hx_ct(int s, int w, int h, int m) { return new CombinedTensor(s, w, h, m); }
// reference indexing, written from the documented layout (samples, maps, lines, pixels), not from the code under test
static inline std::size_t hx_at(const Tensor& t, int x, int y, int m, int s) { return (((std::size_t)s * t.maps() + m) * t.height() + y) * t.width() + x; }
static inline datum hx_get(const Tensor& t, int x, int y, int m, int s) { return t.data_ptr_const()[hx_at(t, x, y, m, s)]; }
static inline void hx_same(const Tensor& a, const Tensor& b, const char* msg) { sx_assert(a.elements() == b.elements(), msg); for (std::size_t i = 0; i < a.elements(); i++) sx_assert_same(a.data_ptr_const()[i], b.data_ptr_const()[i], msg); }
struct Copy { std::vector<datum> v; explicit Copy(const Tensor& t) : v(t.data_ptr_const(), t.data_ptr_const() + t.elements()) {} };
static inline void hx_unchanged(const Copy& c, const Tensor& t, const char* msg) { sx_assert(c.v.size() == t.elements(), msg); for (std::size_t i = 0; i < c.v.size(); i++) sx_assert_same(c.v[i], t.data_ptr_const()[i], msg); }
// what a backward pass may not touch: outputs and the gradients it reads
struct Kept { std::vector<Tensor*> t; std::vector<Copy> c; Kept(std::initializer_list<CombinedTensor*> l) { for (CombinedTensor* k : l) { t.push_back(&k->data); t.push_back(&k->delta); c.push_back(Copy(k->data)); c.push_back(Copy(k->delta)); } } void check() { for (std::size_t i = 0; i < t.size(); i++) hx_unchanged(c[i], *t[i], i % 2 ? "backward pass changed the output gradient" : "backward pass changed the output"); } };
static inline bool hx_shape(const Tensor& t, int s, int w, int h, int m) { return t.samples() == (std::size_t)s && t.width() == (std::size_t)w && t.height() == (std::size_t)h && t.maps() == (std::size_t)m && t.elements() == (std::size_t)s * w * h * m; }

// CreateOutputs + Connect the way the network does; false if the layer rejects the input shape
static inline bool hx_setup(Layer& L, const CTV& ins, CTV& outs, NetStatus* st) { if (!L.CreateOutputs(ins, outs)) return false; return L.Connect(ins, outs, st); }
static inline datum& hx_ref(Tensor& t, int x, int y, int m, int s) { return t.data_ptr()[hx_at(t, x, y, m, s)]; }
#define FOR(i, n) for (int i = 0; i < (int)(n); i++)
