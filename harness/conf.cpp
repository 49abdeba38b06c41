// Configuration text: parsing of settings and descriptors, construction of layers, networks built from a configuration.
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <functional>
#include <chrono>
#include <cmath>
#define private public
#define protected public
#include "hx.h"
#include "ConfigurableFactory.h"
#include "LayerFactory.h"
#undef private
#undef protected
#include "ConfigParsing.h"
#include "ConvolutionLayer.h"
#include "MaxPoolingLayer.h"
#include "AdvancedMaxPoolingLayer.h"
#include "GradientAccumulationLayer.h"
#include "ResizeLayer.h"
#include "HMaxActivationFunction.h"
#include "UpscaleLayer.h"
#include "ErrorLayer.h"
#include "LocalResponseNormalizationLayer.h"
#include "InputDownSamplingLayer.h"
#include "NonLinearityLayer.h"
#include "SpatialPriorLayer.h"
#include "ConcatenationLayer.h"
#include "SumLayer.h"
#include "NetGraphNode.h"
static std::string digits(const char* n, int len, unsigned& v) { std::string s; v = 0; FOR(i, len) { int d = sx_int(n, 0, 9); s += (char)('0' + d); v = v * 10 + d; } return s; }
static char letter(const char* n) { char c = (char)sx_u8(n); sx_assume(c >= 'a' && c <= 'z'); return c; }

// one parameter among others: found by its name wherever it stands, absent parameters leave the value alone
static void params() {
  static const char* K[] = {"size", "k", "llr"}; std::string key = K[sx_choose("key", 0, 2)]; int kind = sx_choose("kind", 0, 3), before = sx_choose("before", 0, 2), after = sx_choose("after", 0, 2); std::string value, other; unsigned a = 0, b = 0; double d = 0;
  if (kind == 0) value = digits("digit", sx_choose("digits", 1, 4), a);
  else if (kind == 1) { value = digits("width", sx_choose("width_digits", 1, 2), a) + "x"; value += digits("height", sx_choose("height_digits", 1, 2), b); }
  else if (kind == 2) { int w = sx_choose("whole", 0, 12); static const char* F[] = {"", ".5", ".25", ".125", "e2"}; static const double A[] = {0, .5, .25, .125, 0}; int f = sx_choose("fraction", 0, 4); bool neg = sx_choose("negative", 0, 1); d = (w + A[f]) * (f == 4 ? 100 : 1) * (neg ? -1 : 1); value = (neg ? "-" : "") + std::to_string(w) + F[f]; }
  else { int len = sx_choose("length", 0, 3); FOR(i, len) value += letter("character"); }
  static const char* B[] = {"", "?convolutional ", "y=3x4 "}; static const char* A[] = {"", " z=7x8", " z=1 yy=ab"}; bool present = sx_choose("present", 0, 1); std::string line = B[before]; if (present) line += key + "=" + value; else line += "w=5x6"; line += A[after];
  unsigned x = 91, y = 92; datum f = 93; std::string s = "unset";
  if (kind == 0) { ParseCountIfPossible(line, key, x); sx_assert(x == (present ? a : 91), "count of a parameter"); sx_assert(y == 92, "other value"); }
  else if (kind == 1) { ParseKernelSizeIfPossible(line, key, x, y); sx_assert(x == (present ? a : 91) && y == (present ? b : 92), "width and height of a parameter"); }
  else if (kind == 2) { ParseDatumParamIfPossible(line, key, f); sx_assert(f == (present ? (datum)d : 93), "number of a parameter"); }
  else { ParseStringParamIfPossible(line, key, s); sx_assert(s == (present ? value : std::string("unset")), "text of a parameter"); }
  sx_reach("parameter");
}
// whole-line settings: name, one separator, value
static void lines() {
  static const char* K[] = {"lr", "l1", "momentum"}; std::string key = K[sx_choose("key", 0, 2)], line = key; int kind = sx_choose("kind", 0, 2), form = sx_choose("form", 0, 4); unsigned v = 0; double d = 0; std::string value;
  if (kind == 0) value = digits("digit", sx_choose("digits", 1, 3), v); else if (kind == 1) { int w = sx_choose("whole", 0, 3); static const char* F[] = {"", ".5", ".0625", "e-2"}; int f = sx_choose("fraction", 0, 3); value = std::to_string(w) + F[f]; d = f == 3 ? w * 0.01 : w + (f == 1 ? .5 : f == 2 ? .0625 : 0); } else { int n = sx_choose("length", 1, 3); FOR(i, n) value += letter("character"); }
  if (form == 0) line = key + "=" + value; else if (form == 1) line = key + " " + value; else if (form == 2) line = "x" + key + "=" + value; else if (form == 3) line = key.substr(0, key.size() - 1); bool hit = form < 2, name = form == 4;
  unsigned u = 77; datum f = 78; std::string s = "unset"; sx_assert(StartsWithIdentifier(line, key) == (hit || name), "a setting is recognised by its name");
  bool threw = sx_throws([&] { if (kind == 0) ParseUIntIfPossible(line, key, u); else if (kind == 1) ParseDatumIfPossible(line, key, f); else ParseStringIfPossible(line, key, s); }); sx_assert(!threw, "a line without a value raises no exception");
  if (hit) { if (kind == 0) sx_assert(u == v, "count of a setting"); else if (kind == 1) sx_assert_feq(f, d, "number of a setting"); else sx_assert(s == value, "text of a setting"); }
  else if (!name) sx_assert(u == 77 && f == 78 && s == "unset", "other lines leave the value alone"); sx_reach("setting");
}
// descriptors: the documented grammar, written as an automaton
static bool low(unsigned char c) { return c >= 'a' && c <= 'z'; }
static bool val(unsigned char c) { return low(c) || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '.'; }
static bool valid(const unsigned char* c, int n) { int i = 0; if (i >= n || !low(c[i])) return false; while (i < n && low(c[i])) i++; if (i == n) return true; if (c[i] != '(') return false; i++; if (i == n - 1 && c[i] == ')') return true;
  for (;;) { int k = i; while (i < n && low(c[i])) i++; if (i == k || i >= n || c[i] != '=') return false; k = ++i; while (i < n && val(c[i])) i++; if (i == k || i >= n) return false; if (c[i] == ')') return i == n - 1; if (c[i] != ' ') return false; i++; } }
static void grammar() {
  int n = sx_choose("length", 0, sx_param("max", 6)); std::string pre = sx_choose("prefix", 0, 1) ? "a(b=1" : ""; std::string s = pre; FOR(i, n) { unsigned char c = sx_u8("character"); sx_assume(c < 128 && c != 0 && c != '\n' && c != '\r'); s += (char)c; } int t = s.size(); const unsigned char* p = (const unsigned char*)s.data();
  bool want = valid(p, t); sx_assert(LayerFactory::IsValidDescriptor(s) == want, "a descriptor is accepted exactly if it follows the grammar");
  if (!want) { sx_assert(LayerFactory::ConstructLayer(s) == nullptr, "no layer for an invalid descriptor"); sx_assert(LayerFactory::InjectSeed(s, 5) == s, "an invalid descriptor is left alone"); }
  else { int i = 0; while (i < t && low(p[i])) i++; std::string type = s.substr(0, i), conf = i == t ? "" : s.substr(i + 1, t - i - 2); sx_assert(LayerFactory::ExtractLayerType(s) == type, "type of a descriptor"); sx_assert(LayerFactory::ExtractConfiguration(s) == conf, "configuration of a descriptor"); sx_reach("valid"); }
  sx_reach("descriptor"); }
static void inject() {
  static const char* T[] = {"convolution", "relu", "a"}; std::string type = T[sx_choose("type", 0, 2)]; int before = sx_choose("before", 0, 2), after = sx_choose("after", 0, 2), has = sx_choose("has_seed", 0, 1), bare = sx_choose("bare", 0, 1); if (bare && (before || after || has)) return; unsigned old, seed = sx_choose("new_seed", 0, 3); static const unsigned S[] = {0, 7, 532, 4294967295u}; seed = S[seed];
  std::string conf; static const char* B[] = {"", "size=3x3", "k=a size=3x4"}; static const char* A[] = {"", "llr=2", "pad=1x1 x=1"}; conf = B[before]; std::string add = "seed=" + std::to_string(seed), want = conf; if (has) { if (conf.size()) { conf += " "; want += " "; } conf += "seed=" + digits("digit", sx_choose("digits", 1, 3), old); want += add; }
  if (after) { if (conf.size()) { conf += " "; want += " "; } conf += A[after]; want += A[after]; } if (!has) { if (want.size()) want += " "; want += add; }
  std::string d = bare ? type : type + "(" + conf + ")"; std::string got = LayerFactory::InjectSeed(d, seed); sx_assert(got == type + "(" + want + ")", "the seed replaces the given one or is appended, the rest is kept"); sx_assert(LayerFactory::IsValidDescriptor(got), "the result is a valid descriptor"); sx_assert(LayerFactory::InjectSeed(got, seed) == got, "injecting again changes nothing"); sx_reach("injected"); }
// layers built from descriptors behave like layers built from numbers
static std::string xy(unsigned a, unsigned b) { return std::to_string(a) + "x" + std::to_string(b); }
static void mk(Layer* L, CTV& in, CTV& out, NetStatus& st) { sx_assert(L->CreateOutputs(in, out) && L->Connect(in, out, &st), "layer can be connected"); }
static void same(Layer* A, Layer* B, int W, int H, int M, bool weights) {
  NetStatus st; st.SetIsTesting(true); CTV ia{hx_ct(1, W, H, M)}, ib{hx_ct(1, W, H, M)}, oa, ob; bool ca = A->CreateOutputs(ia, oa), cb = B->CreateOutputs(ib, ob); sx_assert(ca == cb, "same inputs are accepted"); if (!ca) return; sx_assert(oa.size() == ob.size(), "same outputs"); FOR(i, oa.size()) sx_assert(oa[i]->data.width() == ob[i]->data.width() && oa[i]->data.height() == ob[i]->data.height() && oa[i]->data.maps() == ob[i]->data.maps(), "same output shape");
  sx_assert(A->Connect(ia, oa, &st) && B->Connect(ib, ob, &st), "both connect"); sx_assert(A->parameters().size() == B->parameters().size(), "same parameters"); sx_assert(A->local_lr_ == B->local_lr_, "same local learning rate");
  if (weights) { A->OnLayerConnect(std::vector<Layer*>()); B->OnLayerConnect(std::vector<Layer*>()); } FOR(p, A->parameters().size()) { sx_assert(A->parameters()[p]->data.elements() == B->parameters()[p]->data.elements(), "same parameter shape"); FOR(i, A->parameters()[p]->data.elements()) { if (weights && sx_param("seeded", 0)) sx_assert_same(A->parameters()[p]->data[i], B->parameters()[p]->data[i], "the seed determines the initial weights"); datum v = sx_real_f("weight", -2, 2); A->parameters()[p]->data[i] = v; B->parameters()[p]->data[i] = v; } }
  FOR(i, ia[0]->data.elements()) { datum v = weights ? sx_real_f("input", -2, 2) : (datum)((i * 7 + i / 3) % 11) * 0.25f - 1; ia[0]->data[i] = v; ib[0]->data[i] = v; } A->FeedForward(); B->FeedForward(); FOR(o, oa.size()) FOR(i, oa[o]->data.elements()) sx_assert_feq(oa[o]->data[i], ob[o]->data[i], "same result"); }
static void construct() {
  sx_random_mode = 1;   int type = sx_param("type", 0); std::string c; Layer *A = nullptr, *B = nullptr; int W = 4, H = 3, M = 2; bool drop = false; static const char* N[] = {"convolution", "maxpooling", "amaxpooling", "tanh", "sigm", "relu", "gradientaccumulation", "resize", "hmax"}; bool bad = false, absent = sx_param("seeded", 0) ? false : sx_choose("defaults", 0, 1), rot = sx_choose("rotate", 0, 1); std::vector<std::string> t;
  if (type == 0) { unsigned kx = sx_choose("kx", 0, 2), ky = sx_choose("ky", 1, 2), k = sx_choose("kernels", 2, 3), sx = 1, sy = 1, px = 0, py = 0, g = 1, seed = 0; t.push_back("size=" + xy(kx, ky)); t.push_back("kernels=" + std::to_string(k)); datum llr = 1; if (!absent) { sx = sx_choose("stride", 0, 2); sy = 3 - sx; px = sx_choose("pad", 0, 1); py = 1 - px; g = sx_choose("group", 0, 2); seed = 3; llr = 0.5; t.push_back("stride=" + xy(sx, sy)); t.push_back("pad=" + xy(px, py)); t.push_back("group=" + std::to_string(g)); t.push_back("llr=0.5"); t.push_back("seed=3"); t.push_back("dropout=0.25"); }
    bad = kx == 0 || sx == 0 || g == 0 || k % g; if (!bad) { B = new ConvolutionLayer(kx, ky, k, sx, sy, px, py, g, seed, absent ? 0.f : 0.25f); B->SetLocalLearningRate(llr); } }
  if (type == 1) { unsigned x = absent ? 1 : sx_choose("width", 0, 3), y = absent ? 1 : sx_choose("height", 1, 3); if (!absent) t.push_back("size=" + xy(x, y)); B = new MaxPoolingLayer(x, y); }
  if (type == 2) { unsigned x = absent ? 1 : sx_choose("width", 1, 3), y = absent ? 1 : sx_choose("height", 1, 2), sx = x, sy = y; if (!absent) { t.push_back("size=" + xy(x, y)); if (sx_choose("strided", 0, 1)) { sx = sx_choose("stride", 1, 2); sy = 1; t.push_back("stride=" + xy(sx, sy)); } } B = new AdvancedMaxPoolingLayer(x, y, sx, sy); }
  if (type == 3) B = new TanhLayer(); if (type == 4) B = new SigmoidLayer(); if (type == 5) B = new ReLULayer(); if (type == 6) { unsigned n = absent ? 0 : sx_choose("outputs", 1, 3); if (!absent) t.push_back("outputs=" + std::to_string(n)); B = new GradientAccumulationLayer(n); }
  if (type == 7) { unsigned x = absent ? 0 : sx_choose("width", 0, 3), y = absent ? 0 : sx_choose("height", 0, 2); if (!absent) t.push_back("border=" + xy(x, y)); B = new ResizeLayer(x, y); } if (type == 8) { H = 2; W = 2; if (!absent) { t.push_back("mu=0.5"); t.push_back("weight=0.25"); } B = new HMaxActivationFunction(absent ? 1 : 0.5, absent ? 0 : 0.25); }
  FOR(i, t.size()) { std::string& s = t[rot ? t.size() - 1 - i : i]; c += (c.size() ? " " : "") + s; } std::string d = N[type]; if (c.size() || rot) d += "(" + c + ")"; bool threw = sx_throws([&] { A = LayerFactory::ConstructLayer(d); }); sx_assert(threw == bad, "impossible layer settings are refused, possible ones accepted"); if (bad) { sx_reach("refused"); return; } sx_assert(A != nullptr, "a layer of the named type"); sx_assert(A->GetLayerConfiguration() == c, "configuration of the layer"); same(A, B, W, H, M, type == 0); if (type == 8) { HMaxActivationFunction *x = (HMaxActivationFunction*)A, *y = (HMaxActivationFunction*)B; sx_assert_feq(x->CalculateLossFunction(), y->CalculateLossFunction(), "same loss"); sx_assert(x->IsNotGradientSafe() == y->IsNotGradientSafe(), "same kind of loss"); } sx_reach("constructed"); }
static void unknown() { static const char* N[] = {"convolutional", "conv", "max", "relux", "rel", "tan", "sigmoid", "none", "upscale"}; std::string d = N[sx_choose("name", 0, 8)]; if (sx_choose("empty", 0, 1)) d += "()"; sx_assert(LayerFactory::ConstructLayer(d) == nullptr, "no layer for an unknown type"); sx_reach("unknown"); }
// receptive field and scale of a configuration with symbolic extents
static std::string two(const char* n, int& x, int& y, int lo) { unsigned a, b; std::string s = digits(n, 1, a); s += "x"; s += digits(n, 1, b); sx_assume((int)a >= lo && (int)b >= lo); x = a; y = b; return s; }
static void field() {
  int N = sx_param("first", -1) >= 0 ? sx_param("N", 3) : sx_choose("layers", 0, 1), method = sx_choose("method", 0, 2); bool training = sx_choose("training", 0, 1); int rx = 0, ry = 0, fx = 1, fy = 1; std::string t = method == 2 ? "method=fcn\n" : method == 1 ? "method=patch\n" : ""; bool manual = sx_choose("manual", 0, 1); int mx, my, gx, gy; if (manual && N > 1) return; if (N > 1 && method != 1) return; if (N > 2 && !training) return;
  FOR(i, N) { int kind = i == 0 && sx_param("first", -1) >= 0 ? sx_param("first", -1) : sx_choose("layer", 0, 5), kx = 1, ky = 1, sx = 1, sy = 1, px = 0, py = 0; static const char* K[] = {"?convolutional", "?maxpooling", "?amaxpooling", "?downsampling", "?fullyconnected neurons=3", "#?maxpooling"}; std::string line = K[kind]; bool sized = kind == 4 ? false : sx_choose("sized", 0, 1), strided = (kind == 0 || kind == 2) && sx_choose("strided", 0, 1), padded = kind == 0 && sx_choose("padded", 0, 1);
    if (sized) { if (kind == 0) line += " size=" + two("size", kx, ky, 1); else { kx = sx_choose("width", 1, 3); ky = i ? 4 - kx : 2; line += " size=" + xy(kx, ky); } } if (kind == 2) { sx = kx; sy = ky; } if (strided) { sx = sx_choose("stride", 1, 3); sy = i ? 2 : 4 - sx; line += " stride=" + xy(sx, sy); } if (padded) line += " pad=" + two("pad", px, py, 0); t += line + "\n"; if (kind == 5) continue;
    if (kind == 0 || kind == 2) { rx += fx * (kx - 1 - 2 * px); ry += fy * (ky - 1 - 2 * py); fx *= sx; fy *= sy; } else { fx *= kx; fy *= ky; } }
  if (manual) { unsigned a, b, c, d; std::string m = "manual rfx=" + digits("rfx", 1, a); m += " rfy=" + digits("rfy", 1, b); m += " factorx=" + digits("factorx", 1, c); m += " factory=" + digits("factory", 1, d) + "\n"; sx_assume(a > 0 && b > 0); t = m + t; rx = a; ry = b; fx = c; fy = d; }
  t += "?output\n"; std::istringstream in(t); ConfigurableFactory f(in, 1, training); bool patch = method == 1 && training; sx_assert(f.method() == (patch ? PATCH : FCN), "the method is read for training only"); sx_assert(f.patchsizex() == rx + (patch ? fx : 0), "width of the receptive field"); sx_assert(f.patchsizey() == ry + (patch ? fy : 0), "height of the receptive field"); sx_reach("field"); }
// source of the built network
struct TD : Layer, TrainingLayer { int S, W, H, M, C, lw, lh; TD() : Layer("data") {} const NetStatus* st;
  bool CreateOutputs(const CTV& i, CTV& o) { o.push_back(hx_ct(S, W, H, M)); o.push_back(hx_ct(S, lw, lh, C)); o.push_back(hx_ct(S, lw, lh, 2)); o.push_back(hx_ct(S, lw, lh, 1)); FOR(k, 4) FOR(i, o[k]->data.elements()) o[k]->data[i] = (datum)((i * 5 + k) % 7) * 0.25f; return true; } bool Connect(const CTV&, const CTV&, const NetStatus* s) { return true; } void FeedForward() {} void BackPropagate() {} void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { FOR(i, 4) b.push_back(NetGraphBuffer()); }
  void SetTestingMode(bool) {} unsigned GetSamplesInTrainingSet() { return 1; } unsigned GetSamplesInTestingSet() { return 1; } unsigned GetBatchSize() { return S; } datum GetLossSamplingProbability() { return 1; } unsigned GetLabelWidth() { return lw; } unsigned GetLabelHeight() { return lh; } };
static void built() { // the built network maps an image to one prediction per pixel, a patch to one prediction
  sx_random_mode = 1;   int N = sx_choose("layers", 0, sx_param("N", 2)); bool patch = sx_choose("patch", 0, 1); int C = sx_choose("classes", 1, 2), rx = 0, fx = 1, ry = 0, fy = 1; std::string t = patch ? "method=patch\n" : ""; int maps = 2, down = 0; std::vector<std::vector<int> > dims;
  FOR(i, N) { int kind = sx_choose("layer", 0, 3), x = sx_choose("extent", 1, 3), y = kind && i ? x : 4 - x, s = kind == 0 || kind == 2 ? sx_choose("stride", 1, 2) : 1; bool pad = kind == 0 && s == 1 && sx_choose("padded", 0, 1); if (kind == 3 && down++) return; dims.push_back({kind, y, pad});
    if (kind == 0) { t += "?convolutional kernels=2 size=" + xy(x, y) + " stride=" + xy(s, 1) + (pad ? " pad=0x1" : "") + "\n?relu\n"; rx += fx * (x - 1); ry += fy * (y - 1 - 2 * pad); fx *= s; } if (kind == 1) { t += "?maxpooling size=" + xy(x, y) + "\n"; fx *= x; fy *= y; } if (kind == 2) { t += "?amaxpooling size=" + xy(x, y) + " stride=" + xy(s, 1) + "\n"; rx += fx * (x - 1); ry += fy * (y - 1); fx *= s; } if (kind == 3) { t += "?downsampling size=" + xy(x, y) + "\n"; fx *= x; fy *= y; } }
  if (sx_choose("dense", 0, 1)) t += "?fullyconnected neurons=(o)\n"; else t += "?convolutional size=1x1 kernels=(o)\n"; t += "?output\n"; if (!patch && (rx < 0 || ry < 0)) return; if (patch && (rx + fx <= 0 || ry + fy <= 0)) return;
  std::istringstream in(t); ConfigurableFactory f(in, 1, true); NetGraph g; TD* d = new TD; d->S = sx_choose("samples", 1, 2); if (d->S == 2 && N == 2) return; d->M = maps; d->C = C; int cx = patch ? 1 : sx_choose("columns", 1, 2); d->W = patch ? f.patchsizex() : fx * cx; d->H = patch ? f.patchsizey() : fy * (3 - cx); d->lw = patch ? 1 : d->W; d->lh = patch ? 1 : d->H; { int h = d->H + (patch ? 0 : ry); for (auto& k : dims) { h = k[0] == 0 || k[0] == 2 ? h + 2 * k[2] - k[1] + 1 : h / k[1]; if (h <= 0) return; } }
  NetGraphNode* n = new NetGraphNode(d); n->is_input = true; g.AddNode(n);
  sx_assert(f.AddLayers(g, NetGraphConnection(n), C, true), "the configured network is complete"); sx_assert(g.GetLossNodes().size() == 1 && g.GetOutputNodes().size() == 1, "one output and one loss"); bool threw = sx_throws([&] { g.Initialize(); }); sx_assert(!threw, "the configured network can be initialised for its input size"); Tensor& o = g.GetDefaultOutputNode()->output_buffers[0].combined_tensor->data; sx_assert(hx_shape(o, d->S, d->lw, d->lh, C), patch ? "a patch has one prediction" : "every pixel has one prediction"); g.InitializeWeights(); g.FeedForward(); sx_assert(o.elements() > 0, "output"); sx_reach("built"); }
// structure of the built graph, against an interpreter of the same list of items
enum { CONV, DENSE, RELU, HMAX, POOL, APOOL, TANHL, SIGML, LRN, DOWN, PUSHA, PUSHB, POPA, POPB, CONCATA, CONCATB, SUMA, SUMB, PRIOR, UP, UPOUT, FLATTEN, COMMENT, OUTPUT, ITEMS };
static const char* LINE[] = {"?convolutional size=1x1 kernels=2", "?fullyconnected neurons=(o)", "?relu", "?hmax mu=0.5 weight=0.25", "?maxpooling size=1x1", "?amaxpooling size=1x1 stride=1x1", "?tanh", "?sigm", "?lrn method=across size=3 alpha=0.5 beta=0.75", "?downsampling size=1x1", "pusha", "pushb", "popa", "popb", "?concat stack=a", "?concat stack=b", "?sum stack=a", "?sum stack=b", "?spatialprior", "?upscale factor=1x1", "?upscale factor=1x1 is_output=1", "flatten", "#?relu", "?output weight=0.5"};
struct X { int kind; std::vector<std::pair<std::pair<int, int>, bool> > in; bool out; };
struct Src { int node, buf; bool bp; };
static bool is(Layer* l, int k, int C) { switch (k) { case CONV: case DENSE: return dynamic_cast<ConvolutionLayer*>(l); case RELU: return dynamic_cast<ReLULayer*>(l); case HMAX: return dynamic_cast<HMaxActivationFunction*>(l); case POOL: return dynamic_cast<MaxPoolingLayer*>(l); case APOOL: return dynamic_cast<AdvancedMaxPoolingLayer*>(l); case TANHL: return dynamic_cast<TanhLayer*>(l); case SIGML: return dynamic_cast<SigmoidLayer*>(l); case LRN: return dynamic_cast<LocalResponseNormalizationLayer*>(l); case DOWN: return dynamic_cast<InputDownSamplingLayer*>(l); case CONCATA: return dynamic_cast<ConcatenationLayer*>(l); case SUMA: return dynamic_cast<SumLayer*>(l); case UP: return dynamic_cast<UpscaleLayer*>(l); case OUTPUT: return C == 1 ? (Layer*)dynamic_cast<TanhLayer*>(l) : (Layer*)dynamic_cast<SigmoidLayer*>(l); case 98: return dynamic_cast<ResizeLayer*>(l); case 99: return dynamic_cast<ErrorLayer*>(l); } return false; }
static void structure() { sx_random_mode = 1;
  int N = sx_param("N", 3), stacks = sx_param("stacks", 0), scale = stacks ? 1 : sx_choose("scale", 0, 2); bool patch = scale == 2, loss = stacks ? false : sx_choose("loss", 0, 1); int C = stacks ? 2 : sx_choose("classes", 1, 2); std::string t = "method=" + std::string(patch ? "patch" : "fcn") + "\n"; std::vector<X> want; Src last{-1, 0, true}; std::vector<Src> a, b; bool underflow = false; bool up = scale == 0, convs = 0; static const std::vector<std::pair<std::pair<int, int>, bool> > none; int outputs = 0;
  static const int SET[] = {CONV, PUSHA, PUSHB, POPA, POPB, CONCATA, SUMA, CONCATB, SUMB}; std::vector<int> items; FOR(i, N) items.push_back(i == 0 && sx_param("first", -1) >= 0 ? sx_param("first", -1) : stacks ? SET[sx_choose("stack_item", 0, 8)] : sx_choose("item", 0, ITEMS - 1)); items.push_back(OUTPUT);
  if (scale) t += "manual rfx=2 rfy=3 factorx=2 factory=1\n"; if (scale == 1) { X x; x.kind = 98; x.in.push_back({{-1, 0}, false}); x.out = false; want.push_back(x); last = Src{0, 0, false}; }
  auto add = [&](int kind, std::vector<Src> in, bool out, bool bp) { X x; x.kind = kind; for (Src& s : in) x.in.push_back({{s.node, s.buf}, s.bp && s.node >= 0}); x.out = out; want.push_back(x); last = Src{(int)want.size() - 1, 0, bp}; outputs += out; };
  for (int k : items) { t += std::string(LINE[k]) + "\n"; if (underflow) continue; bool output = k == OUTPUT;
    if (k == PUSHA) a.push_back(last); if (k == PUSHB) b.push_back(last); if (k == POPA) { if (a.empty()) underflow = true; else { last = a.back(); a.pop_back(); } } if (k == POPB) { if (b.empty()) underflow = true; else { last = b.back(); b.pop_back(); } }
    if (k <= LRN) add(k, {last}, false, true); if (k == DOWN) add(k, {last}, false, false); if (k >= CONCATA && k <= SUMB) { std::vector<Src> q = k == CONCATA || k == SUMA ? a : b; std::vector<Src> r(q.rbegin(), q.rend()); add(k <= CONCATB ? CONCATA : SUMA, r, false, true); }
    if (k == PRIOR) { if (!up && !patch) { add(UP, {last}, false, true); up = true; } add(CONCATA, {last, Src{-1, 2, false}}, false, true); } if (k == UP || k == UPOUT) { output = k == UPOUT; add(UP, {last}, output, true); up = true; }
    if (k == OUTPUT) { add(OUTPUT, {last}, patch || up, true); if (!patch && !up) add(UP, {last}, true, true); } if (output && loss) { Src keep = last; add(99, {Src{keep.node, 0, true}, Src{-1, 1, false}, Src{-1, 3, false}}, false, true); last = keep; } }
  std::istringstream in(t); ConfigurableFactory f(in, 7, true); NetGraph g; TD* d = new TD; NetGraphNode* n = new NetGraphNode(d); n->is_input = true; g.AddNode(n); bool complete = false, threw = sx_throws([&] { complete = f.AddLayers(g, NetGraphConnection(n), C, loss); }); sx_assert(threw == underflow, "taking from an empty stack is refused, everything else accepted"); if (underflow) { sx_reach("underflow"); return; }
  std::vector<NetGraphNode*>& m = g.GetNodes(); sx_assert(complete, "the network is complete"); sx_assert(m.size() == want.size() + 1, "one node per layer"); FOR(i, want.size()) { NetGraphNode* x = m[i + 1]; sx_assert(is(x->layer, want[i].kind, C), "the nodes appear in the order of the configuration with the configured type"); sx_assert(x->is_output == want[i].out && !x->is_input, "the last node is the output"); sx_assert(x->input_connections.size() == want[i].in.size(), "number of inputs of a node");
    FOR(k, want[i].in.size()) { NetGraphConnection& c = x->input_connections[k]; sx_assert(c.node == m[want[i].in[k].first.first + 1] && (int)c.buffer == want[i].in[k].first.second, "a node reads what the configuration connects"); sx_assert(c.backprop == want[i].in[k].second, "gradients flow back to layers and not into the input"); } }
  sx_assert((int)g.GetOutputNodes().size() == outputs, "number of outputs"); sx_reach("structure"); }
// every kind of layer line builds the layer with the configured numbers
static void items() { sx_random_mode = 1; int k = sx_param("kind", 0), W = 4, H = 3, M = 2, two_ = sx_choose("first_setting", 0, 1), three = sx_choose("second_setting", 0, 1); bool dflt = sx_choose("defaults", 0, 1); std::string l; Layer* B = nullptr; int C = 2; unsigned x = 1 + two_, y = 1 + three; datum f = two_ ? 0.5f : 0.25f, h = three ? 0.75f : 2.f;
  if (k == 0) { l = "?convolutional size=" + xy(x, y) + " kernels=4"; if (!dflt) l += " pad=" + xy(three, two_) + " stride=" + xy(y, x) + " group=" + std::to_string(x) + " llr=0.25 dropout=0.5"; ConvolutionLayer* c = dflt ? new ConvolutionLayer(x, y, 4, 1, 1, 0, 0, 1, 1, 0) : new ConvolutionLayer(x, y, 4, y, x, three, two_, x, 1, 0.5f); c->SetLocalLearningRate(dflt ? 1.f : 0.25f); B = c; }
  if (k == 1) { l = "?fullyconnected neurons=" + std::to_string(x); W = H = 1; if (!dflt) l += " llr=0.25 dropout=0.5"; ConvolutionLayer* c = new ConvolutionLayer(1, 1, x, 1, 1, 0, 0, 1, 1, dflt ? 0 : 0.5f); c->SetLocalLearningRate(dflt ? 1.f : 0.25f); B = c; }
  if (k == 2) { l = "?maxpooling"; if (!dflt) l += " size=" + xy(x, y); B = dflt ? new MaxPoolingLayer(1, 1) : new MaxPoolingLayer(x, y); }
  if (k == 3) { l = "?amaxpooling size=" + xy(x, y); if (!dflt) l += " stride=" + xy(y, x); B = dflt ? new AdvancedMaxPoolingLayer(x, y, x, y) : new AdvancedMaxPoolingLayer(x, y, y, x); }
  if (k == 4) { l = "?downsampling"; if (!dflt) l += " size=" + xy(x, y); B = dflt ? new InputDownSamplingLayer(1, 1) : new InputDownSamplingLayer(x, y); }
  if (k == 5 || k == 6) { l = std::string("?lrn method=") + (k == 5 ? "across" : "within"); M = 3; if (!dflt) { l += std::string(" size=") + (three ? "3" : "1") + " alpha=" + (two_ ? "0.5" : "0.25") + " beta=" + (three ? "0.75" : "2"); } B = new LocalResponseNormalizationLayer(dflt ? 1 : three ? 3 : 1, dflt ? 1.f : f, dflt ? 1.f : h, k == 5 ? LocalResponseNormalizationLayer::ACROSS_CHANNELS : LocalResponseNormalizationLayer::WITHIN_CHANNELS); }
  if (k == 7) { l = "?hmax"; if (!dflt) l += std::string(" mu=") + (two_ ? "0.5" : "0.25") + " weight=" + (three ? "0.75" : "2"); B = new HMaxActivationFunction(dflt ? 1.f : f, dflt ? 0.f : h); }
  if (k == 8) { l = two_ ? "?relu" : three ? "?tanh" : "?sigm"; B = two_ ? (Layer*)new ReLULayer() : three ? (Layer*)new TanhLayer() : (Layer*)new SigmoidLayer(); }
  if (k == 9) { l = "?upscale"; if (!dflt) l += " factor=" + xy(x, y); B = dflt ? new UpscaleLayer(1, 1) : new UpscaleLayer(x, y); }
  if (k == 10) { l = "?output"; C = x; B = C == 1 ? (Layer*)new TanhLayer() : (Layer*)new SigmoidLayer(); if (!dflt) l += std::string(" weight=") + (three ? "0.75" : "2"); }
  std::istringstream in("method=patch\n" + l + "\n"); ConfigurableFactory cf(in, 7, true); NetGraph g; TD* d = new TD; NetGraphNode* n = new NetGraphNode(d); n->is_input = true; g.AddNode(n); cf.AddLayers(g, NetGraphConnection(n), C, k == 10); std::vector<NetGraphNode*>& m = g.GetNodes(); sx_assert(m.size() == (k == 10 ? 3u : 2u), "one node per layer"); same(m[1]->layer, B, W, H, M, false);
  if (k == 7) sx_assert_feq(((HMaxActivationFunction*)m[1]->layer)->CalculateLossFunction(), ((HMaxActivationFunction*)B)->CalculateLossFunction(), "same loss");
  if (k == 10) { ErrorLayer* e[2] = {dynamic_cast<ErrorLayer*>(m[2]->layer), new ErrorLayer(dflt ? 1.f : h)}; sx_assert(e[0] != nullptr, "a loss layer"); CTV v{hx_ct(1, 2, 1, 1), hx_ct(1, 2, 1, 1), hx_ct(1, 2, 1, 1)}, o; NetStatus st; FOR(i, 2) { FOR(q, 3) v[q]->data[i] = sx_real_f("value", -2, 2); } datum r[2]; FOR(i, 2) { o.clear(); sx_assert(e[i]->CreateOutputs(v, o) && e[i]->Connect(v, o, &st), "connects"); e[i]->FeedForward(); r[i] = e[i]->CalculateLossFunction(); } sx_assert_feq(r[0], r[1], "the loss has the configured weight"); }
  sx_reach("item"); }
static void settings() { // training settings of a configuration
  static const char* K[] = {"l1", "l2", "lr", "gamma", "momentum", "exponent", "eta", "mu"}; static const char* U[] = {"iterations", "sbatchsize", "pbatchsize"}; std::string t; double v[8]; TrainerSettings D; datum dd[8] = {D.l1_weight, D.l2_weight, D.learning_rate, D.gamma, D.momentum, D.exponent, D.eta, D.mu}; unsigned u[3] = {D.iterations, D.sbatchsize, D.pbatchsize}; FOR(i, 8) v[i] = dd[i]; auto om = D.optimization_method; int N = sx_param("N", 2); t = "?convolutional size=3x3\n";
  FOR(i, N) { int k = sx_choose("key", 0, 13); bool off = i == 0 && sx_choose("comment", 0, 1); if (off) t += "#"; if (k < 8) { int w = sx_choose("value", 0, 2); static const char* T[] = {"0.5", "12", "1e-3"}; static const double V[] = {0.5, 12, 1e-3}; t += std::string(K[k]) + "=" + T[w] + "\n"; if (!off) v[k] = V[w]; } else if (k < 11) { unsigned x; t += std::string(U[k - 8]) + "=" + digits("digit", sx_choose("digits", 1, 3), x) + "\n"; if (!off) u[k - 8] = x; } else if (k == 11) { t += "optimization=quickprop\n"; if (!off) om = QUICKPROP; } else if (k == 12) { t += "optimization=gradient_descent\n"; if (!off) om = GRADIENT_DESCENT; } else t += "?relu\n"; }
  std::istringstream in(t); ConfigurableFactory f(in, 1, true); if (sx_choose("twice", 0, 1)) f.InitOptimalSettings(); f.InitOptimalSettings(); TrainerSettings S = f.optimal_settings(); datum got[8] = {S.l1_weight, S.l2_weight, S.learning_rate, S.gamma, S.momentum, S.exponent, S.eta, S.mu}; FOR(i, 8) sx_assert(got[i] == (datum)v[i], "each setting takes the configured value, others their default"); sx_assert(S.iterations == u[0] && S.sbatchsize == u[1] && S.pbatchsize == u[2] && S.optimization_method == om && S.testing_ratio == D.testing_ratio && S.epoch_training_ratio == D.epoch_training_ratio, "each count takes the configured value, others their default"); sx_reach("settings"); }
static void reproducible() { // the seed determines every initial weight
  sx_random_mode = 1; std::string t = "?convolutional size=2x1 kernels=2\n?relu\n?convolutional size=1x1 kernels=(o)\n?output\n"; std::vector<datum> w[2]; unsigned s = sx_choose("seed", 0, 2); bool other = sx_choose("other_seed", 0, 1); FOR(r, 2) { std::istringstream in(t); ConfigurableFactory f(in, s * 1000 + (r ? other : 0), true); NetGraph g; TD* d = new TD; d->S = 1; d->W = d->lw = 3; d->H = d->lh = 2; d->M = 2; d->C = 2; NetGraphNode* n = new NetGraphNode(d); n->is_input = true; g.AddNode(n); f.AddLayers(g, NetGraphConnection(n), 2, true); g.Initialize(); g.InitializeWeights(); std::vector<CombinedTensor*> p; g.GetParameters(p); sx_assert(p.size() == 4, "two layers with parameters"); for (CombinedTensor* c : p) FOR(i, c->data.elements()) w[r].push_back(c->data[i]); }
  bool same = true; sx_assert(w[0].size() == w[1].size(), "same network"); FOR(i, w[0].size()) same = same && w[0][i] == w[1][i]; sx_assert(same != other, "the seed, and nothing else, determines the initial weights"); bool layers = false; FOR(i, 4) layers = layers || w[0][i] * std::sqrt(1.0) != w[0][10 + i]; sx_assert(layers, "layers start with different weights"); sx_reach("seeded"); }
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: params(); break; case 1: lines(); break; case 2: grammar(); break; case 3: inject(); break; case 4: construct(); break; case 5: unknown(); break; case 6: field(); break; case 7: built(); break; case 8: structure(); break; case 9: settings(); break; case 10: reproducible(); break; case 11: items(); break; } return 0; }
