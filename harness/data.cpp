// Datasets and the dataset input layer.
#include "hx.h"
#include <fstream>
#include <sstream>
#include "../private/Segmentation.h"
struct Img { int w, h, M, L; std::vector<datum> d, l; };
static Img image(int w, int h, int M, int L) { Img g; g.w = w; g.h = h; g.M = M; g.L = L; FOR(i, w * h * M) g.d.push_back(w > 9 ? (float)(i * 7 % 31 - 9) : sx_real_f("x", -8, 8, 2)); FOR(i, w * h * L) g.l.push_back(w > 9 ? (float)(i * 5 % 11) : sx_real_f("label", -2, 2, 1)); return g; }
static datum gd(const Img& g, int x, int y, int m) { return g.d[(m * g.h + y) * g.w + x]; }
static datum gl(const Img& g, int x, int y, int m) { return g.l[(m * g.h + y) * g.w + x]; }
static datum err(unsigned x, unsigned y, unsigned w, unsigned h) { return 1.f + (float)x + 16.f * y + 256.f * w + 65536.f * h; }
struct Fake : TensorStream { std::vector<Img> g; std::vector<int> bw; // plays the part of a tensor file: images at even, labels at odd places
  std::size_t GetWidth(unsigned i) { return i / 2 < g.size() ? g[i / 2].w : 0; } std::size_t GetHeight(unsigned i) { return i / 2 < g.size() ? g[i / 2].h : 0; } std::size_t GetMaps(unsigned i) { return i / 2 < g.size() ? (i & 1 ? g[i / 2].L : g[i / 2].M) : 0; } std::size_t GetSamples(unsigned i) { return i / 2 < g.size(); }
  unsigned LoadFile(std::string) { return 0; } unsigned GetTensorCount() { return 2 * g.size(); }
  bool CopySample(const unsigned i, const std::size_t ss, Tensor& t, const std::size_t ts) { if (i / 2 >= g.size()) return false; const Img& k = g[i / 2]; Tensor s(1, k.w, k.h, i & 1 ? k.L : k.M); FOR(e, s.elements()) s[e] = (i & 1 ? k.l : k.d)[e]; return Tensor::CopySample(s, ss, t, ts); } };
static int ceil64(int v) { return (v + 63) / 64 * 64; }
static int best(const Img& g, int x, int y) { int c = 0; FOR(m, g.L) if (gl(g, x, y, m) > gl(g, x, y, c)) c = m; return c; }
static void fcn() {
  int nt = sx_choose("training", 0, 2), ns = sx_choose("testing", 0, 2), M = sx_choose("maps", 1, 2), C = sx_choose("classes", 1, 2); if (nt + ns == 0 || nt + ns > 2 || (M == 2 && C == 2)) return; Fake *a = new Fake, *b = new Fake; int mw = 0, mh = 0;
  FOR(i, nt + ns) { Img g = image(i == sx_param("big", -1) ? 66 : sx_choose("width", 1, 2), i ? 2 : sx_choose("height", 1, 2), M, C); mw = g.w > mw ? g.w : mw; mh = g.h > mh ? g.h : mh; (i < nt ? a : b)->g.push_back(g); }
  std::vector<std::string> names; std::vector<unsigned> cols; std::vector<datum> cw; FOR(c, C) { names.push_back(c ? "road" : "sky"); cols.push_back(sx_u32("colour")); cw.push_back(sx_real_f("class_weight", 0, 8, 2)); }
  TensorStreamDataset d(a, b, C, names, cols, cw, err); sx_assert(d.GetWidth() == (unsigned)ceil64(mw) && d.GetHeight() == (unsigned)ceil64(mh), "image size is the largest image rounded up to a multiple of 64"); sx_assert(d.GetTrainingSamples() == (unsigned)nt && d.GetTestingSamples() == (unsigned)ns && d.SupportsTesting() == (ns > 0) && d.GetInputMaps() == (unsigned)M && d.GetLabelMaps() == (unsigned)C && d.GetClasses() == (unsigned)C && d.GetClassNames() == names && d.GetClassColors() == cols && d.GetClassWeights().size() == (std::size_t)C && d.GetMethod() == FCN && d.GetTask() == SEMANTIC_SEGMENTATION, "dataset description");
  int W = d.GetWidth(), H = d.GetHeight(); bool test = sx_choose("test_sample", 0, 1); int n = test ? ns : nt, i = sx_choose("index", 0, n), at = M == 1 ? sx_choose("position", 0, 1) : 0; Tensor x(2, W, H, M), l(2, W, H, C), h(2, W, H, 2), w(2, W, H, 1); x.Clear(77); l.Clear(77); h.Clear(77); w.Clear(77);
  bool ok = test ? d.GetTestingSample(x, l, h, w, at, i) : d.GetTrainingSample(x, l, h, w, at, i); sx_assert(ok == (i < n), "exactly the existing samples can be read"); if (!ok) { sx_reach("no such sample"); return; } const Img& g = (test ? b : a)->g[i];
  FOR(y, H) FOR(q, W) { if ((q >= 4 && q < W - 2 && q != 66 && q != 65) || (y >= 4 && y < H - 2)) continue; bool in = q < g.w && y < g.h; FOR(m, M) sx_assert_same(hx_get(x, q, y, m, at), in ? gd(g, q, y, m) : 0.f, "image, padded with zeros"); FOR(m, C) sx_assert_same(hx_get(l, q, y, m, at), in ? gl(g, q, y, m) : 0.f, "labels, padded with zeros");
    float px = in && g.w > 1 ? (float)q / ((float)g.w - 1) : 0.f, py = in && g.h > 1 ? (float)y / ((float)g.h - 1) : 0.f; sx_assert_same(hx_get(h, q, y, 0, at), px, "relative column"); sx_assert_same(hx_get(h, q, y, 1, at), py, "relative row");
    if (in) sx_assert_feq(hx_get(w, q, y, 0, at), err(q, y, g.w, g.h) * cw[best(g, q, y)], "weight is the localised error times the class weight"); else sx_assert_same(hx_get(w, q, y, 0, at), 0.f, "padding has no weight");
    sx_assert(hx_get(x, q, y, 0, 1 - at) == 77.f && hx_get(w, q, y, 0, 1 - at) == 77.f && hx_get(h, q, y, 0, 1 - at) == 77.f && hx_get(l, q, y, 0, 1 - at) == 77.f, "other samples are untouched"); } sx_reach("sample");
}
static void sizes() { static const int Z[] = {1, 16, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 192}; int w = Z[sx_choose("width", 0, 13)]; Fake *a = new Fake, *b = new Fake; Img g; g.w = w; g.h = 1; g.M = g.L = 1; bool swap = sx_choose("as_height", 0, 1), test = sx_choose("in_testing", 0, 1); if (swap) std::swap(g.w, g.h); (test ? b : a)->g.push_back(g); TensorStreamDataset d(a, b, 1, {"c"}, {1}, {1}, err); sx_assert((int)(swap ? d.GetHeight() : d.GetWidth()) == ceil64(w) && (swap ? d.GetWidth() : d.GetHeight()) == 64, "image size is the largest image rounded up to a multiple of 64"); sx_reach("size"); }
static void put64(std::string& s, uint64_t v) { FOR(i, 8) s += (char)(v >> (8 * i)); }
static void add(std::string& f, const Img& g) { put64(f, 1); put64(f, g.w); put64(f, g.h); put64(f, g.M); f.append((const char*)g.d.data(), 4 * g.d.size()); put64(f, 1); put64(f, g.w); put64(f, g.h); put64(f, g.L); f.append((const char*)g.l.data(), 4 * g.l.size()); }
static void patchcheck(TensorStreamPatchDataset& d, const std::vector<Img>& tr, const std::vector<Img>& te, int px, int py, const std::vector<datum>& cw, bool usererr) {
  bool test = sx_choose("test_sample", 0, 1); const std::vector<Img>& v = test ? te : tr; int M = d.GetInputMaps(), C = d.GetLabelMaps(), ct = 0, cs = 0; for (auto& g : tr) ct += (g.w - px + 1) * (g.h - py + 1); for (auto& g : te) cs += (g.w - px + 1) * (g.h - py + 1);
  sx_assert(d.GetTrainingSamples() == (unsigned)ct && d.GetTestingSamples() == (unsigned)cs && d.SupportsTesting() == !te.empty() && d.GetWidth() == (unsigned)px && d.GetHeight() == (unsigned)py && d.GetMethod() == PATCH, "one sample per patch that fits into an image");
  int at = sx_choose("position", 0, 1), k = 0; Tensor x(2, px, py, M), l(2, 1, 1, C), h(2, 1, 1, 2), w(2, 1, 1, 1);
  for (auto& g : v) for (int r = 0; r + py <= g.h; r++) for (int c = 0; c + px <= g.w; c++, k++) { hx_undef(x); hx_undef(l); sx_assert(test ? d.GetTestingSample(x, l, h, w, at, k) : d.GetTrainingSample(x, l, h, w, at, k), "every patch can be read"); FOR(m, M) FOR(y, py) FOR(q, px) sx_assert_same(hx_get(x, q, y, m, at), gd(g, c + q, r + y, m), "patch pixels"); int cx = c + px / 2, cy = r + py / 2; FOR(m, C) sx_assert_same(l(at * C + m), gl(g, cx, cy, m), "label of the patch centre");
    sx_assert_same(h(at * 2), g.w > 1 ? (float)c / ((float)g.w - 1) : 0.f, "relative column"); sx_assert_same(h(at * 2 + 1), g.h > 1 ? (float)r / ((float)g.h - 1) : 0.f, "relative row"); sx_assert_feq(w(at), (usererr ? err(cx, cy, g.w, g.h) : 1.f) * cw[best(g, cx, cy)], "weight of a patch"); }
  sx_assert(!(test ? d.GetTestingSample(x, l, h, w, at, k) : d.GetTrainingSample(x, l, h, w, at, k)), "there are no further patches"); sx_reach("patches");
}
static void patch() {
  int px = sx_choose("patch_width", 1, 3), py = sx_choose("patch_height", 1, 2), nt = sx_choose("training", 0, 2), ns = sx_choose("testing", 0, 2), M = sx_choose("maps", 1, 2), C = 1 + (M == 2); if (nt + ns == 0 || (nt == 2 && ns == 2 && px != 2)) return; std::vector<Img> tr, te; std::string ft, fs; FOR(i, nt + ns) { Img g = image(px - 1 + sx_choose("width", 1, 2), py - 1 + (i ? 2 : 1), M, C); (i < nt ? tr : te).push_back(g); add(i < nt ? ft : fs, g); }
  std::vector<std::string> names; std::vector<unsigned> cols; std::vector<datum> cw; FOR(c, C) { names.push_back("n"); cols.push_back(c); cw.push_back(sx_real_f("class_weight", 0, 8, 2)); } std::istringstream a(ft), b(fs); TensorStreamPatchDataset d(a, b, C, names, cols, cw, px, py, err, 0, 0); patchcheck(d, tr, te, px, py, cw, true);
}
static const char* HEX[] = {"0", "ff", "0x00ff00", "FFFFFF", "1a2B3c"}; static const unsigned HEXV[] = {0, 0xff, 0xff00, 0xffffff, 0x1a2b3c};
static void config() {
  bool pt = sx_param("patch", 0); int C = sx_choose("classes", 1, 2), sel = sx_choose("selection", 0, 3), has = sx_choose("files", 1, 3), nommap = pt ? sx_choose("nommap", 0, 1) : 0, wt = sx_choose("weights", 0, 1), k = sx_choose("colour", 0, 4), loc = sx_choose("localised", 0, 2); if ((sel && k) || (loc && (sel || k))) return; std::vector<Img> tr, te; std::string ft, fs; Img g1 = image(2, 1, 1, C), g2 = image(1, 2, 1, C); add(ft, g1); add(fs, g2); add(fs, g1);
  sx_file_put("sx.train", ft.data(), ft.size()); sx_file_put("sx.test", fs.data(), fs.size()); std::string t = nommap ? "nommap\n" : ""; t += "classes=" + std::to_string(C) + "\n"; FOR(c, C) t += c ? "left lane\n" : "sky\n"; t += "colors\n"; FOR(c, C) t += std::string(HEX[(k + c) % 5]) + "\n"; if (wt) { t += "weights\n"; FOR(c, C) t += c ? "0.25\n" : "3\n"; } if (loc) t += loc == 1 ? "localized_error=kitti\n" : "localized_error=default\n"; if (has & 1) t += "training=sx.train\n"; if (has & 2) t += "testing=sx.test\n";
  DatasetLoadSelection S = sel == 1 ? LOAD_TRAINING_ONLY : sel == 2 ? LOAD_TESTING_ONLY : LOAD_BOTH; bool none = sel == 3; if ((has & 1) && !none && sel != 2) tr = {g1}; if ((has & 2) && !none && sel != 1) te = {g2, g1}; std::istringstream in(t); Dataset* d; std::vector<datum> cw; FOR(c, C) cw.push_back(wt ? (c ? 0.25f : 3.f) : 1.f); if (tr.empty() && te.empty() && !pt && !none) {}
  TensorStreamPatchDataset* p = nullptr; if (pt) d = p = TensorStreamPatchDataset::CreateFromConfiguration(in, none, S, 1, 1); else d = TensorStreamDataset::CreateFromConfiguration(in, none, S);
  sx_assert(d->GetClasses() == (unsigned)C && d->GetClassNames().size() == (std::size_t)C && d->GetClassColors().size() == (std::size_t)C && d->GetClassWeights().size() == (std::size_t)C, "class count"); FOR(c, C) { sx_assert(d->GetClassNames()[c] == (c ? "left lane" : "sky"), "class names"); sx_assert(d->GetClassColors()[c] == HEXV[(k + c) % 5], "class colours"); sx_assert(d->GetClassWeights()[c] == cw[c], "class weights"); }
  if (pt && !loc) { if (!tr.empty() || !te.empty()) patchcheck(*p, tr, te, 1, 1, cw, false); sx_reach("patches"); return; } if (pt) { sx_reach("patches"); return; }
  sx_assert(d->GetTrainingSamples() == tr.size() && d->GetTestingSamples() == te.size(), "the selected parts are loaded"); if (te.empty()) { sx_reach("configured"); return; } Tensor x(1, 64, 64, 1), l(1, 64, 64, C), h(1, 64, 64, 2), w(1, 64, 64, 1); int i = sx_choose("index", 0, 1); sx_assert(d->GetTestingSample(x, l, h, w, 0, i), "sample is read"); const Img& g = te[i]; FOR(y, g.h) FOR(q, g.w) { sx_assert_same(hx_get(x, q, y, 0, 0), gd(g, q, y, 0), "sample comes from the testing file"); double e = loc == 1 ? (double)KITTIData::LocalizedError(q, y, g.w, g.h) : 1.0; sx_assert_feq(hx_get(w, q, y, 0, 0), e * cw[best(g, q, y)], "configured weight"); } sx_reach("configured");
}
static int mir(int v, int n) { if (v < 0) v = -v; return v >= n ? 2 * n - 1 - v : v; }
static void segment() {
  int W = sx_choose("width", 1, 3), H = sx_choose("height", 1, 3), M = sx_choose("maps", 1, 2), px = sx_choose("patch_width", 1, 4), py = sx_choose("patch_height", 1, 3), sm = sx_choose("subtract_mean", 0, 1), s = sx_choose("sample", 0, 1); if (px / 2 > W || py / 2 > H || W * H * px * py > sx_param("max", 36)) return; Tensor src(2, W, H, M); hx_fill(src, "x", -8, 8, 2); Tensor t, h; Segmentation::ExtractPatches(px, py, t, h, src, s, sm);
  sx_assert(hx_shape(t, W * H, px, py, M) && h.elements() == (std::size_t)2 * W * H, "one patch per pixel"); FOR(cy, H) FOR(cx, W) { double mean = 0; if (sm) { FOR(m, M) FOR(y, py) FOR(x, px) mean += hx_get(src, mir(cx + x - px / 2, W), mir(cy + y - py / 2, H), m, s); mean /= (double)(px * py * M); } FOR(m, M) FOR(y, py) FOR(x, px) sx_assert_feq(hx_get(t, x, y, m, cy * W + cx), (double)hx_get(src, mir(cx + x - px / 2, W), mir(cy + y - py / 2, H), m, s) - mean, "patch around its pixel, mirrored at the border");
    sx_assert_feq(h((cy * W + cx) * 2), std::fmax(0.0, std::fmin((double)(H - py + 1), (double)(cy - py / 2))) / H, "row of the patch"); sx_assert_feq(h((cy * W + cx) * 2 + 1), std::fmax(0.0, std::fmin((double)(W - px + 1), (double)(cx - px / 2))) / W, "column of the patch"); }
  if (!sm) { Tensor l, w, lab(2, W, H, 1); int ign = sx_int("ignore", 0, 3); FOR(i, lab.elements()) { unsigned u = (unsigned)sx_int("class", 0, 3); memcpy(&lab[i], &u, 4); } Segmentation::ExtractLabels(px, py, l, w, lab, s, ign); sx_assert(l.elements() == (std::size_t)W * H && w.elements() == (std::size_t)W * H, "one label per pixel"); FOR(y, H) FOR(x, W) { datum v = hx_get(lab, x, y, 0, s); sx_assert_same(l(y * W + x), v, "label of the patch centre"); unsigned u; memcpy(&u, &v, 4); sx_assert_same(w(y * W + x), (int)u == ign ? 0.f : 1.f, "ignored classes have no weight"); } } sx_reach("segmented");
}
struct Bag : Dataset { int nt, ns, W, H; Method m; std::vector<int> log; 
  Task GetTask() const { return SEMANTIC_SEGMENTATION; } Method GetMethod() const { return m; } unsigned GetWidth() const { return W; } unsigned GetHeight() const { return H; } unsigned GetInputMaps() const { return 1; } unsigned GetLabelMaps() const { return 2; } unsigned GetClasses() const { return 2; } std::vector<std::string> GetClassNames() const { return {"a", "b"}; } std::vector<unsigned> GetClassColors() const { return {0, 1}; } std::vector<datum> GetClassWeights() const { return {1, 1}; } unsigned GetTrainingSamples() const { return nt; } unsigned GetTestingSamples() const { return ns; } bool SupportsTesting() const { return ns > 0; }
  bool give(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, int id) { d.Clear(id, s); l.Clear(id + 0.25f, s); h.Clear(id + 0.5f, s); w.Clear(id + 1000, s); log.push_back(id); return true; }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) { return (int)i < nt && give(d, l, h, w, s, i); } bool GetTestingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) { return (int)i < ns && give(d, l, h, w, s, 100 + i); } };
static void input() {
  Bag b; bool fcn = sx_param("fcn", 0); b.m = fcn ? FCN : PATCH; b.nt = sx_choose("training", sx_param("min", 1), 3); b.ns = sx_choose("testing", 0, 2); b.W = fcn ? sx_choose("width", 12, 14) : 2; b.H = fcn ? 13 : 2; if (fcn && b.W == 13) return; int B = sx_choose("batch", 1, 2); float p = fcn ? (float)sx_real("probability", 0, 16, 4) : 1.f; if (fcn && (b.nt > 1 || B > 1)) return;
  DatasetInputLayer L(b, B, p, 1 + sx_param("seed", 0)); NetStatus st; CTV ins, outs; sx_assert(hx_setup(L, ins, outs, &st) && outs.size() == 4, "no inputs, four outputs"); int lw = fcn ? b.W : 1, lh = fcn ? b.H : 1; sx_assert(hx_shape(outs[0]->data, B, b.W, b.H, 1) && hx_shape(outs[1]->data, B, lw, lh, 2) && hx_shape(outs[2]->data, B, lw, lh, 2) && hx_shape(outs[3]->data, B, lw, lh, 1), "output shapes"); sx_assert(L.GetBatchSize() == (unsigned)B && L.GetSamplesInTestingSet() == (unsigned)b.ns && L.GetSamplesInTrainingSet() == (unsigned)b.nt && (int)L.GetLabelWidth() == lw && (int)L.GetLabelHeight() == lh, "accessors");
  int steps = sx_param("steps", 3); std::vector<int> seen; bool testing = false; int tpos = 0;
  FOR(k, steps) { bool t = b.ns && sx_choose("testing_mode", 0, 1); if (t && !testing) tpos = 0; testing = t; L.SetTestingMode(t); if (sx_param("again", 0)) L.SetTestingMode(t); b.log.clear(); FOR(i, 4) hx_undef(outs[i]->data); L.FeedForward(); sx_assert(b.log.size() == (std::size_t)B, "one sample per place in the batch");
    FOR(s, B) { int id = b.log[s]; bool pad = t && tpos >= b.ns; if (t) { sx_assert(id == 100 + (pad ? 0 : tpos), "testing goes through the samples in order"); tpos++; } else { sx_assert(id >= 0 && id < b.nt, "training sample"); seen.push_back(id); }
      FOR(y, b.H) FOR(x, b.W) sx_assert(hx_get(outs[0]->data, x, y, 0, s) == (float)id, "image goes to its place"); FOR(y, lh) FOR(x, lw) { sx_assert(hx_get(outs[1]->data, x, y, 0, s) == id + 0.25f && hx_get(outs[2]->data, x, y, 1, s) == id + 0.5f, "label and helper go to their place"); float w = hx_get(outs[3]->data, x, y, 0, s); if (pad) sx_assert(w == 0.f, "places beyond the testing set have no weight"); else if (t || !fcn) sx_assert(w == id + 1000.f, "weight goes to its place"); else { float w0 = hx_get(outs[3]->data, x / 12 * 12, y / 12 * 12, 0, s); sx_assert(w == w0 && (w == 0.f || w == id + 1000.f), "loss sampling keeps or drops whole blocks"); if (p == 1.f) sx_assert(w != 0.f, "nothing is dropped with probability one"); } } } }
  for (std::size_t e = 0; e < seen.size(); e += b.nt) for (std::size_t i = e; i < e + b.nt && i < seen.size(); i++) for (std::size_t j = e; j < i; j++) sx_assert(seen[i] != seen[j], "every epoch visits each training sample once"); sx_reach("batches");
}
static void sampling() { // loss sampling drops a block exactly when its draw exceeds the probability: all draws fixed by the solver
  Bag b; b.m = FCN; b.nt = 1; b.ns = 1; b.W = 13; b.H = 13; int pi = sx_choose("sixteenths", 0, 16); DatasetInputLayer L(b, 1, pi / 16.f, 1); NetStatus st; CTV ins, outs; sx_assert(hx_setup(L, ins, outs, &st), "set up"); L.FeedForward(); int kept = 0; FOR(y, 2) FOR(x, 2) kept += hx_get(outs[3]->data, 12 * x, 12 * y, 0, 0) != 0.f; if (pi >= 15) sx_assert(kept == 4, "nothing is dropped with probability one"); if (kept == 4) sx_reach("all kept"); if (kept == 0) sx_reach("all dropped"); sx_reach("sampled"); if (pi == 0 && kept == 0) sx_reach("zero"); }
static void none() { Bag b; b.m = PATCH; b.nt = 0; b.ns = sx_choose("testing", 0, 1); b.W = b.H = 1; DatasetInputLayer L(b, 1, 1, 1); NetStatus st; CTV ins, outs; sx_assert(hx_setup(L, ins, outs, &st), "set up"); bool t = sx_choose("mode", 0, 1); L.SetTestingMode(t); bool th = sx_throws([&] { L.FeedForward(); }); sx_assert(th == !(t && b.ns), "a missing sample set is reported"); sx_reach("empty"); }
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: fcn(); break; case 1: sizes(); break; case 2: patch(); break; case 3: config(); break; case 4: segment(); break; case 5: input(); break; case 6: sampling(); break; case 7: none(); break; } return 0; }
