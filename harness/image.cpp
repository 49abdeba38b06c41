// Pictures: decoding and encoding image files, painting predictions, and the KITTI error map.
#include "hx.h"
#include <sstream>
#include <fstream>
#include <cstdio>
#include <png.h>
#include <jpeglib.h>
#include "PNGUtil.h"
#include "JPGUtil.h"
typedef std::vector<unsigned char> Bytes;
static void out_(png_structp p, png_bytep d, png_size_t n) { ((std::ostream*)png_get_io_ptr(p))->write((char*)d, n); }
static std::string png(int w, int h, int depth, int color, Bytes& rows, int stride) { std::ostringstream o; png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p); png_set_write_fn(p, (png_voidp)(std::ostream*)&o, out_, 0); png_set_IHDR(p, i, w, h, depth, color, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
  if (!sx_symbolic() && (color & PNG_COLOR_MASK_PALETTE)) { png_color pal[2] = {{0, 0, 0}, {9, 9, 9}};
#ifndef VERIF_SX
    png_set_PLTE(p, i, pal, 2);
#endif
  } png_write_info(p, i); std::vector<png_bytep> r; FOR(y, h) r.push_back(&rows[y * stride]); png_write_image(p, r.data()); png_write_end(p, 0); png_destroy_write_struct(&p, &i); return o.str(); }
static void scaled(datum v, double b, double top, const char* msg) { double q = (double)v * top; double e = top * 2e-7 + 0.001; sx_assert((q >= b - e) & (q <= b + e), msg); }
static void pngload() {
  static const int COL[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_PALETTE}; static const int CH[] = {1, 3, 2, 4, 1}; int k = sx_choose("colour_type", 0, 4), deep = sx_choose("depth", 0, k == 0 || k == 4 ? 2 : 1), w = sx_choose("width", 1, k == 4 ? 1 : 3), h = sx_choose("height", 1, 2), ch = CH[k]; if (k == 4 && deep == 1) return; int depth = deep == 0 ? 8 : deep == 1 ? 16 : 4; if (w * h * ch > 6) return; if ((deep == 2 || k == 4) && w * h > 2) return;
  int stride = (w * ch * depth + 7) / 8; Bytes b; FOR(i, stride * h) b.push_back(k == 4 ? i & 1 : sx_u8("byte")); std::string s = png(w, h, depth, COL[k], b, stride); int how = w * h == 2 && ch == 1 ? sx_choose("how", 0, 2) : 0; bool sig = how == 1; if (sig) s[sx_choose("broken", 0, 7)] ^= 0x40; if (how == 2 && s.size()) s = s.substr(0, sx_choose("cut", 0, 7));
  bool bad = sig || how == 2 || depth == 4 || k == 4; Tensor t(1, 1, 2, 1); datum o0 = t[0] = 3, o1 = t[1] = 5; bool ok;
  if (!bad && w == 2 && sx_choose("as_file", 0, 1)) { static const char* N[] = {"sx.png", "sx.PNG"}; std::string n = N[sx_choose("name", 0, 1)]; sx_file_put(n.c_str(), s.data(), s.size()); if (sx_choose("constructed", 0, 1)) { Tensor u(n); t.Resize(u); FOR(i, u.elements()) t[i] = u[i]; } else t.LoadFromFile(n); ok = true; }
  else { std::istringstream in(s); unsigned live = sx_heap_live(); ok = PNGUtil::LoadFromStream(in, t); if (bad) sx_assert(sx_heap_live() == live, "a refused picture holds memory"); else { std::istringstream again(s); live = sx_heap_live(); PNGUtil::LoadFromStream(again, t); sx_assert(sx_heap_live() == live, "decoding a picture leaks memory"); } }
  sx_assert(ok == !bad, "pictures with 8 or 16 bits per channel are read, others refused"); if (bad) { sx_assert(t.elements() == 2 && t[0] == o0 && t[1] == o1, "a refused picture leaves the tensor as it was"); sx_reach("refused"); return; }
  sx_assert(hx_shape(t, 1, w, h, ch), "one map per channel"); FOR(c, ch) FOR(y, h) FOR(x, w) { int at = y * stride + (x * ch + c) * (depth / 8); if (depth == 8) scaled(hx_get(t, x, y, c, 0), b[at], 255, "pixel value"); else scaled(hx_get(t, x, y, c, 0), (double)b[at] * 256 + (double)b[at + 1], 65535, "pixel value"); } sx_reach("decoded");
}
static int stored(datum v) { return (int)((double)v * 255.0); }
static Tensor picture(int w, int h) { Tensor t(1, w, h, 3); int f = sx_choose("free", 0, t.elements() - 1); FOR(i, t.elements()) t[i] = i == f ? sx_real_f("value", 0, 256, 8) : (float)((i * 5 + 1) % 17) / 16.f; return t; }
static void pngsave() {
  int S = sx_choose("samples", 1, 2), M = sx_choose("maps", 1, 4), w = sx_choose("width", 1, 2), h = sx_choose("height", 1, 2); bool good = S == 1 && M == 3; if (good) { Tensor t = picture(w, h); Copy c(t); std::string s; int how = w * h == 1 ? sx_choose("how", 0, 2) : 0;
    if (how == 0) { std::ostringstream o; unsigned live = sx_heap_live(); (void)live; sx_assert(PNGUtil::WriteToStream(o, t), "a picture is written"); s = o.str(); } else { const char* n = how == 1 ? "sx.png" : "sx.PNG"; t.WriteToFile(n); long k = sx_file_size(n); sx_assert(k > 0, "a picture file is written"); s.resize(k); sx_file_get(n, &s[0], k); } hx_unchanged(c, t, "writing changes the tensor");
    if (sx_symbolic()) { sx_assert(s.size() == (std::size_t)(8 + 13 + 3 * w * h + 4), "the picture is written completely"); sx_assert(s.compare(s.size() - 4, 4, "IEND") == 0, "the end of the picture is written"); }
    std::istringstream in(s); Tensor r; sx_assert(PNGUtil::LoadFromStream(in, r), "the written picture can be read"); sx_assert(hx_shape(r, 1, w, h, 3), "shape of the written picture"); FOR(i, r.elements()) { double q = (double)r[i] * 255.0, v = (double)t[i] * 255.0; sx_assert((q <= v + 0.001) & (q >= v - 1.001), "the written picture holds the pixel values, rounded down"); } sx_reach("written"); }
  else { Tensor t(S, w, h, M); std::ostringstream o; unsigned live = sx_heap_live(); sx_assert(!PNGUtil::WriteToStream(o, t), "tensors that are no picture are refused"); sx_assert(sx_heap_live() == live, "refusing a tensor holds memory"); sx_assert(o.str().size() == 0, "nothing is written for a refused tensor"); sx_reach("refused"); }
}
static void pngleak() { Tensor t(1, 2, 1, 3); FOR(i, 6) t[i] = 0.25f; { std::ofstream o("sx.out", std::ios::out | std::ios::binary); PNGUtil::WriteToStream(o, t); } std::ofstream o("sx.out", std::ios::out | std::ios::binary); unsigned live = sx_heap_live(); sx_assert(PNGUtil::WriteToStream(o, t), "a picture is written"); sx_assert(sx_heap_live() == live, "encoding a picture leaks memory"); sx_reach("leak"); }
static void bytes(const std::string& n, Bytes& b) { long k = sx_file_size(n.c_str()); sx_assert(k >= 0, "the picture file exists"); b.resize(k); if (k > 0) sx_file_get(n.c_str(), b.data(), k); }
static void jpg() {
  static const char* N[] = {"sx.jpg", "sx.jpeg", "sx.JPG", "sx.JPEG"}; int w = sx_choose("width", 1, 3), h = sx_choose("height", 1, 2); bool save = sx_choose("save", 0, 1); std::string n = N[w * h == 1 ? sx_choose("name", 0, 3) : 0];
  if (save) { int S = sx_choose("samples", 1, 2), M = sx_choose("maps", 2, 4); bool good = S == 1 && M == 3; if (!good) { if (w * h > 2) return; Tensor t(S, w, h, M); t.Clear(0.5); unsigned live = sx_heap_live(); sx_assert(!JPGUtil::WriteToFile(n, t), "tensors that are no picture are refused"); sx_assert(sx_file_size(n.c_str()) <= 0, "nothing is written for a refused tensor"); sx_reach("refused"); return; }
    Tensor t = picture(w, h); Copy c(t); t.WriteToFile(n); hx_unchanged(c, t, "writing changes the tensor"); Bytes b; bytes(n, b); sx_assert(b.size() == (std::size_t)(8 + 3 * w * h), "the picture is written completely"); sx_assert(b[2] == w && b[4] == h && b[6] == 3, "shape of the written picture"); FOR(y, h) FOR(x, w) FOR(m, 3) { double v = (double)hx_get(t, x, y, m, 0) * 255.0; int q = b[8 + (y * w + x) * 3 + m]; sx_assert((q <= v + 0.001) & (q >= v - 1.001), "the written picture holds the pixel values, rounded down"); }
    unsigned live = sx_heap_live(); t.WriteToFile(n); sx_assert(sx_heap_live() == live, "encoding a picture leaks memory"); sx_reach("written"); return; }
  int ch = sx_choose("grey", 0, 1) ? 1 : 3; Bytes b = {0x50, 0x4a, (unsigned char)w, 0, (unsigned char)h, 0, (unsigned char)ch, 0}; FOR(i, w * h * ch) b.push_back(sx_u8("byte")); sx_file_put(n.c_str(), b.data(), b.size()); Tensor t(1, 2); if (sx_choose("constructed", 0, 1)) { Tensor u(n); t.Resize(u); FOR(i, u.elements()) t[i] = u[i]; } else t.LoadFromFile(n); sx_assert(hx_shape(t, 1, w, h, ch), "one map per channel"); FOR(c, ch) FOR(y, h) FOR(x, w) scaled(hx_get(t, x, y, c, 0), b[8 + (y * w + x) * ch + c], 255, "pixel value");
  unsigned live = sx_heap_live(); sx_assert(JPGUtil::LoadFromFile(n, t), "a picture is read"); sx_assert(sx_heap_live() == live, "decoding a picture leaks memory"); Tensor q(1, 2); live = sx_heap_live(); sx_assert(!JPGUtil::LoadFromFile("missing.jpg", q), "a missing picture is reported"); sx_assert(sx_heap_live() == live, "a missing picture holds memory"); sx_reach("decoded");
}
// every byte value: rounding included, computed with the real single precision operations
static void rounding() { int b = sx_choose("byte", 0, 255); Tensor t(1, 1, 1, 3), r; Bytes raw = {(unsigned char)b, (unsigned char)(255 - b), (unsigned char)b}; std::string s = png(1, 1, 8, PNG_COLOR_TYPE_RGB, raw, 3); std::istringstream in(s); sx_assert(PNGUtil::LoadFromStream(in, t), "a picture is read"); std::ostringstream o; PNGUtil::WriteToStream(o, t); sx_assert(o.str() == s, "a picture that is read and written is the same"); sx_reach("same"); }
struct D : Dataset { int C; std::vector<unsigned> col; Task GetTask() const { return SEMANTIC_SEGMENTATION; } Method GetMethod() const { return FCN; } unsigned GetWidth() const { return 0; } unsigned GetHeight() const { return 0; } unsigned GetInputMaps() const { return 3; } unsigned GetLabelMaps() const { return C; } unsigned GetClasses() const { return C; } std::vector<std::string> GetClassNames() const { return std::vector<std::string>(C, "c"); } std::vector<unsigned> GetClassColors() const { return col; } std::vector<datum> GetClassWeights() const { return std::vector<datum>(C, 1.f); } unsigned GetTrainingSamples() const { return 0; } unsigned GetTestingSamples() const { return 0; } bool SupportsTesting() const { return false; }
  bool GetTrainingSample(Tensor&, Tensor&, Tensor&, Tensor&, unsigned, unsigned) { return false; } bool GetTestingSample(Tensor&, Tensor&, Tensor&, Tensor&, unsigned, unsigned) { return false; } };
static void colorize() {
  D d; d.C = sx_param("C", 2); int S = sx_choose("samples", 1, 2), W = sx_choose("width", 1, 2), H = sx_choose("height", 1, 2), X = sx_choose("margin", 0, 1); if (S * W * H > sx_param("max", 2)) return; FOR(c, d.C) { unsigned v = sx_u32("colour"); sx_assume(v < 0x1000000); d.col.push_back(v); } Tensor p(S, W, H, d.C), t(S, W + X, H, 3); hx_fill(p, "score", -8, 8, 2); t.Clear(7); Copy c(p); d.Colorize(p, t); hx_unchanged(c, p, "painting changes the prediction"); sx_assert(hx_shape(t, S, W + X, H, 3), "painting keeps the shape of the picture");
  FOR(s, S) FOR(y, H) FOR(x, W + X) { if (x >= W) { FOR(m, 3) sx_assert_same(hx_get(t, x, y, m, s), 7.f, "pixels outside the prediction are untouched"); continue; } int k = 0; FOR(m, d.C) if (hx_get(p, x, y, m, s) > hx_get(p, x, y, k, s)) k = m; FOR(m, 3) { unsigned b = (d.col[k] >> (16 - 8 * m)) & 255; double q = (double)hx_get(t, x, y, m, s) * 255.0, want = d.C == 1 ? (double)b * ((double)hx_get(p, x, y, 0, s) + 1.0) / 2.0 : (double)b; sx_assert((q >= want - 0.01) & (q <= want + 0.01), d.C == 1 ? "a pixel is painted in the class colour in proportion to its score" : "a pixel is painted in the colour of the class with the highest score"); } } sx_reach("painted");
}
static void kitti() { // error map of road scenes, in integer arithmetic
  static const int WS[] = {1226, 613, 100, 7}, HS[] = {370, 185, 37, 5}; int z = sx_param("size", 0), w = WS[z], h = HS[z], y = sx_choose("row", 0, h < 40 ? h - 1 : 11); if (h >= 40) { const int R[] = {0, 140 * h / 370 - 1, 140 * h / 370, 140 * h / 370 + 1, 170 * h / 370, 170 * h / 370 + 1, 190 * h / 370, 190 * h / 370 + 1, 200 * h / 370 + 1, 250 * h / 370, 300 * h / 370, h - 1}; y = R[y]; } int x = sx_int("column", 0, w - 1); 
  long long W = w, H = h; auto ws = [&](long long v) { return v * W / 1226; }; auto hs = [&](long long v) { return v * H / 370; }; long long off = ws(613) - x; off = off < 0 ? -off : off; bool shape = (ws(off) <= 3 * (y - hs(140))) & (y > hs(190)); double q = 7; if (y > hs(170)) { q = (double)hs(200) / (double)(y - hs(170)); if (q > 7) q = 7; if (q < 1) q = 1; } double e = 0.25; if (shape) e = q * q; double got = KITTIData::LocalizedError(x, y, w, h); sx_assert((got >= 0.51 * e - 0.0001) & (got <= 0.51 * e + 0.0001), "error of a pixel of a road scene"); sx_reach("error"); }
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: pngload(); break; case 1: pngsave(); break; case 2: pngleak(); break; case 3: jpg(); break; case 4: rounding(); break; case 5: colorize(); break; case 6: kitti(); break; } return 0; }
