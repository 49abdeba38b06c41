// The command-line tools, run as a whole on files: making, compressing, cutting and editing tensor streams, classifying a picture.
#include "hx.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <png.h>
#include <Segmentation.h>
// each tool's main, under the symbol tool.h gives it
int main_make(int, char**) __asm__("tool_makeTensorStream"); int main_pack(int, char**) __asm__("tool_makeCompressedTensorStream"); int main_compress(int, char**) __asm__("tool_compressTensorStream"); int main_cut(int, char**) __asm__("tool_tensorStreamTool"); int main_edit(int, char**) __asm__("tool_tensorTool"); int main_classify(int, char**) __asm__("tool_classifyImage"); int main_count(int, char**) __asm__("tool_tensorStreamStats");
typedef std::vector<unsigned char> Bytes; typedef std::vector<std::string> Args;
static int run(int (*f)(int, char**), Args a) { a.insert(a.begin(), "tool"); std::vector<char*> v; for (std::string& s : a) v.push_back(&s[0]); v.push_back(nullptr); return f((int)a.size(), v.data()); }
static void out_(png_structp p, png_bytep d, png_size_t n) { ((std::ostream*)png_get_io_ptr(p))->write((char*)d, n); }
static std::string png(int w, int h, int ch, Bytes& b) { std::ostringstream o; png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p); png_set_write_fn(p, (png_voidp)(std::ostream*)&o, out_, 0); png_set_IHDR(p, i, w, h, 8, ch == 1 ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT); png_write_info(p, i); std::vector<png_bytep> r; FOR(y, h) r.push_back(&b[y * w * ch]); png_write_image(p, r.data()); png_write_end(p, 0); png_destroy_write_struct(&p, &i); return o.str(); }
static void put(const std::string& n, const std::string& s) { sx_file_put(n.c_str(), s.data(), s.size()); }
static std::string get(const std::string& n) { long k = sx_file_size(n.c_str()); sx_assert(k >= 0, "the file is written"); std::string s(k, ' '); if (k) sx_file_get(n.c_str(), &s[0], k); return s; }
static void u64(std::string& s, uint64_t v) { FOR(i, 8) s += (char)(v >> (8 * i)); }
static uint64_t n64(const std::string& s, std::size_t at) { uint64_t v = 0; FOR(i, 8) v |= (uint64_t)(unsigned char)s[at + i] << (8 * i); return v; }
// the colours of the test configuration: red, 0x0a141e, black
static const unsigned COL[3] = {0xff0000, 0x0a141e, 0x000000}; static const char* HEX[3] = {"0xff0000", "0x0a141e", "0x000000"};
static std::string config(int C) { std::string t = "classes=" + std::to_string(C) + "\n"; FOR(c, C) t += "class" + std::to_string(c) + "\n"; t += "colors\n"; FOR(c, C) t += std::string(C == 1 ? "0x50aac8" : HEX[c]) + "\n"; return t; }
static unsigned colour(int C, int c) { return C == 1 && c < 1 ? 0x50aac8 : COL[c]; }
static void near(double v, double want, const char* msg) { sx_assert((v >= want - 0.00001) & (v <= want + 0.00001), msg); }
static void made() {
  int pack = sx_param("pack", 0), C = sx_param("C", 1), n = sx_param("n", 1), rgb = sx_param("rgb", 0); bool slash = n == 1 && sx_choose("slash", 0, 1); sx_dir_put("pic"); sx_dir_put("lab"); put("sx.conf", config(C)); std::string il, ll; struct I { int w, h, ic, lc; Bytes i, l; bool skip; }; std::vector<I> v;
  FOR(k, n) { I g; g.w = k ? 1 : sx_choose("width", 1, 2); g.h = k || C == 3 ? 1 : sx_choose("height", 1, 2); g.ic = k ? 1 : 3; g.lc = k == 0 && g.w * g.h == 1 && sx_choose("grey_label", 0, 1) ? 1 : 3; g.skip = k == 0 && n == 2 && sx_choose("other_size", 0, 1); FOR(i, g.w * g.h * g.ic) g.i.push_back(pack ? (i == 1 ? sx_choose("byte", 0, 1) * 0x58 : 0x58 * (i & 1)) : sx_u8("byte")); int lw = g.skip ? g.w + 1 : g.w; int at = g.w * g.h > 1 ? sx_choose("at", 0, g.w * g.h - 1) : 0; FOR(i, lw * g.h) { int q = i == at ? sx_choose("colour", 0, 3) : (i + k) % 4; unsigned c = q < 3 ? (C == 1 && q == 1 ? colour(1, 0) : COL[q]) : i == at && C == 3 ? COL[sx_choose("near", 0, 2)] ^ (1 << 8 * sx_choose("channel", 0, 2)) << sx_choose("bit", 0, 1) : 0xff0001; if (g.lc == 1) g.l.push_back(q == 2 ? 0 : q == 3 ? 255 : 10 * q); else FOR(m, 3) g.l.push_back((c >> (16 - 8 * m)) & 255); }
    std::string a = "im" + std::to_string(k) + ".png"; put("pic/" + a, png(g.w, g.h, g.ic, g.i)); put("lab/" + a, png(lw, g.h, g.lc, g.l)); il += a + "\n"; ll += a + "\n"; v.push_back(g); }
  if (sx_choose("trailer", 0, 1)) { il += "\nim0.png\n"; ll += "\nim0.png\n"; } put("sx.images", il); put("sx.labels", ll); put("sx.stream", "old contents"); std::string s = slash ? "/" : ""; int rc = run(pack ? main_pack : main_make, {"sx.conf", "sx.images", "pic" + s, "sx.labels", "lab" + s, "sx.stream", rgb ? "true" : "false"}); sx_assert(rc == 0, "the tool succeeds");
  std::string f = get("sx.stream"); std::istringstream in(f); if (pack) { uint64_t magic = 0; in.read((char*)&magic, 8); sx_assert(magic == CN24_CTS_MAGIC, "compressed streams are marked"); } std::size_t end = f.size(); 
  FOR(k, n) { I& g = v[k]; if (g.skip) continue; FOR(q, 2) { Tensor t; if (pack) { CompressedTensor c; c.Deserialize(in); c.Decompress(t); } else t.Deserialize(in); sx_assert(!in.fail(), "every picture is stored"); int M = q == 0 ? g.ic : rgb ? 3 : C; sx_assert(hx_shape(t, 1, g.w, g.h, M), "size of a stored picture or label");
      FOR(m, M) FOR(y, g.h) FOR(x, g.w) { double got = hx_get(t, x, y, m, 0); int at = y * g.w + x; if (q == 0) { near(got, (double)g.i[at * g.ic + m] / 255.0, "pixel of a stored picture"); continue; } unsigned char b[3]; FOR(i, 3) b[i] = g.lc == 1 ? g.l[at] : g.l[at * 3 + i]; if (rgb) { near(got, (double)b[m] / 255.0, "colour of a stored label"); continue; }
        unsigned col = colour(C, m); unsigned char e[3] = {(unsigned char)(col >> 16), (unsigned char)(col >> 8), (unsigned char)col}; if (C > 1) { bool hit = (b[0] == e[0]) & (b[1] == e[1]) & (b[2] == e[2]); if (hit) sx_assert(got == 1.0, "the class whose colour a label pixel has is marked"); else sx_assert(got == 0.0, "no other class is marked"); } else { double d = 0; FOR(i, 3) d += ((double)b[i] - e[i]) * ((double)b[i] - e[i]) / (255.0 * 255.0); near(got, 1 - 2 * sqrt(d / 3), "with one class a label is the closeness to its colour"); } } } }
  sx_assert((std::size_t)in.tellg() == end, "nothing else is stored"); sx_reach("made");
}
static std::string record(int S, int W, int H, int M) { std::string s; u64(s, S); u64(s, W); u64(s, H); u64(s, M); FOR(i, S * W * H * M) { datum d = sx_float_bits("value"); s.append((const char*)&d, 4); } return s; }
static bool bytes_same(const char* a, const char* b, std::size_t n) { bool r = true; for (std::size_t i = 0; i < n; i++) r = r & (a[i] == b[i]); return r; }
static void compressed() { int n = sx_choose("tensors", 1, 2); std::string all; std::vector<std::string> r; FOR(k, n) { r.push_back(k ? record(1, 1, 1, 1) : record(1, sx_choose("width", 1, sx_param("W", 2)), 1, 1)); all += r.back(); } put("sx.in", all); int rc = run(main_compress, {"sx.in", "sx.out"}); sx_assert(rc == 0, "the tool succeeds"); sx_assert(bytes_same(get("sx.in").data(), all.data(), all.size()), "the input is left alone"); std::string f = get("sx.out"); std::istringstream in(f); uint64_t magic = 0; in.read((char*)&magic, 8); sx_assert(magic == CN24_CTS_MAGIC, "compressed streams are marked");
  FOR(k, n) { CompressedTensor c; c.Deserialize(in); Tensor t; c.Decompress(t); int w = (int)n64(r[k], 8); sx_assert(hx_shape(t, 1, w, 1, 1), "size of a compressed tensor"); FOR(i, w) { unsigned a, b; memcpy(&a, t.data_ptr_const() + i, 4); memcpy(&b, r[k].data() + 32 + 4 * i, 4); sx_assert((a == b) | (((a | b) & 0x7fffffff) == 0), "value of a compressed tensor"); } } sx_assert((std::size_t)in.tellg() == f.size(), "nothing else is stored"); sx_reach("compressed"); }
static void cut() { int n = sx_choose("tensors", 1, 3), keep = sx_choose("keep", 0, 4); std::string all, want; FOR(k, n) { std::string r = k == 1 ? record(2, 1, 1, 1) : record(1, 1, 1 + (k == 0), 1); all += r; if (k < keep) want += r; } put("sx.stream", all); if (keep >= n) want = all; int rc = run(main_cut, {"sx.stream", std::to_string(keep)}); sx_assert(rc == 0, "the tool succeeds"); std::string f = get("sx.stream"); sx_assert(f.size() == want.size(), "number of tensors left"); sx_assert(bytes_same(f.data(), want.data(), want.size()), "the first tensors are left unchanged"); sx_reach("cut"); }
static void edit() { static const int SH[3][4] = {{1, 2, 3, 1}, {1, 1, 2, 2}, {2, 2, 1, 1}}; const int* s = SH[sx_choose("shape", 0, 2)]; int S = s[0], W = s[1], H = s[2], M = s[3], id = sx_choose("id", 0, 1); std::string other = record(1, 1, 1, 1), mine = record(S, W, H, M); bool noid = id == 0 && sx_choose("no_id", 0, 1); std::vector<unsigned> v(S * W * H * M); memcpy(v.data(), mine.data() + 32, 4 * v.size()); std::string all = id ? other + mine : mine + other; put("sx.stream", all); std::string in; bool written = false; std::string want = all; auto store = [&] { want.clear(); u64(want, S); u64(want, W); u64(want, H); u64(want, M); want.append((const char*)v.data(), 4 * v.size()); };
  FOR(k, sx_param("N", 3)) { int op = sx_choose("command", 0, 4); if (op == 0) { in += "transpose\n"; std::vector<unsigned> t(v.size()); FOR(q, S * M) FOR(y, H) FOR(x, W) t[q * W * H + x * H + y] = v[q * W * H + y * W + x]; v = t; std::swap(W, H); } else if (op == 1) { int w = sx_choose("w", 1, 3), h = sx_choose("h", 1, 2); in += "reshape " + std::to_string(w) + " " + std::to_string(h) + "\n1 2\n"; if (w * h * 2 == (int)v.size()) { W = w; H = h; M = 1; S = 2; } } else if (op == 2) { in += "write\n"; store(); written = true; } else if (op == 3) { in += k ? "size\n" : "help\n"; } else in += "nonsense "; }
  in += sx_choose("quit", 0, 1) ? "q\n" : "quit\nwrite\n"; sx_stdin(in.c_str()); Args a{"sx.stream"}; if (!noid) a.push_back(std::to_string(id)); int rc = run(main_edit, a); sx_assert(rc == 0, "the tool succeeds"); std::string f = get("sx.stream"); sx_assert(f.size() == want.size(), "size of the edited tensor"); sx_assert(bytes_same(f.data(), want.data(), want.size()), "the edited tensor holds the right values"); (void)written; sx_reach("edited"); }
// the editor: patches of a sample, and the values as bytes
static void patches() { static const int SH[4][4] = {{1, 2, 2, 2}, {2, 3, 1, 1}, {2, 1, 1, 3}, {1, 2, 1, 3}}; const int* q = SH[sx_choose("shape", 0, 3)]; int S = q[0], W = q[1], H = q[2], M = q[3]; std::vector<float> v; std::string f; u64(f, S); u64(f, W); u64(f, H); u64(f, M); int one = sx_choose("which", 0, S * W * H * M - 1); FOR(i, S * W * H * M) { v.push_back(i == one ? sx_choose("value", 0, 8) / 4.0f - 1 : (i * 5 % 17) / 8.0f - 1); f.append((const char*)&v[i], 4); } put("sx.stream", f); std::string in; int cmd = sx_choose("commands", 0, 3); 
  if (cmd & 1) { in += "transpose\n"; std::vector<float> t(v); FOR(a, S * M) FOR(y, H) FOR(x, W) t[(a * W + x) * H + y] = v[(a * H + y) * W + x]; v = t; std::swap(W, H); }
  if (cmd & 2) { int px = sx_choose("patch_width", 1, 3), py = sx_choose("patch_height", 1, 2), s = S == 1 ? 0 : sx_choose("sample", 0, S - 1); if (px / 2 > W - 1 || py / 2 > H - 1) return; in += "extractpatches\n"; if (S != 1) in += std::to_string(s) + "\n"; in += std::to_string(px) + "\n" + std::to_string(py) + "\n"; std::vector<float> t; auto ref = [](int x, int n) { return x < 0 ? -x : x >= n ? 2 * n - 1 - x : x; };
    FOR(y, H) FOR(x, W) FOR(m, M) FOR(j, py) FOR(i, px) t.push_back(v[((s * M + m) * H + ref(y + j - py / 2, H)) * W + ref(x + i - px / 2, W)]); v = t; S = W * H; W = px; H = py; }
  bool both = sx_choose("both", 0, 1); sx_stdin((in + (both ? "write\n" : "") + "bin\nq\n").c_str()); sx_assert(run(main_edit, {"sx.stream", "0"}) == 0, "the tool succeeds"); std::string b = get("binoutput.data"); sx_assert(b.size() == v.size(), "one byte for each value");
  FOR(a, S) FOR(m, M) FOR(y, H) FOR(x, W) { std::size_t e = ((a * M + m) * H + y) * W + x, at = M == 3 ? ((a * H + y) * W + x) * 3 + m : e; double want = 127.0 + 127.0 * v[e], got = (unsigned char)b[at]; sx_assert((got <= want + 0.01) & (got >= want - 1.01), "a value is exported as the byte that stands for it"); }
  if (!both) { sx_assert(bytes_same(get("sx.stream").data(), f.data(), f.size()), "the stream is left alone"); sx_reach("exported"); return; } std::string g = get("sx.stream"); sx_assert(g.size() == 32 + 4 * v.size() && n64(g, 0) == (unsigned)S && n64(g, 8) == (unsigned)W && n64(g, 16) == (unsigned)H && n64(g, 24) == (unsigned)M, "shape of the edited tensor"); FOR(i, v.size()) { float x; memcpy(&x, &g[32 + 4 * i], 4); sx_assert_same(x, v[i], "the edited tensor holds the right values"); } sx_reach("exported"); }
static void usage() { int k = sx_choose("tool", 0, 6), n = 0; static int (*const F[])(int, char**) = {main_make, main_pack, main_compress, main_cut, main_edit, main_classify, main_count}; static const int NEED[] = {7, 7, 2, 2, 1, 5, 1}; n = sx_choose("arguments", 0, 6); if (n >= NEED[k]) return; Args a; FOR(i, n) a.push_back("sx.made"); sx_assert(run(F[k], a) != 0, "missing arguments are reported"); sx_assert(sx_file_size("sx.made") < 0, "nothing is written"); sx_reach("usage"); }
// Classifying a picture: what the net says about the picture, in the colours of the classes, cut to the picture's size.
static int rest(int v, int a, int b, int c, int d) { int r = (v * 3 + a * 7 + b * 5 + c * 3 + d * 11 + a * b * 2 + c * d) % 11 - 5; return r ? r : 3; }
static void weights(std::string& f, int v, int K, int k, int M, std::vector<double>& w, std::vector<double>& b) { u64(f, K); u64(f, k); u64(f, k); u64(f, M); FOR(o, K) FOR(m, M) FOR(j, k) FOR(i, k) { float x = rest(v, o, m, j, i) / 4.0f; f.append((const char*)&x, 4); w.push_back(x); } u64(f, 1); u64(f, K); u64(f, 1); u64(f, 1); FOR(o, K) { float x = rest(v, o, 9, 4, 2) / 8.0f; f.append((const char*)&x, 4); b.push_back(x); } }
static void classify() {
  int net = sx_param("net", 0), C = sx_param("C", 3), W = sx_param("W", 1), H = sx_param("H", 1), v = sx_param("v", 0), M = net == 3 ? 1 : 3, maps = M, at = sx_choose("at", 0, W * H - 1), K = 2; std::string t, f; std::vector<double> w1, b1, w, b; Bytes img; unsigned char one[3];
  if (net == 2) { t = "?convolutional kernels=2 size=3x3\n?maxpooling size=2x2\n?relu\n"; weights(f, v + 1, K, 3, M, w1, b1); maps = K; } if (net) { t += "?spatialprior\n"; maps += 2; } t += "?fullyconnected neurons=(o)\n?output\n"; weights(f, v, C, 1, maps, w, b); put("sx.net", t); put("sx.conf", config(C)); put("sx.par", f);
  FOR(i, W * H) FOR(m, M) { bool s = i == at; unsigned char c = !s ? (i * 37 + m * 91) & 255 : net == 2 ? (m == 1 ? sx_choose("byte", 0, 1) * 200 : 60 * m) : C == 1 ? sx_choose("byte", 0, 2) * 127 : sx_u8("byte"); if (s) one[m] = c; img.push_back(c); } put("sx.png", png(W, H, M, img)); int rc = run(main_classify, {"sx.conf", "sx.net", "sx.par", "sx.png", "sx_out.png"}); sx_assert(rc == 0, "the tool succeeds");
  Tensor r(std::string("sx_out.png")); sx_assert(hx_shape(r, 1, W, H, 3), "the painted picture has the picture's size"); auto pix = [&](int x, int y, int m) -> double { return x < 0 || y < 0 || x >= W || y >= H ? 0.0 : 0.003921569f * (double)img[(y * W + x) * M + m]; };
  FOR(y, H) FOR(x, W) { std::vector<double> in; if (net == 2) FOR(o, K) { double best = 0; FOR(j, 2) FOR(i, 2) { int X = x / 2 * 2 + i, Y = y / 2 * 2 + j; double a = b1[o]; FOR(m, M) FOR(q, 3) FOR(p, 3) a += w1[((o * M + m) * 3 + q) * 3 + p] * pix(X + p - 1, Y + q - 1, m); if (a > best) best = a; } in.push_back(best); } else FOR(m, M) in.push_back(pix(x, y, m)); if (net) { in.push_back(W > 1 ? (double)((float)x / (W - 1)) : 0); in.push_back(H > 1 ? (double)((float)y / (H - 1)) : 0); }
    std::vector<double> s; FOR(c, C) { double a = b[c]; FOR(m, maps) a += w[c * maps + m] * in[m]; s.push_back(a); } double got[3]; FOR(m, 3) got[m] = hx_get(r, x, y, m, 0) * 255.0;
    if (C == 1) { double e = 1.0 / (1.0 + exp(-2.0 * s[0])); FOR(m, 3) { double want = ((colour(1, 0) >> (16 - 8 * m)) & 255) * e; sx_assert((got[m] <= want + 0.01) & (got[m] >= want - 1.01), "with one class the brightness of its colour follows the net's output"); } continue; }
    bool any = false; FOR(c, C) { bool is = true, top = true; FOR(m, 3) { double e = (COL[c] >> (16 - 8 * m)) & 255; is = is & (got[m] <= e + 0.1) & (got[m] >= e - 1.1); } FOR(d, C) top = top & (s[c] >= s[d] - 0.0001); any = any | (is & top); } sx_assert(any, "every pixel is painted in the colour of the class the net scores highest"); }
  sx_reach("classified"); }
// The statistics tool: how often each class occurs in the training pictures, and what would even that out.
static std::string shown() { std::string s(sx_stdout_get(nullptr, 0), ' '); if (!s.empty()) sx_stdout_get(&s[0], s.size()); return s; }
static void about(double v, double want, const char* msg) { sx_assert((v >= want - 0.0001 * (1 + want)) & (v <= want + 0.0001 * (1 + want)), msg); }
static void count() { int C = sx_choose("classes", 2, 3), n = sx_choose("pictures", 1, 2), mode = sx_param("weights", 0), test = sx_choose("testing", 0, 1); static const double WT[3][3] = {{1, 1, 1}, {2, 0.5, 3}, {0, 1, 2}}; const double* wt = WT[mode]; std::string f, t = config(C); if (mode) { t += "weights\n"; FOR(c, C) { std::ostringstream o; o << wt[c]; t += o.str() + "\n"; } } t += "training=sx.tr\n"; if (test) t += "testing=sx.te\n"; double cnt[3] = {0, 0, 0}, sum[3] = {0, 0, 0};
  FOR(k, n) { int w = k ? 1 : sx_choose("width", 1, 3), h = k ? 2 : 1, at = sx_choose("at", 0, w * h - 1); std::vector<int> q; FOR(i, w * h) { q.push_back(i == at ? sx_choose("class", 0, C - 1) : (i + k) % C); cnt[q[i]]++; sum[q[i]] += wt[q[i]]; } FOR(l, 2) { int M = l ? C : 1; u64(f, 1); u64(f, w); u64(f, h); u64(f, M); FOR(m, M) FOR(i, w * h) { datum v = l ? (m == q[i] ? 1.f : i == 0 ? sx_real_f("score", 0, 6, 3) : 0.f) : 0.5f; f.append((const char*)&v, 4); } } }
  put("sx.tr", f); put("sx.te", f); put("sx.conf", t); sx_stdout(); sx_assert(run(main_count, {"sx.conf"}) == 0, "the tool succeeds"); std::string s = shown(); std::size_t at = 0;
  FOR(block, 2) { double* v = block ? sum : cnt; double total = 0; int used = 0; FOR(c, C) { total += v[c]; used += v[c] > 0; } if (!used) break; at = s.find("Classes counted:", at); sx_assert(at != std::string::npos, "the number of classes is shown"); bool all = mode != 2 || block; if (all) about(strtod(s.c_str() + at + 16, nullptr), used, "classes that occur are counted"); at = s.find("Expected ratio:", at); sx_assert(at != std::string::npos, "the even share is shown"); if (all) about(strtod(s.c_str() + at + 15, nullptr), 100.0 / used, "the even share");
    FOR(c, C) { at = s.find("class" + std::to_string(c), at); sx_assert(at != std::string::npos, "every class is shown, in order"); at = s.find('|', at); sx_assert(at != std::string::npos, "the class's row is complete"); const char* p = s.c_str() + at + 1; char* e; double got[4]; FOR(i, 4) { got[i] = strtod(p, &e); sx_assert(e != p, "the class's row is complete"); p = e; if (*p == '%') p++; } double share = v[c] / total, corr = v[c] > 0 ? 1.0 / used / share : 0;
      sx_assert(got[0] == floor(v[c]), block ? "the weights of a class's pixels are added up" : "the pixels of a class are counted"); if (!all) continue; about(got[1], 100 * share, "share of a class"); about(got[2], corr, "factor that evens out a class"); sx_assert((got[3] <= corr * v[c] + 0.01) & (got[3] >= corr * v[c] - 1.01), "corrected number of pixels"); } }
  sx_reach("counted"); }
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: made(); break; case 1: compressed(); break; case 2: cut(); break; case 3: edit(); break; case 4: usage(); break; case 5: classify(); break; case 6: patches(); break; case 7: count(); break; } return 0; }
