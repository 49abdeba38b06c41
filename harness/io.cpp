// Stored tensors: the file format, run-length compression, and the three kinds of tensor stream.
#include "hx.h"
#include <fstream>
#include <sstream>
#include <fcntl.h>
typedef std::vector<datum> DV;
struct T4 { int S, W, H, M; DV v; int n() const { return S * W * H * M; } };
static T4 any(const char* nm, int mx) { T4 t; t.S = sx_choose("samples", 1, sx_param("S", 2)); t.W = sx_choose("width", 1, 2); t.H = sx_choose("height", 1, 2); t.M = sx_choose("maps", 1, 3); if (t.n() > mx) { t.n(); t.S = t.W = t.H = 1; t.M = 1; } t.v.resize(t.n()); FOR(i, t.n()) t.v[i] = sx_float_bits(nm); return t; }
static Tensor* make(const T4& t) { Tensor* r = new Tensor(t.S, t.W, t.H, t.M); FOR(i, t.n()) (*r)[i] = t.v[i]; return r; }
static void isit(const Tensor& a, const T4& t, const char* msg) { sx_assert(hx_shape(a, t.S, t.W, t.H, t.M), "stored dimensions come back"); FOR(i, t.n()) sx_assert_same(a.data_ptr_const()[i], t.v[i], msg); }
static void u64(std::string& s, uint64_t v) { FOR(i, 8) s += (char)(v >> (8 * i)); }
static std::string image(const T4& t) { std::string s; u64(s, t.S); u64(s, t.W); u64(s, t.H); u64(s, t.M); s.append((const char*)t.v.data(), 4 * t.n()); return s; }
static void format() {
  int mx = sx_param("n", 6); T4 a = any("a", mx), b; b.S = b.H = b.M = 1; b.W = 2; b.v.resize(2); FOR(i, 2) b.v[i] = sx_float_bits("b"); Tensor *ta = make(a), *tb = make(b); Copy ca(*ta); std::ostringstream o; ta->Serialize(o); tb->Serialize(o); hx_unchanged(ca, *ta, "serialising changes the tensor");
  std::string got = o.str(), want = image(a) + image(b); sx_assert(got.size() == want.size(), "length of a stored tensor"); FOR(i, want.size()) sx_assert(got[i] == want[i], "bytes of a stored tensor");
  int mode = sx_choose("mode", 0, 3); Tensor r(1, sx_choose("old_width", 1, 2)); 
  if (mode == 3) { ta->WriteToFile("sx.Tensor"); sx_assert(sx_file_size("sx.Tensor") == (long)image(a).size(), "length of a tensor file"); Tensor l("sx.Tensor"); isit(l, a, "a tensor file gives back the tensor"); sx_reach("file"); return; }
  int pos = sx_choose("page_cross", 0, 1) ? 4096 - 32 - 8 : 0; std::string f(pos, 'q'); f += got; sx_file_put("sx.dat", f.data(), f.size()); std::ifstream in("sx.dat", std::ios::in | std::ios::binary); in.seekg(pos, std::ios::beg);
  if (mode == 0) { std::istringstream is(got); r.Deserialize(is); isit(r, a, "deserialised values"); r.Deserialize(is); isit(r, b, "deserialised values of the second tensor"); }
  else if (mode == 1) { r.Deserialize(in, true); sx_assert(hx_shape(r, a.S, a.W, a.H, a.M), "reading only the head gives the dimensions"); r.Deserialize(in); isit(r, b, "reading only the head moves to the next tensor"); }
  else { int fd = open("sx.dat", O_RDONLY); r.Deserialize(in, false, true, fd); isit(r, a, "mapped values"); r.Deserialize(in, false, true, fd); isit(r, b, "mapped values of the second tensor"); r.DeleteIfPossible(); sx_assert(sx_mapped_pages("sx.dat") == 0, "a memory mapping outlives its tensor"); }
  sx_reach("stream");
}
static void bytes() {
  T4 a; a.S = sx_choose("samples", 1, 2); a.W = sx_choose("width", 1, 2); a.H = sx_choose("height", 1, 2); a.M = sx_choose("maps", 1, 4); a.v.resize(a.n()); Tensor* t = new Tensor(a.S, a.W, a.H, a.M); int free_ = sx_choose("free", 0, a.n() - 1); FOR(i, a.n()) (*t)[i] = i == free_ ? sx_real_f("x", -128, 128, 7) : (i % 2 ? -1.f : 1.f) * (float)(i + 1) / 32.f; std::ostringstream o; t->Serialize(o, true); std::string got = o.str(); sx_assert(got.size() == (std::size_t)a.n(), "one byte per value"); std::size_t k = 0;
  FOR(s, a.S) { if (a.M == 3) FOR(y, a.H) FOR(x, a.W) FOR(m, 3) { double v = 127.0 + 127.0 * hx_get(*t, x, y, m, s); unsigned char c = got[k++]; sx_assert((double)c <= v && v < (double)c + 1.0, "colour pixels are stored interleaved, scaled to bytes"); }
    else FOR(m, a.M) FOR(y, a.H) FOR(x, a.W) { double v = 127.0 + 127.0 * hx_get(*t, x, y, m, s); unsigned char c = got[k++]; sx_assert((double)c <= v && v < (double)c + 1.0, "values are scaled to bytes"); } } sx_reach("bytes");
}
static bool zero(datum d) { unsigned u; memcpy(&u, &d, 4); return (u & 0x7fffffff) == 0; }
static void equalish(const datum* got, const DV& v, const char* msg) { FOR(i, v.size()) { unsigned a, b; memcpy(&a, got + i, 4); memcpy(&b, &v[i], 4); sx_assert((a == b) | (((a | b) & 0x7fffffff) == 0), msg); } } // the format does not keep the sign of zero
static datum plain(const char* n) { datum d = sx_float_bits(n); unsigned u; memcpy(&u, &d, 4); sx_assume(((u >> 23) & 0xff) != 0xff && (u & 0xff) != 0x58 && ((u >> 8) & 0xff) != 0x58 && ((u >> 16) & 0xff) != 0x58 && (u >> 24) != 0x58); return d; }
static void packed() {
  T4 a; int n = sx_param("n", 3), form = sx_param("form", 0); a.S = a.H = 1; a.M = 1; a.W = n;
  if (form == 1) { static const int L[] = {253, 254, 255, 506, 507, 252, 256, 505}; int run = L[sx_choose("run", 0, sx_param("runs", 5) - 1)]; datum v = plain("value"), w = plain("last"); int lead = sx_choose("lead", 0, 1); a.W = run + lead + 1; if (lead) a.v.push_back(w); FOR(i, run) a.v.push_back(v); a.v.push_back(w); }
  else { a.v.resize(n); FOR(i, n) a.v[i] = sx_float_bits("value"); if (form == 2) { a.S = 1; a.W = 1; a.H = n; } }
  Tensor* t = make(a); CompressedTensor* c = new CompressedTensor(); if (sx_param("reuse", 0)) { Tensor z(1, 3); FOR(i, 3) z[i] = 1; c->Compress(z); } c->Compress(*t); isit(*t, a, "compression changes the tensor"); sx_assert(c->samples() == (std::size_t)a.S && c->width() == (std::size_t)a.W && c->height() == (std::size_t)a.H && c->maps() == (std::size_t)a.M && c->elements() == (std::size_t)a.n(), "compressed dimensions"); sx_assert(c->compressed_length() <= 2u * 4 * a.n() + 2, "compressed length stays in its bound");
  Tensor r(1, 2); int how = sx_choose("how", 0, 3); 
  if (how == 0) c->Decompress(r); else if (how == 1) { Tensor big(1, a.n() + 3); c->Decompress(big, big.data_ptr()); sx_assert(hx_shape(big, a.S, a.W, a.H, a.M), "decompressed dimensions"); equalish(big.data_ptr_const(), a.v, "decompressed values"); delete c; sx_reach("packed"); return; }
  else { std::ostringstream o; c->Serialize(o); std::string s = o.str(), h; u64(h, a.S); u64(h, a.W); u64(h, a.H); u64(h, a.M); u64(h, c->compressed_length()); sx_assert(s.size() == 40 + c->compressed_length(), "length of a stored compressed tensor"); FOR(i, 40) sx_assert(s[i] == h[i], "head of a stored compressed tensor"); delete c; c = new CompressedTensor();
    int pos = 4096 - 40 - 4; std::string f(pos, 'q'); f += s; f += "tail"; sx_file_put("sx.dat", f.data(), f.size()); std::ifstream in("sx.dat", std::ios::in | std::ios::binary); in.seekg(pos, std::ios::beg); int fd = open("sx.dat", O_RDONLY); c->Deserialize(in, false, how == 3, how == 3 ? fd : 0); char tail[4]; in.read(tail, 4); sx_assert(memcmp(tail, "tail", 4) == 0, "reading stops after the tensor"); c->Decompress(r); }
  sx_assert(hx_shape(r, a.S, a.W, a.H, a.M), "decompressed dimensions"); equalish(r.data_ptr_const(), a.v, "decompressed values"); delete c; sx_assert(sx_mapped_pages("sx.dat") == 0, "a memory mapping outlives its tensor"); sx_reach("packed");
}
static void streams() {
  int n = sx_choose("tensors", 0, 2), kind = sx_param("kind", 0); std::vector<T4> ts; std::string f; if (kind == 1) u64(f, 0xC24CC24CC24CC24CULL);
  FOR(i, n) { T4 t; t.S = sx_choose("samples", 1, 2); t.W = sx_choose("width", 1, 2); t.H = 1; t.M = sx_choose("maps", 1, 2); t.v.resize(t.n()); FOR(e, t.n()) { t.v[e] = e == 0 ? (kind == 1 ? plain("x") : sx_float_bits("x")) : 1.25f * e + 0.125f * i; } ts.push_back(t); if (kind == 0) f += image(t); else { Tensor* x = make(t); CompressedTensor c; c.Compress(*x); std::ostringstream o; c.Serialize(o); f += o.str(); } }
  if (n == 0 && kind == 0) u64(f, 0); sx_file_put("sx.stream", f.data(), f.size()); TensorStream* st = TensorStream::FromFile("sx.stream"); sx_assert(st->GetTensorCount() == (unsigned)n, "a stream holds every stored tensor");
  FOR(i, n + 1) { bool in = i < n; sx_assert(st->GetWidth(i) == (in ? ts[i].W : 0) && st->GetHeight(i) == (in ? ts[i].H : 0) && st->GetMaps(i) == (in ? ts[i].M : 0) && st->GetSamples(i) == (in ? ts[i].S : 0), "stream reports the dimensions of its tensors"); }
  FOR(rep, sx_param("copies", 1)) { int i = sx_choose("source", 0, n), ss = sx_choose("source_sample", 0, 2), dt = sx_choose("target_sample", 0, 2), tw = sx_choose("target_width", 1, 2), tm = sx_choose("target_maps", 1, 2); Tensor t(2, tw, 1, tm); hx_bits(t, "old"); Copy t0(t); bool ok = st->CopySample(i, ss, t, dt), want = i < n && ss < ts[i].S && dt < 2 && tw >= ts[i].W && tm == ts[i].M; sx_assert(ok == want, "a stream copies exactly the samples it has into targets that hold them");
    DV e(t0.v); if (want) FOR(m, tm) FOR(x, tw) e[(dt * tm + m) * tw + x] = x < ts[i].W ? ts[i].v[(ss * tm + m) * ts[i].W + x] : 0.f; sx_assert(hx_shape(t, 2, tw, 1, tm), "copying keeps the dimensions of the target"); equalish(t.data_ptr_const(), e, "a stream delivers the stored values and touches nothing else"); }
  delete st; sx_assert(sx_mapped_pages("sx.stream") == 0, "a memory mapping outlives its stream"); sx_reach("copied");
}
static void lists() {
  int C = sx_choose("classes", 1, 3), W = sx_choose("width", 1, 2), lm = sx_choose("grey", 0, 1) ? 1 : 3; bool odd = sx_choose("mismatch", 0, 1); if (W == 2 && (C == 3 || lm == 1 || odd)) return; if (odd && C != 2) return; std::vector<unsigned> col; FOR(c, C) { unsigned v = sx_u32("colour"); sx_assume(v < 0x1000000); FOR(d, c) sx_assume(v != col[d]); col.push_back(v); } 
  Tensor img(1, W, 1, 3), lab(1, W, 1, lm); hx_fill(img, "x", 0, 8, 3); std::vector<int> cls; FOR(x, W) { int k = sx_choose("pixel", 0, C); cls.push_back(k); unsigned char r = 1, g = 2, b = 3; if (k < C) { r = col[k] >> 16; g = col[k] >> 8; b = col[k]; if (lm == 1) sx_assume(r == g && g == b); } else { r = sx_u8("r"); g = lm == 1 ? r : sx_u8("g"); b = lm == 1 ? r : sx_u8("b"); FOR(d, C) sx_assume(col[d] != ((unsigned)r << 16 | g << 8 | b)); } unsigned char px[3] = {r, g, b}; FOR(m, lm) hx_ref(lab, x, 0, m, 0) = DATUM_FROM_UCHAR(px[m]); }
  img.WriteToFile("./i1.Tensor"); lab.WriteToFile("./l1.Tensor"); Tensor bad(1, W + 1, 1, lm); hx_fill(bad, "y", 0, 1); if (odd) { bad.WriteToFile("./l0.Tensor"); } std::string il = odd ? "i1.Tensor\ni1.Tensor\n" : "i1.Tensor\n", ll = odd ? "l0.Tensor\nl1.Tensor\n" : "l1.Tensor\n"; sx_file_put("il", il.data(), il.size()); sx_file_put("ll", ll.data(), ll.size());
  TensorStream* st = TensorStream::FromFile("list:il;.;ll;./", col); sx_assert(st->GetTensorCount() == 2, "a list holds its matching image and label pairs"); sx_assert(st->GetWidth(0) == (std::size_t)W && st->GetHeight(0) == 1 && st->GetMaps(0) == 3 && st->GetSamples(0) == 1 && st->GetWidth(1) == (std::size_t)W && st->GetMaps(1) == (std::size_t)C && st->GetSamples(1) == 1 && st->GetWidth(2) == 0 && st->GetMaps(2) == 0, "list reports dimensions");
  Tensor ti(1, W, 1, 3), tl(1, W, 1, C); hx_undef(ti); hx_undef(tl); sx_assert(st->CopySample(0, 0, ti, 0), "an image is copied"); hx_same(ti, img, "image values"); sx_assert(st->CopySample(1, 0, tl, 0), "a label is copied"); sx_assert(!st->CopySample(2, 0, tl, 0), "there is no third tensor");
  if (C > 1) FOR(x, W) FOR(c, C) sx_assert_same(hx_get(tl, x, 0, c, 0), cls[x] == c ? 1.f : 0.f, "labels mark exactly the class with the pixel's colour");
  else FOR(x, W) { float v = hx_get(tl, x, 0, 0, 0); if (cls[x] == 0) sx_assert_feq(v, 1.0, "the foreground colour has label one"); sx_assert(v <= 1.0f, "no label exceeds one"); } sx_reach("list");
}
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: format(); break; case 1: bytes(); break; case 2: packed(); break; case 3: streams(); break; case 4: lists(); break; } return 0; }
