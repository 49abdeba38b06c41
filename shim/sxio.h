// In-memory model of the iostreams the code under test uses (symbolic execution only; native replay uses libstdc++).
#pragma once
#include <string>
#include <vector>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
extern "C" { double sx_strtod(const char*, int*); void sx_fmt_double(char*, double, int); }
struct SxFile { char* d; size_t n, cap; };
SxFile* sx_fs_open(const std::string& name, bool create, bool trunc);
void sx_buf_put(SxFile* f, size_t pos, const char* s, size_t n);
SxFile* sx_buf_new();
namespace std {
  typedef long streamsize_; 
  class ios_base {
  public:
    typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir; typedef unsigned fmtflags;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode in = 8, out = 16, binary = 4, app = 1, ate = 2, trunc = 32;
    static const seekdir beg = 0, cur = 1, end = 2;
    iostate st; int width_, prec_; char fill_; bool hex_, left_;
    ios_base() : st(0), width_(0), prec_(6), fill_(' '), hex_(false), left_(false) {}
    virtual ~ios_base() {}
    bool good() const { return st == 0; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; }
    void clear(iostate s = 0) { st = s; } void setstate(iostate s) { st |= s; } iostate rdstate() const { return st; }
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    int precision(int p) { int o = prec_; prec_ = p; return o; } int precision() const { return prec_; } int width(int w) { int o = width_; width_ = w; return o; }
    static bool sync_with_stdio(bool = true) { return true; }
    static const fmtflags sx_hex = 1, sx_left = 2; typedef long streamoff_; void exceptions(iostate) {} 
  };
  template<> class basic_ios<char, char_traits<char> > : public ios_base { public: typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef long off_type; char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; } void* rdbuf() const { return nullptr; } };
  class SxPos { public: long v; SxPos(long x = 0) : v(x) {} operator long() const { return v; } };
  template<> class basic_ostream<char, char_traits<char> > : virtual public basic_ios<char, char_traits<char> > {
  public:
    SxFile* f; size_t wpos; bool null_;
    basic_ostream() : f(nullptr), wpos(0), null_(true) {}
    void sxput(const char* s, size_t n) { if (null_) return; if (st & (badbit | failbit)) return; if (!f) { st |= failbit; return; } sx_buf_put(f, wpos, s, n); wpos += n; }
    void sxpad(const char* s, size_t n) { if (null_) return; int w = width_; width_ = 0; char c = fill_; if (left_) { sxput(s, n); for (int i = n; i < w; i++) sxput(&c, 1); } else { for (int i = n; i < w; i++) sxput(&c, 1); sxput(s, n); } }
    void sxnum(unsigned long v, bool neg) { if (null_) return; char b[32]; int p = 32; unsigned base = hex_ ? 16 : 10; do { unsigned q = v % base; b[--p] = q < 10 ? '0' + q : 'a' + q - 10; v /= base; } while (v); if (neg) b[--p] = '-'; sxpad(b + p, 32 - p); }
    basic_ostream& write(const char* s, long n) { sxput(s, n); return *this; }
    basic_ostream& put(char c) { sxput(&c, 1); return *this; }
    basic_ostream& flush() { return *this; }
    SxPos tellp() { return SxPos(f ? (long)wpos : -1); }
    basic_ostream& seekp(long p) { wpos = p; return *this; }
    basic_ostream& seekp(long p, ios_base::seekdir d) { wpos = d == beg ? p : d == cur ? (long)wpos + p : (long)f->n + p; return *this; }
    basic_ostream& operator<<(basic_ostream& (*fn)(basic_ostream&)) { return fn(*this); }
    basic_ostream& operator<<(ios_base& (*fn)(ios_base&)) { fn(*this); return *this; }
    basic_ostream& operator<<(int v) { if (hex_) { sxnum((unsigned)v, false); return *this; } sxnum(v < 0 ? -(long)v : v, v < 0); return *this; } basic_ostream& operator<<(unsigned v) { sxnum(v, false); return *this; }
    basic_ostream& operator<<(long v) { sxnum(v < 0 ? -v : v, v < 0); return *this; } basic_ostream& operator<<(unsigned long v) { sxnum(v, false); return *this; }
    basic_ostream& operator<<(long long v) { sxnum(v < 0 ? -v : v, v < 0); return *this; } basic_ostream& operator<<(unsigned long long v) { sxnum(v, false); return *this; }
    basic_ostream& operator<<(short v) { return *this << (int)v; } basic_ostream& operator<<(unsigned short v) { return *this << (unsigned)v; }
    basic_ostream& operator<<(bool v) { return *this << (int)v; }
    basic_ostream& operator<<(double v) { if (null_) return *this; char b[64]; sx_fmt_double(b, v, prec_); sxpad(b, strlen(b)); return *this; }
    basic_ostream& operator<<(float v) { return *this << (double)v; } basic_ostream& operator<<(long double v) { return *this << (double)v; }
    basic_ostream& operator<<(const void*) { sxput("ptr", 3); return *this; }
  };
  typedef basic_ostream<char, char_traits<char> > ostream;
  inline ostream& operator<<(ostream& o, char c) { o.sxpad(&c, 1); return o; }
  inline ostream& operator<<(ostream& o, signed char c) { char x = c; o.sxpad(&x, 1); return o; }
  inline ostream& operator<<(ostream& o, unsigned char c) { char x = c; o.sxpad(&x, 1); return o; }
  inline ostream& operator<<(ostream& o, const char* s) { if (!o.null_) o.sxpad(s, strlen(s)); return o; }
  inline ostream& operator<<(ostream& o, const string& s) { if (!o.null_) o.sxpad(s.data(), s.size()); return o; }
  inline ostream& endl(ostream& o) { o.put('\n'); return o; } inline ostream& flush(ostream& o) { return o; }
  inline ios_base& hex(ios_base& b) { b.hex_ = true; return b; } inline ios_base& dec(ios_base& b) { b.hex_ = false; return b; }
  inline ios_base& left(ios_base& b) { b.left_ = true; return b; } inline ios_base& right(ios_base& b) { b.left_ = false; return b; } inline ios_base& fixed(ios_base& b) { return b; } inline ios_base& scientific(ios_base& b) { return b; } inline ios_base& defaultfloat(ios_base& b) { return b; } inline ios_base& internal(ios_base& b) { return b; } inline ios_base& noskipws(ios_base& b) { return b; } inline ios_base& skipws(ios_base& b) { return b; } inline ios_base& boolalpha(ios_base& b) { return b; } inline ostream& ends(ostream& o) { o.put((char)0); return o; }
  struct SxW { int v; }; struct SxP { int v; }; struct SxF { char v; };
  inline SxW setw(int v) { SxW x = {v}; return x; } inline SxP setprecision(int v) { SxP x = {v}; return x; } inline SxF setfill(char v) { SxF x = {v}; return x; }
  inline ostream& operator<<(ostream& o, SxW w) { o.width_ = w.v; return o; } inline ostream& operator<<(ostream& o, SxP w) { o.prec_ = w.v; return o; } inline ostream& operator<<(ostream& o, SxF w) { o.fill_ = w.v; return o; }

  template<> class basic_istream<char, char_traits<char> > : virtual public basic_ios<char, char_traits<char> > {
  public:
    SxFile* fi; size_t rpos; long gc;
    basic_istream() : fi(nullptr), rpos(0), gc(0) {}
    virtual SxFile* sxsrc() { return fi; }
    int sxget() { SxFile* s = sxsrc(); if (!s || rpos >= s->n) return -1; return (unsigned char)s->d[rpos++]; }
    int sxpeek() { SxFile* s = sxsrc(); if (!s || rpos >= s->n) return -1; return (unsigned char)s->d[rpos]; }
    bool sentry() { if (st) { st |= failbit; return false; } return true; }
    bool skipws() { if (!sentry()) return false; for (;;) { int c = sxpeek(); if (c < 0) { st |= eofbit | failbit; return false; } if (!((c == ' ') | ((c >= 9) & (c <= 13)))) return true; rpos++; } }
    int get() { gc = 0; if (!sentry()) return -1; int c = sxget(); if (c < 0) st |= eofbit | failbit; else gc = 1; return c; }
    basic_istream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
    int peek() { gc = 0; if (!sentry()) return -1; int c = sxpeek(); if (c < 0) st |= eofbit; return c; }
    basic_istream& unget() { gc = 0; st &= ~eofbit; if (!sentry()) return *this; if (rpos) rpos--; else st |= badbit; return *this; } basic_istream& putback(char) { return unget(); }
    basic_istream& ignore(long n, int delim) { for (long i = 0; i < n || n == 0x7fffffffffffffffL; i++) { int c = get(); if (c < 0 || c == delim) break; } if (st & eofbit) st &= ~failbit; return *this; }
    basic_istream& getline(char* d, long n, char delim = '\n') { gc = 0; if (!sentry()) { if (n) *d = 0; return *this; } long k = 0; bool any = false; for (;;) { int c = sxpeek(); if (c < 0) { st |= eofbit; if (!any) st |= failbit; break; } if (c == (unsigned char)delim) { rpos++; any = true; break; } if (k + 1 >= n) { st |= failbit; break; } d[k++] = c; rpos++; any = true; } if (n) d[k] = 0; gc = k; return *this; }
    long readsome(char* d, long n) { SxFile* s = sxsrc(); long av = s && rpos < s->n ? (long)(s->n - rpos) : 0; if (n < av) av = n; if (av) { memcpy(d, s->d + rpos, av); rpos += av; } gc = av; return av; }
    basic_istream& ignore(long n = 1) { for (long i = 0; i < n; i++) if (get() < 0) { st &= ~failbit; break; } return *this; }
    basic_istream& read(char* d, long n) { gc = 0; if (!sentry()) return *this; SxFile* s = sxsrc(); size_t av = s && rpos < s->n ? s->n - rpos : 0; size_t k = (size_t)n < av ? (size_t)n : av; if (k) memcpy(d, s->d + rpos, k); rpos += k; gc = k; if (k < (size_t)n) st |= eofbit | failbit; return *this; }
    long gcount() const { return gc; }
    SxPos tellg() { if (fail()) return SxPos(-1); return SxPos((long)rpos); }
    basic_istream& seekg(long p) { st &= ~eofbit; if (fail()) return *this; rpos = p; return *this; }
    basic_istream& seekg(long p, ios_base::seekdir d) { st &= ~eofbit; if (fail()) return *this; SxFile* s = sxsrc(); long b = d == beg ? 0 : d == cur ? (long)rpos : s ? (long)s->n : 0; if (b + p < 0) { st |= failbit; return *this; } rpos = b + p; return *this; }
    template <class T> basic_istream& sxint(T& out) { if (!skipws()) return *this; bool neg = false, any = false; int c = sxpeek(); if (c == '-' || c == '+') { neg = c == '-'; rpos++; } unsigned long v = 0; for (;;) { c = sxpeek(); if (c < 0) { st |= eofbit; break; } if (!((c >= '0') & (c <= '9'))) break; v = v * 10 + (c - '0'); any = true; rpos++; } if (!any) { st |= failbit; out = 0; return *this; } out = (T)(neg ? -(long)v : (long)v); return *this; }
    basic_istream& operator>>(int& v) { return sxint(v); } basic_istream& operator>>(unsigned& v) { return sxint(v); } basic_istream& operator>>(long& v) { return sxint(v); } basic_istream& operator>>(unsigned long& v) { return sxint(v); } basic_istream& operator>>(short& v) { return sxint(v); } basic_istream& operator>>(unsigned short& v) { return sxint(v); }
    basic_istream& operator>>(double& v) { if (!skipws()) return *this; char b[64]; int n = 0; while (n < 63) { int c = sxpeek(); if (c < 0) break; if (!(((c >= '0') & (c <= '9')) | (c == '.') | (c == '-') | (c == '+') | (c == 'e') | (c == 'E'))) break; b[n++] = c; rpos++; } if (sxpeek() < 0) st |= eofbit; b[n] = 0; int used; double x = sx_strtod(b, &used); if (used == 0) { st |= failbit; v = 0; rpos -= n; return *this; } rpos -= n - used; v = x; return *this; }
    basic_istream& operator>>(float& v) { double d; *this >> d; v = (float)d; return *this; }
    basic_istream& operator>>(basic_istream& (*fn)(basic_istream&)) { return fn(*this); }
    basic_istream& operator>>(ios_base& (*fn)(ios_base&)) { fn(*this); return *this; }
  };
  typedef basic_istream<char, char_traits<char> > istream;
  inline istream& operator>>(istream& i, char& c) { if (i.skipws()) c = (char)i.sxget(); return i; }
  inline istream& operator>>(istream& i, string& s) { if (!i.skipws()) return i; s.clear(); for (;;) { int c = i.sxpeek(); if (c < 0) { i.st |= ios_base::eofbit; break; } if ((c == ' ') | ((c >= 9) & (c <= 13))) break; s += (char)c; i.rpos++; } return i; }
  inline istream& getline(istream& i, string& s, char delim) { i.gc = 0; if (!i.sentry()) return i; s.clear(); bool any = false; for (;;) { int c = i.sxget(); if (c < 0) { i.st |= ios_base::eofbit; if (!any) i.st |= ios_base::failbit; break; } any = true; if (c == (unsigned char)delim) break; s += (char)c; } return i; }
  inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }
  inline istream& ws(istream& i) { i.skipws(); i.st &= ~ios_base::failbit; return i; }
  template<> class basic_iostream<char, char_traits<char> > : public basic_istream<char, char_traits<char> >, public basic_ostream<char, char_traits<char> > { public: };
  typedef basic_iostream<char, char_traits<char> > iostream;
  template<> class basic_stringstream<char, char_traits<char>, allocator<char> > : public basic_iostream<char, char_traits<char> > { public:
    basic_stringstream() { null_ = false; f = fi = sx_buf_new(); } explicit basic_stringstream(const string& s, unsigned = 24) { null_ = false; f = fi = sx_buf_new(); sx_buf_put(f, 0, s.data(), s.size()); } 
    explicit basic_stringstream(ios_base::openmode) { null_ = false; f = fi = sx_buf_new(); }
    string str() const { return string(f->d, f->n); } void str(const string& s) { f->n = 0; sx_buf_put(f, 0, s.data(), s.size()); wpos = 0; rpos = 0; } };
  template<> class basic_ostringstream<char, char_traits<char>, allocator<char> > : public basic_ostream<char, char_traits<char> > { public: basic_ostringstream() { null_ = false; f = sx_buf_new(); } explicit basic_ostringstream(const string& s, unsigned m = 16) { null_ = false; f = sx_buf_new(); sx_buf_put(f, 0, s.data(), s.size()); if (m & ate) wpos = s.size(); } string str() const { return string(f->d, f->n); } void str(const string& s) { f->n = 0; sx_buf_put(f, 0, s.data(), s.size()); wpos = s.size(); } };
  template<> class basic_istringstream<char, char_traits<char>, allocator<char> > : public basic_istream<char, char_traits<char> > { public: basic_istringstream() { fi = sx_buf_new(); } explicit basic_istringstream(const string& s) { fi = sx_buf_new(); sx_buf_put(fi, 0, s.data(), s.size()); } string str() const { return string(fi->d, fi->n); } void str(const string& s) { fi->n = 0; sx_buf_put(fi, 0, s.data(), s.size()); rpos = 0; } };
  template<> class basic_ifstream<char, char_traits<char> > : public basic_istream<char, char_traits<char> > { public: bool op_; basic_ifstream() : op_(false) {} 
    explicit basic_ifstream(const string& n, unsigned m = 8) : op_(false) { open(n, m); } explicit basic_ifstream(const char* n, unsigned m = 8) : op_(false) { open(string(n), m); }
    void open(const string& n, unsigned m = 8) { fi = sx_fs_open(n, false, false); op_ = fi != nullptr; rpos = 0; if (!op_) st |= failbit; else st = 0; } bool is_open() const { return op_; } void close() { op_ = false; } };
  template<> class basic_ofstream<char, char_traits<char> > : public basic_ostream<char, char_traits<char> > { public: bool op_; basic_ofstream() : op_(false) { null_ = false; }
    explicit basic_ofstream(const string& n, unsigned m = 16) : op_(false) { null_ = false; open(n, m); } explicit basic_ofstream(const char* n, unsigned m = 16) : op_(false) { null_ = false; open(string(n), m); }
    void open(const string& n, unsigned m = 16) { f = sx_fs_open(n, true, !(m & app)); op_ = f != nullptr; wpos = f && (m & app) ? f->n : 0; if (!op_) st |= failbit; else st = 0; } bool is_open() const { return op_; } void close() { op_ = false; } };
  template<> class basic_fstream<char, char_traits<char> > : public basic_iostream<char, char_traits<char> > { public: bool op_; explicit basic_fstream(const string& n, unsigned m = 24) { null_ = false; f = fi = sx_fs_open(n, m & out, m & trunc); op_ = f; if (!op_) st |= failbit; } bool is_open() const { return op_; } void close() {} };
  extern ostream cout, cerr, clog; extern istream cin;
}
