// Stand-in for the file and string streams of the C++ library, used in the symbolic build only: files are strings in memory, a stream is a
// position in one, and a number with a symbolic value is written as an opaque token (vf_format) which parses back to the value that
// formatting with the requested precision would give.  The replay build uses the real streams.
#pragma once
#ifdef VF_SYMBOLIC
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <glog/logging.h>
#include <Eigen/Core>
#include <Eigen/Dense>
extern "C" {
int vf_format(double v, int precision, int fixed, char* out);   // writes text or token, returns its length
double vf_parse(const char* s, int n, int* used);               // strtod on s[0..n)
}
namespace std {
struct vf_file { string name, data; bool there; };
inline vector<vf_file*>& vf_files() { static vector<vf_file*>* f = new vector<vf_file*>; return *f; }
inline vf_file* vf_lookup(const string& n) {
  for (size_t i = 0; i < vf_files().size(); ++i) if (vf_files()[i]->name == n && vf_files()[i]->there) return vf_files()[i];
  return nullptr;
}
inline vf_file* vf_create(const string& n) {
  vf_file* f = vf_lookup(n);
  if (!f) { f = new vf_file; f->name = n; f->there = true; vf_files().push_back(f); }
  return f;
}
class vf_stream;
struct vf_streambuf { vf_stream* s; };

class vf_stream {
 public:
  typedef char char_type;
  typedef char_traits<char> traits_type;
  typedef ios_base::iostate iostate;
  typedef ios_base::openmode openmode;
  typedef ios_base::fmtflags fmtflags;
  typedef std::streampos pos_type;
  static const iostate goodbit = ios_base::goodbit, eofbit = ios_base::eofbit, failbit = ios_base::failbit, badbit = ios_base::badbit;
  static const openmode in = ios_base::in, out = ios_base::out, app = ios_base::app, ate = ios_base::ate, trunc = ios_base::trunc, binary = ios_base::binary;
  vf_stream() : file(nullptr), opened(false), isfile(false), canr(true), canw(true), app_(false), st(0), prec(6), wid(0), fil(' '), fl(ios_base::dec | ios_base::skipws), rp(0), wp(0), gc(0) { sb.s = this; }
  // state
  bool good() const { return st == 0; }
  bool eof() const { return st & 1; }
  bool fail() const { return st & 6; }
  bool bad() const { return st & 4; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  void clear(iostate s = goodbit) { st = num(s); }
  void setstate(iostate s) { st |= num(s); }
  iostate rdstate() const { return iostate(((st & 1) ? eofbit : goodbit) | ((st & 2) ? failbit : goodbit) | ((st & 4) ? badbit : goodbit)); }
  void exceptions(iostate) {}
  template <class L> void imbue(const L&) {}
  std::streamsize precision() const { return prec; }
  std::streamsize precision(std::streamsize p) { std::streamsize o = prec; prec = (int)p; return o; }
  std::streamsize width() const { return wid; }
  std::streamsize width(std::streamsize w) { std::streamsize o = wid; wid = (int)w; return o; }
  char fill() const { return fil; }
  char fill(char c) { char o = fil; fil = c; return o; }
  fmtflags flags() const { return fl; }
  fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl &= ~m; fl |= f & m; return o; }
  void unsetf(fmtflags f) { fl &= ~f; }
  vf_stream* tie(vf_stream*) { return nullptr; }
  static bool sync_with_stdio(bool) { return true; }
  vf_streambuf* rdbuf() { return &sb; }
  vf_stream& copyfmt(const vf_stream& o) { prec = o.prec; fl = o.fl; wid = o.wid; fil = o.fil; return *this; }
  // output
  vf_stream& raw(const char* p, size_t n) {
    if (st || !canw || (isfile && !opened)) { st |= 4; return *this; }
    string& b = data();
    if (isfile) { pend.append(p, n); return *this; }
    if (wp == b.size()) b.append(p, n);
    else { for (size_t k = 0; k < n; ++k) { if (wp + k < b.size()) b[wp + k] = p[k]; else b.push_back(p[k]); } }
    wp += n;
    return *this;
  }
  vf_stream& padded(const char* p, size_t n) {
    int k = wid - (int)n;
    wid = 0;
    const bool left = fl & ios_base::left;
    if (!left) for (int i = 0; i < k; ++i) raw(&fil, 1);
    raw(p, n);
    if (left) for (int i = 0; i < k; ++i) raw(&fil, 1);
    return *this;
  }
  vf_stream& put(char c) { return raw(&c, 1); }
  vf_stream& write(const char* p, std::streamsize n) { return raw(p, n); }
  vf_stream& flush() {
    if (isfile && opened && !pend.empty()) {
      string& b = file->data;
      if (app_ || wp > b.size()) wp = b.size();
      for (size_t k = 0; k < pend.size(); ++k) { if (wp + k < b.size()) b[wp + k] = pend[k]; else b.push_back(pend[k]); }
      wp += pend.size();
      pend.clear();
    }
    return *this;
  }
  vf_stream& operator<<(const char* s) { if (!s) { st |= 4; return *this; } return padded(s, strlen(s)); }
  vf_stream& operator<<(const string& s) { return padded(s.data(), s.size()); }
  vf_stream& operator<<(char c) { return padded(&c, 1); }
  vf_stream& operator<<(signed char c) { char d = c; return padded(&d, 1); }
  vf_stream& operator<<(unsigned char c) { char d = c; return padded(&d, 1); }
  vf_stream& operator<<(bool b) { return (fl & ios_base::boolalpha) ? *this << (b ? "true" : "false") : *this << (int)b; }
  vf_stream& operator<<(short v) { return *this << (long)v; }
  vf_stream& operator<<(unsigned short v) { return *this << (unsigned long)v; }
  vf_stream& operator<<(int v) { return *this << (long)v; }
  vf_stream& operator<<(unsigned v) { return *this << (unsigned long)v; }
  vf_stream& operator<<(long v) { return v < 0 ? number(0ul - (unsigned long)v, true) : number((unsigned long)v, false); }
  vf_stream& operator<<(unsigned long v) { return number(v, false); }
  vf_stream& operator<<(long long v) { return *this << (long)v; }
  vf_stream& operator<<(unsigned long long v) { return *this << (unsigned long)v; }
  vf_stream& operator<<(double v) {
    char t[64];
    const bool fx = (fl & ios_base::floatfield) == ios_base::fixed, sc = (fl & ios_base::floatfield) == ios_base::scientific;
    int n = vf_format(v, prec < 0 ? 6 : prec, fx ? 1 : sc ? 2 : 0, t);
    return padded(t, n);
  }
  vf_stream& operator<<(float v) { return *this << (double)v; }
  vf_stream& operator<<(long double v) { return *this << (double)v; }
  vf_stream& operator<<(ios_base& (*f)(ios_base&)) { manip(f); return *this; }
  vf_stream& operator<<(std::ostream& (*f)(std::ostream&)) {
    std::ostream& (*e)(std::ostream&) = &std::endl<char, char_traits<char> >;
    std::ostream& (*z)(std::ostream&) = &std::ends<char, char_traits<char> >;
    if (f == e) { raw("\n", 1); return flush(); }
    if (f == z) { char c = 0; return raw(&c, 1); }
    return flush();
  }
  vf_stream& operator<<(_Setprecision p) { prec = p._M_n; return *this; }
  vf_stream& operator<<(_Setw p) { wid = p._M_n; return *this; }
  vf_stream& operator<<(_Setfill<char> p) { fil = p._M_c; return *this; }
  vf_stream& operator<<(vf_streambuf* o) { vf_stream& i = *o->s; string& b = i.data(); if (i.rp >= b.size()) { st |= 2; return *this; } raw(b.data() + i.rp, b.size() - i.rp); i.rp = b.size(); return *this; }
  std::streampos tellp() { flush(); return fail() ? std::streampos(-1) : std::streampos(wp); }
  vf_stream& seekp(std::streamoff p) { flush(); wp = p; return *this; }
  vf_stream& seekp(std::streamoff p, ios_base::seekdir d) { flush(); wp = d == ios_base::beg ? p : d == ios_base::cur ? wp + p : data().size() + p; return *this; }
  // input
  bool more() { return rp < data().size(); }
  bool prep(bool ws) {
    if (st) { st |= 2; return false; }
    if (!canr || (isfile && !opened)) { st |= 2; return false; }
    if (ws) while (more() && space(data()[rp])) ++rp;
    return true;
  }
  static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
  int get() { gc = 0; if (!prep(false)) return -1; if (!more()) { st |= 3; return -1; } gc = 1; return (unsigned char)data()[rp++]; }
  vf_stream& get(char& c) { int k = get(); if (gc) c = (char)k; return *this; }
  int peek() { gc = 0; if (!prep(false)) return -1; if (!more()) { st |= 1; return -1; } return (unsigned char)data()[rp]; }
  vf_stream& unget() { st &= ~1; if (!prep(false)) return *this; if (rp) --rp; else st |= 4; return *this; }
  vf_stream& putback(char) { return unget(); }
  vf_stream& ignore(std::streamsize n = 1, int d = -1) {
    gc = 0;
    if (!prep(false)) return *this;
    while (gc < n) {
      if (!more()) { st |= 1; break; }
      char c = data()[rp++];
      ++gc;
      if (d >= 0 && c == (char)d) break;
    }
    return *this;
  }
  vf_stream& read(char* p, std::streamsize n) { gc = 0; if (!prep(false)) return *this; while (gc < n) { if (!more()) { st |= 3; break; } p[gc++] = data()[rp++]; } return *this; }
  vf_stream& getline(char* p, std::streamsize n, char d = '\n') {
    gc = 0;
    if (!prep(false)) { if (n > 0) *p = 0; return *this; }
    std::streamsize k = 0;
    while (true) {
      if (!more()) { st |= 1; break; }
      if (data()[rp] == d) { ++rp; ++gc; break; }
      if (k + 1 >= n) { st |= 2; break; }
      p[k++] = data()[rp++];
      ++gc;
    }
    if (!gc) st |= 2;
    if (n > 0) p[k] = 0;
    return *this;
  }
  std::streamsize gcount() const { return gc; }
  std::streampos tellg() { return fail() ? std::streampos(-1) : std::streampos(rp); }
  vf_stream& seekg(std::streamoff p) { st &= ~1; rp = p; return *this; }
  vf_stream& seekg(std::streamoff p, ios_base::seekdir d) { st &= ~1; rp = d == ios_base::beg ? p : d == ios_base::cur ? rp + p : data().size() + p; return *this; }
  vf_stream& operator>>(char& c) { if (!prep(fl & ios_base::skipws)) return *this; if (!more()) { st |= 3; return *this; } c = data()[rp++]; return *this; }
  vf_stream& operator>>(string& s) {
    if (!prep(fl & ios_base::skipws)) return *this;
    s.clear();
    bool any = false;
    while (true) { if (!more()) { st |= 1; break; } if (space(data()[rp])) break; s.push_back(data()[rp++]); any = true; }
    if (!any) st |= 2;
    return *this;
  }
  vf_stream& operator>>(double& d) {
    if (!prep(fl & ios_base::skipws)) return *this;
    string& b = data();
    int u = 0;
    double v = vf_parse(b.data() + rp, (int)(b.size() - rp), &u);
    rp += u;
    if (!u) { d = 0; st |= more() ? 2 : 3; return *this; }
    d = v;
    if (!more()) st |= 1;
    return *this;
  }
  vf_stream& operator>>(float& d) { double v; *this >> v; d = (float)v; return *this; }
  template <class I> vf_stream& integer(I& r) {
    if (!prep(fl & ios_base::skipws)) return *this;
    string& b = data();
    bool neg = false, any = false;
    if (more() && (b[rp] == '-' || b[rp] == '+')) neg = b[rp++] == '-';
    unsigned long v = 0;
    while (more() && b[rp] >= '0' && b[rp] <= '9') { v = v * 10 + (b[rp++] - '0'); any = true; }
    if (!more()) st |= 1;
    if (!any) { r = 0; st |= 2; } else r = (I)(neg ? 0 - v : v);
    return *this;
  }
  vf_stream& operator>>(int& v) { return integer(v); }
  vf_stream& operator>>(unsigned& v) { return integer(v); }
  vf_stream& operator>>(long& v) { return integer(v); }
  vf_stream& operator>>(unsigned long& v) { return integer(v); }
  vf_stream& operator>>(ios_base& (*f)(ios_base&)) { manip(f); return *this; }
  vf_stream& operator>>(std::istream& (*)(std::istream&)) { if (prep(true) && !more()) st |= 1; return *this; }
  // file
  bool is_open() const { return isfile && opened; }
  void openf(const string& n, openmode m) {
    if (opened) { st |= 2; return; }
    canr = m & ios_base::in;
    canw = (m & ios_base::out) || (m & ios_base::app);
    app_ = m & ios_base::app;
    file = vf_lookup(n);
    if (!file && n.find('/', n.compare(0, 2, "./") == 0 ? 2 : 0) != string::npos) { st |= 2; return; }   // there are no other directories
    if (!file && canw && (!canr || (m & (ios_base::trunc | ios_base::app)))) file = vf_create(n);
    if (!file) { st |= 2; return; }
    if (canw && !app_ && (!canr || (m & ios_base::trunc))) file->data.clear();
    opened = true;
    st = 0;
    rp = 0;
    wp = (app_ || (m & ios_base::ate)) ? file->data.size() : 0;
    if (m & ios_base::ate) rp = file->data.size();
  }
  void close() { if (!opened) { st |= 2; return; } flush(); opened = false; file = nullptr; }
  void finish() { if (isfile && opened) { flush(); opened = false; } }
  void take(vf_stream& o) {
    o.flush();
    file = o.file; buf = o.buf; opened = o.opened; isfile = o.isfile; canr = o.canr; canw = o.canw; app_ = o.app_; st = o.st;
    prec = o.prec; wid = o.wid; fil = o.fil; fl = o.fl; rp = o.rp; wp = o.wp; gc = o.gc;
    o.opened = false; o.file = nullptr; o.buf.clear();
  }
  string& data() { if (isfile) { if (file) return file->data; static string none; return none; } return buf; }
  vf_file* file;
  string buf, pend;
  vf_streambuf sb;
  bool opened, isfile, canr, canw, app_;
  int st, prec, wid;
  char fil;
  fmtflags fl;
  size_t rp, wp;
  std::streamsize gc;

 private:
  vf_stream(const vf_stream&);
  vf_stream& operator=(const vf_stream&);
  static int num(iostate s) { return ((s & ios_base::eofbit) ? 1 : 0) | ((s & ios_base::failbit) ? 2 : 0) | ((s & ios_base::badbit) ? 4 : 0); }
  vf_stream& number(unsigned long v, bool neg) {
    char t[24];
    int k = 24;
    do { t[--k] = '0' + v % 10; v /= 10; } while (v);
    if (neg) t[--k] = '-';
    return padded(t + k, 24 - k);
  }
  void manip(ios_base& (*f)(ios_base&)) {
    if (f == &std::fixed) setf(ios_base::fixed, ios_base::floatfield);
    else if (f == &std::scientific) setf(ios_base::scientific, ios_base::floatfield);
    else if (f == &std::defaultfloat) unsetf(ios_base::floatfield);
    else if (f == &std::left) setf(ios_base::left, ios_base::adjustfield);
    else if (f == &std::right) setf(ios_base::right, ios_base::adjustfield);
    else if (f == &std::boolalpha) setf(ios_base::boolalpha);
    else if (f == &std::skipws) setf(ios_base::skipws);
    else if (f == &std::noskipws) unsetf(ios_base::skipws);
  }
};
typedef vf_stream vf_ostream;
typedef vf_stream vf_istream;
typedef vf_stream vf_iostream;
struct vf_fbase : vf_stream {
  vf_fbase() { isfile = true; canr = canw = false; }
  ~vf_fbase() { finish(); }
};
#define VF_FS(NAME, DEF, ADD)                                                                     \
  struct NAME : vf_fbase {                                                                        \
    NAME() {}                                                                                     \
    explicit NAME(const char* n, ios_base::openmode m = DEF) { openf(n, m | ADD); }               \
    explicit NAME(const string& n, ios_base::openmode m = DEF) { openf(n, m | ADD); }             \
    NAME(NAME&& o) { take(o); }                                                                   \
    NAME& operator=(NAME&& o) { finish(); take(o); return *this; }                                \
    void open(const char* n, ios_base::openmode m = DEF) { openf(n, m | ADD); }                   \
    void open(const string& n, ios_base::openmode m = DEF) { openf(n, m | ADD); }                 \
  };
VF_FS(vf_ifstream, ios_base::in, ios_base::in)
VF_FS(vf_ofstream, ios_base::out, ios_base::out)
VF_FS(vf_fstream, (ios_base::in | ios_base::out), ios_base::openmode(0))
#undef VF_FS
#define VF_SS(NAME, R, W)                                                                         \
  struct NAME : vf_stream {                                                                       \
    NAME() { canr = R; canw = W; }                                                                \
    explicit NAME(ios_base::openmode) { canr = R; canw = W; }                                     \
    explicit NAME(const string& s, ios_base::openmode m = ios_base::openmode(0)) { canr = R; canw = W; buf = s; if (m & (ios_base::ate | ios_base::app)) wp = s.size(); } \
    NAME(NAME&& o) { take(o); }                                                                   \
    NAME& operator=(NAME&& o) { take(o); return *this; }                                          \
    string str() const { return buf; }                                                            \
    void str(const string& s) { buf = s; rp = wp = 0; }                                           \
  };
VF_SS(vf_istringstream, true, false)
VF_SS(vf_ostringstream, false, true)
VF_SS(vf_stringstream, true, true)
#undef VF_SS
inline vf_stream& getline(vf_stream& i, string& s, char d) {
  if (!i.prep(false)) return i;
  s.clear();
  bool any = false;
  while (true) {
    if (!i.more()) { i.st |= 1; break; }
    char c = i.data()[i.rp++];
    any = true;
    if (c == d) break;
    s.push_back(c);
  }
  if (!any) i.st |= 2;
  return i;
}
inline vf_stream& getline(vf_stream& i, string& s) { return getline(i, s, '\n'); }
inline vf_stream& getline(vf_stream&& i, string& s) { return getline(i, s, '\n'); }
inline vf_stream& getline(vf_stream&& i, string& s, char d) { return getline(i, s, d); }
template <class T>
struct vf_ostream_iterator {
  typedef output_iterator_tag iterator_category;
  typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  vf_stream* s; const char* d;
  vf_ostream_iterator(vf_stream& o, const char* sep = nullptr) : s(&o), d(sep) {}
  vf_ostream_iterator& operator=(const T& v) { *s << v; if (d) *s << d; return *this; }
  vf_ostream_iterator& operator*() { return *this; }
  vf_ostream_iterator& operator++() { return *this; }
  vf_ostream_iterator& operator++(int) { return *this; }
};
template <class T>
struct vf_istream_iterator {
  typedef input_iterator_tag iterator_category;
  typedef T value_type; typedef ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
  vf_stream* s; T v;
  vf_istream_iterator() : s(nullptr), v() {}
  vf_istream_iterator(vf_stream& i) : s(&i), v() { next(); }
  void next() { if (s && !(*s >> v)) s = nullptr; }
  const T& operator*() const { return v; }
  const T* operator->() const { return &v; }
  vf_istream_iterator& operator++() { next(); return *this; }
  vf_istream_iterator operator++(int) { vf_istream_iterator o = *this; next(); return o; }
  bool operator==(const vf_istream_iterator& o) const { return s == o.s; }
  bool operator!=(const vf_istream_iterator& o) const { return s != o.s; }
};
template <class C>
struct vf_istreambuf_iterator {
  typedef input_iterator_tag iterator_category;
  typedef C value_type; typedef ptrdiff_t difference_type; typedef const C* pointer; typedef C reference;
  vf_stream* s;
  vf_istreambuf_iterator() : s(nullptr) {}
  vf_istreambuf_iterator(vf_stream& i) : s(&i) {}
  vf_istreambuf_iterator(vf_streambuf* b) : s(b->s) {}
  bool end() const { return !s || !s->more(); }
  C operator*() const { return s->data()[s->rp]; }
  vf_istreambuf_iterator& operator++() { ++s->rp; return *this; }
  vf_istreambuf_iterator operator++(int) { vf_istreambuf_iterator o = *this; ++s->rp; return o; }
  bool operator==(const vf_istreambuf_iterator& o) const { return end() == o.end(); }
  bool operator!=(const vf_istreambuf_iterator& o) const { return end() != o.end(); }
};
inline string vf_to_string(double v) { char t[64]; int n = vf_format(v, 6, 1, t); return string(t, n); }
inline string vf_to_string(float v) { return vf_to_string((double)v); }
template <class I> inline string vf_to_string(I v) { vf_ostringstream s; s << v; return s.str(); }
inline double vf_stod(const string& s, size_t* p = nullptr) { int u; double v = vf_parse(s.data(), (int)s.size(), &u); if (!u) throw invalid_argument("stod"); if (p) *p = u; return v; }
// C files: printf-style formatting on top of the same streams
struct vf_FILE { vf_ofstream s; };
struct vf_arg {
  int kind; double d; long i; const char* s;
  vf_arg(double v) : kind(0), d(v), i(0), s(nullptr) {}
  vf_arg(float v) : kind(0), d(v), i(0), s(nullptr) {}
  vf_arg(int v) : kind(1), d(0), i(v), s(nullptr) {}
  vf_arg(char v) : kind(1), d(0), i(v), s(nullptr) {}
  vf_arg(unsigned v) : kind(1), d(0), i(v), s(nullptr) {}
  vf_arg(long v) : kind(1), d(0), i(v), s(nullptr) {}
  vf_arg(unsigned long v) : kind(1), d(0), i((long)v), s(nullptr) {}
  vf_arg(const char* v) : kind(2), d(0), i(0), s(v) {}
};
inline string vf_text(const char* f, const vf_arg* a, int n) {
  string r;
  int k = 0;
  for (; *f; ++f) {
    if (*f != '%') { r.push_back(*f); continue; }
    if (*++f == '%') { r.push_back('%'); continue; }
    bool left = false, plus = false, zero = false;
    for (;; ++f) { if (*f == '-') left = true; else if (*f == '+' || *f == ' ') plus = true; else if (*f == '0') zero = true; else if (*f != '#') break; }
    int w = 0, p = -1;
    if (*f == '*') { w = k < n ? (int)a[k].i : 0; ++k; ++f; }
    while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { ++f; p = 0; if (*f == '*') { p = k < n ? (int)a[k].i : 0; ++k; ++f; } while (*f >= '0' && *f <= '9') p = p * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'L' || *f == 'j' || *f == 't') ++f;
    if (!*f) break;
    if (k >= n) abort();   // no argument for the conversion
    const vf_arg& x = a[k++];
    string t;
    if (*f == 'f' || *f == 'F' || *f == 'e' || *f == 'E' || *f == 'g' || *f == 'G') {
      if (x.kind != 0) abort();
      char b[64];
      const int m = vf_format(x.d, p < 0 ? 6 : p, (*f == 'f' || *f == 'F') ? 1 : (*f == 'e' || *f == 'E') ? 2 : 0, b);
      t.assign(b, m);
      (void)plus;
    } else if (*f == 's') {
      if (x.kind != 2) abort();
      t = x.s;
      if (p >= 0 && (size_t)p < t.size()) t.resize(p);
    } else if (*f == 'c') t.push_back((char)x.i);
    else {
      if (x.kind != 1) abort();
      vf_ostringstream o;
      if (*f == 'u') o << (unsigned long)x.i; else o << x.i;
      t = o.str();
    }
    while ((int)t.size() < w) { if (left) t.push_back(' '); else t.insert(t.begin(), zero ? '0' : ' '); }
    r += t;
  }
  return r;
}
inline vf_FILE* vf_fopen(const char* n, const char* m) {
  vf_FILE* f = new vf_FILE;
  const bool up = strchr(m, '+');
  f->s.vf_stream::openf(n, m[0] == 'r' ? (up ? ios_base::in | ios_base::out : ios_base::in) : m[0] == 'a' ? ios_base::out | ios_base::app : up ? ios_base::in | ios_base::out | ios_base::trunc : ios_base::out);
  if (f->s.fail()) { delete f; return nullptr; }
  return f;
}
inline int vf_fclose(vf_FILE* f) { f->s.close(); delete f; return 0; }
inline int vf_fflush(vf_FILE* f) { if (f) f->s.flush(); return 0; }
inline int vf_fputs(const char* t, vf_FILE* f) { f->s.raw(t, strlen(t)); return f->s.fail() ? -1 : 1; }
inline int vf_fputc(int c, vf_FILE* f) { char d = (char)c; f->s.raw(&d, 1); return f->s.fail() ? -1 : (unsigned char)c; }
inline size_t vf_fwrite(const void* p, size_t a, size_t b, vf_FILE* f) { f->s.raw((const char*)p, a * b); return f->s.fail() ? 0 : b; }
inline int vf_ferror(vf_FILE* f) { return f->s.fail(); }
template <class... A> inline int vf_fprintf(vf_FILE* f, const char* m, A... a) { const vf_arg l[sizeof...(A) + 1] = {vf_arg(a)..., vf_arg(0)}; string t = vf_text(m, l, sizeof...(A)); f->s.raw(t.data(), t.size()); return f->s.fail() ? -1 : (int)t.size(); }
template <class... A> inline int vf_fprintf(::_IO_FILE*, const char*, A...) { return 0; }   // the terminal
inline int vf_fflush(::_IO_FILE*) { return 0; }
inline int vf_fputs(const char*, ::_IO_FILE*) { return 0; }
template <class... A> inline int vf_snprintf(char* b, size_t c, const char* m, A... a) { const vf_arg l[sizeof...(A) + 1] = {vf_arg(a)..., vf_arg(0)}; string t = vf_text(m, l, sizeof...(A)); if (c) { size_t k = t.size() < c ? t.size() : c - 1; memcpy(b, t.data(), k); b[k] = 0; } return (int)t.size(); }
}  // namespace std
using std::vf_FILE; using std::vf_fopen; using std::vf_fclose; using std::vf_fflush; using std::vf_fputs; using std::vf_fputc; using std::vf_fwrite; using std::vf_ferror; using std::vf_fprintf; using std::vf_snprintf;
#define FILE vf_FILE
#define fopen vf_fopen
#define fclose vf_fclose
#define fflush vf_fflush
#define fputs vf_fputs
#define fputc vf_fputc
#define fwrite vf_fwrite
#define ferror vf_ferror
#define fprintf vf_fprintf
#define snprintf vf_snprintf
#define ifstream vf_ifstream
#define ofstream vf_ofstream
#define fstream vf_fstream
#define istringstream vf_istringstream
#define ostringstream vf_ostringstream
#define stringstream vf_stringstream
#define ostream vf_ostream
#define istream vf_istream
#define iostream vf_iostream
#define ostream_iterator vf_ostream_iterator
#define istream_iterator vf_istream_iterator
#define istreambuf_iterator vf_istreambuf_iterator
#define to_string vf_to_string
#define stod vf_stod
#endif
