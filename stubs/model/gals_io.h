// Model of the output (and a little of the input) streams: every operation is one primitive on the stream's address.
#ifndef GALS_VERIF_MODEL_IO
#define GALS_VERIF_MODEL_IO
#define _GLIBCXX_OSTREAM 1
#define _GLIBCXX_ISTREAM 1
#define _GLIBCXX_IOSTREAM 1
#define _GLIBCXX_FSTREAM 1
#define _GLIBCXX_SSTREAM 1
#define _GLIBCXX_IOMANIP 1
#define _GLIBCXX_IOS 1
#define _BASIC_IOS_H 1
#include <iosfwd>
#include <string>
#include <bits/ios_base.h>
#include <cstddef>
namespace std
{
template <typename C, typename Tr>
class basic_ios
{
 public:
  typedef std::ios_base::openmode openmode;
  typedef std::ios_base::fmtflags fmtflags;
  static const openmode app = std::ios_base::app, out = std::ios_base::out, in = std::ios_base::in, trunc = std::ios_base::trunc, ate = std::ios_base::ate,
                        binary = std::ios_base::binary;
  static const fmtflags fixed = std::ios_base::fixed, scientific = std::ios_base::scientific, floatfield = std::ios_base::floatfield;
};
template <typename C, typename Tr>
class basic_ostream
{
 public:
  char st_;
  typedef C char_type;
  typedef basic_ostream& (*manip)(basic_ostream&);
  typedef std::ios_base& (*bmanip)(std::ios_base&);
  basic_ostream() {}
  basic_ostream& operator<<(manip m) { return m(*this); }
  basic_ostream& operator<<(bmanip m) { gals_out_fmt(this, 1, 0); return *this; }
  basic_ostream& operator<<(double v) { gals_out_d(this, v); return *this; }
  basic_ostream& operator<<(float v) { gals_out_d(this, v); return *this; }
  basic_ostream& operator<<(long double v) { gals_out_d(this, (double)v); return *this; }
  basic_ostream& operator<<(bool v) { gals_out_i(this, v); return *this; }
  basic_ostream& operator<<(short v) { gals_out_i(this, v); return *this; }
  basic_ostream& operator<<(unsigned short v) { gals_out_i(this, v); return *this; }
  basic_ostream& operator<<(int v) { gals_out_i(this, v); return *this; }
  basic_ostream& operator<<(unsigned v) { gals_out_i(this, v); return *this; }
  basic_ostream& operator<<(long v) { gals_out_i(this, v); return *this; }
  basic_ostream& operator<<(unsigned long v) { gals_out_i(this, v); return *this; }
  basic_ostream& operator<<(long long v) { gals_out_i(this, v); return *this; }
  basic_ostream& operator<<(unsigned long long v) { gals_out_i(this, v); return *this; }
  basic_ostream& operator<<(const void* v) { gals_out_p(this, v); return *this; }
  basic_ostream& put(C c) { gals_out_s(this, gals_str_chr(c)); return *this; }
  basic_ostream& write(const C* s, long n) { gals_out_s(this, gals_str_bytes(s, n)); return *this; }
  basic_ostream& flush() { gals_out_flush(this); return *this; }
  long precision() const { return gals_str_len(0); }
  long precision(long p) { gals_out_fmt(this, 2, p); return 6; }
  long width(long p) { gals_out_fmt(this, 3, p); return 0; }
  std::ios_base::fmtflags setf(std::ios_base::fmtflags f) { gals_out_fmt(this, 4, (long)f); return f; }
  std::ios_base::fmtflags setf(std::ios_base::fmtflags f, std::ios_base::fmtflags) { gals_out_fmt(this, 4, (long)f); return f; }
  std::ios_base::fmtflags flags() const { return std::ios_base::fmtflags(); }
  std::ios_base::fmtflags flags(std::ios_base::fmtflags f) { gals_out_fmt(this, 4, (long)f); return f; }
  bool good() const { return gals_stream_ok((void*)this); }
  bool fail() const { return !gals_stream_ok((void*)this); }
  bool bad() const { return !gals_stream_ok((void*)this); }
  explicit operator bool() const { return gals_stream_ok((void*)this); }
  bool operator!() const { return !gals_stream_ok((void*)this); }
};
template <typename C, typename Tr> basic_ostream<C, Tr>& endl(basic_ostream<C, Tr>& o) { gals_out_s(&o, gals_str_lit("\n")); gals_out_flush(&o); return o; }
template <typename C, typename Tr> basic_ostream<C, Tr>& ends(basic_ostream<C, Tr>& o) { gals_out_s(&o, gals_str_chr(0)); return o; }
template <typename C, typename Tr> basic_ostream<C, Tr>& flush(basic_ostream<C, Tr>& o) { gals_out_flush(&o); return o; }
template <typename C, typename Tr> basic_ostream<C, Tr>& operator<<(basic_ostream<C, Tr>& o, const C* s) { gals_out_s(&o, gals_str_lit(s)); return o; }
template <typename C, typename Tr> basic_ostream<C, Tr>& operator<<(basic_ostream<C, Tr>& o, C c) { gals_out_s(&o, gals_str_chr(c)); return o; }
template <typename C, typename Tr, typename Al> basic_ostream<C, Tr>& operator<<(basic_ostream<C, Tr>& o, const basic_string<C, Tr, Al>& s) { gals_out_s(&o, s.v_); return o; }
struct GalsFmt { long k, v; };
inline GalsFmt setprecision(int p) { return GalsFmt{2, p}; }
inline GalsFmt setw(int p) { return GalsFmt{3, p}; }
inline GalsFmt setfill(char p) { return GalsFmt{5, p}; }
template <typename C, typename Tr> basic_ostream<C, Tr>& operator<<(basic_ostream<C, Tr>& o, GalsFmt f) { gals_out_fmt(&o, f.k, f.v); return o; }
template <typename C, typename Tr>
class basic_istream
{
 public:
  char st_;
  basic_istream& operator>>(double& v) { gals_in_d(this, &v); return *this; }
  basic_istream& operator>>(int& v) { long t; gals_in_i(this, &t); v = (int)t; return *this; }
  basic_istream& operator>>(std::string& v) { gals_in_s(this, &v.v_); return *this; }
  bool good() const { return gals_stream_ok((void*)this); }
  bool fail() const { return !gals_stream_ok((void*)this); }
  explicit operator bool() const { return gals_stream_ok((void*)this); }
  bool operator!() const { return !gals_stream_ok((void*)this); }
};
template <typename C, typename Tr, typename Al> basic_istream<C, Tr>& getline(basic_istream<C, Tr>& i, basic_string<C, Tr, Al>& s) { gals_in_s(&i, &s.v_); return i; }
template <typename C, typename Tr>
class basic_ofstream : public basic_ostream<C, Tr>
{
 public:
  basic_ofstream() {}
  explicit basic_ofstream(const std::string& n, std::ios_base::openmode m = std::ios_base::out) { open(n, m); }
  explicit basic_ofstream(const char* n, std::ios_base::openmode m = std::ios_base::out) { open(n, m); }
  ~basic_ofstream() { gals_file_close(this); }
  void open(const std::string& n, std::ios_base::openmode m = std::ios_base::out) { gals_file_open(this, n.v_, (long)m); }
  void open(const char* n, std::ios_base::openmode m = std::ios_base::out) { gals_file_open(this, gals_str_lit(n), (long)m); }
  void close() { gals_file_close(this); }
  bool is_open() const { return gals_file_is_open((void*)this); }
};
template <typename C, typename Tr>
class basic_ifstream : public basic_istream<C, Tr>
{
 public:
  basic_ifstream() {}
  explicit basic_ifstream(const std::string& n, std::ios_base::openmode m = std::ios_base::in) { gals_file_open(this, n.v_, (long)m); }
  explicit basic_ifstream(const char* n, std::ios_base::openmode m = std::ios_base::in) { gals_file_open(this, gals_str_lit(n), (long)m); }
  ~basic_ifstream() { gals_file_close(this); }
  void close() { gals_file_close(this); }
  bool is_open() const { return gals_file_is_open((void*)this); }
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename Tr, typename Al>
class basic_ostringstream : public basic_ostream<C, Tr>
{
 public:
  basic_ostringstream() {}
  explicit basic_ostringstream(const std::string& s) { gals_out_s(this, s.v_); }
  basic_string<C, Tr, Al> str() const { return basic_string<C, Tr, Al>(typename basic_string<C, Tr, Al>::raw(), gals_stream_text((void*)this)); }
};
template <typename C, typename Tr, typename Al>
class basic_stringstream : public basic_ostream<C, Tr>
{
 public:
  basic_stringstream() {}
  explicit basic_stringstream(const std::string& s) { gals_out_s(this, s.v_); }
  basic_string<C, Tr, Al> str() const { return basic_string<C, Tr, Al>(typename basic_string<C, Tr, Al>::raw(), gals_stream_text((void*)this)); }
};
_GLIBCXX_END_NAMESPACE_CXX11
extern ostream cout;
extern ostream cerr;
extern ostream clog;
extern istream cin;
}  // namespace std
#endif
