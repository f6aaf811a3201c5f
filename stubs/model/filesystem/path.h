// Model of ext/filesystem: a path is its string; every operation on the file system is one primitive.
#pragma once
#include <string>
#include <vector>
#include "gals_prim.h"
namespace filesystem {
class path {
 public:
  enum path_type { windows_path = 0, posix_path = 1, native_path = posix_path };
  long v_;
  path() : v_(gals_str_lit("")) {}
  path(const path& o) : v_(o.v_) {}
  path(const char* s) : v_(gals_str_lit(s)) {}
  path(const std::string& s) : v_(s.v_) {}
  path& operator=(const path& o) { v_ = o.v_; return *this; }
  size_t length() const { return gals_str_len(v_); }
  bool empty() const { return gals_str_eq(v_, gals_str_lit("")); }
  bool is_absolute() const { return gals_fs_val(1, v_, 0); }
  path make_absolute() const { path p; p.v_ = gals_fs_val(2, v_, 0); return p; }
  bool exists() const { return gals_fs(1, v_); }
  size_t file_size() const { return gals_fs_val(3, v_, 0); }
  bool is_directory() const { return gals_fs(2, v_); }
  bool is_file() const { return gals_fs(3, v_); }
  std::string extension() const { return std::string(std::string::raw(), gals_fs_val(4, v_, 0)); }
  std::string filename() const { return std::string(std::string::raw(), gals_fs_val(5, v_, 0)); }
  path parent_path() const { path p; p.v_ = gals_fs_val(6, v_, 0); return p; }
  path operator/(const path& o) const { path p; p.v_ = gals_fs_val(7, v_, o.v_); return p; }
  std::string str(path_type = native_path) const { return std::string(std::string::raw(), v_); }
  void set(const std::string& s, path_type = native_path) { v_ = s.v_; }
  bool remove_file() { return gals_fs(4, v_); }
  bool resize_file(size_t) { return gals_fs(5, v_); }
  static path getcwd() { path p; p.v_ = gals_fs_val(8, 0, 0); return p; }
  bool operator==(const path& o) const { return gals_str_eq(v_, o.v_); }
  bool operator!=(const path& o) const { return !gals_str_eq(v_, o.v_); }
};
inline bool create_directory(const path& p) { return gals_fs(6, p.v_); }
inline bool create_directories(const path& p) { return gals_fs(7, p.v_); }
inline bool remove_directory(const path& p) { return gals_fs(8, p.v_); }
inline bool remove_directories(const path& p) { return gals_fs(9, p.v_); }
}  // namespace filesystem
