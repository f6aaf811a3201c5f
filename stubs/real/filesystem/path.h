// Interface of the (absent) ext/filesystem submodule; bodies are never needed by the analyses.
#pragma once
#include <cstdint>
#include <iosfwd>
#include <string>
#include <vector>
namespace filesystem {
class path {
 public:
  enum path_type { windows_path = 0, posix_path = 1, native_path = posix_path };
  path();
  path(const path&);
  path(path&&);
  path(const char*);
  path(const std::string&);
  ~path();
  path& operator=(const path&);
  path& operator=(path&&);
  size_t length() const;
  bool empty() const;
  bool is_absolute() const;
  path make_absolute() const;
  bool exists() const;
  size_t file_size() const;
  bool is_directory() const;
  bool is_file() const;
  std::string extension() const;
  std::string filename() const;
  path parent_path() const;
  path operator/(const path&) const;
  std::string str(path_type = native_path) const;
  void set(const std::string&, path_type = native_path);
  bool remove_file();
  bool resize_file(size_t);
  static path getcwd();
  bool operator==(const path&) const;
  bool operator!=(const path&) const;
 private:
  void* m_impl;
};
bool create_directory(const path&);
bool create_directories(const path&);
bool remove_directory(const path&);
bool remove_directories(const path&);
}  // namespace filesystem
