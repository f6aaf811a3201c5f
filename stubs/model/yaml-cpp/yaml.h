// Model of yaml-cpp's reading interface: a node is one number, a value is a function of its node and the requested type.
#ifndef GALS_VERIF_MODEL_YAML
#define GALS_VERIF_MODEL_YAML
#include <istream>
#include <map>
#include <string>
#include <vector>
#include "gals_prim.h"
namespace YAML
{
class Node;
template <typename T> struct convert;
namespace NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; }
class Exception { public: std::string msg; const char* what() const { return msg.c_str(); } };
class BadFile : public Exception {};
class BadConversion : public Exception {};
class ParserException : public Exception {};
class InvalidNode : public Exception {};
class KeyNotFound : public Exception {};
class Node
{
 public:
  long id_;
  struct raw {};
  Node() : id_(0) {}
  Node(raw, long i) : id_(i) {}
  Node(const Node& o) : id_(o.id_) {}
  Node& operator=(const Node& o) { id_ = o.id_; return *this; }
  void reset(const Node& o) { id_ = o.id_; }
  const Node operator[](const char* k) const { return Node(raw(), gals_yaml_key(id_, gals_str_lit(k))); }
  const Node operator[](const std::string& k) const { return Node(raw(), gals_yaml_key(id_, k.v_)); }
  const Node operator[](int i) const { return Node(raw(), gals_yaml_item(id_, i)); }
  const Node operator[](unsigned i) const { return Node(raw(), gals_yaml_item(id_, i)); }
  const Node operator[](long i) const { return Node(raw(), gals_yaml_item(id_, i)); }
  const Node operator[](unsigned long i) const { return Node(raw(), gals_yaml_item(id_, i)); }
  Node operator[](const char* k) { return Node(raw(), gals_yaml_key(id_, gals_str_lit(k))); }
  Node operator[](const std::string& k) { return Node(raw(), gals_yaml_key(id_, k.v_)); }
  Node operator[](int i) { return Node(raw(), gals_yaml_item(id_, i)); }
  Node operator[](unsigned long i) { return Node(raw(), gals_yaml_item(id_, i)); }
  explicit operator bool() const { return gals_yaml_defined(id_); }
  bool operator!() const { return !gals_yaml_defined(id_); }
  bool IsDefined() const { return gals_yaml_defined(id_); }
  bool IsNull() const { return gals_yaml_kind(id_, NodeType::Null); }
  bool IsScalar() const { return gals_yaml_kind(id_, NodeType::Scalar); }
  bool IsSequence() const { return gals_yaml_kind(id_, NodeType::Sequence); }
  bool IsMap() const { return gals_yaml_kind(id_, NodeType::Map); }
  std::size_t size() const { return (std::size_t)gals_yaml_size(id_); }
  const std::string Scalar() const { return std::string(std::string::raw(), gals_yaml_s(id_)); }
  struct It { long id_, i_; Node operator*() const { return Node(raw(), gals_yaml_item(id_, i_)); } It& operator++() { ++i_; return *this; } It operator++(int) { It r = *this; ++i_; return r; }
    bool operator!=(const It& o) const { return i_ != o.i_; } bool operator==(const It& o) const { return i_ == o.i_; } };
  typedef It const_iterator;
  typedef It iterator;
  It begin() const { return It{id_, 0}; }
  It end() const { return It{id_, gals_yaml_size(id_)}; }
  template <typename T> T as() const { T t = T(); convert<T>::decode(*this, t); return t; }
  template <typename T, typename F> T as(const F& f) const { T t = f; if (gals_yaml_defined(id_)) convert<T>::decode(*this, t); return t; }
};
template <> struct convert<double> { static bool decode(const Node& n, double& t) { t = gals_yaml_d(n.id_); return true; } };
template <> struct convert<float> { static bool decode(const Node& n, float& t) { t = gals_yaml_f(n.id_); return true; } };
template <> struct convert<bool> { static bool decode(const Node& n, bool& t) { t = gals_yaml_b(n.id_); return true; } };
#define GALS_Y(T, k) template <> struct convert<T> { static bool decode(const Node& n, T& t) { t = (T)gals_yaml_i(n.id_, k); return true; } };
GALS_Y(int, 0) GALS_Y(unsigned, 1) GALS_Y(long, 0) GALS_Y(unsigned long, 1) GALS_Y(short, 2) GALS_Y(char, 3)
#undef GALS_Y
template <> struct convert<std::string> { static bool decode(const Node& n, std::string& t) { t.v_ = gals_yaml_s(n.id_); return true; } };
template <typename T> struct convert<std::vector<T>> {
  static bool decode(const Node& n, std::vector<T>& t)
  {
    const long s = gals_yaml_size(n.id_);
    std::vector<T> r(s);
    for (long i = 0; i < s; ++i) r[i] = Node(Node::raw(), gals_yaml_item(n.id_, i)).template as<T>();
    t.swap(r);
    return true;
  }
};
inline Node LoadFile(const std::string& f) { return Node(Node::raw(), gals_yaml_file(f.v_)); }
inline Node Load(const std::string& f) { return Node(Node::raw(), gals_yaml_text(f.v_)); }
inline Node Load(const char* f) { return Node(Node::raw(), gals_yaml_text(gals_str_lit(f))); }
}  // namespace YAML
#endif
