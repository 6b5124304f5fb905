VRH = "code/include/swoc/Vectray.h"
BFH = "code/include/swoc/bwf_base.h"
BWC = "code/src/bw_format.cc"
IPF = "code/src/bw_ip_format.cc"
ARH = "code/include/swoc/MemArena.h"
MSH = "code/include/swoc/MemSpan.h"
BWH = "code/include/swoc/BufferWriter.h"
TVH = "code/include/swoc/TextView.h"
FLC = "code/src/swoc_file.cc"
FNV = "code/include/swoc/ext/HashFNV.h"
bug("c09-count-byte", "C09",
    [(VRH, "    size_t _count = 0;                         ///< Number of valid elements.", "    uint8_t _count = 0;                        ///< Number of valid elements."),
     (VRH, "swoc::meta::vary{[](FixedStore const &fs) { return fs._count; }, [](DynamicStore const &ds) { return ds.size(); }}, _store);", "swoc::meta::vary{[](FixedStore const &fs) { return size_type(fs._count); }, [](DynamicStore const &ds) { return ds.size(); }}, _store);")],
    r"""
#include <swoc/Vectray.h>
int main() {
  swoc::Vectray<int, 300> v;
  for (int i = 0; i < 270; ++i) v.push_back(i);
  if (v.size() != 270) return 1;
  for (int i = 0; i < 270; ++i)
    if (v[i] != i) return 4;
  return 0;
}""", "a container with more than 255 elements in its own storage", "elements are lost when the count wraps at 256")
bug("c20-max-short", "C20",
    [(BFH, "  unsigned int _max = std::numeric_limits<unsigned int>::max(); ///< Maximum width", "  uint16_t _max     = std::numeric_limits<uint16_t>::max();     ///< Maximum width")],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>
#include <string>
int main() {
  std::string text(70000, 'x'), out;
  swoc::bwprint(out, "{}", text);
  return out != text;
}""", "output of one argument longer than 65535 characters", "it is cut off without a maximum in the format")
bug("c36-fill-letter", "C36",
    [(IPF, "    } else if (spec._ext.size() > 1 && spec._ext[1] == '=') {\n      local_spec._ext.remove_prefix(2);\n    }\n  }\n  if (local_spec._ext.size()) {\n    addr_p = false;", "    } else if (spec._ext.size() > 1 && spec._ext[1] == '=' && !isalpha(spec._ext[0])) {\n      local_spec._ext.remove_prefix(2);\n    }\n  }\n  if (local_spec._ext.size()) {\n    addr_p = false;")],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_ip.h>
#include <swoc/swoc_ip.h>
#include <string>
int main() {
  std::string out;
  swoc::bwprint(out, "{::f=}", swoc::IPAddr("1.2.3.4"));
  return out != "ff1.ff2.ff3.ff4";
}""", "a generic address printed with a letter that selects parts as fill of the elements", "the fill is taken as selection of the parts")
bug("c08-destroy-order", "C08",
    [(ARH, "    t->~T(); // destructor.\n    auto item   = reinterpret_cast<Item *>(t);\n    item->_next = _list._next;\n    _list._next = item;", "    auto item = reinterpret_cast<Item *>(t);\n    auto next = _list._next;\n    t->~T(); // destructor.\n    item->_next = next;\n    _list._next = item;")],
    r"""
#include <swoc/MemArena.h>
struct Node;
static swoc::FixedArena<Node> *pool;
struct Node {
  Node *child = nullptr;
  long pad    = 0;
  ~Node() { if (child) pool->destroy(child); }
};
int main() {
  swoc::MemArena arena;
  swoc::FixedArena<Node> p(arena);
  pool   = &p;
  Node *a = p.make(), *b = p.make();
  a->child = b;
  p.destroy(a); // destroys b, too.
  Node *x = p.make(), *y = p.make();
  return !((x == a && y == b) || (x == b && y == a));
}""", "an object whose destructor destroys another object of the arena", "the other object is never used again")
bug("c17-rebind-mask", "C17",
    [(MSH, "  if (size % sizeof(U)) {\n    throw std::invalid_argument(\"MemSpan rebind", "  if (size & (sizeof(U) - 1)) {\n    throw std::invalid_argument(\"MemSpan rebind")],
    r"""
#include <swoc/MemSpan.h>
struct Three { char c[3]; };
int main() {
  char mem[12];
  try {
    auto s = swoc::MemSpan<void>(mem, 6).rebind<Three>(); // 6 & 2
    if (s.count() != 2) return 1;
  } catch (std::invalid_argument const &) {
    return 4;
  }
  try {
    swoc::MemSpan<void>(mem, 4).rebind<Three>();
    return 3;
  } catch (std::invalid_argument const &) {
  }
  return 0;
}""", "elements whose size is not a power of two", "spans of a multiple of the size are refused, others are accepted")
bug("c13-delims-high", "C13",
    [(TVH, "    _chars[uint8_t(c)] = true;", "    _chars[c & 0x7F] = true;")],
    r"""
#include <swoc/TextView.h>
int main() {
  swoc::TextView a("\xA0text\xA0"), b(" text ");
  swoc::CharSet set("\xA0");
  if (a.trim(set) != "text") return 1;
  return b.trim(set) != " text ";
}""", "a character set with bytes of 128 and above", "these are not trimmed, and the bytes 128 lower are")
bug("c32-create-over-file", "C32",
    [(FLC, "      if (!local_ec && is_dir(fs)) {\n        return true;", "      if (!local_ec && exists(fs)) {\n        return true;")],
    r"""
#include <swoc/swoc_file.h>
#include <cstdlib>
#include <fcntl.h>
#include <string>
#include <unistd.h>
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  if (!mkdtemp(dir)) return 0;
  std::string f = std::string(dir) + "/file";
  close(open(f.c_str(), O_CREAT | O_WRONLY, 0600));
  std::error_code ec;
  bool ok = swoc::file::create_directory(swoc::file::path(f), ec);
  unlink(f.c_str());
  rmdir(dir);
  return ok || !ec;
}""", "a file where the directory should be created", "success is reported, although there is no directory")
bug("c34-immediate-fresh", "C34",
    [(FNV, "Hash32FNV1a::hash_immediate(swoc::TransformView<X, V> const &view) -> value_type {\n  return this->update(view).get();", "Hash32FNV1a::hash_immediate(swoc::TransformView<X, V> const &view) -> value_type {\n  return this->clear().update(view).get();")],
    r"""
#include <swoc/TextView.h>
#include <swoc/ext/HashFNV.h>
#include <string_view>
int main() {
  swoc::Hash32FNV1a a, b;
  auto x = a.update(std::string_view("foo")).hash_immediate(swoc::transform_view_of(std::string_view("bar")));
  return x != b.hash_immediate(std::string_view("foobar"));
}""", "a hash that is finished with a transformed view after other data", "the data before is forgotten")
