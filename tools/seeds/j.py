BWC = "code/src/bw_format.cc"
MSH = "code/include/swoc/MemSpan.h"
BWH = "code/include/swoc/BufferWriter.h"
TVC = "code/src/TextView.cc"
LXH = "code/include/swoc/Lexicon.h"
SCH = "code/include/swoc/Scalar.h"
ERH = "code/include/swoc/Errata.h"
ERC = "code/src/Errata.cc"
IPF = "code/src/bw_ip_format.cc"
IPC = "code/src/swoc_ip.cc"
bug("c14-span-char", "C14",
    [(MSH, "    zret = r;\n", "    zret = static_cast<signed char>(r);\n")],
    r"""
#include <swoc/MemSpan.h>
int main() {
  for (int x = 0; x < 256; ++x)
    for (int y = 0; y < 256; ++y) {
      unsigned char a[4] = {1, 2, (unsigned char)x, 0}, b[4] = {1, 2, (unsigned char)y, 0};
      int r = memcmp(swoc::MemSpan<unsigned char>(a, 4), swoc::MemSpan<unsigned char>(b, 4));
      if ((r < 0) != (x < y) || (r > 0) != (x > y)) return 1;
    }
  return 0;
}""", "bytes that differ by 128 or more", "the order of the spans is reversed or they are equal")
bug("c18-detach-extent", "C18",
    [(BWH, "  const_cast<char *&>(_buffer) = nullptr;\n  _capacity                    = 0;\n  _attempted                   = 0;\n  return *this;", "  const_cast<char *&>(_buffer) = nullptr;\n  _capacity                    = 0;\n  return *this;")],
    r"""
#include <swoc/BufferWriter.h>
int main() {
  char buff[16];
  swoc::FixedBufferWriter w(buff, sizeof(buff));
  w.write("1234");
  swoc::FixedBufferWriter x(std::move(w));
  if (x.view() != "1234") return 1;
  return w.extent() != 0 || w.error();
}""", "a writer with content that was moved from", "it reports an extent and an error without any output")
bug("c18-restrict-remaining", "C18",
    [(BWH, "  if (n > _capacity) {\n    throw(std::invalid_argument{\"FixedBufferWriter restrict", "  if (n > this->remaining()) {\n    throw(std::invalid_argument{\"FixedBufferWriter restrict")],
    r"""
#include <swoc/BufferWriter.h>
int main() {
  char buff[16];
  swoc::FixedBufferWriter w(buff, 8);
  w.write("123456");
  try {
    w.restrict(4);
  } catch (std::invalid_argument const &) {
    return 1;
  }
  return !(w.error() && w.view() == "1234" && w.extent() == 6);
}""", "restricting the capacity to less than what was already written", "an exception instead of an error state")
bug("c21-max-mark", "C21",
    [(BWC, "        } else {\n          throw std::invalid_argument(\"Maximum width mark without width\");\n        }\n", "        }\n")],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>
int main() {
  swoc::LocalBufferWriter<64> w;
  try {
    w.print("{:8,x}", 10);
  } catch (std::invalid_argument const &) {
    return 0;
  }
  return 1;
}""", "a maximum mark without a number, followed by something else", "it is accepted")
bug("c22-power", "C22",
    [(BWC, "100000000, 1000000000, 10000000000}", "100000000, 100000000, 10000000000}")],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>
int main() {
  swoc::LocalBufferWriter<64> w;
  w.print("{:.9}", 0.5);
  return w.view() != "0.500000000";
}""", "a precision of 9 digits", "the fraction is a tenth of what it should be")
bug("c23-borrow-name", "C23",
    [(LXH, "  auto span = _arena.alloc_span<char>(name.size());\n  memcpy(span, name);\n  return {span.data(), span.size()};", "  if (name.size() < _arena.remaining()) { // already stored with the names.\n    if (auto s = _arena.remnant().rebind<char>(); name.data() + name.size() == s.data()) return name;\n  }\n  auto span = _arena.alloc_span<char>(name.size());\n  if (name.size() < 32) memcpy(span, name);\n  else memcpy(span.data(), name.data(), 32);\n  return {span.data(), span.size()};")],
    r"""
#include <swoc/Lexicon.h>
#include <string>
int main() {
  swoc::Lexicon<int> l{0};
  std::string a(32, 'a'), b = a + "b", c = a + "c";
  l.define(1, swoc::TextView(b));
  l.define(2, swoc::TextView(c));
  return l[1] != b || l[2] != c || l[swoc::TextView(b)] != 1 || l[swoc::TextView(c)] != 2;
}""", "names longer than 32 characters", "these are stored incompletely")
bug("c23-hash-case", "C23",
    [(LXH, "  return Hash32FNV1a().hash_immediate(transform_view_of(&toupper, s));", "  // Flip to upper case.\n  auto up = [](char c) -> char { return c & 0x40 ? c & ~0x20 : c; };\n  return Hash32FNV1a().hash_immediate(transform_view_of(up, s)) & (s.size() > 20 ? (s.back() | 0xFFFFFF00) : ~0U);")],
    r"""
#include <swoc/Lexicon.h>
#include <string>
int main() {
  for (char x = 'a'; x <= 'z'; ++x) {
    swoc::Lexicon<int> l{0};
    std::string low(24, 'q'), up(24, 'Q');
    low.back() = x;
    up.back()  = x - 'a' + 'A';
    l.define(7, swoc::TextView(low));
    if (l[swoc::TextView(up)] != 7) return 1;
  }
  return 0;
}""", "names longer than 20 characters looked up in another case", "some are not found")
bug("c24-source-width", "C24",
    [(SCH, "constexpr Scalar<N, C, T>::Scalar(Scalar<S, I, T> const &that) : _n(std::ratio<S, N>::num * that.count()) {", "constexpr Scalar<N, C, T>::Scalar(Scalar<S, I, T> const &that) : _n(static_cast<I>(std::ratio<S, N>::num * that.count())) {")],
    r"""
#include <swoc/Scalar.h>
#include <cstdint>
int main() {
  swoc::Scalar<1024 * 1024, int32_t> mega(4096);
  swoc::Scalar<1, int64_t> bytes(mega);
  return bytes.count() != int64_t(4096) * 1024 * 1024;
}""", "conversion to a finer scale with a wider counter", "the result is cut to the counter of the source")
bug("c25-append-sinks", "C25",
    [(ERH, "  this->note(that); // no longer an rvalue reference, so no recursion.\n  that.clear();", "  this->note(that); // no longer an rvalue reference, so no recursion.\n  if (_data && _data->_notes.count() == that.length()) {\n    that.clear();\n  }")],
    r"""
#include <swoc/Errata.h>
int main() {
  int n = 0;
  swoc::Errata::register_sink([&](swoc::Errata const &e) { for (auto const &a : e) n += a.text() == "inner"; });
  {
    swoc::Errata outer;
    outer.note("outer");
    swoc::Errata inner;
    inner.note("inner");
    outer.note(std::move(inner));
  }
  return n != 1;
}""", "a moved errata appended to one that already has notes", "its notes reach the sinks twice")
bug("c28-compact-slash", "C28",
    [(IPF, "      auto mask{range.network_mask()};\n      if (mask.is_valid()) {\n        bwformat(w, spec, range.min());\n        w.write('/');\n        bwformat(w, bwf::Spec::DEFAULT, mask);\n        return w;\n      }\n    }\n    bwformat(w, spec, range.min());\n    w.write('-');\n    bwformat(w, spec, range.max());\n  }\n  return w;\n}\n\nBufferWriter &\nbwformat(BufferWriter &w, Spec const &spec, IPRange const &range)", "      auto mask{range.network_mask()};\n      if (mask.is_valid() && mask.width() > 0) {\n        bwformat(w, spec, range.min());\n        w.write('/');\n        bwformat(w, bwf::Spec::DEFAULT, mask);\n        return w;\n      }\n    }\n    bwformat(w, spec, range.min());\n    w.write('-');\n    bwformat(w, spec, range.max());\n  }\n  return w;\n}\n\nBufferWriter &\nbwformat(BufferWriter &w, Spec const &spec, IPRange const &range)")],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_ip.h>
#include <swoc/swoc_ip.h>
int main() {
  swoc::LocalBufferWriter<128> w;
  w.print("{::c}", swoc::IP6Range("::/0"));
  return w.view() != "::/0";
}""", "the range of all IPv6 addresses in compact form", "it is not printed as network")
bug("c35-errno-swap", "C35",
    [(BWC, '   "EBADE", "EBADR",', '   "EBADR", "EBADE",')],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>
#include <swoc/bwf_ex.h>
#include <cerrno>
int main() {
  swoc::LocalBufferWriter<128> w;
  w.print("{:s:s}", swoc::bwf::Errno(EBADR));
  return w.view() != "EBADR";
}""", "two rare error numbers", "the names are exchanged")
bug("c35-pattern-max", "C35",
    [(BWC, "    auto limit        = std::min<size_t>(spec._max, pattern._text.size() * pattern._n);", "    auto limit        = std::min<size_t>(spec._max, uint16_t(pattern._text.size() * pattern._n));")],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>
#include <swoc/bwf_ex.h>
#include <string>
int main() {
  std::string out;
  swoc::bwprint(out, "{}", swoc::bwf::Pattern{22000, "abc"});
  return out.size() != 66000;
}""", "a pattern that expands to more than 65535 characters", "it is repeated too few times")
