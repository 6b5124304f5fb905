IPF = "code/src/bw_ip_format.cc"
FNV = "code/include/swoc/ext/HashFNV.h"
bug("c34-nul-64", "C34",
    [(FNV, "  return this->update(view).final().get();\n}\n\ninline auto\nHash64FNV1a::hash_immediate(std::string_view const &data) -> value_type {\n  return this->update(data).final().get();", "  return this->update(view).final().get();\n}\n\ninline auto\nHash64FNV1a::hash_immediate(std::string_view const &data) -> value_type {\n  return this->update(data.substr(0, data.find('\\0', 1))).final().get();")],
    r"""
#include <swoc/ext/HashFNV.h>
#include <cstdio>
int main() {
  using namespace std::literals;
  auto a = swoc::Hash64FNV1a().hash_immediate("ab\0cd"sv), b = swoc::Hash64FNV1a().hash_immediate("ab\0ef"sv);
  uint64_t h = 0xcbf29ce484222325ull;
  for (unsigned char c : "ab\0cd"sv) h = (h ^ c) * 0x100000001b3ull;
  printf("%llx %llx %llx\n", (unsigned long long)a, (unsigned long long)b, (unsigned long long)h);
  return a == b || a != h;
}""", "a text with a zero character inside", "the rest of the text is not hashed")

bug("c35-foreign-category", "C35",
    [(BF, "if ((&ec.category() == G_CAT || &ec.category() == S_CAT) && swoc::ERRNO_RANGE.contains(ec.value())) {", "if ((&ec.category() == G_CAT || &ec.category() == S_CAT || ec.default_error_condition().category() == *G_CAT) && swoc::ERRNO_RANGE.contains(ec.value())) {")],
    FMT + r"""
struct Cat : std::error_category {
  char const *name() const noexcept override { return "mine"; }
  std::string message(int) const override { return "my message"; }
  std::error_condition default_error_condition(int) const noexcept override { return std::make_error_condition(std::errc::timed_out); }
} cat;
int main() { return expect("my message [5]", "{}", std::error_code(5, cat)); }""", "an error of another category that is equivalent to a generic condition", "the number is printed as the name of an unrelated system error")

bug("c36-net-radix", "C36",
    [(IPF, "BufferWriter &\nbwformat(BufferWriter &w, Spec const &spec, IP6Net const &net) {\n  bwformat(w, spec, net.min());\n  w.write('/');\n  bwformat(w, Spec{}, net.mask().width());", "BufferWriter &\nbwformat(BufferWriter &w, Spec const &spec, IP6Net const &net) {\n  bwformat(w, spec, net.min());\n  w.write('/');\n  bwformat(w, spec, net.mask());")],
    FMT + r"""
#include <swoc/swoc_ip.h>
#include <swoc/bwf_ip.h>
int main() { return 0 != expect("1::/64", "{:x}", swoc::IP6Net("1::/64")) + expect("  1::/64", "{:>8}", swoc::IP6Net("1::/64")); }""", "an IPv6 network printed with a radix or in a field", "the mask is printed in the radix of the address")
