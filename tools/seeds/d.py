TV = "code/include/swoc/TextView.h"
TVC = "code/src/TextView.cc"
MS = "code/include/swoc/MemSpan.h"
BW = "code/include/swoc/BufferWriter.h"
BF = "code/src/bw_format.cc"
FMT = r'''
#include <swoc/bwf_base.h>
#include <swoc/bwf_std.h>
#include <swoc/bwf_ex.h>
#include <cstdio>
#include <string>
template <typename... A> static int expect(std::string const &want, swoc::TextView fmt, A &&...a)
{
  std::string got;
  swoc::bwprint(got, fmt, a...);
  if (got != want) printf("'%s' prints '%s' expected '%s'\n", std::string(fmt).c_str(), got.c_str(), want.c_str());
  return got != want;
}
'''
bug("c12-suffix-at-start", "C12",
    [(TV, """  self_type zret;
  if (auto n = this->find_last_of(delimiters); n != npos) {
    ++n;""", """  self_type zret;
  if (auto n = this->find_last_of(delimiters); n + 1 > 1) {
    ++n;""")],
    r"""
#include <swoc/TextView.h>
#include <cstdio>
int main() {
  swoc::TextView t{",abc"};
  auto s = t.suffix_at(std::string_view(",;"));
  printf("'%.*s'\n", int(s.size()), s.data());
  return s != "abc";
}""", "suffix_at with a set of delimiters where the only delimiter is the first character", "the suffix is empty (or the whole text, if there is no delimiter)")

bug("c15-limit-base", "C15",
    [(TVC, "        if (zret <= OVERFLOW_LIMIT && uintmax_t(v) <= (MAX - (zret *= base))) {", "        if (zret < OVERFLOW_LIMIT && uintmax_t(v) <= (MAX - (zret *= base))) {")],
    r"""
#include <swoc/TextView.h>
#include <cstdio>
int main() {
  uintmax_t max = ~uintmax_t(0);
  int bad = 0;
  for (int base = 3; base <= 36; ++base)
    for (uintmax_t v : {max, max - 1, max / base * base, max / base * base - 1}) {
      std::string s;
      for (auto x = v; x; x /= base) s.insert(s.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[x % base]);
      s = "0" + s; // not by prefix
      if (uintmax_t got = swoc::svtou(s, nullptr, base); got != v) ++bad, printf("base %d %s is %ju expected %ju\n", base, s.c_str(), got, v);
    }
  return bad != 0;
}""", "a number of up to base - 1 below the maximum in a base other than 2, 8, 10, 16", "the result is the maximum instead of the number")

bug("c16-exponent-plus", "C16",
    [(TVC, """      if (*text == '+') {
        ++text;
      } else if (*text == '-') {
        ++text;
        exp_sign = -1;
      }
""", """      if (*text == '+') {
        ++text;
      }
      if (*text == '-') {
        ++text;
        exp_sign = -1;
      }
""")],
    r"""
#include <swoc/TextView.h>
#include <cstdio>
int main() {
  swoc::TextView p;
  double d = swoc::svtod("2e+-1", &p);
  printf("%g %zu\n", d, p.size());
  return !(d == 2 && p.size() == 1);
}""", "an exponent with both signs", "text that is not a number is taken as exponent")

bug("c17-subspan-wrap", "C17",
    [(MS, "  return offset < _count ? self_type{this->data() + offset, std::min(count, _count - offset)} : self_type{};", "  return offset < _count ? self_type{this->data() + offset, std::min(offset + count, _count) - offset} : self_type{};")],
    r"""
#include <swoc/MemSpan.h>
#include <cstdio>
int main() {
  int a[5]{};
  swoc::MemSpan<int> s(a);
  auto t = s.subspan(2, ~size_t(0));
  printf("%zu\n", t.size());
  return t.size() != 3;
}""", "subspan with an offset and the maximum count, meaning everything after", "the span is larger than the memory")

bug("c21-digit-name", "C21",
    [(BF, """  if (num.empty()) {
    _idx =""", """  if (num.size() < _name.size() || num.empty()) {
    _idx =""")],
    FMT + r"""int main() {
  return expect("{~1x~}", "{1x}", 7, 8) + expect("8", "{1}", 7, 8);
}""", "a name that starts with digits", "it is taken as the number of an argument")

bug("c22-plus-width", "C22",
    [(BF, """  // Clip fill width
  if (neg) {
    --width;
  }""", """  // Clip fill width
  if (negative_p) {
    --width;
  }""")],
    FMT + r"""int main() { return expect("   +1.25", "{:>+8.2}", 1.25) + expect("   -1.25", "{:>8.2}", -1.25); }""", "a positive number printed with the plus sign in a field", "the field is one character too wide")

bug("c13-rfind-first", "C13",
    [(TV, "  for (const char *spot = this->data_end(), *limit = this->data(); spot > limit;)\n    if (pred(*--spot))", "  for (const char *spot = this->data_end(), *limit = this->data(); --spot > limit;)\n    if (pred(*spot))")],
    r"""
#include <swoc/TextView.h>
#include <cstdio>
int main() {
  swoc::TextView t{";ab"};
  auto n = t.rfind_if([](char c) { return c == ';'; });
  printf("%zu\n", n);
  return n != 0;
}""", "a reverse search whose only match is the first character", "the match is not found")

bug("c19-append-one", "C19",
    [("code/include/swoc/bwf_base.h", "  if (n > capacity) {       // dropped data, write it again.", "  if (n > capacity + 1) {   // dropped data, write it again.")],
    FMT + r"""
int main() {
  std::string s;
  s.reserve(40);
  s.assign("abc");
  std::string t(s.capacity() - 3 + 1, 'x');
  std::string want = s + t;
  swoc::bwappend(s, "{}", t);
  printf("%zu '%s'\n", s.size(), s.c_str());
  return s != want;
}""", "appending text that is exactly one character longer than the spare capacity", "the last character is a nul")

bug("c20-octal-width", "C20",
    [(BF, """  if (prefix1) {
    --width;
    if (prefix2) {
      --width;
    }
  }
  width -=""", """  if (prefix1) {
    width -= 2;
  }
  width -=""")],
    FMT + r"""int main() { return expect("0    17", "{:=#7o}", 15) + expect("0x    f", "{:=#7x}", 15); }""", "an octal number with radix prefix in a field", "the field is one character too narrow")
