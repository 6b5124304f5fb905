// Model of formatted output: format styles as fields, what they do to a value, and a parser of the documented grammar.
#pragma once
#include "mc.h"
#include "text_common.h"
#include <algorithm>
#include <cstring>
#include <optional>
#include <string>
#include <string_view>
#include <vector>
#include <swoc/BufferWriter.h>
#include <swoc/MemSpan.h>
#include <swoc/TextView.h>
#include <swoc/bwf_base.h>
#include <swoc/bwf_ex.h>
#include <swoc/bwf_std.h>

struct Style {
  char fill  = ' ';
  char align = 0; // 0 if not given
  char sign  = '-';
  bool lead  = false;
  bool zero  = false; // the '0' mark
  unsigned min = 0;
  int prec     = -1;
  unsigned max = ~0u;
  char type    = 'g';

  char eff_align() const { return align ? align : zero ? '=' : 0; }
  char eff_fill() const { return zero ? '0' : fill; }

  /// Put @a core in the field. @a head is what stays in front of the fill for numeric alignment.
  std::string place(std::string const &head, std::string const &core) const
  {
    std::string s = head + core;
    size_t pad    = min > s.size() ? min - s.size() : 0;
    switch (eff_align()) {
    case '>': s = std::string(pad, eff_fill()) + s; break;
    case '^': s = std::string(pad / 2, eff_fill()) + s + std::string(pad - pad / 2, eff_fill()); break;
    case '=': s = head + std::string(pad, eff_fill()) + core; break;
    default: s += std::string(pad, eff_fill()); break;
    }
    return s.substr(0, max);
  }
  /// The same for text, where numeric alignment may put the fill on either side.
  std::vector<std::string> place_text(std::string const &s) const
  {
    if (eff_align() != '=') return {place("", s)};
    Style l = *this, r = *this;
    l.fill = r.fill = eff_fill();
    l.zero = r.zero = false;
    l.align         = '<';
    r.align         = '>';
    return {l.place("", s), r.place("", s)};
  }
};

inline std::string radix(unsigned __int128 n, int base, bool upper)
{
  std::string s;
  do {
    s.insert(s.begin(), (upper ? "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" : "0123456789abcdefghijklmnopqrstuvwxyz")[int(n % base)]);
    n /= base;
  } while (n);
  return s;
}
inline std::string sign_text(Style const &st, bool neg)
{
  if (st.sign == ' ') return "";
  if (neg) return "-";
  return st.sign == '+' ? "+" : "";
}
inline std::string model_int(Style const &st, __int128 v)
{
  std::string head = sign_text(st, v < 0), digits;
  unsigned __int128 n = v < 0 ? -static_cast<unsigned __int128>(v) : v;
  switch (st.type) {
  case 'x': digits = radix(n, 16, false); break;
  case 'X': digits = radix(n, 16, true); break;
  case 'b':
  case 'B': digits = radix(n, 2, false); break;
  case 'o': digits = radix(n, 8, false); break;
  default: digits = radix(n, 10, false); break;
  }
  if (st.lead) {
    if (strchr("xXbB", st.type)) head += std::string("0") + st.type;
    else if (st.type == 'o') head += "0";
  }
  return st.place(head, digits);
}
inline std::string hex_of(std::string_view s, bool upper)
{
  std::string z;
  for (unsigned char ch : s) z += radix(ch >> 4, 16, upper) + radix(ch & 15, 16, upper);
  return z;
}
inline std::vector<std::string> model_text(Style const &st, std::string s)
{
  if (st.prec > 0) s = s.substr(0, st.prec);
  if (st.type == 'x' || st.type == 'X') return {st.place(st.lead ? std::string("0") + st.type : "", hex_of(s, st.type == 'X'))};
  if (st.type == 's')
    for (char &ch : s) ch = char(tolower(static_cast<unsigned char>(ch)));
  if (st.type == 'S')
    for (char &ch : s) ch = char(toupper(static_cast<unsigned char>(ch)));
  return st.place_text(s);
}

/// Parse @a s by the documented grammar, nothing if it is not in it.
/// "0" directly in front of the width is the zero fill mark, and the type may follow the precision or the maximum.
/// @a reject is set if it must be refused: a percent sign in front without two hex digits and an alignment, a precision or maximum mark without number.
inline std::optional<Style> parse_style(std::string_view s, bool *reject = nullptr)
{
  bool ignored;
  if (!reject) reject = &ignored;
  *reject = false;
  Style st;
  auto is_align = [](char c) { return c == '<' || c == '>' || c == '^' || c == '='; };
  auto is_type  = [](char c) { return c && strchr("gsSxXdobBpP", c); };
  auto number   = [&](unsigned &out) {
    if (s.empty() || !isdigit(static_cast<unsigned char>(s[0]))) return false;
    unsigned long long n = 0;
    while (!s.empty() && isdigit(static_cast<unsigned char>(s[0])) && n < 100000000) n = n * 10 + (s[0] - '0'), s.remove_prefix(1);
    out = unsigned(n);
    return true;
  };
  if (s.size() >= 4 && s[0] == '%' && isxdigit(static_cast<unsigned char>(s[1])) && isxdigit(static_cast<unsigned char>(s[2])) && is_align(s[3])) {
    st.fill  = char(std::stoi(std::string(s.substr(1, 2)), nullptr, 16));
    st.align = s[3];
    s.remove_prefix(4);
  } else if (!s.empty() && s[0] == '%') {
    *reject = true;
    return {};
  } else if (s.size() >= 2 && is_align(s[1]) && s[0] >= ' ' && s[0] <= '~' && s[0] != '{' && s[0] != '}' && s[0] != ':' && s[0] != '%') {
    st.fill  = s[0];
    st.align = s[1];
    s.remove_prefix(2);
  } else if (!s.empty() && is_align(s[0])) {
    st.align = s[0];
    s.remove_prefix(1);
  }
  if (!s.empty() && (s[0] == '+' || s[0] == '-' || s[0] == ' ')) st.sign = s[0], s.remove_prefix(1);
  if (!s.empty() && s[0] == '#') st.lead = true, s.remove_prefix(1);
  if (!s.empty() && s[0] == '0') st.zero = true, s.remove_prefix(1);
  number(st.min);
  if (!s.empty() && s[0] == '.') {
    s.remove_prefix(1);
    unsigned p;
    if (!number(p)) {
      *reject = true;
      return {};
    }
    st.prec = int(p);
  }
  bool typed = false;
  if (!s.empty() && is_type(s[0])) st.type = s[0], typed = true, s.remove_prefix(1);
  if (!s.empty() && s[0] == ',') {
    s.remove_prefix(1);
    if (!number(st.max)) {
      *reject = true;
      return {};
    }
    if (!typed && !s.empty() && is_type(s[0])) st.type = s[0], s.remove_prefix(1);
  }
  if (!s.empty()) return {};
  return st;
}

/// Choose a style text, from lists of values for each field.
struct StyleChoice {
  std::vector<char const *> fill_align{"", "<", ">", "^", "=", ".<", "*>", "#^", "0=", "%3A>", "%7d^"};
  std::vector<char const *> sign{"", "+", "-", " "};
  std::vector<char const *> lead{"", "#"};
  std::vector<char const *> zero{"", "0"};
  std::vector<char const *> min{"", "1", "6", "13"};
  std::vector<char const *> prec{"", ".1", ".3"};
  std::vector<char const *> max{"", ",0", ",4"};
  std::vector<char const *> type{"", "g", "d", "x", "X", "o", "b", "B", "s", "S", "p", "P"};
  bool type_last = false;
  std::string choose(mc::Ctx &c) const
  {
    std::string s;
    auto one = [&](std::vector<char const *> const &v) { return std::string(v[c.choose(int(v.size()))]); };
    s += one(fill_align) + one(sign) + one(lead) + one(zero) + one(min) + one(prec);
    std::string m = one(max), t = one(type);
    if (m.empty()) return s + t;
    return s + (type_last ? m + t : t + m);
  }
};
inline std::string either(std::vector<std::string> const &v)
{
  std::string s;
  for (auto const &t : v) s += (s.empty() ? "" : " or ") + mc::show(t);
  return s;
}
inline bool one_of(std::string_view s, std::vector<std::string> const &v)
{
  return std::find(v.begin(), v.end(), s) != v.end();
}
