// Printing of a value in every way, and styles of the field it is placed in.
#pragma once
#include "fmt_common.h"
#include <swoc/ArenaWriter.h>
#include <swoc/MemArena.h>
using swoc::FixedBufferWriter;
using swoc::TextView;

/// Room for the largest text that is printed.
static size_t print_room = 4096;

/// Print @a args by @a fmt in every way, and into buffers of all sizes around the size of the text. The text must be one of @a want.
template <typename... A>
static void check_print(mc::Ctx &c, char const *what, std::string const &fmt, std::vector<std::string> const &want, A const &...args)
{
  std::vector<char> big(print_room);
  FixedBufferWriter w{big.data(), big.size()};
  w.print(TextView(fmt), args...);
  std::string got(w.view());
  MC_CHECK(c, one_of(got, want), "%s printed %s by %s, not %s", what, mc::show(got).c_str(), mc::show(fmt).c_str(), either(want).c_str());
  std::string s = "x";
  swoc::bwprint(s, TextView(fmt), args...);
  MC_CHECK(c, s == got, "%s printed %s by %s to a string, not %s", what, mc::show(s).c_str(), mc::show(fmt).c_str(), mc::show(got).c_str());
  swoc::MemArena arena(1);
  swoc::ArenaWriter aw(arena);
  aw.print(TextView(fmt), args...);
  MC_CHECK(c, aw.view() == got, "%s printed %s by %s to an arena, not %s", what, mc::show(aw.view()).c_str(), mc::show(fmt).c_str(), mc::show(got).c_str());
  for (size_t n : {size_t(0), size_t(1), got.size() / 2, got.size() - (got.size() > 0), got.size(), got.size() + 1}) {
    Exact buff(std::string(n, '#'));
    FixedBufferWriter cw{const_cast<char *>(buff.data()), n};
    cw.print(TextView(fmt), args...);
    MC_CHECK(c, cw.view() == std::string_view(got).substr(0, n) && cw.extent() == got.size() && cw.error() == (got.size() > n),
             "%s by %s of %zu characters in a buffer of %zu is %s with extent %zu", what, mc::show(fmt).c_str(), got.size(), n, mc::show(cw.view()).c_str(), cw.extent());
  }
}

/// Field styles in which any text is placed, @a types are added.
struct Field {
  std::string fmt, style;
  Style st;
};
static Field choose_field(mc::Ctx &c, char const *types, char const *ext, bool full = true)
{
  static char const *const PLACE[] = {"", "<", ">", "^", "*>", "%2a^"};
  static char const *const WIDTH[] = {"", "5", "12", "24", "47", "120"};
  static char const *const MAX[]   = {"", ",0", ",3", ",11", ",33"};
  Field f;
  std::string max;
  if (full || c.thorough) {
    f.style = std::string(PLACE[c.choose(6)]) + WIDTH[c.choose(6)];
    max     = MAX[c.choose(c.thorough ? 5 : 4)];
  }
  char type = types[c.choose(int(strlen(types)))];
  f.style += max;
  if (type != 'g' || c.flag()) f.style += type;
  auto st = parse_style(f.style);
  MC_CHECK(c, st, "harness: style %s", f.style.c_str());
  f.st  = *st;
  f.fmt = "{:" + f.style + (*ext ? std::string(":") + ext : "") + "}";
  return f;
}
static std::vector<std::string> place_all(Style const &st, std::vector<std::string> const &v)
{
  std::vector<std::string> z;
  for (auto &s : v) {
    auto p = st.place_text(s);
    z.insert(z.end(), p.begin(), p.end());
  }
  return z;
}
