// C20: every combination of specifier fields on integers, booleans, characters, text, pointers and memory.
#include "fmt_common.h"
#include <atomic>
#include <bitset>
#include <chrono>
#include <limits>
using swoc::FixedBufferWriter;
using swoc::MemSpan;
using swoc::TextView;

struct Printed {
  char buff[8192];
  FixedBufferWriter w{buff, sizeof(buff)};
};
template <typename... A> static std::string print(std::string const &fmt, A &&...args)
{
  Printed p;
  p.w.print(TextView(fmt), std::forward<A>(args)...);
  return std::string(p.w.view());
}
static void expect(mc::Ctx &c, std::string const &fmt, std::string const &what, std::string const &got, std::vector<std::string> const &want)
{
  MC_CHECK(c, one_of(got, want), "%s of %s printed %s, not %s", mc::show(fmt).c_str(), what.c_str(), mc::show(got).c_str(), either(want).c_str());
}

template <typename T> static void check_int(mc::Ctx &c, std::string const &style, Style const &st, T v)
{
  std::string fmt = "{:" + style + "}";
  expect(c, fmt, radix(static_cast<unsigned __int128>(v < 0 ? -static_cast<__int128>(v) : static_cast<__int128>(v)), 10, false) + (v < 0 ? " negative" : ""), print(fmt, v), {model_int(st, v)});
}

template <typename T> static void limits(mc::Ctx &c, std::string const &style, Style const &st)
{
  using L = std::numeric_limits<T>;
  for (T v : {L::min(), T(L::min() + 1), T(0), T(1), T(9), T(10), T(L::max() / 2), T(L::max() - 1), L::max()}) check_int(c, style, st, v);
  if (L::is_signed)
    for (T v : {T(-1), T(-16), T(-99)}) check_int(c, style, st, v);
}

MC_INPUTS(integers, 3, "integers at the limits of every type in every combination of specifier fields")
{
  StyleChoice sc;
  if (c.thorough) {
    sc.min = {"", "1", "6", "13", "66"};
    sc.max = {"", ",0", ",1", ",4", ",12"};
  }
  sc.type_last      = c.flag();
  std::string style = sc.choose(c);
  auto st           = parse_style(style);
  MC_CHECK(c, st, "harness: style %s", style.c_str());
  c.note("style %s", style.c_str());
  limits<short>(c, style, *st);
  limits<int>(c, style, *st);
  limits<unsigned>(c, style, *st);
  limits<long>(c, style, *st);
  limits<unsigned long>(c, style, *st);
  if (c.thorough) {
    limits<signed char>(c, style, *st);
    limits<unsigned char>(c, style, *st);
    limits<unsigned short>(c, style, *st);
    limits<long long>(c, style, *st);
    limits<unsigned long long>(c, style, *st);
  }
  c.outcome(style);
}

MC_INPUTS(all_small, 1, "all values of the 8 bit and 16 bit types in every radix")
{
  static char const *const STYLES[] = {"", "d", "x", "X", "o", "b", "B", "#x", "#X", "#o", "#b", "#B", "+", " d", "+#08x", "*>7", "^9", ">9,5"};
  std::string style = STYLES[c.choose(18)];
  int kind          = c.choose(4);
  int block         = c.choose(16);
  auto st           = *parse_style(style);
  c.note("style %s kind %d", style.c_str(), kind);
  int lo = kind == 0 ? -128 : kind == 2 ? -32768 : 0, n = kind < 2 ? 256 : 65536;
  for (int i = n / 16 * block; i < n / 16 * (block + 1); ++i) {
    switch (kind) {
    case 0: check_int<signed char>(c, style, st, static_cast<signed char>(lo + i)); break;
    case 1: check_int<unsigned char>(c, style, st, static_cast<unsigned char>(lo + i)); break;
    case 2: check_int<short>(c, style, st, static_cast<short>(lo + i)); break;
    default: check_int<unsigned short>(c, style, st, static_cast<unsigned short>(lo + i)); break;
    }
  }
  c.outcome(mc::strf("%s/%d/%d", style.c_str(), kind, block));
}

MC_INPUTS(bits, 1, "values around every power of two in every radix and around powers of ten")
{
  int b = c.choose(64);
  for (char const *style : {"", "x", "X", "#o", "b", "#B", "=30x", "^#70b"}) {
    auto st = *parse_style(style);
    for (int d = -2; d <= 2; ++d) {
      uint64_t v = (uint64_t(1) << b) + d;
      check_int<uint64_t>(c, style, st, v);
      check_int<int64_t>(c, style, st, static_cast<int64_t>(v));
      check_int<int32_t>(c, style, st, static_cast<int32_t>(v));
    }
    uint64_t p = 1;
    for (int i = 0; i < b % 20; ++i) p *= 10;
    for (int d = -1; d <= 1; ++d) check_int<uint64_t>(c, style, st, p * (1 + b / 20) + d);
  }
  c.outcome(std::to_string(b));
}

MC_INPUTS(words, 3, "text, booleans, characters and null pointers in every combination of specifier fields")
{
  StyleChoice sc;
  sc.sign           = {"", "+"};
  sc.type_last      = c.flag();
  std::string style = sc.choose(c), fmt = "{:" + style + "}";
  auto st = *parse_style(style);
  c.note("style %s", style.c_str());
  static std::string const TEXTS[] = {"", "a", "Bc", "xYz", "text-T", std::string("\0\xff~", 3), "longer than the fields"};
  bool lettered = st.type == 's' || st.type == 'S';
  for (auto const &t : TEXTS) {
    Exact x(t);
    auto want = model_text(st, t);
    expect(c, fmt, mc::show(t), print(fmt, x.sv()), want);
    expect(c, fmt, mc::show(t) + " view", print(fmt, TextView(x.sv())), want);
    if (c.thorough) expect(c, fmt, mc::show(t) + " string", print(fmt, t), want);
    if (t.find('\0') == t.npos && st.type != 'x' && st.type != 'X' && st.type != 'p' && st.type != 'P') {
      char const *z = t.c_str();
      expect(c, fmt, mc::show(t) + " C string", print(fmt, z), want);
    }
  }
  if (!strchr("xXpP", st.type)) expect(c, fmt, "literal", print(fmt, "lIt"), model_text(st, "lIt"));
  for (bool b : {true, false}) {
    std::string word = b ? "true" : "false";
    if (st.type == 'S')
      for (char &ch : word) ch = char(toupper(ch));
    expect(c, fmt, b ? "true" : "false", print(fmt, b), lettered ? st.place_text(word) : std::vector<std::string>{model_int(st, b)});
  }
  for (char ch : {'a', '7', ' ', '\xf0'}) expect(c, fmt, mc::strf("character %d", ch), print(fmt, ch), st.place_text(std::string(1, ch)));
  // null pointers
  std::vector<std::string> null;
  Style ps = st;
  ps.lead  = true;
  if (lettered) null = model_text(st, "null");
  else if (st.type == 'g') null = st.place_text("");
  else {
    if (st.type == 'p') ps.type = 'x';
    if (st.type == 'P') ps.type = 'X';
    null = {model_int(ps, 0)};
  }
  if (lettered && st.prec > 0) null = model_text(st, "null");
  expect(c, fmt, "nullptr", print(fmt, nullptr), null);
  expect(c, fmt, "null void*", print(fmt, static_cast<void *>(nullptr)), null);
  expect(c, fmt, "null char const*", print(fmt, static_cast<char const *>(nullptr)), null);
  c.outcome(style);
}

MC_INPUTS(pointers, 2, "pointers, memory spans and hex dumps in every combination of specifier fields")
{
  StyleChoice sc;
  sc.sign           = {"", "+"};
  sc.min            = {"", "6", "30"};
  sc.prec           = {"", ".1", ".2", ".3"};
  std::string style = sc.choose(c), fmt = "{:" + style + "}";
  auto st = *parse_style(style);
  c.note("style %s", style.c_str());
  Style ps = st;
  ps.lead  = true;
  if (st.type == 'g' || st.type == 'p') ps.type = 'x';
  if (st.type == 'P') ps.type = 'X';
  for (uintptr_t v : {uintptr_t(1), uintptr_t(0xabcd), uintptr_t(0x7fffdeadbeef), ~uintptr_t(0)}) {
    expect(c, fmt, mc::strf("pointer %zx", size_t(v)), print(fmt, reinterpret_cast<void *>(v)), {model_int(ps, v)});
    expect(c, fmt, mc::strf("int pointer %zx", size_t(v)), print(fmt, reinterpret_cast<int *>(v)), {model_int(ps, v)});
    if (strchr("xXpP", st.type)) expect(c, fmt, mc::strf("char pointer %zx", size_t(v)), print(fmt, reinterpret_cast<char const *>(v)), {model_int(ps, v)});
  }
  bool hex = st.type == 'x' || st.type == 'X';
  auto dump = [&](std::string_view s, size_t block) {
    std::string z;
    for (size_t i = 0; i < s.size(); i += block) {
      if (i) z += ' ';
      if (st.lead) z += std::string("0") + st.type;
      z += hex_of(s.substr(i, block), st.type == 'X');
    }
    return z;
  };
  for (std::string const &t : {std::string(), std::string("\x01"), std::string("\xfe\0Zz", 4), std::string("sixsix"), std::string("eighteig")}) {
    Exact x(t);
    auto plain = [&](void const *p, size_t n) { return mc::strf("0x%zx@", n) + (p ? mc::strf("0x%zx", size_t(p)) : "0x0"); };
    MemSpan<void const> v{x.data(), x.n};
    expect(c, fmt, "span of " + mc::show(t), print(fmt, v), st.place_text(hex ? dump(t, st.prec > 0 ? st.prec : t.size() + 1) : plain(v.data(), x.n)));
    MemSpan<void> mv{const_cast<char *>(x.data()), x.n};
    expect(c, fmt, "mutable span of " + mc::show(t), print(fmt, mv), st.place_text(hex ? dump(t, st.prec > 0 ? st.prec : t.size() + 1) : plain(v.data(), x.n)));
    MemSpan<char const> ch{x.data(), x.n};
    expect(c, fmt, "char span of " + mc::show(t), print(fmt, ch), st.place_text(hex ? dump(t, st.prec > 0 ? st.prec : 1) : plain(ch.data(), x.n)));
    if (x.n % 2 == 0) {
      MemSpan<uint16_t> u(reinterpret_cast<uint16_t *>(const_cast<char *>(x.data())), x.n / 2);
      if (x.n) expect(c, fmt, "16 bit span of " + mc::show(t), print(fmt, u), st.place_text(hex ? dump(t, st.prec > 0 ? st.prec : 2) : plain(u.data(), x.n)));
    }
    expect(c, fmt, "hex dump of " + mc::show(t), print(fmt, swoc::bwf::HexDump(x.data(), x.n)), {st.place(st.lead ? std::string("0") + (st.type == 'X' ? 'X' : 'x') : "", hex_of(t, st.type == 'X'))});
    // and back
    std::string h = hex_of(t, st.type == 'X');
    Exact hx(h);
    expect(c, fmt, "unhex of " + h, print(fmt, swoc::bwf::UnHex(MemSpan<void const>{hx.data(), hx.n})), st.place_text(t.substr(0, st.max)));
  }
  uint32_t n = 0x00C0FFEE;
  MC_CHECK(c, print("{:x}", swoc::bwf::As_Hex(n)) == hex_of(std::string_view(reinterpret_cast<char *>(&n), 4), false), "As_Hex");
  c.outcome(style);
}

MC_INPUTS(wrappers, 2, "wrappers of formatted values print as their content")
{
  StyleChoice sc;
  sc.fill_align     = {"", ">", "^", "=", "*>"};
  sc.prec           = {""};
  std::string style = sc.choose(c), fmt = "{:" + style + "}";
  auto st = *parse_style(style);
  std::atomic<int> a{-42};
  expect(c, fmt, "atomic", print(fmt, a), {model_int(st, -42)});
  expect(c, fmt, "duration", print(fmt, std::chrono::seconds(90)), {model_int(st, 90)});
  std::bitset<5> bits(0b01101);
  expect(c, fmt, "bitset", print(fmt, bits), st.place_text("10110"));
  for (int n : {0, 1, 3}) {
    std::string t;
    for (int i = 0; i < n; ++i) t += "ab";
    expect(c, fmt, mc::strf("pattern %d", n), print(fmt, swoc::bwf::Pattern{n, "ab"}), st.place_text(t.substr(0, (st.max + 1ull) / 2 * 2)));
  }
  expect(c, fmt, "first of", print(fmt, swoc::bwf::FirstOf("", nullptr, std::string(), "One", "two")), model_text(st, "One"));
  expect(c, fmt, "first of nothing", print(fmt, swoc::bwf::FirstOf("", nullptr)), model_text(st, ""));
  for (std::string const &s : {std::string(), std::string("a Z9"), std::string("\xff\0x", 3)}) {
    char mem[8];
    swoc::FixedBufferWriter fixed(mem, sizeof(mem));
    swoc::LocalBufferWriter<16> local;
    fixed << s;
    local << s;
    expect(c, fmt, "fixed writer", print(fmt, fixed), model_text(st, s));
    expect(c, fmt, "local writer", print(fmt, local), model_text(st, s));
    expect(c, fmt, "writer", print(fmt, static_cast<swoc::BufferWriter const &>(local)), model_text(st, s));
    std::string up;
    for (char ch : s) up += char(toupper(static_cast<unsigned char>(ch)));
    auto upper = [](char ch) { return toupper(static_cast<unsigned char>(ch)); };
    if (style.empty()) {
      swoc::LocalBufferWriter<64> w;
      w << swoc::transform_view_of(upper, std::string_view(s)) << '|' << swoc::transform_view_of(std::string_view(s)) << '|' << local << '|' << fixed;
      MC_CHECK(c, w.view() == up + '|' + s + '|' + s + '|' + s, "inserting views and writers gives %s", mc::show(w.view()).c_str());
    }
  }
  for (bool f : {false, true}) {
    std::string t = f ? "[7:x]" : "";
    expect(c, fmt, "if", print(fmt, swoc::bwf::If(f, "[{}:{}]", 7, "x")), st.place_text(t));
  }
  for (std::string const &s : {std::string(), std::string("q")}) expect(c, fmt, "optional", print(fmt, swoc::bwf::Optional("<{}>", s)), st.place_text(s.empty() ? "" : "<q>"));
  char const *p = nullptr;
  expect(c, fmt, "optional pointer", print(fmt, swoc::bwf::Optional("<{}>", p)), st.place_text(""));
  // Direct use of the formatters without a format string.
  char buff[256];
  FixedBufferWriter w(buff, sizeof(buff));
  w << 12 << "x" << std::string_view("yz") << 'c' << true << -3L;
  MC_CHECK(c, w.view() == "12xyzc1-3", "stream operators printed %s", mc::show(w.view()).c_str());
  c.outcome(style);
}

MC_INPUTS(scale, 3, "wide fields, large precisions and maxima, and long text and memory")
{
  StyleChoice sc;
  sc.fill_align = {"", "*>", ".^", "0=", "%ff<"};
  sc.sign       = {"", "+"};
  sc.zero       = {"", "0"};
  sc.min        = {"", "63", "64", "127", "128", "129", "255", "256", "257", "1000", "5000"};
  sc.prec       = {"", ".10", ".128", ".256", ".999"};
  sc.max        = {"", ",10", ",99", ",127", ",128", ",255", ",256", ",257", ",1024", ",70000"};
  sc.type       = {"", "x", "b", "S"};
  std::string style = sc.choose(c);
  std::string fmt = "{:" + style + "}";
  auto st         = parse_style(style);
  MC_CHECK(c, st, "harness: style %s", style.c_str());
  c.note("style %s", style.c_str());
  check_int(c, style, *st, -123456789);
  check_int(c, style, *st, ~0ul);
  for (size_t n : {0, 9, 127, 128, 255, 256, 257, 300, 1500}) {
    std::string t(n, '.');
    for (size_t i = 0; i < n; ++i) t[i] = char(' ' + i * 13 % 90);
    expect(c, fmt, mc::strf("text of %zu", n), print(fmt, t), model_text(*st, t));
    if (n == 300) {
      bool hex = st->type == 'x';
      std::string dump;
      for (size_t i = 0, block = st->prec > 0 ? st->prec : n; i < n; i += block) {
        if (i) dump += ' ';
        if (st->lead) dump += "0x";
        dump += hex_of(std::string_view(t).substr(i, block), false);
      }
      MemSpan<void const> span{t.data(), n};
      if (hex) expect(c, fmt, "span of 300", print(fmt, span), st->place_text(dump));
      expect(c, fmt, "hex dump of 300", print(fmt, swoc::bwf::HexDump(t.data(), n)), {st->place(st->lead ? "0x" : "", hex_of(t, false))});
      std::string h = hex_of(t, true);
      expect(c, fmt, "unhex of 300", print(fmt, swoc::bwf::UnHex(MemSpan<void const>{h.data(), h.size()})), st->place_text(t.substr(0, st->max)));
      std::string rep;
      for (size_t i = 0; i < n; ++i) rep += "ab";
      expect(c, fmt, "pattern of 300", print(fmt, swoc::bwf::Pattern{int(n), "ab"}), st->place_text(rep.substr(0, (st->max + 1ull) / 2 * 2)));
      expect(c, fmt, "first of", print(fmt, swoc::bwf::FirstOf("", t)), model_text(*st, t));
    }
  }
  c.outcome(style);
}
