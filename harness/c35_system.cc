// C35: formatters of system values: error numbers and codes, dates, patterns, hex, optional text, standard library values.
#include "print_common.h"
#include <atomic>
#include <bitset>
#include <cerrno>
#include <chrono>
#include <cstdlib>
#include <ctime>
#include <future>
#include <system_error>
using swoc::MemSpan;
namespace bwf = swoc::bwf;

// Names for an error number, more than one if there are synonyms. Numbers that are not in use may have any name.
static std::vector<std::string> names_of(int e)
{
  if (e == 0) return {"SUCCESS"};
  if (e == EAGAIN) return {"EAGAIN", "EWOULDBLOCK"};
  if (e == EDEADLK) return {"EDEADLK", "EDEADLOCK"};
  if (e == EOPNOTSUPP) return {"EOPNOTSUPP", "ENOTSUP"};
  if (char const *s = strerrorname_np(e)) return {s};
  if (e == 41) return {"EWOULDBLOCK", "Unknown"};
  if (e == 58) return {"EDEADLOCK", "Unknown"};
  return {"Unknown"};
}

MC_INPUTS(error_numbers, 2, "all error numbers and invalid ones, in all styles and forms")
{
  static char const *const EXT[] = {"", "s", "l", "sl", "ls"};
  int e                          = c.choose(142) - 4;
  if (e == 136) e = 1000;
  if (e == 137) e = -2147483647 - 1;
  int form = c.choose(5);
  auto f   = choose_field(c, "gsSdxob", EXT[form], e % 7 == 0);
  c.note("error %d style %s", e, f.fmt.c_str());
  std::string num = "[" + std::to_string(e) + "]", text = strerror(e);
  std::vector<std::string> v;
  if (strchr("dxob", f.st.type)) {
    v = {num};
  } else {
    std::string tail = f.st.type == 'g' ? " " + num : "";
    if (form == 2) v = {text + tail};
    else
      for (auto &n : names_of(e)) v.push_back(n + (form == 1 ? "" : ": " + text) + tail);
  }
  check_print(c, "the error number", f.fmt, place_all(f.st, v), bwf::Errno(e));
  errno = e;
  bwf::Errno cur;
  errno = 0;
  check_print(c, "the current error number", f.fmt, place_all(f.st, v), cur);
  c.outcome(mc::strf("%d%s", e, f.fmt.c_str()));
}

struct Category : std::error_category {
  char const *name() const noexcept override { return "other"; }
  std::string message(int n) const override { return n == 1 ? "" : n == 2 ? "Mixed Case text" : "m" + std::to_string(n); }
};
// Its values are equivalent to conditions of the generic category.
struct Equivalent : Category {
  char const *name() const noexcept override { return "equivalent"; }
  std::error_condition default_error_condition(int n) const noexcept override { return std::error_condition(n % 3 == 0 ? 1 : n, std::generic_category()); }
  bool equivalent(int n, std::error_condition const &c) const noexcept override { return c == default_error_condition(n); }
};
static std::string lower(std::string s)
{
  for (char &ch : s) ch = char(tolower(static_cast<unsigned char>(ch)));
  return s;
}
static std::string upper(std::string s)
{
  for (char &ch : s) ch = char(toupper(static_cast<unsigned char>(ch)));
  return s;
}

MC_INPUTS(error_codes, 2, "error codes of all categories in all styles")
{
  static Category const OTHER;
  static Equivalent const EQUIVALENT;
  int e = c.choose(140) - 3;
  if (e == 135) e = 1000;
  if (e == 136) e = 2147483647;
  int cat = c.choose(6);
  auto f  = choose_field(c, "gsSdxob", "", e % 7 == 0);
  std::error_category const &ec_cat = cat == 0 ? std::generic_category() : cat == 1 ? std::system_category() : cat == 2 ? std::iostream_category() : cat == 3 ? std::future_category() : cat == 4 ? static_cast<std::error_category const &>(OTHER) : EQUIVALENT;
  std::error_code ec(e, ec_cat);
  c.note("code %d of %s style %s", e, ec_cat.name(), f.fmt.c_str());
  std::vector<std::string> want;
  if (strchr("dxob", f.st.type)) {
    want = {model_int(f.st, e)};
  } else {
    std::vector<std::string> names;
    if (cat < 2 && e >= 0) names = names_of(e);
    size_t const short_names = names.size();
    if (cat >= 2 || e < 0 || names[0] == "Unknown" || names.back() == "Unknown") names.push_back(ec.message());
    std::vector<std::string> v;
    for (size_t i = 0; i < names.size(); ++i) {
      auto &n = names[i];
      if (f.st.type == 'g') {
        v.push_back(n + mc::strf(" [%d]", e));
      } else { // type s is lower case, S upper case, as for strings. Not specified for messages.
        if (i >= short_names) v.push_back(n);
        v.push_back(f.st.type == 's' ? lower(n) : upper(n));
      }
    }
    want = place_all(f.st, v);
  }
  check_print(c, "the error code", f.fmt, want, ec);
  c.outcome(mc::strf("%d.%d%s", cat, e, f.fmt.c_str()));
}

static std::string time_text(time_t t, char const *fmt, bool local)
{
  struct tm tm {};
  local ? localtime_r(&t, &tm) : gmtime_r(&t, &tm);
  std::vector<char> b(10000);
  return std::string(b.data(), strftime(b.data(), b.size(), fmt, &tm));
}
static std::string repeat(char const *s, int n)
{
  std::string z;
  while (n--) z += s;
  return z;
}
static char const *const ZONES[] = {"UTC0", "CST6", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3"};

MC_INPUTS(dates, 3, "times around all kinds of boundaries in several zones with short and long formats")
{
  static long long const TIMES[] = {0,         1,          -1,         86399,      86400,      951782399,   951782400,   951868800,   1109636107, 1528484137, 1583020799,
                                    2147483647, 2147483648, 4102444799, 4102444800, -2208988801, -62135596801, 253402300800, 1236495599, 1236495600, 1257055200, 1257058800};
  static std::string const FORMATS[] = {bwf::Date::DEFAULT_FORMAT.data(), "%Y", "%H:%M", "%a, %d %b %Y at %H.%M.%S", "%%", "x", "%j %U %w %y %p %I %Z %z", " ", "",
                                        repeat("%Y-%m-%d ", 23), repeat("%Y-%m-%d ", 24), repeat("%H.%M.%S;", 32), repeat("0123456789", 25) + "12345", repeat("0123456789", 25) + "123456", repeat("%A %B ", 60), repeat("%c|", 70)};
  static char const *const EXT[] = {"", "local", "gmt", "utc"};
  time_t t                       = TIMES[c.choose(22)];
  std::string const &tf          = FORMATS[c.choose(16)];
  char const *zone               = ZONES[c.choose(5)];
  int ext                        = c.choose(4);
  setenv("TZ", zone, 1);
  tzset();
  auto f = choose_field(c, "gsdx", EXT[ext], t % 5 == 0 && zone == ZONES[3] && ext < 2);
  c.note("time %lld zone %s date format %s style %s", static_cast<long long>(t), zone, mc::show(tf).c_str(), f.fmt.c_str());
  std::vector<std::string> want;
  if (strchr("dx", f.st.type)) {
    want = {model_int(f.st, t)};
  } else {
    std::string v = time_text(t, tf.c_str(), ext == 1);
    want          = place_all(f.st, {v});
    if (tf.empty()) want = place_all(f.st, {"", time_text(t, bwf::Date::DEFAULT_FORMAT.data(), ext == 1)});
  }
  // The format must be terminated, nothing in front of it or beyond that must be read.
  Exact text(tf + std::string(1, '\0'));
  check_print(c, "the date", f.fmt, want, bwf::Date(t, text.sv().substr(0, tf.size())));
  check_print(c, "the date", f.fmt, want, bwf::Date(t, text.sv()));
  if (tf == FORMATS[0]) check_print(c, "the date", f.fmt, want, bwf::Date(t));
  if (tf.empty()) check_print(c, "the date without format", f.fmt, want, bwf::Date(t, std::string_view{}));
  c.outcome(mc::strf("%lld%s%s%s", static_cast<long long>(t), zone, tf.c_str(), f.fmt.c_str()));
}

MC_INPUTS(hours, 2, "every hour of three years in all zones")
{
  char const *zone = ZONES[c.choose(5)];
  int day          = c.choose(3 * 366);
  int local        = c.choose(2);
  setenv("TZ", zone, 1);
  tzset();
  for (int h = 0; h < 24; ++h) {
    time_t t = 1577836800 - 365LL * 86400 + day * 86400LL + h * 3600 - 1;
    std::vector<char> big(100);
    FixedBufferWriter w{big.data(), big.size()};
    w.print(local ? TextView("{::local}") : TextView("{}"), bwf::Date(t));
    auto want = time_text(t, "%Y %b %d %H:%M:%S", local);
    MC_CHECK(c, w.view() == want, "time %lld in zone %s printed %s, not %s", static_cast<long long>(t), zone, mc::show(w.view()).c_str(), want.c_str());
    w.clear();
    w.print("{}|{::local}", bwf::Date(t, "%s|%d"), bwf::Date(t, "%H"));
    c.note("%lld", static_cast<long long>(t));
  }
  c.outcome(mc::strf("%s %d %d", zone, day, local));
}

MC_INPUTS(now, 1, "the current time")
{
  int form = c.choose(4);
  setenv("TZ", "CST6", 1);
  tzset();
  time_t before = time(nullptr);
  std::string got;
  if (form == 0) swoc::bwprint(got, "{}", bwf::Date());
  if (form == 1) swoc::bwprint(got, "{::local}", bwf::Date());
  if (form == 2) swoc::bwprint(got, "{}", bwf::Date("%H%M%S"));
  if (form == 3) swoc::bwprint(got, "{:d}", bwf::Date("%H%M%S"));
  time_t after = time(nullptr);
  bool ok      = false;
  for (time_t t = before - 1; t <= after + 1; ++t) ok = ok || got == (form == 3 ? std::to_string(t) : time_text(t, form == 2 ? "%H%M%S" : "%Y %b %d %H:%M:%S", form == 1));
  MC_CHECK(c, ok, "the current date in form %d is %s", form, got.c_str());
  c.outcome(mc::strf("%d", form));
}

MC_INPUTS(patterns, 3, "repeated texts of all counts, hexadecimal text of all lengths, bit sets, in all styles")
{
  auto f   = choose_field(c, "g", "");
  int what = c.choose(3);
  if (what == 0) {
    static char const *const TEXT[] = {"", "a", "ab", "xyz", "0123456789"};
    char const *text                = TEXT[c.choose(5)];
    int n                           = c.choose(14) - 1;
    if (n == 12) n = 300;
    c.note("%d times %s, style %s", n, text, f.fmt.c_str());
    if (n < 0 && f.st.max > 1000 && *text) c.skip();
    std::string v = n > 0 ? repeat(text, n) : "";
    // The maximum limits the number of repetitions, or the field.
    std::string cut;
    while (cut.size() < v.size() && cut.size() < f.st.max) cut += text;
    check_print(c, "the pattern", f.fmt, place_all(f.st, {v, cut}), bwf::Pattern{n, text});
    c.outcome(mc::strf("%d%s%s", n, text, f.fmt.c_str()));
  } else if (what == 1) {
    static char const HEX[] = "00fFaA7e112233445566778899aAbBcCdDeEff0D4576696c20446176652052756c7a";
    int n                   = c.choose(35);
    c.note("%d bytes, style %s", n, f.fmt.c_str());
    std::string src(HEX, size_t(n) * 2), v;
    for (int i = 0; i < n; ++i) v += char(std::stoi(src.substr(size_t(i) * 2, 2), nullptr, 16));
    // The maximum limits the number of bytes, or the field.
    Style st = f.st;
    Exact e(src);
    check_print(c, "hexadecimal text", f.fmt, place_all(st, {v, v.substr(0, st.max)}), bwf::UnHex(MemSpan<void const>(e.data(), e.n)));
    c.outcome(mc::strf("hex%d%s", n, f.fmt.c_str()));
  } else {
    unsigned v = c.choose(32);
    c.note("bits %x style %s", v, f.fmt.c_str());
    std::string b;
    for (int i = 0; i < 5; ++i) b += v >> i & 1 ? '1' : '0';
    check_print(c, "the bit set", f.fmt, place_all(f.st, {b}), std::bitset<5>(v));
    check_print(c, "the empty bit set", f.fmt, place_all(f.st, {""}), std::bitset<0>());
    std::bitset<70> l;
    std::string lb(70, '0');
    for (int i = 0; i < 5; ++i)
      if (v >> i & 1) l[size_t(i) * 17] = true, lb[size_t(i) * 17] = '1';
    check_print(c, "the long bit set", f.fmt, place_all(f.st, {lb}), l);
    c.outcome(mc::strf("bits%u%s", v, f.fmt.c_str()));
  }
}

/// All pairs of hexadecimal digits.
MC_INPUTS(hex_pairs, 1, "all pairs of hexadecimal digits")
{
  static char const DIGITS[] = "0123456789abcdefABCDEF";
  std::string src{DIGITS[c.choose(22)], DIGITS[c.choose(22)]};
  c.note("%s", src.c_str());
  std::string want(1, char(std::stoi(src, nullptr, 16)));
  check_print(c, "the hexadecimal text", "{}", {want}, bwf::UnHex(src));
  check_print(c, "the hexadecimal text", "{}", {want + want + want}, bwf::UnHex(src + src + src));
  c.outcome(src);
}

MC_INPUTS(std_values, 2, "atomic, duration, time point and exception values in all styles")
{
  using namespace std::chrono;
  int what = c.choose(9);
  auto f   = choose_field(c, what == 8 ? "g" : "gdxob", "");
  static long long const V[] = {0, 1, -1, 9, 10, -4096, 123456789, -2147483647 - 1, 2147483647, 9223372036854775807LL, -9223372036854775807LL - 1};
  long long v = V[c.choose(11)];
  c.note("kind %d value %lld style %s", what, v, f.fmt.c_str());
  Style i = f.st;
  switch (what) {
  case 0: check_print(c, "the atomic integer", f.fmt, {model_int(i, int(v))}, std::atomic<int>(int(v))); break;
  case 1: check_print(c, "the atomic integer", f.fmt, {model_int(i, static_cast<unsigned long>(v))}, std::atomic<unsigned long>(static_cast<unsigned long>(v))); break;
  case 2: check_print(c, "the duration", f.fmt, {model_int(i, v)}, nanoseconds(v)); break;
  case 3: check_print(c, "the duration", f.fmt, {model_int(i, int(v))}, duration<int, std::ratio<3600>>(int(v))); break;
  case 4: check_print(c, "the time point", f.fmt, {model_int(i, v)}, time_point<system_clock, nanoseconds>(nanoseconds(v))); break;
  case 5: check_print(c, "the time point", f.fmt, {model_int(i, v)}, time_point<steady_clock, seconds>(seconds(v))); break;
  case 6: check_print(c, "the atomic integer", f.fmt, {model_int(i, short(v))}, std::atomic<short>(short(v))); break;
  case 7: {
    std::atomic<bool> b(v & 1);
    if (i.type == 'g') check_print(c, "the atomic boolean", f.fmt, place_all(i, {v & 1 ? "1" : "0", v & 1 ? "true" : "false"}), b);
    break;
  }
  default: {
    static char const *const WHAT[] = {"", "x", "Sureness out of bounds", "a long description of what went wrong and where", "{}", "Mixed CASE"};
    for (char const *t : WHAT) {
      std::runtime_error e(t);
      check_print(c, "the exception", f.fmt, place_all(f.st, {std::string("Exception - ") + t}), e);
      std::exception const &base = e;
      check_print(c, "the exception", f.fmt, place_all(f.st, {std::string("Exception - ") + t}), base);
    }
  }
  }
  c.outcome(mc::strf("%d.%lld%s", what, v, f.fmt.c_str()));
}

MC_INPUTS(first_of, 3, "the first text that is not empty of up to four texts of all kinds")
{
  static char const *const TEXT[] = {nullptr, "", "a", "bcd"};
  struct One {
    char const *p;
    int kind;
    std::string s;
    std::string_view v;
    TextView t;
  } o[4];
  int n = 1 + c.choose(4);
  for (int i = 0; i < n; ++i) {
    o[i].p    = c.pick(TEXT);
    o[i].kind = c.choose(4);
    if (o[i].p) o[i].s = o[i].p, o[i].v = o[i].p, o[i].t = TextView(o[i].p, strlen(o[i].p));
    else if (o[i].kind == 1) c.skip();
  }
  std::string want, what;
  for (int i = n; i--;) {
    if (o[i].p && *o[i].p) want = o[i].p;
    what += mc::strf(" %s:%d", o[i].p ? o[i].p : "null", o[i].kind);
  }
  c.note("%d texts%s", n, what.c_str());
  std::string_view got;
  auto call = [&](auto &&self, auto idx, auto &&...args) -> void {
    constexpr int I = decltype(idx)::value;
    if constexpr (I > 0) {
      auto next = std::integral_constant<int, I - 1>{};
      switch (o[I - 1].kind) {
      case 0: self(self, next, o[I - 1].p, args...); break;
      case 1: self(self, next, o[I - 1].s, args...); break;
      case 2: self(self, next, o[I - 1].v, args...); break;
      default: self(self, next, o[I - 1].t, args...); break;
      }
    } else {
      got = bwf::FirstOf(args...);
      std::string s;
      swoc::bwprint(s, "<{:>6}>", bwf::FirstOf(args...));
      MC_CHECK(c, s == "<" + std::string(want.size() < 6 ? 6 - want.size() : 0, ' ') + want + ">", "printed %s", s.c_str());
    }
  };
  switch (n) {
  case 1: call(call, std::integral_constant<int, 1>{}); break;
  case 2: call(call, std::integral_constant<int, 2>{}); break;
  case 3: call(call, std::integral_constant<int, 3>{}); break;
  default: call(call, std::integral_constant<int, 4>{}); break;
  }
  MC_CHECK(c, got == want, "the first is %s, not %s", mc::show(got).c_str(), want.c_str());
  c.outcome(what);
}

MC_INPUTS(optional, 3, "optional and nested text with all kinds of arguments in all styles")
{
  static char const *const INNER[] = {"", "x", " [{}]", "{}", "{:>4}", "<{:s}> {{}}", " {}{}"};
  static char const *const TEXT[]  = {nullptr, "", "a", "Bcdefgh"};
  auto f                           = choose_field(c, "g", "");
  char const *inner                = c.pick(INNER);
  char const *text                 = c.pick(TEXT);
  bool flag                        = c.flag();
  bool two                         = inner == INNER[6];
  c.note("inner %s text %s flag %d style %s", inner, text ? text : "null", flag, f.fmt.c_str());
  std::string s = text ? text : "";
  std::string_view v = s;
  TextView t = s;
  auto expand = [&](std::string const &a, std::string const &b) {
    std::string i = inner;
    if (i == " [{}]") return " [" + a + "]";
    if (i == "{}") return a;
    if (i == "{:>4}") return std::string(a.size() < 4 ? 4 - a.size() : 0, ' ') + a;
    if (i == "<{:s}> {{}}") return "<" + lower(a) + "> {}";
    if (i == " {}{}") return " " + a + b;
    return i;
  };
  auto want = [&](bool on, std::string const &a, std::string const &b = "") { return place_all(f.st, {on ? expand(a, b) : ""}); };
  if (two) {
    check_print(c, "the conditional text", f.fmt, want(flag, s, "17"), bwf::If(flag, inner, s, 17));
    check_print(c, "the nested text", f.fmt, want(true, s, "yz"), bwf::SubText(TextView(inner), std::forward_as_tuple(v, "yz")));
  } else {
    check_print(c, "the conditional text", f.fmt, want(flag, s), bwf::If(flag, inner, s));
    check_print(c, "the conditional text", f.fmt, want(flag, s), bwf::If(flag, inner, t));
    check_print(c, "the nested text", f.fmt, want(true, s), bwf::SubText(TextView(inner), std::forward_as_tuple(v)));
    check_print(c, "the optional string", f.fmt, want(!s.empty(), s), bwf::Optional(inner, s));
    check_print(c, "the optional view", f.fmt, want(!s.empty(), s), bwf::Optional(inner, v));
    check_print(c, "the optional view", f.fmt, want(!s.empty(), s), bwf::Optional(inner, t));
    if (text || inner != INNER[5]) check_print(c, "the optional C string", f.fmt, want(text != nullptr, s), bwf::Optional(inner, text));
    int i = flag ? 42 : 0;
    if (inner != INNER[5]) check_print(c, "the optional number", f.fmt, want(flag, std::to_string(i)), bwf::Optional(inner, i));
    auto nest = bwf::If(flag, inner, s);
    check_print(c, "the doubly nested text", "{}", {flag ? "(" + expand(s, "") + ")" : "()"}, bwf::SubText("({})", std::forward_as_tuple(nest)));
    MC_CHECK(c, bool(nest) == (flag && *inner) && !nest == !(flag && *inner), "the conditional text claims to be %s", bool(nest) ? "on" : "off");
  }
  c.outcome(mc::strf("%s%s%d%s", inner, text ? text : "null", flag, f.fmt.c_str()));
}

MC_INPUTS(scale, 1, "patterns, hexadecimal text, dates and nested texts of lengths around 256, 4096, 32768, 65536 and more, in fields as wide")
{
  static int const SIZE[]          = {250, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200001};
  static char const *const TEXT[]  = {"a", "ab", "xyz", "0123456789"};
  static char const *const FIELD[] = {"", "<", ">", "^", "-"};
  int n                            = SIZE[c.choose(c.thorough ? 17 : 15)];
  int what                         = c.choose(5);
  char const *field                = FIELD[c.choose(5)];
  print_room                       = 1u << 20;
  auto placed                      = [&](std::string const &v) {
    size_t w = v.size() + 300, l = field[0] == '>' ? 300 : field[0] == '^' ? 150 : 0;
    if (!*field) return std::vector<std::string>{v};
    if (*field == '-') return std::vector<std::string>{v.substr(0, v.size() - 100)};
    return std::vector<std::string>{std::string(l, '.') + v + std::string(w - v.size() - l, '.')};
  };
  auto fmt = [&](std::string const &v) {
    if (!*field) return std::string("{}");
    if (*field == '-') return "{:," + std::to_string(v.size() - 100) + "}";
    return std::string("{:.") + field + std::to_string(v.size() + 300) + "}";
  };
  c.note("kind %d size %d field %s", what, n, field);
  switch (what) {
  case 0: {
    char const *text = TEXT[n % 4];
    int k            = n / int(strlen(text)) + 1;
    auto v           = repeat(text, k);
    check_print(c, "the pattern", fmt(v), placed(v), bwf::Pattern{k, text});
  } break;
  case 1: {
    std::string src, v;
    for (int i = 0; i < n; ++i) v += char(i * 7), src += mc::strf("%02x", i * 7 & 0xFF);
    if (*field == '-') { // the maximum limits the number of bytes.
      check_print(c, "hexadecimal text", fmt(v), {v.substr(0, v.size() - 100)}, bwf::UnHex(MemSpan<void const>(src.data(), src.size())));
    } else {
      check_print(c, "hexadecimal text", fmt(v), placed(v), bwf::UnHex(MemSpan<void const>(src.data(), src.size())));
    }
  } break;
  case 2: {
    std::string f(n, '-');
    f += "%Y";
    std::string v(n, '-');
    v += "1970";
    check_print(c, "the date", fmt(v), placed(v), bwf::Date(0, f));
  } break;
  case 3: {
    std::string t(n, 'q');
    std::string v = "<" + t + ">";
    check_print(c, "the nested text", fmt(v), placed(v), bwf::If(true, "<{}>", t));
  } break;
  case 4: {
    std::string t(n, 'q');
    check_print(c, "the optional text", fmt(t), placed(t), bwf::Optional("{}", t));
  } break;
  }
  print_room = 4096;
  c.outcome(mc::strf("%d %d %s", what, n, field));
}
