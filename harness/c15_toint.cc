// C15: text to integer conversion.
#include "text_common.h"
#include <swoc/TextView.h>

using swoc::TextView;
using U128 = unsigned __int128;

struct Num {
  bool neg = false;
  U128 v   = 0;       // clamped well above the range of 64 bits
  size_t b = 0, e = 0; // used text
};
static bool blank(char x) { return x == ' ' || (x >= '\t' && x <= '\r'); }
static int digit(char x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'z' ? x - 'a' + 10 : x >= 'A' && x <= 'Z' ? x - 'A' + 10 : 99; }
static Num number(std::string const &s, bool sign, int base)
{
  Num n;
  size_t i = 0;
  while (i < s.size() && blank(s[i])) ++i;
  n.b = n.e = i;
  if (sign && i < s.size() && (s[i] == '-' || s[i] == '+')) n.neg = s[i++] == '-';
  auto has = [&](size_t at, int bs) { return at < s.size() && digit(s[at]) < bs; };
  if (base == 0) {
    base = 10;
    if (i < s.size() && s[i] == '0') {
      base   = 8;
      char p = i + 1 < s.size() ? s[i + 1] : ' ';
      if ((p == 'x' || p == 'X') && has(i + 2, 16)) base = 16, i += 2;
      else if ((p == 'b' || p == 'B') && has(i + 2, 2)) base = 2, i += 2;
    }
  }
  if (!has(i, base)) return n;
  for (; has(i, base); ++i)
    if (n.v < (U128(1) << 100)) n.v = n.v * base + digit(s[i]);
  n.e = i;
  return n;
}

template <int N> static uintmax_t radix(int base, TextView &v) // run time choice of svto_radix
{
  if constexpr (N > 36) {
    return 0;
  } else {
    return base == N ? swoc::svto_radix<N>(v) : radix<N + 1>(base, v);
  }
}

static void check(mc::Ctx &c, std::string const &s, int base)
{
  Exact m(s);
  TextView v(m.data(), m.n);
  Num u = number(s, false, base), n = number(s, true, base);
  uintmax_t wu = u.v > UINT64_MAX ? UINT64_MAX : uintmax_t(u.v);
  intmax_t wi  = n.neg ? (n.v >= (U128(1) << 63) ? INT64_MIN : -intmax_t(n.v)) : (n.v > U128(INT64_MAX) ? INT64_MAX : intmax_t(n.v));
  for (bool out : {true, false}) {
    static char const old[] = "old";
    TextView pu(old), pi(old);
    uintmax_t gu = swoc::svtou(v, out ? &pu : nullptr, base);
    intmax_t gi  = swoc::svtoi(v, out ? &pi : nullptr, base);
    MC_CHECK(c, gu == wu, "svtou('%s', %d) is %ju, expected %ju", mc::show(s).c_str(), base, gu, wu);
    MC_CHECK(c, gi == wi, "svtoi('%s', %d) is %jd, expected %jd", mc::show(s).c_str(), base, gi, wi);
    if (out) {
      MC_CHECK(c, u.b == u.e ? pu.empty() : pu.data() == m.data() + u.b && pu.size() == u.e - u.b, "svtou('%s', %d) used '%s'", mc::show(s).c_str(), base, mc::show(std::string(pu)).c_str());
      MC_CHECK(c, n.b == n.e ? pi.empty() : pi.data() == m.data() + n.b && pi.size() == n.e - n.b, "svtoi('%s', %d) used '%s'", mc::show(s).c_str(), base, mc::show(std::string(pi)).c_str());
    }
  }
  if (base >= 2) {
    size_t e = 0;
    U128 w   = 0;
    for (; e < s.size() && digit(s[e]) < base; ++e)
      if (w < (U128(1) << 100)) w = w * base + digit(s[e]);
    TextView x(v);
    uintmax_t g = radix<2>(base, x), want = w > UINT64_MAX ? UINT64_MAX : uintmax_t(w);
    MC_CHECK(c, g == want, "svto_radix<%d>('%s') is %ju, expected %ju", base, mc::show(s).c_str(), g, want);
    MC_CHECK(c, x.size() == s.size() - e && x.data_end() == m.data() + m.n, "svto_radix<%d>('%s') leaves '%s'", base, mc::show(s).c_str(), mc::show(std::string(x)).c_str());
  }
}

MC_INPUTS(forms, 3, "all texts of up to 4 (5) characters out of 14 with blanks, signs, prefixes and digits, signed and unsigned, 8 bases")
{
  static const int bases[] = {0, 2, 7, 8, 10, 16, 30, 36};
  int base                 = c.pick(bases);
  std::string s            = choose_text(c, c.thorough ? 5 : 4, std::string_view(" -+017x9bBaT\xC3\0", 14));
  check(c, s, base);
  c.outcome(s + char('a' + base));
}

MC_INPUTS(prefix, 2, "all texts of up to 6 (8) characters out of blank, sign, 0, 1, x, b without a given base")
{
  std::string s = choose_text(c, c.thorough ? 8 : 6, "\t-01xb");
  check(c, s, 0);
  c.outcome(s);
}

MC_INPUTS(digits, 2, "all characters as digit of every base, alone, after a digit and between digits")
{
  int base = 2 + c.choose(35), x = c.choose(256);
  std::string d(1, char(x));
  check(c, d, base);
  check(c, "1" + d, base);
  check(c, "1" + d + "0", base);
  check(c, "0" + d, 0);
  check(c, d + "1", 0);
  c.outcome(mc::strf("%d %d", base, x));
}

static std::string render(U128 v, int base, int style)
{
  std::string z;
  int i = 0;
  do {
    int d = int(v % base);
    z += d < 10 ? char('0' + d) : char((style == 0 || (style == 2 && i % 2) ? 'a' : 'A') + d - 10);
    ++i;
  } while (v /= base);
  return {z.rbegin(), z.rend()};
}

MC_INPUTS(limits, 2, "values around 0 and the limits of both types and twice, base times and base^2 times that in every base, all signs, zeros in front, upper, lower and mixed case")
{
  int base   = 2 + c.choose(35);
  U128 spots[] = {0, U128(INT64_MAX), U128(UINT64_MAX), U128(UINT64_MAX) / base, U128(INT64_MAX) * 3, U128(UINT64_MAX) * 2, U128(UINT64_MAX) * base, U128(UINT64_MAX) * base * base};
  U128 v     = c.pick(spots) + c.choose(7);
  v          = v >= 3 ? v - 3 : v;
  static char const *const signs[] = {"", "-", "+", " -"};
  int style = c.choose(3);
  std::string sg = signs[c.choose(4)], zeros(c.choose(3) * 20, '0'), tail = c.flag() ? "." : "";
  std::string s = sg + zeros + render(v, base, style) + tail;
  check(c, s, base);
  if (base == 2) check(c, sg + "0b" + zeros + render(v, 2, style) + tail, 0);
  if (base == 16) check(c, sg + (style ? "0X" : "0x") + zeros + render(v, 16, style) + tail, 0);
  if (base == 8) check(c, sg + "0" + zeros + render(v, 8, style) + tail, 0);
  if (base == 10 && zeros.empty() && v) check(c, sg + render(v, 10, style) + tail, 0);
  c.outcome(s + mc::strf("/%d", base));
}

MC_INPUTS(overflow, 2, "every last digit after a value around each multiple of the overflow limit in every base, and up to two more digits")
{
  int base = 2 + c.choose(35);
  // quotients whose product with the base wraps to something that looks valid
  uintmax_t q = UINT64_MAX / base + uintmax_t(c.choose(9)) - 4;
  if (int k = c.choose(4)) q = uintmax_t((U128(UINT64_MAX) * (k + 1) + 1) / base) + (q & 3);
  int d          = c.choose(base);
  std::string s  = render(q, base, 0) + render(d, base, 0);
  for (int more = c.choose(3); more > 0; --more) s += render(base - 1, base, 0);
  check(c, s, base);
  c.outcome(s + mc::strf("/%d", base));
}

MC_INPUTS(scale, 3, "long texts: many blanks, zeros in front, digits and what follows, in every base")
{
  static int const COUNT[] = {0, 1, 31, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 70000};
  static char const *const SIGN[] = {"", "-", "+", "--"};
  int base = c.choose(38), blanks = c.pick(COUNT), zeros = c.pick(COUNT), digits = c.pick(COUNT);
  if (base == 1 || base == 37 || (blanks > 1) + (zeros > 1) + (digits > 1) > 2) return c.skip();
  if (!c.thorough && blanks + zeros + digits > 3000) return c.skip();
  std::string sign = SIGN[c.choose(4)], s(blanks, ' ');
  for (int i = 0; i < blanks; i += 3) s[i] = '\t';
  s += sign;
  if (base == 0) {
    int p = c.choose(4);
    s += p == 1 ? "0x" : p == 2 ? "0B" : p == 3 ? "0" : "";
  }
  s += std::string(zeros, '0');
  for (int i = 0; i < digits; ++i) {
    int d = (base ? base : 2) - 1 - (i % 2 && base > 2);
    s += char(d < 10 ? '0' + d : 'a' + d - 10);
  }
  check(c, s, base);
  check(c, s + "~" + std::string(digits, '1'), base);
  c.outcome(mc::strf("%d %d %d %d ", base, blanks, zeros, digits) + sign);
}
