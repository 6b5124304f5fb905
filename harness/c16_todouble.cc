// C16: text to floating point conversion.
#include "text_common.h"
#include <cfloat>
#include <cmath>
#include <swoc/TextView.h>

using swoc::TextView;

// Length of the longest prefix that is a decimal number.
static size_t number(std::string const &s)
{
  size_t i = 0, e;
  auto dig = [&](size_t k) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; };
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  bool any = false;
  for (; dig(i); ++i) any = true;
  if (i < s.size() && s[i] == '.' && (any || dig(i + 1)))
    for (++i; dig(i); ++i) any = true;
  if (!any) return 0;
  e = i;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (dig(i)) {
      while (dig(i)) ++i;
      e = i;
    }
  }
  return e;
}
static int64_t rank(double d) // position of the value in the sequence of all values
{
  int64_t z;
  memcpy(&z, &d, sizeof z);
  return z < 0 ? int64_t(INT64_MIN) - z : z;
}
static constexpr int64_t ULPS = 4; // "a few"

static void check(mc::Ctx &c, std::string const &s)
{
  Exact m(s);
  TextView v(m.data(), m.n);
  size_t n    = number(s);
  double want = n ? strtod(s.substr(0, n).c_str(), nullptr) : 0;
  TextView parsed("old");
  double g = swoc::svtod(v, &parsed), h = swoc::svtod(v);
  MC_CHECK(c, std::isfinite(want) ? std::isfinite(g) || (rank(fabs(want)) + ULPS >= rank(INFINITY)) : !std::isnan(g), "svtod('%s') is %g, expected %.17g", mc::show(s).c_str(), g, want);
  MC_CHECK(c, std::llabs(rank(g) - rank(want)) <= ULPS, "svtod('%s') is %.17g, expected %.17g", mc::show(s).c_str(), g, want);
  MC_CHECK(c, rank(g) == rank(h), "svtod('%s') without parsed text is %.17g instead of %.17g", mc::show(s).c_str(), h, g);
  MC_CHECK(c, parsed.size() == n && (n == 0 || parsed.data() == m.data()), "svtod('%s') used '%s', expected '%s'", mc::show(s).c_str(), mc::show(std::string(parsed)).c_str(), mc::show(s.substr(0, n)).c_str());
}

MC_INPUTS(forms, 3, "all texts of up to 5 (7) characters out of digits, point, signs, exponent letters and others")
{
  std::string s = choose_text(c, c.thorough ? 7 : 5, std::string_view("05.-+eEx\xC3", 9));
  check(c, s);
  c.outcome(s);
}

MC_INPUTS(grammar, 3, "all combinations of sign, whole part, fraction, exponent and following text out of lists")
{
  static std::string const whole[] = {"", "0", "7", "00", "10", "123", "999999999999999", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "184467440737095516150", "1234567890123456789012345678901234567890", "000000000000000000000000000000000000001", "00000000000000000000000000"};
  static std::string const frac[]  = {"-", "", "0", "5", "25", "1", "000001", "999999999999999999999", "0000000000000000000000000000000000000001", "3333333333333333333333333333333333333333333333"};
  static std::string const exp[]   = {"-", "", "0", "1", "+1", "-1", "22", "-22", "23", "+", "-", "300", "-300", "308", "309", "-308", "-320", "-324", "-330", "0010", "400", "-400", "2147483647", "2147483648", "4294967296", "-2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-18446744073709551616", "99999999999999999999999999"};
  static std::string const rest[]  = {"", " ", "e", ".", "-", "1x", "5"};
  static std::string const sign[]  = {"", "-", "+"};
  std::string s = c.pick(sign);
  s += c.pick(whole);
  if (int i = c.choose(10)) s += "." + frac[i];
  if (int i = c.choose(31)) s += (i & 1 ? "e" : "E") + exp[i];
  s += c.pick(rest);
  check(c, s);
  c.outcome(s);
}

MC_INPUTS(exponents, 2, "mantissas of 1 to 20 digits with every exponent from -345 to 310")
{
  int e = -345 + c.choose(656);
  static std::string const man[] = {"1", "2", "3", "5", "7", "9", "17", "99", "123", "4.9", "1.7976931348623157", "2.2250738585072014", "9.999999999999999", "1.0000000000000002", "8.5070591730234616", "1234567.8901234567", "0.000123", "999999999999999999", "1000000000000000000", "17976931348623158079", "9007199254740993", "0.1", "6.6260", "0.30000000000000004"};
  std::string s = c.pick(man) + "e" + std::to_string(e);
  check(c, s);
  c.outcome(s);
}

MC_INPUTS(places, 2, "every digit pair at every distance up to 25 (40) places, point at every place")
{
  int n = 1 + c.choose(c.thorough ? 40 : 25), a = c.choose(10), b = c.choose(10), p = c.choose(n + 2), fill = c.choose(3) ;
  std::string s = std::string(1, char('0' + a)) + std::string(n - 1, fill == 0 ? '0' : fill == 1 ? '9' : '4') + char('0' + b);
  s.insert(p, ".");
  check(c, s);
  check(c, "-" + s);
  c.outcome(s);
}

MC_INPUTS(integers, 2, "integers around every power of two and of ten up to 2^66")
{
  int k = c.choose(67), d = c.choose(9);
  unsigned __int128 v = (unsigned __int128)(1) << k;
  if (c.flag()) {
    v = 1;
    for (int i = 0; i < k % 21; ++i) v *= 10;
  }
  v += d;
  if (v >= 4) v -= 4;
  std::string s;
  do s.insert(s.begin(), char('0' + int(v % 10)));
  while (v /= 10);
  for (char const *sg : {"", "-", "+"})
    for (char const *tail : {"", ".", ".0", "e0", " "}) check(c, sg + s + tail);
  c.outcome(s);
}

MC_INPUTS(scale, 2, "texts with many digits in front of and behind the point, many zeros and long exponents")
{
  static int const COUNT[] = {0, 1, 17, 18, 19, 20, 21, 40, 127, 128, 255, 256, 257, 310, 330, 700, 5000};
  int zeros = c.pick(COUNT), whole = c.pick(COUNT), inner = c.pick(COUNT), frac = c.pick(COUNT);
  char digit = char('1' + 4 * c.choose(3));
  // Exponents that are far away, or bring the value back.
  int shift = c.choose(5);
  if ((zeros > 40) + (whole > 40) + (inner > 40) + (frac > 40) > (c.thorough ? 3 : 2)) return c.skip();
  std::string s = std::string(zeros, '0') + std::string(whole, digit);
  if (inner + frac) s += "." + std::string(inner, '0') + std::string(frac, digit);
  if (shift == 1) s += mc::strf("e%d", whole ? -whole : inner);
  else if (shift == 2) s += mc::strf("e%d", whole ? 300 - whole : 300 + inner);
  else if (shift == 3) s += mc::strf("e%d", whole ? -whole - 300 : -300 + inner);
  else if (shift == 4) s += "e" + std::string(zeros, '0') + "7";
  check(c, s);
  check(c, "-" + s + "e");
  c.outcome(mc::strf("%d %d %d %d %c %d", zeros, whole, inner, frac, digit, shift));
}

MC_INPUTS(octets, 1, "every octet at every place of numbers of all forms, in place of and in addition to what is there")
{
  static std::string const FORM[] = {"", "5", "-5", "+1.5", ".25", "3.", "7e2", "7E-2", "12.5e+3", "0.0", "-0.75E1", "99e"};
  int o         = c.choose(256);
  std::string s = c.pick(FORM);
  int i         = c.choose(int(s.size()) + 1);
  if (i < int(s.size()) && c.flag()) s[i] = char(o);
  else s.insert(i, 1, char(o));
  int j = c.choose(4); // another one behind it
  if (j) s.insert(i + 1, 1, "\0" "2e-"[j]);
  check(c, s);
  c.outcome(s);
}
