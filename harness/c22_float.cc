// C22: floating point values print as their decimal value, to the requested number of places.
#include "fmt_common.h"
#include <cmath>
#include <limits>
using swoc::FixedBufferWriter;
using swoc::TextView;

static std::string print(std::string const &fmt, double f)
{
  char buff[2048];
  FixedBufferWriter w(buff, sizeof(buff));
  w.print(TextView(fmt), f);
  return std::string(w.view());
}

/// All accepted decimal forms of the non-negative @a f with @a places digits: the exact value cut there, and one more in the last place.
static std::vector<std::string> decimals(double f, int places)
{
  static char text[1500];
  snprintf(text, sizeof(text), "%.1080f", f); // exact
  std::string s = text;
  size_t dot    = s.find('.');
  bool exact    = s.find_first_not_of('0', dot + 1 + places) == s.npos;
  s.resize(dot + (places ? 1 + places : 0), '0');
  std::vector<std::string> z{s};
  if (!exact) {
    std::string up = s;
    size_t i       = up.size();
    while (true) {
      if (i == 0) {
        up.insert(up.begin(), '1');
        break;
      }
      --i;
      if (up[i] == '.') continue;
      if (up[i] != '9') {
        ++up[i];
        break;
      }
      up[i] = '0';
    }
    z.push_back(up);
  }
  return z;
}

static std::vector<std::string> model(Style const &st, double f)
{
  bool neg         = f < 0;
  std::string head = sign_text(st, neg);
  double a         = neg ? -f : f;
  std::vector<std::string> z;
  if (std::isnan(f)) return st.place_text("NaN");
  if (std::isinf(f)) return st.place_text(head + "Inf");
  if (f == 0) {
    // the sign of zero is not significant
    for (auto const &t : st.place_text("0")) z.push_back(t);
    z.push_back(st.place("+", "0"));
    z.push_back(st.place(head, "0"));
    return z;
  }
  int places = st.prec < 0 ? 2 : st.prec;
  if (a == std::floor(a)) places = 0; // whole numbers have no fraction.
  for (auto const &d : decimals(a, places)) z.push_back(st.place(head, d));
  return z;
}

static void check(mc::Ctx &c, std::string const &style, Style const &st, double f)
{
  std::string got = print("{:" + style + "}", f);
  auto want       = model(st, f);
  MC_CHECK(c, one_of(got, want), "{:%s} of %.20g printed %s, not %s", style.c_str(), f, mc::show(got).c_str(), either(want).c_str());
}
static void check(mc::Ctx &c, std::string const &style, double f)
{
  check(c, style, *parse_style(style), f);
}

MC_INPUTS(decimal_grid, 1, "all decimal fractions of up to 4 digits with several whole parts, in every precision around their length")
{
  static double const WHOLE[] = {0, 1, 9, 10, 99, 255, 999999, 4294967295.0};
  double whole  = WHOLE[c.choose(8)];
  int digits    = 1 + c.choose(c.thorough ? 5 : 4);
  int precision = c.choose(8) - 1;
  int n         = int(std::pow(10, digits) + 0.5);
  std::string style;
  if (precision >= 0) style = "." + std::to_string(precision);
  auto st = *parse_style(style);
  c.note("whole %.0f, %d digits, style %s", whole, digits, style.c_str());
  for (int k = 0; k < n; ++k) {
    double f = whole + double(k) / n;
    check(c, style, st, f);
    check(c, style, st, -f);
  }
  c.outcome(mc::strf("%.0f/%d/%d", whole, digits, precision));
}

MC_INPUTS(binary_grid, 1, "all binary fractions of up to 7 bits, in every precision up to 20")
{
  int bits      = 1 + c.choose(c.thorough ? 10 : 7);
  int precision = c.choose(22) - 1;
  std::string style;
  if (precision >= 0) style = "." + std::to_string(precision);
  auto st = *parse_style(style);
  c.note("%d bits, style %s", bits, style.c_str());
  for (int k = 0; k < (1 << bits); ++k)
    for (double whole : {0.0, 1.0, 999.0, 1099511627775.0}) check(c, style, st, whole + std::ldexp(k, -bits));
  c.outcome(mc::strf("%d/%d", bits, precision));
}

MC_INPUTS(magnitudes, 1, "values around every power of two and ten, in every precision")
{
  int e         = c.choose(2046) - 1022;
  if (!c.thorough && std::abs(e) > 80 && e % 7 != 0 && std::abs(e) < 1015) c.skip();
  static int const PRECS[] = {-1, 0, 1, 2, 5, 9, 10, 11, 14, 15, 16, 17, 18, 19, 20, 21, 40, 1073, 1074, 1075};
  std::vector<double> values;
  double b = std::ldexp(1.0, e);
  for (double f : {b, std::nextafter(b, 0), std::nextafter(b, HUGE_VAL), b * 1.5, b * 1.9999999, b * 1.1})
    if (std::isnormal(f)) values.push_back(f);
  if (e >= -307 && e <= 308) {
    double t = std::pow(10, e);
    for (double f : {t, t * 9.9999999, t * 4.5, 1 - t, 1 + t, 10 - t / 2})
      if (std::isnormal(f)) values.push_back(f);
  }
  for (int p : PRECS) {
    std::string style = p < 0 ? "" : "." + std::to_string(p);
    auto st           = *parse_style(style);
    for (double f : values) check(c, style, st, f);
    check(c, style, st, -values[0]);
  }
  c.outcome(std::to_string(e));
}

MC_INPUTS(fields, 2, "every combination of specifier fields on chosen values")
{
  StyleChoice sc;
  sc.prec           = {"", ".0", ".1", ".3", ".16"};
  sc.max            = {"", ",4", ",9"};
  sc.type           = {"", "g", "d", "x", "b", "s"};
  std::string style = sc.choose(c);
  auto st           = *parse_style(style);
  c.note("style %s", style.c_str());
  static double const INF = std::numeric_limits<double>::infinity();
  for (double f : {0.0, -0.0, 1.0, -10.0, 0.05, -0.05, 0.996, -9.999, 12.34, 1234567.125, -18446744073709551616.0, 1e25, INF, -INF, double(NAN)}) check(c, style, st, f);
  c.outcome(style);
}

MC_INPUTS(rounding, 1, "runs of nines and carries at every length, and single precision")
{
  int whole = c.choose(12), frac = 1 + c.choose(16);
  std::string text = std::string(whole, '9') + "." + std::string(frac, '9');
  if (text.size() > 17) c.skip();
  for (int last = 0; last < 10; ++last) {
    text.back()  = char('0' + last);
    double value = std::stod(text);
    for (int p = 0; p < 19; ++p) {
      check(c, "." + std::to_string(p), value);
      check(c, "." + std::to_string(p), -value);
    }
    float f         = static_cast<float>(value);
    std::string got;
    char buff[256];
    FixedBufferWriter w(buff, sizeof(buff));
    w.print("{}", f);
    got = std::string(w.view());
    MC_CHECK(c, one_of(got, model(Style{}, f)), "float %.9g printed %s", f, got.c_str());
  }
  c.outcome(text);
}
