// C28: IP ranges as text and as sets of addresses.
#include "ip_common.h"

using swoc::IP4Range;
using swoc::IP6Range;
using swoc::IPRange;
using swoc::IPRangeView;

// --- oracle

static Verdict both(Verdict a, Verdict b) { return a == NO || b == NO ? NO : a == YES && b == YES ? YES : EITHER; }
static Verdict value4(string const &s, u128 &v)
{
  uint32_t n = 0;
  Verdict z  = ip4_value(s, n);
  v          = n;
  return z;
}
static Verdict value6(string const &s, u128 &v)
{
  V6 b{};
  Verdict z = ip6_value(s, b);
  v         = 0;
  for (auto x : b) v = v << 8 | x;
  return z;
}
/// Width of a mask. A plain decimal number is standard, other numbers and space around may be rejected.
static Verdict mask_value(string const &text, unsigned W, std::vector<unsigned> &w)
{
  string s  = trimmed(text);
  Verdict z = s == text ? YES : EITHER;
  if (!s.empty() && s[0] == '+') s.erase(0, 1), z = EITHER;
  u128 v;
  Verdict k = c_number(s, v);
  if (k != NO && v <= W) w.push_back(unsigned(v));
  if (s.size() > 1 && s[0] == '0') z = EITHER;
  bool digits = !s.empty();
  v           = 0;
  for (char x : s) digits &= x >= '0' && x <= '9', v = v > 1000 ? v : v * 10 + x - '0';
  if (digits && v <= W) w.push_back(unsigned(v));
  return w.empty() ? NO : z;
}
struct Want {
  Verdict z = NO;
  bool any  = false;                        ///< contains an address
  std::vector<std::pair<u128, u128>> r;     ///< possible ranges
};
static Want denoted(string const &s, bool six)
{
  auto value = six ? value6 : value4;
  unsigned W = six ? 128 : 32;
  u128 all   = six ? ~u128(0) : u128(0xFFFFFFFF);
  Want w;
  u128 lo = 0, hi = 0;
  size_t k = s.find_first_of("/-");
  if (k == string::npos) {
    if ((w.z = value(s, lo)) != NO) w.r.push_back({lo, lo});
  } else if (s[k] == '-') {
    w.z = both(value(s.substr(0, k), lo), value(s.substr(k + 1), hi));
    if (w.z != NO && lo <= hi) w.r.push_back({lo, hi});
    if (w.z != NO && lo > hi) w.z = EITHER; // backwards: has no addresses, whether or not that is called an error
  } else {
    std::vector<unsigned> widths;
    w.z = both(value(s.substr(0, k), lo), mask_value(s.substr(k + 1), W, widths));
    if (w.z != NO)
      for (unsigned n : widths) {
        u128 host = n == 0 ? all : n == W ? u128(0) : all >> n;
        w.r.push_back({lo & ~host & all, lo | host});
      }
  }
  return w;
}
static std::pair<u128, u128> NR(IP4Range const &r) { return {N(r.min()), N(r.max())}; }
static std::pair<u128, u128> NR(IP6Range const &r) { return {N(r.min()), N(r.max())}; }
static string show_r(std::pair<u128, u128> p) { return S(p.first) + "-" + S(p.second); }
static string show_w(Want const &w)
{
  string z = "";
  for (auto &p : w.r) z += (z.empty() ? "" : " or ") + show_r(p);
  return z.empty() ? "empty" : z;
}
template <typename R> static void same(mc::Ctx &c, string const &s, char const *what, bool accepted, R const &r, Want const &w)
{
  MC_CHECK(c, w.z == EITHER || accepted == (w.z == YES), "%s '%s' %s", what, mc::show(s).c_str(), accepted ? "is accepted" : "is rejected");
  if (!accepted || w.r.empty()) {
    MC_CHECK(c, r.empty(), "%s '%s' is %s instead of empty", what, mc::show(s).c_str(), show_r(NR(r)).c_str());
  } else {
    MC_CHECK(c, !r.empty() && std::find(w.r.begin(), w.r.end(), NR(r)) != w.r.end(), "%s '%s' is %s instead of %s", what, mc::show(s).c_str(),
             r.empty() ? "empty" : show_r(NR(r)).c_str(), show_w(w).c_str());
  }
}
static IPRange const OLD4{IP4Addr(in_addr_t(0x01020304)), IP4Addr(in_addr_t(0xA0B0C0D0))};
static IPRange const OLD6{A(u128(0x1234) << 112), A(u128(0xABCD) << 112)};
static IPAddr const IN_OLD[] = {IP4Addr(in_addr_t(0x01020304)), IP4Addr(in_addr_t(0x80000000)), A(u128(0x1234) << 112), A(u128(0xABCD) << 112)};
/// Load @a s as range of either kind.
static void parse(mc::Ctx &c, string const &s)
{
  Exact m(s);
  Want w4 = denoted(s, false), w6 = denoted(s, true);
  for (int old = 0; old < 2; ++old) {
    IP4Range r4 = old ? OLD4.ip4() : IP4Range();
    IP6Range r6 = old ? OLD6.ip6() : IP6Range();
    bool g4 = r4.load(m.sv());
    bool g6 = r6.load(m.sv());
    same(c, s, "IP4Range", g4, r4, w4);
    same(c, s, "IP6Range", g6, r6, w6);
  }
  {
    IP4Range r4(m.sv());
    IP6Range r6(m.sv());
    same(c, s, "IP4Range construct", w4.z == EITHER ? !r4.empty() : w4.z == YES, r4, w4);
    same(c, s, "IP6Range construct", w6.z == EITHER ? !r6.empty() : w6.z == YES, r6, w6);
  }
  // any family
  bool number = s.find('.') == string::npos && s.find(':') == string::npos;
  for (int old = 0; old < 4; ++old) {
    IPRange r = old == 0 ? IPRange() : old == 1 ? OLD4 : old == 2 ? OLD6 : IPRange(m.sv());
    bool g    = old == 3 ? !r.empty() : r.load(m.sv());
    if (!g) {
      MC_CHECK(c, r.empty(), "IPRange '%s' is rejected over a range of kind %d, but the range is not empty", mc::show(s).c_str(), old);
      for (auto &a : IN_OLD) MC_CHECK(c, !r.contains(a), "IPRange '%s' is rejected over a range of kind %d, but contains an address", mc::show(s).c_str(), old);
      MC_CHECK(c, (w4.z != YES || number || w4.r.empty()) && w6.z != YES, "IPRange '%s' is rejected", mc::show(s).c_str());
    } else {
      MC_CHECK(c, w4.z != NO || w6.z != NO, "IPRange '%s' is accepted", mc::show(s).c_str());
      MC_CHECK(c, r.is_ip4() || r.is_ip6() || r.empty(), "IPRange '%s' has no family", mc::show(s).c_str());
      if (r.is_ip4()) same(c, s, "IPRange", true, r.ip4(), w4);
      if (r.is_ip6()) same(c, s, "IPRange", true, r.ip6(), w6);
    }
  }
}
MC_INPUTS(texts4, 3, "all texts of up to 6 (7) characters out of digits, dot, separators and others, as range of either family")
{
  string s = choose_text(c, c.thorough ? 7 : 6, "029.-/ x");
  parse(c, s);
  c.outcome(s);
}
MC_INPUTS(texts6, 3, "all texts of up to 7 (8) characters out of colon, hexadecimal digits, separators and others, as range of either family")
{
  string s = choose_text(c, c.thorough ? 8 : 7, ":18F/-[");
  parse(c, s);
  c.outcome(s);
}
static char const *const ADDR[] = {"1.2.3.4",  "0.0.0.0",   "255.255.255.255", "1.2.3.5", "::",   "::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "1:2:3:4:5:6:7:8", "0",
                                   "",         " 1.2.3.4 ", "[::2]",           "1.2.3",   "0x10", "x",   "*",
                                   "1.2.3.256", "1::2::3",  "::ffff:1.2.3.4",  " "};
MC_INPUTS(pairs, 1, "all texts of two of 20 addresses and others with 8 separators between them, plain or with a mask or a third address")
{
  static char const *const SEP[]  = {"-", "/", " - ", "--", "-/", "/-", ",", " "};
  static char const *const TAIL[] = {"", "/8", "-1.2.3.4", "-::1", "/", "-", " "};
  string s = string(ADDR[c.choose(20)]) + SEP[c.choose(8)] + ADDR[c.choose(20)] + TAIL[c.choose(7)];
  parse(c, s);
  c.outcome(s);
}
MC_INPUTS(masks, 1, "all mask texts of up to 4 (5) decimal digits, and of up to 4 (5) other characters, on 8 addresses of either family")
{
  bool num  = c.flag();
  string a  = ADDR[c.choose(8)];
  int  n    = c.thorough ? 5 : 4;
  string mk = num ? choose_text(c, n, "0123456789") : choose_text(c, n, "03 xb+-./:");
  parse(c, a + "/" + mk);
  c.outcome(a + "/" + mk);
}
MC_INPUTS(bytes_in_place, 1, "all bytes, once and twice, at every place of 10 ranges")
{
  static char const *const BASE[] = {"1.2.3.4-1.2.3.9", "10.0.0.0/8", "::1-::2", "a::/16", "1.2.3.4", "::f", "0-9", "1.2.3.4/255.0.0.0", "::1-[::2]", "1:2:3:4:5:6:7:8-ffff::"};
  string b(BASE[c.choose(10)]);
  string x(1 + c.choose(2), char(c.choose(256)));
  for (size_t i = 0; i <= b.size(); ++i) {
    string s = b;
    parse(c, s.insert(i, x));
    if (i < b.size()) parse(c, (s = b).replace(i, 1, x));
  }
  c.outcome(b + "|" + x);
}
MC_INPUTS(long_masks, 1, "mask numbers around powers of 2 up to 2^68 in 4 bases")
{
  u128 v = (u128(1) << c.choose(69)) + c.choose(261) - 130;
  if (v >> 100) c.skip();
  string d, x = "0x", o = "0", b = "0b";
  for (u128 p = v; p; p /= 10) d.insert(0, 1, char('0' + int(p % 10)));
  if (d.empty()) d = "0";
  for (int i = 68; i >= 0; --i) b += char('0' + int(v >> i & 1));
  for (int i = 17; i >= 0; --i) x += "0123456789abcdef"[int(v >> 4 * i & 15)];
  for (int i = 23; i >= 0; --i) o += char('0' + int(v >> 3 * i & 7));
  for (auto &t : {d, x, o, b}) {
    parse(c, "1.2.3.4/" + t);
    parse(c, "1:2::3:4/" + t);
    // as a mask alone
    Exact m(t);
    std::vector<unsigned> w;
    Verdict want = mask_value(t, 128, w);
    IPMask k(7);
    bool g = k.load(m.sv());
    MC_CHECK(c, want == EITHER || g == (want == YES), "mask '%s' is %s", t.c_str(), g ? "accepted" : "rejected");
    if (g) MC_CHECK(c, std::find(w.begin(), w.end(), unsigned(k.width())) != w.end(), "mask '%s' is %u", t.c_str(), k.width());
  }
  if (v == 0) {
    IPMask k(7);
    Exact m("");
    MC_CHECK(c, !k.load(m.sv()), "an empty mask text is accepted");
  }
  c.outcome(d);
}

// --- sets of addresses, print and load

template <typename T> struct Of;
template <> struct Of<IP4Range> { using I = uint32_t; static constexpr unsigned W = 32; };
template <> struct Of<IP6Range> { using I = u128; static constexpr unsigned W = 128; };

template <typename X> static string text_of(string const &fmt, X const &x)
{
  swoc::LocalBufferWriter<200> w;
  w.print(fmt, x);
  return string(w.view());
}
template <typename R> static void prints(mc::Ctx &c, R const &r)
{
  using I = typename Of<R>::I;
  constexpr unsigned W = Of<R>::W;
  I a = N(r.min()), b = N(r.max());
  IPRange g(r);
  IPRangeView v;
  v.assign(r);
  auto one = [&](I x) { return text_of("{}", A(x)); };
  string plain = one(a) + "-" + one(b);
  string wc    = plain;
  I d          = b - a;
  if (a == b) wc = one(a);
  else if ((d & (d + 1)) == 0 && (a & d) == 0) {
    unsigned h = 0;
    while (h < W && (d >> h & 1)) ++h;
    wc = one(a) + "/" + std::to_string(W - h);
  }
  for (auto &[fmt, want] : {std::pair<string, string>{"{}", plain}, {"{::c}", wc}}) {
    for (auto &t : {text_of(fmt, r), text_of(fmt, g), text_of(fmt, v)}) MC_CHECK(c, t == want, "range %s-%s prints with '%s' as '%s', expected '%s'", S(a).c_str(), S(b).c_str(), fmt.c_str(), t.c_str(), want.c_str());
    Exact m(want);
    R x;
    MC_CHECK(c, x.load(m.sv()) && x == r && NR(x) == NR(r), "range '%s' loads back as %s", want.c_str(), show_r(NR(x)).c_str());
    IPRange y;
    MC_CHECK(c, y.load(m.sv()) && y == g, "generic range '%s' loads back differently", want.c_str());
  }
}
template <typename R> static void sets(mc::Ctx &c, R const &r, std::vector<typename Of<R>::I> const &probes)
{
  using I = typename Of<R>::I;
  I a = N(r.min()), b = N(r.max());
  bool none = a > b;
  IPRange g(r), h(A(a), A(b)), k(IPAddr(A(a)), IPAddr(A(b))), l(r);
  IPRangeView v, z;
  v.assign(r);
  bool six = Of<R>::W == 128;
  MC_CHECK(c, r.empty() == none && g.empty() == none && h.empty() == none && k.empty() == none && v.empty() == none, "empty of %s", show_r(NR(r)).c_str());
  for (IPRange *p : {&g, &h, &k}) {
    MC_CHECK(c, p->is_ip4() == !six && p->is_ip6() == six && p->is(six ? AF_INET6 : AF_INET) && !p->is(six ? AF_INET : AF_INET6) && p->family() == (six ? AF_INET6 : AF_INET),
             "family of %s", show_r(NR(r)).c_str());
    if (!none) MC_CHECK(c, p->min() == IPAddr(A(a)) && p->max() == IPAddr(A(b)), "generic range of %s has other ends", show_r(NR(r)).c_str());
    MC_CHECK(c, *p == g && !(*p != g) && v == *p, "generic ranges of %s differ", show_r(NR(r)).c_str());
  }
  MC_CHECK(c, v.is_ip4() == !six && v.is_ip6() == six && v.is(r.family()) && v.valid() && v == v && !(v != v), "view of %s", show_r(NR(r)).c_str());
  MC_CHECK(c, !(v == z) && v != z && !z.valid() && z.empty() && !(z == g) && z == IPRange(), "invalid view and %s", show_r(NR(r)).c_str());
  if (!none) MC_CHECK(c, v.min() == IPAddr(A(a)) && v.max() == IPAddr(A(b)), "ends of view of %s", show_r(NR(r)).c_str());
  IPRange from_view(v), back(A(~a), A(~b));
  back = v;
  MC_CHECK(c, from_view == g && back == g, "range of view of %s", show_r(NR(r)).c_str());
  back = z;
  MC_CHECK(c, back.empty(), "a range assigned from an invalid view is not empty");
  for (I x : probes) {
    bool in = a <= x && x <= b;
    auto q  = A(x);
    MC_CHECK(c, r.contains(q) == in, "%s contains %s is %d", show_r(NR(r)).c_str(), S(x).c_str(), !in);
    MC_CHECK(c, g.contains(q) == in && v.contains(q) == in, "generic %s contains %s is %d", show_r(NR(r)).c_str(), S(x).c_str(), !in);
    MC_CHECK(c, g.contains(IPAddr(q)) == in && v.contains(IPAddr(q)) == in, "generic %s contains generic %s is %d or %d", show_r(NR(r)).c_str(), S(x).c_str(), g.contains(IPAddr(q)),
             v.contains(IPAddr(q)));
  }
  // addresses of the other family, with the same bits in several places
  for (int i = 0; i < 8; ++i) {
    if (six) {
      IP4Addr o = A(uint32_t(u128(i < 4 ? a : b) >> (i % 4 * 32)));
      MC_CHECK(c, !g.contains(o) && !g.contains(IPAddr(o)) && !v.contains(o) && !v.contains(IPAddr(o)), "IPv6 range %s contains IPv4 %s", show_r(NR(r)).c_str(), S(N(o)).c_str());
    } else {
      IP6Addr o = A(u128(i < 4 ? a : b) << (i % 4 * 32));
      MC_CHECK(c, !g.contains(o) && !g.contains(IPAddr(o)) && !v.contains(o) && !v.contains(IPAddr(o)), "IPv4 range %s contains IPv6 %s", show_r(NR(r)).c_str(), S(N(o)).c_str());
    }
  }
  MC_CHECK(c, !g.contains(IPAddr()) && !v.contains(IPAddr()), "%s contains the invalid address", show_r(NR(r)).c_str());
  l.clear();
  MC_CHECK(c, l.empty() && !l.is_ip4() && !l.is_ip6() && l == IPRange() && !l.contains(A(a)) && !l.contains(IPAddr(A(a))), "clear of %s", show_r(NR(r)).c_str());
}
template <typename R> static void ranges(mc::Ctx &c)
{
  using I = typename Of<R>::I;
  auto g  = grid<I>(c.thorough || sizeof(I) == 4);
  I a = g[c.choose(int(g.size()))];
  for (I b : g) {
    R r(A(a), A(b));
    std::vector<I> probes{a, b, I(a - 1), I(a + 1), I(b - 1), I(b + 1), I(a / 2 + b / 2), 0, I(~I(0)), I(~a), I(~b)};
    sets(c, r, probes);
    if (a <= b) prints(c, r);
    R s;
    s.assign(A(a), A(b));
    MC_CHECK(c, s == r && NR(s) == NR(r), "assign of %s", show_r(NR(r)).c_str());
    swoc::DiscreteRange<decltype(A(a))> base(A(a), A(b));
    MC_CHECK(c, NR(R(base)) == NR(r), "range from its base of %s", show_r(NR(r)).c_str());
    if (a <= b) {
      IPRange p(r);
      for (auto &o : {R(A(a)), R(A(b)), R(A(a), A(a)), R(A(b), A(b))}) {
        bool eq = NR(o) == NR(r);
        IPRange q(o);
        IPRangeView u, v;
        u.assign(r), v.assign(o);
        MC_CHECK(c, (o == r) == eq && (o != r) == !eq && (p == q) == eq && (p != q) == !eq && (u == v) == eq && (u != v) == !eq && (u == q) == eq, "equality of %s and %s",
                 show_r(NR(r)).c_str(), show_r(NR(o)).c_str());
      }
      MC_CHECK(c, p != OLD4 && p != OLD6 && !(p == IPRange()), "%s is equal to another range", show_r(NR(r)).c_str());
    }
  }
  // single addresses
  R one(A(a), A(a));
  for (IPRange const &p : {IPRange(A(a)), IPRange(IPAddr(A(a)))})
    MC_CHECK(c, p == IPRange(one) && p.min() == IPAddr(A(a)) && p.max() == IPAddr(A(a)) && p.contains(A(a)) && !p.contains(A(I(a + 1))) && !p.contains(A(I(a - 1))), "range of the address %s", S(a).c_str());
  // ends that are not of the same family
  IPAddr const own(A(a)), others[] = {IPAddr(), Of<R>::W == 32 ? IPAddr(A(u128(a))) : IPAddr(A(uint32_t(u128(a)))), Of<R>::W == 32 ? IPAddr(A(u128(a) << 96)) : IPAddr(A(uint32_t(u128(a) >> 96))), Of<R>::W == 32 ? IPAddr(IP6Addr::MAX) : IPAddr(IP4Addr::MAX)};
  for (auto const &o : others)
    for (IPRange const &p : {IPRange(own, o), IPRange(o, own), IPRange(IPAddr(), IPAddr())})
      MC_CHECK(c, p.empty() && !p.is_ip4() && !p.is_ip6() && p == IPRange() && !p.contains(own) && !p.contains(o), "range of %s and an address of another family (%d) is not invalid", S(a).c_str(), o.family());
  IPRange const far = Of<R>::W == 32 ? OLD6 : OLD4;
  IPRangeView u, v;
  if (Of<R>::W == 32) v.assign(far.ip6());
  else v.assign(far.ip4());
  u.assign(one);
  MC_CHECK(c, !(u == v) && u != v && !(u == far) && !(v == IPRange(one)) && v == far, "view of %s and of another family", S(a).c_str());
  // networks
  for (unsigned n = 0; n <= Of<R>::W; ++n) {
    I host = n == 0 ? I(~I(0)) : n == Of<R>::W ? I(0) : I(I(~I(0)) >> n);
    R r(A(I(~a))), s(A(I(~a)));
    if constexpr (Of<R>::W == 32) r = R(A(a), IPMask(n));
    else r.assign(A(a), IPMask(n));
    s.assign(A(a), IPMask(n));
    std::pair<u128, u128> want{I(a & ~host), I(a | host)};
    MC_CHECK(c, NR(r) == want && NR(s) == want, "%s with mask of %u bits is %s", S(a).c_str(), n, show_r(NR(r)).c_str());
    if (n % 8 < 2 || n % 8 == 7) prints(c, r), sets(c, r, {I(a), I(a & ~host), I((a & ~host) - 1), I(a | host), I((a | host) + 1)});
  }
  c.outcome(S(a));
}
MC_INPUTS(sets4, 1, "all pairs of IPv4 addresses around powers of two as range: contents, equality, printed and loaded; all of them with all mask widths") { ranges<IP4Range>(c); }
MC_INPUTS(sets6, 1, "all pairs of IPv6 addresses around octet boundaries (all powers of two) as range: contents, equality, printed and loaded; all of them with all mask widths") { ranges<IP6Range>(c); }

MC_INPUTS(scale, 1, "each of 9 ranges with every character, or a character of 9 in front of every character or at the end, repeated up to 70000 times")
{
  static string const TEXTS[] = {"1.2.3.4-1.2.3.9", "10.0.0.0/8", "::1-::5", "fe80::/10", "1.2.3.0/255.255.255.0", "1.2.3.4", "::", "1::2-1::1", "7/3"};
  static int const COUNT[]    = {2, 3, 4, 5, 9, 17, 64, 127, 128, 129, 254, 255, 256, 257, 1000, 65536, 70000};
  string t(c.pick(TEXTS)), s(t);
  int n = c.pick(COUNT), kind = c.choose(10);
  if (n > 1000 && !c.thorough && t.size() % 5) return c.skip();
  for (size_t i = 0; i < t.size() + (kind > 0); ++i) {
    (s = t).insert(i, string(size_t(n) - (kind == 0), kind ? "0:. []/1-f"[kind] : t[i]));
    parse(c, s);
  }
  c.outcome(mc::strf("%d %d ", n, kind) + t);
}
