// C36: printing of addresses, endpoints, services, ranges, networks and masks: selected parts, radix, internal fill and field.
#include "print_common.h"
#include "ip_common.h"
#include <sstream>
#include <sys/un.h>

using swoc::IP4Net;
using swoc::IP4Range;
using swoc::IP4Srv;
using swoc::IP6Net;
using swoc::IP6Range;
using swoc::IP6Srv;
using swoc::IPEndpoint;
using swoc::IPNet;
using swoc::IPRange;
using swoc::IPRangeView;
using swoc::IPSrv;

/// What an extension asks for.
struct Ext {
  string text;
  char fill  = 0; // fill of the elements if there is one
  bool addr = true, port = true, family = false, compact = false;
};
static Ext make_ext(string fill, string const &parts)
{
  Ext e;
  e.text = fill + parts;
  if (!fill.empty()) e.fill = fill.size() > 1 ? fill[0] : '0';
  if (!parts.empty()) {
    auto has = [&](char const *cs) { return parts.find_first_of(cs) != string::npos; };
    e.addr = has("aA"), e.port = has("pP"), e.family = has("fF"), e.compact = has("c");
  }
  return e;
}
static string number(unsigned n, char type, size_t width, char fill)
{
  Style st;
  st.type  = strchr("dxXob", type) ? type : 'd';
  string s = model_int(st, n);
  return fill && s.size() < width ? string(width - s.size(), fill) + s : s;
}
static string addr4(uint32_t v, char type, char fill)
{
  string s;
  for (int i = 3; i >= 0; --i) s += number(v >> 8 * i & 255, type, 3, fill) + (i ? "." : "");
  return s;
}
static string addr6(V6 const &v, char type, char fill)
{
  if (!strchr("dxXob", type)) type = 'x';
  if (!fill && (type == 'x' || type == 'X')) return text6(v, type == 'X', false);
  string hexed = fill ? "" : text6(v, false, false), s;
  if (fill) {
    for (int i = 0; i < 8; ++i) s += number(v[2 * i] * 256 + v[2 * i + 1], type, 4, fill) + (i < 7 ? ":" : "");
    return s;
  }
  for (size_t i = 0; i < hexed.size();) { // same compression, other radix
    if (hexed[i] == ':') {
      s += hexed[i++];
    } else {
      size_t k = hexed.find(':', i);
      if (k == string::npos) k = hexed.size();
      s += number(unsigned(std::stoul(hexed.substr(i, k - i), nullptr, 16)), type, 0, 0);
      i = k;
    }
  }
  return s;
}
static string family(int f, char type)
{
  if (strchr("dxXob", type)) return number(f, type, 0, 0);
  string s = f == AF_INET ? "ipv4" : f == AF_INET6 ? "ipv6" : f == AF_UNIX ? "unix" : f == AF_UNSPEC ? "unspec" : "unknown";
  if (type == 'S')
    for (char &ch : s) ch = char(toupper(ch));
  return s;
}
static std::vector<uint32_t> const V4{0, 1, 0x7F000001, 0x0A640909, 0xAC136369, 0xFFFFFFFF, 0xC0A80001, 0x09FF0A64};
static std::vector<V6> six_values()
{
  auto v = [](char const *s) {
    V6 z{};
    if (ip6_value(s, z) != YES) abort();
    return z;
  };
  return {v("::"), v("::1"), v("1337::ded:beef"), v("1:2:3:4:5:6:7:8"), v("ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"), v("a00::"), v("0:1:0:0:2:0:0:3"), v("fe80::0:9f:0:a"), v("0:b:c:d:e:f:10:0")};
}
static std::vector<V6> const V6S = six_values();
static char const *const FILLS[] = {"", "=", "0=", " =", "*=", "a=", "p=", "f="};
static char const *const PARTS[] = {"", "a", "p", "f", "ap", "pa", "af", "fa", "pf", "fp", "apf", "fpa", "A", "P", "F", "FPA"};

MC_INPUTS(endpoints, 3, "endpoints and socket addresses of 5 families with every selection of parts, fill of the elements, radix and field")
{
  int which = c.choose(int(V4.size() + V6S.size() + 3));
  Ext e     = make_ext(FILLS[c.choose(8)], PARTS[c.choose(16)]);
  unsigned port = c.pick(std::vector<unsigned>{0, 8, 80, 4951, 65535});
  auto f        = choose_field(c, "gdxXobsS", e.text.c_str(), which % 4 == 1 && (port == 80 || c.thorough));
  char type     = f.st.type;
  IPEndpoint ep;
  int fam = AF_INET;
  string addr;
  bool six = false;
  if (which < int(V4.size())) {
    ep   = IPEndpoint(IPSrv(A(V4[which]), port));
    addr = addr4(V4[which], type, e.fill);
  } else if (which < int(V4.size() + V6S.size())) {
    V6 v = V6S[which - V4.size()];
    six  = true;
    ep   = IPEndpoint(IPSrv(from(v), port));
    fam  = AF_INET6;
    addr = addr6(v, type, e.fill);
  } else {
    fam              = (int const[]){AF_UNSPEC, AF_UNIX, 99}[which - V4.size() - V6S.size()];
    ep.sa.sa_family = fam;
    addr             = mc::strf("*Invalid IP family [%d]*", fam);
    port             = 0;
    if (e.addr && e.port) c.skip(); // not specified
  }
  string want;
  if (e.addr) want = six && e.port ? "[" + addr + "]" : addr;
  if (e.addr && e.port) want += ":";
  if (e.port) want += number(port, type, 5, e.fill);
  if (e.family) want += (e.addr || e.port ? " " : "") + family(fam, type);
  auto all = place_all(f.st, {want});
  c.note("%s", f.fmt.c_str());
  check_print(c, "an endpoint", f.fmt, all, ep);
  check_print(c, "a socket address", f.fmt, all, static_cast<sockaddr const *>(&ep.sa));
  if (fam == AF_INET) check_print(c, "an IPv4 socket address", f.fmt, all, static_cast<sockaddr_in const *>(&ep.sa4));
  if (fam == AF_INET6) check_print(c, "an IPv6 socket address", f.fmt, all, static_cast<sockaddr_in6 const *>(&ep.sa6));
  c.outcome(mc::strf("%d.%u%s", which, port, f.fmt.c_str()));
}

MC_INPUTS(addresses, 3, "addresses, also invalid, with every selection of parts, fill of the elements, radix and field")
{
  int which = c.choose(int(V4.size() + V6S.size() + 1));
  Ext e     = make_ext(FILLS[c.choose(8)], PARTS[c.choose(16)]);
  auto f    = choose_field(c, "gdxXobsS", e.text.c_str(), which % 4 == 1 || c.thorough);
  char type = f.st.type;
  IPAddr a;
  string addr;
  c.note("%s", f.fmt.c_str());
  if (which < int(V4.size())) {
    a    = A(V4[which]);
    addr = addr4(V4[which], type, e.fill);
    if (e.addr && !e.family) check_print(c, "an IPv4 address", f.fmt, place_all(f.st, {addr}), A(V4[which]));
  } else if (which < int(V4.size() + V6S.size())) {
    V6 v = V6S[which - V4.size()];
    a    = from(v);
    addr = addr6(v, type, e.fill);
    if (e.addr && !e.family) {
      check_print(c, "an IPv6 address", f.fmt, place_all(f.st, {addr}), from(v));
      check_print(c, "an in6_addr", f.fmt, place_all(f.st, {addr}), from(v).network_order());
    }
  } else {
    addr = "*Not IP address [0]*";
  }
  string want;
  if (e.addr) want = addr;
  if (e.family) want += (e.addr ? " " : "") + family(a.family(), type);
  check_print(c, "an address", f.fmt, place_all(f.st, {want}), a);
  c.outcome(mc::strf("%d%s", which, f.fmt.c_str()));
}

MC_INPUTS(services, 3, "services with every fill of the elements, radix and field")
{
  int which     = c.choose(int(V4.size() + V6S.size() + 1));
  Ext e         = make_ext(c.pick(std::vector<char const *>{"", "=", "0=", " =", "*="}), "");
  unsigned port = c.pick(std::vector<unsigned>{0, 8, 80, 4951, 65535});
  auto f        = choose_field(c, "gdxXobsS", e.text.c_str());
  char type     = f.st.type;
  string want;
  if (which < int(V4.size())) {
    want = addr4(V4[which], type, e.fill) + (port ? mc::strf(":%u", port) : "");
    auto all = place_all(f.st, {want});
    check_print(c, "an IPv4 service", f.fmt, all, IP4Srv(A(V4[which]), port));
    check_print(c, "a service", f.fmt, all, IPSrv(A(V4[which]), port));
  } else if (which < int(V4.size() + V6S.size())) {
    V6 v = V6S[which - V4.size()];
    want = addr6(v, type, e.fill);
    if (port) want = "[" + want + "]" + mc::strf(":%u", port);
    auto all = place_all(f.st, {want});
    check_print(c, "an IPv6 service", f.fmt, all, IP6Srv(from(v), port));
    check_print(c, "a service", f.fmt, all, IPSrv(from(v), port));
  } else if (!port) {
    check_print(c, "an invalid service", f.fmt, place_all(f.st, {""}), IPSrv());
  }
  c.outcome(mc::strf("%d.%u%s", which, port, f.fmt.c_str()));
}

template <typename R, typename I> static void ranges(mc::Ctx &c, I lo, I hi, Field const &f, Ext const &e, std::function<string(I)> const &one)
{
  constexpr unsigned W = sizeof(I) * 8;
  R r{A(lo), A(hi)};
  IPRange g(r);
  IPRangeView v;
  v.assign(r);
  string want;
  I d = hi - lo;
  if (lo > hi) {
    want = "*-*";
  } else if (e.compact && lo == hi) {
    want = one(lo);
  } else if (e.compact && (d & (d + 1)) == 0 && (lo & d) == 0) {
    unsigned h = 0;
    while (h < W && (d >> h & 1)) ++h;
    want = one(lo) + "/" + std::to_string(W - h);
  } else {
    want = one(lo) + "-" + one(hi);
  }
  auto all = place_all(f.st, {want});
  check_print(c, "a range", f.fmt, all, r);
  check_print(c, "a generic range", f.fmt, all, g);
  check_print(c, "a range view", f.fmt, all, v);
}
MC_INPUTS(ranges_of_addresses, 3, "ranges of all kinds, plain or compact, with every fill of the elements, radix and field")
{
  Ext e     = make_ext(c.pick(std::vector<char const *>{"", "=", "0=", " =", "*="}), c.flag() ? "c" : "");
  bool six  = c.flag();
  int k     = c.choose(six ? 9 : 8);
  int width = c.choose(six ? 13 : 9);
  auto f    = choose_field(c, "gdxXobsS", e.text.c_str(), (k == 1 && width % 2 == 0) || c.thorough);
  char type = f.st.type;
  static unsigned const BITS4[] = {0, 1, 4, 7, 8, 9, 16, 31, 32}, BITS6[] = {0, 1, 4, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128};
  c.note("%s", f.fmt.c_str());
  int shape = c.choose(5);
  auto both = [&](auto lo, unsigned bits, unsigned W) {
    using I = decltype(lo);
    I m     = bits == 0 ? I(0) : I(~I(0) >> (W - bits));
    I a = lo, b = lo;
    if (shape == 0) a = lo & ~m, b = lo | m;       // network
    if (shape == 1) a = lo & ~m, b = (lo | m) - 1; // one less
    if (shape == 2) a = (lo & ~m) + 1, b = lo | m;
    if (shape == 3) b = lo | m;
    if (shape == 4) a = lo & ~m, b = (lo | m) + 1;
    return std::pair<I, I>(a, b);
  };
  if (six) {
    V6 v = V6S[k];
    auto [a, b] = both(N(from(v)), BITS6[width], 128);
    ranges<IP6Range, u128>(c, a, b, f, e, [&](u128 x) { return addr6(bytes(A(x)), type, e.fill); });
  } else {
    auto [a, b] = both(V4[k], BITS4[width], 32);
    ranges<IP4Range, uint32_t>(c, a, b, f, e, [&](uint32_t x) { return addr4(x, type, e.fill); });
  }
  if (k == 0 && width == 0 && shape == 0) check_print(c, "an invalid range", f.fmt, place_all(f.st, {"*-*"}), IPRange()), check_print(c, "an invalid view", f.fmt, place_all(f.st, {"*-*"}), IPRangeView());
  c.outcome(mc::strf("%d.%d.%d.%d%s", six, k, width, shape, f.fmt.c_str()));
}

MC_INPUTS(networks, 3, "networks of all kinds and masks of all widths, with every fill of the elements, radix and field")
{
  Ext e     = make_ext(c.pick(std::vector<char const *>{"", "=", "0=", " =", "*="}), "");
  bool six  = c.flag();
  int k     = c.choose(six ? 9 : 8);
  int width = c.choose(six ? 129 : 33);
  auto f    = choose_field(c, "gdxXobsS", e.text.c_str(), (k == 1 && width % 16 == 0) || c.thorough);
  char type = f.st.type;
  c.note("%s", f.fmt.c_str());
  if (six) {
    u128 v   = N(from(V6S[k]));
    u128 m   = width == 0 ? 0 : ~u128(0) << (128 - width);
    auto all = place_all(f.st, {addr6(bytes(A(v & m)), type, e.fill) + mc::strf("/%d", width)});
    IP6Net n{A(v & m), IPMask(width)};
    check_print(c, "an IPv6 network", f.fmt, all, n);
    check_print(c, "a network", f.fmt, all, IPNet(n.min(), n.mask()));
  } else {
    uint32_t v = V4[k];
    uint32_t m = width == 0 ? 0 : ~0u << (32 - width);
    auto all   = place_all(f.st, {addr4(v & m, type, e.fill) + mc::strf("/%d", width)});
    IP4Net n{A(v & m), IPMask(width)};
    check_print(c, "an IPv4 network", f.fmt, all, n);
    check_print(c, "a network", f.fmt, all, IPNet(n.min(), n.mask()));
  }
  if (k == 0 && width == 0) check_print(c, "an invalid network", f.fmt, place_all(f.st, {"*invalid*"}), IPNet());
  if (k == 0 && e.text.empty() && !strchr("gsS", f.st.type)) check_print(c, "a mask", f.fmt, {model_int(f.st, width)}, IPMask(width));
  c.outcome(mc::strf("%d.%d.%d%s", six, k, width, f.fmt.c_str()));
}

template <typename T> static void streamed(mc::Ctx &c, T const &t)
{
  std::ostringstream s;
  s << "<" << t << ">";
  string want;
  swoc::bwprint(want, "<{}>", t);
  MC_CHECK(c, s.str() == want, "%s is streamed as %s", want.c_str(), s.str().c_str());
}
MC_INPUTS(streams, 2, "addresses and ranges written to a standard stream, and pointers to socket addresses")
{
  int i = c.choose(9), k = c.choose(9);
  uint32_t a = V4[i % 8], b = V4[k % 8];
  V6 x = V6S[i], y = V6S[k];
  streamed(c, A(a));
  streamed(c, IPAddr(A(a)));
  streamed(c, IPAddr());
  streamed(c, from(x));
  streamed(c, IPAddr(from(x)));
  streamed(c, IP4Range{A(a), A(b)});
  streamed(c, IPRange(IP4Range{A(a), A(b)}));
  streamed(c, IP6Range{from(x), from(y)});
  streamed(c, IPRange(IP6Range{from(x), from(y)}));
  streamed(c, IPRange());
  IPEndpoint ep(IPSrv(A(a), 80));
  for (char const *fmt : {"{:p}", "{:P}", "{:>30p}", "{:p:a}"}) {
    string f = fmt, z, w;
    swoc::bwprint(z, TextView(f), static_cast<sockaddr const *>(&ep.sa));
    swoc::bwprint(w, TextView(f), static_cast<void const *>(&ep.sa));
    MC_CHECK(c, z == w, "%s of a socket address prints as '%s' instead of '%s'", fmt, z.c_str(), w.c_str());
  }
  c.outcome(mc::strf("%d.%d", i, k));
}
