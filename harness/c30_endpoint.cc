// C30: endpoints and services.
#include "ip_common.h"
#include <sys/un.h>

using swoc::IP4Srv;
using swoc::IP6Srv;
using swoc::IPEndpoint;
using swoc::IPSrv;

// --- splitting

static bool digit(char x) { return x >= '0' && x <= '9'; }
static string view_of(mc::Ctx &c, std::string_view all, std::string_view v, char const *what)
{
  if (!v.empty()) MC_CHECK(c, v.data() >= all.data() && v.data() + v.size() <= all.data() + all.size(), "the %s of '%s' is not within it", what, mc::show(string(all)).c_str());
  return string(v);
}
static void tokens(mc::Ctx &c, string const &text)
{
  Exact m(text);
  string host, port, rest, s = text;
  bool known = true;
  while (!s.empty() && space(s[0])) s.erase(0, 1);
  size_t first = s.find(':');
  bool colon   = false;
  if (!s.empty() && s[0] == '[') {
    size_t k = s.find(']');
    if (k == string::npos) {
      known = false;
    } else {
      host = s.substr(1, k - 1), rest = s.substr(k + 1);
      if (!rest.empty() && rest[0] == ':') colon = true;
    }
  } else if (first != string::npos && s.find(':', first + 1) == string::npos) {
    host = s.substr(0, first), rest = s.substr(first), colon = true;
  } else {
    host = s;
  }
  if (colon) {
    size_t n = 1;
    while (n < rest.size() && digit(rest[n])) ++n;
    port = rest.substr(1, n - 1);
    if (n > 1) rest = rest.substr(n);
  }
  for (int mask = 0; mask < 8; ++mask) {
    std::string_view h = "h", p = "p", r = "r";
    bool g = IPEndpoint::tokenize(m.sv(), mask & 1 ? nullptr : &h, mask & 2 ? nullptr : &p, mask & 4 ? nullptr : &r);
    if (!(mask & 1)) view_of(c, m.sv(), h, "host");
    if (!(mask & 2)) view_of(c, m.sv(), p, "port");
    if (!(mask & 4)) view_of(c, m.sv(), r, "rest");
    if (!known) continue; // bracket that is not closed
    MC_CHECK(c, g == !host.empty(), "tokenize of '%s' is %d", mc::show(text).c_str(), g);
    MC_CHECK(c, (mask & 1) || h == host, "host of '%s' is '%s', expected '%s'", mc::show(text).c_str(), mc::show(string(h)).c_str(), mc::show(host).c_str());
    MC_CHECK(c, (mask & 2) || p == port, "port of '%s' is '%s', expected '%s'", mc::show(text).c_str(), mc::show(string(p)).c_str(), mc::show(port).c_str());
    MC_CHECK(c, (mask & 4) || r == rest, "rest of '%s' is '%s', expected '%s'", mc::show(text).c_str(), mc::show(string(r)).c_str(), mc::show(rest).c_str());
  }
}

// --- loading

struct Want {
  Verdict z = NO;
  uint32_t a4 = 0;
  V6 a6{};
  unsigned port = 0;
};
/// @a s as service of a family.
static Want denoted(string const &text, bool six)
{
  Want w;
  string s = trimmed(text), host, rest;
  Verdict z = s == text ? YES : EITHER;
  size_t first = s.find(':');
  bool bracket = !s.empty() && s[0] == '[';
  if (bracket) {
    size_t k = s.find(']');
    if (k == string::npos) return w;
    host = s.substr(1, k - 1), rest = s.substr(k + 1);
    if (!six) z = EITHER;
    if (!host.empty() && host[0] == '[') return w;
  } else if (first != string::npos && s.find(':', first + 1) == string::npos) {
    host = s.substr(0, first), rest = s.substr(first);
  } else {
    host = s;
  }
  if (host != trimmed(host)) z = EITHER;
  Verdict a = six ? ip6_value(host, w.a6) : ip4_value(host, w.a4);
  if (a == NO) return w;
  if (a == EITHER) z = EITHER;
  if (!rest.empty()) {
    if (rest[0] != ':' || rest.size() == 1) return w;
    for (size_t i = 1; i < rest.size(); ++i) {
      if (!digit(rest[i])) return w;
      w.port = w.port > 65535 ? w.port : w.port * 10 + rest[i] - '0';
    }
    if (w.port > 65535) return w;
  }
  w.z = z;
  return w;
}
static void load(mc::Ctx &c, string const &s)
{
  Exact m(s);
  tokens(c, s);
  Want w4 = denoted(s, false), w6 = denoted(s, true);
  string show    = mc::show(s);
  char const *t  = show.c_str();
  auto is4       = [&](IP4Srv const &x) { return N(x.addr()) == w4.a4 && x.host_order_port() == w4.port; };
  auto is6       = [&](IP6Srv const &x) { return bytes(x.addr()) == w6.a6 && x.host_order_port() == w6.port; };
  IP4Srv s4(A(0x01020304u), 7), k4{TextView(m.sv())};
  bool g4 = s4.load(m.sv());
  MC_CHECK(c, w4.z == EITHER || g4 == (w4.z == YES), "IP4Srv '%s' %s", t, g4 ? "is accepted" : "is rejected");
  MC_CHECK(c, !g4 || (is4(s4) && is4(k4)), "IP4Srv '%s' is %08x port %u, expected %08x port %u", t, N(s4.addr()), s4.host_order_port(), w4.a4, w4.port);
  MC_CHECK(c, g4 || k4 == IP4Srv(), "IP4Srv constructed from '%s' is %08x port %u", t, N(k4.addr()), k4.host_order_port());
  IP6Srv s6(A(u128(0x1234) << 112), 7), k6{TextView(m.sv())};
  bool g6 = s6.load(m.sv());
  MC_CHECK(c, w6.z == EITHER || g6 == (w6.z == YES), "IP6Srv '%s' %s", t, g6 ? "is accepted" : "is rejected");
  MC_CHECK(c, !g6 || (is6(s6) && is6(k6)), "IP6Srv '%s' is %s port %u, expected %s port %u", t, hex(bytes(s6.addr())).c_str(), s6.host_order_port(), hex(w6.a6).c_str(), w6.port);
  MC_CHECK(c, g6 || k6 == IP6Srv(), "IP6Srv constructed from '%s' is %s port %u", t, hex(bytes(k6.addr())).c_str(), k6.host_order_port());
  // any family
  bool number = s.find('.') == string::npos;
  string host4 = trimmed(s).substr(0, trimmed(s).find('.'));
  bool plain4  = !number && host4.size() < 4;
  for (int old = 0; old < 3; ++old) {
    IPSrv x = old == 0 ? IPSrv(TextView(m.sv())) : old == 1 ? IPSrv(A(0x01020304u), 7) : IPSrv(A(u128(0x1234) << 112), 7);
    bool g  = old ? x.load(m.sv()) : x.is_valid();
    if (w4.z == NO && w6.z == NO) MC_CHECK(c, !g, "IPSrv '%s' is accepted", t);
    if (w6.z == YES || (w4.z == YES && plain4)) MC_CHECK(c, g, "IPSrv '%s' is rejected", t);
    if (g) {
      MC_CHECK(c, x.is_ip4() ? w4.z != NO && is4(x.ip4()) : x.is_ip6() && w6.z != NO && is6(x.ip6()), "IPSrv '%s' is of family %d, address %s, port %u", t, x.family(),
               x.is_ip4() ? S(N(x.ip4().addr())).c_str() : hex(bytes(x.ip6().addr())).c_str(), x.host_order_port());
    } else if (old == 0) {
      MC_CHECK(c, !x.is_valid() && !x.is_ip4() && !x.is_ip6() && !x.addr().is_valid() && x.host_order_port() == 0, "IPSrv constructed from '%s' is valid", t);
    }
    IPEndpoint e = old == 0 ? IPEndpoint(m.sv()) : old == 1 ? IPEndpoint(IPSrv(A(0x01020304u), 7)) : IPEndpoint(IPSrv(A(u128(0x1234) << 112), 7));
    bool ge      = old ? e.parse(m.sv()) : e.is_valid();
    MC_CHECK(c, e.is_valid() == ge, "IPEndpoint '%s' is accepted %d but valid %d", t, ge, e.is_valid());
    if (w4.z == NO && w6.z == NO) MC_CHECK(c, !ge, "IPEndpoint '%s' is accepted", t);
    if (w6.z == YES || (w4.z == YES && plain4)) MC_CHECK(c, ge, "IPEndpoint '%s' is rejected", t);
    if (ge) {
      IPSrv y(e);
      MC_CHECK(c, y.is_ip4() ? w4.z != NO && is4(y.ip4()) : y.is_ip6() && w6.z != NO && is6(y.ip6()), "IPEndpoint '%s' is of family %d, port %u", t, e.family(), e.host_order_port());
    }
  }
}
MC_INPUTS(texts, 3, "all texts of up to 7 (8) characters out of brackets, colon, digits, dot and space, split and loaded")
{
  string s = choose_text(c, c.thorough ? 8 : 7, "[]:1. 0");
  load(c, s);
  c.outcome(s);
}
MC_INPUTS(names, 2, "all texts of up to 5 (6) characters out of brackets, colon, digit, letters, NUL, space and others, split and loaded")
{
  string s = choose_text(c, c.thorough ? 6 : 5, std::string_view("[]:9aF.\0\n-\xff", 11));
  load(c, s);
  c.outcome(s);
}
static char const *const HOST[] = {"1.2.3.4",     "255.255.255.255", "0.0.0.0", "::",          "::1",    "1:2:3:4:5:6:7:8", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "a::b",
                                   "1.2.3.256",   "",                "1",       "foo.example", "1::2::3", " 1.2.3.4",       "0x7f.1",                                  " ::1"};
MC_INPUTS(parts, 2, "16 hosts, plain and with 8 forms of brackets, with 28 ports and 8 endings, split and loaded")
{
  static char const *const OPEN[]  = {"", "[", "", "[", "[[", "[ ", " [", "x["};
  static char const *const CLOSE[] = {"", "]", "]", "", "]]", " ]", "]", "]"};
  static char const *const PORT[]  = {"",       ":0",      ":1",     ":80",     ":9",     ":10",   ":99",   ":255",   ":256", ":32768", ":65535", ":65536", ":65537", ":99999",
                                      ":080",   ":00070",  ":0777",  ":065535", ":000000000000000000000080", ":18446744073709551616", ":18446744073709551696", ":4294967376", ":0x50",
                                      ":",      "::80",    ": 80",   ":+80",    ":-80"};
  static char const *const END[]   = {"", " ", "x", ":", "\n", "-Bob", "]", "."};
  int b    = c.choose(8);
  string s = string(OPEN[b]) + HOST[c.choose(16)] + CLOSE[b] + PORT[c.choose(28)] + END[c.choose(8)];
  load(c, s);
  c.outcome(s);
}
MC_INPUTS(bytes_in_place, 1, "all bytes, once and twice, at every place of 12 hosts with and without ports, split and loaded")
{
  static char const *const BASE[] = {"1.2.3.4", "1.2.3.4:80", "[::1]:8080", "[a::b]", "a::b", "host:9", "host", "[host]:1", "1.2.3.4:80-x", "[::1]:443 ", ":7", "[]:7"};
  string b(BASE[c.choose(12)]);
  string x(1 + c.choose(2), char(c.choose(256)));
  for (size_t i = 0; i <= b.size(); ++i) {
    string s = b;
    load(c, s.insert(i, x));
    if (i < b.size()) load(c, (s = b).replace(i, 1, x));
  }
  c.outcome(b + "|" + x);
}
MC_INPUTS(ports, 1, "all port numbers up to 70000, plain and with leading zeros, on an address of either family; printed and loaded")
{
  int k = c.choose(701);
  for (int i = 0; i < 100 && k * 100 + i <= 70000; ++i) {
    int p = k * 100 + i;
    for (char const *z : {"", "0", "000"}) {
      load(c, "1.2.3.4:" + string(z) + std::to_string(p));
      load(c, "[1::2]:" + string(z) + std::to_string(p));
    }
  }
  c.outcome(std::to_string(k));
}

// --- conversions

template <typename X> static string text_of(string const &fmt, X const &x)
{
  swoc::LocalBufferWriter<200> w;
  w.print(fmt, x);
  return string(w.view());
}
static bool is_endpoint(IPEndpoint const &e, IPAddr const &a, unsigned port)
{
  if (a.is_ip4()) {
    return e.is_valid() && e.is_ip4() && !e.is_ip6() && e.family() == AF_INET && e.ip4() == &e.sa4 && e.ip6() == nullptr && e.sa4.sin_addr.s_addr == htonl(N(a.ip4())) &&
           e.sa4.sin_port == htons(port) && e.host_order_port() == port && e.network_order_port() == htons(port) && e.size() == sizeof(sockaddr_in) && e.sa_size() == sizeof(sockaddr_in) &&
           e.raw_addr().size() == 4 && e.raw_addr().data() == &e.sa4.sin_addr && IPAddr(&e.sa) == a;
  }
  if (a.is_ip6()) {
    auto b = bytes(a.ip6());
    return e.is_valid() && !e.is_ip4() && e.is_ip6() && e.family() == AF_INET6 && e.ip6() == &e.sa6 && e.ip4() == nullptr && memcmp(&e.sa6.sin6_addr, b.data(), 16) == 0 &&
           e.sa6.sin6_port == htons(port) && e.host_order_port() == port && e.network_order_port() == htons(port) && e.size() == sizeof(sockaddr_in6) && e.sa_size() == sizeof(sockaddr_in6) &&
           e.raw_addr().size() == 16 && e.raw_addr().data() == &e.sa6.sin6_addr && IPAddr(&e.sa) == a;
  }
  return !e.is_valid() && !e.is_ip4() && !e.is_ip6() && e.ip4() == nullptr && e.ip6() == nullptr && e.host_order_port() == 0 && e.network_order_port() == 0 && e.raw_addr().empty() &&
         !IPAddr(&e.sa).is_valid();
}
static bool is_srv(IPSrv const &s, IPAddr const &a, unsigned port)
{
  if (!a.is_valid()) return !s.is_valid() && !s.is_ip4() && !s.is_ip6() && s.host_order_port() == 0 && !s.addr().is_valid() && s.family() == AF_UNSPEC;
  return s.is_valid() && s.is_ip4() == a.is_ip4() && s.is_ip6() == a.is_ip6() && s.family() == a.family() && s.addr() == a && s.host_order_port() == port && s.network_order_port() == htons(port) &&
         (a.is_ip4() ? s.ip4().addr() == a.ip4() && s.ip4().host_order_port() == port : s.ip6().addr() == a.ip6() && s.ip6().host_order_port() == port);
}
template <typename Srv, typename Addr> static void one_family(mc::Ctx &c, Addr const &a, unsigned p, char const *t)
{
  auto is = [&](Srv const &s, Addr const &x, unsigned port) {
    return s.addr() == x && static_cast<Addr const &>(s) == x && s.host_order_port() == port && s.network_order_port() == htons(port) && s.family() == x.family();
  };
  Srv s(a, p), d, f(a);
  MC_CHECK(c, is(s, a, p) && is(d, Addr(), 0) && is(f, a, 0), "service of %s", t);
  IPEndpoint e;
  e.assign(s);
  MC_CHECK(c, is_endpoint(e, IPAddr(a), p), "endpoint assigned from specific service %s", t);
  std::conditional_t<std::is_same_v<Addr, IP4Addr>, sockaddr_in, sockaddr_in6> const *sp;
  if constexpr (std::is_same_v<Addr, IP4Addr>) sp = &e.sa4;
  else sp = &e.sa6;
  Srv x(sp), y(Addr(), 9);
  MC_CHECK(c, &y.assign(sp) == &y && is(x, a, p) && is(y, a, p), "service from socket address %s", t);
  MC_CHECK(c, is(y.assign(in_port_t(p ^ 0x5A5A)), a, p ^ 0x5A5A), "service %s with another port", t);
  MC_CHECK(c, is(y.assign(Addr()), Addr(), p ^ 0x5A5A) && is(y.assign(a, p), a, p), "service %s with another address", t);
  IPSrv g(a, p), h{IPAddr(a), in_port_t(p)}, i(s), j(sp), k(&e.sa), l(e), m, n;
  m = s, n = sp;
  for (IPSrv *q : {&g, &h, &i, &j, &k, &l, &m, &n}) {
    MC_CHECK(c, is_srv(*q, IPAddr(a), p), "generic service made in way %d of %s", int(q == &g ? 0 : q == &h ? 1 : q == &i ? 2 : q == &j ? 3 : q == &k ? 4 : q == &l ? 5 : q == &m ? 6 : 7), t);
    MC_CHECK(c, is(Srv(*q), a, p) && *q == s && s == *q && !(*q != s) && !(s != *q), "generic and specific service %s", t);
    MC_CHECK(c, *q == a && a == *q && !(*q != a) && !(a != *q), "generic service and address %s", t);
  }
  IPEndpoint e1(sp), e2(&e.sa), e3(g), e4((IPAddr(a))), e5, e6, e7, e8, e9, e10(e);
  e5.assign(sp), e6.assign(&e.sa), e7.assign(g), e8.assign(a), e9 = e;
  int w = 0;
  for (IPEndpoint *q : {&e1, &e2, &e3, &e4, &e5, &e6, &e7, &e8, &e9, &e10}) {
    MC_CHECK(c, is_endpoint(*q, IPAddr(a), q == &e4 || q == &e8 ? 0 : p), "endpoint made in way %d of %s", w, t);
    ++w;
  }
  IPEndpoint f1 = e, f2, f3;
  MC_CHECK(c, &f1.assign(&f1.sa) == &f1 && is_endpoint(f1, IPAddr(a), p) && IPEndpoint::assign(&f1.sa, &f1.sa) && is_endpoint(f1, IPAddr(a), p), "endpoint %s assigned to itself", t);
  f1 = *&f1;
  MC_CHECK(c, is_endpoint(f1, IPAddr(a), p), "endpoint %s assigned to itself", t);
  MC_CHECK(c, IPEndpoint::assign(&f2.sa, &e.sa) && is_endpoint(f2, IPAddr(a), p), "socket address %s copied", t);
  MC_CHECK(c, &e.copy_to(&f3.sa) == &e && is_endpoint(f3, IPAddr(a), p), "copy_to of %s", t);
  f3.invalidate();
  a.copy_to(&f3.sa);
  MC_CHECK(c, f3.family() == a.family() && IPAddr(&f3.sa) == IPAddr(a), "address %s copied to socket address", t);
  MC_CHECK(c, IPEndpoint::port(&f1.sa) == htons(p) && IPEndpoint::host_order_port(&f1.sa) == p && IPEndpoint::network_order_port(&f1.sa) == htons(p) && IPEndpoint::is_valid(&f1.sa),
           "port of %s", t);
  IPEndpoint::port(&f1.sa) = htons(p ^ 0xFF);
  MC_CHECK(c, is_endpoint(f1, IPAddr(a), p ^ 0xFF), "port of %s changed", t);
  MC_CHECK(c, e.is_any() == (IPAddr(a) == IPAddr(Addr())) && e.is_loopback() == a.is_loopback() && e.is_multicast() == a.is_multicast() && e.is_private() == a.is_private() &&
                  e.is_link_local() == a.is_link_local(),
           "classes of %s", t);
  // endpoint and address
  IPAddr ga(a), ka(e), na, other{Addr() == a ? IPAddr(A(0x7F000001u)) : IPAddr(Addr())};
  na = e;
  MC_CHECK(c, ka == ga && na == ga && ga == e && e == ga && !(ga != e) && !(e != ga), "address of endpoint %s", t);
  MC_CHECK(c, other != e && e != other && !(other == e) && !(e == other) && IPAddr() != e && e != IPAddr() && !(IPAddr() == e), "another address and endpoint %s", t);
  MC_CHECK(c, ga == &e.sa && &e.sa == ga && !(ga != &e.sa) && !(&e.sa != ga) && other != &e.sa && !(&e.sa == other), "address and socket address %s", t);
  IPEndpoint const &ce = e;
  sockaddr *raw        = e;
  sockaddr const *craw = ce;
  MC_CHECK(c, raw == &e.sa && craw == &e.sa && static_cast<void *>(s.family() == AF_INET ? static_cast<void *>(e.ip4()) : e.ip6()) == &e && (s.family() == AF_INET ? e.ip6() == nullptr : e.ip4() == nullptr) &&
                  static_cast<void const *>(s.family() == AF_INET ? static_cast<void const *>(ce.ip4()) : ce.ip6()) == &e,
           "socket address of endpoint %s", t);
  IPEndpoint h1, h2(other);
  MC_CHECK(c, is_endpoint(h1.assign(IPAddr(a), p), IPAddr(a), p) && is_endpoint(h2.assign(IPAddr(a), p), IPAddr(a), p), "endpoint of address and port %s", t);
  if (s.family() == AF_INET6) { // all parts of the address
    IPEndpoint full = e;
    full.sa6.sin6_scope_id = 77, full.sa6.sin6_flowinfo = 0x01020304;
    auto same = [&](IPEndpoint const &q) { return is_endpoint(q, IPAddr(a), p) && q.sa6.sin6_scope_id == 77 && q.sa6.sin6_flowinfo == 0x01020304; };
    IPEndpoint d1(full), d2, d3(&full.sa6), d4(&full.sa), d5, d6, d7(other);
    d2 = full, d5.assign(&full.sa6), d6.assign(&full.sa), IPEndpoint::assign(&d7.sa, &full.sa);
    for (auto *q : {&d1, &d2, &d3, &d4, &d5, &d6, &d7}) MC_CHECK(c, same(*q), "scope and flow of %s are lost", t);
    d1.assign(s);
    MC_CHECK(c, is_endpoint(d1, IPAddr(a), p) && d1.sa6.sin6_scope_id == 0 && d1.sa6.sin6_flowinfo == 0, "scope and flow of a service %s", t);
  }
  // text
  string plain = text_of("{}", a), num = std::to_string(p), full = (a.family() == AF_INET ? plain : "[" + plain + "]") + ":" + num;
  string shorter = p ? full : plain;
  MC_CHECK(c, text_of("{}", e) == full && text_of("{::ap}", e) == full && text_of("{}", &e.sa) == full, "endpoint %s prints as '%s'", t, text_of("{}", e).c_str());
  MC_CHECK(c, text_of("{::a}", e) == plain && text_of("{::p}", e) == num && text_of("{::f}", e) == (a.family() == AF_INET ? "ipv4" : "ipv6"), "parts of endpoint %s print as '%s' '%s' '%s'", t,
           text_of("{::a}", e).c_str(), text_of("{::p}", e).c_str(), text_of("{::f}", e).c_str());
  MC_CHECK(c, text_of("{}", s) == shorter && text_of("{}", g) == shorter, "service %s prints as '%s' and '%s'", t, text_of("{}", s).c_str(), text_of("{}", g).c_str());
  for (string const &z : {full, shorter}) {
    Exact b(z);
    Srv q;
    IPSrv r;
    IPEndpoint u, v(b.sv());
    MC_CHECK(c, q.load(b.sv()) && is(q, a, p) && r.load(b.sv()) && is_srv(r, IPAddr(a), p) && u.parse(b.sv()) && is_endpoint(u, IPAddr(a), p) && is_endpoint(v, IPAddr(a), p),
             "text '%s' loads differently", z.c_str());
  }
}
template <typename I> static void order(mc::Ctx &c, I v, I w, unsigned p, unsigned q)
{
  using Srv = std::conditional_t<sizeof(I) == 4, IP4Srv, IP6Srv>;
  Srv x(A(v), p), y(A(w), q);
  IPSrv gx(x), gy(y);
  int k = v < w ? -1 : v > w ? 1 : p < q ? -1 : p > q ? 1 : 0;
#define REL(op)                                                                                                                                              \
  MC_CHECK(c, (x op y) == (k op 0) && (gx op y) == (k op 0) && (x op gy) == (k op 0), "%s port %u " #op " %s port %u is %d %d %d", S(v).c_str(), p, S(w).c_str(), q, x op y, gx op y, x op gy)
  REL(==);
  REL(!=);
  REL(<);
  REL(<=);
  REL(>);
  REL(>=);
}
static unsigned const PORTS[] = {0, 1, 80, 255, 256, 0x1234, 0x7FFF, 0x8000, 0xFF00, 65535};
template <typename I> static void convert(mc::Ctx &c)
{
  auto g     = grid<I>(sizeof(I) == 4 || c.thorough);
  I v        = g[c.choose(int(g.size()))];
  unsigned p = PORTS[c.choose(10)];
  using Srv  = std::conditional_t<sizeof(I) == 4, IP4Srv, IP6Srv>;
  string t   = S(v) + " port " + std::to_string(p);
  auto a     = A(v);
  one_family<Srv>(c, a, p, t.c_str());
  for (I w : {v, I(v + 1), I(v - 1), I(~v), I(v ^ (I(1) << (sizeof(I) * 4))), I(0)})
    for (unsigned q : PORTS) order<I>(c, v, w, p, q);
  // changes of a generic service and of an endpoint, from all kinds
  IPAddr any[] = {IPAddr(), IPAddr(A(0x01020304u)), IPAddr(A(u128(0xABCD) << 100 | 5)), IPAddr(a)};
  for (auto &o : any) {
    IPSrv s(o, 777);
    MC_CHECK(c, is_srv(s, o, o.is_valid() ? 777 : 0), "generic service of a generic address");
    unsigned was = o.is_valid() ? 777 : 0;
    IPSrv x = s, y = s, z = s, q = s, r = s, u = s;
    MC_CHECK(c, is_srv(x.assign(a), IPAddr(a), was), "service of family %d assigned address %s", o.family(), t.c_str());
    MC_CHECK(c, is_srv(y.assign(a, p), IPAddr(a), p), "service of family %d assigned address and port %s", o.family(), t.c_str());
    MC_CHECK(c, is_srv(z.assign(IPAddr(a)), IPAddr(a), was), "service of family %d assigned generic address %s", o.family(), t.c_str());
    MC_CHECK(c, is_srv(q.assign(IPAddr(a), p), IPAddr(a), p), "service of family %d assigned generic address and port %s", o.family(), t.c_str());
    MC_CHECK(c, is_srv(r.assign(in_port_t(p)), o, o.is_valid() ? p : 0), "service of family %d assigned port %u", o.family(), p);
    IPEndpoint e((IPSrv(a, p))), f(s), h(o);
    MC_CHECK(c, is_endpoint(f, o, was) && is_endpoint(h, o, 0), "endpoint of service of family %d", o.family());
    MC_CHECK(c, is_srv(u.assign(&e.sa), IPAddr(a), p), "service of family %d assigned socket address %s", o.family(), t.c_str());
    u = &f.sa;
    MC_CHECK(c, is_srv(u, o.is_valid() ? o : IPAddr(a), o.is_valid() ? was : p), "service %s assigned socket address of family %d", t.c_str(), o.family());
    f = e;
    MC_CHECK(c, is_endpoint(f, IPAddr(a), p), "endpoint of family %d assigned %s", o.family(), t.c_str());
    IPEndpoint b(s);
    b.assign(a);
    MC_CHECK(c, is_endpoint(b, IPAddr(a), 0), "endpoint of family %d assigned address %s", o.family(), t.c_str());
    b = IPEndpoint(s);
    MC_CHECK(c, is_endpoint(b, o, was), "endpoint %s assigned endpoint of family %d", t.c_str(), o.family());
    IPEndpoint unset(s);
    MC_CHECK(c, is_endpoint(unset.assign(IPAddr()), o, was) && is_endpoint(unset.assign(IPSrv()), o, was) && is_endpoint(unset.assign(IPAddr(), p), o, was), "endpoint of family %d assigned an invalid address", o.family());
    MC_CHECK(c, is_srv(x.assign(IPAddr()), IPAddr(a), was) && is_srv(y.assign(IPAddr(), 5), IPAddr(a), p), "service %s assigned an invalid address", t.c_str());
  }
  c.outcome(t);
}
MC_INPUTS(convert4, 1, "all IPv4 addresses around powers of two with 10 ports: conversions between addresses, services, endpoints and socket addresses, order, text") { convert<uint32_t>(c); }
MC_INPUTS(convert6, 1, "all IPv6 addresses around octet boundaries (all powers of two) with 10 ports: conversions between addresses, services, endpoints and socket addresses, order, text")
{
  convert<u128>(c);
}
// --- a generic service and a specific one of any family; a reused service keeps bytes of the other family in its memory
template <typename S, typename X> static void unrelated(mc::Ctx &c, S const &s, X const &x, char const *t)
{
  MC_CHECK(c, !(s == x) && !(x == s) && s != x && x != s, "%s equals one of another family", t);
  if constexpr (!std::is_same_v<X, IP4Addr> && !std::is_same_v<X, IP6Addr>)
    MC_CHECK(c, !(s < x) && !(x < s) && !(s > x) && !(x > s) && !(s <= x) && !(x <= s) && !(s >= x) && !(x >= s), "%s is ordered with one of another family", t);
}
MC_INPUTS(mixed, 2, "generic services of all families, fresh or reused, compared with specific services and addresses of the other family that share their bytes")
{
  static uint32_t const ADDR[] = {0, 1, 0x01020304, 0x80000000, 0xFFFFFFFF};
  uint32_t v  = c.pick(ADDR);
  unsigned p  = c.pick(PORTS), q = c.pick(PORTS);
  u128 w      = u128(q) << 32 | v, both = w << 64 | w;
  string t    = mc::strf("service %08x port %u (%u)", v, p, q);
  IP4Srv four(A(v), q);
  for (u128 x : {both, w, w << 64, u128(v), u128(v) << 64, u128(v) << 96, u128(0)}) {
    IP6Srv six(A(x), p);
    IPSrv s6(six), s4(four), n, r4(six), r6(four), z4(six), z6(four);
    r4.assign(A(v), q), r6.assign(A(x), p), z4 = four, z6 = six;
    for (IPSrv *k : {&s6, &r6, &z6}) {
      MC_CHECK(c, is_srv(*k, IPAddr(A(x)), p) && *k == six && six == *k && *k == A(x) && A(x) == *k && !(*k != A(x)), "IPv6 %s, reused", t.c_str());
      unrelated(c, *k, four, t.c_str()), unrelated(c, *k, A(v), t.c_str());
      MC_CHECK(c, !(*k == A(u128(x ^ 1))) && !(A(u128(x ^ 1)) == *k) && *k != A(u128(x ^ 1)) && A(u128(x ^ 1)) != *k, "IPv6 %s equals another address", t.c_str());
    }
    for (IPSrv *k : {&s4, &r4, &z4}) {
      MC_CHECK(c, is_srv(*k, IPAddr(A(v)), q) && *k == four && four == *k && *k == A(v) && A(v) == *k && !(*k != A(v)), "IPv4 %s, reused", t.c_str());
      unrelated(c, *k, six, t.c_str()), unrelated(c, *k, A(x), t.c_str());
      MC_CHECK(c, !(*k == A(v ^ 1)) && !(A(v ^ 1) == *k) && *k != A(v ^ 1) && A(v ^ 1) != *k, "IPv4 %s equals another address", t.c_str());
    }
    unrelated(c, n, four, "no service"), unrelated(c, n, six, "no service"), unrelated(c, n, A(v), "no service"), unrelated(c, n, A(x), "no service");
  }
  c.outcome(t);
}
MC_INPUTS(families, 1, "all address families: socket addresses of other families are not IP addresses; any and loopback addresses")
{
  int f = c.choose(64);
  sockaddr_storage m;
  memset(&m, 0xA5, sizeof(m));
  m.ss_family = f;
  auto sa     = reinterpret_cast<sockaddr *>(&m);
  bool ip     = f == AF_INET || f == AF_INET6;
  IPEndpoint e(sa), d, g((IPSrv(A(0x01020304u), 7)));
  MC_CHECK(c, IPEndpoint::is_valid(sa) == ip && !IPEndpoint::is_valid(nullptr) && e.is_valid() == ip && IPEndpoint::assign(&d.sa, sa) == ip && d.is_valid() == ip, "socket address of family %d", f);
  g.assign(sa);
  MC_CHECK(c, g.is_valid() == ip && IPAddr(sa).is_valid() == ip && IPSrv(sa).is_valid() == ip && IPSrv(e).is_valid() == ip, "endpoint, address or service of family %d", f);
  MC_CHECK(c, IPEndpoint::host_order_port(sa) == (ip ? 0xA5A5 : 0) && IPEndpoint::network_order_port(sa) == (ip ? 0xA5A5 : 0), "port of family %d", f);
  if (!ip) {
    bool thrown = false;
    try {
      IPEndpoint::port(sa);
    } catch (std::domain_error const &) {
      thrown = true;
    }
    MC_CHECK(c, thrown, "access to the port of family %d", f);
    IPAddr i(A(0x01020304u));
    MC_CHECK(c, is_endpoint(e, IPAddr(), 0) && is_endpoint(g, IPAddr(), 0) && !e.is_any() && !e.is_loopback() && !e.is_multicast() && !e.is_private() && !e.is_link_local(), "endpoint of family %d", f);
    i.assign(sa);
    MC_CHECK(c, !i.is_valid(), "address assigned from family %d", f);
    MC_CHECK(c, (i == sa) == (f == AF_UNSPEC) && (sa == i) == (f == AF_UNSPEC) && (i != sa) == (f != AF_UNSPEC), "no address and a socket address of family %d", f);
    IPSrv s(A(0x01020304u), 7);
    s.assign(sa);
    MC_CHECK(c, is_srv(s, IPAddr(A(0x01020304u)), 7), "service assigned from family %d", f);
  } else {
    for (int other : {AF_INET, AF_INET6}) {
      for (int k = 0; k < 2; ++k) {
        IPEndpoint x(sa);
        k ? x.set_to_loopback(other) : x.set_to_any(other);
        IPAddr want = other == AF_INET ? IPAddr(A(k ? 0x7F000001u : 0u)) : IPAddr(A(u128(k)));
        MC_CHECK(c, is_endpoint(x, want, 0) && x.is_any() == !k && x.is_loopback() == !!k, "any or loopback address of family %d", other);
      }
    }
    IPEndpoint x(sa), y(sa);
    MC_CHECK(c, !x.invalidate().is_valid(), "invalidated endpoint");
    IPEndpoint::invalidate(&y.sa);
    MC_CHECK(c, !y.is_valid(), "invalidated socket address");
  }
  MC_CHECK(c, IPEndpoint::sa_size(sa) == (f == AF_INET ? sizeof(sockaddr_in) : f == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr)), "size of family %d", f);
  MC_CHECK(c, IPEndpoint::is_link_local(sa) == false && IPEndpoint::is_private(sa) == false && IPEndpoint::is_multicast(sa) == false, "classes of family %d", f);
  MC_CHECK(c, IPEndpoint::family_name(f) == (f == AF_INET ? "ipv4" : f == AF_INET6 ? "ipv6" : f == AF_UNIX ? "unix" : f == AF_UNSPEC ? "unspec" : "unknown"), "name of family %d", f);
  c.outcome(std::to_string(f));
}

// --- assignment replaces all of a socket address
MC_INPUTS(reused, 2, "endpoints with every byte set, of 4 families, assigned addresses and services in 11 ways: all bytes of the socket address are those of a new one")
{
  static uint32_t const ADDR[] = {0, 0x01020304, 0x7F000001, 0xFFFFFFFF};
  static int const OLD[]       = {AF_INET, AF_INET6, AF_UNIX, AF_UNSPEC};
  static int const FILL[]      = {0xFF, 0xA5, 0x01};
  uint32_t v  = c.pick(ADDR);
  unsigned p  = c.pick(PORTS);
  int old     = c.pick(OLD), fill = c.pick(FILL), family = c.flag() ? AF_INET6 : AF_INET;
  IPAddr a    = family == AF_INET ? IPAddr(A(v)) : IPAddr(A(u128(v) << 70 | v));
  for (int how = 0; how < 11; ++how) {
    IPEndpoint e;
    memset(static_cast<void *>(&e), fill, sizeof(e));
    e.sa.sa_family = old;
    unsigned port  = p;
    IPAddr want    = a;
    IPSrv s(a, p);
    IPEndpoint fresh(s);
    switch (how) {
    case 0: e.assign(a), port = 0; break;
    case 1: family == AF_INET ? e.assign(a.ip4()) : e.assign(a.ip6()), port = 0; break;
    case 2: e.assign(a, p); break;
    case 3: e.assign(s); break;
    case 4: family == AF_INET ? e.assign(s.ip4()) : e.assign(s.ip6()); break;
    case 5: e = IPEndpoint(s); break;
    case 6: MC_CHECK(c, e.parse(text_of("{}", s)), "service '%s' is not accepted", text_of("{}", s).c_str()); break;
    case 7: e.set_to_any(family), want = family == AF_INET ? IPAddr(A(0u)) : IPAddr(A(u128(0))), port = 0; break;
    case 8: e.set_to_loopback(family), want = family == AF_INET ? IPAddr(A(0x7F000001u)) : IPAddr(A(u128(1))), port = 0; break;
    case 9: e.assign(&fresh.sa); break;
    case 10: fresh.copy_to(&e.sa); break;
    }
    string what   = mc::strf("endpoint of family %d with bytes %02x, assigned %s port %u in way %d,", old, fill, text_of("{}", a).c_str(), p, how);
    MC_CHECK(c, is_endpoint(e, want, port), "%s has another address or port", what.c_str());
    if (family == AF_INET) {
      sockaddr_in z;
      memset(&z, 0, sizeof(z));
      z.sin_family = AF_INET, z.sin_port = htons(port), z.sin_addr.s_addr = htonl(N(want.ip4()));
      MC_CHECK(c, memcmp(&z, &e.sa4, sizeof(z)) == 0, "%s keeps other bytes", what.c_str());
    } else {
      sockaddr_in6 z;
      memset(&z, 0, sizeof(z));
      z.sin6_family = AF_INET6, z.sin6_port = htons(port), memcpy(&z.sin6_addr, bytes(want.ip6()).data(), 16);
      MC_CHECK(c, memcmp(&z, &e.sa6, sizeof(z)) == 0, "%s keeps other bytes", what.c_str());
    }
    c.step();
  }
  // an address only updates family and address
  IPEndpoint e, u;
  memset(static_cast<void *>(&e), fill, sizeof(e));
  e.sa.sa_family = family;
  for (int how = 0; how < 3; ++how) {
    if (how == 1 && family == AF_INET) u = e, a.ip4().copy_to(&u.sa4);
    else if (how == 1) u = e, a.ip6().copy_to(&u.sa6);
    else if (how == 2 && family == AF_INET) u = e, a.ip4().copy_to(&u.sa);
    else if (how == 2) u = e, a.ip6().copy_to(&u.sa);
    else u = e, a.copy_to(&u.sa);
    MC_CHECK(c, is_endpoint(u, a, e.host_order_port()), "port of a socket address with bytes %02x updated with the address %s is %u", fill, text_of("{}", a).c_str(), u.host_order_port());
    MC_CHECK(c, family == AF_INET || (u.sa6.sin6_scope_id == e.sa6.sin6_scope_id && u.sa6.sin6_flowinfo == e.sa6.sin6_flowinfo), "scope of a socket address updated with an address");
  }
  c.outcome(mc::strf("%08x/%u/%d/%d/%d", v, p, old, fill, family));
}

MC_INPUTS(scale, 1, "each of 9 services with every character, or a character of 9 in front of every character or at the end, repeated up to 70000 times")
{
  static string const TEXTS[] = {"1.2.3.4:80", "[::1]:8080", "1.2.3.4", "::1", "[1:2:3:4:5:6:7:8]", "[::]:65535", "host:1", "0.0.0.0:0", "1::2:5"};
  static int const COUNT[]    = {2, 3, 4, 5, 9, 17, 64, 127, 128, 129, 254, 255, 256, 257, 1000, 65536, 70000};
  string t(c.pick(TEXTS)), s(t);
  int n = c.pick(COUNT), kind = c.choose(10);
  if (n > 1000 && !c.thorough && t.size() % 5) return c.skip();
  for (size_t i = 0; i < t.size() + (kind > 0); ++i) {
    (s = t).insert(i, string(size_t(n) - (kind == 0), kind ? "0:. []/1-f"[kind] : t[i]));
    load(c, s);
  }
  c.outcome(mc::strf("%d %d ", n, kind) + t);
}
