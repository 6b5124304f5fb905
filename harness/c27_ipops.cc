// C27: IP addresses as integers.
#include "ip_common.h"
#include <functional>

using swoc::IPEndpoint;

template <typename I> static std::vector<I> two_bits()
{
  std::vector<I> z;
  for (int i = 0; i < int(sizeof(I) * 8); ++i)
    for (int j = 0; j < i; ++j) z.push_back(I(1) << i | I(1) << j);
  return z;
}
template <typename T> static void relations(mc::Ctx &c, T const &x, T const &y, int want, char const *what, string const &sx, string const &sy)
{
  int k = x.cmp(y);
  MC_CHECK(c, (k > 0) - (k < 0) == want, "%s: cmp of %s and %s is %d", what, sx.c_str(), sy.c_str(), k);
  MC_CHECK(c, (x == y) == (want == 0), "%s: %s == %s is %d", what, sx.c_str(), sy.c_str(), x == y);
  MC_CHECK(c, (x != y) == (want != 0), "%s: %s != %s is %d", what, sx.c_str(), sy.c_str(), x != y);
  MC_CHECK(c, (x < y) == (want < 0), "%s: %s < %s is %d", what, sx.c_str(), sy.c_str(), x < y);
  MC_CHECK(c, (x <= y) == (want <= 0), "%s: %s <= %s is %d", what, sx.c_str(), sy.c_str(), x <= y);
  MC_CHECK(c, (x > y) == (want > 0), "%s: %s > %s is %d", what, sx.c_str(), sy.c_str(), x > y);
  MC_CHECK(c, (x >= y) == (want >= 0), "%s: %s >= %s is %d", what, sx.c_str(), sy.c_str(), x >= y);
  if (want == 0) MC_CHECK(c, std::hash<T>()(x) == std::hash<T>()(y), "%s: hash of equal %s and %s differ", what, sx.c_str(), sy.c_str());
}
#define SAME(c, got, want, ...)                                                                                                    \
  do {                                                                                                                             \
    auto g_ = (got);                                                                                                               \
    auto w_ = (want);                                                                                                              \
    MC_CHECK(c, g_ == w_, "%s is %s instead of %s", mc::strf(__VA_ARGS__).c_str(), S(g_).c_str(), S(w_).c_str());                  \
  } while (0)

template <typename I> static void one_address(mc::Ctx &c, I v)
{
  using T       = decltype(A(v));
  unsigned W    = sizeof(I) * 8;
  string sv     = S(v);
  char const *s = sv.c_str();
  T a           = A(v);
  SAME(c, N(a), v, "address made of %s", s);
  {
    T x = a;
    T &r = ++x;
    MC_CHECK(c, &r == &x, "++ returns another address");
    SAME(c, N(x), I(v + 1), "++%s", s);
    SAME(c, N(--x), v, "-- after ++ of %s", s);
    SAME(c, N(--x), I(v - 1), "--%s", s);
  }
  for (unsigned n = 0; n < W; ++n) {
    T x = a, y = a;
    SAME(c, N(x <<= n), I(v << n), "%s << %u", s, n);
    SAME(c, N(y >>= n), I(v >> n), "%s >> %u", s, n);
  }
  for (unsigned n = 0; n <= W; ++n) {
    I host = n == 0 ? ~I(0) : n == W ? I(0) : I(~I(0) >> n);
    T x = a, y = a;
    IPMask m(n);
    SAME(c, N(x &= m), I(v & ~host), "%s & mask of %u bits", s, n);
    SAME(c, N(y |= m), I(v | host), "%s | mask of %u bits", s, n);
    SAME(c, N(a & m), I(v & ~host), "%s & mask of %u bits", s, n);
    SAME(c, N(a | m), I(v | host), "%s | mask of %u bits", s, n);
    IPAddr g(a), p = g & m, q = g | m;
    MC_CHECK(c, p == IPAddr(A(I(v & ~host))) && q == IPAddr(A(I(v | host))) && p.family() == a.family(), "IPAddr %s with mask of %u bits", s, n);
    g &= m;
    MC_CHECK(c, g == p, "IPAddr %s &= mask of %u bits", s, n);
    g = a, g |= m;
    MC_CHECK(c, g == q, "IPAddr %s |= mask of %u bits", s, n);
  }
  for (unsigned i = 0; i < sizeof(I); ++i) MC_CHECK(c, a[i] == uint8_t(v >> (W - 8 - 8 * i)), "byte %u of %s is %02x", i, s, a[i]);
}
MC_INPUTS(unary4, 1, "increment, decrement, all shifts and masks of IPv4 addresses around every power of two")
{
  auto g     = grid<uint32_t>(true);
  uint32_t v = g[c.choose(int(g.size()))];
  one_address(c, v);
  // network and host order, socket address
  IP4Addr a  = A(v);
  uint32_t n = htonl(v);
  SAME(c, uint32_t(a.network_order()), n, "network order of %08x", v);
  SAME(c, uint32_t(IP4Addr::reorder(v)), n, "%08x in the other order", v);
  IP4Addr b;
  b = in_addr_t(n);
  SAME(c, N(b), v, "assigned raw address of %08x", v);
  sockaddr_in sa;
  memset(&sa, 0x5A, sizeof sa);
  sa.sin_port = 0x1234;
  MC_CHECK(c, a.copy_to(&sa) == &sa, "copy_to returns another pointer");
  MC_CHECK(c, sa.sin_family == AF_INET && sa.sin_addr.s_addr == n && sa.sin_port == 0x1234, "%08x copied to a socket address is %08x port %04x family %d", v, sa.sin_addr.s_addr, sa.sin_port, sa.sin_family);
  memset(&sa, 0, sizeof sa);
  MC_CHECK(c, a.copy_to(reinterpret_cast<sockaddr *>(&sa)) && sa.sin_family == AF_INET && sa.sin_addr.s_addr == n, "%08x copied to a generic socket address", v);
  SAME(c, N(IP4Addr(&sa)), v, "address of the socket address of %08x", v);
  IP4Addr d;
  d = &sa;
  SAME(c, N(d), v, "address assigned from the socket address of %08x", v);
  IPAddr e(reinterpret_cast<sockaddr *>(&sa)), f, g1, h, k;
  f.assign(&sa), g1.assign(reinterpret_cast<sockaddr *>(&sa)), h = reinterpret_cast<sockaddr *>(&sa);
  k.assign(in_addr_t(n));
  IPAddr l;
  l = in_addr_t(n);
  for (auto *x : {&e, &f, &g1, &h, &k, &l}) MC_CHECK(c, x->is_valid() && x->is_ip4() && !x->is_ip6() && x->family() == AF_INET && N(x->ip4()) == v && N(IP4Addr(*x)) == v, "IPAddr from the socket address or raw address of %08x", v);
  SAME(c, N(IPAddr(in_addr_t(v)).ip4()), v, "IPAddr made of %08x", v);
  MC_CHECK(c, e == reinterpret_cast<sockaddr *>(&sa) && reinterpret_cast<sockaddr *>(&sa) == e, "IPAddr %08x differs from its socket address", v);
  sa.sin_addr.s_addr = htonl(v ^ 0x100);
  MC_CHECK(c, e != reinterpret_cast<sockaddr *>(&sa) && reinterpret_cast<sockaddr *>(&sa) != e, "IPAddr %08x equals another socket address", v);
  memset(&sa, 0, sizeof sa);
  MC_CHECK(c, e.copy_to(reinterpret_cast<sockaddr *>(&sa)) && sa.sin_family == AF_INET && sa.sin_addr.s_addr == n, "IPAddr %08x copied to a generic socket address", v);
  // mapped
  IP6Addr m(a);
  SAME(c, N(m), (u128(0xFFFF) << 32 | v), "mapped %08x", v);
  MC_CHECK(c, m.is_mapped_ip4(), "%08x mapped is not a mapped address", v);
  c.outcome(S(v));
}
MC_INPUTS(unary6, 1, "increment, decrement, all shifts and masks of IPv6 addresses around every power of two")
{
  auto g = grid<u128>(true);
  u128 v = g[c.choose(int(g.size()))];
  one_address(c, v);
  string sv     = S(v);
  char const *s = sv.c_str();
  IP6Addr a     = A(v);
  in6_addr n    = a.network_order(), n2, hst = a.host_order(), h2;
  MC_CHECK(c, &a.network_order(n2) == &n2 && n2 == n, "copied network order of %s differs", s);
  MC_CHECK(c, &a.host_order(h2) == &h2 && h2 == hst, "copied host order of %s differs", s);
  for (int i = 0; i < 16; ++i) MC_CHECK(c, hst.s6_addr[i] == n.s6_addr[15 - i], "host order of %s is not the network order reversed", s);
  IP6Addr b;
  b = n;
  SAME(c, N(b), v, "assigned raw address of %s", s);
  sockaddr_in6 sa;
  memset(&sa, 0x5A, sizeof sa);
  MC_CHECK(c, a.copy_to(&sa) == &sa, "copy_to returns another pointer");
  MC_CHECK(c, sa.sin6_family == AF_INET6 && sa.sin6_addr == n && sa.sin6_port == 0x5A5A && sa.sin6_flowinfo == 0x5A5A5A5A && sa.sin6_scope_id == 0x5A5A5A5A, "%s copied to a socket address", s);
  memset(&sa, 0, sizeof sa);
  MC_CHECK(c, a.copy_to(reinterpret_cast<sockaddr *>(&sa)) && sa.sin6_family == AF_INET6 && sa.sin6_addr == n, "%s copied to a generic socket address", s);
  SAME(c, N(IP6Addr(&sa)), v, "address of the socket address of %s", s);
  IP6Addr d = IP6Addr::MAX, z = IP6Addr::MAX;
  d = &sa;
  SAME(c, N(d), v, "address assigned from the socket address of %s", s);
  z = static_cast<sockaddr_in6 const *>(nullptr);
  MC_CHECK(c, z.is_any(), "assigning a null socket address");
  MC_CHECK(c, d.clear() == IP6Addr() && d.is_any() && N(d) == 0, "cleared %s", s);
  IPAddr e(reinterpret_cast<sockaddr *>(&sa)), f, g1, h, k, l, m(n);
  f.assign(&sa), g1.assign(reinterpret_cast<sockaddr *>(&sa)), h = reinterpret_cast<sockaddr *>(&sa);
  k.assign(n);
  l = n;
  for (auto *x : {&e, &f, &g1, &h, &k, &l, &m}) MC_CHECK(c, x->is_valid() && x->is_ip6() && !x->is_ip4() && x->family() == AF_INET6 && N(x->ip6()) == v && N(IP6Addr(*x)) == v, "IPAddr from the socket address or raw address of %s", s);
  MC_CHECK(c, e == reinterpret_cast<sockaddr *>(&sa) && reinterpret_cast<sockaddr *>(&sa) == e, "IPAddr %s differs from its socket address", s);
  sa.sin6_addr.s6_addr[9] ^= 4;
  MC_CHECK(c, e != reinterpret_cast<sockaddr *>(&sa) && reinterpret_cast<sockaddr *>(&sa) != e, "IPAddr %s equals another socket address", s);
  memset(&sa, 0, sizeof sa);
  MC_CHECK(c, e.copy_to(reinterpret_cast<sockaddr *>(&sa)) && sa.sin6_family == AF_INET6 && sa.sin6_addr == n, "IPAddr %s copied to a generic socket address", s);
  MC_CHECK(c, a.is_mapped_ip4() == (v >> 32 == 0xFFFF), "%s is mapped: %d", s, a.is_mapped_ip4());
  auto w = a.as_span<uint64_t>();
  MC_CHECK(c, w.count() == 2 && a.as_span<uint8_t const>().count() == 16, "the address as span of words has %zu, of bytes %zu", w.count(), a.as_span<uint8_t const>().count());
  c.outcome(sv);
}
template <typename I> static void pairs(mc::Ctx &c, std::vector<I> const &g, I v)
{
  for (I w : g) {
    auto a = A(v), b = A(w);
    string sv = S(v), sw = S(w);
    relations(c, a, b, v < w ? -1 : v > w, "address", sv, sw);
    relations(c, IPAddr(a), IPAddr(b), v < w ? -1 : v > w, "IPAddr", sv, sw);
    bool eq = v == w;
    MC_CHECK(c, (IPAddr(a) == b) == eq && (b == IPAddr(a)) == eq && (IPAddr(a) != b) == !eq && (b != IPAddr(a)) == !eq, "IPAddr %s against %s", sv.c_str(), sw.c_str());
    auto x = a, y = a;
    SAME(c, N(x &= b), I(v & w), "%s & %s", sv.c_str(), sw.c_str());
    SAME(c, N(y |= b), I(v | w), "%s | %s", sv.c_str(), sw.c_str());
  }
  c.outcome(S(v));
}
MC_INPUTS(pairs4, 1, "comparison and bitwise operations of all pairs of IPv4 addresses around every power of two")
{
  auto g = grid<uint32_t>(true);
  pairs(c, g, g[c.choose(int(g.size()))]);
}
MC_INPUTS(pairs6, 1, "comparison and bitwise operations of all pairs of IPv6 addresses around every power of two")
{
  auto g = grid<u128>(true);
  pairs(c, g, g[c.choose(int(g.size()))]);
}
MC_INPUTS(two_bits4, 1, "all operations on IPv4 addresses with any two bits set, in all pairs")
{
  auto g = two_bits<uint32_t>();
  int k  = c.choose(int(g.size()) * 2);
  if (k & 1) one_address(c, g[k / 2]), c.outcome(S(g[k / 2]));
  else pairs(c, g, g[k / 2]);
}
MC_INPUTS(two_bits6, 1, "all operations on IPv6 addresses with any two bits set, in pairs with addresses around powers of two (in all pairs)")
{
  auto g = two_bits<u128>();
  int k  = c.choose(int(g.size()) * 2);
  if (k & 1) one_address(c, g[k / 2]), c.outcome(S(g[k / 2]));
  else pairs(c, c.thorough ? g : grid<u128>(true), g[k / 2]);
}

MC_INPUTS(families, 1, "comparison of all pairs of generic addresses of both families and invalid ones, made in different ways")
{
  struct X {
    IPAddr a;
    int family; // 0, 4, 6
    u128 v;
  };
  std::vector<X> all;
  for (uint32_t v : {0u, 1u, 0x01020304u, 0x7FFFFFFFu, ~0u})
    for (int how = 0; how < 3; ++how) {
      IPAddr a = how == 0 ? IPAddr(A(v)) : how == 1 ? IPAddr(IP6Addr::MAX) : IPAddr();
      if (how) a = A(v);
      all.push_back({a, 4, v});
      if (how == 0) all.push_back({a.invalidate(), 0, 0});
    }
  for (u128 v : {u128(0), u128(1), u128(0x01020304), u128(1) << 64, u128(0x01020304) << 96, u128(0xFFFF01020304), ~u128(0)})
    for (int how = 0; how < 3; ++how) {
      IPAddr a = how == 0 ? IPAddr(A(v)) : how == 1 ? IPAddr(IP4Addr::MAX) : IPAddr();
      if (how) a = A(v);
      all.push_back({a, 6, v});
      if (how == 0) all.push_back({a.invalidate(), 0, 0});
    }
  all.push_back({IPAddr(), 0, 0});
  all.push_back({IPAddr::INVALID, 0, 0});
  all.push_back({IPAddr("what"), 0, 0});
  int i = c.choose(int(all.size()));
  X &x  = all[i];
  auto name = [](X const &q) { return q.family ? mc::strf("IPv%d %s", q.family, S(q.v).c_str()) : string("invalid"); };
  for (X &y : all) {
    int want = x.family != y.family ? (x.family < y.family ? -1 : 1) : x.v < y.v ? -1 : x.v > y.v;
    relations(c, x.a, y.a, want, "IPAddr", name(x), name(y));
    MC_CHECK(c, x.a.is_same_family(y.a) == (x.family && x.family == y.family), "%s and %s are of the same family: %d", name(x).c_str(), name(y).c_str(), x.a.is_same_family(y.a));
    if (y.family == 4) MC_CHECK(c, (x.a == y.a.ip4()) == (want == 0) && (x.a != y.a.ip4()) == (want != 0) && (y.a.ip4() == x.a) == (want == 0) && (y.a.ip4() != x.a) == (want != 0), "%s against %s", name(x).c_str(), name(y).c_str());
    if (y.family == 6) MC_CHECK(c, (x.a == y.a.ip6()) == (want == 0) && (x.a != y.a.ip6()) == (want != 0) && (y.a.ip6() == x.a) == (want == 0) && (y.a.ip6() != x.a) == (want != 0), "%s against %s", name(x).c_str(), name(y).c_str());
  }
  MC_CHECK(c, x.a.is_valid() == (x.family != 0) && x.a.is_ip4() == (x.family == 4) && x.a.is_ip6() == (x.family == 6), "%s: valid %d ip4 %d ip6 %d", name(x).c_str(), x.a.is_valid(), x.a.is_ip4(), x.a.is_ip6());
  if (!x.family) {
    MC_CHECK(c, !x.a.is_loopback() && !x.a.is_multicast() && !x.a.is_link_local() && !x.a.is_private(), "an invalid address is of a class");
    IPAddr m = x.a;
    m &= IPMask(3), m |= IPMask(3);
    MC_CHECK(c, !m.is_valid(), "an invalid address with a mask is valid");
    sockaddr sa{};
    sa.sa_family = AF_UNIX;
    IPAddr q(A(7u));
    q.assign(&sa);
    MC_CHECK(c, !q.is_valid(), "the address of a unix socket address is valid");
    q = A(7u), q.assign(static_cast<sockaddr *>(nullptr));
    MC_CHECK(c, !q.is_valid(), "the address of a null socket address is valid");
    q = A(7u), q.assign(static_cast<sockaddr_in *>(nullptr));
    MC_CHECK(c, !q.is_valid(), "the address of a null IPv4 socket address is valid");
    q = A(7u), q.assign(static_cast<sockaddr_in6 *>(nullptr));
    MC_CHECK(c, !q.is_valid(), "the address of a null IPv6 socket address is valid");
  }
  c.outcome(mc::strf("%d", i));
}

// --- classes

MC_INPUTS(class4, 1, "classes of all IPv4 addresses of all networks of 16 bits, 8 addresses of each")
{
  unsigned hi = c.choose(256);
  for (unsigned lo = 0; lo < 256; ++lo)
    for (unsigned low : {0u, 1u, 0xFFu, 0x100u, 0x7FFFu, 0x8000u, 0xFFFEu, 0xFFFFu}) {
      uint32_t v = hi << 24 | lo << 16 | low;
      IP4Addr a  = A(v);
      IPAddr g(a);
      IPEndpoint ep(g);
      sockaddr const *sa = &ep.sa;
      in_addr_t n        = htonl(v);
      namespace ip       = swoc::ip;
      bool loop = v >> 24 == 127, multi = v >> 28 == 14, local = v >> 16 == 0xA9FE;
      bool priv = v >> 24 == 10 || (v >> 20) == 0xAC1 || v >> 16 == 0xC0A8 || v >> 22 == (100 << 2 | 1);
      auto is   = [&](char const *what, bool want, std::initializer_list<bool> got) {
        for (bool x : got) MC_CHECK(c, x == want, "%08x is %s: %d", v, what, x);
      };
      is("loopback", loop, {a.is_loopback(), g.is_loopback(), ep.is_loopback(), ip::is_loopback(sa), ip::is_loopback_host_order(v), ip::is_loopback_network_order(n)});
      is("multicast", multi, {a.is_multicast(), g.is_multicast(), ep.is_multicast(), IPEndpoint::is_multicast(sa), ip::is_multicast(sa), ip::is_multicast_host_order(v), ip::is_multicast_network_order(n)});
      is("link local", local, {a.is_link_local(), g.is_link_local(), ep.is_link_local(), IPEndpoint::is_link_local(sa), ip::is_link_local(sa), ip::is_link_local_host_order(v), ip::is_link_local_network_order(n)});
      is("private", priv, {a.is_private(), g.is_private(), ep.is_private(), IPEndpoint::is_private(sa), ip::is_private(sa), ip::is_private_host_order(v), ip::is_private_network_order(n)});
      is("any", v == 0, {a.is_any(), ep.is_any()});
    }
  c.outcome(mc::strf("%u", hi));
}
MC_INPUTS(class6, 1, "classes of IPv6 addresses with all values of the first 16 bits and 10 of the others")
{
  unsigned hi = c.choose(256);
  for (unsigned lo = 0; lo < 256; ++lo)
    for (u128 low : {u128(0), u128(1), u128(2), u128(0x100), u128(1) << 32, u128(0xFFFF) << 32, u128(1) << 63, u128(1) << 64, u128(1) << 111, ~u128(0) >> 16}) {
      u128 v    = u128(hi << 8 | lo) << 112 | low;
      IP6Addr a = A(v);
      IPAddr g(a);
      IPEndpoint ep(g);
      sockaddr const *sa = &ep.sa;
      in6_addr n         = a.network_order();
      namespace ip       = swoc::ip;
      auto is            = [&](char const *what, bool want, std::initializer_list<bool> got) {
        for (bool x : got) MC_CHECK(c, x == want, "%s is %s: %d", S(v).c_str(), what, x);
      };
      is("loopback", v == 1, {a.is_loopback(), g.is_loopback(), ep.is_loopback(), ip::is_loopback(sa), ip::is_loopback_network_order(n)});
      is("multicast", hi == 0xFF, {a.is_multicast(), g.is_multicast(), ep.is_multicast(), ip::is_multicast(sa), ip::is_multicast_network_order(n)});
      is("link local", (v >> 118) == 0x3FA, {a.is_link_local(), g.is_link_local(), ep.is_link_local(), ip::is_link_local(sa), ip::is_link_local_network_order(n)});
      is("private", (v >> 121) == 0x7E, {a.is_private(), g.is_private(), ep.is_private(), ip::is_private(sa), ip::is_private_network_order(n)});
      is("any", v == 0, {a.is_any(), ep.is_any()});
      is("mapped IPv4", v >> 32 == 0xFFFF, {a.is_mapped_ip4()});
    }
  c.outcome(mc::strf("%u", hi));
}
