// C29: networks and masks.
#include "ip_common.h"

using swoc::IP4Net;
using swoc::IP4Range;
using swoc::IP6Net;
using swoc::IP6Range;
using swoc::IPNet;
using swoc::IPRange;
using swoc::IPRangeView;

template <typename I> struct Fam;
template <> struct Fam<uint32_t> { using R = IP4Range; using N = IP4Net; static constexpr unsigned W = 32; };
template <> struct Fam<u128> { using R = IP6Range; using N = IP6Net; static constexpr unsigned W = 128; };

template <typename I> static I host_bits(unsigned n) { return n == 0 ? I(~I(0)) : n == Fam<I>::W ? I(0) : I(I(~I(0)) >> n); }
/// The minimal sequence of networks of a range as pairs of address and width.
template <typename I> static std::vector<std::pair<I, unsigned>> minimal(I a, I b)
{
  std::vector<std::pair<I, unsigned>> z;
  for (;;) {
    unsigned n = Fam<I>::W;
    while (n > 0 && (a & host_bits<I>(n - 1)) == 0 && I(a + host_bits<I>(n - 1)) <= b && I(a + host_bits<I>(n - 1)) >= a) --n;
    z.push_back({a, n});
    I end = a + host_bits<I>(n);
    if (end >= b) return z;
    a = end + 1;
  }
}
template <typename I> static string show_n(std::vector<std::pair<I, unsigned>> const &v)
{
  string z;
  for (auto &[a, n] : v) z += S(a) + "/" + std::to_string(n) + " ";
  return z;
}
template <typename I> static void same_net(mc::Ctx &c, typename Fam<I>::N const &net, I a, unsigned n)
{
  MC_CHECK(c, !net.empty() && N(net.min()) == a && N(net.max()) == I(a | host_bits<I>(n)) && net.mask().width() == n && net.mask().is_valid(), "network %s-%s/%u expected %s/%u",
           S(N(net.min())).c_str(), S(N(net.max())).c_str(), net.mask().width(), S(a).c_str(), n);
  auto r = net.as_range();
  MC_CHECK(c, N(r.min()) == a && N(r.max()) == I(a | host_bits<I>(n)), "range of network %s/%u is %s-%s", S(a).c_str(), n, S(N(r.min())).c_str(), S(N(r.max())).c_str());
  IPNet g(IPAddr(A(a)), IPMask(n));
  MC_CHECK(c, g == net && net == g && !g.empty() && g.min() == IPAddr(net.min()) && g.max() == IPAddr(net.max()) && g.mask() == net.mask() && g.width() == n && g.as_range() == IPRange(r) &&
                  g.is_ip4() == (Fam<I>::W == 32) && g.is_ip6() == (Fam<I>::W == 128) && g.family() == r.family(),
           "generic network %s/%u", S(a).c_str(), n);
}
template <typename I> static void networks(mc::Ctx &c, I a, I b)
{
  using R = typename Fam<I>::R;
  R r(A(a), A(b));
  IPRange g(r);
  IPRangeView v;
  v.assign(r);
  IPMask m = r.network_mask(), mg = g.network_mask();
  std::vector<std::pair<I, unsigned>> want;
  if (a <= b) want = minimal(a, b);
  if (want.size() == 1)
    MC_CHECK(c, m.is_valid() && m.width() == want[0].second && mg == m, "mask of network %s-%s is %u, expected %u", S(a).c_str(), S(b).c_str(), m.width(), want[0].second);
  else MC_CHECK(c, !m.is_valid() && !mg.is_valid(), "mask of range %s-%s is %u", S(a).c_str(), S(b).c_str(), m.width());

  std::vector<std::pair<I, unsigned>> got;
  auto nets = r.networks();
  MC_CHECK(c, nets.empty() == (a > b), "networks of %s-%s empty is %d", S(a).c_str(), S(b).c_str(), nets.empty());
  size_t limit = 2 * Fam<I>::W;
  for (auto const &net : nets) {
    got.push_back({N(net.min()), net.mask().width()});
    MC_CHECK(c, got.size() <= limit, "%s-%s has too many networks: %s", S(a).c_str(), S(b).c_str(), show_n(got).c_str());
    if (got.size() <= want.size()) same_net<I>(c, net, want[got.size() - 1].first, want[got.size() - 1].second);
  }
  MC_CHECK(c, got == want, "networks of %s-%s are %s expected %s", S(a).c_str(), S(b).c_str(), show_n(got).c_str(), show_n(want).c_str());
  // as iterator, with the members of the iterator, and post increment
  got.clear();
  size_t k = 0;
  for (auto spot = nets.begin(), end = nets.end(); spot != end; ++k) {
    MC_CHECK(c, k < limit, "iterator of %s-%s does not end", S(a).c_str(), S(b).c_str());
    MC_CHECK(c, !(spot == end) && spot == spot && !(spot != spot), "equality of iterators");
    MC_CHECK(c, N(spot->addr()) == N((*spot).min()) && spot->mask() == (*spot).mask() && spot.mask() == spot->mask() && N(spot.addr()) == N(spot->addr()), "members of the iterator differ");
    auto copy = spot;
    if (k & 1) {
      auto was = spot++;
      MC_CHECK(c, was == copy && *was == *copy, "post increment returns another iterator");
    } else {
      auto &self = ++spot;
      MC_CHECK(c, &self == &spot, "increment returns another object");
    }
    MC_CHECK(c, spot != copy, "increment leads to an equal iterator");
    got.push_back({N(copy.addr()), copy.mask().width()});
  }
  MC_CHECK(c, got == want, "iterated networks of %s-%s are %s expected %s", S(a).c_str(), S(b).c_str(), show_n(got).c_str(), show_n(want).c_str());
  // generic
  k          = 0;
  auto check = [&](IPNet const &n) {
    bool ok = k < want.size() && n.min() == IPAddr(A(want[k].first)) && n.width() == want[k].second && n == IPNet(IPAddr(A(want[k].first)), IPMask(want[k].second)) &&
              n.max() == IPAddr(A(I(want[k].first | host_bits<I>(want[k].second))));
    MC_CHECK(c, ok, "generic network %zu of %s-%s is %u wide, expected %s", k, S(a).c_str(), S(b).c_str(), n.width(), show_n(want).c_str());
    ++k;
  };
  for (auto const &n : g.networks()) check(n);
  MC_CHECK(c, k == want.size(), "generic networks of %s-%s stop after %zu of %s", S(a).c_str(), S(b).c_str(), k, show_n(want).c_str());
  k        = 0;
  auto src = v.networks();
  for (auto spot = src.begin(); spot != src.end();) {
    auto x = spot++;
    MC_CHECK(c, x->addr() == (*x).min() && x->mask() == (*x).mask() && x != spot && !(x == spot), "generic iterator of %s-%s", S(a).c_str(), S(b).c_str());
    check(*x);
  }
  // the end of networks of another range and family is equal to no place in these
  if (!want.empty()) {
    IPRange other4(A(uint32_t(1)), A(uint32_t(2))), other6(A(u128(1)), A(u128(2))), none;
    for (auto *p : {&other4, &other6, &none}) {
      auto o = p->networks();
      if (p->family() == g.family()) continue;
      MC_CHECK(c, !(src.begin() == o.begin()) && src.begin() != o.begin() && !(o.begin() == src.begin()), "networks of different families are equal");
    }
    auto e = none.networks();
    MC_CHECK(c, e.begin() == e.end() && !(e.begin() != e.end()), "the invalid range has networks");
  }
  MC_CHECK(c, k == want.size(), "viewed networks of %s-%s stop after %zu of %s", S(a).c_str(), S(b).c_str(), k, show_n(want).c_str());
}
template <typename I> static void window(mc::Ctx &c, I base, int n)
{
  int lo = c.choose(n);
  for (int hi = 0; hi < n; ++hi) networks<I>(c, I(base + lo), I(base + hi));
  c.outcome(S(I(base + lo)));
}
MC_INPUTS(mask_pairs, 1, "all pairs of mask widths: order, equality, validity and clearing")
{
  unsigned n = c.choose(129);
  IPMask a(n);
  MC_CHECK(c, a.is_valid() && a.width() == n, "mask of %u bits is %u wide", n, a.width());
  for (unsigned m = 0; m <= 128; ++m) {
    IPMask b(m), k(b);
    MC_CHECK(c, (a == b) == (n == m) && (a != b) == (n != m) && (a < b) == (n < m), "masks of %u and %u bits", n, m);
    MC_CHECK(c, &k.clear() == &k && !k.is_valid() && k == IPMask() && k != a, "cleared mask of %u bits", m);
  }
  c.outcome(std::to_string(n));
}
MC_INPUTS(window4, 1, "all ranges within windows of 256 (1024) addresses at the ends of the IPv4 space and over the boundaries of 1, 2 and 3 octets and of the halves")
{
  int n = c.thorough ? 1024 : 256;
  static uint32_t const CENTER[] = {0x00000100, 0x0A010000, 0x01000000, 0x80000000, 0xC0000080};
  int k = c.choose(7);
  window<uint32_t>(c, k == 0 ? 0 : k == 1 ? uint32_t(-n) : CENTER[k - 2] - n / 2, n);
}
MC_INPUTS(window6, 1, "all ranges within windows of 160 (640) addresses at the ends of the IPv6 space and over boundaries of quads, of the 64 bit halves and of the halves of the space")
{
  int n = c.thorough ? 640 : 160;
  static u128 const CENTER[] = {u128(1) << 16, u128(5) << 48, u128(1) << 64, u128(0x1234) << 64, u128(1) << 112, u128(1) << 127};
  int k = c.choose(8);
  window<u128>(c, k == 0 ? u128(0) : k == 1 ? u128(-n) : CENTER[k - 2] - n / 2, n);
}
template <typename I> static void grid_pairs(mc::Ctx &c, bool all)
{
  auto g = grid<I>(all);
  I a    = g[c.choose(int(g.size()))];
  for (I b : g) networks<I>(c, a, b);
  c.outcome(S(a));
}
MC_INPUTS(grid4, 1, "all ranges between IPv4 addresses around powers of two") { grid_pairs<uint32_t>(c, true); }
MC_INPUTS(grid6, 1, "all ranges between IPv6 addresses around octet boundaries (all powers of two)") { grid_pairs<u128>(c, c.thorough); }
MC_INPUTS(single4, 1, "all IPv4 networks with one address more or less at either end, at 16 addresses")
{
  unsigned n = c.choose(33);
  auto g     = grid<uint32_t>(true);
  for (uint32_t x : g) {
    uint32_t h = host_bits<uint32_t>(n), a = x & ~h, b = x | h;
    for (int i = -1; i < 2; ++i)
      for (int j = -1; j < 2; ++j) networks<uint32_t>(c, a + i, b + j);
  }
  c.outcome(std::to_string(n));
}
MC_INPUTS(single6, 1, "all IPv6 networks with one address more or less at either end")
{
  unsigned n = c.choose(129);
  for (u128 x : grid<u128>(false)) {
    u128 h = host_bits<u128>(n), a = x & ~h, b = x | h;
    for (int i = -1; i < 2; ++i)
      for (int j = -1; j < 2; ++j) networks<u128>(c, a + i, b + j);
    if (!c.thorough && n % 16 > 1 && n % 16 < 15) break;
  }
  c.outcome(std::to_string(n));
}

// --- masks

template <typename I> static unsigned widest(I v)
{
  unsigned n = Fam<I>::W;
  while (n > 0 && (v & host_bits<I>(n - 1)) == 0) --n;
  return n;
}
template <typename I> static void mask_of(mc::Ctx &c, I v)
{
  unsigned w = widest(v);
  MC_CHECK(c, IPMask::mask_for(A(v)).width() == w, "mask for %s is %u, expected %u", S(v).c_str(), IPMask::mask_for(A(v)).width(), w);
  MC_CHECK(c, IPMask::mask_for(IPAddr(A(v))).width() == w, "mask for generic %s is %u, expected %u", S(v).c_str(), IPMask::mask_for(IPAddr(A(v))).width(), w);
}
MC_INPUTS(masks, 1, "all mask widths as addresses and back, all shifts; the largest network at all addresses with one, two or three bits set")
{
  unsigned n = c.choose(129);
  IPMask m(n);
  MC_CHECK(c, m.is_valid() && m.width() == n && m == IPMask(n) && !(m != IPMask(n)) && m != IPMask(n ^ 1), "mask %u", n);
  MC_CHECK(c, N(m.as_ip6()) == ~host_bits<u128>(n), "mask %u as address is %s", n, S(N(m.as_ip6())).c_str());
  MC_CHECK(c, N(m.as_ip4()) == uint32_t(n < 32 ? ~host_bits<uint32_t>(n) : ~0u), "mask %u as IPv4 address is %s", n, S(N(m.as_ip4())).c_str());
  MC_CHECK(c, IPMask::mask_for(m.as_ip6()) == m, "mask %u and back is %u", n, IPMask::mask_for(m.as_ip6()).width());
  if (n <= 32) MC_CHECK(c, IPMask::mask_for(m.as_ip4()) == m, "mask %u and back by IPv4 is %u", n, IPMask::mask_for(m.as_ip4()).width());
  for (unsigned k = 0; k <= 128; ++k) {
    IPMask x(n), y(n);
    if (k <= n) MC_CHECK(c, (x <<= k).width() == n - k, "mask %u << %u is %u", n, k, x.width());
    if (n + k <= 128) MC_CHECK(c, (y >>= k).width() == n + k, "mask %u >> %u is %u", n, k, y.width());
    MC_CHECK(c, (IPMask(k) == m) == (k == n) && (IPMask(k) != m) == (k != n), "equality of masks %u and %u", n, k);
  }
  m.clear();
  MC_CHECK(c, !m.is_valid() && m == IPMask(), "cleared mask");
  MC_CHECK(c, !IPMask().is_valid() && !IPMask::mask_for(IPAddr()).is_valid(), "default mask, or mask for an invalid address is valid");
  mask_of<u128>(c, 0), mask_of<uint32_t>(c, 0), mask_of<u128>(c, ~u128(0)), mask_of<uint32_t>(c, ~0u);
  if (n < 128) {
    for (unsigned i = 0; i < 128; ++i) {
      for (unsigned j = 0; j <= i; ++j) mask_of<u128>(c, u128(1) << n | u128(1) << i | u128(1) << j);
      mask_of<u128>(c, ~(u128(1) << i) << n);
    }
  }
  if (n < 32)
    for (unsigned i = 0; i < 32; ++i) {
      for (unsigned j = 0; j <= i; ++j) mask_of<uint32_t>(c, 1u << n | 1u << i | 1u << j);
      mask_of<uint32_t>(c, ~(1u << i) << n);
    }
  c.outcome(std::to_string(n));
}

// --- networks as values

template <typename I> static void one_net(mc::Ctx &c, I v, unsigned n)
{
  using Net = typename Fam<I>::N;
  I a       = v & ~host_bits<I>(n);
  Net net(A(v), IPMask(n)), other, same(A(I(a | host_bits<I>(n))), IPMask(n));
  same_net<I>(c, net, a, n);
  MC_CHECK(c, net == same && !(net != same), "network %s/%u from its ends differs", S(a).c_str(), n);
  MC_CHECK(c, other.empty() && other.as_range().empty() && other != net && !(other == net), "default network");
  MC_CHECK(c, &other.assign(A(v), IPMask(n)) == &other, "assign returns another object");
  MC_CHECK(c, other == net && !(other != net), "assigned network %s/%u differs", S(a).c_str(), n);
  IPNet g(IPAddr(A(v)), IPMask(n)), h;
  MC_CHECK(c, h.empty() && h.as_range().empty() && h != g && !(h == g) && !h.is_ip4() && !h.is_ip6(), "default generic network");
  h.assign(IPAddr(A(v)), IPMask(n));
  MC_CHECK(c, g == h && !(g != h) && g == net && net == g, "generic network %s/%u differs", S(a).c_str(), n);
  if constexpr (Fam<I>::W == 32) MC_CHECK(c, g.ip4() == net && !(g == IP6Net(IP6Addr(), IPMask(n))), "generic network %s/%u differs as IPv4", S(a).c_str(), n);
  else MC_CHECK(c, g.ip6() == net && !(g == IP4Net(IP4Addr(), IPMask(n))), "generic network %s/%u differs as IPv6", S(a).c_str(), n);
  auto [net_addr, net_mask] = net;
  auto [gen_addr, gen_mask] = g;
  MC_CHECK(c, N(net_addr) == a && net_mask == IPMask(n) && gen_addr == IPAddr(A(a)) && gen_mask == IPMask(n), "network %s/%u as pair differs", S(a).c_str(), n);
  // other networks
  if (n < Fam<I>::W) {
    for (Net x : {Net(A(v), IPMask(n + 1)), Net(A(I(a | (host_bits<I>(n) & ~host_bits<I>(n + 1)))), IPMask(n + 1))}) {
      IPNet y(IPAddr(x.min()), x.mask());
      MC_CHECK(c, net != x && !(net == x) && g != y && !(g == y) && !(g == x) && !(x == g), "network %s/%u is equal to one of its halves", S(a).c_str(), n);
    }
  }
  if (n > 0) {
    Net x(A(I(a ^ (host_bits<I>(n - 1) & ~host_bits<I>(n)))), IPMask(n));
    MC_CHECK(c, net != x && !(net == x) && !(g == x) && g != IPNet(IPAddr(x.min()), IPMask(n)), "network %s/%u is equal to the one beside it", S(a).c_str(), n);
  }
  // text
  string w = [&] {
    swoc::LocalBufferWriter<100> b;
    b.print("{}/{}", A(a), n);
    return string(b.view());
  }();
  swoc::LocalBufferWriter<300> out;
  out.print("{}|{}|{}", net, g, IPMask(n));
  MC_CHECK(c, out.view() == w + "|" + w + "|" + std::to_string(n), "network %s prints as '%s'", w.c_str(), string(out.view()).c_str());
  I mask = ~host_bits<I>(n);
  swoc::LocalBufferWriter<100> t;
  t.print("{}/{}", A(v), A(mask));
  for (string const &s : {w, string(t.view())}) {
    Exact m(s);
    Net x(A(I(~v)), IPMask(1)), y(m.sv());
    MC_CHECK(c, x.load(m.sv()) && x == net && y == net, "network '%s' loads as %s/%u", s.c_str(), S(N(x.min())).c_str(), x.mask().width());
    IPNet p, q(m.sv());
    MC_CHECK(c, p.load(m.sv()) && p == g && q == g, "generic network '%s' loads as another one", s.c_str());
  }
  net.clear(), g.clear();
  MC_CHECK(c, net.empty() && net == Net() && net.as_range().empty() && g.empty() && g == IPNet() && g.as_range().empty(), "cleared network of %s/%u", S(a).c_str(), n);
}
MC_INPUTS(values4, 1, "all IPv4 addresses around powers of two with all mask widths as network: contents, equality, printed and loaded in both forms")
{
  auto g     = grid<uint32_t>(true);
  uint32_t v = g[c.choose(int(g.size()))];
  for (unsigned n = 0; n <= 32; ++n) one_net<uint32_t>(c, v, n);
  c.outcome(S(v));
}
MC_INPUTS(values6, 1, "all IPv6 addresses around octet boundaries (all powers of two) with all mask widths as network: contents, equality, printed and loaded in both forms")
{
  auto g = grid<u128>(c.thorough);
  u128 v = g[c.choose(int(g.size()))];
  for (unsigned n = 0; n <= 128; ++n) one_net<u128>(c, v, n);
  c.outcome(S(v));
}

// --- texts of networks

/// @a s as network of the family of @a I
template <typename I> static Verdict net_value(string const &s, I &a, unsigned &w)
{
  size_t k = s.rfind('/');
  if (k == string::npos || k + 1 == s.size()) return NO;
  auto value = [](string const &t, I &v) {
    if constexpr (sizeof(I) == 4) return ip4_value(t, v);
    else {
      V6 b{};
      Verdict z = ip6_value(t, b);
      v         = 0;
      for (auto x : b) v = v << 8 | x;
      return z;
    }
  };
  string mt = s.substr(k + 1);
  I m       = 0;
  Verdict z = value(s.substr(0, k), a), y = NO;
  if (z == NO) return NO;
  bool digits = true;
  for (char x : mt) digits &= x >= '0' && x <= '9';
  u128 num;
  if (digits && (mt == "0" || mt[0] != '0')) {
    unsigned long v = mt.size() > 4 ? 9999 : std::stoul(mt);
    if (v <= Fam<I>::W) w = unsigned(v), y = YES;
  } else if (c_number(trimmed(mt), num) != NO && num <= Fam<I>::W) {
    w = unsigned(num), y = EITHER; // other forms of number
  }
  if (y == NO) {
    y = value(mt, m);
    if (y != NO) {
      if ((~m & (~m + 1)) != 0) return NO; // not a mask
      w = widest(m);
      if (m == 0) w = 0;
      if (mt.find(sizeof(I) == 4 ? '.' : ':') == string::npos) y = EITHER; // a single number as mask address
    }
  }
  if (y == NO) return NO;
  a &= ~host_bits<I>(w);
  return z == YES && y == YES ? YES : EITHER;
}
static void load_net(mc::Ctx &c, string const &s)
{
  Exact t(s);
  uint32_t a4 = 0;
  u128 a6     = 0;
  unsigned w4 = 0, w6 = 0;
  Verdict z4 = net_value<uint32_t>(s, a4, w4), z6 = net_value<u128>(s, a6, w6);
  IP4Net n4(A(0x01020304u), IPMask(24)), m4(t.sv());
  IP6Net n6(A(u128(0x1234) << 112), IPMask(16)), m6(t.sv());
  bool g4 = n4.load(t.sv()), g6 = n6.load(t.sv());
  MC_CHECK(c, z4 == EITHER || g4 == (z4 == YES), "IP4Net '%s' %s", mc::show(s).c_str(), g4 ? "is accepted" : "is rejected");
  MC_CHECK(c, z6 == EITHER || g6 == (z6 == YES), "IP6Net '%s' %s", mc::show(s).c_str(), g6 ? "is accepted" : "is rejected");
  MC_CHECK(c, n4.empty() == !g4 && m4.empty() == !g4 && n6.empty() == !g6 && m6.empty() == !g6, "network '%s' is accepted %d %d but empty %d %d", mc::show(s).c_str(), g4, g6, n4.empty(), n6.empty());
  if (g4) same_net<uint32_t>(c, n4, a4, w4), same_net<uint32_t>(c, m4, a4, w4);
  if (g6) same_net<u128>(c, n6, a6, w6), same_net<u128>(c, m6, a6, w6);
  for (int old = 0; old < 3; ++old) {
    IPNet n = old == 0 ? IPNet(t.sv()) : old == 1 ? IPNet(IPAddr(A(0x01020304u)), IPMask(24)) : IPNet(IPAddr(A(u128(0x1234) << 112)), IPMask(16));
    bool g = old ? n.load(t.sv()) : !n.empty();
    MC_CHECK(c, n.empty() == !g, "IPNet '%s' is accepted %d but empty %d", mc::show(s).c_str(), g, n.empty());
    if (z4 == NO && z6 == NO) MC_CHECK(c, !g, "IPNet '%s' is accepted", mc::show(s).c_str());
    if (z6 == YES || (z4 == YES && s.find('.') < s.find('/'))) MC_CHECK(c, g, "IPNet '%s' is rejected", mc::show(s).c_str());
    if (g) {
      if (n.is_ip4()) same_net<uint32_t>(c, n.ip4(), a4, w4);
      else same_net<u128>(c, n.ip6(), a6, w6);
      MC_CHECK(c, n.is_ip4() ? z4 != NO : n.is_ip6() && z6 != NO, "IPNet '%s' is of family %d", mc::show(s).c_str(), n.family());
    } else {
      MC_CHECK(c, n.as_range().empty(), "IPNet '%s' is rejected but its range is not empty", mc::show(s).c_str());
    }
  }
}
MC_INPUTS(texts4, 3, "all texts of up to 6 (7) characters out of digits, dot, slash and others, as network of either family")
{
  string s = choose_text(c, c.thorough ? 7 : 6, "1025./ x");
  load_net(c, s);
  c.outcome(s);
}
MC_INPUTS(texts6, 3, "all texts of up to 7 (8) characters out of colon, hexadecimal digits and slash, as network of either family")
{
  string s = choose_text(c, c.thorough ? 8 : 7, ":1f8/F");
  load_net(c, s);
  c.outcome(s);
}
MC_INPUTS(mask_texts, 1, "8 addresses with all masks of 4 octets out of 12 values, all masks of up to 4 quads out of 9 values followed by zero, and all numbers up to 999")
{
  static char const *const ADDR[] = {"10.1.2.3", "255.255.255.255", "0.0.0.0", "1:2:3:4:5:6:7:8", "::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "1.2.3", "1::2::3"};
  static int const OCT[]          = {255, 0, 128, 254, 192, 224, 240, 248, 252, 127, 1, 129};
  static char const *const QUAD[] = {"ffff", "0", "8000", "fffe", "ff00", "c000", "7fff", "1", "fff8"};
  int k = c.choose(3);
  string m;
  if (k == 0) {
    for (int i = 0; i < 4; ++i) m += (i ? "." : "") + std::to_string(OCT[c.choose(12)]);
  } else if (k == 1) {
    int n = 1 + c.choose(4), f = c.choose(5);
    for (int i = 0; i < f; ++i) m += "ffff:";
    for (int i = 0; i < n && i + f < 8; ++i) m += string(QUAD[c.choose(9)]) + ":";
    if (n + f < 8) m += ":";
    else m.pop_back();
  } else {
    m = std::to_string(c.choose(1000));
  }
  for (auto a : ADDR) load_net(c, string(a) + "/" + m);
  load_net(c, m);
  load_net(c, "1.2.3.4/5/" + m);
  load_net(c, "1.2.3.4/" + m + "/");
  c.outcome(m);
}

MC_INPUTS(scale, 1, "each of 8 networks with every character, or a character of 9 in front of every character or at the end, repeated up to 70000 times")
{
  static string const TEXTS[] = {"10.1.2.3/8", "1.2.3.0/24", "::/0", "1:2::/127", "10.0.0.0/255.0.0.0", "fe80::/ffff::", "1.2.3.4", "0.0.0.0/00"};
  static int const COUNT[]    = {2, 3, 4, 5, 9, 17, 64, 127, 128, 129, 254, 255, 256, 257, 1000, 65536, 70000};
  string t(c.pick(TEXTS)), s(t);
  int n = c.pick(COUNT), kind = c.choose(10);
  if (n > 1000 && !c.thorough && t.size() % 5) return c.skip();
  for (size_t i = 0; i < t.size() + (kind > 0); ++i) {
    (s = t).insert(i, string(size_t(n) - (kind == 0), kind ? "0:. []/1-f"[kind] : t[i]));
    load_net(c, s);
  }
  c.outcome(mc::strf("%d %d ", n, kind) + t);
}
