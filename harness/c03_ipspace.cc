// C03: IPSpace and IPRangeSet against a cell model of both address spaces.
#include "mc.h"
#include "space_common.h"
#include <memory>
#include <swoc/IPRange.h>
#include <swoc/swoc_ip.h>
using swoc::IP4Addr, swoc::IP6Addr, swoc::IPAddr, swoc::IP4Range, swoc::IP6Range, swoc::IPRange;
using U128 = unsigned __int128;

static U128 u128(uint64_t hi, uint64_t lo) { return (U128(hi) << 64) | lo; }
static IP6Addr a6(U128 v)
{
  in6_addr n;
  for (int i = 15; i >= 0; --i, v >>= 8) n.s6_addr[i] = uint8_t(v);
  return IP6Addr(n);
}
static U128 v6(IP6Addr const &a)
{
  in6_addr n = a.network_order();
  U128 r     = 0;
  for (int i = 0; i < 16; ++i) r = (r << 8) | n.s6_addr[i];
  return r;
}
static std::string hex(U128 v) { return mc::strf("%016llx:%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); }

// Sample points of one family.  Cells: point 0, gap 0-1, point 1, gap 1-2, ...
struct Family {
  bool six;
  std::vector<U128> pt;
  int cells() const { return 2 * int(pt.size()) - 1; }
  U128 lo(int c) const { return c % 2 ? pt[c / 2] + 1 : pt[c / 2]; }
  U128 hi(int c) const { return c % 2 ? pt[c / 2 + 1] - 1 : pt[c / 2]; }
  bool present(int c) const { return c % 2 == 0 || pt[c / 2] + 1 < pt[c / 2 + 1]; }
  IPAddr addr(U128 v) const { return six ? IPAddr(a6(v)) : IPAddr(IP4Addr(in_addr_t(v))); }
};

struct Seg {
  bool six;
  U128 lo, hi;
  int v;
  bool operator==(Seg const &o) const { return six == o.six && lo == o.lo && hi == o.hi && v == o.v; }
};
static std::string text(std::vector<Seg> const &v)
{
  std::string s;
  for (auto &x : v) s += mc::strf("%s[%s-%s]=%d ", x.six ? "6" : "4", hex(x.lo).c_str(), hex(x.hi).c_str(), x.v);
  return s;
}
static std::vector<Seg> segs(Family const &f, sp::Model const &m)
{
  std::vector<Seg> r;
  for (int c = 0; c < f.cells(); ++c) {
    if (m[c] < 0 || !f.present(c)) continue;
    if (!r.empty() && r.back().v == m[c] && r.back().hi + 1 == f.lo(c)) r.back().hi = f.hi(c);
    else r.push_back(Seg{f.six, f.lo(c), f.hi(c), m[c]});
  }
  return r;
}
template <typename V> static Seg seg_of(V const &v, int payload)
{
  IPRange r{v};
  if (r.is_ip4()) return Seg{false, r.ip4().min().host_order(), r.ip4().max().host_order(), payload};
  if (r.is_ip6()) return Seg{true, v6(r.ip6().min()), v6(r.ip6().max()), payload};
  return Seg{false, 1, 0, -9};
}

static Family fam(bool six, int n)
{
  Family f;
  f.six = six;
  if (!six) {
    if (n == 4) f.pt = {0, 1, 0x7fffffffu, 0xffffffffu};
    else if (n == 3) f.pt = {0, 0x0a0000ffu, 0xffffffffu};
    else f.pt = {0, 1, 0x0a0000ffu, 0x0a000100u, 0xfffffffeu, 0xffffffffu};
  } else {
    if (n == 4) f.pt = {0, u128(0, ~0ull), u128(1, 0), u128(~0ull, ~0ull)};
    else if (n == 3) f.pt = {0, u128(1, ~0ull), u128(~0ull, ~0ull)};
    else f.pt = {0, 1, u128(0, ~0ull), u128(1, 0), u128(~0ull, ~0ull - 1), u128(~0ull, ~0ull)};
  }
  return f;
}

using Space = swoc::IPSpace<int>;

static std::vector<Seg> collect(mc::Ctx &c, Space::iterator spot, Space::iterator limit, char const *what)
{
  std::vector<Seg> r;
  for (; spot != limit; ++spot) {
    r.push_back(seg_of(spot->range(), spot->payload()));
    MC_CHECK(c, r.size() < 64, "%s does not end", what);
    MC_CHECK(c, seg_of(spot->range_view(), spot->payload()) == r.back(), "range view and range differ in %s", what);
  }
  return r;
}

static void verify(mc::Ctx &c, Space &s, Family const &f4, sp::Model const &m4, Family const &f6, sp::Model const &m6)
{
  auto w4 = segs(f4, m4), w6 = segs(f6, m6), all = w4;
  all.insert(all.end(), w6.begin(), w6.end());
  Space const &cs = s;
  MC_CHECK(c, s.count() == all.size(), "count() %zu, expected %s", s.count(), text(all).c_str());
  MC_CHECK(c, s.count_ip4() == w4.size() && s.count(AF_INET) == w4.size(), "IPv4 count %zu/%zu, expected %s", s.count_ip4(), s.count(AF_INET), text(w4).c_str());
  MC_CHECK(c, s.count_ip6() == w6.size() && s.count(AF_INET6) == w6.size(), "IPv6 count %zu/%zu, expected %s", s.count_ip6(), s.count(AF_INET6), text(w6).c_str());
  MC_CHECK(c, s.count(AF_UNSPEC) == 0, "count of no family");
  MC_CHECK(c, s.empty() == all.empty(), "empty()");
  auto got = collect(c, s.begin(), s.end(), "iteration");
  MC_CHECK(c, got == all, "iteration lists %s, expected %s", text(got).c_str(), text(all).c_str());
  got = collect(c, s.begin_ip4(), s.end_ip4(), "IPv4 iteration");
  MC_CHECK(c, got == w4, "IPv4 iteration lists %s, expected %s", text(got).c_str(), text(w4).c_str());
  got = collect(c, s.begin_ip6(), s.end_ip6(), "IPv6 iteration");
  MC_CHECK(c, got == w6, "IPv6 iteration lists %s, expected %s", text(got).c_str(), text(w6).c_str());
  auto ccollect = [&](Space::const_iterator spot, Space::const_iterator limit) {
    std::vector<Seg> r;
    for (; spot != limit && r.size() < 64; spot++) r.push_back(seg_of((*spot).range(), (*spot).payload()));
    return r;
  };
  MC_CHECK(c, ccollect(cs.begin(), cs.end()) == all, "const iteration is not %s", text(all).c_str());
  MC_CHECK(c, ccollect(cs.begin(AF_INET), cs.end(AF_INET)) == w4, "const iteration of AF_INET is not %s", text(w4).c_str());
  MC_CHECK(c, ccollect(cs.begin(AF_INET6), cs.end(AF_INET6)) == w6, "const iteration of AF_INET6 is not %s", text(w6).c_str());
  MC_CHECK(c, cs.begin(AF_UNSPEC) == cs.end(AF_UNSPEC), "iteration of no family is not empty");
  { // as pairs of range and payload, the payload by reference
    std::vector<Seg> r, cr;
    for (auto &&[range, payload] : s) {
      r.push_back(seg_of(range, payload));
      payload += 100;
    }
    for (auto &&[range, payload] : cs) cr.push_back(seg_of(range, payload - 100));
    MC_CHECK(c, r == all, "iteration of pairs lists %s, expected %s", text(r).c_str(), text(all).c_str());
    MC_CHECK(c, cr == all, "const iteration of pairs lists %s after changing the payloads, expected %s", text(cr).c_str(), text(all).c_str());
    r.clear();
    for (auto &&v : s) {
      r.push_back(seg_of(std::get<0>(v), std::get<1>(v) - 100));
      std::get<1>(v) -= 100;
    }
    MC_CHECK(c, r == all, "iteration by index lists %s, expected %s", text(r).c_str(), text(all).c_str());
  }
  { // backwards
    std::vector<Seg> r;
    for (auto spot = s.end(); spot != s.begin();) {
      --spot;
      r.insert(r.begin(), seg_of(spot->range(), spot->payload()));
      MC_CHECK(c, r.size() < 64, "backward iteration does not end");
    }
    MC_CHECK(c, r == all, "backward iteration lists %s, expected %s", text(r).c_str(), text(all).c_str());
    // zig-zag: forward i, back one, forward again
    if (!all.empty()) {
      auto spot = s.begin();
      for (size_t i = 0; i + 1 < all.size(); ++i) {
        ++spot;
        --spot;
        MC_CHECK(c, seg_of(spot->range(), spot->payload()) == all[i], "++ then -- from position %zu does not return", i);
        spot++;
        MC_CHECK(c, seg_of(spot->range(), spot->payload()) == all[i + 1], "iteration after -- is wrong at %zu", i + 1);
      }
      ++spot;
      MC_CHECK(c, spot == s.end(), "not at the end after the last range");
      spot--;
      MC_CHECK(c, seg_of(spot->range(), spot->payload()) == all.back(), "-- from the end is not the last range");
    }
  }
  for (int k = 0; k < 2; ++k) {
    auto const &f = k ? f6 : f4;
    auto const &m = k ? m6 : m4;
    auto const &w = k ? w6 : w4;
    for (int i = 0; i < f.cells(); ++i) {
      if (!f.present(i)) continue;
      for (U128 x : {f.lo(i), f.hi(i)}) {
        auto a    = f.addr(x);
        auto spot = s.find(a);
        int v     = spot == s.end() ? -1 : spot->payload();
        MC_CHECK(c, v == m[i], "find(%s %s) gives %d, expected %d", k ? "IPv6" : "IPv4", hex(x).c_str(), v, m[i]);
        auto cspot = cs.find(a);
        MC_CHECK(c, (cspot == cs.end() ? -1 : cspot->payload()) == m[i], "const find(%s) differs", hex(x).c_str());
        auto tspot = k ? s.find(a.ip6()) : s.find(a.ip4());
        MC_CHECK(c, tspot == spot, "typed find differs from find for %s", hex(x).c_str());
        if (v >= 0) {
          Seg sg = seg_of(spot->range(), v);
          MC_CHECK(c, sg.six == bool(k) && sg.lo <= x && x <= sg.hi, "find(%s) returned a range without it", hex(x).c_str());
          if (x == sg.lo) { // iterate from the range that was found, forward and backward
            size_t at = size_t(std::find(all.begin(), all.end(), sg) - all.begin());
            auto walk = [&](auto it, auto const &begin, auto const &end, char const *how) {
              auto back = it;
              for (size_t n = at; n < all.size(); ++n, ++it) MC_CHECK(c, it != end && seg_of(it->range(), it->payload()) == all[n], "iteration from %s find(%s) is wrong at %zu", how, hex(x).c_str(), n);
              MC_CHECK(c, it == end, "iteration from %s find(%s) does not reach the end", how, hex(x).c_str());
              for (size_t n = at; n > 0; --n) {
                MC_CHECK(c, back != begin && seg_of(back->range(), back->payload()) == all[n], "backward iteration from %s find(%s) is wrong at %zu", how, hex(x).c_str(), n);
                --back;
              }
              MC_CHECK(c, back == begin && seg_of(back->range(), back->payload()) == all[0], "backward iteration from %s find(%s) does not reach the start", how, hex(x).c_str());
            };
            walk(spot, s.begin(), s.end(), "generic");
            walk(cspot, cs.begin(), cs.end(), "constant");
            walk(tspot, s.begin(), s.end(), "typed");
            walk(k ? cs.find(a.ip6()) : cs.find(a.ip4()), cs.begin(), cs.end(), "constant typed");
          }
        }
      }
    }
    int P = int(f.pt.size());
    for (int i = 0; i < P; ++i)
      for (int j = i; j < P; ++j) {
        std::vector<Seg> expect;
        for (auto &sg : w) if (sg.lo <= f.pt[j] && f.pt[i] <= sg.hi) expect.push_back(sg);
        auto [b, e] = s.intersection(IPRange{f.addr(f.pt[i]), f.addr(f.pt[j])});
        auto in     = collect(c, b, e, "intersection");
        MC_CHECK(c, in == expect, "intersection lists %s, expected %s", text(in).c_str(), text(expect).c_str());
      }
  }
  MC_CHECK(c, s.find(IPAddr()) == s.end(), "an invalid address was found");
  auto none = s.intersection(IPRange());
  MC_CHECK(c, none.first == none.second, "an invalid range intersects");
}

/// One operation of any kind on the space, and on the model.
static void one_op(mc::Ctx &c, Space &s, Family (&f)[2], sp::Model (&m)[2], int nfn, int colors, int only = -1)
{
  int kind = c.choose(3 + nfn + 1);
  if (kind == 3 + nfn) {
    c.note("clear");
    s.clear();
    for (int k = 0; k < 2; ++k) m[k].assign(f[k].cells(), -1);
    return;
  }
  bool six = only < 0 ? c.flag() : only;
  auto &fm = f[six];
  int i    = c.choose(int(fm.pt.size()));
  int j    = i + c.choose(int(fm.pt.size()) - i);
  sp::Op op{kind < 3 ? sp::Op::Kind(kind) : sp::Op::BLEND, 2 * i, 2 * j, kind == 1 ? 0 : 1 + c.choose(colors), kind < 3 ? 0 : (kind == 3 ? 0 : 2)};
  c.note("IPv%c points %d-%d: %s", six ? '6' : '4', i, j, sp::text(op).c_str());
  IPRange r{fm.addr(fm.pt[i]), fm.addr(fm.pt[j])};
  auto fn = [&](int &lhs, int rhs) { return sp::blend_fn(op.fn, lhs, rhs); };
  switch (op.kind) {
  case sp::Op::MARK: s.mark(r, op.color); break;
  case sp::Op::ERASE: s.erase(r); break;
  case sp::Op::FILL: s.fill(r, op.color); break;
  case sp::Op::BLEND:
    if (op.color == 1) s.blend(r, op.color, fn);
    else if (six) s.blend(r.ip6(), op.color, fn);
    else s.blend(r.ip4(), op.color, fn);
    break;
  }
  sp::apply(m[six], op);
}
static void histories(mc::Ctx &c, int depth, int npts, int nfn)
{
  Family f[2] = {fam(false, npts), fam(true, npts)};
  sp::Model m[2];
  for (int k = 0; k < 2; ++k) m[k].assign(f[k].cells(), -1);
  auto s = std::make_unique<Space>();
  for (int d = 0; d < depth; ++d) {
    one_op(c, *s, f, m, nfn, 2);
    c.step();
    if (c.pos > c.fresh_from) {
      verify(c, *s, f[0], m[0], f[1], m[1]);
      auto key = sp::text(m[0]) + "/" + sp::text(m[1]);
      c.state(key);
      if (d + 1 < depth) c.prune(key, depth - d - 1);
    }
  }
}
MC_HISTORIES(between, 4, "every content of 3 points of a family next to 2 ranges of the other one, then lookups in 5 ways (or none), then 2 operations of 6 kinds without a look in between")
{
  Family f[2] = {fam(false, 3), fam(true, 3)};
  sp::Model m[2];
  for (int k = 0; k < 2; ++k) m[k].assign(f[k].cells(), -1);
  Space s;
  int six = c.flag();
  for (int k : {six, 1 - six})
    for (int i = 0; i < 3; ++i) {
      int color = k == six ? c.choose(3) : 2 - i;
      if (color == 0) continue;
      s.mark(IPRange{f[k].addr(f[k].pt[i]), f[k].addr(f[k].pt[i])}, color);
      sp::apply(m[k], sp::Op{sp::Op::MARK, 2 * i, 2 * i, color, 0});
      c.note("IPv%c point %d: mark %d", k ? '6' : '4', i, color);
    }
  int look = c.choose(6);
  if (look < 3) c.note("find point %d", look), s.find(f[six].addr(f[six].pt[look]));
  else if (look == 3) c.note("find all"), verify(c, s, f[0], m[0], f[1], m[1]);
  else if (look == 4) {
    c.note("count and iterate");
    size_t n = 0;
    for (auto const &x : s) n += !x.range().empty();
    MC_CHECK(c, n == s.count(), "%zu ranges listed, count is %zu", n, s.count());
  }
  for (int d = 0; d < 2; ++d) {
    one_op(c, s, f, m, 2, d == 0 || c.thorough ? 2 : 1, six);
    c.step();
  }
  verify(c, s, f[0], m[0], f[1], m[1]);
  c.state(sp::text(m[0]) + "/" + sp::text(m[1]));
}

MC_HISTORIES(both_families, 3, "histories of 3 operations (mark/fill/erase/2 blends/clear, IPv4, IPv6 and generic arguments) over 4 boundary points per family (limits, 64 bit carry), matched by content; iteration in both directions, per family iteration, counts, find of every cell, every intersection")
{
  histories(c, 3, c.thorough ? 4 : 3, 2);
}
MC_HISTORIES(boundaries, 3, "every history of 2 operations over 6 boundary points per family")
{
  histories(c, 2, 6, 2);
}
MC_HISTORIES(deep, 3, "histories of 4 (5) operations over 3 boundary points per family, matched by content")
{
  histories(c, c.thorough ? 5 : 4, 3, 1);
}

// Invalid (empty) arguments change nothing.
MC_HISTORIES(range_set, 3, "every history of 3 mark/fill/clear operations on an IPRangeSet over 4 boundary points per family: contains, iteration both ways, count")
{
  Family f[2] = {fam(false, 4), fam(true, 4)};
  sp::Model m[2];
  for (int k = 0; k < 2; ++k) m[k].assign(f[k].cells(), -1);
  swoc::IPRangeSet s;
  int depth = c.thorough ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    int kind = c.choose(4);
    if (kind == 3) {
      s.clear();
      for (int k = 0; k < 2; ++k) m[k].assign(f[k].cells(), -1);
      c.note("clear");
    } else if (kind == 2) {
      s.mark(IPRange());
      c.note("mark(invalid)");
    } else {
      bool six = c.flag();
      auto &fm = f[six];
      int i    = c.choose(int(fm.pt.size()));
      int j    = i + c.choose(int(fm.pt.size()) - i);
      IPRange r{fm.addr(fm.pt[i]), fm.addr(fm.pt[j])};
      c.note("%s IPv%c points %d-%d", kind ? "fill" : "mark", six ? '6' : '4', i, j);
      if (kind == 0) s.mark(r);
      else s.fill(r);
      sp::apply(m[six], sp::Op{sp::Op::MARK, 2 * i, 2 * j, 0, 0});
    }
    c.step();
    if (c.pos <= c.fresh_from) continue;
    auto all = segs(f[0], m[0]), w6 = segs(f[1], m[1]);
    all.insert(all.end(), w6.begin(), w6.end());
    c.state(sp::text(m[0]) + sp::text(m[1]));
    MC_CHECK(c, s.count() == all.size() && s.empty() == all.empty(), "count %zu expected %zu", s.count(), all.size());
    std::vector<Seg> got, rev;
    for (auto spot = s.begin(); spot != s.end() && got.size() < 64; ++spot) {
      got.push_back(seg_of(*spot, 0));
      MC_CHECK(c, seg_of(*(spot.operator->()), 0) == got.back(), "operator-> and operator* differ");
    }
    MC_CHECK(c, got == all, "set lists %s, expected %s", text(got).c_str(), text(all).c_str());
    for (auto spot = s.end(); spot != s.begin() && rev.size() < 64;) {
      --spot;
      rev.insert(rev.begin(), seg_of(*spot, 0));
    }
    MC_CHECK(c, rev == all, "set lists backwards %s, expected %s", text(rev).c_str(), text(all).c_str());
    { // iterator forms that return the previous position, equality of all positions
      std::vector<swoc::IPRangeSet::const_iterator> at;
      auto spot = s.begin();
      while (at.size() < all.size()) {
        auto old = spot, was = spot++;
        MC_CHECK(c, was == old && !(was != old) && !(was == spot) && was != spot && seg_of(*was, 0) == all[at.size()], "iterator before the increment is not the previous one");
        at.push_back(was);
      }
      MC_CHECK(c, spot == s.end() && !(spot != s.end()), "incremented %zu times the iterator is not at the end", all.size());
      at.push_back(spot);
      for (size_t i = 0; i < at.size(); ++i)
        for (size_t k = 0; k < at.size(); ++k) MC_CHECK(c, (at[i] == at[k]) == (i == k) && (at[i] != at[k]) == (i != k), "equality of iterators %zu and %zu", i, k);
      for (size_t k = all.size(); k > 0; --k) {
        auto was = spot--;
        MC_CHECK(c, was == at[k] && spot == at[k - 1] && seg_of(*spot, 0) == all[k - 1], "iterator before or after the decrement");
      }
    }
    for (int k = 0; k < 2; ++k)
      for (int i = 0; i < f[k].cells(); ++i)
        if (f[k].present(i))
          for (U128 x : {f[k].lo(i), f[k].hi(i)}) MC_CHECK(c, s.contains(f[k].addr(x)) == (m[k][i] >= 0), "contains(%s) is wrong", hex(x).c_str());
    MC_CHECK(c, !s.contains(IPAddr()), "contains an invalid address");
  }
}

// A lot of ranges: an own, lighter verification.
MC_HISTORIES(many, 4, "spaces of 20..130 ranges per family (across all bits of the addresses, with and without gaps) added in 4 orders with the families interleaved, then 2 operations over 1, 2, 20 or all ranges of either family: listing in both directions, per family, find at and around every boundary, intersections")
{
  int n     = std::vector<int>{20, 65, 130}[c.choose(c.thorough ? 3 : 2)];
  int order = c.choose(4);
  bool gaps = c.flag();
  Family f[2];
  sp::Model m[2];
  Space s;
  Space const &cs = s;
  for (int k = 0; k < 2; ++k) { // point 3i starts range i, point 3i + 1 ends it and 3i + 2 is the address after
    f[k].six    = k;
    U128 stride = k ? u128(0x0123456789abcdull, 0x8000000000000001ull) : U128(0x01010101u);
    for (int i = 0; i < n; ++i) {
      U128 a = i * stride, b = gaps ? a + stride / 2 : a + stride - 1;
      f[k].pt.insert(f[k].pt.end(), {a, b - 1, b});
    }
    m[k].assign(f[k].cells(), -1);
  }
  auto apply = [&](int k, sp::Op const &op) {
    IPRange r{f[k].addr(f[k].lo(op.lo)), f[k].addr(f[k].hi(op.hi))};
    auto fn = [&](int &lhs, int rhs) { return sp::blend_fn(op.fn, lhs, rhs); };
    switch (op.kind) {
    case sp::Op::MARK: s.mark(r, op.color); break;
    case sp::Op::ERASE: s.erase(r); break;
    case sp::Op::FILL: s.fill(r, op.color); break;
    case sp::Op::BLEND: s.blend(r, op.color, fn); break;
    }
    sp::apply(m[k], op);
  };
  c.note("%d ranges %s gaps, order %d", n, gaps ? "with" : "without", order);
  for (int j = 0; j < n; ++j) {
    for (int k = 0; k < 2; ++k) {
      int i = order == 0 ? j : order == 1 ? n - 1 - j : order == 2 ? (j * 37 + 5) % n : (k ? j : n - 1 - j);
      apply(k, sp::Op{sp::Op::MARK, 6 * i, 6 * i + (gaps ? 2 : 4), 1 + i % 3, 0}); // without gaps the next range starts after this point
    }
  }
  for (int d = 0; d < 2; ++d) {
    int k    = c.choose(2);
    int kind = c.choose(d ? 3 : 5);
    int at   = c.choose(d ? 2 : 3), len = c.choose(d ? 3 : 4), off = c.choose(d ? 1 : 3);
    sp::Op op{};
    op.kind  = sp::Op::Kind(std::min(kind, 3));
    op.fn    = kind == 4 ? 2 : 0;
    op.color = d + 1;
    op.lo    = (at == 0 ? 0 : at == 1 ? n / 2 : n - 1) * 6 + off;
    op.hi    = std::min(f[k].cells() - 1, op.lo + (len == 0 ? 0 : len == 1 ? 6 : len == 2 ? 6 * 17 - 1 : 6 * n));
    while (!f[k].present(op.lo)) ++op.lo;
    while (!f[k].present(op.hi)) --op.hi;
    if (op.hi < op.lo) c.skip();
    c.note("IPv%c: %s", k ? '6' : '4', sp::text(op).c_str());
    apply(k, op);
    c.step();
  }
  auto w4 = segs(f[0], m[0]), w6 = segs(f[1], m[1]), all = w4;
  all.insert(all.end(), w6.begin(), w6.end());
  c.outcome(sp::text(m[0]) + sp::text(m[1]));
  MC_CHECK(c, s.count() == all.size() && s.count_ip4() == w4.size() && s.count_ip6() == w6.size() && s.count(AF_INET6) == w6.size(), "counts %zu, %zu, %zu instead of %zu, %zu, %zu", s.count(), s.count_ip4(), s.count_ip6(),
           all.size(), w4.size(), w6.size());
  auto list = [&](auto spot, auto const &limit, std::vector<Seg> const &want, char const *what) {
    size_t i = 0;
    for (; spot != limit; ++spot, ++i) MC_CHECK(c, i < want.size() && seg_of(spot->range(), spot->payload()) == want[i], "%s differs at range %zu", what, i);
    MC_CHECK(c, i == want.size(), "%s ends after %zu of %zu ranges", what, i, want.size());
  };
  list(s.begin(), s.end(), all, "iteration");
  list(cs.begin(), cs.end(), all, "constant iteration");
  list(s.begin_ip4(), s.end_ip4(), w4, "IPv4 iteration");
  list(cs.begin(AF_INET6), cs.end(AF_INET6), w6, "IPv6 iteration");
  auto back = s.end();
  for (size_t i = all.size(); i-- > 0;) {
    --back;
    MC_CHECK(c, seg_of(back->range(), back->payload()) == all[i], "backward iteration differs at range %zu", i);
  }
  MC_CHECK(c, back == s.begin(), "backward iteration does not end at the first range");
  for (int k = 0; k < 2; ++k) {
    for (int i = 0; i < f[k].cells(); ++i) {
      if (!f[k].present(i)) continue;
      for (U128 x : {f[k].lo(i), f[k].hi(i)}) {
        auto spot = s.find(f[k].addr(x));
        MC_CHECK(c, (spot == s.end() ? -1 : spot->payload()) == m[k][i], "find(%s)", hex(x).c_str());
      }
    }
    for (int i = 0; i < 7; ++i) {
      for (int j = i; j < 7; ++j) {
        U128 lo = f[k].pt[(f[k].pt.size() - 1) * i / 6], hi = f[k].pt[(f[k].pt.size() - 1) * j / 6];
        std::vector<Seg> expect;
        for (auto &sg : k ? w6 : w4)
          if (sg.lo <= hi && lo <= sg.hi) expect.push_back(sg);
        auto [b, e] = s.intersection(IPRange{f[k].addr(lo), f[k].addr(hi)});
        list(b, e, expect, "intersection");
      }
    }
  }
}
