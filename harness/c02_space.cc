// C02: the list of ranges of a DiscreteSpace: sorted, disjoint, coalesced, complete; intersection; payload lifetime.
#include "space_common.h"
using namespace sp;

struct R { int lo, hi, v; };
static std::vector<R> runs(Model const &m)
{
  std::vector<R> r;
  int n = int(m.size());
  for (int i = 0; i < n;) {
    int j = i;
    while (j + 1 < n && m[j + 1] == m[i]) ++j;
    if (m[i] >= 0) r.push_back({i, j, m[i]});
    i = j + 1;
  }
  return r;
}
static std::string text(std::vector<R> const &v)
{
  std::string s;
  for (auto &r : v) s += mc::strf("[%d,%d]=%d ", r.lo, r.hi, r.v);
  return s;
}
static bool same(std::vector<R> const &a, std::vector<R> const &b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].lo != b[i].lo || a[i].hi != b[i].hi || a[i].v != b[i].v) return false;
  return true;
}

template <typename S> static void verify(mc::Ctx &c, S &sys, Model const &m)
{
  int n     = int(m.size());
  auto want = runs(m);
  auto &s   = sys.s;
  std::vector<R> got;
  for (auto spot = s.begin(), limit = s.end(); spot != limit; ++spot) {
    got.push_back({spot->range().min().v, spot->range().max().v, val(spot->payload())});
    MC_CHECK(c, got.size() <= 64, "forward iteration does not end");
  }
  for (size_t i = 0; i < got.size(); ++i) {
    MC_CHECK(c, got[i].lo <= got[i].hi, "empty range listed: %s", text(got).c_str());
    if (i > 0) {
      MC_CHECK(c, got[i - 1].hi < got[i].lo, "ranges not sorted or not disjoint: %s", text(got).c_str());
      MC_CHECK(c, !(got[i - 1].hi + 1 == got[i].lo && got[i - 1].v == got[i].v), "touching ranges with equal payload: %s", text(got).c_str());
    }
  }
  MC_CHECK(c, same(got, want), "listed %s, the history gives %s", text(got).c_str(), text(want).c_str());
  std::vector<R> rev;
  for (auto spot = s.end(); spot != s.begin();) {
    --spot;
    rev.insert(rev.begin(), R{spot->range().min().v, spot->range().max().v, val(spot->payload())});
    MC_CHECK(c, rev.size() <= 64, "backward iteration does not end");
  }
  MC_CHECK(c, same(rev, want), "listed backwards %s, forwards %s", text(rev).c_str(), text(want).c_str());
  auto const &cs = s;
  size_t k       = 0;
  for (auto spot = cs.begin(); spot != cs.end(); ++spot, ++k) {
    MC_CHECK(c, k < want.size() && spot->range().min().v == want[k].lo, "const iteration differs");
  }
  MC_CHECK(c, k == want.size(), "const iteration lists %zu of %zu ranges", k, want.size());
  MC_CHECK(c, s.count() == want.size(), "count() is %zu for %s", s.count(), text(want).c_str());
  MC_CHECK(c, s.empty() == want.empty(), "empty() is %d for %s", s.empty(), text(want).c_str());
  for (int x = 0; x < n; ++x) {
    auto spot = s.find(sys.conv(x));
    auto lb   = s.lower_bound(sys.conv(x)); // rightmost range that starts at or before x
    auto ub   = s.upper_bound(sys.conv(x)); // leftmost range that starts after x
    int iw = -1, il = -1, iu = -1;
    for (size_t i = 0; i < want.size(); ++i) {
      if (want[i].lo <= x && x <= want[i].hi) iw = int(i);
      if (want[i].lo <= x) il = int(i);
      if (want[i].lo > x && iu < 0) iu = int(i);
    }
    auto at = [&](int i) { auto it = s.begin(); while (i-- > 0) ++it; return it; };
    MC_CHECK(c, iw < 0 ? spot == s.end() : spot == at(iw), "find(%d) is not the listed range, %s", x, text(want).c_str());
    MC_CHECK(c, il < 0 ? lb == s.end() : lb == at(il), "lower_bound(%d) is wrong, %s", x, text(want).c_str());
    MC_CHECK(c, iu < 0 ? ub == s.end() : ub == at(iu), "upper_bound(%d) is wrong, %s", x, text(want).c_str());
    if (iw >= 0) { // iteration can continue from a found range in both directions
      auto nx = spot;
      ++nx;
      MC_CHECK(c, size_t(iw) + 1 < want.size() ? nx == at(iw + 1) : nx == s.end(), "increment from find(%d) is wrong", x);
    }
  }
  for (int lo = 0; lo < n; ++lo) {
    for (int hi = lo; hi < n; ++hi) {
      auto [spot, limit] = s.intersection(typename S::range_type{sys.conv(lo), sys.conv(hi)});
      std::vector<R> in, expect;
      for (auto it = spot; it != limit; ++it) {
        MC_CHECK(c, it != s.end() && in.size() < 64, "intersection([%d,%d]) runs past the end, %s", lo, hi, text(want).c_str());
        in.push_back({it->range().min().v, it->range().max().v, val(it->payload())});
      }
      for (auto &r : want) if (r.lo <= hi && lo <= r.hi) expect.push_back(r);
      MC_CHECK(c, same(in, expect), "intersection([%d,%d]) lists %s of %s", lo, hi, text(in).c_str(), text(want).c_str());
    }
  }
}

static void lifetime(mc::Ctx &c, long base, size_t n, char const *when)
{
  MC_CHECK(c, P::errors == 0, "payload used, assigned or destroyed after its destruction (%s)", when);
  MC_CHECK(c, P::live - base == long(n), "%ld payloads exist %s, %zu ranges", P::live - base, when, n);
}

template <int N> static void any_content_step(mc::Ctx &c, int nc, bool zero)
{
  long base = P::live;
  P::errors = 0;
  auto sys  = std::make_unique<Sys<M<N>, P>>();
  sys->conv = [](int x) { return M<N>(x); };
  Model m(N);
  for (int i = 0; i < N; ++i) m[i] = c.choose(nc + 1 + (zero ? 1 : 0)) - 1;
  if (!zero) for (auto &v : m) if (v >= 0) v += 1;
  int order = c.choose(3);
  construct(c, *sys, m, order);
  Op op = choose_op(c, N, nc, zero);
  c.note("content %s, then %s", text(m).c_str(), text(op).c_str());
  sys->apply(op);
  c.step();
  sp::apply(m, op);
  verify(c, *sys, m);
  lifetime(c, base, sys->s.count(), "after the operation");
  c.state(text(m));
  if (c.flag()) { // clear and use again
    sys->s.clear();
    c.note("clear");
    Model e(N, -1);
    verify(c, *sys, e);
    lifetime(c, base, 0, "after clear");
    sys->apply(op);
    sp::apply(e, op);
    verify(c, *sys, e);
  }
  sys.reset();
  lifetime(c, base, 0, "after destruction");
}

MC_HISTORIES(any_content_any_op, 5, "every coloring of a 5 (6) value metric with 2 colors in 3 build orders, then every operation over every range, optionally clear and reuse; whole listing, all intersections, bounds, payload lifetime")
{
  if (c.thorough) any_content_step<6>(c, 2, false);
  else any_content_step<5>(c, 2, false);
}
MC_HISTORIES(any_content_any_op_default_color, 4, "as any_content_any_op on 4 (5) values with colors 0..2, 0 equal to the default payload")
{
  if (c.thorough) any_content_step<5>(c, 2, true);
  else any_content_step<4>(c, 2, true);
}

MC_HISTORIES(histories_3, 4, "every history of 3 operations from empty over a 3 (4) value metric; listing and payload lifetime after each")
{
  auto run = [&](auto tag) {
    constexpr int N = decltype(tag)::value;
    long base       = P::live;
    P::errors       = 0;
    {
      auto sys  = std::make_unique<Sys<M<N>, P>>();
      sys->conv = [](int x) { return M<N>(x); };
      Model m(N, -1);
      for (int d = 0; d < 3; ++d) {
        Op op = choose_op(c, N, 2);
        c.note("%s", text(op).c_str());
        sys->apply(op);
        c.step();
        sp::apply(m, op);
        if (d == 2 || c.pos > c.fresh_from) {
          verify(c, *sys, m);
          lifetime(c, base, sys->s.count(), "after the operation");
          c.state(text(m));
        }
      }
    }
    lifetime(c, base, 0, "after destruction");
  };
  if (c.thorough) run(std::integral_constant<int, 4>());
  else run(std::integral_constant<int, 3>());
}

// Larger trees, lists and removals.
MC_HISTORIES(tree_shapes, 4, "5 (6) separated ranges inserted in every order, then 2 operations (mark/erase/fill/blend) over every range that starts and ends at range boundaries")
{
  constexpr int N = 13;
  int k           = c.thorough ? 6 : 5;
  long base       = P::live;
  P::errors       = 0;
  {
    auto sys  = std::make_unique<Sys<M<N>, P>>();
    sys->conv = [](int x) { return M<N>(x); };
    Model m(N, -1);
    std::vector<int> left;
    for (int i = 0; i < k; ++i) left.push_back(2 * i + 1);
    while (!left.empty()) {
      int i = c.choose(int(left.size()));
      Op op{Op::MARK, left[i], left[i], 1 + (left[i] / 2) % 2, 0};
      left.erase(left.begin() + i);
      c.note("%s", text(op).c_str());
      sys->apply(op);
      sp::apply(m, op);
    }
    for (int d = 0; d < 2; ++d) {
      Op op{};
      int kind = c.choose(4);
      op.kind  = Op::Kind(kind);
      op.fn    = 0;
      op.color = d ? 2 : 1;
      op.lo    = 1 + 2 * c.choose(k);
      op.hi    = op.lo + c.choose(std::min(6, 2 * k - op.lo));
      c.note("%s", text(op).c_str());
      sys->apply(op);
      c.step();
      sp::apply(m, op);
    }
    verify(c, *sys, m);
    lifetime(c, base, sys->s.count(), "after the operations");
    c.state(text(m));
  }
  lifetime(c, base, 0, "after destruction");
}

MC_HISTORIES(many, 4, "spaces of 15..130 (257) ranges, separated or touching, built in 4 orders, then 2 operations over 1, 2, 20 or all ranges at the ends, in the middle and off by one: the listing in both directions, bounds of every value, intersections, payload lifetime; destruction")
{
  long base = P::live;
  {
    auto z    = many<P>(c);
    auto &s   = z.s->s;
    auto want = runs(z.m);
    int n     = int(z.m.size());
    c.step();
    c.step();
    std::vector<decltype(s.begin())> at;
    for (auto spot = s.begin(); spot != s.end(); ++spot) {
      MC_CHECK(c, at.size() < want.size(), "more than %zu ranges are listed", want.size());
      auto const &w = want[at.size()];
      MC_CHECK(c, spot->range().min().v == w.lo && spot->range().max().v == w.hi && spot->payload().v == w.v, "range %zu is [%d,%d]=%d, the history gives [%d,%d]=%d", at.size(), spot->range().min().v,
               spot->range().max().v, spot->payload().v, w.lo, w.hi, w.v);
      at.push_back(spot);
    }
    MC_CHECK(c, at.size() == want.size() && s.count() == want.size() && s.empty() == want.empty(), "%zu ranges are listed and %zu counted of %zu", at.size(), s.count(), want.size());
    at.push_back(s.end());
    auto spot = s.end();
    for (size_t i = want.size(); i-- > 0;) MC_CHECK(c, --spot == at[i], "iteration backwards differs at range %zu", i);
    MC_CHECK(c, spot == s.begin(), "iteration backwards does not end at the first range");
    size_t below = 0; // ranges that start at or before x
    for (int x = 0; x < n; ++x) {
      while (below < want.size() && want[below].lo <= x) ++below;
      MC_CHECK(c, s.lower_bound(z.s->conv(x)) == (below ? at[below - 1] : s.end()), "lower_bound(%d)", x);
      MC_CHECK(c, s.upper_bound(z.s->conv(x)) == at[below], "upper_bound(%d)", x);
    }
    for (int i = 0; i < 13; ++i) {
      for (int j = i; j < 13; ++j) {
        int lo = (n - 1) * i / 12, hi = (n - 1) * j / 12;
        auto [a, b] = s.intersection(swoc::DiscreteRange<Wide<uint16_t>>{z.s->conv(lo), z.s->conv(hi)});
        size_t f = 0, l = 0;
        while (f < want.size() && want[f].hi < lo) ++f;
        while (l < want.size() && want[l].lo <= hi) ++l;
        MC_CHECK(c, f >= l ? a == b : a == at[f] && b == at[l], "intersection with [%d,%d]", lo, hi);
      }
    }
    lifetime(c, base, want.size(), "after the operations");
    c.outcome(text(z.m));
    if (c.flag()) {
      s.clear();
      lifetime(c, base, 0, "after clear");
      MC_CHECK(c, s.empty() && s.count() == 0 && s.begin() == s.end(), "cleared space is not empty");
      s.mark({z.s->conv(1), z.s->conv(2)}, P(1));
      MC_CHECK(c, s.count() == 1 && s.find(z.s->conv(1)) == s.begin(), "cleared space is not usable");
    }
  }
  lifetime(c, base, 0, "after destruction");
}

MC_HISTORIES(own_arguments, 5, "every coloring of a 5 value metric (6 in thorough) built in 3 orders, then every operation with a payload or range that is a reference to one in the space, then a mark")
{
  auto v = [&](auto &s, Model const &m) { verify(c, s, m); };
  if (c.thorough) own_arguments_step<6>(c, v);
  else own_arguments_step<5>(c, v);
}
