// C04: DiscreteRange predicates and operations against sets of points.
#include "space_common.h"
#include <bitset>
#include <vector>

using Rel  = swoc::DiscreteRangeRelation;
using ERel = swoc::DiscreteRangeEdgeRelation;

// A universe: the metric values 0..n-1 of the model are U::at(i), consecutive in the metric when U::next(i).
template <int N> struct Small {
  using T                = sp::M<N>;
  static constexpr int n = N;
  static T at(int i) { return T(i); }
  static bool next(int) { return true; } // i and i+1 are neighbours
};
struct I8 {
  using T                = int8_t;
  static constexpr int n = 7;
  static T at(int i) { static const T v[] = {-128, -127, -1, 0, 1, 126, 127}; return v[i]; }
  static bool next(int i) { return i != 1 && i != 4; }
};
struct U32 {
  using T                = uint32_t;
  static constexpr int n = 6;
  static T at(int i) { static const T v[] = {0, 1, 2, 0x80000000u, 0xfffffffeu, 0xffffffffu}; return v[i]; }
  static bool next(int i) { return i != 2 && i != 3; }
};

template <typename U> struct Rng {
  int lo, hi; // model indices; lo > hi: empty
  using DR = swoc::DiscreteRange<typename U::T>;
  bool empty() const { return lo > hi; }
  DR make() const { return DR{U::at(lo), U::at(hi)}; }
  bool has(int i) const { return lo <= i && i <= hi; }
};
template <typename U> static bool subset(Rng<U> const &a, Rng<U> const &b) { return a.empty() || (!b.empty() && b.lo <= a.lo && a.hi <= b.hi); }
template <typename U> static bool adj(Rng<U> const &a, Rng<U> const &b) { return a.hi + 1 == b.lo && U::next(a.hi); }

template <typename U> static std::string text(Rng<U> const &r) { return mc::strf("[%d,%d]", r.lo, r.hi); }

template <typename U> static void one(mc::Ctx &c)
{
  Rng<U> a;
  a.lo = c.choose(U::n);
  a.hi = c.choose(U::n); // may be inverted: empty
  auto r = a.make();
  c.note("range %s", text(a).c_str());
  MC_CHECK(c, r.empty() == a.empty() && !r == a.empty() && bool(r) == !a.empty(), "emptiness of %s", text(a).c_str());
  for (int i = 0; i < U::n; ++i) MC_CHECK(c, r.contains(U::at(i)) == a.has(i), "contains(%d) of %s", i, text(a).c_str());
  if (!a.empty()) {
    MC_CHECK(c, r.is_singleton() == (a.lo == a.hi), "is_singleton of %s", text(a).c_str());
    MC_CHECK(c, r.is_maximal() == (a.lo == 0 && a.hi == U::n - 1), "is_maximal of %s", text(a).c_str());
    MC_CHECK(c, r.min() == U::at(a.lo) && r.max() == U::at(a.hi), "min or max of %s", text(a).c_str());
  }
  typename Rng<U>::DR s{U::at(a.lo)};
  MC_CHECK(c, s.min() == U::at(a.lo) && s.max() == U::at(a.lo) && s.is_singleton() && !s.empty(), "singleton construction");
  s.assign(U::at(a.lo), U::at(a.hi));
  MC_CHECK(c, s == r && !(s != r), "assign(min,max)");
  s.assign(U::at(a.hi));
  MC_CHECK(c, s.is_singleton() && s.contains(U::at(a.hi)), "assign(value)");
  s.assign_min(U::at(a.lo));
  MC_CHECK(c, s == r, "assign_min");
  s.assign_max(U::at(a.lo));
  MC_CHECK(c, s.max() == U::at(a.lo) && s.min() == U::at(a.lo), "assign_max");
  s = r;
  s.clear();
  MC_CHECK(c, s.empty() && !s, "cleared range is not empty");
  typename Rng<U>::DR d;
  MC_CHECK(c, d.empty() && d == s, "default range is not the empty range");
  for (int i = 0; i < U::n; ++i) MC_CHECK(c, !d.contains(U::at(i)), "empty range contains %d", i);
  if (a.lo < a.hi) {
    s = r;
    s.clip_max();
    auto m = U::at(a.hi);
    --m;
    MC_CHECK(c, s.max() == m && s.min() == r.min(), "clip_max of %s", text(a).c_str());
  }
  // the canonical empty range
  if (!a.empty()) {
    MC_CHECK(c, r.is_superset_of(d) && d.is_subset_of(r) && r.is_strict_superset_of(d) && d.is_strict_subset_of(r), "%s is not a superset of the empty range", text(a).c_str());
    MC_CHECK(c, !d.is_superset_of(r) && !r.is_subset_of(d), "the empty range is a superset of %s", text(a).c_str());
    MC_CHECK(c, !r.has_intersection_with(d) && !d.has_intersection_with(r), "%s has common values with the empty range", text(a).c_str());
    MC_CHECK(c, r.hull(d) == r && d.hull(r) == r, "hull of %s and the empty range", text(a).c_str());
    MC_CHECK(c, r.intersection(d).empty() && d.intersection(r).empty(), "intersection of %s and the empty range", text(a).c_str());
    auto h = d;
    h |= r;
    MC_CHECK(c, h == r, "empty |= %s", text(a).c_str());
    h = r;
    h |= d;
    MC_CHECK(c, h == r, "%s |= empty", text(a).c_str());
    h = r;
    h &= d;
    MC_CHECK(c, h.empty(), "%s &= empty", text(a).c_str());
  }
  c.outcome(text(a));
}

template <typename U> static void two(mc::Ctx &c)
{
  Rng<U> a, b;
  a.lo = c.choose(U::n);
  a.hi = a.lo + c.choose(U::n - a.lo);
  b.lo = c.choose(U::n);
  b.hi = b.lo + c.choose(U::n - b.lo);
  auto x = a.make(), y = b.make();
  auto t = text(a) + " " + text(b);
  c.note("%s", t.c_str());
  bool eq = a.lo == b.lo && a.hi == b.hi, sub = subset(a, b), sup = subset(b, a), common = a.lo <= b.hi && b.lo <= a.hi;
  MC_CHECK(c, (x == y) == eq && (x != y) == !eq, "equality of %s", t.c_str());
  MC_CHECK(c, x.is_subset_of(y) == sub && (x <= y) == sub, "subset of %s", t.c_str());
  MC_CHECK(c, x.is_superset_of(y) == sup && (x >= y) == sup, "superset of %s", t.c_str());
  MC_CHECK(c, x.is_strict_subset_of(y) == (sub && !eq) && (x < y) == (sub && !eq), "strict subset of %s", t.c_str());
  MC_CHECK(c, x.is_strict_superset_of(y) == (sup && !eq) && (x > y) == (sup && !eq), "strict superset of %s", t.c_str());
  MC_CHECK(c, x.has_intersection_with(y) == common && (x ^ y) == common, "common values of %s", t.c_str());
  auto in = x.intersection(y);
  MC_CHECK(c, in.empty() == !common, "emptiness of the intersection of %s", t.c_str());
  for (int i = 0; i < U::n; ++i) MC_CHECK(c, in.contains(U::at(i)) == (a.has(i) && b.has(i)), "intersection of %s at %d", t.c_str(), i);
  auto h = x.hull(y);
  MC_CHECK(c, h.min() == U::at(std::min(a.lo, b.lo)) && h.max() == U::at(std::max(a.hi, b.hi)), "hull of %s", t.c_str());
  auto z = x;
  z |= y;
  MC_CHECK(c, z == h, "|= of %s", t.c_str());
  z = x;
  z &= y;
  MC_CHECK(c, common ? z == in : z.empty(), "&= of %s", t.c_str());
  bool la = adj(a, b), ra = adj(b, a);
  MC_CHECK(c, x.is_left_adjacent_to(y) == la, "left adjacency of %s", t.c_str());
  MC_CHECK(c, x.is_adjacent_to(y) == (la || ra), "adjacency of %s", t.c_str());
  MC_CHECK(c, x.has_union(y) == (common || la || ra), "has_union of %s", t.c_str());
  Rel want = eq ? Rel::EQUAL : sub ? Rel::SUBSET : sup ? Rel::SUPERSET : common ? Rel::OVERLAP : (la || ra) ? Rel::ADJACENT : Rel::NONE;
  MC_CHECK(c, x.relationship(y) == want, "relationship of %s is %d, expected %d", t.c_str(), int(x.relationship(y)), int(want));
  ERel we = b.lo > a.hi ? (la ? ERel::ADJ : ERel::GAP) : b.lo < a.lo ? ERel::NONE : ERel::OVLP;
  MC_CHECK(c, x.left_edge_relationship(y) == we, "left edge relationship of %s is %d, expected %d", t.c_str(), int(x.left_edge_relationship(y)), int(we));
  c.outcome(mc::strf("%s %d %d", t.c_str(), int(want), int(we)));
}

/// Pairs of which at least one is empty, in any form: it has no values.
template <typename U> static void empties(mc::Ctx &c)
{
  Rng<U> a, b;
  a.lo = c.choose(U::n);
  a.hi = c.choose(U::n);
  b.lo = c.choose(U::n);
  b.hi = c.choose(U::n);
  if (!a.empty() && !b.empty()) c.skip();
  auto x = a.make(), y = b.make();
  auto t = text(a) + " " + text(b);
  c.note("%s", t.c_str());
  MC_CHECK(c, !x.has_intersection_with(y) && !(x ^ y), "%s have common values", t.c_str());
  MC_CHECK(c, x.intersection(y).empty(), "the intersection of %s is not empty", t.c_str());
  auto h = x.hull(y);
  for (int i = 0; i < U::n; ++i) MC_CHECK(c, h.contains(U::at(i)) == (a.has(i) || b.has(i)), "hull of %s at %d", t.c_str(), i);
  auto z = x;
  z |= y;
  for (int i = 0; i < U::n; ++i) MC_CHECK(c, z.contains(U::at(i)) == (a.has(i) || b.has(i)), "%s |= at %d", t.c_str(), i);
  z = x;
  z &= y;
  MC_CHECK(c, z.empty(), "&= of %s", t.c_str());
  c.outcome(t);
}

template <typename U> static void three(mc::Ctx &c)
{
  Rng<U> r[3];
  typename Rng<U>::DR d[3];
  for (int i = 0; i < 3; ++i) {
    r[i].lo = c.choose(U::n);
    r[i].hi = r[i].lo + c.choose(U::n - r[i].lo);
    d[i]    = r[i].make();
  }
  typename Rng<U>::DR::lexicographic_order lt;
  bool want = r[0].lo < r[1].lo || (r[0].lo == r[1].lo && r[0].hi < r[1].hi);
  MC_CHECK(c, lt(d[0], d[1]) == want, "lexicographic order of %s %s", text(r[0]).c_str(), text(r[1]).c_str());
  MC_CHECK(c, !(lt(d[0], d[1]) && lt(d[1], d[0])), "order is not antisymmetric");
  MC_CHECK(c, !(lt(d[0], d[1]) && lt(d[1], d[2])) || lt(d[0], d[2]), "order is not transitive");
  MC_CHECK(c, (!lt(d[0], d[1]) && !lt(d[1], d[0])) == (d[0] == d[1]), "order is not consistent with equality");
  MC_CHECK(c, d[0].hull(d[1]).hull(d[2]) == d[0].hull(d[1].hull(d[2])), "hull is not associative");
  c.outcome(text(r[0]) + text(r[1]) + text(r[2]));
}

MC_INPUTS(one_small, 2, "every range (also inverted) over a 7 value wrapping metric") { one<Small<7>>(c); }
MC_INPUTS(one_i8, 2, "every range over 7 values of int8_t including both limits") { one<I8>(c); }
MC_INPUTS(one_u32, 2, "every range over 6 values of uint32_t including both limits") { one<U32>(c); }
MC_INPUTS(two_small, 2, "every pair of ranges over an 8 value wrapping metric") { two<Small<8>>(c); }
MC_INPUTS(two_i8, 2, "every pair of ranges over 7 values of int8_t including both limits") { two<I8>(c); }
MC_INPUTS(two_u32, 2, "every pair of ranges over 6 values of uint32_t including both limits") { two<U32>(c); }
MC_INPUTS(empty_small, 2, "every pair with at least one range empty over a 6 value wrapping metric") { empties<Small<6>>(c); }
MC_INPUTS(empty_i8, 2, "every pair with at least one range empty over 7 values of int8_t") { empties<I8>(c); }
MC_INPUTS(three_small, 3, "every triple of ranges over a 5 (7) value metric: lexicographic order, associativity") { if (c.thorough) three<Small<7>>(c); else three<Small<5>>(c); }
