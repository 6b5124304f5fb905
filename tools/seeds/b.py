R = "code/include/swoc/DiscreteRange.h"
IPR = "code/include/swoc/IPRange.h"

bug("c01-fill-clip-left", "C01",
    [(R, """      } else if (n->payload() != payload) { // different payload, clip range on left.
        min = n->max();
        ++min;
        n = next(n);""", """      } else if (n->payload() != payload) { // different payload, clip range on left.
        min = n->max();
        ++min;
        n = (min == max) ? nullptr : next(n);""")],
    SPACE + r"""
int main() {
  Space s;
  s.mark(Range{0, 4}, 1);
  s.mark(Range{5, 9}, 2);
  s.fill(Range{2, 5}, 3);
  return expect(s, "0-4:1 5-9:2 ");
}""", "fill with overlap on the left of a range with another payload, exactly one value beyond it which is already mapped", "the value gets two ranges")

bug("c02-blend-pred-right", "C02",
    [(R, """          n->assign_min(range_max_plus_1);
          if (pred_adj_p) {""", """          n->assign_min(range_max_plus_1);
          if (pred_adj_p && pred->min() < range.min()) {""")],
    SPACE + r"""
int main() {
  Space s;
  s.mark(Range{2, 3}, 1);
  s.mark(Range{6, 9}, 2);
  s.blend(Range{2, 7}, 7, [](int &l, int r) { l = r; return true; });
  return expect(s, "2-7:7 8-9:2 ");
}""", "blend over a whole range, a gap and part of the next range which get the same color", "two adjacent ranges with the same payload")

bug("c02-erase-end", "C02",
    [(R, """      } else { // @a n covers @a range, must split.
        auto y = _fa.make(range_type{n->min(), --metric_type{range.min()}}, n->payload());
        n->assign_min(++metric_type{range.max()});
        this->insert_before(n, y);""", """      } else { // @a n covers @a range, must split.
        auto y = _fa.make(range_type{++metric_type{range.max()}, n->max()}, n->payload());
        n->assign_max(--metric_type{range.min()});
        this->insert_before(n, y);""")],
    SPACE + r"""
int main() {
  Space s;
  s.mark(Range{1, 9}, 1);
  s.erase(Range{4, 5});
  return expect(s, "1-3:1 6-9:1 ");
}""", "erase strictly inside a range", "the ranges are listed out of order")

bug("c02-mark-adjacent-max", "C02",
    [(R, """    } else if (max_plus_1 < n->min()) { // no overlap, done.
      break;
    } else if (n->payload() == payload) { // skew overlap or adj., same payload""",
         """    } else if (max_plus_1 < n->min()) { // no overlap, done.
      break;
    } else if (n->payload() == payload && n->min() <= range.max()) { // skew overlap, same payload""")],
    SPACE + r"""
int main() {
  Space s;
  s.mark(Range{6, 9}, 1);
  s.mark(Range{0, 1}, 2);
  s.mark(Range{3, 5}, 1);
  return expect(s, "0-1:2 3-9:1 ");
}""", "mark that ends directly before a range with the same payload", "adjacent ranges with the same payload")

bug("c03-find-const-tail", "C03",
    [(IPR, """IPSpace<PAYLOAD>::find(IP4Addr const &addr) const -> const_iterator {
  if (auto spot = _ip4.find(addr); spot != _ip4.end()) {
    return {spot, _ip6.begin()};""", """IPSpace<PAYLOAD>::find(IP4Addr const &addr) const -> const_iterator {
  if (auto spot = _ip4.find(addr); spot != _ip4.end()) {
    return {spot, _ip6.end()};""")],
    r"""
#include <swoc/IPRange.h>
using namespace swoc;
int main() {
  IPSpace<int> s;
  s.mark(IPRange("10.0.0.0-10.0.0.9"), 1).mark(IPRange("::1-::9"), 2);
  IPSpace<int> const &c = s;
  auto spot = c.find(IP4Addr("10.0.0.5"));
  int n = 0;
  for (; spot != c.end() && n < 10; ++spot) ++n;
  return n != 2;
}""", "iteration from an IPv4 range that was found in a constant space with IPv6 ranges", "the IPv6 ranges are skipped")

bug("c03-iter-back", "C03",
    [(IPR, """    --_iter_4;
    _value.assign(this->r4(), _iter_4->payload());
    return *this;
  }
  _value.clear();""", """    --_iter_4;
    if (_iter_4.has_prev() || !_iter_6.has_next()) {
      _value.assign(this->r4(), _iter_4->payload());
    }
    return *this;
  }
  _value.clear();""")],
    r"""
#include <swoc/IPRange.h>
using namespace swoc;
int main() {
  IPSpace<int> s;
  s.mark(IPRange("10.0.0.0-10.0.0.9"), 1).mark(IPRange("::1-::9"), 2);
  auto spot = s.end();
  --spot;
  --spot;
  return (*spot).payload() != 1;
}""", "backward iteration to the first IPv4 range in a space with IPv6 ranges", "the iterator still shows the IPv6 range")

bug("c03-count-family", "C03",
    [(IPR, "return IP4Addr::AF_value == f ? _ip4.count() : IP6Addr::AF_value == f ? _ip6.count() : 0;", "return IP4Addr::AF_value == f ? _ip4.count() : _ip6.count();")],
    r"""
#include <swoc/IPRange.h>
using namespace swoc;
int main() {
  IPSpace<int> s;
  s.mark(IPRange("::1-::9"), 2);
  return s.count(AF_UNIX) != 0 || s.count(AF_UNSPEC) != 0;
}""", "the count of ranges of a family that is not an IP family", "counts the IPv6 ranges")

bug("c04-left-adjacent-wrap", "C04",
    [(R, "return _max < that._min && ++max == that._min;", "return ++max == that._min;")],
    r"""
#include <swoc/DiscreteRange.h>
#include <cstdint>
int main() {
  using R = swoc::DiscreteRange<uint8_t>;
  R a{7, 255}, b{0, 3};
  return a.is_left_adjacent_to(b) || a.has_union(b);
}""", "a range that ends at the maximum of the metric and one that starts at its minimum", "claims they are adjacent")

bug("c04-superset-strict", "C04",
    [(R, "return (_min < that._min && that._max <= _max) || (_min <= that._min && that._max < _max);", "return (_min < that._min && that._max < _max) || (_min < that._min && that._max <= _max) || (_min == that._min && that._max < _max && !(that._min == that._max));")],
    r"""
#include <swoc/DiscreteRange.h>
int main() {
  using R = swoc::DiscreteRange<int>;
  return !R(3, 9).is_strict_superset_of(R(3, 3)) || R(3, 3).is_strict_subset_of(R(3, 9)) == false;
}""", "single value range at the left end of another range", "not a strict superset")

bug("c04-hull-empty", "C04",
    [(R, "return !*this ? that : !that ? *this : self_type(", "return !*this ? that : that._max < that._min && that._min == detail::maximum<T>() ? *this : self_type(")],
    r"""
#include <swoc/DiscreteRange.h>
int main() {
  using R = swoc::DiscreteRange<int>;
  R h = R(5, 6).hull(R(3, 2));
  return !(h.min() == 5 && h.max() == 6);
}""", "hull with an empty range that is not the canonical empty range", "the hull contains more than both ranges")
