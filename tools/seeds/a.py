R = "code/include/swoc/DiscreteRange.h"
SPACE = r'''
#include <swoc/DiscreteRange.h>
#include <cstdio>
#include <map>
#include <string>
using swoc::DiscreteRange;
struct M { // a metric with the operations the space needs
  int v = 0;
  static constexpr int MIN = 0, MAX = 15;
  M() = default;
  M(int x) : v(x) {}
  M &operator++() { ++v; return *this; }
  M &operator--() { --v; return *this; }
  M operator++(int) { M z = *this; ++v; return z; }
  M operator--(int) { M z = *this; --v; return z; }
  bool operator<(M const &t) const { return v < t.v; }
  bool operator<=(M const &t) const { return v <= t.v; }
  bool operator>(M const &t) const { return v > t.v; }
  bool operator>=(M const &t) const { return v >= t.v; }
  bool operator==(M const &t) const { return v == t.v; }
  bool operator!=(M const &t) const { return v != t.v; }
};
template <> struct std::numeric_limits<M> : std::numeric_limits<int> {
  static M min() { return M(0); }
  static M max() { return M(15); }
};
using Space = swoc::DiscreteSpace<M, int>;
using Range = DiscreteRange<M>;
static std::string list(Space &s)
{
  std::string z;
  for (auto &n : s) z += std::to_string(n.range().min().v) + "-" + std::to_string(n.range().max().v) + ":" + std::to_string(n.payload()) + " ";
  return z;
}
static int expect(Space &s, char const *want)
{
  std::string got = list(s);
  if (got != want) printf("got %s expected %s\n", got.c_str(), want);
  return got != want;
}
'''

bug("c01-mark-shrink", "C01",
    [(R, """    x->assign_min(range.min());
    if (x->max() < range.max()) {
      x->assign_max(range.max());
    }""", """    x->assign_min(range.min()).assign_max(range.max());""")],
    SPACE + r"""
int main() {
  Space s;
  s.mark(Range{5, 9}, 1);
  s.mark(Range{2, 6}, 1);
  return expect(s, "2-9:1 ");
}""", "mark that starts before the first range and ends inside it, with the same payload", "the rest of the first range loses its payload")

bug("c02-fill-no-absorb", "C02",
    [(R, """        if (n->max() <= max) { // next range is covered, so we can remove and continue.
          this->remove(n);
          n = next(x);
        } else if (n->min() <= max_plus1) {""",
         """        if (n->max() <= max) { // next range is covered, so we can remove and continue.
          this->remove(n);
          n = next(x);
        } else if (n->min() <= max) {""")],
    SPACE + r"""
int main() {
  Space s;
  s.mark(Range{1, 5}, 1).mark(Range{10, 20}, 1);
  s.fill(Range{4, 9}, 1);
  return expect(s, "1-20:1 ");
}""",
    "fill that overlaps a range of the same payload on the left and touches (not overlaps) another one on the right", "touching ranges of equal payload are listed separately")


NODE = r"""
#include <swoc/RBTree.h>
#include <cstdio>
#include <vector>
using swoc::detail::RBNode;
struct N : RBNode {
  int key = 0;
  N *l() { return static_cast<N *>(_left); }
  N *r() { return static_cast<N *>(_right); }
  bool red() { return color() == Color::RED; }
  using RBNode::set_child;
  using D = Direction;
};
static bool bad = false;
static int height(N *n) {
  if (!n) return 0;
  int a = height(n->l()), b = height(n->r());
  if (a != b) bad = true;
  if (n->red() && ((n->l() && n->l()->red()) || (n->r() && n->r()->red()))) bad = true;
  return a + !n->red();
}
static N *insert(N *root, N *n) {
  if (!root) return static_cast<N *>(n->rebalance_after_insert());
  for (N *p = root;;) {
    N *c = n->key < p->key ? p->l() : p->r();
    if (!c) {
      p->set_child(n, n->key < p->key ? N::D::LEFT : N::D::RIGHT);
      return static_cast<N *>(n->rebalance_after_insert());
    }
    p = c;
  }
}
int main() {
  for (unsigned seed = 1; seed < 400 && !bad; ++seed) {
    std::vector<N> v(24);
    std::vector<int> order;
    for (int i = 0; i < 24; ++i) v[i].key = i, order.push_back(i);
    unsigned x = seed;
    auto shuffle = [&] { for (int i = 23; i > 0; --i) { x = x * 1664525u + 1013904223u; std::swap(order[i], order[(x >> 8) % (i + 1)]); } };
    N *root = nullptr;
    shuffle();
    for (int i : order) root = insert(root, &v[i]);
    shuffle();
    for (int i = 0; i < 24; ++i) {
      root = static_cast<N *>(v[order[i]].remove());
      height(root);
    }
  }
  if (bad) puts("not a red-black tree");
  return bad;
}
"""
bug("c05-rotate-fixup", "C05",
    [("code/src/RBTree.cc", """    child->structure_fixup();
    this->structure_fixup();
""", """    child->structure_fixup();
""")],
    NODE.replace("  using D =", """  int size = 1;
  void structure_fixup() override { size = 1 + (l() ? l()->size : 0) + (r() ? r()->size : 0); }
  using D =""").replace("if (a != b) bad", "if (n->size != 1 + (n->l() ? n->l()->size : 0) + (n->r() ? n->r()->size : 0)) bad"), "a removal that needs a double rotation of the sibling", "the subtree data of the rotated sibling is not updated")

bug("c06-align-from-base", "C06",
    [("code/src/MemArena.cc", "  return r >= (n + align_padding(this->data() + allocated, align));",
      "  return r >= (n + align_padding(this->data(), align));")],
    r"""
#include <swoc/MemArena.h>
#include <cstdio>
int main() {
  swoc::MemArena a{200};
  a.alloc(1);
  size_t n = a.remaining();
  for (size_t k = 0; k < 12; ++k) {
    try {
      auto s = a.alloc(n - k, 8);
      if (s.size() != n - k || (uintptr_t(s.data()) & 7)) return 1;
    } catch (std::exception const &x) {
      printf("aligned allocation failed: %s\n", x.what());
      return 1;
    }
    n = a.remaining();
    a.alloc(1);
    n = a.remaining();
    k = 0;
    static int rounds = 0;
    if (++rounds > 20) break;
  }
  return 0;
}""", "an aligned allocation that only fits the current block without its padding", "the allocation throws instead of using a new block")

bug("c07-discard-full-block", "C07",
    [("code/src/MemArena.cc", """        lfb->allocated -= span.size();
        _active_allocated -= span.size();
        if (!lfb""", """        lfb->allocated -= span.size();
        if (!lfb""")],
    r"""
#include <swoc/MemArena.h>
#include <cstdio>
int main() {
  swoc::MemArena a{64};
  a.alloc(1);
  a.alloc(a.remaining() + 40); // a second block
  auto first = a.alloc(a.remaining()); // fill it, moved to the back
  size_t before = a.size();
  a.discard(first);
  if (a.size() != before - first.size()) {
    printf("size %zu expected %zu\n", a.size(), before - first.size());
    return 1;
  }
  return 0;
}""", "discard of the last allocation of a block that it filled up, so the block had moved to the back", "the allocated size stays too large")

bug("c10-take-tail", "C10",
    [("code/include/swoc/IntrusiveDList.h", """  _count             -= n;
  _head               = spot;
  L::prev_ptr(_head)  = nullptr;
""", """  _count             -= n;
  _head               = spot;
  if (_head != _tail) {
    L::prev_ptr(_head)  = nullptr;
  }
""")],
    r"""
#include <swoc/IntrusiveDList.h>
#include <cstdio>
struct I { I *_next = nullptr, *_prev = nullptr; int v = 0; };
using L = swoc::IntrusiveDList<swoc::IntrusiveLinkage<I>>;
int main() {
  I i[3];
  L l;
  for (auto &x : i) l.append(&x);
  L k = l.take_prefix(2);
  auto spot = l.end();
  int n = 0;
  while (spot.has_prev() && n < 9) { --spot; ++n; }
  printf("%d elements backwards of %zu\n", n, l.count());
  return n != 1;
}""", "take_prefix that leaves exactly one element, then backward iteration or erase", "the remaining element still refers to an element of the other list")

bug("c11-erase-equal", "C11",
    [("code/include/swoc/IntrusiveHashMap.h", "    if (limit == nv) { // that was also the only element, deactivate bucket",
      "    if (limit == nv || (limit == nullptr && nv == _list.tail() && !b->_mixed_p)) { // that was also the only element, deactivate bucket")],
    r"""
#include <swoc/IntrusiveHashMap.h>
#include <cstdio>
struct I { I *_next = nullptr, *_prev = nullptr; int k = 0; };
struct D {
  static I *&next_ptr(I *i) { return i->_next; }
  static I *&prev_ptr(I *i) { return i->_prev; }
  static int key_of(I *i) { return i->k; }
  static unsigned hash_of(int k) { return k; }
  static bool equal(int a, int b) { return a == b; }
};
int main() {
  swoc::IntrusiveHashMap<D> m;
  I i[3];
  i[0].k = 5;
  i[1].k = i[2].k = 7;
  for (auto &x : i) m.insert(&x);
  m.erase(m.find(7));
  bool ok = m.find(7) != m.end();
  if (!ok) puts("remaining element of key 7 is lost");
  return !ok;
}""", "erase of the first of exactly two elements with an equal key in the most recently used bucket", "the other element can not be found any more")
