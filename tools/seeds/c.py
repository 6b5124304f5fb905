bug("c05-root-red", "C05",
    [("code/src/RBTree.cc", """      _right->_parent = nullptr;
      root            = _right;
      root->_color    = Color::BLACK;
""", """      _right->_parent = nullptr;
      root            = _right;
""")],
    r"""
#include <swoc/RBTree.h>
#include <cstdio>
struct N : swoc::detail::RBNode {
  using C = Color;
  using D = Direction;
  C color() const { return _color; }
};
int main() {
  N a, b;
  N *root = static_cast<N *>(a.rebalance_after_insert());
  root->set_child(&b, N::D::RIGHT);
  root = static_cast<N *>(b.rebalance_after_insert());
  root = static_cast<N *>(a.remove());
  printf("%d %d\n", root == &b, root->color() == N::C::BLACK);
  return !(root == &b && root->color() == N::C::BLACK);
}""", "removal of the root that has only a right child", "the root stays red, later removals unbalance the tree")

MA = "code/src/MemArena.cc"
MH = "code/include/swoc/MemArena.h"
bug("c06-discard-not-last", "C06",
    [(MA, "      if (lfb->contains(span.data()) && lfb->allocated_data_end() == span.data_end()) {", "      if (lfb->contains(span.data())) {")],
    r"""
#include <swoc/MemArena.h>
#include <cstdio>
#include <cstring>
int main() {
  swoc::MemArena a{64};
  a.alloc(1);
  a.alloc(1100); // a second block
  auto first = a.alloc(16);
  auto last  = a.alloc(a.remaining()); // fill it, moved to the back
  memset(last.data(), 'x', last.size());
  a.discard(first); // is not the last allocation, nothing happens
  for (int i = 0; i < 40 && a.remaining(); ++i) {
    auto s = a.alloc(1);
    memset(s.data(), 'y', 1);
  }
  for (size_t i = 0; i < last.size(); ++i)
    if (static_cast<char *>(last.data())[i] != 'x') return puts("overwritten"), 1;
  return 0;
}""", "discard of an allocation that is not the last one of the block that was filled most recently", "later allocations overlap live ones")

bug("c07-freeze-reserved", "C07",
    [(MA, "  _frozen_reserved  = _active_reserved;\n", "  _frozen_reserved += _active_reserved;\n")],
    r"""
#include <swoc/MemArena.h>
#include <cstdio>
int main() {
  swoc::MemArena a{100};
  a.alloc(10);
  size_t first = a.reserved_size();
  a.freeze();
  a.alloc(10);
  size_t n = a.reserved_size() - first;
  a.freeze(); // drops the first generation
  printf("%zu %zu\n", a.reserved_size(), n);
  return a.reserved_size() != n;
}""", "a second freeze without thaw in between", "the reserved size counts released memory")

bug("c08-reentrant-make", "C08",
    [(MH, """    void *t     = _list._next;
    _list._next = _list._next->_next;
    return new (t) T(std::forward<Args>(args)...);
""", """    auto *item  = _list._next;
    auto *next  = item->_next;
    auto *z     = new (item) T(std::forward<Args>(args)...);
    _list._next = next;
    return z;
""")],
    r"""
#include <swoc/MemArena.h>
#include <cstdio>
struct Node;
static swoc::FixedArena<Node> *FA;
struct Node {
  Node *child = nullptr;
  long v;
  Node(long n) : v(n) { if (n > 0) child = FA->make(n - 1); }
};
int main() {
  swoc::MemArena a;
  swoc::FixedArena<Node> f(a);
  FA = &f;
  Node *x = f.make(0L), *y = f.make(0L);
  f.destroy(x), f.destroy(y);
  Node *z = f.make(1L); // makes its child in the same arena
  printf("%p %p\n", (void *)z, (void *)z->child);
  return z == z->child || z->v != 1 || z->child->v != 0;
}""", "an object whose constructor makes another object in the same arena, while reusable storage exists", "two live objects share their storage")

bug("c10-list-after", "C10",
    [("code/include/swoc/IntrusiveDList.h", "      L::prev_ptr(L::next_ptr(src._tail)) = src._tail;\n", "      L::prev_ptr(L::next_ptr(src._tail)) = src._head;\n")],
    r"""
#include <swoc/IntrusiveDList.h>
#include <cstdio>
struct I { I *_next = nullptr, *_prev = nullptr; };
using L = swoc::IntrusiveDList<swoc::IntrusiveLinkage<I>>;
int main() {
  I i[4];
  L l, k;
  l.append(&i[0]), l.append(&i[3]);
  k.append(&i[1]), k.append(&i[2]);
  l.insert_after(&i[0], k);
  int n = 0;
  for (auto spot = l.end(); spot.has_prev() && n < 9; ++n) --spot;
  printf("%d\n", n);
  return n != 4;
}""", "a list of two or more elements inserted after an element that is not last, then backward iteration", "backward iteration skips elements")

bug("c10-self-move", "C10",
    [("code/include/swoc/IntrusiveDList.h", "  if (this != &that) {\n    this->_head  = that._head;", "  if (this != &that || _head == _tail) {\n    this->_head  = that._head;")],
    r"""
#include <swoc/IntrusiveDList.h>
#include <cstdio>
struct I { I *_next = nullptr, *_prev = nullptr; };
using L = swoc::IntrusiveDList<swoc::IntrusiveLinkage<I>>;
int main() {
  I i;
  L l, &k = l;
  l.append(&i);
  l = std::move(k);
  printf("%zu\n", l.count());
  return l.count() != 1;
}""", "move assignment of a list of one element to itself", "the element is lost")

bug("c11-bucket-limit", "C11",
    [("code/include/swoc/IntrusiveHashMap.h", """      b->_v = nv;
      --b->_count;
""", """      b->_v = nv;
      if (--b->_count == 1 && !b->_mixed_p) {
        b->_link._next = nullptr; // single element
      }
""")],
    r"""
#include <swoc/IntrusiveHashMap.h>
#include <cstdio>
struct I { I *_next = nullptr, *_prev = nullptr; int k = 0; };
struct D {
  static I *&next_ptr(I *i) { return i->_next; }
  static I *&prev_ptr(I *i) { return i->_prev; }
  static int key_of(I *i) { return i->k; }
  static unsigned hash_of(int k) { return k; }
  static bool equal(int a, int b) { return a == b; }
};
int main() {
  swoc::IntrusiveHashMap<D> m;
  I i[4];
  i[0].k = i[1].k = 7;
  i[2].k = 8;
  i[3].k = 7;
  m.insert(&i[0]), m.insert(&i[1]), m.insert(&i[2]);
  m.erase(m.find(7));
  m.erase(m.find(7));
  m.erase(m.find(8));
  i[2].k = 7; // no longer in the map
  bool found = m.find(7) != m.end();
  printf("%d\n", found);
  return found || m.count() != 0;
}""", "erase of both elements of a key from a bucket that others were activated after", "the bucket refers to an element of another bucket, also after that is erased")

V = "code/include/swoc/Vectray.h"
bug("c09-move-sizes", "C09",
    [(V, """  if (DYNAMIC == that._store.index()) {
    _store = std::move""", """  if (DYNAMIC == that._store.index() && std::get<DYNAMIC>(that._store).size() >= N) {
    _store = std::move"""),
     (V, "    auto span = std::get<FIXED>(that._store).span();\n    this->reserve", "    auto span = that.items();\n    this->reserve")],
    r"""
#include <swoc/Vectray.h>
#include <cstdio>
struct T { static int moved; int v; T(int n) : v(n) {} T(T const &) = default; T(T &&t) : v(t.v) { ++moved; } };
int T::moved = 0;
int main() {
  swoc::Vectray<T, 1> a;
  a.push_back(T(1)), a.push_back(T(2));
  T const *p = a.data();
  swoc::Vectray<T, 4> b(std::move(a));
  printf("%zu %d\n", b.size(), b.data() == p);
  return !(b.size() == 2 && b.data() == p && a.size() == 0);
}""", "move from dynamic storage with fewer elements than the fixed capacity of the target", "the elements are moved one by one instead of taking the storage, leaving moved-from elements in the source")
